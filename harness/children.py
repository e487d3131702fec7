"""Programs of the library (the command-line tool, the table generator) run in children of a process which has imported the library's packages.
A child works in a scratch directory as an unprivileged user, so nothing it does reaches anything else."""
import io, os, pwd, runpy, shutil, signal, subprocess, sys, tempfile, time
import core

_base = None
UID = 65534
TIMEOUT_S = 60


def setup():
    global _base
    _base = tempfile.mkdtemp(prefix="vp-child-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.chmod(_base, 0o755)


def teardown():
    if _base: shutil.rmtree(_base, ignore_errors=True)


_n = 0


def scratch():
    global _n
    _n += 1
    d = os.path.join(_base, "%d-%d" % (os.getpid(), _n))
    os.mkdir(d)
    return d


def give(path):
    """to the unprivileged user"""
    if os.getuid() == 0: os.lchown(path, UID, UID)


def drop():
    if os.getuid() == 0:
        os.setgroups([])
        os.setresgid(UID, UID, UID)
        os.setresuid(UID, UID, UID)


def forked(argv, cwd, run, top):
    """run() in a forked child with these arguments: exit status, stdout, stderr"""
    o, e = os.path.join(top, "stdout"), os.path.join(top, "stderr")
    fo, fe = os.open(o, os.O_CREAT | os.O_RDWR), os.open(e, os.O_CREAT | os.O_RDWR)
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(TIMEOUT_S)
            os.dup2(fo, 1); os.dup2(fe, 2)
            os.dup2(os.open("/dev/null", os.O_RDONLY), 0)
            drop()
            os.chdir(cwd)
            sys.stdout, sys.stderr, sys.stdin = (open(k, m, closefd=False, encoding="utf-8", errors="strict" if k != 2 else "backslashreplace") for k, m in ((1, "w"), (2, "w"), (0, "r")))
            sys.argv = argv
            try:
                run()
                code = 0
            except SystemExit as x:
                code = x.code if isinstance(x.code, int) else 0 if x.code is None else 1
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            sys.stdout.flush(); sys.stderr.flush()
        finally:
            os._exit(code)
    os.close(fo); os.close(fe)
    _, st = os.waitpid(pid, 0)
    with open(o, "rb") as f: out = f.read()
    with open(e, "rb") as f: err = f.read()
    return os.waitstatus_to_exitcode(st), out, err


def spawned(argv, cwd, env=None, stdin=b""):
    kw = dict(user=UID, group=UID, extra_groups=[]) if os.getuid() == 0 else {}
    p = subprocess.run(argv, cwd=cwd, input=stdin, capture_output=True, timeout=TIMEOUT_S, env=env, **kw)
    return p.returncode, p.stdout, p.stderr
