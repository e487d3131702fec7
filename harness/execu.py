"""Running real commands, contained: in a scratch directory of their own, as an unprivileged user (where the sandbox permits to change the
user), without a shell, without a terminal, only commands of a fixed list and only words which cannot name anything outside."""
import os, re, shutil, signal, subprocess, tempfile
from core import Skip

COMMANDS = {}       # name -> path
for _c in "awk cat comm cut diff grep head mkfifo mv rm sed seq sort tail tee tr uniq wc xargs echo".split():
    for _d in ("/usr/bin", "/bin"):
        if os.access(os.path.join(_d, _c), os.X_OK):
            COMMANDS[_c] = os.path.join(_d, _c)
            break
ENV = dict(LC_ALL="C", PATH="/usr/bin:/bin", TZ="UTC", HOME="/nonexistent")
TIMEOUT_S = 20
MTIME = 1_000_000_000
_base, _user, _n = None, None, 0


def setup(seed=None, tier=None):
    global _base, _user
    _base = tempfile.mkdtemp(prefix="vp-exec-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    os.chmod(_base, 0o755)
    _user = {}
    if os.getuid() == 0:
        for user in (65534,):
            try:
                kw = dict(user=user, group=user, extra_groups=[])
                subprocess.run(["/bin/true"], check=True, cwd=_base, **kw)
                _user = kw
            except (OSError, subprocess.SubprocessError):
                pass


def teardown():
    if _base:
        shutil.rmtree(_base, ignore_errors=True)


def harmless(words):
    """no word names something outside of the scratch directory"""
    for w in words:
        if "\0" in w or ".." in w or "~" in w:
            return False
        parts = re.findall(r"/+([^/\s'\"]*)", w)
        if any(p and os.path.lexists("/" + p) for p in parts) or w.startswith("/") and not parts[0]:
            return False
    return True


class Result:
    def __init__(self, code, out, err, files, offset, changed):
        self.code, self.out, self.err, self.files, self.offset, self.changed = code, out, err, files, offset, changed

    def outcome(self):
        return (self.code, self.out, {k: v for k, v in self.files.items()})


def snapshot(root):
    out = {}
    for d, dirs, names in os.walk(root):
        rel = os.path.relpath(d, root)
        for n in dirs:
            p = os.path.join(d, n)
            out[os.path.normpath(os.path.join(rel, n))] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",)
        for n in names:
            p = os.path.join(d, n)
            key = os.path.normpath(os.path.join(rel, n))
            if os.path.islink(p):
                out[key] = ("link", os.readlink(p))
            elif os.path.isfile(p):
                try:
                    with open(p, "rb") as f: out[key] = ("file", f.read())
                except OSError:
                    out[key] = ("unreadable",)
            else:
                out[key] = ("special",)
    return out


def run(argv, files=None, stdin=b"", closed=False):
    """runs argv in a fresh directory with the given files (name -> bytes, or None for a directory).  offset: how much of stdin was read"""
    global _n
    if argv[0] not in COMMANDS or not harmless(argv[1:]):
        raise Skip()
    _n += 1
    top = os.path.join(_base, "%d-%d" % (os.getpid(), _n))
    work = os.path.join(top, "w")
    os.mkdir(top)
    try:
        os.mkdir(work)
        os.chmod(work, 0o777)
        for name, data in (files or {}).items():
            p = os.path.join(work, name)
            d = os.path.dirname(p)
            if not os.path.isdir(d):
                os.makedirs(d)
                os.chmod(d, 0o777)
            if data is None:
                os.makedirs(p, exist_ok=True)
                os.chmod(p, 0o777)
            else:
                with open(p, "wb") as f: f.write(data)
                os.chmod(p, 0o666)
        for name in (files or {}):
            os.utime(os.path.join(work, name), (MTIME, MTIME))
        before = snapshot(work)
        sname = os.path.join(top, "stdin")
        with open(sname, "wb") as f: f.write(stdin)
        os.chmod(sname, 0o644)
        os.utime(sname, (MTIME, MTIME))
        fd = os.open(sname, os.O_RDONLY)
        try:
            p = subprocess.Popen([argv[0]] + argv[1:], executable=COMMANDS[argv[0]], stdin=fd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work,
                                 env=ENV, start_new_session=True, umask=0, close_fds=True, **_user)
            try:
                out, err = p.communicate(timeout=TIMEOUT_S)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                raise Skip()
            offset = os.lseek(fd, 0, os.SEEK_CUR)
        except (ValueError, UnicodeEncodeError):
            raise Skip()
        finally:
            os.close(fd)
        after = snapshot(work)
        changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
        return Result(p.returncode, out, err, after, offset, changed)
    finally:
        shutil.rmtree(top, ignore_errors=True)
