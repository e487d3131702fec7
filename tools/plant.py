"""plant.py ID PROPERTY [CHECK...]: takes the edit in /dev/shm/plant/ID (a git worktree-like copy of /repo with the change, and /verif/seeded/ID/demo.sh written), verifies
it (builds, tests pass, demo passes without and fails with it, changes only original lines), writes patch.diff, and runs all checks (or those given) against it.
   plant.py --new ID        makes the scratch copy /dev/shm/plant/ID
   plant.py --recheck [ID]  reruns the checks against recorded patches and updates caught_by"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
REPO, TOP, SEED = "/repo", "/dev/shm/plant", "/verif/seeded"
ALL = ["C%02d" % i for i in range(1, 23)]


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True, timeout=timeout)


def new(i):
    os.makedirs(TOP, exist_ok=True)
    d = os.path.join(TOP, i)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, d], check=True)
    return d


def run_checks(d, checks, par=4):
    """-> {check: (rc, violation line)}; runs a copy of the harness so that /verif/evidence stays."""
    v = d + "-verif"
    shutil.rmtree(v, ignore_errors=True)
    os.makedirs(v)
    shutil.copytree("/verif/harness", v + "/harness", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy("/verif/known-findings.txt", v)
    os.chmod(TOP, 0o755)
    def one(c):
        p = sh(["timeout", "900", "python3-vt", v + "/harness/run.py", c], v, {"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick", "PYTHONDONTWRITEBYTECODE": "1"}, 1000)
        line = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION property=%s " % c)]
        return c, (p.returncode, line[0] if line else p.stdout[-300:] + p.stderr[-300:])
    with ThreadPoolExecutor(par) as ex: res = dict(ex.map(one, checks))
    shutil.rmtree(v, ignore_errors=True)
    return res


def demo(i, cwd):
    t = "/dev/shm/plant/demo-" + i
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(os.path.join(SEED, i), t, ignore=shutil.ignore_patterns("*.diff", "meta.json", "__pycache__"))
    p = sh(["bash", t + "/demo.sh"], cwd, timeout=300)
    shutil.rmtree(t, ignore_errors=True)
    return p


def verify(i):
    d, s = os.path.join(TOP, i), os.path.join(SEED, i)
    diff = sh(["git", "diff"], d).stdout
    assert diff.strip(), "no change"
    ok = True
    blame_bad = []
    f = None
    for l in diff.split("\n"):
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if l.startswith("-") and not l.startswith("---"):
            b = sh(["git", "blame", "-s", "-L", "%d,%d" % (n, n), "HEAD", "--", f], REPO).stdout
            if not b.lstrip("^").startswith("60c8c6d"): blame_bad.append(b.strip())
            n += 1
        elif l.startswith(" "): n += 1
    if blame_bad: print("NOT ORIGINAL", *blame_bad, sep="\n")
    t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"], d)
    if not re.search(r"43 passed", t.stdout): print("TESTS", t.stdout[-1500:]); ok = False
    a, b = demo(i, REPO), demo(i, d)
    if a.returncode != 0: print("demo fails without:", a.stdout[-500:], a.stderr[-800:]); ok = False
    if b.returncode == 0: print("demo passes with the patch", b.stdout[-500:]); ok = False
    open(os.path.join(s, "patch.diff"), "w").write(diff)
    r = sh(["git", "apply", "--check", os.path.join(s, "patch.diff")], REPO)
    if r.returncode: print("apply", r.stderr); ok = False
    if sh(["git", "status", "--short"], REPO).stdout.strip(): print("REPO DIRTY")
    return ok


def record(i, res):
    mf = os.path.join(SEED, i, "meta.json")
    m = json.load(open(mf))
    caught = [c for c, (rc, l) in sorted(res.items()) if rc == 1 and l.startswith("VIOLATION")]
    bad = [(c, rc, l) for c, (rc, l) in sorted(res.items()) if rc not in (0, 1) or rc == 1 and not l.startswith("VIOLATION")]
    m["caught_by"] = caught
    json.dump(m, open(mf, "w"), indent=1)
    print(i, m["property"], "CAUGHT" if m["property"] in caught else "*** MISSED ***", caught, *bad, flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--new": print(new(a[1]))
    elif a[0] == "--recheck":
        for i in a[1:] or sorted(os.listdir(SEED)):
            d = new("re-" + i)
            r = sh(["git", "apply", os.path.join(SEED, i, "patch.diff")], d)
            assert r.returncode == 0, (i, r.stderr)
            record(i, run_checks(d, ALL, 6))
            shutil.rmtree(d)
    else:
        i = a[0]
        ok = verify(i)
        print(i, "OK" if ok else "NOT OK")
        if ok:
            record(i, run_checks(os.path.join(TOP, i), a[1:] or ALL))
