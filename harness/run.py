"""run.py PROPERTY [--tier quick|thorough] [--scale X] [--only PART,...]   |   run.py --replay FILE"""
import os, sys
ENV = dict(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache")
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse
import core
sys.path.insert(0, core.REPO)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        code = core.replay(a.replay)
    else:
        seed = int(os.environ.get("VERIF_SEED", "1"))
        code = core.main(a.property, a.tier, seed, a.scale, a.only.split(",") if a.only else None)
    sys.stdout.flush()
    os._exit(code)
