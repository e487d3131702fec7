"""Framework of the checks: generated-input search with Hypothesis, sharded over processes, with shrinking, replay files,
known findings and evidence.

A check module (harness/checks/cNN.py) defines
  PROPERTY, LEVEL, RULE, ASSUMPTIONS
  subs()    -> list of Sub
  known()   -> dict of probes for known findings, optional
A Sub has a strategy of JSON-able cases and a function check(case) which raises Violation if the property does not hold, and
otherwise returns None (trivial case) or a list of labels (non-trivial case, labels for the distribution).
"""
import hashlib, importlib, json, os, signal, sys, time, traceback
import concurrent.futures, multiprocessing

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
REPLAYS = os.path.join(VERIF, "replays")
HANG_S = 120


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Skip(Exception):
    """the case is outside of the domain (only found out while executing it)"""


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, executes=False, regress=()):
        self.name, self.strategy, self.check = name, strategy, check
        self.examples = {"quick": quick, "thorough": thorough}
        self.executes = executes        # runs real commands
        self.regress = regress          # fixed cases (or a function giving them), run first


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation("%s:\n   got      %r\n   expected %r" % (what, got, want))


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def from_repo(exc):
    """whether the exception was raised by (or below) the code under test"""
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(REPO + os.sep):
            return True
    return False


def in_check(exc):
    """whether the exception was raised in a check itself (and not below it, in a library)"""
    return traceback.extract_tb(exc.__traceback__)[-1].filename.startswith(os.path.dirname(os.path.abspath(__file__)) + os.sep)


def run_case(sub, case):
    """labels or None; raises Violation (also for unexpected exceptions of the code under test)"""
    def on_alarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(HANG_S)
    try:
        return sub.check(case)
    except (Violation, Skip, Hang):
        raise
    except RecursionError as e:
        if from_repo(e):
            raise Violation("the code under test recurses without end") from e
        raise
    except Exception as e:
        if from_repo(e):
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("unexpected exception from the code under test: %s: %s (%s:%s)"
                            % (type(e).__name__, e, os.path.relpath(tb.filename, REPO) if tb.filename.startswith(REPO) else tb.filename, tb.name)) from e
        if isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError)) and in_check(e):
            # the code under test answered, but with something of another form than promised
            raise Violation("the answer has not the promised form: %s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-2:]))) from e
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def unit_seed(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:8], "big")


_STOP = None        # shared between workers: set after the first violation


def run_unit(args):
    modname, subname, shard, shards, examples, seed = args
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    mod = importlib.import_module(modname)
    sub = {s.name: s for s in mod.subs()}[subname]
    res = dict(sub=subname, evaluations=0, skipped=0, seen=set(), labels={}, samples=[], violation=None, error=None)
    last = {}
    failing = [False]

    def body(case):
        if _STOP.value and not failing[0]:
            return
        res["evaluations"] += 1
        last["running"] = case
        try:
            labels = run_case(sub, case)
        except Violation as v:
            failing[0] = True
            last["case"], last["msg"] = case, str(v)
            raise
        except Skip:
            res["skipped"] += 1
            return
        if labels is not None:
            h = hashlib.sha256(canon(case).encode()).digest()[:8]
            if h not in res["seen"]:
                res["seen"].add(h)
                n = len(res["seen"])
                if n in (1, 5, 25, 125) and len(res["samples"]) < 4:
                    res["samples"].append(case)
        for l in (labels or ["trivial"]):
            res["labels"][l] = res["labels"].get(l, 0) + 1
    try:
        for case in (sub.regress() if callable(sub.regress) else sub.regress)[shard::shards]:
            body(case)
        test = given(sub.strategy() if callable(sub.strategy) else sub.strategy)(body)
        test = hypothesis.seed(unit_seed(seed, modname, subname, shard))(test)
        test = settings(max_examples=examples, database=None, deadline=None, derandomize=False, print_blob=False,
                        report_multiple_bugs=False, verbosity=Verbosity.quiet, phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example])(test)
        test()
    except Violation as v:
        res["violation"] = (last["case"], last["msg"])
    except Hang:
        res["violation"] = (last["running"], "does not return within %d s" % HANG_S)
    except hypothesis.errors.Flaky:
        if "case" in last:
            for _ in range(3):
                try:
                    run_case(sub, last["case"])
                except Violation as v:
                    res["violation"] = (last["case"], str(v))
                    break
                except Skip:
                    pass
            else:
                if sub.executes:
                    res["error"] = "failure of a real execution could not be reproduced: %s\n%s" % (canon(last["case"]), last["msg"])
                else:
                    res["violation"] = (last["case"], last["msg"] + "\n(depends on what was done before in the same process)")
        else:
            res["error"] = traceback.format_exc()
    except Exception:
        res["error"] = traceback.format_exc()
    if res["violation"] is not None:
        _STOP.value = 1
    return res


def _init(stop):
    global _STOP
    _STOP = stop
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                kid, what = rest.split(" ", 1)
                out.append((kid.removeprefix("id="), what))
    return out


def write_replay(prop, sub, case, msg):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (prop, hashlib.sha256((sub + canon(case)).encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        json.dump(dict(property=prop, sub=sub, case=case, message=msg), f, indent=1)
    return path


def main(prop, tier, seed, scale=1.0, only=None):
    t0 = time.time()
    modname = "checks." + prop.lower()
    mod = importlib.import_module(modname)
    subs = [s for s in mod.subs() if only is None or s.name in only]
    workers = min(8, os.cpu_count() or 1)
    units = []
    for s in subs:
        n = max(1, int(s.examples[tier] * scale))
        shards = max(1, min(workers if tier == "quick" else 2 * workers, n // 20))
        for k in range(shards):
            units.append((modname, s.name, k, shards, (n + shards - 1) // shards, seed))
    # longest first
    cost = {s.name: s.examples[tier] * (20 if s.executes else 1) for s in subs}
    units.sort(key=lambda u: (-cost[u[1]], u[1], u[2]))
    ctx = multiprocessing.get_context("fork")
    stop = ctx.Value("i", 0)
    results, errors = [], []
    if hasattr(mod, "prepare"):
        mod.prepare(seed, tier)
    with concurrent.futures.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init, initargs=(stop,)) as ex:
        futs = [ex.submit(run_unit, u) for u in units]
        for f in futs:
            try:
                results.append(f.result())
            except Exception:
                errors.append(traceback.format_exc())
                break
    if hasattr(mod, "finish"):
        mod.finish()
    errors += [r["error"] for r in results if r["error"]]
    violations = [(r["sub"], *r["violation"]) for r in results if r["violation"]]
    per_sub, seen_total = {}, 0
    for s in subs:
        rs = [r for r in results if r["sub"] == s.name]
        seen = set().union(*[r["seen"] for r in rs]) if rs else set()
        labels = {}
        for r in rs:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        per_sub[s.name] = dict(evaluations=sum(r["evaluations"] for r in rs), skipped=sum(r["skipped"] for r in rs),
                               distinct_nontrivial=len(seen), labels=dict(sorted(labels.items())))
        seen_total += len(seen)
    samples = []
    for s in subs:
        for r in sorted((r for r in results if r["sub"] == s.name), key=lambda r: len(r["samples"]), reverse=True)[:1]:
            samples += [dict(part=s.name, case=c) for c in r["samples"][:3]]
    # known findings
    known_lines = []
    probes = mod.known() if hasattr(mod, "known") else {}
    for kid, what in load_known(prop):
        if kid in probes and probes[kid]():
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, what))
    evidence = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
                    coverage=dict(evaluations=sum(p["evaluations"] for p in per_sub.values()), distinct_nontrivial=seen_total,
                                  rule=mod.RULE, samples=samples, parts=per_sub),
                    assumptions=list(mod.ASSUMPTIONS), wall_s=round(time.time() - t0, 2), violations=len(violations))
    if hasattr(mod, "extra_evidence"):
        evidence["coverage"].update(mod.extra_evidence(per_sub))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")
    for line in known_lines:
        print(line)
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, evidence["coverage"]["evaluations"], seen_total, time.time() - t0))
    for k, v in per_sub.items():
        print("   %-22s %6d cases, %6d distinct non-trivial, %d skipped" % (k, v["evaluations"], v["distinct_nontrivial"], v["skipped"]))
    if violations:
        subname, case, msg = min(violations, key=lambda v: len(canon(v[1])))
        path = write_replay(prop, subname, case, msg)
        print("part %s, case %s\n%s" % (subname, canon(case)[:2000], msg[:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors)[:6000])
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module("checks." + d["property"].lower())
    if hasattr(mod, "prepare"):
        mod.prepare(1, "quick")
    sub = {s.name: s for s in mod.subs()}[d["sub"]]
    try:
        run_case(sub, d["case"])
    except Violation as v:
        print(v)
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    except Skip:
        print("outside of the domain")
    except Hang:
        print("does not return")
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    finally:
        if hasattr(mod, "finish"):
            mod.finish()
    print("holds")
    return 0
