"""mutate.py N SEED OUT: samples N automatic mutants of /repo (in a scratch copy), runs the tests and then the checks (a copy of the committed ones, scaled down) until
one reports a violation.  Only used to find weak spots; writes one JSON object per mutant to OUT.
With --matrix, all checks related to the file are run on every mutant."""
import ast, json, os, random, shutil, subprocess, sys
REPO, TOP = "/repo", "/dev/shm/vp-mut-%d" % os.getpid()
ORDER = "C06 C10 C01 C02 C04 C07 C11 C12 C13 C14 C15 C16 C19 C18 C17 C20 C21 C22 C08 C05 C09 C03".split()
SKIP = ("/tests/", "old_annotations", "/config/", "Inputs.py", "CommandProperties.py", "datatypes/Operand.py", "setup.py", "BigramAuxMap", "__init__.py")
RELATED = [("InputOutputInfoGenerator_", "C04 C05 C06 C07 C08"), ("InputOutputInfoGenerator", "C05 C06"), ("ParallelizabilityInfoGenerator", "C09 C10"),
           ("parser/parser.py", "C01 C02 C03 C07 C08 C18"), ("util_parser", "C01 C02 C03 C07 C08 C18"), ("args-to-json", "C18"), ("annotation_cli", "C17"), ("AnnotationGeneration.py", "C07 C08 C06 C10"),
           ("InputOutputInfo.py", "C04 C05 C06 C16"), ("CommandInvocationWithIO.py", "C04 C05 C06 C16 C08"), ("CommandInvocationWithIOVars", "C12 C13 C14 C16 C09"),
           ("Transformer", "C12 C13 C15 C16 C10 C09"), ("Spec.py", "C09 C10 C12 C13 C16 C19"), ("Mapper.py", "C09 C12 C16 C19"), ("Aggregator.py", "C09 C13 C16 C19"),
           ("Parallelizer.py", "C09 C10 C11 C12 C13 C16 C19"), ("Splitter.py", "C09 C10 C11 C16 C19"), ("ParallelizabilityInfo.py", "C08 C09 C10 C11 C16")]
FAMILY = {}
for fam in ("all_operands_are_streaming_inputs all_operands_are_streaming_outputs all_operands_are_other_inputs all_operands_are_other_outputs set_all_operands_as_config_arg_type_string",
            "set_implicit_use_of_stdin set_implicit_use_of_stdout", "make_stream_input make_other_input make_config_input make_stream_output make_other_output",
            "make_parallelizer_indiv_files make_parallelizer_round_robin make_parallelizer_consec_chunks",
            "does_flag_option_list_contains_at_least_one_of does_last_operand_exist"):
    for n in fam.split(): FAMILY[n] = fam.split()


def py_mutants(path, src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines: starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    off = lambda n, end=False: (starts[n.end_lineno - 1] + n.end_col_offset) if end else (starts[n.lineno - 1] + n.col_offset)
    seg = lambda n: raw[off(n):off(n, True)].decode()
    out = []

    def rep(n, new, what): out.append((off(n), off(n, True), new, "%s:%d %s: %s -> %s" % (path, n.lineno, what, seg(n)[:80], new[:80])))
    SW = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): doc.add(id(n.value))
        for a in ("annotation", "returns"):
            x = getattr(n, a, None)
            if x is not None: doc |= {id(y) for y in ast.walk(x)}
        if isinstance(n, (ast.FunctionDef,)) and n.name in ("__repr__",): doc |= {id(y) for y in ast.walk(n)}
        if isinstance(n, ast.Assert) and n.msg is not None: doc |= {id(y) for y in ast.walk(n.msg)}
        if isinstance(n, ast.Raise): doc |= {id(y) for y in ast.walk(n)}
        if isinstance(n, ast.JoinedStr): doc |= {id(y) for y in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in doc: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, "(%s %s %s)" % (seg(n.left), SW[type(n.ops[0])], seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join("(%s)" % seg(v) for v in n.values) + ")", "boolop")
            for k in range(len(n.values)):
                vs = n.values[:k] + n.values[k + 1:]
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for v in vs) + ")", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): rep(n, "(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False: rep(n, str(not n.value), "bool")
            elif isinstance(n.value, int): rep(n, "(%d)" % (n.value + 1), "int"); rep(n, "(%d)" % (n.value - 1), "int")
            elif isinstance(n.value, str) and n.value.startswith("-") and len(n.value) > 1: rep(n, repr("-" + ("q" if n.value != "-q" else "v")), "str")
        elif isinstance(n, (ast.List, ast.Set, ast.Tuple)) and n.elts and not isinstance(getattr(n, "ctx", None), ast.Store):
            if isinstance(n, ast.Tuple) and len(n.elts) < 3: continue
            for k in range(len(n.elts)):
                es = n.elts[:k] + n.elts[k + 1:]
                br = "[]" if isinstance(n, ast.List) else "{}" if isinstance(n, ast.Set) else "()"
                if isinstance(n, ast.Set) and not es: continue
                rep(n, br[0] + ", ".join(seg(e) for e in es) + br[1], "drop element %s" % seg(n.elts[k])[:40])
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)): rep(n.test, "(not (%s))" % seg(n.test), "negate")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): rep(n, "pass", "delete")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None): rep(n, "return None", "return")
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                a = [seg(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                rep(n, seg(n.func) + "(" + ", ".join(a + ["%s=%s" % (k.arg, seg(k.value)) for k in n.keywords if k.arg]) + ")", "swap args")
            for k in range(len(n.keywords)):
                ks = n.keywords[:k] + n.keywords[k + 1:]
                rep(n, seg(n.func) + "(" + ", ".join([seg(x) for x in n.args] + ["%s=%s" % (y.arg, seg(y.value)) for y in ks if y.arg]) + ")", "drop keyword")
        if isinstance(n, ast.Attribute) and n.attr in FAMILY:
            for o in FAMILY[n.attr]:
                if o != n.attr: rep(n, seg(n.value) + "." + o, "other method")
        elif isinstance(n, ast.Name) and n.id in FAMILY and isinstance(n.ctx, ast.Load):
            for o in FAMILY[n.id]:
                if o != n.id: rep(n, o, "other function")
    return [(path, raw[:s] + new.encode() + raw[e:], what) for s, e, new, what in out]


def json_mutants(path, src):
    d, out = json.loads(src), []

    def add(f, what):
        c = json.loads(src)
        f(c)
        out.append((path, json.dumps(c).encode(), path + " " + what))
    for part in ("flag", "option"):
        for k, row in enumerate(d[part]):
            add(lambda c: c[part].pop(k), "drop row %r" % row)
            n = len(row) - (part == "option")
            for j in range(n):
                if n > 1: add(lambda c: c[part][k].pop(j), "drop name %r of %r" % (row[j], row))
            if n > 1: add(lambda c: c[part][k].insert(0, c[part][k].pop(1)), "order of %r" % row)
            if part == "flag": add(lambda c: c["option"].append(c["flag"].pop(k) + ["X"]), "flag to option %r" % row)
            else:
                add(lambda c: c["flag"].append(c["option"].pop(k)[:-1]), "option to flag %r" % row)
                if isinstance(row[-1], list): add(lambda c: c["option"][k].__setitem__(-1, c["option"][k][-1][0]), "no access %r" % row)
                if isinstance(row[-1], list): add(lambda c: c["option"][k][-1].__setitem__(1, "OTHER_INPUT" if row[-1][1] != "OTHER_INPUT" else "CONFIG_INPUT"), "other access %r" % row)
    return out


def related(path):
    for k, v in RELATED:
        if k in path: return v.split()
    return ORDER


def main(n, seed, outfile, matrix=False):
    files = subprocess.run(["git", "-C", REPO, "ls-files"], capture_output=True, text=True).stdout.split()
    files = [f for f in files if f.startswith("pash_annotations/") and not any(s in "/" + f for s in SKIP) and (f.endswith(".py") or "/data/" in f and f.endswith(".json"))]
    allm = []
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        ms = py_mutants(f, src) if f.endswith(".py") else json_mutants(f, src)
        allm.append(ms)
    rng = random.Random(seed)
    total = sum(map(len, allm))
    print(total, "mutants", flush=True)
    flat = [m for ms in allm for m in ms]
    # half of the sample over files, half over mutants; tables are most of the mutants
    picks = rng.sample([m for m in flat if m[0].endswith(".py")], n) if matrix else rng.sample([m for m in flat if m[0].endswith(".py")], n * 3 // 4) + rng.sample([m for m in flat if m[0].endswith(".json")], n // 4)
    rng.shuffle(picks)
    os.mkdir(TOP)
    try:
        V, R = os.path.join(TOP, "verif"), os.path.join(TOP, "repo")
        os.mkdir(V)
        shutil.copytree("/verif/harness", os.path.join(V, "harness"), ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy("/verif/known-findings.txt", V)
        shutil.copytree(REPO, R, ignore=shutil.ignore_patterns("__pycache__"))
        os.chmod(TOP, 0o755)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=R, VERIF_SEED="1")
        for path, data, what in picks:
            orig = open(os.path.join(R, path), "rb").read()
            open(os.path.join(R, path), "wb").write(data)
            try:
                if path.endswith(".py"):
                    try: compile(data, path, "exec")
                    except SyntaxError: continue
                t = subprocess.run(["timeout", "120", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60"], cwd=R, env=env, capture_output=True, text=True)
                if t.returncode != 0: continue
                killed, msg = [] if matrix else None, ""
                for c in (related(path) if matrix else ORDER):
                    p = subprocess.run(["timeout", "600", "python3-vt", os.path.join(V, "harness", "run.py"), c, "--scale", "0.3"], cwd=V, env=env, capture_output=True, text=True)
                    if p.returncode == 1 and "VIOLATION property=" in p.stdout:
                        if matrix: killed.append(c); continue
                        killed = c; break
                    if p.returncode != 0: msg += "%s: rc %d %s %s\n" % (c, p.returncode, p.stdout[-600:], p.stderr[-600:])
                with open(outfile, "a") as f: f.write(json.dumps(dict(what=what, killed=killed, asked=related(path) if matrix else None, msg=msg)) + "\n")
            finally:
                open(os.path.join(R, path), "wb").write(orig)
    finally:
        shutil.rmtree(TOP, ignore_errors=True)


if __name__ == "__main__":
    main(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], "--matrix" in sys.argv)
