"""C08: annotations are a function of the command alone, whatever happened before."""
import os, shutil, tempfile
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gen, history
from gnu import ANNOTATED_IO, ANNOTATED_PARA, NO_TABLE, TABLE

PROPERTY, LEVEL = "C08", "exploration"
RULE = ("histories: 2 to 5 commands (often of the same name, often differing in one place, also unknown and invalid ones and ones made by the program) and up to 14 operations on them (parse, ask for either "
        "annotation, apply, infer, derive mappers and aggregators, ask everything, modify an answer or the command), done in a child of a process "
        "which has only imported the library; every answer during and after the history is compared with the answer of other pristine processes "
        "with another hash seed, working directory (in which the same names are files, directories or nothing), environment, locale and standard streams, which are asked only about this one command. Non-trivial: at least two queries and one annotated command. pristine: "
        "answers of three such pristine processes compared; non-trivial: annotated command.")
ASSUMPTIONS = ["the library is imported before the history starts"]
_servers = {}
_base = None
# what can differ between processes: hash seed, working directory and what is in it, environment, locale, terminal
ENVS = [{}, dict(POSIXLY_CORRECT="1", LC_ALL="C", LANG="C", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0", HOME="/", TERM="dumb", COLUMNS="20", BLOCK_SIZE="1K", TMPDIR="/tmp", TIME_STYLE="iso"),
        dict(LC_ALL="C.UTF-8", HOME="/var/nobody", USER="nobody", TERM="xterm-256color", COLUMNS="200", _POSIX2_VERSION="199209", DEBUG="1", PASH_TOP="/opt/pash", GREP_OPTIONS="-r", GREP_COLOR="auto", SHELL="/bin/dash",
             AWKPATH="/var", CI="true", NO_COLOR="1")]


def prepare(seed, tier):
    """working directories of the servers: the same names are a file, a directory, nothing"""
    global _base
    _base = tempfile.mkdtemp(prefix="vp-c08-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    for k in range(3):
        d = os.path.join(_base, str(k))
        os.mkdir(d)
        for i, n in enumerate(sorted(set(NAMES))):
            if (i + k) % 3 == 0: os.mkdir(os.path.join(d, n))
            elif (i + k) % 3 == 1:
                with open(os.path.join(d, n), "w") as f: f.write("x\n" * i)


def finish():
    if _base: shutil.rmtree(_base, ignore_errors=True)


def server(k):
    key = (os.getpid(), k)
    if key not in _servers:
        _servers[key] = history.Server([11, 4242, 77][k], os.path.join(_base, str(k)), ENVS[k], terminal=k == 2, args=[[], ["-X", "utf8=0"], ["-B"]][k])
        _servers[key].cache = {}
    return _servers[key]


def pristine(text, k=1):
    s = server(k)
    key = repr(text)
    if key not in s.cache:
        if len(s.cache) > 5000: s.cache.clear()
        s.cache[key] = s.ask(text=text)
    out = s.cache[key]
    if "violation" in out: raise Violation(out["violation"])
    return out["view"]


def check_histories(case):
    out = server(0).ask(history=case)
    if "violation" in out: raise Violation(out["violation"])
    labels = set()
    for i, got in out["views"]:
        want = pristine(case["texts"][i])
        same(got, want, "everything about %r after the history, and in a pristine process" % case["texts"][i])
        labels |= {w for w in ("io", "para", "derived") if want.get(w) is not None}
    if not labels or out["counts"]["queries"] < 2: return None
    return sorted(labels) + ["damages:%d" % min(3, out["counts"]["damages"])]


def check_pristine(case):
    views = [pristine(case["text"], k) for k in (0, 1, 2)]
    same(views[0], views[1], "everything about %r in processes with different hash seeds" % case["text"])
    same(views[2], views[1], "everything about %r in processes with different hash seeds" % case["text"])
    labels = [w for w in ("io", "para", "derived") if views[0].get(w) is not None]
    return labels or None


NAMES = [n for n in gen.FILES if "/" not in n and n != "."] + ["x", "a", "b", "y", "-n", "f.txt", "f0.txt", "p.awk", "p.sed", "p.re", "g.txt", "d", "etc", "tmp", "doc", "echo", "rm", "1,3"] + sorted(set(ANNOTATED_IO) | set(ANNOTATED_PARA)) + [c + ".json" for c in sorted(TABLE)]
BOTH = sorted(set(ANNOTATED_IO) & set(ANNOTATED_PARA))


UNKNOWN = ["unknown", "cat2", "default", "/usr/bin/sort", "Sort", "_"]
ANY_NAMES = sorted({n for spec in gen.SPECS.values() for n in spec.row_of})


@st.composite
def command(draw, cmds):
    k = draw(st.integers(0, 9))
    case = draw(gen.invocation(cmds, max_items=3, max_operands=3)) if k else draw(gen.command(max_items=3))
    if k == 1: case = dict(case, cmd=draw(st.sampled_from(UNKNOWN)))
    return case


def line(cmds):
    return st.builds(lambda c, s: gen.render(gen.words_of(c), s), command(cmds), gen.STYLES)


@st.composite
def variant(draw, case, cmds):
    """a command which differs from an earlier one in one place only"""
    items, operands, cmd = list(case["items"]), list(case["operands"]), case["cmd"]
    k = draw(st.integers(0, 10))
    sep = draw(st.sampled_from([" ", ", ", ",", "\n", ""]))
    if k == 8 and len(operands) > 1:       # two operands written as one, and the other way round
        i = draw(st.integers(0, len(operands) - 2))
        operands[i:i + 2] = [operands[i] + sep + operands[i + 1]]
    elif k == 9 and operands:
        i = draw(st.integers(0, len(operands) - 1))
        parts = operands[i].split(sep) if sep else [operands[i][:1], operands[i][1:]]
        if all(p and p[0] != "-" for p in parts): operands[i:i + 1] = parts
    elif k == 10 and operands and items and len(items[-1]) == 3: items[-1] = items[-1][:2] + [items[-1][2] + sep + operands.pop(0)]
    elif k == 0 and items: items.pop(draw(st.integers(0, len(items) - 1)))
    elif k == 1: items.reverse()
    elif k == 2: operands.reverse()
    elif k == 3 and operands: operands.pop()
    elif k == 4: operands.append(draw(st.sampled_from(gen.FILES)))
    elif k == 5 and items: items.append(items[0])
    elif k == 6: cmd = draw(st.sampled_from(cmds + UNKNOWN[:2]))
    else:
        for i, it in enumerate(items):
            if len(it) == 3: items[i] = it[:2] + [draw(st.sampled_from(["1", "x", "-", it[2] + "0"]))]
    return dict(cmd=cmd, items=items, operands=operands)


@st.composite
def built(draw, cmds):
    """a command made by the program, with names which need not be in its table"""
    names = st.one_of(st.sampled_from(ANY_NAMES), st.sampled_from([n for c in cmds for n in gen.SPECS[c].row_of] or ["-n"]) if all(c in gen.SPECS for c in cmds) else st.just("-n"))
    fos = draw(st.lists(st.one_of(names.map(lambda n: [n]), st.tuples(names, st.sampled_from(["x", "-", "1"])).map(list)), max_size=3))
    return [draw(st.sampled_from(cmds)), fos, draw(st.lists(st.sampled_from(gen.FILES), max_size=2))]


@st.composite
def histories(draw):
    cmds = draw(st.lists(st.one_of(st.sampled_from(BOTH), st.sampled_from(sorted(ANNOTATED_IO + ["bigram_aux_map"]))), min_size=1, max_size=2))
    texts, last = [], None
    for _ in range(draw(st.integers(2, 5))):
        k = draw(st.integers(0, 5))
        if k == 0:
            texts.append(draw(built(cmds)))
            continue
        last = draw(variant(last, cmds)) if last is not None and k <= 3 else draw(command(cmds))
        texts.append(gen.render(gen.words_of(last), draw(gen.STYLES)))
    i, n = st.integers(0, len(texts) - 1), st.integers(0, 140)
    query = st.tuples(st.sampled_from(["io", "para", "applied", "inferred", "derived", "derived", "inferred", "view", "parse"]), i).map(list)
    dam = st.tuples(st.just("damage"), i, n, n).map(list)
    mixed = draw(st.booleans())
    ops = draw(st.lists(st.one_of(query, query, dam) if mixed else query, min_size=2, max_size=14))
    return dict(texts=texts, ops=ops)


def regress():
    """for every annotated command: all queries, every kind of damage to every answer, all queries again"""
    out = []
    for c in sorted(set(ANNOTATED_IO) | set(ANNOTATED_PARA)):
        for t in ([c + " -n", c], [c + " a.txt b.txt", c + " a b c"], [c + " -c -i x -", c + " x"], [c + " 's/a/b/'", c + " -r -f x y"]):
            ask = [[k, i] for i in (0, 1) for k in ("io", "para", "applied", "inferred", "derived", "derived")]
            out.append(dict(texts=t, ops=ask))
            for how in list(range(0, 36, 5)) + list(range(71, 120, 7)):
                out.append(dict(texts=t, ops=ask + [["damage", i, w, how + w] for w in range(6) for i in (0, 1)]))
        # words which look alike once they are put together
        for a, b in (("'a b'", "a b"), ("'a, b'", "a b"), ("'a \\n'", "a '\\n'"), ("-d 'a \\n'", "-d a '\\n'"), ("-d '\\n, a'", "-d '\\n' a"), ("s/a/b/ 'p q'", "s/a/b/ p q"),
                     ("-- -n", "-n"), ("'-n x'", "-n x"), ("' -n'", "-n"), ("x '-'", "x ' -'"), ("-e 'x y'", "-e x y")):
            for t in ([c + " " + a, c + " " + b], [c + " " + b, c + " " + a]):
                out.append(dict(texts=t, ops=[[k, i] for i in (0, 1) for k in ("io", "para", "applied", "inferred")]))
    return out + long_histories()


def long_histories():
    """one process is asked about all commands, in many orders"""
    import random
    rng, out = random.Random(8), []
    every = sorted(set(ANNOTATED_IO) | set(ANNOTATED_PARA))
    for n in range(60):
        texts = []
        for c in every + ["unknown", "ls"] + (UNKNOWN + [rng.choice(every)[:3] for _ in range(5)] + [rng.choice(every) + "2"] if n % 4 == 1 else []):
            for _ in range(1 + n % 2):
                words = [c]
                spec = gen.SPECS.get(c)
                if spec is not None and spec.rows and n % 3:
                    names, kind = rng.choice(spec.rows)
                    words.append(rng.choice(list(names)))
                    if kind is not None: words.append(rng.choice(gen.ARG_BY_KIND.get(kind, ["x", "1"])))
                if n % 2: words += rng.sample(ANY_NAMES, n % 3)
                words += [rng.choice(gen.operand_pool(c))] + [rng.choice(gen.FILES) for _ in range(rng.choice([0, 0, 1, 1, 2, 9]))]
                t = gen.render(words, [0])
                if t not in texts: texts.append(t)
        rng.shuffle(texts)
        texts = texts[:6 + n]
        out.append(dict(texts=texts, ops=[[k, i] for i in range(len(texts)) for k in (("io", "para"), ("para", "applied"), ("inferred", "io"))[n % 3]]))
    # thousands of queries about a few commands: no answer may depend on how many there were
    for n in range(8):
        texts = []
        for c in rng.sample(every, 9):
            spec = gen.SPECS.get(c)
            names = [r[0] for r, k in zip([r for r, _ in spec.rows], [k for _, k in spec.rows]) if k is None] if spec is not None else []
            texts.append(gen.render([c] + rng.sample(names, min(len(names), 3)) + [rng.choice(gen.FILES) for _ in range(2)], [0]))
        kinds = ["io", "para", "parse", "applied", "inferred"] + (["derived"] if n % 2 else [])
        out.append(dict(texts=texts, ops=[[rng.choice(kinds), rng.randrange(len(texts))] for _ in range(700)] + [["view", i] for i in range(len(texts)) for _ in range(10)]))
    return out


def regress_pristine():
    return [dict(text=gen.render(gen.words_of(c), [0])) for c in
            gen.pairwise(sorted(set(ANNOTATED_IO) | set(ANNOTATED_PARA)), lambda cmd: [[], ["x"], ["-", "a.txt"]])[::9]]


def subs():
    return [Sub("histories", histories, check_histories, 2500, 40000, regress=regress),
            Sub("pristine", line(sorted(set(ANNOTATED_IO) | set(ANNOTATED_PARA))).map(lambda t: dict(text=t)), check_pristine, 800, 15000, regress=regress_pristine)]
