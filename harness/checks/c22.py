"""C22: queries by several threads at once get the answers they get alone, and a failed query leaves nothing behind."""
import os, shutil, tempfile
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gen, history, interleave
from checks import c08
from gnu import ANNOTATED_IO, ANNOTATED_PARA

PROPERTY, LEVEL = "C22", "exploration"
RULE = ("threads: 2 to 4 threads, each with 1 to 4 queries (parse, annotations, apply, infer, derive mappers and aggregators, everything) about 1 to 3 commands, on annotations of their own or shared ones, "
        "in a child of a process which has only imported the library; a generated schedule says after how many lines of the library which thread goes on. meanwhile: at every few lines of a query, another thread makes a whole query. faults: an exception (interrupt, no memory, stack or "
        "files) at a generated line inside each of up to 4 queries, then the same queries again. Every answer is compared with that of a pristine process. Non-trivial: the threads were switched inside "
        "the library at least twice, or at least one fault hit, and a command is annotated.")
ASSUMPTIONS = ["threads are switched between lines of the library, not within", "the commands and annotations shared by threads are not modified by the callers"]
_servers = {}


def server(k):
    key = (os.getpid(), k)
    if key not in _servers:
        _servers[key] = history.Server([5, 99][k], "/", {})
        _servers[key].cache = {}
    return _servers[key]


def alone(text):
    s = server(1)
    key = repr(text)
    if key not in s.cache:
        if len(s.cache) > 5000: s.cache.clear()
        s.cache[key] = s.ask(text=text)
    out = s.cache[key]
    if "violation" in out: raise Violation(out["violation"])
    return out["view"]


PART = dict(io="io", applied="io", para="para", inferred="para", derived="derived", parse="parse")


def compare(case, out, what):
    if "violation" in out: raise Violation(out["violation"])
    labels = set()
    for kind, i, got in out["answers"]:
        want = alone(case["texts"][i])
        if "exception" in want: continue        # lookups must not fail, but that is another property (C07)
        if kind != "view": want = want.get(PART[kind])
        same(got, want, "%s of %r %s, and alone" % (kind, case["texts"][i], what))
        if kind == "view": labels |= {w for w in ("io", "para", "derived") if want.get(w) is not None}
    return labels


def check_threads(case):
    out = server(0).ask(threads=case)
    labels = compare(case, out, "with several threads")
    if out["switches"] < 2 or not labels: return None
    return sorted(labels) + ["threads:%d" % len(case["work"]), "switches:%s" % ("2-9" if out["switches"] < 10 else "10-99" if out["switches"] < 100 else "100+")]


def check_faults(case):
    out = server(0).ask(faults=case)
    labels = compare(case, out, "after a fault")
    return sorted(labels) + ["faults:%d" % out["hit"]] if out["hit"] and labels else None


def check_meanwhile(case):
    out = server(0).ask(meanwhile=case)
    labels = compare(case, out, "with another query in between")
    return sorted(labels) + ["%s during %s" % (case["b"][0], case["a"][0])] if out["hit"] else None


@st.composite
def texts(draw, most):
    cmds = draw(st.lists(st.sampled_from(c08.BOTH), min_size=1, max_size=2))
    out, last = [], None
    for _ in range(draw(st.integers(1, most))):
        k = draw(st.integers(0, 6))
        if k == 0: out.append(draw(c08.built(cmds)))
        else:
            last = draw(c08.variant(last, cmds)) if last is not None and k <= 3 else draw(c08.command(cmds))
            out.append(gen.render(gen.words_of(last), draw(gen.STYLES)))
    return out


KINDS = ["view", "view", "view", "io", "para", "applied", "inferred", "derived", "parse"]
lines = st.one_of(st.integers(0, 8), st.integers(0, 60), st.integers(0, 400), st.integers(0, 3000))


@st.composite
def threads(draw):
    t = draw(texts(3))
    op = st.tuples(st.sampled_from(KINDS), st.integers(0, len(t) - 1)).map(list)
    work = draw(st.lists(st.lists(op, min_size=1, max_size=4), min_size=2, max_size=4))
    steps = draw(st.lists(st.tuples(lines, st.integers(0, len(work) - 1)).map(list), max_size=12))
    return dict(texts=t, work=work, steps=steps, period=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 11, 40])))


@st.composite
def meanwhile(draw):
    t = draw(texts(3))
    op = st.tuples(st.sampled_from(KINDS), st.integers(0, len(t) - 1)).map(list)
    step = draw(st.integers(1, 9))
    return dict(texts=t, a=draw(op), b=draw(op), start=draw(st.integers(0, step - 1)), step=step, most=60)


def regress_meanwhile():
    out, texts = [], [c + " a x" for c in ("sort -r", "grep -v", "tr -d", "sed -n", "cut -f 1", "uniq", "bigrams_aux", "set_diff", "cat -n", "xargs -n 1")]
    for n, t in enumerate(texts):
        for kind in ("derived", "inferred", "applied", "para", "io", "parse"):
            for start in range(6):
                out.append(dict(texts=[t, texts[(n + 1 + start) % len(texts)]], a=[kind, 0], b=[kind, 1], start=start, step=6, most=200))
    return out


@st.composite
def faults(draw):
    t = draw(texts(2))
    ops = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, len(t) - 1)).map(list), min_size=1, max_size=4))
    return dict(texts=t, ops=ops, faults=[[draw(lines) + 1, draw(st.integers(0, len(interleave.FAULTS) - 1))] for _ in ops])


def regress_threads():
    out = []
    for c in c08.BOTH:
        t = [c + " x -n", c + " -n x -", c]
        for period in (1, 7):
            out.append(dict(texts=t, work=[[["view", 0], ["view", 1]], [["view", 1], ["view", 2]]], steps=[], period=period))
            out.append(dict(texts=t, work=[[["derived", 0], ["inferred", 0]], [["inferred", 0], ["derived", 0], ["applied", 0]]], steps=[], period=period))
        out.append(dict(texts=t + ["cat -n a", "grep -c x y"], work=[[["view", 0]], [["view", 3]], [["view", 4]]], steps=[], period=2))
    return out


def regress_faults():
    out = []
    for k, c in enumerate(c08.BOTH):
        for n in range(1, 400, 9):
            out.append(dict(texts=[c + " -n x", c + " x"], ops=[[KINDS[(n + k) % len(KINDS)], 0], ["view", 1]], faults=[[n + k % 9, n + k], [1 + (n * 3 + k) % 150, n + k + 1]]))
    return out


def subs():
    return [Sub("threads", threads, check_threads, 2000, 40000, regress=regress_threads), Sub("meanwhile", meanwhile, check_meanwhile, 400, 20000, regress=regress_meanwhile), Sub("faults", faults, check_faults, 2500, 40000, regress=regress_faults)]
