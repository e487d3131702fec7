"""C02: equivalent spellings are understood identically, different command lines differently."""
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gnu, gen, lib
from gnu import ATTACHED, SPECS, TABLE

PROPERTY, LEVEL = "C02", "exploration"
RULE = ("pairs: a list of flags and options with arguments and operands, written in two random ways (synonyms, clusters, = or separate "
        "argument, quoting); parses and both annotations compared. Non-trivial: the two command lines differ. different: a command line "
        "and one in which a word is changed, dropped, added or moved, such that an independent model of the names says that the meaning "
        "differs; the parses must differ.")
ASSUMPTIONS = ["synonyms according to the GNU manuals (harness/gnu.py)"]


def spell(draw, spec, atoms):
    """words for a list of [row index, arg or None]"""
    words, cluster = [], ""
    break_often = draw(st.booleans()) if len(atoms) < 7 else draw(st.integers(0, 3)) == 0

    def flush():
        nonlocal cluster
        if cluster:
            w = "-" + cluster
            # a cluster which is also the name of something else (cat -vE) is written flag by flag
            if len(cluster) > 1 and w in spec.row_of:
                words.extend("-" + c for c in cluster)
            else:
                words.append(w)
        cluster = ""
    for index, arg in atoms:
        names, kind = spec.rows[index]
        n = draw(st.sampled_from(list(names)))
        if kind is None:
            if len(n) == 2 and draw(st.booleans()):
                cluster += n[1]
                if (break_often and draw(st.integers(0, 1)) == 0) or n in ATTACHED.get(spec.cmd, ()):
                    flush()
                continue
            flush()
            words.append(n)
        else:
            flush()
            if n.startswith("--") and draw(st.booleans()):
                words.append(n + "=" + arg)
            else:
                words += [n, arg]
    flush()
    return words


@st.composite
def atoms_and_operands(draw):
    cmd = draw(st.sampled_from([c for c in TABLE if TABLE[c]]))
    spec = SPECS[cmd]
    atoms = []
    size = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 6, 6, 40]))
    for index in draw(st.lists(st.integers(0, len(spec.rows) - 1), min_size=1, max_size=size)):
        atoms.append([index, None if spec.rows[index][1] is None else draw(gen.ARG)])
    simple = st.sampled_from(["a.txt", "b.txt", "-", "s/a/b/", "x", "\\n", "a-z"])
    operands = draw(st.lists(st.one_of(simple, simple, gen.WORD), max_size=40 if size == 40 else 3))
    while not gen.ends_options(spec, operands):
        operands = operands[1:]
    return cmd, atoms, operands


@st.composite
def pairs(draw):
    cmd, atoms, operands = draw(atoms_and_operands())
    spec = SPECS[cmd]
    return dict(cmd=cmd, a=spell(draw, spec, atoms), b=spell(draw, spec, atoms), operands=operands, sa=draw(gen.STYLES), sb=draw(gen.STYLES))


def check_pairs(case):
    ta = gen.render([case["cmd"]] + case["a"] + case["operands"], case["sa"])
    tb = gen.render([case["cmd"]] + case["b"] + case["operands"], case["sb"])
    pa, pb = lib.parse(ta), lib.parse(tb)
    same(lib.parsed(pb), lib.parsed(pa), "parses of the equivalent commands %r and %r" % (ta, tb))
    expect(pa == pb, "parses of %r and %r are not equal", ta, tb)
    labels = ["cmd:" + case["cmd"]]
    for what, f in (("input/output", lib.io_info), ("parallelizability", lib.para_info)):
        ia, ib = f(pa), f(pb)
        expect((ia is None) == (ib is None), "only one of %r and %r has %s information", ta, tb, what)
        same(lib.dump(ib), lib.dump(ia), "%s information of %r and %r" % (what, ta, tb))
        if ia is not None: labels.append(what)
    return labels if ta != tb else None


@st.composite
def different(draw):
    cmd, atoms, operands = draw(atoms_and_operands())
    spec = SPECS[cmd]
    words = spell(draw, spec, atoms) + operands
    k = draw(st.integers(0, len(words) - 1))
    how = draw(st.sampled_from(["drop", "double", "replace", "swap", "name"]))
    other = list(words)
    if how == "drop": del other[k]
    elif how == "double": other.insert(k, words[k])
    elif how == "replace": other[k] = draw(gen.WORD)
    elif how == "name": other[k] = draw(st.sampled_from(sorted(spec.row_of)))
    else:
        j = draw(st.integers(0, len(words) - 1))
        other[k], other[j] = other[j], other[k]
    return dict(cmd=cmd, a=words, b=other, how=how)


def check_different(case):
    spec = SPECS[case["cmd"]]
    if spec.classify(case["a"]) == spec.classify(case["b"]):
        return None
    pa = lib.parse(gen.render([case["cmd"]] + case["a"], [0]))
    pb = lib.parse(gen.render([case["cmd"]] + case["b"], [0]))
    expect(lib.parsed(pa) != lib.parsed(pb) and pa != pb, "%s: %r and %r mean something different but have equal parses %r",
           case["cmd"], case["a"], case["b"], lib.parsed(pa))
    return ["different:" + case["how"]]


def enumerated():
    out = []
    for cmd, rows in TABLE.items():
        for names, kind in rows:
            for n in names[1:]:
                for ops in ([], ["a.txt"], ["x", "a.txt"]):
                    if kind is None:
                        out.append(dict(cmd=cmd, a=[names[0]], b=[n], operands=ops, sa=[0], sb=[0]))
                    else:
                        out.append(dict(cmd=cmd, a=[names[0], "1"], b=[n, "1"], operands=ops, sa=[0], sb=[0]))
                        if n.startswith("--"):
                            out.append(dict(cmd=cmd, a=[names[0], "1"], b=[n + "=1"], operands=ops, sa=[0], sb=[0]))
    return out


def clusters():
    """clusters of n flags, and the same flags one by one"""
    out = []
    for cmd, rows in TABLE.items():
        spec = SPECS[cmd]
        flags = [n[1] for names, kind in rows if kind is None for n in names if len(n) == 2 and n not in ATTACHED.get(cmd, ())]
        if not flags: continue
        for n in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 33):
            for step in (1, 2, 3):
                w = "".join(flags[k * step % len(flags)] for k in range(n))
                if "-" + w in spec.row_of: continue
                out += [dict(cmd=cmd, a=["-" + w], b=["-" + c for c in w], operands=o, sa=[0], sb=[0]) for o in ([], ["x", "a.txt"])]
                if "-" + w[1:] not in spec.row_of: out.append(dict(cmd=cmd, a=["-" + w], b=["-" + w[0], "-" + w[1:]], operands=["x"], sa=[0], sb=[0]))
    return out


def near():
    """command lines with words which are near, but different"""
    out = []
    for cmd, rows in TABLE.items():
        words = gen.NEAR_PAIRS
        for a, b in words:
            out += [dict(cmd=cmd, a=l + [a], b=l + [b], how="near") for l in ([], ["x"], ["x", "y", "z"])]
        for k, (names, kind) in enumerate(rows):
            if kind is None:
                for other in [r for r in rows if r[1] is None and r is not rows[k]]:
                    out.append(dict(cmd=cmd, a=[names[0]], b=[other[0][0]], how="near"))
                continue
            for a, b in words:
                n = names[len(a + b) % len(names)]
                out.append(dict(cmd=cmd, a=[n, a], b=[n, b], how="near"))
                out.append(dict(cmd=cmd, a=[n, a, "x"], b=[n, b, "x"], how="near"))
                if n.startswith("--"): out.append(dict(cmd=cmd, a=[n + "=" + a], b=[n + "=" + b], how="near"))
    return out


def subs():
    return [Sub("pairs", pairs, check_pairs, 16000, 120000, regress=lambda: enumerated() + clusters()), Sub("different", different, check_different, 12000, 80000, regress=near)]
