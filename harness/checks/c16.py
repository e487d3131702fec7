"""C16: values compare equal exactly if they have the same kind and content."""
import copy, pickle, types
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import lib, objs

PROPERTY, LEVEL = "C16", "exploration"
RULE = ("pair: descriptions of two values of the library, the second one equal, changed in one place, or unrelated; built separately and compared in "
        "both directions; the oracle compares the descriptions (after filling in defaults). Also compared with values of other types, with copies, "
        "and with copies in which one attribute is changed. triple: transitivity. long: lists of up to 400 parts, one of them changed. word: words written nearly alike. Non-trivial: all.")
ASSUMPTIONS = ["descriptions are compared after replacing defaults by what they stand for (harness/checks/c16.py canon)"]
KINDS = sorted(objs.VALUES)
SEQ_T = ["t_seq"]


def canon(d):
    if not isinstance(d, list):
        return d
    k = d[0] if d and isinstance(d[0], str) else None
    if k == "m_seq": return ["mspec", "seq", None, SEQ_T, True]
    if k == "m_custom": return ["mspec", "custom", d[1], canon(d[2]) or SEQ_T, d[3]]
    if k == "m_text":
        words = d[1].split()
        return ["mspec", "custom", words[0], ["t_custom", [["flag", w] for w in words[1:]]], d[2]]
    if k == "a_trans": return ["atrans", d[1], canon(d[2]) or SEQ_T, d[3]]
    if k == "p": return ["p", d[1], canon(d[2]), canon(d[3]), d[4] or "NO_ADD_INPUT", d[5]]
    return [canon(x) for x in d]


def leaves(d, path=()):
    """paths of all parts of a description which can be changed"""
    out = []
    if isinstance(d, list):
        for i, x in enumerate(d):
            out += leaves(x, path + (i,))
        if path and (not d or not isinstance(d[0], str)):
            out.append(path)
    elif isinstance(d, dict):
        for k in d:
            out.append(path + (k,))
    else:
        out.append(path)
    return out


@st.composite
def changed(draw, d):
    """d with one part replaced by the same part of another value of the same kind, if that gives a valid description"""
    other = draw(objs.VALUES[draw(st.just(kind_of(d)))])
    d = copy.deepcopy(d)
    paths = [p for p in leaves(d) if p and p[0] != 0]
    if not paths:
        return other
    path = draw(st.sampled_from(paths))
    a, b = d, other
    try:
        for p in path[:-1]:
            a, b = a[p], b[p]
        new = b[path[-1]]
        if type(new) is not type(a[path[-1]]) or (path[-1] == 0 and isinstance(new, str)):
            return other
        a[path[-1]] = new
        objs.build(d)
    except Exception:
        return other
    return d


def kind_of(d):
    k = d[0]
    return {"m_seq": "mapper_spec", "m_custom": "mapper_spec", "m_text": "mapper_spec", "p": "parallelizer"}.get(k) or \
        ("agg_spec" if k.startswith("a_") else "transformer" if k.startswith("t_") else k)


@st.composite
def pair(draw):
    kind = draw(st.sampled_from(KINDS))
    a = draw(objs.VALUES[kind])
    how = draw(st.sampled_from(["same", "changed", "changed", "kind", "any"]))
    if how == "same": b = a
    elif how == "changed": b = draw(changed(a))
    elif how == "kind": b = draw(objs.VALUES[kind])
    else: b = draw(objs.VALUES[draw(st.sampled_from(KINDS))])
    return dict(a=a, b=b, attr=draw(st.integers(0, 9)), how=how)


OTHERS = [None, 0, 1, "", "x", "-a", [], {}, (), object(), Exception(), lib.Flag, True]


def eq(x, y, what):
    r, n = (x == y), (x != y)
    expect(isinstance(r, bool) and isinstance(n, bool) and r != n, "%s: == gives %r and != gives %r", what, r, n)
    return r


def check_pair(case):
    x, y = objs.build(case["a"]), objs.build(case["b"])
    want = canon(case["a"]) == canon(case["b"])
    what = "%r and %r" % (case["a"], case["b"])
    dx, dy = lib.dump(x), lib.dump(y)
    same(eq(x, y, what), want, "equality of " + what)
    same(eq(y, x, what), want, "equality (other direction) of " + what)
    expect(eq(x, x, what) and eq(y, y, what), "a value does not equal itself: %s", what)
    again = objs.build(case["a"])
    expect(eq(x, again, what) and eq(again, x, what), "two equally built values differ: %r", case["a"])
    for o in OTHERS:
        expect(not eq(x, o, what) and not eq(o, x, what), "%r equals %r", case["a"], o)
    attrs = lib.attributes(x)
    if attrs:       # something else with the same attributes
        o = types.SimpleNamespace(**attrs)
        expect(not eq(x, o, what) and not eq(o, x, what), "%r equals another object with the same attributes", case["a"])
    for c in (copy.deepcopy(x), copy.copy(x), pickle.loads(pickle.dumps(x))):
        expect(eq(c, x, what) and eq(x, c, what), "copy of %r differs", case["a"])
    c = copy.deepcopy(x)
    attrs = sorted(lib.attributes(c) or {})
    if attrs:
        attr = attrs[case["attr"] % len(attrs)]
        old = getattr(c, attr)
        if isinstance(old, list): getattr(c, attr).append(lib.Flag("--changed"))
        elif isinstance(old, dict): old[99] = lib.ACCESS["cfg"]()
        else: setattr(c, attr, "changed")
        expect(not eq(c, x, what) and not eq(x, c, what), "%r equals its copy in which %s was changed", case["a"], attr)
    same((lib.dump(x), lib.dump(y)), (dx, dy), "the values after comparing")
    str(x), repr(y)
    return ["kind:" + kind_of(case["a"]), "equal" if want else "different", "how:" + case["how"]]


@st.composite
def triple(draw):
    kind = draw(st.sampled_from(KINDS))
    a = draw(objs.VALUES[kind])
    out = [a]
    for _ in range(2):
        k = draw(st.integers(0, 2))
        out.append(a if k == 0 else draw(changed(out[-1])) if k == 1 else draw(objs.VALUES[kind]))
    return out


def check_triple(case):
    v = objs.builds(case)
    e = [[eq(p, q, repr(case)) for q in v] for p in v]
    for i in range(3):
        for j in range(3):
            expect(e[i][j] == e[j][i], "not symmetric: %r", case)
            for k in range(3):
                expect(not (e[i][j] and e[j][k]) or e[i][k], "not transitive: %r", case)
    expect((v[0] in v[1:]) == any(e[0][1:]), "membership in a list disagrees with equality: %r", case)
    return ["triple"]


def enumerated():
    """every kind against every kind, with contents as similar as possible"""
    ds = [["access", "sin"], ["access", "sout"], ["file", "x"], ["std", 0], ["std", 1], ["str", "x"], ["fileio", "x", "sin"], ["fileio", "x", "sout"], ["stdio", 0, "sin"],
          ["stdio", 0, "cfg"], ["flag", "-a"], ["option", "-a", "x"], ["optionio", "-a", ["str", "x"]], ["optionio", "-a", ["fileio", "x", "sin"]],
          ["optionvar", "-a", ["str", "x"]], ["optionvar", "-a", ["var", 1]], ["optionvar", "-a", ["var", 2]], ["optionvar", "-b", ["var", 1]], ["operand", "x"], ["operand", "-a"],
          ["cmd", "cat", [], []], ["cmdio", "cat", [], [], None, None], ["cmdprefix", "cat", [], []], ["cmdvars", "cat", [], [], None, None, {}],
          ["mapper", ["cmdvars", "cat", [], [], None, None, {}]], ["aggregator", "CONCATENATE", ["cmdvars", "cat", [], [], None, None, {}]],
          ["aggregator", "CUSTOM_2_ARY", ["cmdvars", "cat", [], [], None, None, {}]]] + [["splitter", s] for s in objs.SPLITS] + \
         [["m_seq"], ["m_custom", None, None, True], ["m_custom", "cat", None, True], ["m_custom", "cat", None, False], ["a_conc"], ["a_merge"], ["a_seq"]] + \
         [["a_trans", k, None, i] for k in objs.KINDS for i in (True, False)] + [["a_text", k, "cat", True] for k in objs.KINDS] + \
         [["t_seq"], ["t_empty"], ["t_add", []], ["t_remove", []], ["t_filter", []], ["t_custom", []], ["t_chain", []], ["t_chain", [["t_seq"]]]] + \
         [["p", s, ["m_seq"], ["a_conc"], None, 0] for s in objs.SPLITS] + [["p", "consec_chunks", ["m_seq"], ["a_conc"], "BYTE_OFFSET", 0], ["p", "consec_chunks", ["m_seq"], ["a_conc"], None, 1]]
    # contents which look alike once they are written down
    lists = [[], [""], ["a, b"], ["a", "b"], ["a b"], ["a,b"], ["'a', 'b'"], ["None"], ["[]"], ["", ""], ["b", "a"], ["-a"], ["-a", "x"], ["-a x"]]
    like = [["cmd", "cat", [], l] for l in lists] + [["cmd", "cat", [["flag", x] if x[:1] == "-" else ["option", "-a", x] for x in l], []] for l in lists] + \
        [["cmdprefix", "cat", [], [[k, x] for x in l]] for l in lists for k in ("str", "file")] + [["t_remove", l] for l in lists] + [["t_filter", l] for l in lists] + \
        [["cmdio", "cat", [], [["str", x] for x in l], None, None] for l in lists] + [["cmd", "cat a", [], []], ["cmd", "cat", [], ["a"]], ["cmd", "cat", [["flag", "a"]], []]]
    numbers = [["cmdvars", "cat", [], [o], i, j, {"1": "sin"}] for o in (["str", "1"], ["var", 1], ["str", "None"]) for i in (None, 1, 0) for j in (None, 1, 0)]
    ps = [["p", s, m, a, i, n] for s in objs.SPLITS[:2] for m in (["m_seq"], ["m_custom", "x", None, True]) for a in (["a_conc"], ["a_merge"], ["a_seq"])
          for i in (None, "LINE_NUM_OFFSET", "BYTE_OFFSET") for n in (0, 1)]
    return [dict(a=a, b=b, attr=0, how="kinds") for group in (ds, like, numbers, ps) for a in group for b in group]


# where a list of words, and where one word, can stand in a value
def flagged(l): return [["flag", x] if i % 3 else ["option", x, "v"] for i, x in enumerate(l)]
LISTS = {
    "operands": lambda l: ["cmd", "cat", [], l], "flags": lambda l: ["cmd", "cat", flagged(l), ["f"]], "arguments": lambda l: ["cmd", "cat", [["option", "-o", x] for x in l], []],
    "prefix operands": lambda l: ["cmdprefix", "cat", [], [["str" if i % 2 else "file", x] for i, x in enumerate(l)]], "prefix flags": lambda l: ["cmdprefix", "cat", flagged(l), []],
    "io operands": lambda l: ["cmdio", "cat", [], [["fileio", x, "sin"] if i % 2 else ["str", x] for i, x in enumerate(l)], None, None],
    "io arguments": lambda l: ["cmdio", "cat", [["optionio", "-o", ["fileio", x, "cfg"]] for x in l], [], None, None],
    "variable operands": lambda l: ["cmdvars", "cat", [], [["str", x] for x in l] + [["var", 1]], None, None, {"1": "sin"}],
    "variable arguments": lambda l: ["cmdvars", "cat", [["optionvar", "-o", ["str", x]] for x in l], [], None, None, {}],
    "mapper": lambda l: ["mapper", ["cmdvars", "cat", flagged(l), [], None, None, {}]],
    "aggregator": lambda l: ["aggregator", "CUSTOM_2_ARY", ["cmdvars", "cat", [], [["str", x] for x in l], None, None, {}]],
    "added": lambda l: ["t_add", flagged(l)], "custom": lambda l: ["t_custom", flagged(l)], "removed": lambda l: ["t_remove", l], "filtered": lambda l: ["t_filter", l],
    "chain": lambda l: ["t_chain", [["t_remove", [x]] for x in l]],
    "spec": lambda l: ["a_trans", "CUSTOM_2_ARY", ["t_filter", l], True], "parallelizer": lambda l: ["p", "consec_chunks", ["m_custom", "x", ["t_add", flagged(l)], True], ["a_conc"], None, 0]}
WORDS = {
    "flag": lambda w: ["flag", w], "option": lambda w: ["option", w, "x"], "argument": lambda w: ["option", "-a", w], "operand": lambda w: ["operand", w], "file": lambda w: ["file", w],
    "string": lambda w: ["str", w], "fileio": lambda w: ["fileio", w, "sin"], "optionio": lambda w: ["optionio", "-a", ["str", w]], "optionvar": lambda w: ["optionvar", w, ["var", 1]],
    "name": lambda w: ["cmd", w, [], []], "ioname": lambda w: ["cmdio", w, [], [], None, None], "varname": lambda w: ["cmdvars", w, [], [], None, None, {}],
    "prefix": lambda w: ["cmdprefix", w, [], []], "mapper": lambda w: ["m_custom", w, None, True]}
CHANGES = ["replace", "remove", "insert", "swap", "repeat", "case"]


def change(l, how, at):
    l = list(l)
    if how == "insert": return l[:at] + ["-new"] + l[at:]
    if not l: return l
    at %= len(l)
    if how == "replace": l[at] = "-new"
    elif how == "remove": del l[at]
    elif how == "swap": l[at], l[at - 1] = l[at - 1], l[at]
    elif how == "repeat": l.insert(at, l[at])
    else: l[at] = l[at].swapcase()
    return l


@st.composite
def long_pair(draw):
    n = draw(st.one_of(st.integers(0, 40), st.integers(0, 400)))
    return dict(place=draw(st.sampled_from(sorted(LISTS))), n=n, how=draw(st.sampled_from(CHANGES)), at=draw(st.integers(0, max(0, n))), distinct=draw(st.integers(1, 50)))


def check_long(case):
    l = ["-w%d" % (i % case["distinct"]) for i in range(case["n"])]
    make = LISTS[case["place"]]
    check_pair(dict(a=make(l), b=make(change(l, case["how"], case["at"])), attr=0, how="long"))
    check_pair(dict(a=make(l), b=make(list(l)), attr=1, how="long"))
    return ["place:" + case["place"], case["how"]]


def long_regress():
    return [dict(place=p, n=n, how=how, at=at, distinct=50) for p in sorted(LISTS) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 33, 65, 129) for how in CHANGES
            for at in sorted({0, n // 2, max(0, n - 2), n - 1})]


LONG = ["x" * 15, "y" * 31, "z" * 64, "w" * 255, "v" * 1000, "d/" * 60, "\u00e9" * 40]


@st.composite
def word_pair(draw):
    return dict(place=draw(st.sampled_from(sorted(WORDS))), a=draw(objs_text()), b=draw(objs_text()))


def objs_text():
    return st.one_of(st.text(max_size=4), st.text("a -=\n", max_size=6), st.text("ab", max_size=3))


def check_word(case):
    make = WORDS[case["place"]]
    check_pair(dict(a=make(case["a"]), b=make(case["b"]), attr=0, how="word"))
    return ["place:" + case["place"], "equal" if case["a"] == case["b"] else "different"]


ALIKE = ["a", "A", " a", "a ", "a\n", "\na", "a\0", "\ta", "aa", "-a", "--a", "-a=", "./a", "a/", "//a", "/a", "/./a", "a/../a", "0", "00", "0.0", "1", "01", "1.0", "True", "None", "", "-", "'a'", '"a"',
         "\u00e9", "e\u0301", "\ufb01", "fi", "\u212b", "\u00c5", "\u00df", "ss", "a*", "$a", "${a}", "~", "STDIN", "stdin", "0 "]


def word_regress():
    out = [dict(place=p, a=a, b=b) for p in sorted(WORDS) for a in ALIKE for b in ALIKE]
    for p in sorted(WORDS):
        for w in LONG:
            out += [dict(place=p, a=w, b=v) for v in (w, w + "a", w[:-1], "a" + w[1:], w[:-1] + "a", w[:len(w) // 2] + "a" + w[len(w) // 2 + 1:], w.upper())]
    return out


def subs():
    return [Sub("pair", pair, check_pair, 16000, 120000, regress=enumerated), Sub("triple", triple, check_triple, 6000, 40000),
            Sub("long", long_pair, check_long, 1500, 20000, regress=long_regress), Sub("word", word_pair, check_word, 4000, 40000, regress=word_regress)]
