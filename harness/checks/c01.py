"""C01: parsing keeps every word, in order, with the right arity."""
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gnu, gen, lib
from gnu import SPECS, TABLE, NO_TABLE

PROPERTY, LEVEL = "C01", "exploration"
RULE = ("structured: a command with a table, up to 6 flags/options (any spelling, cluster, =), up to 4 operands, sometimes repeated up to 12 times, random quoting, parsed and "
        "compared with what was meant; soup: arbitrary sequences of names of the table, mutated names, arguments and arbitrary words, "
        "compared with an independent model of the arities; unknown: arbitrary words for commands without table. "
        "Non-trivial: at least one flag or option (structured, soup), at least one word (unknown). "
        "Every name of every table is also tried once in every form.")
ASSUMPTIONS = ["independent table of arities written from the GNU manuals (harness/gnu.py)", "words without NUL; no line continuations (backslash-newline), which the shell removes before the library sees the words"]


def parse_words(words, styles):
    text = gen.render(words, styles)
    import shlex
    assert shlex.split(text) == words, (text, words)
    return text, lib.parsed(lib.parse(text))


def check_structured(case):
    spec = SPECS[case["cmd"]]
    words = gen.words_of(case)
    text, (name, fos, ops) = parse_words(words, case["styles"])
    same(name, case["cmd"], "command name of %r" % text)
    same(spec.idents(fos), gen.expected(spec, case["items"]), "flags and options of %r" % text)
    same(list(ops), case["operands"], "operands of %r" % text)
    for f in fos:
        expect(f[0] in spec.row_of, "%r: %r is not a name of this command", text, f[0])
    if not case["items"]:
        return None
    labels = ["cmd:" + case["cmd"]] + sorted({"form:" + i[0] for i in case["items"]})
    if len(case["items"]) > 2: labels.append("items>2")
    return labels


def check_soup(case):
    spec = SPECS[case["cmd"]]
    words = [case["cmd"]] + case["words"]
    text, (name, fos, ops) = parse_words(words, case["styles"])
    want_fos, want_ops = spec.classify(case["words"])
    same(name, case["cmd"], "command name of %r" % text)
    same(spec.idents(fos), want_fos, "flags and options of %r" % text)
    same(list(ops), want_ops, "operands of %r" % text)
    return (["soup:ops" if want_ops else "soup:no-ops", "soup:opts%d" % min(3, len(want_fos))]) if want_fos else None


def check_unknown(case):
    words = [case["cmd"]] + case["words"]
    text, (name, fos, ops) = parse_words(words, case["styles"])
    same(name, case["cmd"], "command name of %r" % text)
    same(list(fos), [], "flags and options of %r, for which there is no table" % text)
    same(list(ops), case["words"], "operands of %r" % text)
    return ["unknown"] if case["words"] else None


def structured():
    return st.builds(lambda c, s: dict(c, styles=s), gen.command(cmds=[c for c in TABLE if TABLE[c]]), gen.STYLES)


@st.composite
def soup(draw):
    cmd = draw(st.sampled_from([c for c in TABLE if TABLE[c]]))
    spec = SPECS[cmd]
    names = sorted(spec.row_of)
    longs = [n for n in names if n.startswith("--")] or names
    shorts = sorted(n[1] for n in names if len(n) == 2)
    word = st.one_of(
        st.sampled_from(names), st.sampled_from(names), st.sampled_from(names), st.sampled_from(names), st.sampled_from(sorted(spec.option_names) or names), gen.WORD,
        st.sampled_from(longs).map(lambda n: n + "="), st.sampled_from(longs).map(lambda n: n + "=5"),
        st.sampled_from(longs).map(lambda n: n[:-1]), st.sampled_from(longs).map(lambda n: n[1:]),
        st.lists(st.sampled_from(shorts or ["q"]), min_size=1, max_size=4).map(lambda cs: "-" + "".join(cs)),
        st.lists(st.sampled_from(shorts or ["q"]), min_size=3, max_size=20).map(lambda cs: "-" + "".join(cs)),
        st.tuples(st.sampled_from(shorts or ["q"]), st.sampled_from(["5", "=5", "=", "-", "q=1", "\n"])).map(lambda t: "-" + t[0] + t[1]))
    lead = draw(st.lists(st.one_of(st.sampled_from(names), st.sampled_from(names), st.sampled_from(longs).map(lambda n: n + "=5"), st.sampled_from(["-" + s for s in shorts] or names)), max_size=2))
    words = gen.often(draw, lead + draw(st.lists(word, max_size=6)))
    return dict(cmd=cmd, words=words, styles=draw(gen.STYLES))


@st.composite
def unknown(draw):
    cmd = draw(st.one_of(st.sampled_from(NO_TABLE + ["ls", "find", "echo", "Cat", "catt", "mycmd", "python3", "ca", "./cat", "../data/sort", "/usr/bin/grep", "a/cat"]),
                         st.text(st.sampled_from(gen.ALNUM + "._-+ "), min_size=1, max_size=10),
                         st.text(st.sampled_from("abc"), min_size=240, max_size=300)))
    if cmd in TABLE or cmd == "_default_data_for_commands":
        cmd += "_"
    return dict(cmd=cmd, words=draw(st.lists(st.one_of(gen.WORD, st.sampled_from(["-n", "-b", "--help", "-e", "-f"])), max_size=6)), styles=draw(gen.STYLES))


def enumerated():
    out = []
    for cmd, rows in TABLE.items():
        for names, arg in rows:
            for n in names:
                if arg is None:
                    out.append(dict(cmd=cmd, items=[["f", n]], operands=["in.txt"], styles=[0]))
                else:
                    out.append(dict(cmd=cmd, items=[["o", n, "7"]], operands=["in.txt"], styles=[0]))
                    out.append(dict(cmd=cmd, items=[["o", n, "-n"]], operands=[], styles=[2]))
                    if n.startswith("--"):
                        out.append(dict(cmd=cmd, items=[["e", n, "7=8"]], operands=["in.txt"], styles=[0]))
                    for w in gen.NORMAL:
                        out.append(dict(cmd=cmd, items=[["o", n, w]] + ([["e", n, w]] if n.startswith("--") else []), operands=["in.txt"], styles=[0]))
        out += [dict(c, styles=[0]) for c in gen.huge(cmd)]
        for w in gen.NORMAL:
            for operands in ([w], ["x", w], ["x", "y", w, "z"]):
                if gen.ends_options(SPECS[cmd], operands):
                    out.append(dict(cmd=cmd, items=[], operands=operands, styles=[0]))
    return out


def subs():
    return [Sub("structured", structured, check_structured, 16000, 150000, regress=enumerated),
            Sub("soup", soup, check_soup, 16000, 150000),
            Sub("unknown", unknown, check_unknown, 4000, 20000)]
