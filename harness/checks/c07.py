"""C07: unknown or invalid commands get no annotation, and no lookup fails."""
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gen, lib
from gnu import SPECS, TABLE, NO_TABLE, ANNOTATED_IO, ANNOTATED_PARA

PROPERTY, LEVEL = "C07", "exploration"
RULE = ("total: any command name (known, unknown, nearly known, odd) with any words: parsing, both lookups, unpacking and applying must answer, and "
        "a name which nobody annotated has no annotation and no table (all words are operands). built: invocations made by the program with "
        "any names, flags, options, operands. Non-trivial: not a command with annotation and valid words.")
ASSUMPTIONS = ["non-empty command line with balanced quotes, processes run with assertions enabled (no python -O): the library rejects by assert"]
# names of similar or equal commands
NEAR = ["gawk", "mawk", "nawk", "original-awk", "egrep", "fgrep", "rgrep", "zgrep", "bzgrep", "xzgrep", "pgrep", "zegrep", "gsort", "gsed", "ggrep", "gcat", "ghead", "gtail", "gtr", "gcut", "guniq",
        "gwc", "gxargs", "zcat", "bzcat", "xzcat", "tac", "cmp", "zdiff", "sdiff", "diff3", "colordiff", "cp", "rmdir", "unlink", "mknod", "tsort", "msort", "nl", "ssed", "minised", "colrm", "column",
        "jot", "parallel", "bigrams", "bigram_aux", "alt_bigrams", "busybox", "command", "sudo", "env", "time", "test", "test_three", "custom", "custom_uniq", "setdiff", "set-diff", "paste", "join"]
ALL = sorted(set(TABLE) | set(NO_TABLE) | set(ANNOTATED_IO))


def lookups(inv, what):
    before = lib.dump(inv)
    info, para = lib.io_info(inv), lib.para_info(inv)
    expect(info is None or isinstance(info, lib.InputOutputInfo), "the input/output information of %s is a %s", what, type(info).__name__)
    expect(para is None or isinstance(para, lib.ParallelizabilityInfo), "the parallelizability information of %s is a %s", what, type(para).__name__)
    if inv.cmd_name not in ANNOTATED_IO:
        expect(info is None, "%s has an input/output annotation although nobody annotated %r", what, inv.cmd_name)
    if inv.cmd_name not in ANNOTATED_PARA:
        expect(para is None, "%s has a parallelizability annotation although nobody annotated %r", what, inv.cmd_name)
    if para is not None:
        para.unpack_info()
        expect(isinstance(para.get_inferred_parallelizer_list(), list), "there is no list of inferred parallelizers for %s", what)
        str(para)
    if info is not None:
        others = info.has_other_outputs()
        expect(isinstance(others, bool), "has_other_outputs of %s is %r", what, others)
        with_io = info.apply_input_output_info_to_command_invocation(inv)
        str(with_io)
    str(inv)
    same(lib.dump(inv), before, "the command after the lookups for %s" % what)
    return ["io" if info else "no io", "para" if para else "no para"]


def check_total(case):
    text = gen.render([case["cmd"]] + case["words"], case["styles"])
    inv = lib.parse(text)
    same(inv.cmd_name, case["cmd"], "command name of %r" % text)
    if case["cmd"] not in TABLE:
        same(lib.parsed(inv)[1:], ((), tuple(case["words"])), "flags and operands of %r, for which there is no table" % text)
    labels = lookups(inv, repr(text))
    labels.append("known" if case["cmd"] in ALL else "unknown")
    return labels if case["words"] or case["cmd"] not in ALL else None


def check_built(case):
    fos = [lib.Flag(f[0]) if len(f) == 1 else lib.Option(f[0], f[1]) for f in case["fos"]]
    inv = lib.CommandInvocationInitial(case["cmd"], fos, [lib.Operand(o) for o in case["operands"]])
    labels = lookups(inv, "the invocation %r" % (case,))
    return labels + ["built"] if case["fos"] or case["operands"] else None


@st.composite
def name(draw):
    k = draw(st.integers(0, 9))
    if k <= 4:
        return draw(st.sampled_from(ALL))
    base = draw(st.sampled_from(ALL))
    if k == 5:
        if draw(st.integers(0, 2)) == 0: return draw(st.sampled_from(NEAR))
        return draw(st.sampled_from([base + "s", base + "2", base + ".exe", base + ".py", base + "\n", "\t" + base, "/" + base, "//" + base, "/bin/" + base, "a/" + base, "~/" + base, "-" + base, "." + base, "../" + base, "=" + base, "'" + base + "'", "$" + base, "@" + base, base + ":", base + ";", base + "&", base * 2, base.replace("_", "-"), base.replace("_", ""), base.title().replace("_", ""), base.swapcase(), "./" + base, base + "/", "lib" + base, "\\" + base, base.upper(), base.capitalize(), base + "x", base[:-1] or "q", "g" + base, base + " ", "_" + base, base + ".json", base + "_"]))
    if k == 6:
        return draw(st.sampled_from(["Cat", "None", "TestOne", "Interface", "_Interface", "BigramAuxMap", "..", ".", "_default_data_for_commands", "default",
                                     "__init__", "x" * 300, "ls", "find", "echo", "python3", "[", "[[", ":", "!", "a\nb", "", "%s", "{}", "./cat", "/bin/grep", "x/../sort", "../data/sort", "a/b", "/", "/tmp/x", "cat.json/x", "cat/", "//tr", "e\u0301", "\0", base + "\0", "a\0b", "\ud800", base + "\ud800", "/\0", "x" * 5000, "/" * 300]))
    return draw(st.one_of(st.text(st.sampled_from(gen.ALNUM + gen.ODD), min_size=1, max_size=10), st.text(st.sampled_from("abc_"), min_size=1, max_size=5)))


@st.composite
def total(draw):
    cmd = draw(name())
    spec = SPECS.get(cmd) or SPECS[draw(st.sampled_from(sorted(TABLE)))]
    names = sorted(spec.row_of) or ["-n"]
    word = st.one_of(st.sampled_from(names), gen.WORD, st.sampled_from(gen.FILES), st.sampled_from(gen.operand_pool(cmd)),
                     st.text(max_size=4), st.sampled_from(["\0", "a\0", "\ud800", "-\0"]))
    return dict(cmd=cmd, words=draw(st.lists(word, max_size=7)), styles=draw(gen.STYLES))


@st.composite
def built(draw):
    cmd = draw(name())
    spec = SPECS.get(cmd) or SPECS[draw(st.sampled_from(sorted(TABLE)))]
    names = sorted(spec.row_of) + ["-Q", "--nonsense", "", "-"]
    fos = draw(st.lists(st.one_of(st.sampled_from(names).map(lambda n: [n]), st.tuples(st.sampled_from(names), gen.ARG).map(list)), max_size=5))
    return dict(cmd=cmd, fos=fos, operands=draw(st.lists(gen.WORD, max_size=4)))


def enumerated():
    cmds = ALL + NEAR + ["ls", "find", "gzip", "Cat", "None", "export", "bigram_aux_map", "./cat", "../data/grep", "a/../sort"]
    cmds += [p + c + q for c in ALL for p, q in (("/", ""), ("./", ""), ("//", ""), ("/bin/", ""), ("/usr/bin/", ""), ("a/", ""), (" ", ""), ("", " "), ("\\", ""), ("", "/"), ("", "/."), ("", ".json"), ("", ".exe"), ("", "\n"), ("'", "'"), ("", "\r"), ("-", ""), ("g", ""))]
    cmds += [p + c + q for c in ALL + ["x"] for p, q in (("", "\0"), ("\0", ""), ("", "\ud800"), ("\udfff/", ""), ("", "\0.json"))] + ["\0", "\ud800", "a\0b", "x" * 255, "x" * 4096, "x/" * 3000, "%", "\U0010ffff", "\ufdd0"]
    cmds += [f(c) for c in ALL for f in (str.upper, str.capitalize, lambda c: c.title().replace("_", "")) if f(c) not in ALL]
    big = [dict(cmd=c, words=gen.words_of(h)[1:], styles=[0]) for c in sorted(TABLE) for h in gen.huge(c)]
    return big + [dict(cmd=c, words=w, styles=[0]) for c in cmds for w in ([], ["-n"], ["a"], ["a", "b"], ["a", "b", "c"], ["--", "a"], ["-"], [""], ["--help"], ["-n", "-n", "3"])]


def no_dots(c):
    return dict(c, cmd=c["cmd"] if c["cmd"] != "_default_data_for_commands" else "default_data")


def subs():
    return [Sub("total", lambda: total().map(no_dots), check_total, 16000, 120000, regress=enumerated),
            Sub("built", lambda: built().map(no_dots), check_built, 8000, 60000)]
