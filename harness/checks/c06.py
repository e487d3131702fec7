"""C06: input/output annotations assign the documented role to every argument."""
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gen, lib, ref
from gnu import SPECS, TABLE, NO_TABLE, ANNOTATED_IO

PROPERTY, LEVEL = "C06", "exploration"
RULE = ("roles: a command line of an annotated command (flags, options, operands, generated or enumerated: every flag and option, every ordered "
        "pair of them), parsed, annotated and compared argument by argument with an independent table of roles. Non-trivial: at least one flag, "
        "option or operand. Labels tell how often there is no annotation. built: the same with invocations built by the program. lists: "
        "every set of three flags and options (in varying order and spelling) and generated lists of up to nine, each with every of several lists of operands.")
ASSUMPTIONS = ["roles according to the manuals (harness/ref.py)"]
CMDS = sorted(set(ANNOTATED_IO))


def view(info, inv):
    if info is None:
        return None
    with_io = info.apply_input_output_info_to_command_invocation(inv)
    return dict(lib.io_view(with_io), other_outputs=bool(info.has_other_outputs()))


def compare(case, inv, spec, what):
    fos, ops = [], case["operands"]
    got = view(lib.io_info(inv), inv)
    idents = gen.expected(spec, case["items"])
    want = ref.io_ref(case["cmd"], idents, ops)
    if want is ref.UNDECIDED:
        return None
    if want is None or got is None:
        expect(got is None, "%s must not have an input/output annotation, but has %r", what, got)
        expect(want is None, "%s has no input/output annotation", what)
        return ["none:" + case["cmd"]]
    got_fos = []
    for f in got["flagoptions"]:
        got_fos += [(x,) for x in spec.flag_idents(f[0])] if len(f) == 1 else [(spec.ident(f[0]), f[1])]
    same(got["name"], case["cmd"], "command name of %s" % what)
    same(got_fos, want["flagoptions"], "flags and options of %s" % what)
    same(got["operands"], want["operands"], "operands of %s" % what)
    same(got["stdin"], want["stdin"], "use of standard input of %s" % what)
    same(got["stdout"], want["stdout"], "use of standard output of %s" % what)
    same(got["other_outputs"], want["other_outputs"], "whether %s has other outputs" % what)
    labels = ["cmd:" + case["cmd"]]
    if any(len(f) == 2 and f[1][0] != "str" for f in want["flagoptions"]): labels.append("file in option")
    if want["other_outputs"]: labels.append("other outputs")
    return labels if case["items"] or ops else None


def check_roles(case):
    text = gen.render(gen.words_of(case), [0])
    return compare(case, lib.parse(text), SPECS[case["cmd"]], repr(text))


def check_built(case):
    """built with the names which the parser gives"""
    spec = SPECS[case["cmd"]]
    fos = []
    for it in case["items"]:
        if it[0] == "f":
            (f,) = lib.parse(case["cmd"] + " " + it[1]).flag_option_list
            fos.append(lib.Flag(f.get_name()))
        else:
            (f,) = lib.parse(case["cmd"] + " " + it[1] + " x").flag_option_list
            fos.append(lib.Option(f.get_name(), it[2]))
    inv = lib.CommandInvocationInitial(case["cmd"], fos, [lib.Operand(o) for o in case["operands"]])
    return compare(case, inv, spec, "the invocation of %s with %r and operands %r" % (case["cmd"], case["items"], case["operands"]))


def check_lists(case, lists=None):
    """the same flags and options with several lists of operands"""
    spec = SPECS[case["cmd"]]
    text = gen.render(gen.words_of(dict(case, operands=[])), [0])
    fos, labels = lib.parse(text).flag_option_list, set()
    for operands in lists or operand_lists(case["cmd"]):
        inv = lib.CommandInvocationInitial(case["cmd"], list(fos), [lib.Operand(o) for o in operands])
        labels |= set(compare(dict(case, operands=operands), inv, spec, "%s with operands %r" % (text, operands)) or [])
    return sorted(labels) if labels else None


def simple(case):
    return [dict(case, items=[i for i in case["items"] if not (i[0] == "f" and (case["cmd"], SPECS[case["cmd"]].ident(i[1])) in gen.EXPANSIONS)])]


def strategy():
    return gen.invocation(CMDS)


def built():
    return gen.invocation(CMDS).map(lambda c: simple(c)[0])


def operand_lists(cmd):
    pool = gen.operand_pool(cmd)
    return [[], [pool[0]], [pool[0], "in.txt"], [pool[-1], "a.txt", "-"], ["x", "-q9", "a.txt"], ["-"], ["a", "b", "c", "d=1"], [pool[0], "-", "-x"], [""]]


def enumerated():
    out = gen.pairwise(CMDS, operand_lists)
    for cmd in CMDS:
        pool = gen.operand_pool(cmd)
        out += gen.huge(cmd)
        lists = [[w] for w in gen.NORMAL] + [[pool[0], w] for w in gen.NORMAL] + [[pool[0], "x", w, "y"] for w in gen.NORMAL]
        # words which may be unknown options, after many operands
        lists += [[pool[0]] + ["f%d" % i for i in range(n)] + [w] for n in (1, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 40) for w in ("-q9", "--zzz", "-n", "-", "--", "-x", "x=1")]
        for l in lists:
            if gen.ends_options(SPECS[cmd], l): out.append(dict(cmd=cmd, items=[], operands=l))
        for names, kind in SPECS[cmd].rows:
            if kind:
                for w in gen.NORMAL: out.append(dict(cmd=cmd, items=[["o", names[0], w]], operands=[pool[0], "x"]))
    return out


def subs():
    return [Sub("roles", strategy, check_roles, 16000, 200000, regress=enumerated), Sub("built", built, check_built, 6000, 60000),
            Sub("lists", lambda: gen.invocation(CMDS, max_items=9).map(lambda c: dict(cmd=c["cmd"], items=c["items"])), check_lists, 3000, 60000, regress=lambda: gen.triples(CMDS, size=2) + gen.triples(CMDS))]
