"""C04: applying an input/output annotation types every argument exactly once."""
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gen, lib
from gnu import SPECS, ANNOTATED_IO

PROPERTY, LEVEL = "C04", "exploration"
RULE = ("applied: an annotated command line, its annotation applied; name, flags, options, operands and descriptors compared with the parse, "
        "grouped views with the roles of the operands, the original with its copy. Non-trivial: there is an annotation and an option with "
        "argument or an operand. typer: annotations built directly (any role for any option, any number of operands, any combination of the "
        "operations which assign roles to operands), applied to built invocations and compared with a model.")
ASSUMPTIONS = ["no operand is assigned two roles by the same generator (documented assumption)"]
CMDS = sorted(ANNOTATED_IO)
GETTERS = {"cfg": "get_operands_with_config_input", "sin": "get_operands_with_stream_input", "oin": "get_operands_with_other_input",
           "sout": "get_operands_with_stream_output", "oout": "get_operands_with_other_output"}


def text_of(view, original):
    """the text an argument had"""
    role, t = view
    if isinstance(t, int):
        expect(role != "str", "descriptor as string")
        expect(t == (1 if role in ("sout", "oout") else 0), "%r with role %s became descriptor %d", original, role, t)
        return "-"
    expect(role == "str" or t != "-", "'-' with role %s is still a file name", role)
    return t


def check_with_io(inv, info, with_io, what):
    before = lib.dump(inv)
    v = lib.io_view(with_io)
    same(v["name"], inv.cmd_name, "command name of " + what)
    same(len(v["flagoptions"]), len(inv.flag_option_list), "number of flags and options of " + what)
    for got, orig, obj in zip(v["flagoptions"], inv.flag_option_list, with_io.flag_option_list):
        if isinstance(orig, lib.Flag):
            same(got, (orig.get_name(),), "flag of " + what)
            expect(type(obj) is lib.Flag, "flag of %s became a %s", what, type(obj).__name__)
        else:
            expect(isinstance(obj, lib.OptionWithIO), "option of %s became a %s", what, type(obj).__name__)
            same((got[0], text_of(got[1], orig.get_arg())), (orig.get_name(), orig.get_arg()), "option of " + what)
            expect(obj.get_arg() is obj.get_arg_with_ioinfo(), "two different arguments of an option of %s", what)
    same([text_of(o, t.get_name()) for o, t in zip(v["operands"], inv.operand_list)], [o.get_name() for o in inv.operand_list], "operands of " + what)
    same(len(v["operands"]), len(inv.operand_list), "number of operands of " + what)
    expect(v["stdin"] in (None, ("sin", 0)) and v["stdout"] in (None, ("sout", 1)), "implicit streams of %s are %r, %r", what, v["stdin"], v["stdout"])
    # grouped views
    for role, getter in GETTERS.items():
        want = [i for i, o in enumerate(v["operands"]) if o[0] == role or (role == "cfg" and o[0] == "str")]
        got = getattr(with_io, getter)()
        idx = [[i for i, o in enumerate(with_io.operand_list) if o is g] for g in got]
        same([i[0] if len(i) == 1 else i for i in idx], want, "%s of %s" % (getter, what))
    want = [i for i, f in enumerate(v["flagoptions"]) if len(f) == 2 and f[1][0] == "oout"]
    got = [[i for i, o in enumerate(with_io.flag_option_list) if o is g] for g in with_io.get_options_with_other_output()]
    same(got, [[i] for i in want], "options with other output of " + what)
    others = bool(want) or any(o[0] == "oout" for o in v["operands"])
    same(bool(info.has_other_outputs()), others, "whether %s has other outputs" % what)
    same(lib.dump(inv), before, "the original command after the operations on %s" % what)
    return v


def check_applied(case):
    text = gen.render(gen.words_of(case), case["styles"])
    inv = lib.parse(text)
    before = lib.dump(inv)
    info = lib.io_info(inv)
    same(lib.dump(inv), before, "the command after asking for the annotation of %r" % text)
    if info is None:
        return None
    infodump = lib.dump(info)
    with_io = info.apply_input_output_info_to_command_invocation(inv)
    same(lib.dump(inv), before, "the command after applying the annotation to %r" % text)
    v = check_with_io(inv, info, with_io, repr(text))
    same(lib.dump(info), infodump, "the annotation of %r after applying it" % text)
    again = info.apply_input_output_info_to_command_invocation(inv)
    same(lib.io_view(again), v, "the annotation applied a second time to %r" % text)
    expect(again == with_io, "applying the annotation of %r twice gives different commands", text)
    if not v["operands"] and not any(len(f) == 2 for f in v["flagoptions"]):
        return None
    labels = ["cmd:" + case["cmd"]]
    if any(isinstance(x[1], int) for x in v["operands"]): labels.append("dash operand")
    if any(len(f) == 2 and f[1][0] != "str" for f in v["flagoptions"]): labels.append("file option")
    return labels


# ---- annotations built directly

PLANS = {   # name -> list of operations and the model: n -> roles
    "default": ([], lambda n: ["sin"] * n), "sin": (["all_operands_are_streaming_inputs"], lambda n: ["sin"] * n),
    "sout": (["all_operands_are_streaming_outputs"], lambda n: ["sout"] * n),
    "oin": (["all_operands_are_other_inputs"], lambda n: ["oin"] * n), "oout": (["all_operands_are_other_outputs"], lambda n: ["oout"] * n),
    "cfg": (["set_all_operands_as_config_arg_type_string"], lambda n: ["str"] * n), "str": (["set_all_operands_as_arg_string"], lambda n: ["str"] * n),
}
FIRST = {"set_first_operand_as_config_arg_type_string": "str", "set_first_operand_as_config_arg_type_filename_or_std_descriptor": "cfg"}
REST = {"all_but_first_operand_is_streaming_input": "sin", "all_but_first_operand_is_streaming_output": "sout", "all_but_first_operand_is_other_input": "oin", None: "sin"}
LAST = {"only_last_operand_is_stream_output": "sout", "only_last_operand_is_other_output": "oout"}
INIT = {"all_but_last_operand_is_streaming_input": "sin", "all_but_last_operand_is_other_input": "oin", None: "sin"}
ARGROLES = ["str", "cfg", "sin", "oin", "container", "excludes", "sout", "oout"]


@st.composite
def typer(draw):
    text = st.one_of(st.sampled_from(["-", "in.txt", "--", "", "-x", "a b"]), gen.WORD)
    fos = []
    for _ in range(draw(st.integers(0, 4))):
        name = draw(st.sampled_from(["-a", "-o", "--out", "-f"]))
        fos.append([name] if draw(st.booleans()) else [name, draw(text), draw(st.sampled_from(ARGROLES))])
    kind = draw(st.sampled_from(["whole", "first", "last"]))
    n = draw(st.integers(0 if kind == "whole" else 1, 4))
    if kind == "whole":
        plan = draw(st.sampled_from(sorted(PLANS)))
        ops, roles = PLANS[plan][0], PLANS[plan][1](n)
    elif kind == "first":
        f, r = draw(st.sampled_from(sorted(FIRST))), draw(st.sampled_from(sorted(REST, key=str)))
        ops, roles = [f] + ([r] if r else []), [FIRST[f]] + [REST[r]] * (n - 1)
    else:
        l, r = draw(st.sampled_from(sorted(LAST))), draw(st.sampled_from(sorted(INIT, key=str)))
        ops, roles = [l] + ([r] if r else []), [INIT[r]] * (n - 1) + [LAST[l]]
    if len(ops) == 2 and draw(st.booleans()):
        ops = ops[::-1]
    order = draw(st.permutations([["op", o] for o in ops] if False else ops + ["stdin", "stdout"]))
    # the operations on operands keep their order
    it = iter(ops)
    order = [o if o in ("stdin", "stdout") else next(it) for o in order]
    return dict(fos=fos, operands=draw(st.lists(text, min_size=n, max_size=n)), order=order, roles=roles, stdin=draw(st.booleans()), stdout=draw(st.booleans()))


def check_typer(case):
    W = lib.WhichClassForArg
    fos, types = [], []
    for f in case["fos"]:
        if len(f) == 1:
            fos.append(lib.Flag(f[0])); types.append((W.PLAINSTRING, None))
        else:
            fos.append(lib.Option(f[0], f[1]))
            types.append((W.ARGSTRING, None) if f[2] == "str" else (W.FILESTD, lib.ACCESS[f[2]]()))
    inv = lib.CommandInvocationInitial("cmd", fos, [lib.Operand(o) for o in case["operands"]])
    info = lib.InputOutputInfo(types, len(case["operands"]))
    for o in case["order"]:
        if o == "stdin": info.set_implicit_use_of_stdin(case["stdin"])
        elif o == "stdout": info.set_implicit_use_of_stdout(case["stdout"])
        else: getattr(info, o)()
    what = "a command with %r, operands %r after %r" % (case["fos"], case["operands"], case["order"])
    with_io = info.apply_input_output_info_to_command_invocation(inv)
    v = check_with_io(inv, info, with_io, what)
    same([o[0] for o in v["operands"]], case["roles"], "roles of the operands of " + what)
    same([f[1][0] for f in v["flagoptions"] if len(f) == 2], [f[2] for f in case["fos"] if len(f) == 3], "roles of the option arguments of " + what)
    same((v["stdin"], v["stdout"]), (("sin", 0) if case["stdin"] else None, ("sout", 1) if case["stdout"] else None), "implicit streams of " + what)
    return ["typer"] if case["operands"] or case["fos"] else None


def applied():
    return st.builds(lambda c, s: dict(c, styles=s), gen.invocation(CMDS), gen.STYLES)


def operand_lists(cmd):
    pool = gen.operand_pool(cmd)
    return [[], [pool[0], "-"], [pool[0], "in.txt", "b"], ["-", "-"], ["a"]]


def enumerated():
    out = [dict(c, styles=[0]) for c in gen.pairwise(CMDS, operand_lists)]
    for cmd in CMDS:
        out += [dict(c, styles=[0]) for c in gen.huge(cmd, 1200)]
        for w in gen.NORMAL:
            for operands in ([w], [gen.operand_pool(cmd)[0], w], [w, w, "x"]):
                if gen.ends_options(SPECS[cmd], operands): out.append(dict(cmd=cmd, items=[], operands=operands, styles=[0]))
            for names, kind in SPECS[cmd].rows:
                if kind: out.append(dict(cmd=cmd, items=[["o", names[0], w]], operands=["x"], styles=[0]))
    return out


def subs():
    return [Sub("applied", applied, check_applied, 12000, 120000, regress=enumerated), Sub("typer", typer, check_typer, 8000, 60000)]
