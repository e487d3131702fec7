"""C21: values have exactly the parts they were made from, and shared helpers do what they are named after."""
import copy
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gen, lib, objs
from lib import AGS, AK, MS, PZ

PROPERTY, LEVEL = "C21", "exploration"
RULE = ("parts: a description of a value of any kind; the value built from it is read through its public names and must give the description back, also in a copy; a command "
        "with variables, mapper or aggregator stays the same when the lists and the map it was made from are changed. roles: words as names of access kinds. helpers: lists and "
        "functions for folding, removing duplicates, defaults, short forms of flags and options, and shell words as syntax trees. Non-trivial: the value has a part, the list an element.")
ASSUMPTIONS = ["no aliasing is promised for commands without variables, which keep the lists they are given"]


def role(a):
    r = lib.role(a)
    expect(bool(a.is_any_input()) == (r not in ("sout", "oout")) and bool(a.is_any_output()) == (r in ("sout", "oout")), "input or output of access kind %s", r)
    return r


def io_arg(x):
    if type(x) is lib.ArgStringType: return ["str", x.get_name()]
    if type(x) is lib.FileNameWithIOInfo: return ["fileio", x.get_name(), role(x.get_access())]
    expect(type(x) is lib.StdDescriptorWithIOInfo, "argument of type %s", type(x).__name__)
    return ["stdio", x.get_type().value, role(x.get_access())]


def var_arg(x):
    return ["var", x] if isinstance(x, int) else ["str", x.get_name()]


def view(x):
    """description of a value"""
    t = type(x)
    if t is lib.Flag: return ["flag", x.get_name()]
    if t is lib.Option: return ["option", x.get_name(), x.get_arg()]
    if t is lib.OptionWithIO:
        same(io_arg(x.get_arg_with_ioinfo()), io_arg(x.get_arg()), "the two accessors of an option argument")
        return ["optionio", x.get_name(), io_arg(x.get_arg())]
    if t is lib.OptionWithIOVar:
        same(var_arg(x.get_arg_with_ioinfo()), var_arg(x.get_arg()), "the two accessors of an option argument")
        return ["optionvar", x.get_name(), var_arg(x.get_arg())]
    if t is lib.Operand:
        a = x.to_arg_string_type()
        same([type(a), a.get_name()], [lib.ArgStringType, x.get_name()], "operand as string")
        return ["operand", x.get_name()]
    if t is lib.FileName: return ["file", x.get_name()]
    if t is lib.StdDescriptor: return ["std", x.get_type().value]
    if t in (lib.ArgStringType, lib.FileNameWithIOInfo, lib.StdDescriptorWithIOInfo): return io_arg(x)
    if t is AK.AccessKind: return ["access", role(x)]
    if t is lib.CommandInvocationInitial: return ["cmd", x.cmd_name, [view(f) for f in x.flag_option_list], [o.get_name() for o in x.operand_list]]
    if t is lib.CommandInvocationPrefix: return ["cmdprefix", x.cmd_name, [view(f) for f in x.flag_option_list], [view(o) for o in x.positional_config_list]]
    if t is lib.CommandInvocationWithIO:
        i, o = x.implicit_use_of_streaming_input, x.implicit_use_of_streaming_output
        return ["cmdio", x.cmd_name, [view(f) for f in x.flag_option_list], [io_arg(o) for o in x.operand_list], None if i is None else io_arg(i), None if o is None else io_arg(o)]
    if t is lib.CommandInvocationWithIOVars: return ["cmdvars"] + objs.vcmd(x)
    if t is lib.MAP.Mapper: return ["mapper", ["cmdvars"] + objs.vcmd(x)]
    if t is lib.AGG.Aggregator: return ["aggregator", x.kind.name, ["cmdvars"] + objs.vcmd(x)]
    raise Violation("no view of %s" % t.__name__)


def accessible(x, d):
    """grouped views of a command with input/output information"""
    groups = dict(config=[], stream_in=[], other_in=[], stream_out=[], other_out=[])
    for o in d[3]:
        if o[0] == "str" or o[2] == "cfg": groups["config"].append(o)
        elif o[2] in ("sin", "oin", "sout", "oout"): groups[{"sin": "stream_in", "oin": "other_in", "sout": "stream_out", "oout": "other_out"}[o[2]]].append(o)
    for name, f in (("config", x.get_operands_with_config_input), ("stream_in", x.get_operands_with_stream_input), ("other_in", x.get_operands_with_other_input),
                    ("stream_out", x.get_operands_with_stream_output), ("other_out", x.get_operands_with_other_output)):
        same([io_arg(o) for o in f()], groups[name], "operands with role %s of %r" % (name, d))
    same([view(o) for o in x.get_options_with_other_output()], [f for f in d[2] if f[0] == "optionio" and f[2][0] != "str" and f[2][2] == "oout"], "options with other outputs of %r" % (d,))


SPECS = ("splitter", "mapper_spec", "agg_spec", "parallelizer")
KINDS = sorted(k for k in objs.VALUES if k not in SPECS + ("transformer",))


def spec_parts(x, d):
    k = d[0]
    if k == "splitter":
        for n, p in (("round_robin", "is_splitter_round_robin"), ("round_robin_unwrap", "is_splitter_round_robin_with_unwrap_flag"), ("consec_chunks", "is_splitter_consec_chunks")):
            same(bool(getattr(x, p)()), d[1] == n, "%s of splitter %s" % (p, d[1]))
    elif k in ("m_seq", "m_custom", "m_text"):
        same(bool(x.is_implemented), True if k == "m_seq" else d[-1], "whether mapper %r is implemented" % d)
    elif k.startswith("a_"):
        kind = {"a_conc": "CONCATENATE", "a_merge": "ADJ_LINES_MERGE", "a_seq": "ADJ_LINES_SEQ"}.get(k) or d[1]
        same(x.get_kind().name, kind, "kind of aggregator %r" % d)
        for n in ("CONCATENATE", "ADJ_LINES_MERGE", "ADJ_LINES_SEQ", "ADJ_LINES_FUNC", "CUSTOM_2_ARY", "CUSTOM_N_ARY"):
            same(bool(getattr(x, "is_aggregator_spec_" + n.lower())()), n == kind, "whether aggregator %r is of kind %s" % (d, n))
        same(bool(x.is_implemented), k == "a_conc" if len(d) == 1 else d[3], "whether aggregator %r is implemented" % d)
    elif k == "p":
        spec_parts(x.get_splitter(), ["splitter", d[1]])
        spec_parts(x.get_mapper_spec(), d[2])
        spec_parts(x.get_aggregator_spec(), d[3])
        same([x.info_splitter_mapper.name, x.get_info_mapper_aggregator()], [d[4] or "NO_ADD_INPUT", d[5]], "information of parallelizer %r" % d)


def check_parts(d):
    if not isinstance(d[0], str): raise AssertionError(d)
    x = objs.build(d)
    if d[0] in ("splitter", "m_seq", "m_custom", "m_text", "p") or d[0].startswith("a_"):
        spec_parts(x, d)
        spec_parts(copy.deepcopy(x), d)
        return ["spec:" + d[0]]
    same(view(x), d, "parts of a value made from %r" % (d,))
    same(view(copy.deepcopy(x)), d, "parts of a copy of a value made from %r" % (d,))
    if d[0] == "cmdio": accessible(x, d)
    if d[0] in ("cmdvars", "mapper", "aggregator"):
        c = d[1] if d[0] == "mapper" else d[2] if d[0] == "aggregator" else d
        fos, ops, amap = objs.builds(c[2]), objs.builds(c[3]), objs.amap(c[6])
        make = {"cmdvars": lib.CommandInvocationWithIOVars, "mapper": lib.MAP.Mapper, "aggregator": lambda *a: lib.AGG.Aggregator(lib.AGK.AggregatorKindEnum[d[1]], *a)}[d[0]]
        y = make(c[1], fos, ops, c[4], c[5], amap)
        same(bool(y.is_aggregator_concatenate()), d[0] == "aggregator" and d[1] == "CONCATENATE", "is_aggregator_concatenate of %r" % (d,))
        for f in fos:
            if isinstance(f, lib.OptionWithIOVar): f.option_arg = 77
        fos.append(lib.Flag("-changed")); ops.append(78); ops[:1] = [79]; amap[78] = lib.ACCESS["cfg"]()
        same(view(y), d, "a value made from %r after what it was made from is changed" % (d,))
    return [d[0]]


value = st.sampled_from(KINDS + ["cmdvars", "cmdio", "mapper", "aggregator"] + list(SPECS)).flatmap(lambda k: objs.VALUES[k])

# ---------------------------------------------------------------------------------------------------------------------------- roles

WORDS = {"CONFIG_INPUT": "cfg", "STREAM_INPUT": "sin", "CONTAINER_FOR_INPUT": "container", "EXCLUDES_FROM_INPUT": "excludes", "OTHER_INPUT": "oin", "STREAM_OUTPUT": "sout", "OTHER_OUTPUT": "oout"}


def check_roles(w):
    try:
        a = AK.get_access_from_string(w)
    except Exception:
        a = None
    same(None if a is None else role(a), WORDS.get(w), "access kind with the name %r" % w)
    if a is not None:
        b = AK.get_access_from_string(w)
        expect(a == b, "access kinds of the same name differ: %s", w)
        same([lib.role(c()) for c in lib.ACCESS.values()], list(lib.ACCESS), "roles of the access kinds")
    return ["name" if a is not None else "no name"]


word = st.one_of(st.sampled_from(sorted(WORDS)), st.sampled_from(sorted(WORDS)).flatmap(lambda w: st.sampled_from(
    [w.lower(), w + " ", " " + w, w[:-1], w + "S", w.replace("_", ""), w.replace("INPUT", "OUTPUT"), w.split("_")[0], w.title(), w.replace("_", "-")])), st.text(max_size=8))

# -------------------------------------------------------------------------------------------------------------------------- helpers

item = st.one_of(st.integers(-2, 3), st.sampled_from(["", "a", "b", "1"]), st.lists(st.integers(0, 1), max_size=2), st.none())
char = st.one_of(st.integers(1, 0x2fff), st.sampled_from([ord(c) for c in "\\=[]-:~* \"'$\n"]))


def word_tree(depth):
    leaf = st.one_of(char.map(lambda n: ["C", n]), char.map(lambda n: ["E", n]), char.map(lambda n: ["C", n]), st.sampled_from(["x", "HOME", "1", "@"]).map(lambda v: ["V", ["Normal", False, v, []]]),
                     st.sampled_from(["ls", "cat x"]).map(lambda v: ["B", v]))
    return leaf if depth == 0 else st.one_of(leaf, leaf, leaf, st.lists(word_tree(depth - 1), max_size=4).map(lambda l: ["Q", l]))


def text_of(tree):
    out = ""
    for k, v in tree:
        out += chr(v) if k in "CE" else '"%s"' % text_of(v) if k == "Q" else "${%s}" % v[2] if k == "V" else "$(%s)" % v
    return out


def is_same(x, y):
    return type(x) is type(y) and x == y


def check_helpers(case):
    """a helper that is not there any more is not checked"""
    from pash_annotations import util, util_flag_option
    from pash_annotations.datatypes import BasicDatatypes
    l, tags = case["list"], []
    given = copy.deepcopy(l)

    def helper(name, module=util):
        f = getattr(module, name, None)
        if f: tags.append(name)
        return f
    if f := helper("list_deduplication"):
        uniq = []
        for x in l:
            if x not in uniq: uniq.append(x)
        same(f(given), uniq, "list without duplicates of %r" % (l,))
    if f := helper("foldl"):
        same(f(lambda el, acc: acc + [el], ["start"], given), ["start"] + l, "fold of %r from the left" % (l,))
        nested = "s"
        for x in l[:3]: nested = (nested, x)
        same(f(lambda el, acc: (acc, el), "s", given[:3]), nested, "nested fold of %r" % (l,))
    same(given, l, "the list after folding and removing duplicates")
    if f := helper("return_default_if_none_else_itself"):
        for x in l + [[], 0, "", False]:
            if x is not None: expect(is_same(f(x, "default"), x), "%r is replaced by a default", x)
        same(f(None, l), l, "default for None")
    for n in ("return_empty_list_if_none_else_itself", "return_empty_flag_option_list_if_none_else_itself", "return_empty_pos_config_list_if_none_else_itself"):
        if f := helper(n):
            a = f(None)
            same(a, [], "default for None")
            a.append(1)
            same(f(None), [], "default after an earlier one was changed")
            expect(is_same(f(given), l), "a list is replaced")
    if f := helper("make_arg_simple", util_flag_option):
        a = case["short"]
        try: got = view(f(list(a)))
        except Exception: got = None
        same(got, ["flag", a[0]] if len(a) == 1 else ["option", a[0], a[1]] if len(a) == 2 else None, "flag or option of %r" % (a,))
    if f := helper("format_arg_chars", BasicDatatypes):
        same(f(copy.deepcopy(case["tree"])), text_of(case["tree"]), "text of the shell word %r" % (case["tree"],))
    for n, std in (("compute_actual_el_for_input", 0), ("compute_actual_el_for_output", 1)):
        if f := helper(n):
            for t in case["texts"]: same(view(f(t)), ["std", std] if t == "-" else ["file", t], "%r as input or output" % t)
    from pash_annotations.datatypes import BasicDatatypesWithIO as IO
    acc = lib.ACCESS[case["role"]]
    for t in case["texts"]:
        if f := helper("get_from_original_filename_with_ioinfo", IO): same(view(f(lib.FileName(t), acc())), ["fileio", t, case["role"]], "file %r with an access kind" % t)
        if f := helper("OperandWithIO", IO): same(view(f.make_operand_a_filename_with_access(lib.Operand(t), acc()).get_name()), ["fileio", t, case["role"]], "operand %r with an access kind" % t)
    for n, d in (("get_stdin_fd", 0), ("get_stdout_fd", 1), ("get_stderr_fd", 2)):
        if f := helper(n, BasicDatatypes):
            same(view(f()), ["std", d], n)
            if g := helper("get_from_original_stddescriptor_with_ioinfo", IO): same(view(g(f(), acc())), ["stdio", d, case["role"]], "%s with an access kind" % n)
    for n, d in (("make_stdin_with_access_stream_input", [0, "sin"]), ("make_stdout_with_access_output", [1, "sout"])):
        if f := helper(n, IO): same(view(f()), ["stdio"] + d, n)
    return tags if l or case["tree"] else None


helpers = st.fixed_dictionaries(dict(role=st.sampled_from(sorted(lib.ACCESS)), list=st.lists(item, max_size=7), short=st.lists(st.sampled_from(["-a", "x", "", "--all", "-"]), max_size=3), tree=st.lists(word_tree(2), max_size=6),
                                     texts=st.lists(st.one_of(st.sampled_from(["-", "--", "", "- ", "-x", "/dev/stdin", "\u2010", "0"]), gen.WORD), max_size=4)))


def long_lists():
    return [dict(role="cfg", list=[i % 50 for i in range(n)], short=["-a"], tree=[["C", 97]] * n, texts=["-"]) for n in (40, 300, 2500)]


def subs():
    return [Sub("parts", lambda: value, check_parts, 12000, 120000), Sub("roles", lambda: word, check_roles, 2000, 10000, regress=lambda: sorted(WORDS)),
            Sub("helpers", lambda: helpers, check_helpers, 5000, 50000, regress=long_lists)]
