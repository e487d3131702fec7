"""JSON descriptions of values of the library, their strategies, and how to build them.  build() makes new objects on every call."""
from hypothesis import strategies as st
import gnu, lib
from lib import TR, MS, AGS, PZ, SP, AGK

NAMES = ["-a", "-b", "-n", "--number", "-r", "-k", "-m", "-o", "--out", "-a -b", "--n", "--a", "--Out", "--NUMBER", "-A", "-N"]
TEXTS = ["", "x", "1", "-", "in.txt", "-a", "a b", "0", "a", "b", "a, b", "-a x", "'x'"]
ROLES = sorted(lib.ACCESS)
MORE_NAMES = sorted({n for rows in gnu.TABLE.values() for r, _ in rows for n in r})
name = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(MORE_NAMES))
text, var = st.sampled_from(TEXTS), st.integers(0, 6)

access = st.sampled_from(ROLES).map(lambda r: ["access", r])
file_io = st.tuples(st.sampled_from(TEXTS), st.sampled_from(ROLES)).map(lambda t: ["fileio", t[0], t[1]])
std_io = st.tuples(st.integers(0, 2), st.sampled_from(ROLES)).map(lambda t: ["stdio", t[0], t[1]])
argstr = text.map(lambda t: ["str", t])
io_arg = st.one_of(argstr, file_io, std_io)
var_arg = st.one_of(argstr, var.map(lambda v: ["var", v]))
flag = name.map(lambda n: ["flag", n])
option = st.tuples(name, text).map(lambda t: ["option", t[0], t[1]])
option_io = st.tuples(name, io_arg).map(lambda t: ["optionio", t[0], t[1]])
option_var = st.tuples(name, var_arg).map(lambda t: ["optionvar", t[0], t[1]])
fo_initial = st.lists(st.one_of(flag, option), max_size=4)
fo_io = st.lists(st.one_of(flag, option_io), max_size=4)
fo_var = st.lists(st.one_of(flag, option_var), max_size=5)
names = st.lists(name, max_size=4)


def no_dup(lst):
    out = []
    for x in lst:
        if x not in out:
            out.append(x)
    return out


transformer_leaf = st.one_of(
    st.just(["t_seq"]), fo_var.map(lambda l: ["t_add", no_dup(l)]), names.map(lambda l: ["t_remove", l]), names.map(lambda l: ["t_filter", l]),
    st.just(["t_empty"]), fo_var.map(lambda l: ["t_custom", l]))
transformer = st.recursive(transformer_leaf, lambda s: st.lists(s, max_size=4).map(lambda l: ["t_chain", l]), max_leaves=6)
maybe = lambda s: st.one_of(st.none(), s)
mapper_spec = st.one_of(
    st.just(["m_seq"]),
    st.tuples(maybe(st.sampled_from(["mycmd", "other", "a b", "my cmd", "runtime/x y.sh", "./x", "MyCmd", "x" * 300])), maybe(transformer), st.booleans()).map(lambda t: ["m_custom"] + list(t)),
    st.tuples(st.sampled_from(["mycmd", "cat -n -b", "mymap", "sort -r", "MyMap", "cat -A -T", "runtime/Map.SH"]), st.booleans()).map(lambda t: ["m_text"] + list(t)))
KINDS = ["ADJ_LINES_FUNC", "CUSTOM_2_ARY", "CUSTOM_N_ARY"]
agg_spec = st.one_of(
    st.sampled_from(["conc", "merge", "seq"]).map(lambda k: ["a_" + k]),
    st.tuples(st.sampled_from(KINDS), maybe(transformer), st.booleans()).map(lambda t: ["a_trans"] + list(t)),
    st.tuples(st.sampled_from(KINDS), st.sampled_from(["myagg", "cat -n -b", "cat -bn", "sort -r -m", "runtime/agg.sh", "MyAgg", "cat -A -T", "Runtime/agg.SH"]), st.booleans()).map(lambda t: ["a_text"] + list(t)))
SPLITS = ["indiv_files", "round_robin", "round_robin_unwrap", "consec_chunks"]
INFOS = ["NO_ADD_INPUT", "LINE_NUM_OFFSET", "BYTE_OFFSET", "LINE_NUM_AND_BYTE_OFFSET"]
RR_OK = {"a_conc", "a_merge", "a_seq"}


def rr_allowed(a):
    return a is None or a[0] in RR_OK or a[1] == "ADJ_LINES_FUNC"


parallelizer_any = st.tuples(st.sampled_from(SPLITS), mapper_spec, agg_spec, maybe(st.sampled_from(INFOS)), st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 9, 12, 33])).map(lambda t: ["p"] + list(t))
parallelizer = parallelizer_any.map(lambda p: p if p[1] != "round_robin" or rr_allowed(p[3]) else ["p", "consec_chunks"] + p[2:])


@st.composite
def command_vars(draw, one_stream=False, unique=True, max_fos=4, max_ops=4, operands_all_vars=False):
    """a command with variables: every variable occurs once and has an access kind"""
    n = [draw(st.sampled_from([-1, -1, 0, 3, 10, -1, 0, 254, 2 ** 31 - 2, 2 ** 40]))]
    access_map = {}

    def new(roles):
        n[0] += draw(st.sampled_from([1, 1, 2]))
        access_map[str(n[0])] = draw(st.sampled_from(roles))
        return n[0]
    others = [r for r in ROLES if r not in ("sin", "sout")] if one_stream else ROLES
    fos = []
    for _ in range(draw(st.integers(0, max_fos))):
        nm = draw(name)
        k = draw(st.integers(0, 2))
        fos.append(["flag", nm] if k == 0 else ["optionvar", nm, ["str", draw(text)]] if k == 1 else ["optionvar", nm, ["var", new(others)]])
    ops = []
    for _ in range(draw(st.integers(0, max_ops))):
        ops.append(["var", new(others)] if operands_all_vars or draw(st.booleans()) else ["str", draw(text)])
    stdin = stdout = None
    if one_stream:
        for r in ("sin", "sout"):
            v = new([r])
            places = ["implicit"] + (["operand"] if True else [])
            if not operands_all_vars: places.append("option")
            where = draw(st.sampled_from(places))
            if where == "operand":
                ops.insert(draw(st.integers(0, len(ops))), ["var", v])
            elif where == "option":
                fos.insert(draw(st.integers(0, len(fos))), ["optionvar", draw(name), ["var", v]])
            elif r == "sin":
                stdin = v
            else:
                stdout = v
    else:
        if draw(st.booleans()): stdin = new(["sin"])
        if draw(st.booleans()): stdout = new(["sout"])
    cmd = draw(st.sampled_from(["mycmd", "cat", "sort"]))
    return ["cmdvars", cmd, fos, ops, stdin, stdout, access_map]


command_initial = st.tuples(st.sampled_from(["cat", "x"]), fo_initial, st.lists(text, max_size=3)).map(lambda t: ["cmd"] + list(t))
command_io = st.tuples(st.sampled_from(["cat", "x"]), fo_io, st.lists(io_arg, max_size=3), maybe(std_io), maybe(std_io)).map(lambda t: ["cmdio"] + list(t))
command_prefix = st.tuples(st.sampled_from(["cat", "x"]), fo_initial, st.lists(st.one_of(argstr, text.map(lambda t: ["file", t])), max_size=3)).map(lambda t: ["cmdprefix"] + list(t))
AGGKINDS = ["CONCATENATE", "ADJ_LINES_MERGE", "ADJ_LINES_SEQ"] + KINDS
VALUES = {
    "access": access, "file": text.map(lambda t: ["file", t]), "std": st.integers(0, 2).map(lambda i: ["std", i]), "str": argstr, "fileio": file_io,
    "stdio": std_io, "flag": flag, "option": option, "optionio": option_io, "optionvar": option_var, "operand": text.map(lambda t: ["operand", t]),
    "cmd": command_initial, "cmdio": command_io, "cmdprefix": command_prefix, "cmdvars": command_vars(),
    "splitter": st.sampled_from(SPLITS).map(lambda s: ["splitter", s]), "mapper_spec": mapper_spec, "agg_spec": agg_spec, "transformer": transformer,
    "parallelizer": parallelizer, "mapper": command_vars().map(lambda c: ["mapper", c]),
    "aggregator": st.tuples(st.sampled_from(AGGKINDS), command_vars()).map(lambda t: ["aggregator"] + list(t)),
}


def build(d):
    k = d[0]
    if k == "access": return lib.ACCESS[d[1]]()
    if k == "file": return lib.FileName(d[1])
    if k == "std": return [lib.get_stdin_fd, lib.get_stdout_fd, lib.get_stderr_fd][d[1]]()
    if k == "str": return lib.ArgStringType(d[1])
    if k == "var": return d[1]
    if k == "fileio": return lib.FileNameWithIOInfo(d[1], lib.ACCESS[d[2]]())
    if k == "stdio": return lib.StdDescriptorWithIOInfo(lib.StdDescriptorEnum(d[1]), lib.ACCESS[d[2]]())
    if k == "flag": return lib.Flag(d[1])
    if k == "option": return lib.Option(d[1], d[2])
    if k == "optionio": return lib.OptionWithIO(d[1], build(d[2]))
    if k == "optionvar": return lib.OptionWithIOVar(d[1], build(d[2]))
    if k == "operand": return lib.Operand(d[1])
    if k == "cmd": return lib.CommandInvocationInitial(d[1], builds(d[2]), [lib.Operand(t) for t in d[3]])
    if k == "cmdio": return lib.CommandInvocationWithIO(d[1], builds(d[2]), builds(d[3]), d[4] and build(d[4]), d[5] and build(d[5]))
    if k == "cmdprefix": return lib.CommandInvocationPrefix(d[1], builds(d[2]), builds(d[3]))
    if k == "cmdvars": return lib.CommandInvocationWithIOVars(d[1], builds(d[2]), builds(d[3]), d[4], d[5], amap(d[6]))
    if k == "mapper": return lib.MAP.Mapper(d[1][1], builds(d[1][2]), builds(d[1][3]), d[1][4], d[1][5], amap(d[1][6]))
    if k == "aggregator":
        return lib.AGG.Aggregator(AGK.AggregatorKindEnum[d[1]], d[2][1], builds(d[2][2]), builds(d[2][3]), d[2][4], d[2][5], amap(d[2][6]))
    if k == "t_seq": return TR.make_transformer_same_as_seq()
    if k == "t_add": return TR.make_transformer_add(builds(d[1]))
    if k == "t_remove": return TR.make_transformer_remove(list(d[1]))
    if k == "t_filter": return TR.make_transformer_filter(list(d[1]))
    if k == "t_empty": return TR.make_transformer_empty()
    if k == "t_custom": return TR.make_transformer_custom(builds(d[1]))
    if k == "t_chain": return TR.ChainTransformerFlagOptionList(builds(d[1]))
    if k == "m_seq": return MS.make_mapper_spec_seq()
    if k == "m_custom": return MS.make_mapper_spec_custom(d[1], d[2] and build(d[2]), is_implemented=d[3])
    if k == "m_text": return MS.make_mapper_spec_custom_from_string_representation(d[1], is_implemented=d[2])
    if k == "a_conc": return AGS.make_aggregator_spec_concatenate()
    if k == "a_merge": return AGS.make_aggregator_spec_adj_lines_merge()
    if k == "a_seq": return AGS.make_aggregator_spec_adj_lines_seq()
    if k == "a_trans":
        return {"ADJ_LINES_FUNC": AGS.make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers,
                "CUSTOM_2_ARY": AGS.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers,
                "CUSTOM_N_ARY": AGS.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers}[d[1]](d[2] and build(d[2]), is_implemented=d[3])
    if k == "a_text":
        return {"ADJ_LINES_FUNC": AGS.make_aggregator_spec_adj_lines_func_from_string_representation,
                "CUSTOM_2_ARY": AGS.make_aggregator_spec_custom_2_ary_from_string_representation,
                "CUSTOM_N_ARY": AGS.make_aggregator_spec_custom_n_ary_from_string_representation}[d[1]](d[2], is_implemented=d[3])
    if k == "splitter":
        return {"indiv_files": SP.make_splitter_indiv_files, "round_robin": SP.make_splitter_round_robin,
                "round_robin_unwrap": SP.make_splitter_round_robin_with_unwrap, "consec_chunks": SP.make_splitter_consec_chunks}[d[1]]()
    if k == "p":
        return PZ.Parallelizer(build(["splitter", d[1]]), build(d[2]), build(d[3]), None if d[4] is None else PZ.AdditionalInfoSplitterToMapper[d[4]], d[5])
    raise AssertionError(k)


@st.composite
def large_command_vars(draw, one_stream=False):
    """a command with up to some hundred options and operands, described by a few numbers"""
    size = st.one_of(st.integers(0, 24), st.integers(0, 24), st.sampled_from([31, 32, 33, 64, 65, 100, 129, 257]))
    nf, no = draw(size), draw(size)
    roles = draw(st.lists(st.sampled_from(["sin", "sin", "sin", "sout", "cfg", "oin", "oout", "str", "flag"]), min_size=1, max_size=7))
    start, step = draw(st.sampled_from([0, 1, 90, 240, 1100])), draw(st.sampled_from([1, 1, 2, 7]))
    order = draw(st.integers(0, 2))
    numbers = [start + step * k for k in range(nf + no + 2)]
    if start + step * len(numbers) >= 1000 > start: numbers = [n + 4000 for n in numbers]
    if start == 1100: numbers = [n + 4000 for n in numbers]
    if order == 1: numbers.reverse()
    elif order == 2: numbers = numbers[::2] + numbers[1::2]
    amap, streams = {}, set()

    def var(role):
        if one_stream and role in ("sin", "sout"):
            role = "cfg" if role == "sin" else "oin"
        v = numbers[len(amap)]
        amap[str(v)] = role
        return ["var", v]
    fos, ops = [], []
    for k in range(nf):
        r = roles[k % len(roles)]
        fos.append(["flag", "-f%d" % k] if r == "flag" else ["optionvar", "-o%d" % k, ["str", "w%d" % k] if r == "str" else var(r)])
    for k in range(no):
        r = roles[(k * 3 + nf) % len(roles)]
        ops.append(["str", "x%d" % k] if r in ("str", "flag") else var(r))
    stdin = stdout = None
    if one_stream:
        places = [f[2] for f in fos if f[0] == "optionvar" and f[2][0] == "var"] + [o for o in ops if o[0] == "var"]
        taken = None
        if places and draw(st.booleans()):
            taken = draw(st.integers(0, len(places) - 1))
            amap[str(places[taken][1])] = "sin"
        else: stdin = var("sin")[1]; amap[str(stdin)] = "sin"
        if len(places) > 1 and draw(st.booleans()):
            other = draw(st.integers(0, len(places) - 1))
            if other == taken: other = (other + 1) % len(places)
            amap[str(places[other][1])] = "sout"
        else: stdout = var("sout")[1]; amap[str(stdout)] = "sout"
    else:
        if draw(st.booleans()): stdin = var("sin")[1]
        if draw(st.booleans()): stdout = var("sout")[1]
    return ["cmdvars", "cat", fos, ops, stdin, stdout, amap]


def builds(lst):
    return [build(x) for x in lst]


def amap(m):
    return {int(k): lib.ACCESS[r]() for k, r in m.items()}


# --------------------------------------------------------------------------------------------------- views of these values

def varg(a):
    if isinstance(a, bool) or not isinstance(a, int):
        return ["str", a.get_name()]
    return ["var", a]


def vfo(f):
    return ["flag", f.get_name()] if isinstance(f, lib.Flag) else ["optionvar", f.get_name(), varg(f.get_arg())]


def vcmd(c):
    """description of a command with variables"""
    return [c.cmd_name, [vfo(f) for f in c.flag_option_list], [varg(o) for o in c.operand_list], c.implicit_use_of_streaming_input,
            c.implicit_use_of_streaming_output, {str(k): lib.role(v) for k, v in c.access_map.items()}]


def t_model(d, fos):
    """what a transformer makes of a list of flags and options (descriptions)"""
    k = d[0]
    if k == "t_seq": return list(fos)
    if k == "t_add": return list(fos) + [f for f in d[1] if f not in fos]
    if k == "t_remove": return [f for f in fos if f[1] not in d[1]]
    if k == "t_filter": return [f for f in fos if f[1] in d[1]]
    if k == "t_empty": return []
    if k == "t_custom": return list(d[1])
    for t in d[1]:
        fos = t_model(t, fos)
    return fos
