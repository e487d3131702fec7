"""C12: mappers are the sequential command with exactly its streams replaced."""
import copy
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gen, lib, objs
from gnu import ANNOTATED_PARA, SPECS

PROPERTY, LEVEL = "C12", "exploration"
RULE = ("spec: any mapper specification and a command with one streaming input and one streaming output anywhere, the mapper compared with a model, the "
        "original with its copy, derived again, original after the mapper is modified. aux: the same with auxiliary outputs. large: commands with up to some hundred options and operands. real: mappers of the "
        "parallelizers of generated command lines, made into commands with variables. Non-trivial: the mapper is implemented.")
ASSUMPTIONS = ["every variable occurs once, new variables are fresh, the command has one streaming input and one streaming output",
               "flags and options added by a transformer have string arguments, and no transformer drops the stream to be replaced"]


def strip_vars(t):
    """transformers whose own options have string arguments"""
    if t is None: return None
    if t[0] in ("t_add", "t_custom"):
        return [t[0], objs.no_dup([f if f[0] == "flag" or f[2][0] == "str" else [f[0], f[1], ["str", str(f[2][1])]] for f in t[1]])]
    if t[0] == "t_chain":
        return [t[0], [strip_vars(x) for x in t[1]]]
    return t


mapper_spec = objs.mapper_spec.map(lambda m: m if m[0] != "m_custom" else ["m_custom", m[1], strip_vars(m[2]), m[3]])


def model_spec(m, cmd, fos):
    """command name, flags and options, implemented"""
    if m[0] == "m_seq": return cmd, fos, True
    if m[0] == "m_custom": return m[1] or cmd, objs.t_model(m[2], fos) if m[2] else fos, m[3]
    words = m[1].split()
    return words[0], [["flag", w] for w in words[1:]], m[2]


def vars_of(fos, ops, stdin, stdout):
    return [f[2][1] for f in fos if f[0] == "optionvar" and f[2][0] == "var"] + [o[1] for o in ops if o[0] == "var"] + [v for v in (stdin, stdout) if v is not None]


def expected(spec, cmd, i, o, aux):
    _, name, fos, ops, stdin, stdout, amap = cmd
    name, fos2, implemented = model_spec(spec, name, fos)
    sin, = [int(v) for v, r in amap.items() if r == "sin"]
    sout, = [int(v) for v, r in amap.items() if r == "sout"]
    sub = lambda v: i if v == sin else o if v == sout else v
    before = vars_of(fos, ops, stdin, stdout)
    if aux:
        ops, stdin, stdout = [["var", v] for v in [i, o] + aux], None, None
    else:
        fos2 = [f if f[0] == "flag" or f[2][0] == "str" else [f[0], f[1], ["var", sub(f[2][1])]] for f in fos2]
        ops = [x if x[0] == "str" else ["var", sub(x[1])] for x in ops]
        stdin, stdout = sub(stdin), sub(stdout)
    after = vars_of(fos2, ops, stdin, stdout)
    roles = {v: amap.get(str(v)) for v in after}
    roles[i] = "sin"; roles[o] = "sout"
    roles.update({a: "sout" for a in aux})
    all_kept = all(f in objs.t_model(["t_seq"], model_spec(spec, name, fos)[1]) for f in fos if f[0] == "optionvar" and f[2][0] == "var")
    in_domain = i in after and o in after and None not in roles.values() and len(after) == len(set(after))
    return implemented, [name, fos2, ops, stdin, stdout], {str(k): r for k, r in roles.items()}, all_kept, in_domain


def check(case, via):
    spec, cmd, aux = case["spec"], case["cmd"], case["aux"]
    i, o = 1000, 1001
    implemented, want, roles, exact, in_domain = expected(spec, cmd, i, o, aux)
    if implemented and not in_domain:
        return None
    S, C = objs.build(spec), objs.build(cmd)
    before, sbefore = lib.dump(C), lib.dump(S)
    what = "%r of %r" % (spec, cmd)

    def derive(i, o, aux):
        if via:
            p = lib.PZ.make_parallelizer_consec_chunks(mapper_spec=S, info_mapper_aggregator=len(aux))
            return p.get_actual_mapper(C, i, o, list(aux))
        return S.get_mapper(C, i, o, list(aux))
    m = derive(i, o, aux)
    same(lib.dump(C), before, "original command after deriving " + what)
    if not implemented:
        expect(m is None, "mapper which is not implemented: %s", what)
        return None

    def compare(m, want, roles, what):
        expect(isinstance(m, lib.MAP.Mapper), "mapper %s is a %s", what, type(m).__name__)
        v = objs.vcmd(m)
        same(v[:5], want, "mapper " + what)
        if exact: same(v[5], roles, "access information of the mapper " + what)
        else: same({k: v[5].get(k) for k in roles}, roles, "access information of the variables of the mapper " + what)
    compare(m, want, roles, what)
    expect(not m.is_aggregator_concatenate(), "mapper is a concatenating aggregator")
    m2 = derive(i, o, aux)
    compare(m2, want, roles, "the second time, " + what)
    expect(m == m2, "two derivations differ: %s", what)
    same(lib.dump(S), sbefore, "specification after deriving " + what)
    # using the mapper does not change the original or the other mapper
    m.substitute_inputs_in_cmd_invocation([2000]) if len([r for r in roles.values() if r == "sin"]) == 1 else None
    m.remove_streaming_outputs()
    m.flag_option_list.append(lib.Flag("--more")); m.operand_list.append(lib.ArgStringType("more"))
    same(lib.dump(C), before, "original command after using the mapper " + what)
    compare(m2, want, roles, "after using another mapper, " + what)
    return ["spec:" + spec[0], "aux:%d" % len(aux)] + (["replaced flags"] if want[1] != cmd[2] else [])


@st.composite
def with_spec(draw, aux, large=False):
    spec = draw(mapper_spec)
    cmd = draw(objs.large_command_vars(one_stream=True) if large else objs.command_vars(one_stream=True, operands_all_vars=aux))
    k = draw(st.sampled_from([1, 2, 2, 3, 4, 7, 12, 17, 33, 130])) if aux else 0
    return dict(spec=spec, cmd=cmd, aux=[1002 + j for j in range(k)], via=draw(st.booleans()))


def to_vars(with_io):
    """the command with variables PaSh would build: a fresh variable for every file and descriptor"""
    n, amap = [0], {}

    def conv(a):
        v = lib.arg_view(a)
        if v[0] == "str": return ["str", v[1]]
        n[0] += 1
        amap[str(n[0])] = v[0]
        return ["var", n[0]]
    fos = [["flag", f.get_name()] if isinstance(f, lib.Flag) else ["optionvar", f.get_name(), conv(f.get_arg())] for f in with_io.flag_option_list]
    ops = [conv(o) for o in with_io.operand_list]
    imp = [None if x is None else conv(x)[1] for x in (with_io.implicit_use_of_streaming_input, with_io.implicit_use_of_streaming_output)]
    return ["cmdvars", with_io.cmd_name, fos, ops, imp[0], imp[1], amap]


def check_real(case):
    text = gen.render(gen.words_of(case), [0])
    inv = lib.parse(text)
    info, para = lib.io_info(inv), lib.para_info(inv)
    if info is None or para is None or info.has_other_outputs():
        return None
    cmd = to_vars(info.apply_input_output_info_to_command_invocation(inv))
    if sorted(r for r in cmd[6].values() if r in ("sin", "sout")) != ["sin", "sout"]:
        return None
    labels = set()
    for p in para.get_inferred_parallelizer_list():
        m = p.get_mapper_spec()
        aux = [1002 + j for j in range(p.get_info_mapper_aggregator())]
        C = objs.build(cmd)
        before = lib.dump(C)
        got = p.get_actual_mapper(C, 1000, 1001, list(aux))
        same(lib.dump(C), before, "command %r after deriving a mapper" % text)
        if got is None:
            expect(not m.is_implemented, "no mapper for %r", text)
            continue
        name = {"bigrams_aux": "bigram_aux_map"}.get(case["cmd"], case["cmd"])
        fos = [] if case["cmd"] in ("bigrams_aux", "alt_bigrams_aux") else cmd[2]
        implemented, want, roles, exact, in_domain = expected(["m_seq"], ["cmdvars", name, fos] + cmd[3:], 1000, 1001, aux)
        v = objs.vcmd(got)
        same(v[:5], want, "mapper of %r" % text)
        same(v[5], roles, "access information of the mapper of %r" % text)
        labels |= {"cmd:" + case["cmd"]}
    return sorted(labels) if labels else None


def subs():
    return [Sub("spec", lambda: with_spec(False), lambda c: check(c, c["via"]), 16000, 120000), Sub("aux", lambda: with_spec(True), lambda c: check(c, c["via"]), 6000, 40000),
            Sub("large", lambda: with_spec(False, True), lambda c: check(c, c["via"]), 2500, 25000),
            Sub("real", lambda: gen.invocation(sorted(ANNOTATED_PARA), max_items=3, max_operands=2), check_real, 8000, 60000)]
