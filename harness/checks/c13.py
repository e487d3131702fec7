"""C13: aggregators combine exactly the given inputs into exactly the given output."""
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gen, lib, objs, ref
from gnu import ANNOTATED_PARA, SPECS
from checks.c12 import strip_vars, to_vars

PROPERTY, LEVEL = "C13", "exploration"
RULE = ("spec: any aggregator specification, a command with variables and 0 to 9 inputs, the aggregator compared with a model, the original with its copy, "
        "derived again, originals after the aggregator is modified. large: the same for commands with up to some hundred options and operands. aux: the same with auxiliary streams. real: aggregators of the parallelizers of "
        "generated command lines. Non-trivial: an aggregator is derived, or a wrong number of inputs rejected.")
ASSUMPTIONS = ["every variable occurs once and the given inputs and outputs are fresh", "flags and options added by a transformer have string arguments",
               "an aggregator given as text consists of a name and flags; aggregators for adjacent lines given as text are announced as not supported yet "
               "(they always raise an exception) and excluded", "access information of variables which a transformer drops is not looked at"]
TEXTS = {"myagg": ["myagg"], "cat -n -b": ["cat", "-n", "-b"], "cat -bn": ["cat", "-b", "-n"], "sort -r -m": ["sort", "-r", "-m"],
         "runtime/agg.sh": ["runtime/agg.sh"], "MyAgg": ["MyAgg"], "cat -A -T": ["cat", "-A", "-T"], "Runtime/agg.SH": ["Runtime/agg.SH"], "sort --reverse": ["sort", "-r"], "'my agg'": ["my agg"], "cat -v -v": ["cat", "-v", "-v"], "cat -nbn -b": ["cat", "-n", "-b", "-n", "-b"]}
agg_spec = objs.agg_spec.map(lambda a: a if a[0] != "a_trans" else ["a_trans", a[1], a[2] and strip_vars(a[2]), a[3]])
more_text = st.tuples(st.sampled_from(objs.KINDS), st.sampled_from(sorted(TEXTS)), st.booleans()).map(lambda t: ["a_text"] + list(t))
agg_spec = st.one_of(agg_spec, more_text)


def kind_of(spec):
    return {"a_conc": "CONCATENATE", "a_merge": "ADJ_LINES_MERGE", "a_seq": "ADJ_LINES_SEQ"}.get(spec[0]) or spec[1]


def is_stream(f, amap):
    return f[0] == "optionvar" and f[2][0] == "var" and amap[str(f[2][1])] in ("sin", "sout")


def model(spec, cmd, ins, out):
    """(implemented, view without access map, access map or None, complete: nothing dropped)"""
    _, name, fos, ops, stdin, stdout, amap = cmd
    roles = {str(i): "sin" for i in ins}
    roles[str(out)] = "sout"
    if spec[0] == "a_conc":
        return True, ["cat", []], roles, True
    if spec[0] in ("a_merge", "a_seq"):
        return False, None, None, True
    if spec[0] == "a_text":
        w = TEXTS[spec[2]]
        return spec[3], [w[0], [["flag", f] for f in w[1:]]], roles, True
    kept = [f for f in fos if not is_stream(f, amap)]
    fos2 = objs.t_model(spec[2], kept) if spec[2] else kept
    for f in fos2:
        if f[0] == "optionvar" and f[2][0] == "var":
            roles[str(f[2][1])] = amap[str(f[2][1])]
    complete = all(f in fos2 for f in kept) and not any(o[0] == "var" and amap[str(o[1])] not in ("sin", "sout") for o in ops)
    return spec[3], [name, fos2], roles, complete


def fits(spec, n):
    k = kind_of(spec)
    return n == 1 if k == "ADJ_LINES_FUNC" else n == 2 if k == "CUSTOM_2_ARY" else True


def compare(a, spec, want, roles, complete, what):
    expect(isinstance(a, lib.AGG.Aggregator), "aggregator %s is a %s", what, type(a).__name__)
    v = objs.vcmd(a)
    same(v[:5], want, "aggregator " + what)
    if complete: same(v[5], roles, "access information of the aggregator " + what)
    else:
        same({k: v[5].get(k) for k in roles}, roles, "access information of the variables of the aggregator " + what)
        streams = {k for k, r in v[5].items() if r in ("sin", "sout")}
        same(streams, {k for k, r in roles.items() if r in ("sin", "sout")}, "streams in the access information of the aggregator " + what)
    same(a.kind.name, kind_of(spec), "kind of the aggregator " + what)
    expect(bool(a.is_aggregator_concatenate()) == (kind_of(spec) == "CONCATENATE"), "is_aggregator_concatenate of %s is wrong", what)


def rejects(f, what):
    try:
        got = f()
    except RecursionError:
        raise
    except Exception:
        return True
    raise Violation("%s: not rejected, but %r" % (what, got if got is None else objs.vcmd(got)))


def check(case):
    spec, cmd, n, via = case["spec"], case["cmd"], case["n"], case["via"]
    m = 10 if n <= 10 else 1009
    ins, out = [1000 + (7 * k) % m for k in range(n)], 2500
    taken = [int(v) for v in cmd[6]]
    if case["low"] and 0 not in taken and 1 not in taken:      # low numbers are variables as well
        if case["low"] == 1: out = 0
        elif n: ins, out = ins[:-1] + [0], 1
    implemented, head, roles, complete = model(spec, cmd, ins, out)
    S, C = objs.build(spec), objs.build(cmd)
    before, sbefore = lib.dump(C), lib.dump(S)
    what = "%r of %r for %d inputs" % (spec, cmd, n)
    P = lib.PZ.make_parallelizer_consec_chunks(aggregator_spec=S) if via else None

    def derive():
        given = list(ins)
        a = P.get_actual_aggregator(C, given, out) if via else S.get_aggregator(C, given, out)
        same(given, ins, "list of inputs given for " + what)
        return a
    if not implemented:
        expect(derive() is None, "aggregator which is not implemented: %s", what)
        return None
    if spec[0] == "a_text" and spec[1] == "ADJ_LINES_FUNC":
        return None
    if not fits(spec, n):
        rejects(derive, "wrong number of inputs for " + what)
        same(lib.dump(C), before, "original command after rejecting " + what)
        return ["rejected"]
    want = head + [[["var", i] for i in ins], None, out]
    a = derive()
    compare(a, spec, want, roles, complete, what)
    same(lib.dump(C), before, "original command after deriving " + what)
    a2 = derive()
    compare(a2, spec, want, roles, complete, "the second time, " + what)
    expect(a == a2, "two derivations differ: %s", what)
    same(lib.dump(S), sbefore, "specification after deriving " + what)
    # using one aggregator changes neither the original nor another one
    given = list(ins)
    a3 = S.get_aggregator(C, given, out)
    if n: a3.replace_var(ins[0], 3000)
    a3.remove_streaming_outputs()
    a3.flag_option_list.append(lib.Flag("--more")); a3.operand_list.append(lib.ArgStringType("more"))
    same(lib.dump(C), before, "original command after using the aggregator " + what)
    compare(a2, spec, want, roles, complete, "after using another aggregator, " + what)
    same(lib.dump(S), sbefore, "specification after using the aggregator " + what)
    return ["spec:" + spec[0], "kind:" + kind_of(spec), "inputs:%d" % min(n, 4)] + ([] if head[1] == cmd[2] else ["other flags"])


def check_aux(case):
    spec, sizes, via = case["spec"], case["sizes"], case["via"]
    n1, n2, n3 = sizes
    fst, snd, out = (1000, 1020, 1040) if not case["low"] else (1000, 1020, 0) if case["low"] == 1 else (0, 20, 40)
    a1, a2, a3 = ([b + 1 + (3 * k) % 17 for k in range(n)] for b, n in ((fst, n1), (snd, n2), (out, n3)))
    S = objs.build(spec)
    sbefore = lib.dump(S)
    what = "%r with %r auxiliary streams" % (spec, sizes)
    P = lib.PZ.make_parallelizer_consec_chunks(aggregator_spec=S, info_mapper_aggregator=n1) if via else S

    def derive():
        given = [list(a1), list(a2), list(a3)]
        r = P.get_actual_2_ary_aggregator_with_aux(fst, given[0], snd, given[1], out, given[2])
        same(given, [a1, a2, a3], "lists of auxiliary streams given for " + what)
        return r
    if spec[0] != "a_text":
        rejects(derive, "auxiliary streams for %s" % what)
        return ["not as text"]
    if not spec[3]:
        expect(derive() is None, "aggregator which is not implemented: %s", what)
        return None
    if not n1 == n2 == n3:
        rejects(derive, "different numbers of auxiliary streams, " + what)
        return ["rejected"]
    w = TEXTS[spec[2]]
    ins = [fst] + a1 + [snd] + a2
    outs = [out] + a3
    want = [w[0], [["flag", f] for f in w[1:]], [["var", v] for v in ins + outs], None, None]
    roles = {str(v): "sin" for v in ins} | {str(v): "sout" for v in outs}
    a = derive()
    compare(a, spec, want, roles, True, what)
    b = derive()
    expect(a == b, "two derivations differ: %s", what)
    a.operand_list.pop(); a.access_map.clear(); a.flag_option_list.append(lib.Flag("-x"))
    compare(b, spec, want, roles, True, "after changing another aggregator, " + what)
    compare(derive(), spec, want, roles, True, "derived after changing another aggregator, " + what)
    same(lib.dump(S), sbefore, "specification after deriving " + what)
    return ["aux:%d" % n1, "kind:" + spec[1]]


def check_real(case):
    text = gen.render(gen.words_of(case), [0])
    inv = lib.parse(text)
    info, para = lib.io_info(inv), lib.para_info(inv)
    if info is None or para is None or info.has_other_outputs():
        return None
    cmd = to_vars(info.apply_input_output_info_to_command_invocation(inv))
    want_para = ref.para_ref(case["cmd"], [lib.flagoption(f) for f in inv.flag_option_list], [o.get_name() for o in inv.operand_list])
    labels = set()
    C = objs.build(cmd)
    before = lib.dump(C)
    n = case["n"]
    ins, out = [1000 + k for k in range(n)], 1100
    for p in para.get_inferred_parallelizer_list():
        a = p.get_aggregator_spec()
        kind = a.get_kind().name
        what = "aggregator %s of %r" % (kind, text)
        if p.get_info_mapper_aggregator():
            k = p.get_info_mapper_aggregator()
            got = p.get_actual_2_ary_aggregator_with_aux(10, [11 + j for j in range(k)], 20, [21 + j for j in range(k)], 30, [31 + j for j in range(k)])
            if a.is_implemented:
                aux = list(range(k))
                same(objs.vcmd(got)[:5], ["bigram_aux_reduce", [], [["var", v] for b in (10, 20, 30) for v in [b] + [b + 1 + j for j in aux]], None, None], what)
                labels.add("cmd:" + case["cmd"])
            else: expect(got is None, "%s is not implemented but derived", what)
            continue
        m = 2 if kind == "CUSTOM_2_ARY" else 1 if kind == "ADJ_LINES_FUNC" else n
        got = p.get_actual_aggregator(C, ins[:m] if m <= n else [1000, 1001][:m], out)
        same(lib.dump(C), before, "command %r after deriving an aggregator" % text)
        if got is None:
            expect(not a.is_implemented, "no %s", what)
            continue
        expect(a.is_implemented, "%s is not implemented but derived", what)
        operands = [["var", 1000 + k] for k in range(m)]
        if kind == "CONCATENATE": head = ["cat", []]
        elif case["cmd"] == "alt_bigrams_aux": head = ["alt_bigram_aux_reduce", []]
        else:
            assert want_para not in (None, ref.UNDECIDED)
            flags = [x for x in want_para["parallelizers"] if x[2][0] == "custom_2_ary"][0][2][1]
            head = [case["cmd"], [["flag", f[0]] if len(f) == 1 else ["optionvar", f[0], ["str", f[1]]] for f in flags]]
        v = objs.vcmd(got)
        same(v[:5], head + [operands, None, out], what)
        same({k: r for k, r in v[5].items() if r in ("sin", "sout")}, {str(o[1]): "sin" for o in operands} | {str(out): "sout"}, "streams of the " + what)
        labels |= {"cmd:" + case["cmd"], "kind:" + kind}
    return sorted(labels) if labels else None


def regress_real():
    return [dict(c, n=3) for c in gen.pairwise(["sort", "custom_sort", "cut", "bigrams_aux", "alt_bigrams_aux"], lambda cmd: [[], ["in.txt"]])]


def cases(gives):
    return st.tuples(agg_spec, st.booleans().flatmap(lambda o: gives(o)), st.sampled_from(list(range(11)) * 3 + [11, 17, 40, 130, 300]), st.booleans(), st.integers(0, 2)).map(
        lambda t: dict(low=t[4], spec=t[0], cmd=t[1], n=t[2] if fits(t[0], t[2]) or t[2] > 4 else 2 if kind_of(t[0]) == "CUSTOM_2_ARY" else 1, via=t[3]))


def subs():
    case, large = cases(lambda o: objs.command_vars(one_stream=o)), cases(lambda o: objs.large_command_vars(one_stream=o))
    aux = st.tuples(st.one_of(more_text, more_text, more_text, agg_spec), st.one_of(st.sampled_from([0, 1, 2, 3, 4, 5, 9, 13, 17]).map(lambda n: [n] * 3), st.lists(st.integers(0, 3), min_size=3, max_size=3)),
                    st.booleans(), st.integers(0, 2)).map(lambda t: dict(spec=t[0], sizes=t[1], via=t[2], low=t[3]))
    real = st.tuples(gen.invocation(sorted(ANNOTATED_PARA), max_items=3, max_operands=2), st.integers(2, 9)).map(lambda t: dict(t[0], n=t[1]))
    return [Sub("spec", case, check, 20000, 150000), Sub("aux", aux, check_aux, 6000, 40000), Sub("large", large, check, 2500, 25000), Sub("real", real, check_real, 8000, 60000, regress=regress_real)]
