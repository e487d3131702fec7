"""C19: parallelizers can only be built and used consistently."""
from hypothesis import strategies as st
from core import Sub, expect, same
import lib, objs, paraview
from checks.c12 import strip_vars
from checks.c13 import rejects, agg_spec, fits, kind_of

PROPERTY, LEVEL = "C19", "exploration"
RULE = ("build: any combination of parts given to one of the factories or the constructor, the parts of the result compared with the given ones, rejected "
        "combinations; derivation of mappers and aggregators with matching and other numbers of auxiliary streams. Non-trivial: every combination.")
ASSUMPTIONS = ["parts are built by the factories of the library"]
mapper_spec = objs.mapper_spec.map(lambda m: m if m[0] != "m_custom" else ["m_custom", m[1], strip_vars(m[2]), m[3]])
FACTORIES = {"indiv_files": lib.PZ.make_parallelizer_indiv_files, "round_robin": lib.PZ.make_parallelizer_round_robin, "consec_chunks": lib.PZ.make_parallelizer_consec_chunks}


def implemented(spec):
    if spec is None or spec[0] in ("m_seq", "a_conc"): return True
    if spec[0] in ("a_merge", "a_seq"): return False
    return spec[-1]


def check(case):
    split, m, a, info, aux, how, given = (case[k] for k in ("split", "mapper", "agg", "info", "aux", "how", "given"))
    M, A = m and objs.build(m), a and objs.build(a)
    I = None if info is None else lib.PZ.AdditionalInfoSplitterToMapper[info]
    what = "parallelizer %r" % ([split, m, a, info, aux, how],)

    def make():
        if how == "direct":
            return lib.PZ.Parallelizer(objs.build(["splitter", split]), M, A, I, aux)
        if how == "keywords":
            kw = dict(mapper_spec=M, aggregator_spec=A, info_splitter_mapper=I, info_mapper_aggregator=aux)
            return FACTORIES[split](**{k: v for k, v in kw.items() if v is not None and v != 0})
        if how == "positional":
            return FACTORIES[split](M, A, I, aux)
        return lib.PZ.make_parallelizer_round_robin_with_unwrap_from_other(lib.PZ.make_parallelizer_consec_chunks(M, A, I, aux))
    if split == "round_robin" and not objs.rr_allowed(a):
        rejects_value(make, what)
        return ["rejected"]
    p = make()
    expect(p.get_splitter() == objs.build(["splitter", split]), "splitter of %s is %r", what, p.get_splitter())
    paraview.splitter_view(p.get_splitter())
    wm, wa = objs.build(m or ["m_seq"]), objs.build(a or ["a_conc"])
    expect(p.get_mapper_spec() == wm, "mapper of %s is %r", what, p.get_mapper_spec())
    expect(p.get_aggregator_spec() == wa, "aggregator of %s is %r", what, p.get_aggregator_spec())
    same(lib.dump(p.get_mapper_spec()), lib.dump(wm), "mapper of " + what)
    same(lib.dump(p.get_aggregator_spec()), lib.dump(wa), "aggregator of " + what)
    paraview.agg_kind(p.get_aggregator_spec())
    same(p.info_splitter_mapper.name, info or "NO_ADD_INPUT", "information from splitter to mapper of " + what)
    same(p.get_info_mapper_aggregator(), aux, "number of auxiliary streams of " + what)
    expect(bool(p.are_all_parts_implemented()) == (implemented(m) and implemented(a)), "%s: are_all_parts_implemented is %r", what, p.are_all_parts_implemented())
    before = lib.dump(p)
    # mapper
    C = lib.CommandInvocationWithIOVars("mycmd", [lib.Flag("-a")], [1], None, 2, objs.amap({"1": "sin", "2": "sout"}))
    auxs = [100 + k for k in range(given)]
    if given != aux:
        rejects(lambda: p.get_actual_mapper(C, 10, 11, list(auxs)), "mapper of %s for %d auxiliary outputs" % (what, given))
        if given > aux > 0: rejects(lambda: p.get_actual_mapper(C, 10, 11, [auxs[k % aux] for k in range(given)]), "mapper of %s for %d auxiliary outputs, some of them twice" % (what, given))
    else:
        mapper = p.get_actual_mapper(C, 10, 11, list(auxs))
        expect((mapper is not None) == implemented(m), "%s: mapper is %r", what, mapper)
        if mapper is not None:
            same(sorted(map(str, mapper.access_map)), sorted(map(str, [10, 11] + auxs)), "variables of the mapper of " + what)
    # aggregators
    agg = a or ["a_conc"]
    adj_text = agg[0] == "a_text" and agg[1] == "ADJ_LINES_FUNC"
    n = 1 if kind_of(agg) == "ADJ_LINES_FUNC" else 2
    if not (adj_text and implemented(agg)):
        got = p.get_actual_aggregator(C, [20 + k for k in range(n)], 30)
        expect((got is not None) == implemented(agg), "%s: aggregator is %r", what, got)
    if agg[0] == "a_text":
        got = p.get_actual_2_ary_aggregator_with_aux(40, [41 + k for k in range(aux)], 50, [51 + k for k in range(aux)], 60, [61 + k for k in range(aux)])
        expect((got is not None) == implemented(agg), "%s: aggregator with auxiliary streams is %r", what, got)
    same(lib.dump(p), before, "parallelizer after deriving mapper and aggregator, " + what)
    # copies with another splitter share nothing
    q = lib.PZ.make_parallelizer_round_robin_with_unwrap_from_other(p)
    same(lib.dump(p), before, "parallelizer after making one with unwrapping from it, " + what)
    same(paraview.splitter_view(q.get_splitter()), "round_robin_unwrap", "splitter made with unwrapping from " + what)
    expect(q.get_mapper_spec() == wm and q.get_aggregator_spec() == wa and q.get_info_mapper_aggregator() == aux and q.info_splitter_mapper == p.info_splitter_mapper,
           "parts of the one with unwrapping of %s changed", what)
    q.get_mapper_spec().is_implemented = not q.get_mapper_spec().is_implemented
    q.get_aggregator_spec().is_implemented = not q.get_aggregator_spec().is_implemented
    same(lib.dump(p), before, "parallelizer after changing the one with unwrapping, " + what)
    return ["split:" + split, "how:" + how, "implemented" if implemented(m) and implemented(a) else "not implemented", "aux" if aux else "no aux"]


def rejects_value(f, what):
    rejects(lambda: (f(), None)[1], what)


def check_splitter(case):
    a, b = objs.build(["splitter", case[0]]), objs.build(["splitter", case[1]])
    expect((a == b) == (case[0] == case[1]), "equality of splitters %r", case)
    same(paraview.splitter_view(a), case[0], "splitter")
    return ["splitters"]


@st.composite
def cases(draw):
    maybe = objs.maybe
    split = draw(st.sampled_from(objs.SPLITS))
    how = "unwrap_from" if split == "round_robin_unwrap" and draw(st.booleans()) else "direct" if split == "round_robin_unwrap" else draw(st.sampled_from(["direct", "keywords", "positional"]))
    m, a = draw(maybe(mapper_spec)), draw(maybe(agg_spec))
    if how == "direct":
        m, a = m or ["m_seq"], a or ["a_conc"]
    aux = draw(st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 8, 9, 12, 33]))
    return dict(split=split, mapper=m, agg=a, info=draw(maybe(st.sampled_from(objs.INFOS))), aux=aux, how=how,
                given=aux if draw(st.booleans()) else draw(st.sampled_from([0, 1, 2, 3, 4, max(0, aux - 1), aux + 1])))


def subs():
    return [Sub("build", cases, check, 24000, 150000),
            Sub("splitter", st.tuples(st.sampled_from(objs.SPLITS), st.sampled_from(objs.SPLITS)).map(list), check_splitter, 200, 400,
                regress=[[a, b] for a in objs.SPLITS for b in objs.SPLITS])]
