"""C11: parallelizers inferred from commutativity are complete, correct and repeatable."""
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gen, lib, objs, paraview
from gnu import ANNOTATED_PARA

PROPERTY, LEVEL = "C11", "exploration"
RULE = ("history: an annotation built from any parallelizers, then a sequence of operations (infer, unpack, append, set commutative), after each "
        "of which the annotated list and both inferred lists are compared with a model. annotated: the annotations of generated command lines. "
        "Non-trivial: at least one consecutive-chunks parallelizer and an inference.")
ASSUMPTIONS = []


def model(descs, commutative):
    """indices of the annotated ones, then of those to be copied"""
    return [("same", i) for i in range(len(descs))] + [("copy", i) for i, d in enumerate(descs) if commutative and d[1] == "consec_chunks"]


def check_list(got, info_list, descs, commutative, what):
    want = model(descs, commutative)
    same(len(got), len(want), "length of the inferred list %s" % what)
    for g, (how, i) in zip(got, want):
        if how == "same":
            same(lib.dump(g), lib.dump(objs.build(descs[i])), "annotated parallelizer %d in the inferred list %s" % (i, what))
        else:
            same(lib.dump(g), lib.dump(objs.build(descs[i][:1] + ["round_robin_unwrap"] + descs[i][2:])), "inferred copy of parallelizer %d %s" % (i, what))
            expect(all(g is not o for o in info_list), "the inferred copy is the annotated parallelizer itself %s", what)
    same([lib.dump(p) for p in info_list], [lib.dump(objs.build(d)) for d in descs], "annotated parallelizers after inferring %s" % what)


def check_history(case):
    descs, comm = list(case["ps"]), case["commutative"]
    info = lib.ParallelizabilityInfo(objs.builds(descs) if descs or case["list"] else None, case["rr"], comm)
    inferred = 0
    for n, op in enumerate(case["ops"]):
        what = "after %r (operation %d)" % (op[0], n)
        if op[0] == "infer":
            got = info.get_inferred_parallelizer_list()
        elif op[0] == "unpack":
            got, rr, c = info.unpack_info()
            same((bool(rr), bool(c)), (case["rr"], comm), "properties " + what)
        elif op[0] == "append":
            info.append_to_parallelizer_list(objs.build(op[1])); descs.append(op[1]); got = None
        elif op[0] == "damage":     # a caller changes the list he got
            got = info.get_inferred_parallelizer_list()
            del got[:]
            got = None
        else:
            info.set_commutative(); comm = True; got = None
        if got is not None:
            inferred += 1
            check_list(got, info.parallelizer_list, descs, comm, what)
        same([lib.dump(p) for p in info.parallelizer_list], [lib.dump(objs.build(d)) for d in descs], "annotated parallelizers " + what)
        same((bool(info.is_commutative), bool(info.round_robin_compatible_with_cat)), (comm, case["rr"]), "properties " + what)
    if not inferred or not any(d[1] == "consec_chunks" for d in descs):
        return None
    return ["commutative" if comm else "not commutative", "inferences:%d" % min(3, inferred)]


@st.composite
def history(draw):
    op = st.one_of(st.just(["infer"]), st.just(["infer"]), st.just(["unpack"]), st.just(["commutative"]), objs.parallelizer.map(lambda p: ["append", p]), st.just(["damage"]))
    return dict(ps=draw(st.lists(objs.parallelizer, max_size=4)), list=draw(st.booleans()), rr=draw(st.booleans()), commutative=draw(st.booleans()), ops=draw(st.lists(op, min_size=1, max_size=6)))


def enumerated():
    out = []
    for n in (5, 8, 9, 16, 17, 33, 100):
        ps = [["p", objs.SPLITS[(i * 3 + n) % 4], ["m_seq"], ["a_conc"], None, 0] for i in range(n)] + [["p", "consec_chunks", ["m_seq"], ["a_seq"], None, n]]
        for comm in (False, True):
            out.append(dict(ps=ps, list=True, rr=False, commutative=comm, ops=[["infer"], ["unpack"], ["append", ps[-1]], ["infer"], ["commutative"], ["infer"], ["infer"]]))
            out.append(dict(ps=[], list=comm, rr=True, commutative=comm, ops=[["append", p] for p in ps] + [["infer"], ["unpack"]]))
            out.append(dict(ps=ps, list=True, rr=True, commutative=comm, ops=[["infer"]] * n + [["commutative"], ["unpack"]]))
    # the same parallelizer several times, and differences in one part
    p = ["p", "consec_chunks", ["m_seq"], ["a_conc"], None, 0]
    for q in (p, ["p", "consec_chunks", ["m_seq"], ["a_merge"], None, 0], ["p", "consec_chunks", ["m_seq"], ["a_conc"], "BYTE_OFFSET", 0], ["p", "consec_chunks", ["m_seq"], ["a_conc"], None, 1],
              ["p", "round_robin_unwrap", ["m_seq"], ["a_conc"], None, 0], ["p", "round_robin", ["m_seq"], ["a_conc"], None, 0], ["p", "indiv_files", ["m_seq"], ["a_conc"], None, 0], ["p", "consec_chunks", ["m_custom", "x", None, False], ["a_conc"], None, 0],
              ["p", "consec_chunks", ["m_seq"], ["a_trans", "CUSTOM_2_ARY", None, False], None, 2]):
        for ps in ([p, q], [q, p], [p, q, p], [q, q]):
            for rr in (False, True):
                out.append(dict(ps=ps, list=True, rr=rr, commutative=rr != (len(ps) == 3), ops=[["infer"], ["commutative"], ["infer"], ["unpack"]]))
                out.append(dict(ps=ps, list=True, rr=rr, commutative=False, ops=[["unpack"], ["infer"]]))
    return out


def check_annotated(case):
    text = gen.render(gen.words_of(case), [0])
    inv = lib.parse(text)
    para = lib.para_info(inv)
    if para is None:
        return None
    before = lib.dump(para)
    base = list(para.parallelizer_list)
    first = para.get_inferred_parallelizer_list()
    same(lib.dump(para), before, "annotation of %r after inferring" % text)
    views = [paraview.parallelizer_view(p, inv.flag_option_list) for p in base]
    want = views + [("round_robin_unwrap",) + v[1:] for v in views if para.is_commutative and v[0] == "consec_chunks"]
    same([paraview.parallelizer_view(p, inv.flag_option_list) for p in first], want, "inferred parallelizers of %r" % text)
    second, rr, comm = para.unpack_info()
    same(lib.dump(second), lib.dump(first), "inferred parallelizers of %r the second time" % text)
    same((rr, comm), (para.round_robin_compatible_with_cat, para.is_commutative), "properties of %r" % text)
    same(lib.dump(para), before, "annotation of %r after inferring twice" % text)
    return ["cmd:" + case["cmd"], "inferred" if len(want) > len(views) else "none inferred"] if views else None


def subs():
    return [Sub("history", history, check_history, 10000, 80000, regress=enumerated), Sub("annotated", lambda: gen.invocation(sorted(ANNOTATED_PARA)), check_annotated, 8000, 60000)]
