"""Views of parallelizers through their public names."""
import lib
from core import expect

SPLITTERS = [("consec_chunks", lib.SP.make_splitter_consec_chunks), ("round_robin", lib.SP.make_splitter_round_robin),
             ("round_robin_unwrap", lib.SP.make_splitter_round_robin_with_unwrap), ("indiv_files", lib.SP.make_splitter_indiv_files)]
AGG_PREDS = ["concatenate", "adj_lines_merge", "adj_lines_seq", "adj_lines_func", "custom_2_ary", "custom_n_ary"]


def splitter_view(s):
    got = [n for n, make in SPLITTERS if s == make()]
    expect(len(got) == 1, "splitter %r equals %r", s, got)
    for n, pred in (("consec_chunks", "is_splitter_consec_chunks"), ("round_robin", "is_splitter_round_robin"),
                    ("round_robin_unwrap", "is_splitter_round_robin_with_unwrap_flag")):
        expect(bool(getattr(s, pred)()) == (got[0] == n), "%s of splitter %s is wrong", pred, got[0])
    return got[0]


def agg_kind(a):
    got = [n for n in AGG_PREDS if getattr(a, "is_aggregator_spec_" + n)()]
    expect(len(got) == 1, "aggregator has the kinds %r", got)
    expect(a.get_kind().name.lower() == got[0], "kind of aggregator %s is %r", got[0], a.get_kind())
    return got[0]


def agg_view(a, fos=()):
    """kind, then the text or what becomes of the given flags and options"""
    kind = agg_kind(a)
    if hasattr(a, "cmd_inv_as_str"):
        return (kind, a.cmd_inv_as_str)
    if hasattr(a, "flag_option_list_transformer"):
        out = a.flag_option_list_transformer.get_flag_option_list_after_transformer_application(list(fos))
        return (kind, [lib.flagoption(f) for f in out])
    return (kind,)


def mapper_view(m, fos=()):
    kind = m.kind.value
    if kind == "same_as_seq":
        expect(m.spec_mapper_cmd_name is None, "sequential mapper with a command name")
        out = m.flag_option_list_transformer.get_flag_option_list_after_transformer_application(list(fos))
        expect([lib.flagoption(f) for f in out] == [lib.flagoption(f) for f in fos], "sequential mapper changes flags")
        return ("seq",)
    return ("custom", m.spec_mapper_cmd_name)


def parallelizer_view(p, fos=()):
    impl = bool(p.are_all_parts_implemented())
    m, a = p.get_mapper_spec(), p.get_aggregator_spec()
    expect(impl == (bool(m.is_implemented) and bool(a.is_implemented)), "are_all_parts_implemented is %r", impl)
    return (splitter_view(p.get_splitter()), mapper_view(m, fos), agg_view(a, fos), impl, p.info_splitter_mapper.value, p.get_info_mapper_aggregator())
