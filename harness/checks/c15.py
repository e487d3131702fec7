"""C15: transformers of flag lists follow their laws."""
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import lib, objs

PROPERTY, LEVEL = "C15", "exploration"
RULE = ("model: any transformer (chains of chains included) applied to any list of flags and options with plain or variable arguments, compared with "
        "a model on descriptions, argument and transformer unchanged, applied again. laws: chain of two parts equals applying one after the other, "
        "filter and remove partition, adding twice equals adding once. Non-trivial: non-empty list and not the identity.")
ASSUMPTIONS = ["lists to add have no duplicates of their own"]


def apply(t, fos):
    return t.get_flag_option_list_after_transformer_application(fos)


def v(fos):
    expect(isinstance(fos, list), "result is a %s", type(fos).__name__)
    return [objs.vfo(f) for f in fos]


def check_model(case):
    t, fos = objs.build(case["t"]), objs.builds(case["fos"])
    tdump, items = lib.dump(t), list(fos)
    want = objs.t_model(case["t"], case["fos"])
    first = v(apply(t, fos))
    same(first, want, "result of %r for %r" % (case["t"], case["fos"]))
    expect(len(fos) == len(items) and all(a is b for a, b in zip(fos, items)), "%r changes the list it is given", case["t"])
    same(v(fos), case["fos"], "list given to %r" % (case["t"],))
    same(lib.dump(t), tdump, "transformer %r after being applied" % (case["t"],))
    same(v(apply(t, fos)), want, "result of the second application of %r for %r" % (case["t"], case["fos"]))
    same(v(apply(t, objs.builds(case["fos2"]))), objs.t_model(case["t"], case["fos2"]), "result of %r for another list %r" % (case["t"], case["fos2"]))
    return ["t:" + case["t"][0], "changed" if want != case["fos"] else "unchanged"] if case["fos"] and case["t"] != ["t_seq"] else None


def check_laws(case):
    a, b, fos = case["a"], case["b"], case["fos"]
    A, B = objs.build(a), objs.build(b)
    chain = lib.TR.ChainTransformerFlagOptionList([objs.build(a), objs.build(b)])
    same(v(apply(chain, objs.builds(fos))), v(apply(B, apply(A, objs.builds(fos)))), "chain of %r and %r" % (a, b))
    nested = lib.TR.ChainTransformerFlagOptionList([lib.TR.ChainTransformerFlagOptionList([objs.build(a)]), objs.build(b), lib.TR.ChainTransformerFlagOptionList([])])
    same(v(apply(nested, objs.builds(fos))), v(apply(chain, objs.builds(fos))), "nested chain of %r and %r" % (a, b))
    same(v(apply(lib.TR.ChainTransformerFlagOptionList([]), objs.builds(fos))), fos, "empty chain")
    names = case["names"]
    keep, drop = v(apply(lib.TR.make_transformer_filter(list(names)), objs.builds(fos))), v(apply(lib.TR.make_transformer_remove(list(names)), objs.builds(fos)))
    same(sorted(map(repr, keep + drop)), sorted(map(repr, fos)), "filter and remove with %r" % (names,))
    expect(all(f[1] in names for f in keep) and not any(f[1] in names for f in drop), "filter or remove with %r picks the wrong ones of %r", names, fos)
    add = lib.TR.make_transformer_add(objs.builds(case["add"]))
    once = apply(add, objs.builds(fos))
    same(v(apply(add, once)), v(once), "adding %r twice" % (case["add"],))
    expect(v(once)[:len(fos)] == fos, "adding changes what was there")
    expect(all(f in v(once) for f in case["add"]), "not everything was added")
    same(v(apply(lib.TR.return_transformer_flagoption_list_same_as_seq_if_none_else_itself(None), objs.builds(fos))), fos, "default transformer (sequential)")
    same(v(apply(lib.TR.return_transformer_flagoption_list_empty_if_none_else_itself(None), objs.builds(fos))), [], "default transformer (empty)")
    expect(lib.TR.return_transformer_flagoption_list_same_as_seq_if_none_else_itself(A) is A and
           lib.TR.return_transformer_flagoption_list_empty_if_none_else_itself(A) is A, "a given transformer is replaced by the default")
    return ["laws"] if fos else None


def enumerated():
    """long lists and long chains"""
    names, out = objs.MORE_NAMES, []
    for n in (7, 8, 9, 16, 17, 20, 21, 32, 33, 64, 65, 100, 257):
        fos = [["flag", names[(5 * i) % len(names)]] if i % 3 else ["optionvar", names[(5 * i) % len(names)], ["var", i] if i % 2 else ["str", "x%d" % i]] for i in range(n)]
        last, first = fos[-1][1], fos[0][1]
        add = [["flag", "--n%d" % i] for i in range(n)] + [fos[-1], fos[0]]
        ts = [["t_add", add], ["t_add", objs.no_dup(fos)[-3:]], ["t_remove", [last]], ["t_filter", [last]], ["t_remove", names[:n]], ["t_filter", names[:n]], ["t_custom", fos], ["t_remove", ["--q"] * n + [last, first]],
              ["t_filter", ["--q"] * n + [last, first]], ["t_chain", [["t_add", [["flag", "--n%d" % i]]] for i in range(n)]], ["t_chain", [["t_remove", [names[(5 * i) % len(names)]]] for i in range(n)]],
              ["t_chain", [["t_seq"]] * (n - 1) + [["t_empty"]]], ["t_chain", [["t_empty"]] * (n - 1) + [["t_add", add]]]]
        if n < 40:
            deep = ["t_add", add]
            for i in range(n): deep = ["t_chain", [deep, ["t_add", [["flag", "--d%d" % i]]]]]
            ts.append(deep)
        out += [dict(t=t, fos=f, fos2=g) for t in ts for f, g in ((fos, add), (add, fos), (fos[:2], fos))]
    for n in (1200, 3000):
        t = ["t_chain", [["t_add", [["flag", "--n%d" % (i % 40)]]] for i in range(n - 1)] + [["t_remove", ["--n0"]]]]
        out.append(dict(t=t, fos=[["flag", "-a"]], fos2=[]))
    for n in names:     # every name there is
        f, o = ["flag", n], ["optionvar", n, ["var", 1]]
        for t in (["t_seq"], ["t_empty"], ["t_add", [f]], ["t_add", [o]], ["t_remove", [n]], ["t_filter", [n]], ["t_custom", []], ["t_custom", [["flag", "-q"]]], ["t_remove", []], ["t_chain", [["t_filter", [n]], ["t_add", [["flag", "-m"]]]]]):
            out.append(dict(t=t, fos=[f, o, ["flag", "-zz"]], fos2=[f]))
    return out


def subs():
    m = st.fixed_dictionaries(dict(t=objs.transformer, fos=objs.fo_var, fos2=objs.fo_var))
    l = st.fixed_dictionaries(dict(a=objs.transformer, b=objs.transformer, fos=objs.fo_var, names=objs.names, add=objs.fo_var.map(objs.no_dup)))
    return [Sub("model", m, check_model, 16000, 100000, regress=enumerated), Sub("laws", l, check_laws, 10000, 60000)]
