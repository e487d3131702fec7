"""C10: parallelizability is annotated exactly as documented for every flag combination."""
import os, subprocess
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import gen, lib, ref, paraview
from gnu import SPECS, TABLE, NO_TABLE, ANNOTATED_PARA

PROPERTY, LEVEL = "C10", "exploration"
RULE = ("table: a command line of a command with parallelizability annotation (generated, or every flag and every ordered pair of flags), its "
        "parallelizers compared as a multiset with an independent table. built: the same for invocations built by the "
        "program, also of custom_sort and custom_tr with what sort and tr take. lists: every set of two and three flags and options (in varying order and spelling) and generated "
        "lists of up to nine, each with every of several lists of operands. sed: scripts composed of parts which are known to treat every line on "
        "its own or not. tr-sets: sets in the notation of tr; whether they contain the newline compared with an independent reading and with "
        "the installed tr. Non-trivial: at least one flag, option or operand.")
ASSUMPTIONS = ["table of parallelizers (harness/ref.py) written from the documentation of PaSh's parallelizability classes and of the commands"]
CMDS = sorted(ANNOTATED_PARA)


def view(para, inv):
    lst, rr_cat, comm = para.parallelizer_list, para.round_robin_compatible_with_cat, para.is_commutative
    return sorted((paraview.parallelizer_view(p, inv.flag_option_list) for p in lst), key=repr), bool(rr_cat), bool(comm)


def norm(spec, v):
    """names of transformed flags as identities"""
    out = []
    for s, m, a, i, x, y in v:
        if len(a) == 2 and isinstance(a[1], list):
            fos = []
            for f in a[1]:
                fos += [(k,) for k in spec.flag_idents(f[0])] if len(f) == 1 else [(spec.ident(f[0]), f[1])]
            a = (a[0], fos)
        out.append((s, m, a, i, x, y))
    return sorted(out, key=repr)


def check_table(case):
    text = gen.render(gen.words_of(case), [0])
    return compare(case, lib.parse(text), text)


def check_lists(case, lists=None):
    """the same flags and options with several lists of operands"""
    text = gen.render(gen.words_of(dict(case, operands=[])), [0])
    fos, labels = lib.parse(text).flag_option_list, set()
    for operands in lists or operand_lists(case["cmd"]):
        inv = lib.CommandInvocationInitial(case["cmd"], list(fos), [lib.Operand(o) for o in operands])
        labels |= set(compare(dict(case, operands=operands), inv, "%s with operands %r" % (text, operands)) or [])
    return sorted(labels) if labels else None


def compare(case, inv, text):
    spec = SPECS[case["cmd"]]
    para = lib.para_info(inv)
    idents = gen.expected(spec, case["items"])
    want = ref.para_ref(case["cmd"], idents, case["operands"])
    if want is ref.UNDECIDED:
        return None
    expect(para is not None, "%r has no parallelizability annotation", text)
    got, rr_cat, comm = view(para, inv)
    same(norm(spec, got), norm(spec, want["parallelizers"]), "parallelizers of %r" % text)
    same((rr_cat, comm), (False, want["commutative"]), "properties (round robin compatible with cat, commutative) of %r" % text)
    if not case["items"] and not case["operands"]:
        return None
    return ["cmd:" + case["cmd"], "none" if not want["parallelizers"] else "some"]


AS = {"custom_sort": "sort", "custom_tr": "tr"}


def check_built(case):
    """built by the program with the names which the parser gives; custom_sort and custom_tr take what sort and tr take"""
    cmd, like = case["cmd"], AS.get(case["cmd"], case["cmd"])
    spec, fos = SPECS[like], []
    for it in case["items"]:
        if it[0] == "f":
            (f,) = lib.parse(like + " " + it[1]).flag_option_list
            fos.append(lib.Flag(f.get_name()))
        else:
            (f,) = lib.parse(like + " " + it[1] + " x").flag_option_list
            fos.append(lib.Option(f.get_name(), it[2]))
    what = "the invocation of %s with %r and operands %r" % (cmd, case["items"], case["operands"])
    want = ref.para_ref(cmd, gen.expected(spec, case["items"]), case["operands"])
    if want is ref.UNDECIDED:
        return None
    para = lib.para_info(lib.CommandInvocationInitial(cmd, fos, [lib.Operand(o) for o in case["operands"]]))
    expect(para is not None, "%s has no parallelizability annotation", what)
    lst, rr_cat, comm = para.parallelizer_list, para.round_robin_compatible_with_cat, para.is_commutative
    got = sorted((paraview.parallelizer_view(p, fos) for p in lst), key=repr)
    same(norm(spec, got), norm(spec, want["parallelizers"]), "parallelizers of %s" % what)
    same((bool(rr_cat), bool(comm)), (False, want["commutative"]), "properties (round robin compatible with cat, commutative) of %s" % what)
    return ["built:" + cmd] if case["items"] else None


def built_of(case, cmd):
    keep = [i for i in case["items"] if not (i[0] == "f" and (case["cmd"], SPECS[case["cmd"]].ident(i[1])) in gen.EXPANSIONS)]
    return dict(case, items=keep, cmd=cmd)


def built():
    other = gen.invocation([c for c in CMDS if c not in AS and c != "sed"]).map(lambda c: built_of(c, c["cmd"]))
    return st.one_of(gen.invocation(["sort"]).map(lambda c: built_of(c, "custom_sort")), gen.invocation(["tr"]).map(lambda c: built_of(c, "custom_tr")), other)


def built_enumerated():
    return [built_of(c, "custom_" + c["cmd"]) for c in gen.pairwise(["sort", "tr"], operand_lists)]


@st.composite
def sed(draw):
    form = draw(st.sampled_from(["operand", "-e", "-e", "--expression", "-f"]))
    n = 1 if form in ("operand", "-f") else draw(st.integers(1, 3))
    scripts, local = [], True
    for _ in range(n):
        parts = draw(st.lists(st.sampled_from(gen.SED_LOCAL), max_size=3))
        if draw(st.integers(0, 2)) == 0:
            parts.insert(draw(st.integers(0, len(parts))), draw(st.sampled_from(gen.SED_OTHER)))
            local = False
        scripts.append(draw(st.sampled_from(["; ", ";", "\n", " ;\n"])).join(parts))
    flags = draw(st.lists(st.sampled_from(["-n", "-E", "-r", "-s", "-u", "--posix", "-z", "--debug", "--null-data", "--quiet"]), max_size=3))
    return dict(form=form, scripts=scripts, local=local, flags=flags, file=draw(st.booleans()))


def check_sed(case):
    words = ["sed"] + case["flags"]
    if case["form"] == "operand":
        words += [case["scripts"][0]]
    elif case["form"] == "-f":
        words += ["-f", "s.sed"]
    else:
        for s in case["scripts"]:
            words += [case["form"], s] if case["form"] == "-e" else [case["form"] + "=" + s]
    if case["file"]:
        words.append("in.txt")
    text = gen.render(words, [0])
    inv = lib.parse(text)
    if [o.get_name() for o in inv.operand_list] != (case["scripts"] if case["form"] == "operand" else []) + (["in.txt"] if case["file"] else []):
        return None     # a script which looks like a flag
    para = lib.para_info(inv)
    expect(para is not None, "%r has no parallelizability annotation", text)
    parallel = case["local"] and case["form"] != "-f" and not {"-z", "--debug", "--null-data"} & set(case["flags"])
    got, rr_cat, comm = view(para, inv)
    want = [(s, ref.SEQ, ref.CONC, True, "no_add_input", 0) for s in ("consec_chunks", "round_robin")] if parallel else []
    same(got, sorted(want, key=repr), "parallelizers of %r" % text)
    same((rr_cat, comm), (False, False), "properties of %r" % text)
    return ["sed:" + ("local" if case["local"] else "other"), "sed:" + case["form"]]


def tr_set_strategy():
    one = st.sampled_from(["a", "n", "z", "0", "\\n", "\n", "\\012", "\\12", "\\t", "\t", "\\013", "\\11", "[:space:]", "[:cntrl:]", "[:alpha:]", "[:blank:]",
                           "[:punct:]", "[:digit:]", "-", "\\\\", "\\-", "\\r", "\\a", "\\v", "\\f", "\\1", "\\0", " ", "\\0012", "\\7", "é", "[", ":", "]", "\\377", "\x0b"])
    return st.lists(one, min_size=1, max_size=6).map("".join)


def check_tr_set(case):
    text = case["set"]
    want = ref.tr_has_newline(text)
    if want is None or text.startswith("-"):
        return None
    real = subprocess.run(["tr", "-d", text], input=b"\n", capture_output=True, env={"LC_ALL": "C", "PATH": os.environ["PATH"]}, timeout=60)
    if real.returncode:
        return None
    if (real.stdout == b"") != want:
        raise RuntimeError("model of tr's sets is wrong for %r" % text)
    got = lib.Operand(text).contains_new_line()
    same(bool(got), want, "whether the set %r contains the newline" % text)
    for flags, news in ((["-d"], want), (["-c", "-d"], not want), (["-cd"], not want)):
        inv = lib.parse(gen.render(["tr"] + flags + [text], [0]))
        para = lib.para_info(inv)
        expect(para is not None, "tr %r %r has no annotation", flags, text)
        agg = {paraview.agg_kind(p.get_aggregator_spec()) for p in para.parallelizer_list}
        same(agg, {"adj_lines_merge" if news else "concatenate"}, "aggregators of tr %r %r" % (flags, text))
    return ["set with newline" if want else "set without newline"]


def tr_ranges():
    """ranges of codes around the newline, in all notations, and repeated and combined sets"""
    ways = {7: ["\\a", "\\7", "\\007"], 8: ["\\b", "\\10"], 9: ["\\t", "\t", "\\11", "\\011"], 10: ["\\n", "\n", "\\12", "\\012"], 11: ["\\v", "\x0b", "\\13", "\\013"],
            12: ["\\f", "\\014"], 13: ["\\r", "\r", "\\15"], 0: ["\\0", "\\000"], 1: ["\\1", "\x01"], 32: [" ", "\\40"], 127: ["\\177"], 255: ["\\377"]}
    out = [x for w in ways.values() for x in w]
    out += [x + "-" + y for a in ways for b in ways if a <= b for x in ways[a] for y in ways[b]]
    out += [p + x + "-" + y + q for a, b in ((9, 10), (10, 10), (10, 11), (9, 11), (11, 13), (8, 9)) for x in ways[a] for y in ways[b] for p, q in (("a", ""), ("", "z"), ("a-f", "0-9"), ("\\\\", "-"), ("-", "-"))]
    return [dict(set=s) for s in out]


def operand_lists(cmd):
    pool = gen.operand_pool(cmd)
    if cmd == "tr":
        return [["a", "b"], ["a"], ["\\n", " "], [" ", "\\n"], ["\\n"], ["a", "\\n"], ["[:space:]"], ["[:alnum:]", "\n-b"]]
    return [[], [pool[0]], [pool[0], "in.txt"]]


def enumerated():
    return gen.pairwise([c for c in CMDS if c != "sed"], operand_lists)


def triples():
    """all sets of three and four of the flags which matter"""
    import itertools
    out = []
    for cmd, names in (("sort", "-c -C -u -z -R -s -m --debug -n -r -k -t -o -b --sort --files0-from --random-source -f"),
                       ("grep", "-q -A -B -C -m -z -H -r -R -d --include --exclude --exclude-from -L -l -c -n -b -i -v -o -h -w"),
                       ("uniq", "-d -D -u --group -z -c -i -f -s -w"), ("xargs", "-0 -d -a -e -E --process-slot-var -n -L -I -r -t"), ("tr", "-c -d -s -t")):
        spec = SPECS[cmd]
        for combo in list(itertools.combinations(names.split(), 3)) + list(itertools.combinations(names.split(), 4)):
            items = []
            for n in combo:
                kind = spec.arg_of[n]
                items.append(["f", n] if kind is None else ["o", n, gen.ARG_BY_KIND.get(kind, ["1"])[0]])
            for ops in ([["a", "b"], ["\\n"], ["a", "\n"]] if cmd == "tr" else [["x"]]):
                out.append(dict(cmd=cmd, items=items, operands=ops))
    return out


def repeated():
    """an option given twice, with all pairs of arguments, in all spellings; and words after many operands"""
    out = []
    for cmd in [c for c in CMDS if c != "sed"]:
        for names, kind in SPECS[cmd].rows:
            if kind is None: continue
            pool = gen.ARG_BY_KIND.get(kind, ["x", "1", "-"])
            ops = ["a", "b"] if cmd == "tr" else ["x"]
            for i, a in enumerate(pool):
                for j, b in enumerate(pool):
                    out.append(dict(cmd=cmd, items=[["o", names[(i + j) % len(names)], a], ["o", names[i % len(names)], b]], operands=ops))
            for w in gen.NORMAL:
                out.append(dict(cmd=cmd, items=[["o", names[0], w]], operands=ops))
        # every flag and option before, between and after many others which do not matter
        plain = [f for f in PLAIN.get(cmd, []) if f in SPECS[cmd].row_of]
        for k, (names, kind) in enumerate(SPECS[cmd].rows):
            it = ["f", names[0]] if kind is None else ["o", names[0], gen.ARG_BY_KIND.get(kind, ["x", "1", "-"])[0]]
            for n in (5, 9, 17, 33):
                many = [["f", plain[i % len(plain)]] for i in range(n)] if plain else [["f", names[0]]] * n if kind is None else [it] * n
                for items in ([it] + many, many + [it], many[:n // 2] + [it] + many[n // 2:]):
                    out.append(dict(cmd=cmd, items=items, operands=["a", "b"] if cmd == "tr" else ["x"]))
        for n in (2, 5, 9, 17, 40):
            if cmd not in ("tr", "uniq"): out.append(dict(cmd=cmd, items=[], operands=["f%d" % i for i in range(n)]))
    for n in (10, 50, 90, 200):
        for x in ("\\n", "\n", "[:space:]", "\\012", "z"):
            for s in ("a" * n + x, x + "b" * n, "".join(chr(97 + i % 26) for i in range(n)) + x + "0-9"):
                for flags in (["-d"], ["-s"], [], ["-c", "-d"], ["-d", "-s"]):
                    out.append(dict(cmd="tr", items=[["f", f] for f in flags], operands=[s, s] if flags != ["-d"] and flags != ["-c", "-d"] else [s]))
    return out


# flags which change nothing about how the command can be parallelized
PLAIN = dict(grep=["-i", "-E", "-w", "-v"], sort=["-n", "-r", "-f"], cut=["-n"], uniq=["-i"], tr=["-t"], xargs=["-t", "-x"], col=["-b", "-f"])


def sed_composed():
    """two and three commands in one script, of which at most one looks at other lines"""
    out = []
    for sep in (";", "; ", "\n", "\n\n", " ;\n", ";;"):
        for a in gen.SED_LOCAL[:3] + ["p", "d"]:
            for b in gen.SED_OTHER:
                for parts in ([a, b], [b, a], [a, b, a], [a, a, b]):
                    out.append(dict(form=["operand", "-e", "--expression"][len(out) % 3], scripts=[sep.join(parts)], local=False, flags=[], file=len(out) % 2 == 0))
            for b in gen.SED_LOCAL:
                out.append(dict(form=["operand", "-e", "--expression"][len(out) % 3], scripts=[sep.join([a, b, a])], local=True, flags=[], file=False))
    # lines of several commands
    for a, b, c in (("p", "2d", "s/x/y/"), ("p", "d", "$!N"), ("s/a/b/", "N", "d"), ("y/ab/ba/", "p", "G"), ("2d", "p", "d")):
        for s in ("%s;%s\n%s", "%s\n%s;%s", "%s;%s;%s\n", "\n%s\n%s\n%s", "%s ; %s ; %s"):
            out.append(dict(form="operand", scripts=[s % (a, b, c)], local=False, flags=[], file=True))
    for a in gen.SED_LOCAL[:3]:
        for b in gen.SED_OTHER:
            for scripts in ([a, a, b], [b, a, a], [a, b, a]):
                out.append(dict(form="-e", scripts=scripts, local=False, flags=[], file=False))
    return out


def sed_repeated():
    return sed_composed() + [dict(form=form, scripts=[a, b], local=False, flags=[], file=False) for a in gen.SED_LOCAL[:4] for b in gen.SED_OTHER for form in ("-e", "--expression")] + \
        [dict(form="-e", scripts=[b, a], local=False, flags=[], file=True) for a in gen.SED_LOCAL[:4] for b in gen.SED_OTHER] + \
        [dict(form="operand", scripts=[b], local=False, flags=[], file=True) for b in gen.SED_OTHER] + \
        [dict(form=f, scripts=[a], local=True, flags=[], file=True) for a in gen.SED_LOCAL for f in ("operand", "-e")]


def sed_long():
    """scripts of many commands, and many scripts, of which at most one looks at other lines"""
    out, local = [], gen.SED_LOCAL
    for n in (4, 7, 10, 20, 45):
        for k in range(len(gen.SED_OTHER)):
            parts = [local[(i + k) % len(local)] for i in range(n)]
            for at in (None, 0, n // 2, n):
                p = parts if at is None else parts[:at] + [gen.SED_OTHER[k]] + parts[at:]
                out.append(dict(form="operand", scripts=["\n".join(p)], local=at is None, flags=[], file=bool(k % 2)))
                out.append(dict(form="-e", scripts=p, local=at is None, flags=["-n"][:k % 2], file=bool(k % 2)))
    return out


def subs():
    return [Sub("table", lambda: gen.invocation(CMDS), check_table, 16000, 200000, regress=lambda: enumerated() + triples() + repeated()),
            Sub("built", built, check_built, 5000, 60000, regress=built_enumerated),
            Sub("lists", lambda: gen.invocation(CMDS, max_items=9).map(lambda c: dict(cmd=c["cmd"], items=c["items"])), check_lists, 3000, 60000,
                regress=lambda: gen.triples(CMDS, size=2) + gen.triples(CMDS)),
            Sub("sed", sed, check_sed, 6000, 60000, regress=lambda: sed_repeated() + sed_long()), Sub("tr-sets", lambda: st.builds(lambda s: dict(set=s), tr_set_strategy()), check_tr_set, 5000, 40000, regress=tr_ranges)]
