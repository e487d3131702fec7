"""C20: commands added in the documented way are annotated as their tables and generators say."""
import json, os, re, shutil, subprocess, sys
from hypothesis import strategies as st
from core import REPO, Sub, Violation, expect, same
from checks.c04 import FIRST, INIT, LAST, PLANS, REST
from checks.c18 import LETTERS, long_name, spec_of, words
import children, extserver, gen, gnu, lib, paraview

PROPERTY, LEVEL = "C20", "exploration"
RULE = ("added: up to 5 new commands are added to a scratch copy of the library in the documented way (entry in the dictionary, table, one generator file of each kind, "
        "written with the documented helpers under conditions on flags, options and operands), or under another name for an existing generator; then up to 12 command "
        "lines of them and of existing commands are parsed and annotated and compared with a model, for existing commands with the unchanged library. Non-trivial: "
        "some new command has an annotation. helpers: the condition helpers of generators on built commands, compared with a model; non-trivial: a flag or an operand.")
ASSUMPTIONS = ["no operand is assigned two roles by the same generator (documented assumption)"]
HERE = os.path.dirname(os.path.abspath(children.__file__))
AGF = os.path.join("pash_annotations", "annotation_generation", "AnnotationGeneration.py")
GENS = os.path.join("pash_annotations", "annotation_generation", "annotation_generators")
DATA = os.path.join("pash_annotations", "parser", "command_flag_option_info", "data")
INDICATORS = ("FILE", "DIR", "DIRECTORY")
ACCESS_NAMES = {"CONFIG_INPUT": "cfg", "STREAM_INPUT": "sin", "CONTAINER_FOR_INPUT": "container", "EXCLUDES_FROM_INPUT": "excludes", "OTHER_INPUT": "oin", "STREAM_OUTPUT": "sout",
                "OTHER_OUTPUT": "oout"}
_base = [None]


def prepare(seed, tier):
    children.setup()
    base = children.scratch()
    shutil.copytree(os.path.join(REPO, "pash_annotations"), os.path.join(base, "pash_annotations"), ignore=shutil.ignore_patterns("__pycache__", "tests", "docs"))
    subprocess.run([sys.executable, "-m", "compileall", "-q", base], env={k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}, stdout=subprocess.DEVNULL)
    _base[0] = base


def finish():
    children.teardown()


# -------------------------------------------------------------------------------------------------------------- generated generators

APPENDS = {     # helper -> (splitter, aggregator, implemented)
    "if_seq_conc": ("indiv_files", ("concatenate",), True), "if_seq_adjm": ("indiv_files", ("adj_lines_merge",), False),
    "cc_seq_conc": ("consec_chunks", ("concatenate",), True), "cc_seq_adjm": ("consec_chunks", ("adj_lines_merge",), False), "cc_seq_adjs": ("consec_chunks", ("adj_lines_seq",), False),
    "rr_seq_conc": ("round_robin", ("concatenate",), True), "rr_seq_adjm": ("round_robin", ("adj_lines_merge",), False), "rr_seq_adjs": ("round_robin", ("adj_lines_seq",), False),
}
TEMPLATES = [   # code and view
    ("make_parallelizer_consec_chunks(mapper_spec=make_mapper_spec_custom_from_string_representation('mymap -x', is_implemented=True), "
     "aggregator_spec=make_aggregator_spec_custom_2_ary_from_string_representation('myagg -m', is_implemented=True), info_mapper_aggregator=2)",
     ("consec_chunks", ("custom", "mymap"), ("custom_2_ary", "myagg -m"), True, "no_add_input", 2)),
    ("make_parallelizer_consec_chunks(aggregator_spec=make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers("
     "flag_option_list_transformer=ChainTransformerFlagOptionList([TransformerFlagOptionListFilter(['-a', '-b', '--all']), TransformerFlagOptionListAdd([Flag('-m')])]), is_implemented=True))",
     ("consec_chunks", ("seq",), ("custom_2_ary", None), True, "no_add_input", 0)),
    ("make_parallelizer_consec_chunks(mapper_spec=make_mapper_spec_custom('mymap', is_implemented=False), info_splitter_mapper=AdditionalInfoSplitterToMapper.LINE_NUM_OFFSET)",
     ("consec_chunks", ("custom", "mymap"), ("concatenate",), False, "line_num_offset", 0)),
    ("make_parallelizer_round_robin(mapper_spec=make_mapper_spec_custom(None, is_implemented=True))",
     ("round_robin", ("custom", None), ("concatenate",), True, "no_add_input", 0)),
    ("make_parallelizer_indiv_files(aggregator_spec=make_aggregator_spec_custom_n_ary_from_string_representation('nagg', is_implemented=True))",
     ("indiv_files", ("seq",), ("custom_n_ary", "nagg"), True, "no_add_input", 0)),
]
P = "pash_annotations.annotation_generation."
Z = P + "datatypes.parallelizability."
IO_HEAD = ("from {p}annotation_generators.InputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface\n\n"
           "class InputOutputInfoGenerator{r}(InputOutputInfoGeneratorInterface):\n\n    def generate_info(self) -> None:\n").replace("{p}", P)
PARA_HEAD = ("from {p}annotation_generators.ParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface\nfrom pash_annotations.datatypes.BasicDatatypes import Flag\n"
             "from {z}AggregatorSpec import make_aggregator_spec_custom_2_ary_from_string_representation, make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers, make_aggregator_spec_custom_n_ary_from_string_representation\n"
             "from {z}MapperSpec import make_mapper_spec_custom_from_string_representation, make_mapper_spec_custom\n"
             "from {z}Parallelizer import make_parallelizer_indiv_files, make_parallelizer_consec_chunks, make_parallelizer_round_robin, AdditionalInfoSplitterToMapper\n"
             "from {z}TransformerFlagOptionList import TransformerFlagOptionListFilter, TransformerFlagOptionListAdd, ChainTransformerFlagOptionList\n\n"
             "class ParallelizabilityInfoGenerator{r}(ParallelizabilityInfoGeneratorInterface):\n\n    def generate_info(self) -> None:\n").replace("{p}", P).replace("{z}", Z)


def condition(c):
    """as Python"""
    if c[0] == "has": return "self.does_flag_option_list_contain_at_least_one_of(%r)" % (c[1],)
    if c[0] == "count": return "len(self.get_flag_option_list_filtered_with(%r)) > %d" % (c[1], c[2])
    if c[0] == "arg": return "any(str(option.get_arg()) == %r for option in self.get_flag_option_list_filtered_with([%r]))" % (c[2], c[1])
    if c[0] == "n": return "self.get_operand_list_length() == %d" % c[1]
    if c[0] == "starts": return "self.does_first_operand_start_with(%r)" % c[1]
    return "self.does_first_operand_contain(%r)" % c[1]


class Fails(Exception):
    pass


def holds(c, fos, ops):
    if c[0] == "has": return any(f[0] in c[1] for f in fos)
    if c[0] == "count": return sum(f[0] in c[1] for f in fos) > c[2]
    if c[0] == "arg": return any(f[0] == c[1] and f[1] == c[2] for f in fos)
    if c[0] == "n": return len(ops) == c[1]
    if not ops: raise Fails()
    return ops[0].startswith(c[1]) if c[0] == "starts" else c[1] in ops[0]


def code(tree, indent=2):
    pad = "    " * indent
    if tree[0] == "if":
        return "%sif %s:\n%s%selse:\n%s" % (pad, condition(tree[1]), code(tree[2], indent + 1), pad, code(tree[3], indent + 1))
    if tree[0] == "fail":
        return pad + ["raise Exception('not supported')", "assert False", "assert(self.get_operand_list_length() < 0)"][tree[1]] + "\n"
    out = []
    for s in tree[1]:
        out.append(pad + "self." + (s if s.endswith(")") else s + "()") + "\n")
    return "".join(out) or pad + "pass\n"


def leaf_of(tree, fos, ops):
    while tree[0] == "if":
        tree = tree[2] if holds(tree[1], fos, ops) else tree[3]
    if tree[0] == "fail": raise Fails()
    return tree


def io_model(tree, table, fos, ops):
    n, role = len(ops), {}
    for row in table["option"]:
        kind = row[-1]
        if isinstance(kind, list): role[row[0]] = ACCESS_NAMES[kind[1]] if kind[0] in INDICATORS else "str"
        elif kind in INDICATORS: return None
        else: role[row[0]] = "str"
    try:
        _, statements, plan, rest = leaf_of(tree, fos, ops)
    except Fails:
        return None
    if any(o.startswith("-") and o != "-" for o in ops): return None
    if plan in FIRST or plan in LAST:
        if n == 0: return None
        roles = [FIRST[plan]] + [REST[rest]] * (n - 1) if plan in FIRST else [INIT[rest]] * (n - 1) + [LAST[plan]]
    else:
        roles = PLANS[plan][1](n)

    def typed(r, t):
        return [r, t] if r == "str" or t != "-" else [r, 1 if r in ("sout", "oout") else 0]
    fo = [list(f) if len(f) == 1 else [f[0], typed(role[f[0]], f[1])] for f in fos]
    stdin = "set_implicit_use_of_stdin" in statements or "set_implicit_use_of_stdin(True)" in statements or ("if_no_operands_given_stdin_implicitly_used" in statements and n == 0)
    stdout = "set_implicit_use_of_stdout" in statements or "set_implicit_use_of_stdout(True)" in statements
    return dict(flagoptions=fo, operands=[typed(r, o) for r, o in zip(roles, ops)], stdin=["sin", 0] if stdin else None, stdout=["sout", 1] if stdout else None,
                other_outputs="oout" in roles or any(len(f) == 2 and f[1][0] == "oout" for f in fo))


def para_model(tree, fos, ops):
    try:
        _, statements = leaf_of(tree, fos, ops)
    except Fails:
        return None
    out, commutative = [], False
    for s in statements:
        if s == "set_commutative": commutative = True
        elif s.startswith("append_to_parallelizer_list("):
            view = next(v for c, v in TEMPLATES if c == s[len("append_to_parallelizer_list("):-1])
            if view[2] == ("custom_2_ary", None):
                view = view[:2] + (("custom_2_ary", [f for f in fos if f[0] in ("-a", "-b", "--all")] + [("-m",)] * (("-m",) not in [f for f in fos if f[0] in ("-a", "-b", "--all")])),) + view[3:]
            out.append(view)
        elif "_adjf(" in s:
            m = re.match(r"append_to_parallelizer_list_(cc|rr)_seq_adjf\('(.*)', (?:is_implemented=)?(True|False)\)$", s)
            out.append(({"cc": "consec_chunks", "rr": "round_robin"}[m[1]], ("seq",), ("adj_lines_func", m[2]), m[3] == "True", "no_add_input", 0))
        else:
            sp, agg, impl = APPENDS[s[len("append_to_parallelizer_list_"):]]
            out.append((sp, ("seq",), agg, impl, "no_add_input", 0))
    unwrapped = [("round_robin_unwrap",) + p[1:] for p in out if p[0] == "consec_chunks"] if commutative else []
    return json.loads(json.dumps(dict(parallelizers=out, inferred=out + unwrapped, round_robin_compatible=False, commutative=commutative)))


# ------------------------------------------------------------------------------------------------------------------ strategies

NAMES = ["cat-wrapper", "my_tool", "nl", "tac", "paste", "fold", "rev", "x.sh", "1st", "_x", "catx", "ca", "sor", "sort2", "Cat", "GREP", "egrep", "gsort", "foo+bar", "a", "zzz", "m\u00e9", "[", "tool:v2", "cat.json", "Uniq", "2to3", "_cat", "cat_", "a-command-with-quite-a-long-name-indeed", "_sort", "cat-", "tr.py", "ls", "x"]
REPRS = ["CatWrapper", "MyTool", "Nl", "Tac", "Paste", "Fold", "Rev", "XSh", "First", "X", "Catx", "Ca", "Sor", "Sort2", "CAT", "GREP", "Egrep", "Gsort", "FooBar", "A", "Zzz", "Me", "Bracket", "Tool", "CatJson", "UNIQ", "2to3", "_Cat", "Cat_", "ACommandWithQuiteALongNameIndeed", "_Sort", "Cat2", "TrPy", "ls", "_x"]
KINDS = ["N", "WORD", "LIST", ["FILE", "CONFIG_INPUT"], ["FILE", "STREAM_INPUT"], ["FILE", "OTHER_INPUT"], ["FILE", "STREAM_OUTPUT"], ["FILE", "OTHER_OUTPUT"], ["FILE", "CONTAINER_FOR_INPUT"],
         ["FILE", "EXCLUDES_FROM_INPUT"], ["DIR", "OTHER_OUTPUT"], ["DIRECTORY", "OTHER_INPUT"], ["PATTERN", "OTHER_OUTPUT"], ["GLOB", "STREAM_INPUT"]]


@st.composite
def table(draw):
    pool = draw(st.lists(st.one_of(st.sampled_from(LETTERS + "AB12").map(lambda c: "-" + c), st.sampled_from("abm").map(lambda c: "-" + c), long_name.map(lambda n: "--" + n)), unique=True, max_size=10))
    flags, options, bare = [], [], draw(st.integers(0, 7)) == 5
    while pool:
        k = draw(st.integers(1, min(3, len(pool))))
        row, pool = pool[:k], pool[k:]
        if draw(st.booleans()): flags.append(row)
        else: options.append(row + [draw(st.sampled_from(KINDS + (["FILE", "DIR", "DIRECTORY"] * 4 if bare else [])))])
    return dict(flag=flags, option=options)


@st.composite
def tree(draw, tab, leaf, depth=2):
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        if draw(st.integers(0, 9)) == 0: return ["fail", draw(st.integers(0, 2))]
        return draw(leaf)
    primary = [r[0] for r in tab["flag"]] + [r[0] for r in tab["option"]]
    anything = sorted({n for r in tab["flag"] for n in r} | {n for r in tab["option"] for n in r[:-1]} | {"-a", "--all"})
    k = draw(st.sampled_from(["has", "has", "has", "count", "arg", "n", "n", "starts", "contains"]))
    names = draw(st.lists(st.sampled_from(primary or ["-a"]) | st.sampled_from(anything), max_size=3))
    if k == "has": c = ["has", names]
    elif k == "count": c = ["count", names, draw(st.integers(0, 2))]
    elif k == "arg" and tab["option"]: c = ["arg", draw(st.sampled_from([r[0] for r in tab["option"]])), draw(st.sampled_from(["1", "-", "in.txt", ""]))]
    elif k in ("starts", "contains"): c = [k, draw(st.sampled_from(["a", "in", "-", "", "s/", "x", " "]))]
    else: c = ["n", draw(st.integers(0, 3))]
    return ["if", c, draw(tree(tab, leaf, depth - 1)), draw(tree(tab, leaf, depth - 1))]


@st.composite
def io_leaf(draw):
    kind = draw(st.sampled_from(["whole", "first", "last"]))
    rest = None
    if kind == "whole":
        plan = draw(st.sampled_from(sorted(PLANS)))
        ops = list(PLANS[plan][0])
    else:
        plan, rest = draw(st.sampled_from(sorted(FIRST if kind == "first" else LAST))), draw(st.sampled_from(sorted(REST if kind == "first" else INIT, key=str)))
        ops = [plan] + ([rest] if rest else [])
        if draw(st.booleans()): ops = ops[::-1]
    i = draw(st.sampled_from([None, "set_implicit_use_of_stdin", "set_implicit_use_of_stdin(True)", "if_no_operands_given_stdin_implicitly_used", "set_implicit_use_of_stdin(False)"]))
    o = draw(st.sampled_from([None, "set_implicit_use_of_stdout", "set_implicit_use_of_stdout(True)", "set_implicit_use_of_stdout(False)"]))
    statements = [x for x in (i, o) if x]
    k = draw(st.integers(0, len(statements)))
    return ["leaf", statements[:k] + ops + statements[k:], plan, rest]


append = st.one_of(st.sampled_from(sorted(APPENDS)).map(lambda n: "append_to_parallelizer_list_" + n), st.sampled_from(sorted(APPENDS)).map(lambda n: "append_to_parallelizer_list_" + n),
                   st.tuples(st.sampled_from(["cc", "rr"]), st.sampled_from(["adjagg", "PLACEHOLDER: f"]), st.sampled_from(["True", "is_implemented=True", "False"])).map(
                       lambda t: "append_to_parallelizer_list_%s_seq_adjf('%s', %s)" % t),
                   st.sampled_from([c for c, _ in TEMPLATES]).map(lambda c: "append_to_parallelizer_list(%s)" % c))
para_leaf = st.tuples(st.lists(append, max_size=4), st.sampled_from([0, 0, 1, 2])).map(
    lambda t: ["leaf", (["set_commutative"] if t[1] == 1 else []) + t[0] + (["set_commutative"] if t[1] == 2 else [])])


@st.composite
def added(draw):
    cmds, uses = [], []
    which = draw(st.lists(st.integers(0, len(NAMES) - 1), min_size=1, max_size=5, unique=True))
    for i in which:
        k = draw(st.integers(0, 9))
        if k == 0:
            cmds.append(dict(name=NAMES[i], of=draw(st.sampled_from(sorted(c for c in gnu.ANNOTATED_IO if c in gnu.TABLE)))))
            continue
        tab = draw(table()) if draw(st.integers(0, 9)) else None
        t = tab or dict(flag=[], option=[])
        parts = draw(st.sampled_from(["both", "both", "both", "both", "io", "para", "none"]))
        cmds.append(dict(name=NAMES[i], repr=REPRS[i], table=tab, io=draw(tree(t, io_leaf())) if parts in ("both", "io") else None,
                         para=draw(tree(t, para_leaf)) if parts in ("both", "para") else None))
    for _ in range(draw(st.integers(1, 12))):
        j = draw(st.integers(-1, len(cmds) - 1))
        if j < 0 or "of" in cmds[j]:
            c = draw(gen.invocation(sorted(gnu.ANNOTATED_IO) if j < 0 else [cmds[j]["of"]], max_items=3))
            uses.append([j, gen.words_of(c)[1:], None if j >= 0 else c["cmd"]])
        else:
            t = cmds[j]["table"] or dict(flag=[], option=[])
            names = [n for r in t["flag"] for n in r] + [n for r in t["option"] for n in r[:-1]]
            lead = draw(words(names)) if draw(st.integers(0, 3)) == 0 else []
            for _ in range(draw(st.integers(0, 3))):
                rows = [["f"] + r for r in t["flag"]] + [["o"] + r for r in t["option"]]
                if not rows: break
                r = draw(st.sampled_from(rows))
                if r[0] == "f": lead.append(draw(st.sampled_from(r[1:])))
                else: lead += [draw(st.sampled_from(r[1:-1])), draw(st.sampled_from(["1", "-", "in.txt", "", "a b"]))]
            uses.append([j, lead + draw(st.lists(st.sampled_from(["a", "in.txt", "-", "x", "s/a/b/", "b c", "-a", "", "aa"]) | gen.WORD, max_size=3)), None])
    return dict(cmds=cmds, uses=uses, where=draw(st.booleans()))


def link_tree(src, dst):
    for d, subs, files in os.walk(src):
        to = os.path.join(dst, os.path.relpath(d, src))
        os.makedirs(to, exist_ok=True)
        for f in files: os.link(os.path.join(d, f), os.path.join(to, f))


def put(path, text):
    if os.path.lexists(path): os.unlink(path)
    with open(path, "w") as f: f.write(text)


ENTRIES = re.compile(r"(DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES\b[^=\n{]*=\s*(?:dict\s*\(\s*)?\{)")


def register(top, entries):
    """adds the entries to the dictionary, in AnnotationGeneration.py or in the file which defines it"""
    files = [os.path.join(top, AGF)] + sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs if f.endswith(".py"))
    for fn in files:
        with open(fn) as f: text = f.read()
        if ENTRIES.search(text):
            put(fn, ENTRIES.sub(lambda m: m[1] + "\n" + "".join(entries), text, count=1))
            return
    for fn in files:        # defined in another way
        with open(fn) as f: text = f.read()
        if re.search(r"^DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES\b[^=\n]*=", text, re.M):
            put(fn, text + "\nDICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES.update({\n%s})\n" % "".join(entries))
            return
    raise Violation("no file defines the documented dictionary of command names")


def check_added(case):
    top = children.scratch()
    try:
        link_tree(_base[0], top)
        entries, tables = [], {}
        for c in case["cmds"]:
            if "of" in c:
                r = lib_repr(top, c["of"])
                with open(os.path.join(top, DATA, c["of"] + ".json")) as f: put(os.path.join(top, DATA, c["name"] + ".json"), f.read())
            else:
                r = c["repr"]
                if c["table"] is not None: put(os.path.join(top, DATA, c["name"] + ".json"), json.dumps(c["table"]))
                if c["io"] is not None: put(os.path.join(top, GENS, "InputOutputInfoGenerator%s.py" % r), IO_HEAD.replace("{r}", r) + code(c["io"]))
                if c["para"] is not None: put(os.path.join(top, GENS, "ParallelizabilityInfoGenerator%s.py" % r), PARA_HEAD.replace("{r}", r) + code(c["para"]))
            entries.append("    %r: %r,\n" % (c["name"], r))
        register(top, entries)
        lines = []
        for j, ws, name in case["uses"]:
            lines.append(gen.render([name or case["cmds"][j]["name"]] + ws, [0]))
        env = {k: v for k, v in os.environ.items() if k != "PYTHONPYCACHEPREFIX"}
        p = subprocess.run([sys.executable, os.path.join(HERE, "extserver.py"), top], input=json.dumps(lines), capture_output=True, text=True, timeout=100, env=env)
        what = "with the new commands %s" % json.dumps(case["cmds"])
        expect(p.returncode == 0, "%s, the library cannot be used: %s", what, p.stderr[-1500:])
        labels = set()
        for (j, ws, name), line, (status, got) in zip(case["uses"], lines, json.loads(p.stdout)):
            expect(status == "ok", "%s, asking about %r fails: %s", what, line, got)
            c = case["cmds"][j] if j >= 0 else None
            if c is None or "of" in c:
                inv = lib.parse(gen.render([name or c["of"]] + ws, [0]))
                want = json.loads(json.dumps(extserver.answer(lib, paraview, gen.render([name or c["of"]] + ws, [0]))))
                if c is not None:
                    want["parsed"][0] = c["name"]
                    if want["io"]: want["io"]["name"] = c["name"]
                    labels.add("other name")
                else: labels.add("existing command")
                same(got, want, "answer about %r %s" % (line, what))
                continue
            t = c["table"] or dict(flag=[], option=[])
            fos, ops = spec_of(t).classify(ws)
            same(got["parsed"], [c["name"], [list(f) for f in fos], ops], "parse of %r %s" % (line, what))
            io = io_model(c["io"], t, fos, ops) if c["io"] is not None else None
            if io is not None: io = dict(io, name=c["name"])
            same(got["io"], io, "input/output annotation of %r %s" % (line, what))
            para = para_model(c["para"], fos, ops) if c["para"] is not None else None
            same(got["para"], para, "parallelizability of %r %s" % (line, what))
            if io: labels.add("input/output")
            if para: labels.add("parallelizability" if para["parallelizers"] else "no parallelizer")
        return sorted(labels) if labels & {"input/output", "parallelizability", "other name"} else None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def lib_repr(top, cmd):
    """the name an existing command has in the names of its generators"""
    from pash_annotations.annotation_generation import AnnotationGeneration
    return AnnotationGeneration.DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES[cmd]


# --------------------------------------------------------------------------------------------------------------------- helpers

def check_helpers(case):
    from pash_annotations.annotation_generation.annotation_generators.Generator_Interface import Generator_Interface

    class G(Generator_Interface):
        def generate_info(self): pass
        def get_info(self): return None
    inv = lib.CommandInvocationInitial("mycmd", [lib.Flag(f[0]) if len(f) == 1 else lib.Option(*f) for f in case["fos"]], [lib.Operand(o) for o in case["ops"]])
    g, before = G(inv), lib.dump(inv)
    fos, ops = case["fos"], case["ops"]
    for names in case["names"]:
        given = list(names)
        got = g.get_flag_option_list_filtered_with(given)
        same([list(lib.flagoption(f)) for f in got], [f for f in fos if f[0] in names], "flags and options of %r among %r" % (fos, names))
        same(bool(g.does_flag_option_list_contain_at_least_one_of(given)), any(f[0] in names for f in fos), "whether %r has one of %r" % (fos, names))
        same(given, list(names), "the list of names after the question")
        if isinstance(got, list): got.append(lib.Flag("-changed"))
    same(g.get_operand_list_length(), len(ops), "number of operands of %r" % ops)
    if ops:
        same(g.get_first_operand_name_as_string(), ops[0], "first operand of %r" % ops)
        for t in case["texts"] + [ops[0], ops[0][:1], ops[0][1:], ops[0] + "x"]:
            same(bool(g.does_first_operand_start_with(t)), ops[0].startswith(t), "whether %r starts with %r" % (ops[0], t))
            same(bool(g.does_first_operand_contain(t)), t in ops[0], "whether %r contains %r" % (ops[0], t))
    same(lib.dump(inv), before, "the command after questions about it")
    return ["helpers"] if fos or ops else None


NAME = st.sampled_from(["-a", "-b", "-A", "--all", "--al", "-ab", "-", "--", "--all=1", "-n"])
helpers = st.fixed_dictionaries(dict(fos=st.lists(st.one_of(st.tuples(NAME), st.tuples(NAME, gen.ARG)).map(list), max_size=12), ops=st.lists(gen.WORD, max_size=4),
                                     names=st.lists(st.lists(NAME, max_size=4), min_size=1, max_size=4), texts=st.lists(st.sampled_from(["", "a", "-", "s/", "\n", " ", "x"]), max_size=3)))


def subs():
    return [Sub("added", added, check_added, 400, 4000, executes=True), Sub("helpers", helpers, check_helpers, 6000, 60000)]
