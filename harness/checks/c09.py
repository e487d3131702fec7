"""C09: running a command in parallel as annotated preserves its output."""
import re
from hypothesis import strategies as st
from core import Sub, Violation, Skip, expect, same
import cmds, execu, gen, lib, objs
from gnu import SPECS
from checks import c06, c10
from checks.c12 import to_vars

PROPERTY, LEVEL = "C09", "exploration"
RULE = ("run: a generated invocation of a parallelizable command with one streaming input (standard input, '-' or a file), a generated text, a number of "
        "parts, cut points and shapes of the aggregation tree; the sequential command and, for every parallelizer (annotated or inferred), the derived "
        "mappers and aggregators are executed and the outputs compared. emulated: the same for bigrams_aux, alt_bigrams_aux, set_diff, custom_sort and "
        "custom_tr with emulations of these commands. guided: all sets of three flags and options, and longer generated command lines; those annotated otherwise "
        "than documented are executed like this, with several texts. Non-trivial: a parallelizer is executed with at least two non-empty parts, or all is as documented.")
ASSUMPTIONS = ["the installed versions of the commands (GNU)", "C locale; inputs are lines of text without NUL bytes",
               "the sequential execution succeeds (for grep also: no line is selected)", "invocations which only ask for help or the version are excluded",
               "round-robin: every block of lines is mapped on its own and the outputs are aggregated in the order of the blocks; with unwrapping, a worker "
               "gets all its blocks at once and the outputs are aggregated in the order of the workers",
               "aggregation for adjacent lines, as documented: seq = the command itself on the last line of the first and the first line of the second output; "
               "merge = the outputs are appended without separator; the placeholder functions have no defined meaning and are not executed",
               "bigrams_aux, alt_bigrams_aux and set_diff are emulated (they are not part of this repository), custom_sort and custom_tr are sort and tr",
               "known findings (cut -z; xargs if it is not one invocation per item) are not searched again"]
prepare = execu.setup


def finish():
    execu.teardown()


# ------------------------------------------------------------------------------------------------------------ emulations

def emulate_bigrams(lines):
    return [a + b"\t" + b for a, b in zip(lines, lines[1:])]


def split_lines(data):
    out = data.split(b"\n")
    return [l + b"\n" for l in out[:-1]] + ([out[-1]] if out[-1] else [])


def bare(data):
    return [l.rstrip(b"\n") for l in split_lines(data)]


def joined(lines):
    return b"".join(l + b"\n" for l in lines)


def emulate(argv, files, stdin):
    """(output, files written)"""
    name, args = argv[0], argv[1:]
    read = lambda n: bare(files[n])
    if name == "bigrams_aux":
        return joined(emulate_bigrams(bare(stdin))), {}
    if name == "bigram_aux_map":
        src, out, head, tail = args
        lines = read(src)
        return b"", {out: joined(emulate_bigrams(lines)), head: joined(lines[:1]), tail: joined(lines[-1:])}
    if name == "bigram_aux_reduce":
        in1, h1, t1, in2, h2, t2, out, oh, ot = args
        return b"", {out: joined(read(in1) + [read(t1)[0] + b"\t" + read(h2)[0]] + read(in2)), oh: files[h1], ot: files[t2]}
    if name == "alt_bigrams_aux":
        lines = bare(stdin)
        return joined(emulate_bigrams(lines) + [l + b"\t" for l in lines[-1:]]), {}
    if name == "alt_bigram_aux_reduce":
        a, b = (read(n) for n in args)
        return joined(a[:-1] + [a[-1] + b[0].split(b"\t")[0]] + b), {}
    if name == "set_diff":
        drop = set(read(args[0]))
        return joined([l for l in bare(stdin) if l not in drop]), {}
    raise AssertionError(argv)


REAL = {"custom_sort": "sort", "custom_tr": "tr"}
EMULATED = ("bigrams_aux", "bigram_aux_map", "bigram_aux_reduce", "alt_bigrams_aux", "alt_bigram_aux_reduce", "set_diff")


class Failed(Exception):
    pass


def execute(argv, files, stdin):
    """(output, all files afterwards) or Failed"""
    if argv[0] in EMULATED:
        try:
            out, written = emulate(argv, files, stdin)
        except (KeyError, IndexError, ValueError) as e:
            raise Failed("%r: %s: %s" % (argv, type(e).__name__, e))
        return out, dict(files, **written)
    argv = [REAL.get(argv[0], argv[0])] + argv[1:]
    files = {n: d for n, d in files.items() if n in argv}
    r = execu.run(argv, files, stdin)
    if r.code not in ((0, 1) if argv[0] == "grep" else (0,)):
        raise Failed("%r: exit status %d, %r" % (argv, r.code, r.err))
    return r.out, {n: d[1] for n, d in r.files.items() if d[0] == "file"}


def execute_vars(c, names, content):
    """executes a command with variables: names are the files of variables which are not streams, content is what the streaming inputs contain.
    Returns the contents of the streaming outputs, in the order of the variables in the command"""
    files = {n: d for n, d in content["files"].items()}
    path = {}

    def arg(a):
        if isinstance(a, lib.ArgStringType): return a.get_name()
        if a in names: return names[a]
        path[a] = "stream-%d" % a
        return path[a]
    words = [c.cmd_name]
    for f in c.flag_option_list:
        words += [f.get_name()] if isinstance(f, lib.Flag) else [f.get_name(), arg(f.get_arg())]
    words += [arg(o) for o in c.operand_list]
    stdin = b""
    for v, access in c.access_map.items():
        if access.is_stream_input():
            if v == c.implicit_use_of_streaming_input: stdin = content[v]
            elif v in path: files[path[v]] = content[v]
    out, after = execute(words, files, stdin)
    result = {}
    for v, access in c.access_map.items():
        if access.is_stream_output():
            result[v] = out if v == c.implicit_use_of_streaming_output else after.get(path.get(v), b"")
    return result


# --------------------------------------------------------------------------------------------------------------- parallel

def cut(lines, cuts, k):
    """k consecutive chunks; cuts are numbers in 0..1000"""
    n = len(lines)
    at = [0] + sorted(c * (n + 1) // 1001 for c in cuts[:k - 1]) + [n]
    return [b"".join(lines[a:b]) for a, b in zip(at, at[1:])]


def blocks(lines, sizes):
    out, i, j = [], 0, 0
    while i < len(lines):
        s = sizes[j % len(sizes)]
        out.append(b"".join(lines[i:i + s]))
        i += s; j += 1
    return out


class Runner:
    def __init__(self, p, cmd, names, case):
        self.p, self.cmd, self.names, self.case = p, cmd, names, case
        self.C = objs.build(cmd)
        self.files = case["bytes"]
        self.aux = p.get_info_mapper_aggregator()

    def map(self, data):
        """[output, auxiliary outputs]"""
        aux = [1002 + j for j in range(self.aux)]
        m = self.p.get_actual_mapper(self.C, 1000, 1001, list(aux))
        expect(m is not None, "no mapper although it is implemented")
        out = execute_vars(m, self.names, {"files": self.files, 1000: data})
        return [out[1001]] + [out[a] for a in aux]

    def seq(self, data):
        return self.map(data)[0]

    def combine(self, parts):
        """parts: what map gave for every part"""
        a = self.p.get_aggregator_spec()
        if a.is_aggregator_spec_concatenate():
            ins = [2000 + j for j in range(len(parts))]
            agg = self.p.get_actual_aggregator(self.C, list(ins), 3000)
            expect(bool(agg.is_aggregator_concatenate()), "aggregator is not concatenating")
            return execute_vars(agg, self.names, dict({v: p[0] for v, p in zip(ins, parts)}, files=self.files))[3000]
        if a.is_aggregator_spec_adj_lines_merge():
            return b"".join(p[0] for p in parts)
        if a.is_aggregator_spec_adj_lines_seq():
            return self.tree([p[0] for p in parts], self.adjacent)
        if self.aux:
            return self.tree(parts, self.two_aux)[0]
        return self.tree([p[0] for p in parts], self.two)

    def adjacent(self, x, y):
        a, b = split_lines(x), split_lines(y)
        if not a or not b: return x + y
        return b"".join(a[:-1]) + self.seq(a[-1] + b[0]) + b"".join(b[1:])

    def two(self, x, y):
        agg = self.p.get_actual_aggregator(self.C, [2000, 2001], 3000)
        expect(agg is not None, "no aggregator although it is implemented")
        return execute_vars(agg, self.names, {"files": self.files, 2000: x, 2001: y})[3000]

    def two_aux(self, x, y):
        k = self.aux
        v = [[b + j for j in range(k + 1)] for b in (2000, 2100, 3000)]
        agg = self.p.get_actual_2_ary_aggregator_with_aux(v[0][0], v[0][1:], v[1][0], v[1][1:], v[2][0], v[2][1:])
        expect(agg is not None, "no aggregator although it is implemented")
        out = execute_vars(agg, self.names, dict({i: d for i, d in zip(v[0] + v[1], x + y)}, files=self.files))
        return [out[i] for i in v[2]]

    def tree(self, parts, f):
        """combines neighbours in an order given by the case"""
        parts, k = list(parts), 0
        if not parts: parts = [self.map(b"")[0] if f != self.two_aux else self.map(b"")]
        while len(parts) > 1:
            i = self.case["tree"][k % len(self.case["tree"])] % (len(parts) - 1)
            parts[i:i + 2] = [f(parts[i], parts[i + 1])]
            k += 1
        return parts[0]


def runnable(p):
    m, a = p.get_mapper_spec(), p.get_aggregator_spec()
    if not m.is_implemented: return False
    return a.is_implemented or a.is_aggregator_spec_adj_lines_merge() or a.is_aggregator_spec_adj_lines_seq()


def excluded(case):
    """known findings and invocations which ask for help"""
    ids = gen.expected(SPECS[case["cmd"]], case["items"])
    names = {f[0] for f in ids}
    if names & {"--help", "--version"} or case["cmd"] == "grep" and "-V" in names: return True
    if case["cmd"] == "cut" and "-z" in names: return True
    if case["cmd"] == "xargs" and not one_per_invocation(ids): return True
    return False


def one_per_invocation(ids):
    if [f[0] for f in ids if f[0] in ("-I", "-i", "-L", "-l", "-n")] == ["-I"]: return True
    return ("-n", "1") in ids and not {f[0] for f in ids} & {"-I", "-i", "-L", "-l"} and sum(f[0] == "-n" for f in ids) == 1


def check(case):
    if excluded(case):
        return None
    words = gen.words_of(case)
    inv = lib.parse(gen.render(words, [0]))
    info, para = lib.io_info(inv), lib.para_info(inv)
    if info is None or para is None or info.has_other_outputs():
        return None
    with_io = info.apply_input_output_info_to_command_invocation(inv)
    cmd, names = describe(with_io)
    if sorted(r for r in cmd[6].values() if r in ("sin", "sout")) != ["sin", "sout"]:
        return None
    ps = [p for p in para.get_inferred_parallelizer_list() if runnable(p)]
    if not ps:
        return None
    data = case["data"].encode()
    lines = split_lines(data)
    files = cmds.encode(case["files"])
    sin, = [v for v, r in cmd[6].items() if r == "sin"]
    source = names[int(sin)]
    names = {v: n for v, n in names.items() if cmd[6][str(v)] not in ("sin", "sout")}
    if source is not None:
        files[source] = data
    case = dict(case, bytes=files)
    try:
        out, after = execute(words, files, data)
    except Failed:
        return None
    sout, = [v for v, r in cmd[6].items() if r == "sout"]
    target = describe(with_io)[1][int(sout)]
    if target is not None:
        expect(target in after, "%r does not write its streaming output %r", words, target)
        out = after[target]
    labels = set()
    need_nonempty = case["cmd"] in ("bigrams_aux", "alt_bigrams_aux") or case["cmd"] == "xargs" and not {f[0] for f in gen.expected(SPECS["xargs"], case["items"])} & {"-r"}
    for p in ps:
        r = Runner(p, cmd, names, case)
        s = p.get_splitter()
        k = case["k"]
        if s.is_splitter_consec_chunks():
            how, parts = "consecutive chunks", cut(lines, case["cuts"], k)
            if need_nonempty: parts = [c for c in parts if c]
        else:
            parts = blocks(lines, case["sizes"])
            how = "blocks"
            if s.is_splitter_round_robin_with_unwrap_flag():
                how, parts = "unwrapped blocks", [b"".join(parts[w::k]) for w in range(k)]
            else:
                expect(s.is_splitter_round_robin(), "splitter of another kind: %r", s)
        if need_nonempty and not parts: continue
        if not s.is_splitter_consec_chunks() and not s.is_splitter_round_robin_with_unwrap_flag() and not parts: parts = [b""]
        what = "%r in parallel on %s %r, tree %r" % (words, how, parts, case["tree"])
        try:
            got = r.combine([r.map(c) for c in parts])
        except Failed as e:
            raise Violation("%s fails: %s" % (what, e))
        same(got, out, what)
        if sum(1 for c in parts if c) >= 2: labels |= {"cmd:" + case["cmd"], how, p.get_aggregator_spec().get_kind().name, "stdin" if source is None else "file"}
        if any(not c for c in parts): labels.add("empty part")
    if any(l.startswith("cmd:") for l in labels):
        if data and not data.endswith(b"\n"): labels.add("no newline at the end")
        return sorted(labels)
    return None


def describe(with_io):
    """to_vars, and the file of every variable (None for a descriptor)"""
    cmd, names, n = to_vars(with_io), {}, 0

    def visit(a):
        nonlocal n
        v = lib.arg_view(a)
        if v[0] == "str": return
        n += 1
        names[n] = v[1] if isinstance(v[1], str) else None
    for f in with_io.flag_option_list:
        if not isinstance(f, lib.Flag): visit(f.get_arg())
    for o in with_io.operand_list: visit(o)
    for i in (with_io.implicit_use_of_streaming_input, with_io.implicit_use_of_streaming_output):
        if i is not None: visit(i)
    return cmd, names


# -------------------------------------------------------------------------------------------------------------- generation

WORDS = ["a", "b", "aa", "ab", "B", "A", "Ab", "", "", "a b", "a  b", " a", "b a ", "1", "10", "9", "02", "1,2", "a,b,c", "-1", "x=1", "a\tb", "a.b", "1K", "2M", "JAN", "feb",
         "1e1", "0x1", "_a", "a-b", "#", "a\rb", "\\", "bab", "aab b", "b,a", "3 a", "3 A", "3 b", "3.5 b", "x1y2", "x10y", "aba", "  "]
DATA = st.tuples(st.lists(st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS[:14]), st.text(st.sampled_from("abA1 ,"), max_size=4)), max_size=12), st.integers(0, 3)).map(
    lambda t: "\n".join(t[0]) + ("\n" if t[0] and t[1] else ""))
ITEM = st.sampled_from(["a", "b", "x", "10", "a.txt", "A", "f-1"])
XDATA = st.lists(st.lists(ITEM, min_size=1, max_size=3).map(" ".join), max_size=8).map(lambda l: "".join(x + "\n" for x in l))
OPERANDS = {
    "cut": [[]], "sort": [[]], "uniq": [[]], "custom_sort": [[]],
    "grep": [["a"], ["b$"], ["^a"], ["a.*b"], ["1"], [""], ["A"], ["^$"], ["a\\|1"], ["[ab]"], ["x"], ["a b"], ["\\bb"], ["."], ["\\(a\\).*\\1"], ["a\nb"], ["\\r"]],
    "sed": [[s] for s in gen.SED_LOCAL + ["s/a/x/2", "s/^/>/", "s/$/</", "s/ */-/g", "s/a/&\\n/", "y/a/\\n/", "/^$/d", "s/\\(a\\)\\(b\\)/\\2\\1/", "s/b/B/;p", "/a/s/b/c/p",
                                         "s/a/b/;t", "s/a*/x/g", "/b/!d", "s/x/;/;d", "s,a/b,c,", "s/[/]/a/", "s/[;]/a/;p", "\\xaxd", "s/a/b/I", "s/A/b/i2", "p\np",
                                         "/a/{d}", "/a/,/b/p", "$d", "2p", "n", "G", "x", "=", "a\\\nfoo", "c foo", "s/a/b/w out.txt", "s/a/\\\n/", "#n\np", "#n", "#x\nN", "s/a/b/ # c\n2d", "p#q\n$!N", "s/a/b/ # c", "#x\np", "s/#/x/;2d"]],
    "tr": [["a", "b"], ["a-z", "A-Z"], ["a"], ["[:space:]"], ["\\n"], ["\\n", " "], [" ", "\\n"], ["[:lower:]", "[:upper:]"], ["a-zA-Z", "\\n"], ["b", "a"], ["\\n", "\\n"],
           ["ab", "xy"], ["[:alpha:]"], ["\\012"], ["\n"], ["a\\n"], ["a", "\\012"], ["[:cntrl:]", "x"], ["A-Za-z", "\n"], ["[:blank:]"], ["ab", "a\\n"], ["\\n", "a"], ["a", "bc"],
           ["\\n-a"], ["\\1-b", "x"], ["[:print:]"], ["\\n[:print:]"], ["[a*2]", "b"], ["\\\\n", "x"], ["1-9", "\\0"], ["[=a=]", "b"], ["[:upper:]", "\\n"], ["\\11-\\13"], ["[\\n*]"],
           ["a", "[\\n*]"], ["ab", "c[\\n*]"], ["abc", "x[\\012*2]"]],
    "xargs": [["echo"], ["cat"], ["echo", "X"], ["echo", "-"], [], ["echo", "x", "X"]],
}
OPERANDS["custom_tr"] = OPERANDS["tr"]
MORE_ARGS = {"KEYDEF": ["1", "1,1", "2n", "2,3", "1.2b,3", "2r", "1f", "2,2d", "1n,2", "2,2nr", "1,1M", "2V", "1,1h", "2g", "1i", "1,1R", "2.1,2.1"], "NAME": ["X", "ab", "x"],
             "SORTWORD": ["general-numeric", "human-numeric", "month", "numeric", "version", "random", "n", "r"], "CHAR": [",", " ", "a", "\n", "\t"], "STR": [",", "XY", "\n", ""],
             "DEVACT": ["read"], "NUM": ["0", "1", "2", "3"], "OUTFILE": ["out.txt", "b.txt", "in.txt"],
             "SED": [o[0] for o in OPERANDS["sed"]], "RE": ["a", "b$", "^", "A", "x*", "1 "], "REFILE": ["p.re", "f.txt"]}
TAIL = {"sed", "grep", "sort", "cut", "uniq", "custom_sort"}


def arg(kind):
    return st.sampled_from(MORE_ARGS.get(kind) or cmds.EXEC_ARGS[kind])


def rows_of(cmd):
    return [r for r in cmds.usable(REAL.get(cmd, cmd)) if r[0][-1] not in ("--help", "--version")]


NEEDS = {"cut": [["o", "-f", "1"], ["o", "-f", "2-"], ["o", "-c", "1-2"], ["o", "-b", "2"], ["o", "-f", "1,3"], ["e", "--fields", "2"]],
         "xargs": [["o", "-n", "1"], ["o", "-n", "1"], ["o", "-n", "1"], ["o", "-I", "X"], ["e", "--max-args", "1"]]}


@st.composite
def parallel(draw, cmd, items, operands, files, data):
    k = draw(st.integers(2, 5))
    return dict(cmd=cmd, items=items, operands=operands, files=files, data=data, k=k, cuts=draw(st.lists(st.integers(0, 1000), min_size=k - 1, max_size=k - 1)),
                sizes=draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)), tree=draw(st.lists(st.integers(0, 3), min_size=1, max_size=4)))


RARE = {    # with these there is no parallelizer
    "sort": ("-c", "-C", "-u", "-z", "-R", "-s", "-m", "--debug", "--files0-from", "--random-source", "-T"),
    "grep": ("-q", "-A", "-B", "-C", "-m", "-z", "-H", "-r", "-R", "-d", "--include", "--exclude", "--exclude-from", "-L", "-l", "-c", "-n", "-b"),
    "uniq": ("-d", "-D", "-u", "--group", "-z", "-c"), "xargs": ("-0", "-d", "-a", "-e", "-E", "--process-slot-var", "-L", "-l", "-i", "-I", "-n"),
    "sed": ("-f", "-z", "--debug"), "cut": ("-z",)}


@st.composite
def cases(draw, commands):
    cmd = draw(st.sampled_from(commands))
    spec = SPECS[cmd]
    rows = rows_of(cmd)
    items = []
    if cmd == "sed" and draw(st.integers(0, 3)) == 0:
        items = [["o", "-e", s] for s in draw(st.lists(arg("SED"), min_size=2, max_size=3))]
    if spec.rows:
        for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))):
            names, kind = draw(st.sampled_from(rows))
            if names[0] in RARE.get(cmd, ()) and draw(st.integers(0, 3)): continue
            name = draw(st.sampled_from(list(names)))
            items.append(["f", name] if kind is None else ["o", name, draw(arg(kind))])
    if cmd in NEEDS: items.insert(draw(st.integers(0, len(items))), draw(st.sampled_from(NEEDS[cmd])))
    ops = list(draw(st.sampled_from(OPERANDS[cmd])))
    ids = {f[0] for f in gen.expected(spec, items)}
    if cmd in ("sed", "grep") and ids & {"-e", "-f"}: ops = []
    fs = dict(cmds.FIXED, **{"a.txt": "a\n", "b.txt": "b\n", "f.txt": "a b\n1\n"})
    if cmd == "uniq" and draw(st.integers(0, 4)) == 0: ops = ["in.txt", "out.txt"]
    elif cmd in TAIL and draw(st.integers(0, 2)) == 0: ops = ops + [draw(st.sampled_from(["in.txt", "-", "in.txt"]))]
    while not gen.ends_options(spec, ops):
        ops = ops[1:]
    return draw(parallel(cmd, items, ops, fs, draw(XDATA if cmd == "xargs" else DATA)))


@st.composite
def emulated(draw):
    cmd = draw(st.sampled_from(["bigrams_aux", "alt_bigrams_aux", "set_diff", "bigrams_aux", "alt_bigrams_aux", "set_diff", "custom_sort", "custom_tr"]))
    ops = ["f.txt"] if cmd == "set_diff" else draw(st.sampled_from(OPERANDS.get(cmd, [[]])))
    data = draw(DATA)
    if "bigrams" in cmd: data = data.replace("\t", "_")      # words do not contain the separator
    return draw(parallel(cmd, [], list(ops), dict(cmds.FIXED, **{"f.txt": "a\n1\nab\n"}), data))


MAIN = ["cut", "cut", "grep", "grep", "sed", "sed", "sort", "sort", "tr", "tr", "uniq", "uniq", "xargs"]


def regress():
    """every flag and option, and every pair, with fixed texts"""
    texts = ["b\na\na\n\nab 1\na,b,c\nA\n10\n9\na\n", "3 a\n3 A\n3 b\n10\n2\n\n\n\nx\nx\nX\n x\n1,2\n1,1"]
    out = []
    for cmd in sorted(set(MAIN)):
        spec = SPECS[cmd]
        for names, kind in [(None, None)] + rows_of(cmd):
            for a in ((MORE_ARGS.get(kind) or cmds.EXEC_ARGS[kind]) if kind else [None]):
                for j, o in enumerate(OPERANDS[cmd]):
                    it = [] if names is None else [["f", names[0]]] if a is None else [["o", names[0], a]]
                    if kind is not None and j > 3: continue
                    if cmd in ("sed", "grep") and it and it[0][1] in ("-e", "-f"): o = []
                    if not gen.ends_options(spec, o): continue
                    for extra in ([[]] if cmd not in NEEDS else [[NEEDS[cmd][0]], [NEEDS[cmd][3]]]):
                        n = len(out)
                        text = texts[n % 2] if cmd != "xargs" else "a b\nx\nf-1\nb 10\n"
                        out.append(dict(cmd=cmd, items=it + extra, operands=list(o), files=dict(cmds.FIXED, **{"f.txt": "a b\n1\n"}), data=text, k=2 + n % 3,
                                        cuts=[(331 * n) % 1001, (709 * n) % 1001, (17 * n) % 1001], sizes=[1 + n % 3], tree=[n % 2, 1]))
    # the delimiter given more than once
    for a in MORE_ARGS["CHAR"]:
        for b in MORE_ARGS["CHAR"]:
            for pos in range(3):
                n = len(out)
                it = [["o", "-d", a], ["o", "-d", b] if n % 2 else ["e", "--delimiter", b]]
                it.insert(pos, ["o", "-f", "1,3"])
                out.append(dict(cmd="cut", items=it, operands=[], files=dict(cmds.FIXED, **{"f.txt": "a b\n1\n"}), data=texts[n % 2], k=2 + n % 3,
                                cuts=[(331 * n) % 1001, (709 * n) % 1001, (17 * n) % 1001], sizes=[1 + n % 3], tree=[n % 2, 1]))
    # scripts of sed: several, and several lines and commands
    local, other = ["p", "s/a/b/", "y/ab/ba/", "/a/d", "s/a/x/2"], ["2d", "$d", "N", "G", "n", "$!N", "x", "1p", "/a/,/b/d", "="]
    for a in local:
        for b in other:
            for scripts in ([a, b], [b, a], [a, a, b], [a, b, a], [a + ";" + b + "\n" + a], [a + "\n" + b], [a + "\n" + a + ";" + b], [b + "\n" + a], [a + " ; " + a + "\n" + b + "\n"]):
                n = len(out)
                it = [["o", "-e", s] if n % 2 else ["e", "--expression", s] for s in scripts] if len(scripts) > 1 or n % 3 == 0 else []
                out.append(dict(cmd="sed", items=it, operands=[] if it else scripts, files=dict(cmds.FIXED, **{"f.txt": "a b\n1\n"}), data=texts[n % 2], k=2 + n % 3,
                                cuts=[(331 * n) % 1001, (709 * n) % 1001, (17 * n) % 1001], sizes=[1 + n % 3], tree=[n % 2, 1]))
    # every pair of flags and options (also an option given twice)
    for cmd in sorted(set(MAIN)):
        spec, rows = SPECS[cmd], rows_of(cmd)
        for i, a in enumerate(rows):
            for j, b in enumerate(rows[i:], i):
                if j == i and a[1] is None: continue
                n = len(out)
                it = [["f", names[0]] if kind is None else ["o", names[0], pool[(n + d) % len(pool)]]
                      for d, (names, kind) in enumerate((a, b)) for pool in [(MORE_ARGS.get(kind) or cmds.EXEC_ARGS[kind]) if kind else None]]
                o = [] if cmd in ("sed", "grep") and {"-e", "-f"} & {a[0][0], b[0][0]} else list(OPERANDS[cmd][n % min(5, len(OPERANDS[cmd]))])
                if not gen.ends_options(spec, o): continue
                if cmd in NEEDS: it.append(NEEDS[cmd][0] if cmd == "cut" or n % 3 else NEEDS[cmd][3])
                out.append(dict(cmd=cmd, items=it, operands=o, files=dict(cmds.FIXED, **{"f.txt": "a b\n1\n"}), data=texts[n % 2] if cmd != "xargs" else "a b\nx\nf-1\nb 10\n",
                                k=2 + n % 3, cuts=[(331 * n) % 1001, (709 * n) % 1001, (17 * n) % 1001], sizes=[1 + n % 3], tree=[n % 2, 1]))
    return out


# ---- guided: cheap comparison first, executed if it finds something

executed = 0
MOST = 80       # cases executed per process
TEXTS = ["b\na\na\n\nab 1\na,b,c\nA\n10\n9\na\n", "3 a\n3 A\n3 b\n10\n2\n\n\n\nx\nx\nX\n x\n1,2\n1,1", "a\n" * 7 + "b 1\nB 1\n", "a,1\na, 1\n1,a\n\n\n 2 b\n2 b\n"]
FILES = dict(cmds.FIXED, **{"a.txt": "a\n", "b.txt": "b\n", "f.txt": "a b\n1\n"})


def check_guided(case):
    """the parallelizers are compared with the documented ones; if they differ, execution decides, on several texts in several numbers of parts"""
    global executed
    lists = [l for l in [case["operands"]] + [case["operands"] + ["in.txt"]] + [list(o) for o in OPERANDS[case["cmd"]][:3]] if gen.ends_options(SPECS[case["cmd"]], l)]
    try:
        if c10.check_lists(case, lists) is not None and c06.check_lists(case, lists) is not None:
            return ["as documented"]
        return None
    except Violation:
        pass
    executed += 1
    if executed > MOST:
        return None
    for operands in lists:
        for n, text in enumerate(TEXTS):
            if case["cmd"] == "xargs": text = ["a b\nx\nf-1\nb 10\n", "a\nb\nX\n1\nab\n"][n % 2]
            try:
                check(dict(case, operands=operands, files=FILES, data=text, k=2 + n, cuts=[331, 500, 709, 17][:1 + n], sizes=[1 + n % 3], tree=[n % 2, 1]))
            except Violation:
                executed = -10 ** 9      # being shrunk: no limit any more
                raise
    return ["executed"]


def needed(cases):
    """cut and xargs with an option which they need"""
    out = []
    for n, c in enumerate(cases):
        spec, items = SPECS[c["cmd"]], list(c["items"])
        if c["cmd"] in NEEDS: items.insert(n % (len(items) + 1), NEEDS[c["cmd"]][n % len(NEEDS[c["cmd"]])])
        ops = [] if c["cmd"] in ("sed", "grep") and {f[0] for f in gen.expected(spec, items)} & {"-e", "-f"} else list(c["operands"])
        if gen.ends_options(spec, ops): out.append(dict(cmd=c["cmd"], items=items, operands=ops))
    return out


def guided():
    args = dict(cmds.EXEC_ARGS, **MORE_ARGS)
    return needed(gen.triples(sorted(set(MAIN)), lambda c: [list(o) for o in OPERANDS[c]], rows_of, args))


def some():
    return cmds.command(MAIN, max_items=8, info=False).map(lambda c: (needed([c]) or [dict(cmd="sort", items=[], operands=[])])[0])


def known():
    """probes: whether the known findings are still there"""
    def parallelized(text):
        para = lib.para_info(lib.parse(text))
        return para is not None and any(runnable(p) and p.get_aggregator_spec().is_aggregator_spec_concatenate() and p.get_splitter().is_splitter_consec_chunks()
                                        for p in para.get_inferred_parallelizer_list())
    return {"cut-z": lambda: parallelized("cut -z -d ' ' -f 1"), "xargs-batches": lambda: parallelized("xargs echo")}


def subs():
    return [Sub("run", cases(MAIN), check, 3600, 100000, executes=True, regress=regress), Sub("guided", some, check_guided, 6000, 60000, regress=guided),
            Sub("emulated", emulated, check, 1200, 20000, executes=True)]
