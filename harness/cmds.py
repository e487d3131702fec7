"""Command lines which can be executed, over small generated file systems."""
from hypothesis import strategies as st
import re
import gen
from gnu import SPECS

LINE = st.text(st.sampled_from("aabbcABx1 2,\t-"), max_size=6)
LINES = st.lists(st.one_of(LINE, LINE, st.sampled_from(["a", "a", "b", "", "a b", "1", "10", "9", "a,b,c", "x=1", "A"])), max_size=7)
TEXT = st.tuples(LINES, st.booleans()).map(lambda t: "\n".join(t[0]) + ("\n" if t[0] and t[1] else ""))
NAMES = ["in.txt", "a.txt", "b.txt", "f.txt", "x=1", "a b", "f-1", "dir/x", "dir/in.txt", "d2/x", "1"]
FIXED = {"p.re": "a\n1\n", "p.sed": "s/a/Z/\n", "p.awk": "{print $1}\n", "g.txt": "*.bak\nx\n", "f0.txt": "a.txt\0b.txt\0"}

EXEC_ARGS = {
    "KEYDEF": ["1", "1,1", "2n", "2,3", "1.2b,3", "2r", "1f"], "SORTWORD": ["general-numeric", "human-numeric", "month", "numeric", "version"], "NUM": ["1", "2", "0", "3"],
    "NUM1": ["1", "2"], "NUM2": ["2", "3"], "NUMBIG": ["2000"], "LIST": ["1", "1,3", "2-", "-3", "1-2,4"], "CHAR": [",", " ", "a"], "FS": [",", "a"],
    "ASSIGN": ["x=1"], "STR": [",", "XY"], "PROG": ["{print $1}"], "PROGFILE": ["p.awk"], "SEDFILE": ["p.sed"], "REFILE": ["p.re"], "GLOBFILE": ["g.txt"],
    "FILE": ["f.txt", "b.txt", "a.txt"], "FILES0": ["f0.txt"], "OUTFILE": ["out.txt", "b.txt", "-"], "DIR": ["dir", "d2"], "RE": ["a", "1", "x*", "^a", "B"],
    "BINTYPE": ["text", "binary", "without-match"], "DEVACT": ["skip", "read"], "DIRACT": ["skip", "read", "recurse", "rec", "recur"], "GLOB": ["*.txt", "x", "in*"],
    "WIDTH": ["40", "60"], "NAME": ["X", "ab"], "LFMT": ["%L", "%l\n"], "PALETTE": ["ad=1"], "MODE": ["644", "600"], "SUFFIX": [".bak", "~x"],
    "SIZE": ["10M", "1M"], "PROGRAM": ["gzip"], "PID": ["1"], "FORMAT": ["%g", "%03g"], "LIB": ["x"],
    "SED": ["s/a/b/", "s/a/b/g", "y/ab/ba/", "/a/d", "/a/!p", "d", "p;d", "s,x,y,2", "1d", "$p", "/a/Is/x/y/gi", "N;P;D", "q", "2q", "=", "/a/,/b/d", "$!N", "x;G", "1,2p", "l"],
}
AWK = ["{print $1}", "{print}", "NR==1", "/a/", "END{print NR}", "{x=x $0} END{print x}", "BEGIN{print 1}", "{print FILENAME}"]
POOLS = {"sed": EXEC_ARGS["SED"], "grep": ["a", "a.*b", "^x", "x=1", "1", "b\\|c", "", "A"], "awk": AWK,
         "tr": ["a", "a-z", "A-Z", "\\n", "[:space:]", "[:alpha:]", "0-9", "b", "ab", " ", "\\012", "[:upper:]", "[:lower:]", "[:punct:]"],
         "seq": ["1", "3", "5", "-2", "0.5", "2", "1.5"], "xargs": ["echo", "cat", "head", "echo", "echo"]}
ITEM_BAN = {     # not deterministic, endless, waiting for a terminal, or about other processes
    "tail": {"-f", "--pid", "--retry"}, "sort": {"-R"}, "diff": {"-l"}, "xargs": {"-o", "-p"}, "grep": set(), "awk": None, "mkfifo": {"-Z"}, "mv": {"-Z"}}
AWK_ITEMS = {"-F", "-v", "-f"}      # what the installed awk (mawk) has in common with gawk
EXECUTABLE = ["awk", "cat", "comm", "cut", "diff", "grep", "head", "mkfifo", "mv", "rm", "sed", "seq", "sort", "tail", "tee", "tr", "uniq", "wc", "xargs"]


def usable(cmd):
    out = []
    for names, kind in SPECS[cmd].rows:
        if cmd == "awk":
            if names[0] in AWK_ITEMS: out.append((names[:1], kind))
        elif not set(names) & (ITEM_BAN.get(cmd) or set()):
            if not (cmd == "xargs" and names[0] == "-P"): out.append((names, kind))
    return out


def arg(kind):
    return st.sampled_from(EXEC_ARGS[kind])


@st.composite
def files(draw):
    out = dict(FIXED)
    for n in draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=2, max_size=6)):
        out[n] = draw(TEXT)
    for n in ("in.txt", "a.txt"):
        if n not in out: out[n] = draw(TEXT)
    return out


@st.composite
def command(draw, cmds, max_items=4, max_operands=3, odd=False, info=True):
    cmd = draw(st.sampled_from(cmds))
    spec = SPECS[cmd]
    rows = [r for r in usable(cmd) if info or r[0][-1] not in ("--help", "--version")]
    items = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, max_items]))):
        names, kind = draw(st.sampled_from(rows))
        name = draw(st.sampled_from(list(names)))
        if kind is None:
            shorts = [n[1] for r, k in rows if k is None for n in r if len(n) == 2]
            if len(name) == 2 and draw(st.integers(0, 3)) == 0:
                items.append(["c", spec.make_cluster([name[1]] + draw(st.lists(st.sampled_from(shorts), max_size=2)))])
            else:
                items.append(["f", name])
        else:
            items.append([draw(st.sampled_from(["o", "e"])) if name.startswith("--") else "o", name, draw(arg(kind))])
    fs = draw(files())
    have = sorted(n for n in fs if "." in n or "/" in n or len(n) < 4)
    file_op = st.one_of(st.sampled_from(have), st.sampled_from(have), st.sampled_from(["in.txt", "a.txt", "-", "dir", "missing", "out.txt"]))
    if cmd in ("mkfifo",): file_op = st.sampled_from(["p1", "p2", "in.txt"])
    if cmd == "seq": file_op = st.sampled_from(POOLS["seq"])
    if cmd == "tr": file_op = st.sampled_from(POOLS["tr"])
    ops = draw(st.lists(file_op, max_size=max_operands))
    pool = POOLS.get(cmd)
    if cmd == "seq": ops = ops or ["3"]
    elif cmd == "tr": ops = ops[:2] or [draw(st.sampled_from(pool))]
    elif cmd in ("comm", "diff", "mv") and draw(st.integers(0, 4)): ops = [draw(file_op), draw(file_op)]
    elif pool:
        script = not any(it[0] in ("o", "e") and spec.ident(it[1]) in ("-e", "-f") for it in items)
        if script or draw(st.integers(0, 9)) == 0: ops = [draw(st.sampled_from(pool))] + ops
        if cmd == "xargs": ops = ops[:1] + draw(st.lists(st.sampled_from(["-n", "x", "X", "ab"]), max_size=2)) if draw(st.integers(0, 3)) else []
    while not odd and not gen.ends_options(spec, ops):
        ops = ops[1:]
    if odd and draw(st.integers(0, 3)) == 0:        # words with dashes as or between operands
        names, kind = draw(st.sampled_from(rows))
        name = draw(st.sampled_from(list(names)))
        words = [["--"]] * 3
        words.append([name] if kind is None else [name, draw(arg(kind))])
        if len(name) == 2 and kind: words.append([name + draw(arg(kind))])
        if name.startswith("--"): words.append([name[:-1]] if kind is None else [name[:-1] + "=" + draw(arg(kind))])
        k = draw(st.sampled_from([0, 0, len(ops), draw(st.integers(0, len(ops)))]))
        ops[k:k] = draw(st.sampled_from(words)) + draw(st.sampled_from([[], [], ["-n"], ["-x"], ["--"], ["-"]]))
    return dict(cmd=cmd, items=items, operands=ops, files=fs, stdin=draw(TEXT))


def encode(fs):
    return {n: t if t is None else t.encode() for n, t in fs.items()}




def recursive(argv):
    return any(re.match(r"-\w*[rRd]|--recursive|--dereference-recursive|--directories", w) for w in argv[1:])


def normal(out, argv):
    """output without what is not determined by command line and files"""
    if argv[0] == "diff":
        out = re.sub(rb"(?m)^diff '?-.*( \S+ \S+)$", rb"diff\1", out)     # comparing directories, diff prints the options as given
        out = re.sub(rb"(?m)^(---|\+\+\+|\*\*\*) (.*)\t.*$", rb"\1 \2", out)     # time of standard input
    if argv[0] == "grep" and recursive(argv):
        out = b"\n".join(sorted(out.split(b"\n")))      # order of directory entries
    return out
