"""C05: input/output annotations are sound for what the command really does."""
from hypothesis import strategies as st
from core import Sub, Violation, expect, same
import cmds, execu, gen, lib
from checks import c06
from gnu import SPECS

PROPERTY, LEVEL = "C05", "exploration"
RULE = ("run: a generated command line over generated files and standard input with an annotation without other outputs, executed successfully; then "
        "executed again with other and with empty standard input (if its use is not annotated), and with every file that is not annotated changed, "
        "emptied and deleted; compared: standard output, exit status, written files. guided: all sets "
        "of three flags and options, and longer generated command lines; those annotated otherwise than documented are executed like this, with all kinds of "
        "operands. Non-trivial: annotated and successful, or as documented.")
ASSUMPTIONS = ["the installed versions of the commands (GNU; awk is mawk)", "C locale", "a file inside of an annotated directory counts as annotated",
               "sed, awk: scripts which read or write files are outside of what the annotations describe; xargs: only with echo",
               "invocations which only ask for help or the version are excluded", "reading of standard input is observed as a moved file offset or as influence of its contents on the results"]
CMDS = ["awk", "cat", "comm", "cut", "diff", "grep", "head", "sed", "seq", "sort", "tail", "tee", "tr", "uniq", "wc", "xargs", "mv", "rm", "mkfifo"]
prepare = execu.setup


def finish():
    execu.teardown()


def declared(case, inv, with_io):
    """(reads, writes, stdin, stdout, stream inputs, stream outputs, container)"""
    v = lib.io_view(with_io)
    args = [f[1] for f in v["flagoptions"] if len(f) == 2] + v["operands"]
    reads = {t for r, t in args if r in ("cfg", "sin", "oin", "container", "excludes") and isinstance(t, str)}
    writes = {t for r, t in args if r in ("sout", "oout") and isinstance(t, str)}
    stdin = v["stdin"] is not None or any(r in ("cfg", "sin", "oin", "container", "excludes") and t == 0 for r, t in args)
    stdout = v["stdout"] is not None or any(r in ("sout", "oout") and t == 1 for r, t in args)
    sin = [t for r, t in args if r == "sin" and isinstance(t, str)]
    sout = [t for r, t in args if r == "sout" and isinstance(t, str)]
    return reads, writes, stdin, stdout, sin, sout, any(r == "container" for r, _ in args)


def covered(path, names):
    parts = path.split("/")
    return any("/".join(parts[:k]) in {n.rstrip("/") for n in names} for k in range(1, len(parts) + 1))


def check(case):
    words = gen.words_of(case)
    if case["cmd"] == "xargs" and case["operands"][:1] not in ([], ["echo"]):
        return None
    if {f[0] for f in gen.expected(SPECS[case["cmd"]], case["items"])} & {"--help", "--version", "-V", "-h" if case["cmd"] == "awk" else "", "-v" if case["cmd"] == "diff" else ""}:
        return None
    text = gen.render(words, [0])
    inv = lib.parse(text)
    info = lib.io_info(inv)
    if info is None or info.has_other_outputs():
        return None
    reads, writes, stdin, stdout, sin, sout, container = declared(case, inv, info.apply_input_output_info_to_command_invocation(inv))
    fs, data = cmds.encode(case["files"]), case["stdin"].encode()
    base = execu.run(words, fs, data)
    if base.code not in ((0, 1) if case["cmd"] in ("grep", "diff") or b"not in sorted order" in base.err else (0,)):
        return None
    what = "%r (annotated: reads %r, writes %r, stdin %r, stdout %r)" % (words, sorted(reads), sorted(writes), stdin, stdout)
    labels = {"cmd:" + case["cmd"]}

    def outcome(r):
        return (r.code, cmds.normal(r.out, words), {n: r.files.get(n) for n in sorted(r.files) if covered(n, writes)})
    # output
    expect(stdout or base.out == b"", "%s prints %r", what, base.out[:200])
    odd = sorted(n for n in base.changed if not covered(n, writes))
    expect(not odd, "%s changes %r", what, odd)
    # input
    if not stdin:
        expect(base.offset == 0, "%s reads %d bytes of standard input", what, base.offset)
        for other in (b"", b"q\n" + data + b"\nb\t1\n"):
            if other != data:
                r = execu.run(words, fs, other)
                same(outcome(r), outcome(base), "%s: result with standard input %r instead of %r" % (what, other, data))
        labels.add("no stdin")
    if not container:
        others = sorted(n for n in fs if not covered(n, reads) and not covered(n, writes))
        if others:
            changed = dict(fs, **{n: b"q z\n" + fs[n] + b"\n1\n" for n in others})
            empty = dict(fs, **{n: b"" for n in others})
            gone = {n: d for n, d in fs.items() if n not in others}
            for how, fs2 in (("changed", changed), ("emptied", empty), ("deleted", gone)):
                # a directory which is annotated stays
                for n in reads | writes:
                    if any(m.startswith(n + "/") for m in fs) and not any(m.startswith(n + "/") or m == n for m in fs2):
                        fs2[n] = None
                r = execu.run(words, fs2, data)
                same(outcome(r), outcome(base), "%s: result with the files %r %s" % (what, others, how))
            labels.add("other files")
    # files annotated as streams are streams of the command
    for n in sout:
        expect(n in base.files, "%s succeeds, but there is no %r afterwards", what, n)
        labels.add("stream output")
    if must_exist(case, words):
        for n in sin:
            expect(n in fs or any(m.startswith(n + "/") for m in fs), "%s succeeds without the stream input %r", what, n)
            labels.add("stream input")
    return sorted(labels)


def must_exist(case, words):
    """whether the command fails if an input file does not exist"""
    idents = {f[0] for f in gen.expected(SPECS[case["cmd"]], case["items"])}
    if case["cmd"] == "grep": return not idents & {"-q", "-m", "--exclude", "--include", "--exclude-from", "--exclude-dir", "-l", "-L"}
    if case["cmd"] == "diff": return case["operands"] and not idents & {"-N", "--unidirectional-new-file", "-x", "-X"}
    if case["cmd"] == "sed": return all(o not in ("q", "2q") for o in case["operands"]) and not any(it[-1] in ("q", "2q") for it in case["items"])
    if case["cmd"] == "awk": return not any("BEGIN" in w for w in words)
    if case["cmd"] in ("head", "tail"): return not any(it[-1] == "0" for it in case["items"])
    return case["cmd"] in ("cat", "cut", "sort", "comm", "wc", "uniq")


FS = dict(cmds.FIXED, **{"in.txt": "b a\na,1\n\na b c\nA 10\na,1\n", "a.txt": "a\nb\nb\n", "b.txt": "a\nc\n", "f.txt": "z\n", "dir/x": "a\nx\n", "dir/b.txt": "a\n", "d2/x": "1\n"})
OPS = {"comm": [["a.txt", "b.txt"], ["-", "a.txt"]], "diff": [["a.txt", "b.txt"], ["dir", "d2"], ["-", "a.txt"], ["a.txt", "-"], ["b.txt", "dir"], ["a.txt"]],
       "grep": [["a"], ["a", "in.txt"], ["a", "dir"], ["a", "in.txt", "-"], []], "sed": [["s/a/b/", "in.txt"], ["in.txt"], ["s/a/b/"], ["s/a/b/", "-"], []],
       "awk": [["{print $1}", "in.txt"], ["in.txt"], ["{print $1}"], [], ["{print}", "-", "in.txt"]], "tr": [["a", "b"], ["a"]], "mkfifo": [["p1"]],
       "mv": [["in.txt", "new"], ["in.txt", "dir"]], "rm": [["in.txt"], ["dir"]], "seq": [["1", "4"]], "tee": [["out.txt"], ["out.txt", "in.txt"], []],
       "xargs": [["echo"], ["echo", "X", "y"], []], "uniq": [["in.txt"], ["a.txt", "out.txt"], ["-", "out.txt"], [], ["a.txt", "-"], ["-"]]}


def regress():
    """every flag and option with every kind of operands, and every pair of flags and options"""
    out = []
    for cmd in CMDS:
        spec = SPECS[cmd]
        for names, kind in [(None, None)] + cmds.usable(cmd):
            for a in (cmds.EXEC_ARGS[kind] if kind else [None]):
                for o in OPS.get(cmd, [["in.txt"], ["a.txt", "in.txt"], [], ["-"], ["in.txt", "-"]]):
                    if gen.ends_options(spec, o):
                        it = [] if names is None else [["f", names[0]]] if a is None else [["o", names[0], a]]
                        out.append(dict(cmd=cmd, items=it, operands=o, files=FS, stdin="a\n1 2\nb\n"))
        rows = cmds.usable(cmd)
        for i, a in enumerate(rows):
            for j, b in enumerate(rows[i:], i):
                if j == i and a[1] is None: continue
                n = len(out)
                it = [["f", names[0]] if kind is None else ["o", names[0], cmds.EXEC_ARGS[kind][(n + d) % len(cmds.EXEC_ARGS[kind])]] for d, (names, kind) in enumerate((a, b))]
                pool = [o for o in OPS.get(cmd, [["in.txt"], ["a.txt", "in.txt"], [], ["-"], ["in.txt", "-"]]) if gen.ends_options(spec, o)]
                scripts = {a[0][0], b[0][0]} & {"-e", "-f"} if cmd in ("grep", "sed", "awk") else ()
                for o in pool if scripts else [pool[n % len(pool)]]:
                    out.append(dict(cmd=cmd, items=it, operands=o, files=FS, stdin="a\n1 2\nb\n"))
    return out


# ---- guided: cheap comparison first, executed if it finds something

executed = 0
MOST = 60       # cases executed per process


def check_guided(case):
    """the annotation is compared with the documented one; if they differ, execution decides, with all kinds of operands and several inputs"""
    global executed
    lists = [o for o in OPS.get(case["cmd"], OTHER) if gen.ends_options(SPECS[case["cmd"]], o)]
    try:
        return c06.check_lists(case, lists) and ["as documented"]
    except Violation:
        pass
    executed += 1
    if executed > MOST:
        return None
    for operands in lists:
        for stdin in ("a\n1 2\nb\n", "b\n\na 1\na 1\n"):
            try:
                check(dict(case, operands=operands, files=FS, stdin=stdin))
            except Violation:
                executed = -10 ** 9      # being shrunk: no limit any more
                raise
    return ["executed"]


OTHER = [["in.txt"], ["a.txt", "in.txt"], [], ["-"], ["in.txt", "-"]]


def guided():
    return gen.triples(CMDS, None, cmds.usable, cmds.EXEC_ARGS)


def some():
    return cmds.command(CMDS, max_items=8).map(lambda c: dict(cmd=c["cmd"], items=c["items"]))


def subs():
    return [Sub("run", cmds.command(CMDS), check, 2400, 60000, executes=True, regress=regress), Sub("guided", some, check_guided, 6000, 60000, regress=guided)]
