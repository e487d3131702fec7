"""C03: a command rebuilt from its parsed form behaves like the original command."""
import itertools
from core import Sub, Violation, expect, same
import cmds, execu, gen, lib

PROPERTY, LEVEL = "C03", "exploration"
RULE = ("run: a generated command line over generated files and standard input, executed as it is and rebuilt from its parse, in separate scratch "
        "directories with equal contents; compared: standard output, exit status, files afterwards. guided: all sets of three flags and options and clusters; those parsed otherwise than "
        "documented are executed like this. Non-trivial: the rebuilt command line differs from "
        "the original one and the original execution succeeds (exit status 0, or 1 for grep, diff and cmp-like commands), or differs and is parsed as documented.")
ASSUMPTIONS = ["the installed versions of the commands (GNU; awk is mawk, so only the options it shares with gawk)", "C locale",
               "options which make a command wait, use a terminal, or behave randomly are excluded"]
prepare, teardown = execu.setup, execu.teardown


def finish():
    execu.teardown()


def rebuild(inv):
    words = [inv.cmd_name]
    for f in inv.flag_option_list:
        words += list(lib.flagoption(f))
    return words + [o.get_name() for o in inv.operand_list]


def view(r, argv):
    return dict(code=r.code, out=cmds.normal(r.out, argv), files=r.files)


def check(case):
    words = gen.words_of(case)
    text = gen.render(words, [0])
    again = rebuild(lib.parse(text))
    if again == words:
        return None
    fs, stdin = cmds.encode(case["files"]), case["stdin"].encode()
    a = execu.run(words, fs, stdin)
    b = execu.run(again, fs, stdin)
    va, vb = view(a, words + again), view(b, words + again)
    if va != vb:
        raise Violation("%r\nrebuilt as %r behaves differently:\n   original %r\n   rebuilt  %r\n   errors %r / %r" % (
            words, again, {k: va[k] for k in va if va[k] != vb[k]}, {k: vb[k] for k in va if va[k] != vb[k]}, a.err, b.err))
    if a.code not in ((0, 1) if case["cmd"] in ("grep", "diff", "comm") else (0,)):
        return None
    return ["cmd:" + case["cmd"]]


FS = dict(cmds.FIXED, **{"in.txt": "b a\na,1\n\na b c\nA 10\na,1\n", "a.txt": "a\nb\nb\n", "b.txt": "a\nc\n", "f.txt": "z\n", "dir/x": "a\nx\n", "d2/x": "1\n"})
OPS = {"comm": [["a.txt", "b.txt"]], "diff": [["a.txt", "b.txt"], ["dir", "d2"]], "grep": [["a"], ["a", "in.txt"], ["a", "dir"]], "sed": [["s/a/b/", "in.txt"], ["in.txt"]],
       "awk": [["{print $1}", "in.txt"], ["in.txt"]], "tr": [["a", "b"], ["a"]], "mkfifo": [["p1"]], "mv": [["in.txt", "new"], ["in.txt", "a.txt"]], "rm": [["in.txt"], ["dir"]],
       "seq": [["1", "4"]], "tee": [["out.txt"]], "xargs": [["echo"], ["echo", "X", "y"]], "uniq": [["in.txt"], ["a.txt", "out.txt"]]}


def regress():
    """every name of every flag and option, with every argument of its kind"""
    fs = FS
    ops = OPS
    out = []
    for cmd in cmds.EXECUTABLE:
        for names, kind in cmds.usable(cmd):        # after the last flag
            it = ["f", names[-1]] if kind is None else ["o", names[-1], cmds.EXEC_ARGS[kind][0]]
            for o in ops.get(cmd, [["in.txt"]]):
                for before, after in ((["--"], []), (["--", "-x"], []), (["--", "-n"], []), ([], ["--", "in.txt"])):
                    out.append(dict(cmd=cmd, items=[it], operands=before + o + after, files=fs, stdin="a\n1 2\nb\n"))
        for names, kind in cmds.usable(cmd):
            for n in names:
                for a in (cmds.EXEC_ARGS[kind] if kind else [None]):
                    for o in ops.get(cmd, [["in.txt"], ["a.txt", "in.txt"], []]):
                        for it in ([["f", n]] if a is None else [["o", n, a], ["e", n, a]] if n.startswith("--") else [["o", n, a]]):
                            if gen.ends_options(cmds.SPECS[cmd], o):
                                out.append(dict(cmd=cmd, items=[it], operands=o, files=fs, stdin="a\n1 2\nb\n"))
        for names, kind in cmds.usable(cmd):        # an option given twice
            if kind is None: continue
            for a, b in ((0, 1), (1, 0), (0, 0)):
                pool = cmds.EXEC_ARGS[kind]
                it = [["o", names[0], pool[a % len(pool)]], ["o" if not names[-1].startswith("--") else "e", names[-1], pool[b % len(pool)]]]
                o = ops.get(cmd, [["in.txt"]])[0]
                if a < len(pool): out.append(dict(cmd=cmd, items=it, operands=o if cmd not in ("sed", "grep", "awk") or names[0] not in ("-e", "-f") else ["in.txt"], files=fs, stdin="a\n1 2\nb\n"))
        shorts = [n[1] for names, kind in cmds.usable(cmd) if kind is None for n in names if len(n) == 2]
        for a in shorts:
            for b in shorts:
                if a != b:
                    out.append(dict(cmd=cmd, items=[["c", "-" + a + b]], operands=ops.get(cmd, [["in.txt"]])[0], files=fs, stdin="a\n1 2\nb\n"))
    return out


# ---- guided: cheap comparison first, executed if it finds something

executed = 0
MOST = 60       # cases executed per process


def check_guided(case):
    """the parse is compared with what the words mean; if they differ, execution decides, with several files and operands"""
    global executed
    spec = cmds.SPECS[case["cmd"]]
    words = gen.words_of(case)
    inv = lib.parse(gen.render(words, [0]))
    got = []
    for f in map(lib.flagoption, inv.flag_option_list): got += [(x,) for x in spec.flag_idents(f[0])] if len(f) == 1 else [(spec.ident(f[0]), f[1])]
    if got == gen.expected(spec, case["items"]) and [o.get_name() for o in inv.operand_list] == case["operands"] and inv.cmd_name == case["cmd"]:
        return ["as written"] if rebuild(inv) != words else None
    executed += 1
    if executed > MOST:
        return None
    for operands in [case["operands"]] + [o for o in OPS.get(case["cmd"], [["in.txt"], ["a.txt", "in.txt"], []]) if o != case["operands"] and gen.ends_options(spec, o)]:
        for stdin in ("a\n1 2\nb\n", "b\n\na 1\na 1\n"):
            try:
                check(dict(case, operands=operands, files=FS, stdin=stdin))
            except Violation:
                executed = -10 ** 9      # being shrunk: no limit any more
                raise
    return ["executed"]


def guided():
    lists = lambda c: OPS.get(c, [["in.txt"], ["a.txt", "in.txt"], []])
    out = gen.triples(cmds.EXECUTABLE, lists, cmds.usable, cmds.EXEC_ARGS)
    for cmd in cmds.EXECUTABLE:     # clusters of three, of four and of all
        spec = cmds.SPECS[cmd]
        shorts = [n[1] for names, kind in cmds.usable(cmd) if kind is None for n in names if len(n) == 2]
        for n, cs in enumerate(list(itertools.permutations(shorts[:12], 3)) + list(itertools.combinations(shorts, 3)) + [tuple(shorts), tuple(shorts[::-1]), tuple(shorts * 2)] + [(c,) * k for c in shorts for k in (2, 3, 5)]):
            out.append(dict(cmd=cmd, items=[["c", spec.make_cluster(list(cs))]] if cs else [], operands=lists(cmd)[n % len(lists(cmd))]))
    return [c for c in out if c["items"] and gen.ends_options(cmds.SPECS[c["cmd"]], c["operands"])]


def some():
    return cmds.command(cmds.EXECUTABLE, max_items=8).map(lambda c: dict(cmd=c["cmd"], items=c["items"], operands=c["operands"]))


def subs():
    return [Sub("run", cmds.command(cmds.EXECUTABLE, odd=True), check, 6000, 120000, executes=True, regress=regress), Sub("guided", some, check_guided, 6000, 60000, regress=guided)]
