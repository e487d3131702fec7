"""C17: the command-line tool reports what the library computes, overwriting no file."""
import os, re, runpy, shutil, sys
from hypothesis import strategies as st
from core import REPO, Skip, Sub, Violation, expect, same
import children, execu, gen, lib, paraview
from gnu import ANNOTATED_IO, ANNOTATED_PARA, TABLE

PROPERTY, LEVEL = "C17", "exploration"
RULE = ("report: a generated command line (known, unknown, odd words, any quoting), the tool run in a forked child, its report compared with what the library "
        "computes. save: additionally a path to save to (new, existing file, empty file, directory, dangling link, link to a file or directory, unwritable "
        "file, missing directory, fifo, with a slash at the end; absolute or relative, any working directory, odd names); saved report, printed report and the whole file system before "
        "and after are compared. process: the same with the tool as a process of its own, started as module or as script. shown: a command line and up to four which differ in a few words; every part is printed, in order, and where parses or annotations differ, their printed forms differ. Non-trivial: the tool gave a report or had to refuse.")
ASSUMPTIONS = ["text of values is their str; for different parts to be shown differently, texts without blanks, commas and brackets", "the caller may write to the directory except where stated", "a valid, non-empty shell command line"]


def prepare(seed, tier):
    children.setup()


def finish():
    children.teardown()


def expected_parts(text):
    inv = lib.parse(text)
    io, para = lib.io_info(inv), lib.para_info(inv)
    if io is None: shown, kind = "Information not provided so considered side-effectful.", "no io"
    elif io.has_other_outputs(): shown, kind = "Provided command has outputs other than streaming.", "other outputs"
    else: shown, kind = str(io.apply_input_output_info_to_command_invocation(inv)), "io"
    p = para if para is not None else lib.ParallelizabilityInfo()
    return [text, str(inv), shown, str(p)], [kind, "para" if para is not None and para.parallelizer_list else "no para"]


ADDR = re.compile(r"0x[0-9a-f]{6,}")
HEADS = [">>> READ COMMAND INVOCATION", ">>> PARSED COMMAND INVOCATION", ">>> INPUT-OUTPUT INFORMATION", ">>> PARALLELIZABILITY INFORMATION"]


def check_report(report, text):
    """the report consists of the four parts, each under its heading, and of nothing else"""
    parts, labels = expected_parts(text)
    got, pos = ADDR.sub("0x", report), 0
    for head, part in zip(HEADS, parts):
        part = ADDR.sub("0x", part)
        expect(got[pos:].lstrip("\n").startswith(head), "report of %r: %r is not where expected in\n%s", text, head, got)
        pos = got.index(head, pos) + len(head)
        end = got.find("\n", pos)
        expect(end >= 0 and got[end + 1:].startswith(part), "report of %r: expected after %r\n%s\nbut the report is\n%s", text, head, part, got)
        pos = end + 1 + len(part)
    expect(got[pos:].strip("\n") == "", "report of %r has more at its end: %r", text, got[pos:])
    return labels


def cli():
    runpy.run_module("pash_annotations.annotation_cli", run_name="__main__", alter_sys=True)


def args_of(case, path=None):
    text = case["text"]
    args = ["--command_invocation=" + text] if case["eq"] or text.startswith("-") else ["--command_invocation", text]
    if path is not None:
        save = ["--save_to=" + path] if case["eq"] or path.startswith("-") else ["--save_to", path]
        args = save + args if case["eq"] else args + save
    return args


def run(case, args, cwd, top):
    if case.get("how", "fork") == "fork":
        return children.forked(["annotation_cli.py"] + args, cwd, cli, top)
    env = dict(PATH="/usr/bin:/bin", PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
    script = ["-m", "pash_annotations.annotation_cli"] if case["how"] == "module" else [os.path.join(REPO, "pash_annotations", "annotation_cli.py")]
    return children.spawned([sys.executable] + script + args, cwd, env)


def usable(text):
    """encodable, and a valid command line"""
    if "\0" in text: raise Skip()
    try:
        text.encode()
        if not lib.parse(text).cmd_name: return
    except (ValueError, IndexError):
        raise Skip()


# ------------------------------------------------------------------------------------------------------------- what the report shows

def views(text):
    """what the sections of the report are about: parse, input/output annotation, parallelizability"""
    inv = lib.parse(text)
    io, para = lib.io_info(inv), lib.para_info(inv)
    io = None if io is None else "other outputs" if io.has_other_outputs() else lib.io_view(io.apply_input_output_info_to_command_invocation(inv))
    if para is not None:
        # neither what is passed between the parts nor what a transformer does is shown
        para = [paraview.parallelizer_view(p)[:4] for p in para.parallelizer_list], bool(para.round_robin_compatible_with_cat), bool(para.is_commutative)
    return [lib.parsed(inv), io, para if para is not None else ([], False, False)]


def in_order(shown, texts):
    pos = 0
    for t in texts:
        i = shown.find(t, pos)
        if i < 0: return False
        pos = i + len(t)
    return True


def check_shown(case):
    """every part is shown, so what differs in a command or its annotation differs in the report"""
    seen = []
    for words in case["lines"]:
        text = gen.render(words, [0])
        usable(text)
        seen.append((text, views(text), [ADDR.sub("0x", p) for p in expected_parts(text)[0]][1:]))
    labels = set()
    for text, v, parts in seen:
        name, fos, ops = v[0]
        expect(in_order(parts[0], [name] + [t for f in fos for t in f] + list(ops)), "the printed parse of %r does not show all its parts in order:\n%s", text, parts[0])
        if isinstance(v[1], dict):
            expect(in_order(parts[1], [name] + [t for f in fos for t in ((f[0],) if len(f) == 1 or f[1] == "-" else f)] + [o for o in ops if o != "-"]),
                   "the printed input/output annotation of %r does not show all its parts in order:\n%s", text, parts[1])
    for i, (a, va, pa) in enumerate(seen):
        for b, vb, pb in seen[:i]:
            for what, x, y, p, q in zip(("parse", "input/output annotation", "parallelizability"), va, vb, pa, pb):
                if x != y:
                    expect(p != q, "%s of %r and of %r is shown the same, but is %r and %r:\n%s", what, a, b, x, y, p)
                    labels.add("different " + what)
    return sorted(labels)


@st.composite
def alike(draw):
    """a command line and some which differ in a few words; texts that are shown without being confused with their surroundings"""
    cmds = sorted(set(ANNOTATED_IO) | set(ANNOTATED_PARA))
    case = draw(gen.invocation(cmds, max_items=4, max_operands=4, wild=False))
    simple = lambda w: w if re.fullmatch(r"[-\w./+=]+", w, re.A) else "w%d" % len(w)
    base = [simple(w) for w in gen.words_of(case)]
    lines = [base]
    names = [n for row in TABLE.get(case["cmd"], []) for n in row[0]] or ["-a", "-n"]
    for _ in range(draw(st.integers(1, 4))):
        new = list(draw(st.sampled_from(lines)))
        k, j = draw(st.integers(0, 4)), draw(st.integers(1, max(1, len(new) - 1)))
        w = draw(st.sampled_from(names + ["-", "a.txt", "b.txt", "-1", "x", "a", "None", "0"]))
        if k == 0: new.insert(min(j, len(new)), w)
        elif k == 1 and len(new) > 1: new[j:j + 1] = []
        elif k == 2 and len(new) > 1: new[j:j + 1] = [w]
        elif k == 3 and len(new) > 2: new[j], new[1] = new[1], new[j]
        else: new.append(w)
        lines.append(new)
    return dict(lines=lines)


NAMES = ["new.txt", "a b", "-x", "x=y", "\u00e9", "out", ".hidden", "n\nl", "~", "~root", "$HOME", "${x}", " x", "x ", "x\n", "%s", "*", "{}", "a\\b", "'x'", "x.json", "NEW.TXT", "e\u0301", "x" * 200, "..x", "x.", "@x", "None"]
KINDS = ["new", "file", "empty", "dir", "dangling", "link", "dirlink", "readonly", "missing", "nodir", "fifo", "selflink", "notmine", "slash", "dirslash", "fileslash"]


def check(case):
    text = case["text"]
    usable(text)
    top = children.scratch()
    try:
        work = os.path.join(top, "work"); os.mkdir(work); children.give(work)
        sub = os.path.join(work, "sub"); os.mkdir(sub); children.give(sub)
        if case.get("kind") is None:
            before = execu.snapshot(work)
            code, out, err = run(case, args_of(case), work, top)
            same(code, 0, "exit status for %r (%s)" % (text, err.decode(errors="replace")[-500:]))
            labels = check_report(out.decode(), text)
            same(execu.snapshot(work), before, "files after a run without --save_to")
            return labels
        kind, cwd = case["kind"], sub if case["sub"] else work
        name = case["name"]
        d = os.path.join(cwd, "missing") if kind == "missing" else os.path.join(cwd, "f") if kind == "nodir" else cwd
        target = os.path.join(d, name)
        content = case["content"].encode()
        if kind in ("file", "readonly", "fileslash"):
            with open(target, "wb") as f: f.write(content)
            children.give(target)
            if kind == "readonly": os.chmod(target, 0o444)
        elif kind == "empty":
            open(target, "wb").close(); children.give(target)
        elif kind == "nodir":
            with open(d, "wb") as f: f.write(content)
            children.give(d)
        elif kind in ("dir", "dirslash"): os.mkdir(target); children.give(target)
        elif kind == "dangling": os.symlink("nowhere", target)
        elif kind == "selflink": os.symlink(name, target)
        elif kind == "link":
            with open(os.path.join(cwd, "real"), "wb") as f: f.write(content)
            children.give(os.path.join(cwd, "real"))
            os.symlink("real", target)
        elif kind == "dirlink": os.symlink(".", target)
        elif kind == "fifo": os.mkfifo(target); children.give(target)
        elif kind == "notmine": os.chmod(cwd, 0o555)
        path = target if case["abs"] else os.path.relpath(target, cwd)
        if not case["abs"] and case["dots"]: path = os.path.join(".", path)
        if kind.endswith("slash"): path += "/"
        before = execu.snapshot(work)
        code, out, err = run(case, args_of(case, path), cwd, top)
        after = execu.snapshot(work)
        key = os.path.relpath(target, work)
        what = "--save_to %r (%s) of %r" % (path, kind, text)
        labels = ["save:" + kind]
        if kind == "new":
            same(code, 0, "exit status for " + what + err.decode(errors="replace")[-500:])
            saved = after.pop(key, None)
            same(after, before, "other files after " + what)
            expect(saved is not None and saved[0] == "file", "no file was written by %s", what)
            check_report(saved[1].decode(), text)
            code, out, err = run(case, args_of(case), cwd, top)
            same(ADDR.sub("0x", out.decode().rstrip("\n")), ADDR.sub("0x", saved[1].decode().rstrip("\n")), "printed and saved report of %r" % text)
        else:
            same(after, before, "files after " + what)
            if kind not in ("missing", "nodir", "notmine", "slash", "fileslash"):
                same(code, 0, "exit status for " + what + err.decode(errors="replace")[-500:])
                shown = out.decode()
                start = shown.find(HEADS[0])
                expect(start >= 0, "no report is printed for %s: %r", what, shown)
                check_report(shown[start:], text)
            elif os.getuid() != 0 or kind != "notmine":
                expect(code != 0 or HEADS[0] in out.decode(), "%s is impossible, but there is neither an error nor a report", what)
        return labels
    finally:
        shutil.rmtree(top, ignore_errors=True)


@st.composite
def line(draw):
    k = draw(st.integers(0, 5))
    both = sorted(set(ANNOTATED_IO) | set(ANNOTATED_PARA))
    if k < 4: case = draw(gen.invocation(both, max_items=3, max_operands=3))
    else: case = draw(gen.command(max_items=3))
    if k == 5: case = dict(case, cmd=draw(st.sampled_from(["unknown", "./cat", "d\u00e9j\u00e0", "a b", "-c", "_default_data_for_commands"])))
    return gen.render(gen.words_of(case), draw(gen.STYLES))


def cases(save, how=("fork",)):
    d = dict(text=line(), eq=st.booleans(), how=st.sampled_from(how))
    if save:
        d.update(kind=st.sampled_from(KINDS + ["new", "new", "file"]), name=st.sampled_from(NAMES), content=st.text(max_size=5), abs=st.booleans(), sub=st.booleans(), dots=st.booleans())
    return st.fixed_dictionaries(d)


def regress():
    return [dict(text=t, eq=e, how=h, kind=k, name="new.txt", content="old", abs=a, sub=s, dots=False)
            for h in ("module", "script") for k, a, s, e in (("new", False, True, False), ("file", True, False, True), ("dangling", False, True, True))
            for t in ("sort -r a.txt", "unknown x")] + \
           [dict(text=t, eq=False, how=h) for h in ("module", "script") for t in ("cat", "rm -f a", "grep -c x a b", "tee a")]


def regress_save():
    return [dict(text="cut -f 1 a.txt", eq=False, how="fork", kind=k, name=n, content=c, abs=a, sub=s, dots=a == s)
            for k in KINDS for a in (False, True) for s in (False, True) for n in NAMES for c in ("old",)]


def subs():
    return [Sub("report", lambda: cases(False), check, 2500, 40000), Sub("save", lambda: cases(True), check, 1500, 30000, regress=regress_save),
            Sub("shown", alike, check_shown, 4000, 60000),
            Sub("process", lambda: cases(True, ("module", "script")), check, 60, 1500, regress=regress)]
