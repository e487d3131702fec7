"""C18: tables generated from manual pages are valid and usable by the parser."""
import io, json, os, re, runpy, shutil, subprocess, sys
from hypothesis import strategies as st
from core import REPO, Skip, Sub, Violation, expect, same
import children, gen, gnu, lib

PROPERTY, LEVEL = "C18", "exploration"
RULE = ("patterns: option lines made of the documented patterns (flags, options with argument after a blank or an equal sign, optional arguments in brackets, "
        "repetitions, prose without options); the printed table compared with a model, then used by the parser (in a scratch copy of the library) for generated "
        "command lines, parses compared with a model of parsing. wild: arbitrary text; the table must be valid, its names from the input, each once and in order, "
        "and usable. tables: any valid table, also with synonyms and kinds of arguments, used by the parser. script: the shell script around it, with a stand-in "
        "for man which prints a generated page. Non-trivial: the table is not empty.")
ASSUMPTIONS = ["names which only differ in dashes are written only once (the generator takes them as repetitions)"]
FOLDER = os.path.join("pash_annotations", "parser", "command_flag_option_info")
SCRIPT = os.path.join(REPO, FOLDER, "args-to-json.py")


def prepare(seed, tier):
    children.setup()


def finish():
    children.teardown()


def generate(text):
    """what the generator prints for this text on standard input"""
    old = sys.stdin, sys.stdout, sys.argv
    out = io.StringIO()
    try:
        sys.stdin, sys.stdout, sys.argv = io.StringIO(text), out, [SCRIPT]
        runpy.run_path(SCRIPT, run_name="__main__")
    except SystemExit as e:
        expect(not e.code, "the generator fails for %r: %r", text, e.code)
    finally:
        sys.stdin, sys.stdout, sys.argv = old
    return out.getvalue()


def valid(printed, text):
    """the table, if it has the documented format and only has names of the input, each once, in order"""
    try:
        table = json.loads(printed)
    except ValueError:
        raise Violation("the generator prints no JSON for %r: %r" % (text, printed))
    expect(isinstance(table, dict) and set(table) >= {"flag", "option"}, "table for %r has the parts %r", text, list(table))
    strs = lambda l: isinstance(l, list) and all(isinstance(x, str) for x in l)
    for row in table["flag"]: expect(strs(row) and row, "flag entry %r for %r", row, text)
    for row in table["option"]: expect(strs(row) and len(row) >= 2, "option entry %r for %r", row, text)
    names = [n for row in table["flag"] for n in row] + [n for row in table["option"] for n in row[:-1]]
    expect(len(names) == len(set(names)), "names occur more than once in %r for %r", table, text)
    for n in names:
        expect(n.startswith("-") and n in re.sub(r"[\[\]]", "", text), "name %r is not from the text %r", n, text)
    for row in table["option"]:
        expect(row[-1] in re.sub(r"[\[\]]", "", text), "argument %r is not from the text %r", row[-1], text)
    return table


# ---------------------------------------------------------------------------------------------------------------- using tables

_server = {}
_count = 0


def ask(table_text, lines):
    global _count
    _count += 1
    if os.getpid() not in _server:
        copy = children.scratch()
        shutil.copytree(os.path.join(REPO, "pash_annotations"), os.path.join(copy, "pash_annotations"), ignore=shutil.ignore_patterns("__pycache__"))
        _server[os.getpid()] = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(children.__file__)), "tableserver.py"), copy],
                                                stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    p = _server[os.getpid()]
    # always another name: nothing may be remembered from another table
    p.stdin.write(json.dumps(dict(name="zz%d" % _count, table=table_text, lines=[("zz%d " % _count) + l for l in lines])) + "\n")
    p.stdin.flush()
    answer = p.stdout.readline()
    if not answer: raise RuntimeError("table server died")
    return json.loads(answer)


def spec_of(table):
    spec = gnu.Spec("zz")
    spec.rows = [(tuple(r), None) for r in table["flag"]] + [(tuple(r[:-1]), "X") for r in table["option"]]
    spec.flags = [r for r, a in spec.rows if a is None]
    spec.options = [(r, a) for r, a in spec.rows if a is not None]
    spec.row_of = {n: r for r, _ in spec.rows for n in r}
    spec.arg_of = {n: a for r, a in spec.rows for n in r}
    spec.flag_names = {n for r in spec.flags for n in r}
    spec.option_names = {n for r, _ in spec.options for n in r}
    spec.attached = table.get("flag_with_attached_argument", [])
    plain = spec.cluster
    spec.cluster = lambda w: None if any("-" + c in spec.attached for c in w[1:-1]) else plain(w)
    return spec


def check_use(printed, table, word_lists, text):
    """the parser treats flags and options as the table says"""
    spec = spec_of(table)
    # words which also stand for something else are left out by the model of clusters
    lines = [gen.render(ws, [0]) for ws in word_lists]
    for ws, got in zip(word_lists, ask(printed, lines)):
        expect(got[0] == "ok", "with the table %r (from %r), parsing %r fails: %s", table, text, ws, got[1])
        fos, ops = spec.classify(ws)
        got = got[1]
        same([tuple(f) for f in got[1]], fos, "flags and options of %r with the table %r" % (ws, table))
        same(got[2], ops, "operands of %r with the table %r" % (ws, table))


@st.composite
def words(draw, names):
    out = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.integers(0, 9))
        n = draw(st.sampled_from(names)) if names else "-a"
        if k < 4: out.append(n)
        elif k < 6: out.append(n + "=" + draw(gen.ARG))
        elif k < 7:
            shorts = [x[1] for x in names if len(x) == 2] or ["a"]
            out.append("-" + "".join(draw(st.lists(st.sampled_from(shorts), min_size=1, max_size=3))))
        else: out.append(draw(gen.ARG))
    return out


# ------------------------------------------------------------------------------------------------------------- documented patterns

LETTERS = "abcdefghijklmnopqrstuvwxyz"
long_name = st.sampled_from(["all", "number", "no-clobber", "squeeze-blank", "key", "output", "check", "x", "field-separator", "a-b-c", "help", "version"])
ARGS = ["FILE", "N", "KEYDEF", "WORD", "LIST", "ARG"]
TRAIL = ["", "", "", "", "  (ignored)", "     write to it, or not", " and so on", "  x FILE", "  1 FILE", "\t(default: N)"]
PROSE = ["", "words, commas,and=signs", "A=B", "FILE", "=", ", ", "like -q,-z", "see -x", "the same as -vE", ",-k", "(-j)", "A, B", "- x", "+x", "   ", "This option is ignored.", "with FILE, or standard input", "display this help and exit", "GNU coreutils", "a, b, c", "print N lines", "1, 2"]
BAD = ["-FILE", "--FILE", "-ARG", "--ARG", "-NUM", "--", "-"]


@st.composite
def line(draw):
    k = draw(st.integers(0, 11))
    if k == 0: return ["prose", draw(st.sampled_from(PROSE))]
    if k == 1: return ["bad", draw(st.sampled_from(BAD))]
    phrases = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 6, 9]))):
        how = draw(st.sampled_from(["flag", "flag", "flag", "blank", "equal", "optional"]))
        name = draw(st.one_of(st.sampled_from(LETTERS + LETTERS.upper()).map(lambda c: "-" + c), long_name.map(lambda n: "--" + n),
                              long_name.map(lambda n: "--" + n), long_name.map(lambda n: "-" + n)))
        phrases.append([how, name, draw(st.sampled_from(ARGS))])
    return ["options", phrases, draw(st.sampled_from(["", "       ", "  "])), draw(st.sampled_from(["", "  ", "\t"])), draw(st.sampled_from(TRAIL)) if phrases[-1][0] in ("flag", "blank") else ""]


def write(l):
    if l[0] != "options": return l[1]
    text = {"flag": "%s", "blank": "%s %s", "equal": "%s=%s", "optional": "%s[=%s]"}
    return l[2] + ", ".join(text[h] % ((n,) if h == "flag" else (n, a)) for h, n, a in l[1]) + l[4] + l[3]


def model(lines):
    seen, flags, options = set(), [], []
    for l in lines:
        if l[0] != "options": continue
        row, has_option = [], False
        for h, n, a in l[1]:
            if n in seen: continue
            seen.add(n)
            row.append([n] if h == "flag" else [n, a])
        if any(len(x) == 2 for x in row):
            flags += [x for x in row if len(x) == 1]
            options += [x for x in row if len(x) == 2]
        elif row: flags.append([x[0] for x in row])
    return dict(flag=flags, option=options)


@st.composite
def patterns(draw):
    lines, stripped = draw(st.lists(line(), max_size=7)), {}
    for l in lines:     # names which only differ in dashes: take the first spelling
        for p in l[1] if l[0] == "options" else []:
            p[1] = stripped.setdefault(p[1].replace("-", ""), p[1])
    table = model(lines)
    names = [n for r in table["flag"] for n in r] + [r[0] for r in table["option"]]
    return dict(lines=lines, uses=draw(st.lists(words(names), min_size=1, max_size=3)))


def check_patterns(case):
    text = "".join(write(l) + "\n" for l in case["lines"])
    printed = generate(text)
    table = valid(printed, text)
    want = model(case["lines"])
    same({k: table[k] for k in ("flag", "option")}, want, "table for %r" % text)
    check_use(printed, table, case["uses"], text)
    if not want["flag"] and not want["option"]: return None
    return ["option" if want["option"] else "flags only"] + (["synonyms"] if any(len(r) > 1 for r in want["flag"]) else [])


ANY = st.text(st.sampled_from("-abcXYZ =[],.19\t\"'\\{}\u00e9:"), max_size=25)
PIECE = st.one_of(st.sampled_from(["-a", "-b", "-A", "--all", "--b=N", "-c FILE", "--c[=N]", "-1", "-e script", "--e=<n>", "-d, --dd", "--no-x", "---x", "-a b", "-X=N", "-ab=N"]), ANY)


def check_wild(case):
    text = case["text"]
    printed = generate(text)
    table = valid(printed, text)
    order = [n for row in table["flag"] for n in row]
    for part in (order, [row[0] for row in table["option"]]):
        pos = [re.sub(r"[\[\]]", "", text).find(n) for n in part]
        expect(all(p >= 0 for p in pos), "names %r not in the text", part)
    names = order + [n for row in table["option"] for n in row[:-1]]
    check_use(printed, table, case["uses"] + [[n] for n in names] + [[n, "x"] for n in names], text)
    return ["wild"] if names else None


wild = st.tuples(st.lists(st.lists(PIECE, max_size=4).map(", ".join), max_size=5).map(lambda ls: "\n".join(ls) + "\n"),
                 st.lists(words(["-a", "-b", "--all", "--b", "-c", "-A"]), max_size=2)).map(lambda t: dict(text=t[0], uses=t[1]))


@st.composite
def tables(draw):
    pool = draw(st.lists(st.one_of(st.sampled_from(LETTERS + "ABC12345").map(lambda c: "-" + c), long_name.map(lambda n: "--" + n), st.sampled_from(["-ab", "-name", "--x1", "--a=b"])),
                         unique=True, max_size=draw(st.sampled_from([12, 12, 40]))))
    flags, options = [], []
    while pool:
        k = draw(st.integers(1, min(draw(st.sampled_from([3, 3, 8])), len(pool))))
        row, pool = pool[:k], pool[k:]
        if draw(st.booleans()): flags.append(row)
        else: options.append(row + [draw(st.sampled_from(["FILE", "N", ["FILE", "CONFIG_INPUT"], ["FILE", "STREAM_OUTPUT"]]))])
    table = dict(flag=flags, option=options)
    shorts = sorted(n for r in flags for n in r if len(n) == 2)
    if shorts and draw(st.integers(0, 2)) == 0:
        table["flag_with_attached_argument"] = draw(st.lists(st.sampled_from(shorts), unique=True, max_size=2))
    names = [n for r in flags for n in r] + [n for r in options for n in r[:-1]]
    return dict(table=table, uses=draw(st.lists(words(names), min_size=1, max_size=4)))


def check_tables(case):
    check_use(json.dumps(case["table"]), case["table"], case["uses"], "")
    return ["%d rows" % min(5, len(case["table"]["flag"]) + len(case["table"]["option"]))] if any(case["uses"]) else None


# -------------------------------------------------------------------------------------------------------------------- shell script

def check_script(case):
    """manpage-to-json.sh with a stand-in for man: option lines are those indented by seven blanks which start with a dash"""
    top = children.scratch()
    try:
        for f in ("args-to-json.py", "manpage-to-json.sh"):
            shutil.copy(os.path.join(REPO, FOLDER, f), top)
        bindir = os.path.join(top, "bin"); os.mkdir(bindir)
        page, used = [], []
        for l, indent in zip(case["lines"], case["indents"]):
            body = write(l).strip()
            page.append("       " + body if indent == 0 else " " * indent + body)
            if indent == 0 and body.startswith("-"): used.append(l)
        with open(os.path.join(top, "page"), "w") as f: f.write("NAME\n" + "".join(p + "\n" for p in page))
        man = os.path.join(bindir, "man")
        with open(man, "w") as f: f.write('#!/bin/sh\n[ "$1" = mycmd ] && cat "%s/page"\n' % top)
        os.chmod(man, 0o755)
        os.symlink(sys.executable, os.path.join(bindir, "python3"))
        code, out, err = children.spawned(["/bin/bash", "manpage-to-json.sh", "mycmd"], top, dict(PATH=bindir + ":/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8"))
        same(code, 0, "exit status of manpage-to-json.sh: %s" % err.decode(errors="replace")[-500:])
        table = valid(out.decode(), "\n".join(page))
        want = model(used)
        same({k: table[k] for k in ("flag", "option")}, want, "table for the page %r" % page)
        return ["script"] if want["flag"] or want["option"] else None
    finally:
        shutil.rmtree(top, ignore_errors=True)


@st.composite
def script_cases(draw):
    lines, stripped = draw(st.lists(line(), max_size=7)), {}
    indents = [draw(st.sampled_from([0, 0, 0, 14])) for _ in lines]
    for l in lines:
        for p in l[1] if l[0] == "options" else []:
            p[1] = stripped.setdefault(p[1].replace("-", ""), p[1])
    return dict(lines=lines, indents=indents)


def big():
    """many lines, many phrases in one line, long names, all letters"""
    out = []
    for n in (9, 33, 65, 129, 201, 257, 600):
        names = ["--" + "".join(LETTERS[(i // 26 ** j) % 26] for j in range(3)) + "x" for i in range(n)]
        rows = [[[how, x, ARGS[i % len(ARGS)]]] for i, x in enumerate(names) for how in [("flag", "blank", "equal", "optional")[(i + n) % 4]]]
        uses = [[names[0], names[-1] + "=v", names[-1], "v"], [names[-1]], [names[n // 2], "x", names[1]], names]
        out.append(dict(lines=[["options", r, "", "", ""] for r in rows], uses=uses))
        out.append(dict(lines=[["options", [["flag", x, "N"]], "", "", "  (ignored)"] for x in names], uses=uses))
        out.append(dict(lines=[["options", [r[0] for r in rows], "", "", ""]], uses=uses))
        # names which come again much later
        out.append(dict(lines=[["options", r, "", "", ""] for r in rows + rows[:3] + rows[n // 2:n // 2 + 2]], uses=uses))
        out.append(dict(lines=[["options", [r[0] for r in rows + rows[:2]], "", "", ""], ["options", rows[1] + [["flag", "--more", "N"]], "", "", ""]], uses=uses))
        out.append(dict(lines=[["options", [["flag", x, "N"] for x in names], "", "", ""]], uses=uses))
        out.append(dict(lines=[["prose", PROSE[i % len(PROSE)]] for i in range(n)] + [["options", rows[0], "", "", ""]], uses=uses[:1]))
        out.append(dict(lines=[["options", [["flag", "--" + "y" * n, "N"]], "", "", ""], ["options", [["equal", "--" + "z" * n, "Q" * n]], "", "", ""]], uses=[["--" + "y" * n, "--" + "z" * n, "x"]]))
    for how in ("flag", "blank", "equal", "optional"):
        for c in LETTERS + LETTERS.upper():
            for x in ["-" + c] + (["--" + c, "--no-" + c, "-" + c + "b", "--" + c + "-" + c] if c.islower() else ["--" + c]):
                out.append(dict(lines=[["options", [[how, x, "FILE"]], "", "", ""]], uses=[[x, "a", x + "=b"], [x]]))
    return out


def big_tables():
    out = []
    for n in (1, 4, 5, 9, 17, 33, 129, 400):
        flags, options = ["--f%d" % i for i in range(n)], ["--o%d" % i for i in range(n)]
        uses = [flags + [options[-1], "x"], [options[0], flags[0], flags[-1]], [options[-1] + "=y", flags[-1], "z"], [flags[-1], options[n // 2] + "=", flags[n // 2]]]
        out.append(dict(table=dict(flag=[flags], option=[options + ["N"]]), uses=uses))
        out.append(dict(table=dict(flag=[[f] for f in flags], option=[[o, "N"] for o in options]), uses=uses))
        out.append(dict(table=dict(flag=[[f, "--g%d" % i, "--h%d" % i, "--i%d" % i] for i, f in enumerate(flags)], option=[[o, "--p%d" % i, "--q%d" % i, "--r%d" % i, "N"] for i, o in enumerate(options)]),
                        uses=uses + [["--i0", "--h%d" % (n - 1), "--r0", "x", "--q%d=1" % (n - 1), "--g0", "--p0=" ]]))
    return out


def subs():
    return [Sub("patterns", patterns, check_patterns, 10000, 80000, regress=big), Sub("wild", wild, check_wild, 6000, 50000), Sub("tables", tables, check_tables, 8000, 80000, regress=big_tables),
            Sub("script", script_cases, check_script, 80, 1500)]
