"""Generators of command lines (JSON-able cases)."""
import itertools
import shlex
from hypothesis import strategies as st
from gnu import ATTACHED, SPECS, TABLE, NO_TABLE, EXPANSIONS

ODD = " \t\n'\"\\$`*?[]{}()<>|&;#~!=%^,:/.-_@+\u00e9\u4e2d\U0001f600" + "\r\x0b\x0c\x1b\x1c\x7f\x85\xa0\u0301\u0130\u2028\u200b\ufb01\uff0d\ufeff\udc80"
# words which a careless program would normalise, expand or take for something else
NORMAL = ["./a", "a/", "a//b", "a/../b", "/./a", "~", "~/x", "$HOME", "${x}", "*", "?", "[a]", "010", "+3", "1e3", "0x10", "3.0", " 3", "A", "\u00c9", "\ufb01", "e\u0301", "\"x\"", "'x'", "\"", "'",
          "a=b=c", "=x", "x=", " x", "x ", "\tx", "x\n", "\n", "%41", "\\n", "\\x41", "\\", "\\\\", "/dev/stdin", "/dev/stdout", "/dev/stderr", "/dev/null", "/dev/fd/0", "/dev/fd/1", "/proc/self/fd/0", "{}", "a{1,2}", "!x", "#x",
          "None", "True", "null", "x#y", "a:b", "@x", "&1", ">x", "<x", "a|b", "a;b", "-", " -", "--", "---", "-x-", "s3://x", "file:///x", "C:\\x", "a\\ b", "in.txt", "in.TXT", "\u0130", "i", "I", "\u00df", "ss", "\u200bx", "/", ".", "..", "/tmp", "/etc/passwd", "/etc", "etc", "tmp", "doc", "\r\n", "a\r\nb", "a\rb", "a\n\nb", "a\n", "\na", "x\\\ny"]
# pairs which are different, though near
NEAR_PAIRS = [("./a", "a"), ("a/", "a"), ("a//b", "a/b"), ("a/../b", "b"), ("/./a", "/a"), ("010", "10"), ("+3", "3"), ("1e3", "1000"), ("0x10", "16"), ("3.0", "3"), (" 3", "3"), ("A", "a"), ("\u00c9", "E\u0301"),
              ("\ufb01", "fi"), ('"x"', "x"), ("'x'", "x"), ("=x", "x"), ("x=", "x"), (" x", "x"), ("x ", "x"), ("\tx", "x"), ("x\n", "x"), ("\\n", "\n"), ("\\t", "\t"), ("%41", "A"), ("\\x41", "A"), ("\\\\", "\\"),
              ("/dev/stdin", "-"), ("/dev/stdout", "-"), ("/dev/fd/0", "/dev/stdin"), ("\u200bx", "x"), ("\u00df", "ss"), ("a b", "a  b"), ("a b", "a\tb"), ("", " "), ("x.", "x"), ("1.0", "1"), ("1,3", "3,1"), ("1,1", "1"), ("1-1", "1"),
              ("-1", "1"), ("00", "0"), ("1k", "1024"), ("1K", "1k"), ("a\r", "a"), ("\x1b", "x"), ("~", "/root"), ("a\r\nb", "a\nb"), ("a\n\nb", "a\nb"), ("a\\\nb", "ab"), ("~/x", "x"), ("$HOME", "/root"), ("True", "true"), ("None", "")]
ALNUM = "abcxyzABC0129"
ANY_TEXT = st.text(st.sampled_from(ALNUM + ODD), max_size=8)
WORD = st.one_of(st.text(st.sampled_from(ALNUM + "._/+-="), min_size=1, max_size=6), ANY_TEXT,
                 st.sampled_from(["-", "--", "in.txt", "out.txt", "a=b", "--x=1", "-1", "\n", "s/a/b/", "a#b", "x #y", "{}", "{print $1}", "", "-n", "--lines=3", "'", "\"", "\\", " -", "- ", "-\n", " ", "e\u0301"]), st.sampled_from(NORMAL))
ARG = st.one_of(st.sampled_from(["1", "10", "in.txt", "-", ",", "\n", " ", "-n", "--count", "a=b", "=x", "", "--", "1,3-5", "p.pat"]), WORD, st.sampled_from(NORMAL))
WORD = st.one_of(WORD, WORD, WORD, WORD, WORD, WORD, WORD, st.tuples(WORD, st.integers(3, 60)).map(lambda t: t[0] * t[1]))
OPERAND_FIRST = WORD       # decides together with the model where the operands start


def quote_word(word, style):
    """a way to write a word in a shell command line"""
    if style == 1 and word and word[0] not in "#~" and all(c.isalnum() or ord(c) > 127 or c in "._/+-=,:@%#~^!?*[]{}" for c in word):
        return word         # like {} of xargs, [:space:] of tr, a#b: only a leading # starts a comment
    if style == 2:
        return '"' + "".join("\\" + c if c in '"\\$`' else c for c in word) + '"'
    if style == 3 and word and "\n" not in word:
        return "".join(c if (c.isascii() and c.isalnum()) or c in "-_./" else "\\" + c for c in word)
    if style == 4 and len(word) > 1:
        k = len(word) // 2
        return shlex.quote(word[:k]) + '"' + "".join("\\" + c if c in '"\\$`' else c for c in word[k:]) + '"'
    if style == 5 and len(word) > 1:    # an unquoted part, then a quoted one
        k = next((i for i, c in enumerate(word) if not (c.isalnum() or c in "._/+-=,:@%")), len(word))
        return word[:k] + ("'" + word[k:].replace("'", "'\\''") + "'" if k < len(word) else "''")
    return shlex.quote(word)


# In double quotes, shlex (posix) only drops a backslash before the quote itself and before a backslash
def quote_word_shlex(word, style):
    if style in (2, 4) and ("$" in word or "`" in word):
        return shlex.quote(word)
    return quote_word(word, style)


SEPARATORS = [" ", "  ", "\t", " \t "]


def render(words, styles):
    """styles: one number per word, choosing quoting and separator"""
    out = ""
    for i, w in enumerate(words):
        s = styles[i % len(styles)] if styles else 0
        if i:
            out += SEPARATORS[(s // 6) % len(SEPARATORS)]
        out += quote_word_shlex(w, s % 6)
    total = sum(styles) if styles else 0
    return (" " if total % 7 == 6 else "") + out + (" " if total % 5 == 4 else "")


STYLES = st.lists(st.integers(0, 23), min_size=1, max_size=6)


def items_to_words(items):
    """an item: ["f", name] | ["o", name, arg] | ["e", name, arg] | ["c", "-abc"]"""
    words = []
    for it in items:
        if it[0] == "f" or it[0] == "c":
            words.append(it[1])
        elif it[0] == "o":
            words += [it[1], it[2]]
        else:
            words.append(it[1] + "=" + it[2])
    return words


def expected(spec, items):
    """the flags and options meant by items, as identities"""
    out = []
    for it in items:
        if it[0] == "f":
            out += [(x,) for x in spec.flag_idents(it[1])]
        elif it[0] == "c":
            for c in it[1][1:]:
                out += [(x,) for x in spec.flag_idents("-" + c)]
        else:
            out.append((spec.ident(it[1]), it[2]))
    return out


def item(spec, arg=ARG):
    alts = []
    if spec.flag_names:
        alts.append(st.sampled_from(sorted(spec.flag_names)).map(lambda n: ["f", n]))
        shorts = sorted(n[1] for n in spec.flag_names if len(n) == 2)
        if shorts:
            # a cluster which is itself the name of a flag (cat -vE) means the same
            alts.append(st.one_of(st.lists(st.sampled_from(shorts), min_size=1, max_size=4), st.lists(st.sampled_from(shorts), min_size=1, max_size=4), st.lists(st.sampled_from(shorts), min_size=5, max_size=40)).map(lambda cs: ["c", spec.make_cluster(cs)]))
    if spec.option_names:
        alts.append(st.tuples(st.sampled_from(sorted(spec.option_names)), arg).map(lambda t: ["o", t[0], t[1]]))
        longs = sorted(n for n in spec.option_names if n.startswith("--"))
        if longs:
            alts.append(st.tuples(st.sampled_from(longs), arg).map(lambda t: ["e", t[0], t[1]]))
    return st.one_of(alts)


def ends_options(spec, words):
    """operands as which a parser cannot see the first word as flag or option"""
    return not words or spec.classify(words)[0] == []


def often(draw, l):
    """sometimes many more of the same"""
    return l * draw(st.sampled_from([3, 4, 6, 8, 12, 30, 100])) if l and draw(st.integers(0, 24)) == 0 else l


@st.composite
def command(draw, cmds=None, max_items=6, max_operands=4, operand=WORD, arg=ARG):
    cmd = draw(st.sampled_from(cmds or sorted(TABLE) + NO_TABLE))
    spec = SPECS[cmd]
    items = often(draw, draw(st.lists(item(spec, arg), max_size=max_items)) if spec.rows else [])
    operands = often(draw, draw(st.lists(operand, max_size=max_operands)))
    if cmd in ATTACHED and draw(st.integers(0, 3)) == 0:
        shorts = sorted(n[1] for n in spec.flag_names if len(n) == 2)
        operands.insert(0, draw(st.sampled_from(ATTACHED[cmd])) + "".join(draw(st.lists(st.sampled_from(shorts), min_size=1, max_size=2))))
    while not ends_options(spec, operands):
        operands = operands[1:]
    # an option without following word is an operand for the parser; make sure the last option has its argument (it has, by construction)
    return dict(cmd=cmd, items=items, operands=operands)


def huge(cmd, n=1500):
    """very long command lines: operands, flags, options, clusters, words"""
    spec, pool = SPECS[cmd], operand_pool(cmd)
    flags = sorted(x for x in spec.flag_names if (cmd, spec.ident(x)) not in EXPANSIONS)
    shorts = [x[1] for x in flags if len(x) == 2]
    out = [dict(cmd=cmd, items=[], operands=[pool[0]] + ["f%d" % i for i in range(n)]), dict(cmd=cmd, items=[], operands=[pool[0]] * n),
           dict(cmd=cmd, items=[], operands=[pool[0], "x" * 70000])]
    if flags: out.append(dict(cmd=cmd, items=[["f", flags[i % len(flags)]] for i in range(n)], operands=[pool[0], "x"]))
    if shorts: out.append(dict(cmd=cmd, items=[["c", spec.make_cluster([shorts[i % len(shorts)] for i in range(n)])]], operands=[pool[0], "x"]))
    if spec.option_names:
        os = sorted(spec.option_names)
        out.append(dict(cmd=cmd, items=[["o", os[i % len(os)], "a%d" % i] for i in range(n)], operands=[pool[0], "x"]))
        out.append(dict(cmd=cmd, items=[["o", os[0], "y" * 70000]], operands=[pool[0], "x"]))
    return [c for c in out if ends_options(spec, c["operands"])]


def words_of(case):
    return [case["cmd"]] + items_to_words(case["items"]) + case["operands"]


# ------------------------------------------------------------------------------------ invocations for the annotation checks

FILES = ["in.txt", "a.txt", "b.txt", "out.txt", "dir/x", "-", "-", "f-1", "a b", "1", "x=1", "0,5p", " -", "- ", "/dev/stdin", "/dev/stdout", "./in.txt", "~/x", "/tmp", "/etc/passwd", "."]
SED_LOCAL = ["s/a/b/", "s/a/b/g", "s,x,y,2", "y/ab/ba/", "/a/d", "/a/!p", "d", "p;d", "s/a/b/;s/c/d/", "\\,a,d", "/a/Is/x/y/gi", ";", "s|a\\|b|c|"]
SED_OTHER = ["1d", "$d", "$!N", "N", "G", "h", "x", "1,3p", "/a/,/b/d", "q", "5q", "a\\foo", "i foo", "=", "w out.txt", "r in.txt", "n;d", "s/a/b/w o",
             "/a/q", "s/a/b/;2d", "0~2d", ":a;N;ba", "D", "s/a/b/e", "c\\x", "l", "F", "$p", "/a/N", "t", "b", "s/a/b/w;p", "s/x/y/gw", "s/a/b/;s/c/d/we", "s/a/b/2w o", "z;G", "//d", "s//x/", "#x\nN", "s/a/b/ # c\n2d", "p#q\n$!N", "s/#/x/;2d", "#x\ns/a/b/\n2d", "s/#/x/ ; N # y", "p # N\nG"]
SETS = ["a", "a-z", "A-Z", "\\n", "\n", "[:space:]", "[:cntrl:]", "[:alpha:]", "\\012", "\\12", "\\11-\\15", "\\t", "\\0", "\\\\n", "0-9", "a-", "-a",
        "\\001-\\100", "[:punct:]", " ", "\t-a", "x\\012", "\\0012", "[:blank:]", "[:graph:]", "\\r", "\\f-\\v", "n", "[:alnum:]\\n", "\n-b"]
AWK = ["{print $1}", "{print}", "NR==1", "/a/", "END{print NR}", "BEGIN{x=1}"]
KEYDEFS = ["1", "1,1", "2n", "2,3R", "1.2b,3", "1R", "2r", "1R,2", "1nR,2n", "1,2Rb", "1bnrR", "3,3V"]
ARG_BY_KIND = {
    "DIRACT": ["skip", "read", "recurse", "rec", "recu", "recur"],
    "KEYDEF": KEYDEFS, "SORTWORD": ["random", "r", "numeric", "month", "general-numeric", "human-numeric", "version", "ran"],
    "SED": SED_LOCAL + SED_OTHER, "NUM": ["1", "10", "0", "+3", "-2", "5k"], "NUM1": ["1", "3"], "LIST": ["1", "1,3", "2-", "-3"],
    "CHAR": [",", " ", "\n", "a", "\t", "", "\\n", ",\n"], "PROG": AWK, "FILE": ["-", "f.txt"], "FILES0": ["-", "f0.txt"], "OUTFILE": ["-", "out.txt"],
    "DIR": ["d", "-"], "PROGFILE": ["p.awk", "-"], "SEDFILE": ["p.sed", "-"], "REFILE": ["p.re", "-"], "GLOBFILE": ["g.txt", "-"],
}


def operand_pool(cmd):
    return {"sed": SED_LOCAL + SED_OTHER, "grep": ["a", "a.*b", "^x", "x=1"], "awk": AWK + ["v=1", "_x1=", "1x=2", "x=y=z"], "tr": SETS, "custom_tr": SETS,
            "seq": ["1", "10", "-5", "0.5", "-"], "xargs": ["echo", "rm", "-x", "grep", "-n"]}.get(cmd, FILES)


def arg_for(kind):
    return st.sampled_from(ARG_BY_KIND.get(kind, ["x", "1", "-", "a=b", "2,3"]))


@st.composite
def invocation(draw, cmds, max_items=5, max_operands=4, wild=True):
    """a command line likely to be meaningful; no word which is known as flag or option comes first in the operands"""
    cmd = draw(st.sampled_from(cmds))
    spec = SPECS[cmd]
    items = []
    if spec.rows:
        for _ in range(draw(st.integers(0, max_items))):
            names, kind = draw(st.sampled_from(spec.rows))
            name = draw(st.sampled_from(list(names)))
            if kind is None:
                items.append(["f", name])
            else:
                arg = draw(arg_for(kind)) if not wild or draw(st.integers(0, 3)) else draw(ARG)
                items.append([draw(st.sampled_from(["o", "e"])) if name.startswith("--") else "o", name, arg])
    items = often(draw, items)
    pool = operand_pool(cmd)
    one = st.one_of(st.sampled_from(pool), st.sampled_from(FILES))
    if wild:
        one = st.one_of(one, one, one, WORD)
    operands = often(draw, draw(st.lists(one, max_size=max_operands)))
    if pool is not FILES and operands and draw(st.integers(0, 4)):
        operands[0] = draw(st.sampled_from(pool))
    while not ends_options(spec, operands):
        operands = operands[1:]
    return dict(cmd=cmd, items=items, operands=operands)


def pairwise(cmds, operands_for):
    """all single flags/options and all ordered pairs of different ones, for the given lists of operands"""
    out = []
    for cmd in cmds:
        spec = SPECS[cmd]

        def it(row, k):
            names, kind = row
            if kind is None:
                return ["f", names[k % len(names)]]
            pool = ARG_BY_KIND.get(kind, ["x", "1", "-"])
            return ["o", names[k % len(names)], pool[k % len(pool)]]
        lists = [l for l in operands_for(cmd) if ends_options(spec, l)]
        for l in lists:
            out.append(dict(cmd=cmd, items=[], operands=l))
        for i, r in enumerate(spec.rows):
            pool = ARG_BY_KIND.get(r[1], ["x"]) if r[1] else []
            for k in range(max(len(r[0]), len(pool))):
                for l in lists:
                    out.append(dict(cmd=cmd, items=[it(r, k)], operands=l))
            for j, r2 in enumerate(spec.rows):
                if i != j:
                    out.append(dict(cmd=cmd, items=[it(r, i + j), it(r2, 3 * i + j + 1)], operands=lists[(i * 7 + j) % len(lists)]))
            # the same again, with other arguments; also three times
            if r[1]:
                for a, x in enumerate(pool):
                    for b, y in enumerate(pool):
                        if x != y and (a + b < 6 or abs(a - b) == 1):
                            out.append(dict(cmd=cmd, items=[["o", r[0][a % len(r[0])], x], ["o", r[0][b % len(r[0])], y]], operands=lists[(a * 7 + b) % len(lists)]))
                            out.append(dict(cmd=cmd, items=[["o", r[0][a % len(r[0])], x], ["o", r[0][b % len(r[0])], y], ["o", r[0][a % len(r[0])], x]], operands=lists[(a + b) % len(lists)]))
            else:
                out.append(dict(cmd=cmd, items=[it(r, 0), it(r, 1)], operands=lists[i % len(lists)]))
    return out


def triples(cmds, operands_for=None, rows_of=None, args=None, size=3):
    """all sets of three different flags and options, once each, in varying order and spelling, with varying arguments and operands"""
    out = []
    for cmd in cmds:
        spec = SPECS[cmd]
        lists = [l for l in operands_for(cmd) if ends_options(spec, l)] if operands_for else []
        for n, rows in enumerate(itertools.combinations(rows_of(cmd) if rows_of else spec.rows, size)):
            items = []
            for k, (names, kind) in enumerate(rows):
                if kind is None: items.append(["f", names[(n + k) % len(names)]])
                else:
                    pool = (args or ARG_BY_KIND).get(kind, ["x", "1", "-"])
                    items.append(["o", names[(n + k) % len(names)], pool[(n // 2 + 5 * k) % len(pool)]])
            out.append(dict(cmd=cmd, items=[items[k] for k in ORDERS[(n * 5) // 3 % 6]] if size == 3 else items))
            if lists: out[-1]["operands"] = lists[(n * 7 + n // 11) % len(lists)]
    return out


ORDERS = list(itertools.permutations(range(3)))
