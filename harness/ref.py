"""Reference for the annotations: the role of every argument (io_ref) and the parallelizers (para_ref) of an invocation, written
from the documentation of the commands.  Invocations are given as (command, flags and options as identities, operands)."""
import re

# roles of arguments of options which are files; every other option argument is a plain string
OPTION_ROLES = {
    "awk": {"-f": "cfg", "-E": "cfg", "-i": "cfg"},
    "diff": {"-X": "excludes", "-S": "oin", "--from-file": "sin", "--to-file": "sin"},
    "grep": {"-f": "cfg", "--exclude-from": "excludes"},
    "mv": {"-t": "oout"},
    "sed": {"-f": "cfg"},
    "sort": {"--random-source": "cfg", "--files0-from": "container", "-o": "sout", "-T": "oout"},
    "wc": {"--files0-from": "container"},
    "xargs": {"-a": "oin"},
}
UNDECIDED = object()


def typed(role, text):
    if role == "str":
        return ("str", text)
    if text == "-":
        return (role, 1 if role in ("sout", "oout") else 0)
    return (role, text)


def dashed(operands):
    return any(o.startswith("-") and o != "-" for o in operands)


def io_ref(cmd, fos, ops):
    """None (no annotation), UNDECIDED or dict(flagoptions, operands, stdin, stdout, other_outputs)"""
    has = lambda *names: any(f[0] in names for f in fos)
    n = len(ops)
    stdin, stdout = False, True
    roles = ["sin"] * n
    if dashed(ops[:1] if cmd == "xargs" else [] if cmd == "seq" else ops):
        return None
    if cmd in ("cat", "head", "tail", "cut"):
        stdin = n == 0
    elif cmd in ("grep", "sed", "awk"):
        if cmd == "awk":
            if has("-d", "-D", "-g", "-i", "-ofile", "-p"):
                return None
            assigns = [bool(re.match(r"[A-Za-z_][A-Za-z0-9_]*=", o)) for o in ops]
            if any(assigns if has("-e", "-f", "-E") else assigns[1:]):
                return None
            if any(assigns):
                return UNDECIDED    # a program which looks like an assignment
        script = not has(*{"grep": ("-e", "-f"), "sed": ("-e", "-f"), "awk": ("-e", "-f", "-E")}[cmd])
        if script:
            if n == 0:
                return None
            roles[0] = "str"
        stdin = n == (1 if script else 0)
        if cmd == "grep":
            stdout = not has("-q")
            if stdin and (has("-r", "-R") or any(f[0] == "-d" and f[1].startswith("rec") for f in fos)):
                return None
    elif cmd == "comm":
        if n != 2:
            return None
    elif cmd == "diff":
        pass
    elif cmd in ("mkfifo", "rm"):
        roles, stdout = ["oout"] * n, False
    elif cmd == "mv":
        targets = sum(f[0] == "-t" for f in fos)
        stdout = False
        if targets > 1:
            return None
        if targets == 1:
            roles = ["oin"] * n
        elif n < 2:
            return UNDECIDED
        else:
            roles = ["oin"] * (n - 1) + ["oout"]
    elif cmd == "seq":
        roles = ["str"] * n
    elif cmd in ("sort", "custom_sort"):
        if any(f == ("-o", "-") for f in fos):
            return None
        stdout = not has("-o")
        stdin = n == 0 and not has("--files0-from")
    elif cmd == "tee":
        if "-" in ops:
            return None
        roles, stdin = ["sout"] * n, True
    elif cmd in ("tr", "custom_tr"):
        roles, stdin = ["str"] * n, True
    elif cmd == "uniq":
        if n > 2:
            return None
        stdin, stdout = n == 0, n < 2
        if n == 2:
            roles[1] = "sout"
    elif cmd == "wc":
        if has("--files0-from"):
            return None
        stdin = n == 0
    elif cmd == "xargs":
        roles, stdin = ["str"] * n, True
    elif cmd in ("col", "bigrams_aux", "alt_bigrams_aux", "test_one", "test_two"):
        if n:
            return UNDECIDED
        stdin = True
    elif cmd == "alt_bigram_aux_reduce":
        pass
    elif cmd == "set_diff":
        if n != 1:
            return None
        roles, stdin = ["cfg"], True
    else:
        return None
    per_option = OPTION_ROLES.get(cmd, {})
    fo = [f if len(f) == 1 else (f[0], typed(per_option.get(f[0], "str"), f[1])) for f in fos]
    others = any(len(f) == 2 and f[1][0] == "oout" for f in fo) or "oout" in roles
    return dict(flagoptions=fo, operands=[typed(r, o) for r, o in zip(roles, ops)], stdin=("sin", 0) if stdin else None,
                stdout=("sout", 1) if stdout else None, other_outputs=others)


# ---------------------------------------------------------------------------------------------------------------- tr sets

ESCAPES = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92}


def tr_set(text):
    """characters (codes) of a set in the notation of tr, classes by name; None if tr rejects it or the meaning is unusual"""
    toks, i = [], 0
    while i < len(text):
        m = re.match(r"\[:(\w+):\]", text[i:])
        if m:
            toks.append(m.group(1)); i += m.end(); continue
        m = re.match(r"\\([0-7]{1,3})", text[i:])
        if m:
            v = int(m.group(1), 8)
            if v > 255:
                return None
            toks.append(v); i += m.end(); continue
        if text[i] == "\\" and i + 1 < len(text):
            toks.append(ESCAPES.get(text[i + 1], ord(text[i + 1]))); i += 2; continue
        if text[i] == "-":
            toks.append("-dash")
        else:
            toks.append(ord(text[i]))
        i += 1
    if "[=" in text or re.search(r"\*\d*\]", text):
        return None
    out, i = set(), 0
    while i < len(toks):
        t = toks[i]
        if isinstance(t, str) and t != "-dash":
            out.add(t); i += 1; continue
        t = 45 if t == "-dash" else t
        if i + 2 < len(toks) and toks[i + 1] == "-dash":
            u = toks[i + 2]
            u = 45 if u == "-dash" else u
            if isinstance(u, str) or u < t:
                return None
            out.update(range(t, u + 1)); i += 3; continue
        out.add(t); i += 1
    return out


CLASSES_WITH_NEWLINE = {"space", "cntrl"}
CLASSES = {"alnum", "alpha", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "xdigit"}


def tr_has_newline(text):
    s = tr_set(text)
    if s is None or any(isinstance(x, str) and x not in CLASSES for x in s):
        return None
    return 10 in s or bool(s & CLASSES_WITH_NEWLINE)


# --------------------------------------------------------------------------------------------------------- parallelizers

SEQ = ("seq",)
CONC = ("concatenate",)


def para_ref(cmd, fos, ops):
    """None (no annotation), UNDECIDED or dict(parallelizers: list of (splitter, mapper, aggregator, implemented, to mapper,
    to aggregator), commutative)"""
    has = lambda *names: any(f[0] in names for f in fos)
    args = lambda name: [f[1] for f in fos if f[0] == name]

    def both(agg=CONC, implemented=True):
        return [(s, SEQ, agg, implemented, "no_add_input", 0) for s in ("consec_chunks", "round_robin")]
    commutative, out = False, []
    if cmd == "alt_bigrams_aux":
        out = [("consec_chunks", ("custom", "alt_bigrams_aux"), ("custom_2_ary", "alt_bigram_aux_reduce"), True, "no_add_input", 0)]
    elif cmd == "bigrams_aux":
        out = [("consec_chunks", ("custom", "bigram_aux_map"), ("custom_2_ary", "bigram_aux_reduce"), True, "no_add_input", 2)]
    elif cmd in ("col", "custom_tr"):
        out = both()
    elif cmd in ("sort", "custom_sort"):
        commutative = True
        if not (has("-c", "-C", "-u", "-z", "-R", "-s", "-m", "--debug", "--files0-from", "--random-source")
                or any(a.startswith("r") for a in args("--sort")) or any("R" in a for a in args("-k"))):
            keep = ("-b", "-d", "-f", "-g", "-i", "-M", "-h", "-n", "-r", "--sort", "-V", "-k", "-t")
            flags = [f for f in fos if f[0] in keep] + [("-m",)]
            out = [("consec_chunks", SEQ, ("custom_2_ary", flags), True, "no_add_input", 0)]
    elif cmd == "cut":
        if not any("\n" in a for a in args("-d")):
            out = both()
    elif cmd == "grep":
        if not has("-q", "-A", "-B", "-C", "-m", "-z", "-H", "-r", "-R", "-d", "--include", "--exclude", "--exclude-from",
                   "-L", "-l", "-c", "-n", "-b"):
            out = both()
    elif cmd == "sed":
        return UNDECIDED    # sed_ref
    elif cmd == "set_diff":
        out = both()[:1]
    elif cmd in ("test_one", "test_two"):
        out = [("consec_chunks", SEQ, ("custom_n_ary", "runtime/agg/opt/concat.sh"), False, "no_add_input", 0)]
    elif cmd == "tr":
        if len(ops) not in (1, 2):
            return UNDECIDED
        news = [tr_has_newline(o) for o in ops]
        if None in news:
            return UNDECIDED
        if has("-c"):
            news[0] = not news[0]
        if has("-s") and (news[0] or news[-1]):
            out = both(("adj_lines_func", "PLACEHOLDER: remove first line if empty"), False)
        elif has("-d") and news[0]:
            out = both(("adj_lines_merge",), False)
        else:
            out = both()
    elif cmd == "uniq":
        if not has("-d", "-D", "-u", "--group", "-z"):
            out = both(("adj_lines_func", "PLACEHOLDER:uniq_merge_count_uniq") if has("-c") else ("adj_lines_seq",), False)
    elif cmd == "xargs":
        if not has("-0", "-d", "-a", "-e", "-E", "--process-slot-var"):
            out = both()
    else:
        return None
    return dict(parallelizers=out, commutative=commutative)
