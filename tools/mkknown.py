"""Writes /verif/known-findings.txt: findings which are recorded, and defects which are repaired (commits looked up by their message)."""
import os, subprocess
KNOWN = [
    ("C09", "cut-z", "cut -z: parallelized by lines although its records end with NUL and a newline is data (split and concatenated, the output gets a NUL per part: "
                     "printf 'a b\\nc d\\n' | cut -z -d ' ' -f 1, cut after line 1); pinned by the existing test test_cut_2, hence not repaired"),
    ("C09", "xargs-batches", "xargs: parallelized by lines although without -n 1 or -I several lines go into one invocation of the command (printf 'a\\nb\\n' | xargs echo gives "
                             "'a b', in two parts 'a' and 'b'), and an empty part runs the command once without -r; only documented by a TODO, PaSh depends on it, hence not repaired"),
]
FIXED = [
    ("inferring parallelizers must not", ["C11", "C08"], "every inference added the copies to the stored list again: asking twice gave more parallelizers"),
    ("compare OptionWithIOVar by value", ["C16"], "equal options with variables compared unequal"),
    ("visit variables in option arguments", ["C14", "C12", "C13"], "variables in option arguments were skipped or failed when substituting, renaming, removing and listing"),
    ("aggregators derived from the command always", ["C13"], "an aggregator of a command whose output is not implicit had no or the old output"),
    ("use the default data for every", ["C07"], "parsing failed for command names which cannot be a file name (too long, NUL-free but odd, path through a file)"),
    ("import the CLI's dependencies", ["C17"], "the command-line tool could not be started (imports of modules that do not exist)"),
    ("resolve --save_to relative", ["C17"], "--save_to was taken relative to the tool instead of the caller"),
    ("--save_to writes new files", ["C17"], "--save_to did not write new files, and a dangling link was followed"),
    ("compare a splitter with", ["C16"], "comparing a splitter with another value failed"),
    ("uniq's -f, -s and -w", ["C01", "C03", "C05"], "uniq -f 1 in.txt: 1 taken as operand (input file)"),
    ("tail's -c, -n and -s", ["C01", "C03", "C05"], "tail -n 3 in.txt: 3 taken as input file"),
    ("grep's long option names", ["C02", "C06"], "grep --regexp=x f: x not taken as pattern, f taken as pattern; other long names not related to the short ones"),
    ("diff's -c, -u", ["C01", "C03"], "diff -u a b: a taken as argument of -u"),
    ("which of xargs' options", ["C01", "C03"], "xargs -i, -l, -e: the next word taken as argument; -0 and others missing"),
    ("options of mkfifo, mv, rm and tee", ["C01", "C03", "C06"], "mv -b a b: a taken as argument; mv -S .x, rm -i, tee -p similar"),
    ("--truncate-set1 is tr's -t", ["C02", "C03"], "--truncate-set1 was listed with another short flag"),
    ("sed's -e and -f take", ["C01", "C03", "C06"], "sed -e s/a/b/ f: the script taken as operand"),
    ("sed reads stdin only", ["C05", "C06"], "sed s/a/b/ f: annotated as reading standard input"),
    ("parallelize sed only for scripts", ["C09", "C10"], "sed with addresses, N, G, q, = and others was parallelized"),
    ("recognise when tr squeezes", ["C09", "C10"], "tr -s '\\n', tr -cd and sets with the newline in other notations were parallelized by concatenation"),
    ("do not parallelize sort when", ["C09", "C10"], "sort -R, --debug, -c, -z and others were parallelized with merge"),
    ("do not parallelize cut with newline", ["C09", "C10"], "cut -d with a newline was parallelized"),
    ("do not parallelize uniq with -u", ["C09", "C10"], "uniq -u, --group, -z were parallelized"),
    ("do not parallelize grep if its", ["C09", "C10"], "grep -A, -B, -C, -m, -b with file names and others were parallelized"),
    ("no I/O info for grep -r without", ["C05", "C06"], "grep -r x: annotated as reading standard input, but reads the working directory"),
    ("do not parallelize xargs if", ["C09", "C10"], "xargs -a, -0, -d, -L, -E and others were parallelized by lines"),
    ("awk's -F, -v, -e", ["C01", "C03", "C06"], "awk -F : '{print}' f: ':' taken as program"),
    ("awk's program can also", ["C06"], "awk -e '{print}' f: f taken as program"),
    ("no I/O info for awk if", ["C05", "C06"], "awk -i inplace and assignments as operands were annotated as plain streaming input"),
    ("no I/O info if an operand may", ["C05", "C06"], "unknown options (sed -i, cat -n5, ...) became operands that were annotated as files"),
    ("no I/O info for tee -", ["C05", "C06"], "tee - and sort -o - write a file named -, annotated as standard output"),
    ("split --option=argument", ["C01", "C02", "C03"], "--output=a=b lost everything after the second equal sign; -o=x was split although the = belongs to the argument"),
    ("flags on a line with an option", ["C18"], "the table generator printed flags of a line with an option as strings instead of lists; the parser took their letters as flags"),
    ("use the primary name also", ["C02"], "a flag in a cluster kept its other name (grep -iy, tr -Cd)"),
    ("col's -l takes an argument", ["C01", "C03"], "col -l 5: 5 taken as operand"),
    ("access map of a mapper with auxiliary", ["C12"], "the access information of a mapper with auxiliary outputs still described the replaced streams"),
    ("no aggregator with auxiliary streams", ["C13", "C19"], "an unimplemented aggregator was derived when it has auxiliary streams"),
    ("no range starts with a character class", ["C10"], "tr -s '[:alpha:]-z' failed or was read as a range"),
    ("a command given by its path", ["C07"], "./x/../cat and similar names got the table of another command"),
    ("what is attached to a flag", ["C01", "C03"], "xargs -ix taken as the flags -i -x, awk -dp as -d -p"),
    ("grouped views of commands with variables", ["C14"], "the operands and options with a role were always reported as none for commands with variables"),
    ("no I/O info for grep -d recurse", ["C05", "C06"], "grep -d recurse x: annotated as reading standard input, but reads the working directory"),
]
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()]
fixes = [(h, s[5:]) for h, s in log if s.startswith("fix: ")]
out, used = [], set()
for prop, kid, what in KNOWN: out.append("known: property=%s id=%s %s" % (prop, kid, what))
for start, pids, what in FIXED:
    h, = [h for h, s in fixes if s.startswith(start)]
    used.add(h)
    for p in pids: out.append("fixed: property=%s %s %s" % (p, h, what))
assert used == {h for h, _ in fixes}, [s for h, s in fixes if h not in used]
with open(os.path.join(os.path.dirname(__file__), "..", "known-findings.txt"), "w") as f: f.write("\n".join(out) + "\n")
