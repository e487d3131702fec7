"""Independent description of the commands, written from the GNU manuals (coreutils, grep, sed, diffutils, findutils, gawk, util-linux):
which names are synonyms and which take an argument.  Only names which the command tables of the library list are included: a
command line with other options is outside of what the library promises to understand (it must then give no annotation).

Every row: (names, argument kind or None).  The first name is only used to identify the row.
"""

def rows(text):
    out = []
    for line in text.strip().splitlines():
        for item in line.split():
            names, _, arg = item.partition(":")
            out.append((tuple(names.split("=")), arg or None))
    return out

TABLE = {
    "awk": rows("""-F=--field-separator:FS -v=--assign:ASSIGN -f=--file:PROGFILE -e=--source:PROG -E=--exec:PROGFILE -i=--include:PROGFILE -l=--load:LIB
        -b=--characters-as-bytes -c=--traditional -C=--copyright -d=--dump-variables -D=--debug -g=--gen-pot -h=--help
        -L=--lint -M=--bignum -n=--non-decimal-data -N=--use-lc-numeric -ofile=--pretty-print -O=--optimize -p=--profile -P=--posix
        -r=--re-interval -S=--sandbox -t=--lint-old -V=--version"""),
    "cat": rows("-A=--show-all -b=--number-nonblank -e=-vE -E=--show-ends -n=--number -s=--squeeze-blank -t=-vT -T=--show-tabs -u -v=--show-nonprinting --help --version"),
    "col": rows("-b=--no-backspaces -f=--fine -h=--tabs -p=--pass -x=--spaces -V=--version -H=--help -l=--lines:NUM1"),
    "comm": rows("-1 -2 -3 --check-order --nocheck-order --total -z=--zero-terminated --help --version --output-delimiter:STR"),
    "custom_sort": [], "custom_tr": [],
    "cut": rows("-n --complement -s=--only-delimited -z=--zero-terminated --help --version -b=--bytes:LIST -c=--characters:LIST -d=--delimiter:CHAR -f=--fields:LIST --output-delimiter:STR"),
    "diff": rows("""--normal -q=--brief -s=--report-identical-files -c=--context -u=--unified -e=--ed -n=--rcs -y=--side-by-side --left-column
        --suppress-common-lines -p=--show-c-function -t=--expand-tabs -T=--initial-tab --suppress-blank-empty -l=--paginate -r=--recursive
        --no-dereference -N=--new-file --unidirectional-new-file --ignore-file-name-case --no-ignore-file-name-case -i=--ignore-case
        -E=--ignore-tab-expansion -Z=--ignore-trailing-space -b=--ignore-space-change -w=--ignore-all-space -B=--ignore-blank-lines -a=--text
        --strip-trailing-cr -d=--minimal --speed-large-files --color --help -v=--version
        -C:NUM -U:NUM -W=--width:WIDTH -F=--show-function-line:RE --label:STR --tabsize:NUM1 -x=--exclude:GLOB -X=--exclude-from:GLOBFILE
        -S=--starting-file:FILE --from-file:FILE --to-file:FILE -I=--ignore-matching-lines:RE -D=--ifdef:NAME --line-format:LFMT
        --horizon-lines:NUM --palette:PALETTE"""),
    "export": rows("-f -n -p"),
    "grep": rows("""--help -V=--version -E=--extended-regexp -F=--fixed-strings -G=--basic-regexp -P=--perl-regexp -i=-y=--ignore-case
        --no-ignore-case -v=--invert-match -w=--word-regexp -x=--line-regexp -c=--count -L=--files-without-match -l=--files-with-matches
        -o=--only-matching -q=--quiet=--silent -s=--no-messages -b=--byte-offset -H=--with-filename -h=--no-filename -n=--line-number
        -T=--initial-tab -u=--unix-byte-offsets -Z=--null --no-group-separator -a=--text -I -r=--recursive -R=--dereference-recursive
        --line-buffered --color=--colour -U=--binary -z=--null-data
        -e=--regexp:RE -f=--file:REFILE -m=--max-count:NUM --label:STR -A=--after-context:NUM -B=--before-context:NUM -C=--context:NUM
        --group-separator:STR --binary-files:BINTYPE -D=--devices:DEVACT -d=--directories:DIRACT --exclude:GLOB --exclude-from:GLOBFILE
        --exclude-dir:GLOB --include:GLOB"""),
    "head": rows("-q=--quiet=--silent -v=--verbose -z=--zero-terminated --help --version -n=--lines:NUM -c=--bytes:NUM"),
    "mkfifo": rows("-Z=--context --help --version -m=--mode:MODE"),
    "mv": rows("-b=--backup -f=--force -i=--interactive -n=--no-clobber --strip-trailing-slashes -T=--no-target-directory -u=--update -v=--verbose -Z=--context --help --version -S=--suffix:SUFFIX -t=--target-directory:DIR"),
    "rm": rows("-f=--force -i -I --interactive --one-file-system --no-preserve-root --preserve-root -r=-R=--recursive -d=--dir -v=--verbose --help --version"),
    "sed": rows("-n=--quiet=--silent --debug --follow-symlinks --posix -E=-r=--regexp-extended -s=--separate --sandbox -u=--unbuffered -z=--null-data --help --version -e=--expression:SED -f=--file:SEDFILE -l=--line-length:NUM"),
    "seq": rows("-w=--equal-width --help --version -f=--format:FORMAT -s=--separator:STR"),
    "sort": rows("""-b=--ignore-leading-blanks -d=--dictionary-order -f=--ignore-case -g=--general-numeric-sort -i=--ignore-nonprinting -M=--month-sort
        -h=--human-numeric-sort -n=--numeric-sort -R=--random-sort -r=--reverse -V=--version-sort -c=--check -C --debug -m=--merge
        -s=--stable -u=--unique -z=--zero-terminated --help --version
        --random-source:FILE --sort:SORTWORD --batch-size:NUM2 --compress-program:PROGRAM --files0-from:FILES0 -k=--key:KEYDEF
        -o=--output:OUTFILE -S=--buffer-size:SIZE -t=--field-separator:CHAR -T=--temporary-directory:DIR --parallel:NUM1"""),
    "tail": rows("-f=--follow -q=--quiet=--silent --retry -v=--verbose -z=--zero-terminated --help --version -c=--bytes:NUM -n=--lines:NUM --max-unchanged-stats:NUM --pid:PID -s=--sleep-interval:NUM"),
    "tee": rows("-a=--append -i=--ignore-interrupts -p=--output-error --help --version"),
    "tr": rows("-c=-C=--complement -d=--delete -s=--squeeze-repeats -t=--truncate-set1 --help --version"),
    "uniq": rows("-c=--count -d=--repeated -D=--all-repeated -i=--ignore-case --group -u=--unique -z=--zero-terminated --help --version -f=--skip-fields:NUM -s=--skip-chars:NUM -w=--check-chars:NUM"),
    "wc": rows("-c=--bytes -m=--chars -l=--lines -L=--max-line-length -w=--words --help --version --files0-from:FILES0"),
    "xargs": rows("""-0=--null -e=--eof -i=--replace -l=--max-lines -o=--open-tty -p=--interactive -r=--no-run-if-empty --show-limits -t=--verbose -x=--exit --help --version
        -a=--arg-file:FILE -d=--delimiter:CHAR -E:STR -I:NAME -L:NUM1 -n=--max-args:NUM1 -P=--max-procs:NUM -s=--max-chars:NUMBIG --process-slot-var:NAME"""),
}
NO_TABLE = ["alt_bigrams_aux", "alt_bigram_aux_reduce", "bigrams_aux", "bigram_aux_map", "bigram_aux_reduce", "set_diff", "test_one", "test_two"]
ANNOTATED_IO = ["alt_bigrams_aux", "alt_bigram_aux_reduce", "awk", "bigrams_aux", "cat", "col", "comm", "custom_sort", "custom_tr", "cut", "diff",
                "grep", "head", "mkfifo", "mv", "rm", "sed", "set_diff", "seq", "sort", "tail", "tee", "test_one", "test_two", "tr", "uniq", "wc", "xargs"]
ANNOTATED_PARA = ["alt_bigrams_aux", "bigrams_aux", "col", "custom_sort", "custom_tr", "cut", "grep", "sed", "set_diff", "sort", "test_one", "test_two",
                  "tr", "uniq", "xargs"]
EXPANSIONS = {("cat", "-e"): ("-v", "-E"), ("cat", "-t"): ("-v", "-T")}     # a flag defined as a cluster of others

ATTACHED = {"xargs": ("-e", "-i", "-l"), "awk": ("-d", "-D", "-L", "-p")}     # flags which may have an argument attached to them


class Spec:
    def __init__(self, cmd):
        self.cmd, self.rows = cmd, TABLE.get(cmd, [])
        self.flags = [r for r, a in self.rows if a is None]
        self.options = [(r, a) for r, a in self.rows if a is not None]
        self.row_of = {n: r for r, _ in self.rows for n in r}
        self.arg_of = {n: a for r, a in self.rows for n in r}
        self.flag_names = {n for r in self.flags for n in r}
        self.option_names = {n for r, _ in self.options for n in r}

    def ident(self, name):
        """identity of the flag or option a name stands for"""
        return self.row_of[name][0] if name in self.row_of else name

    def flag_idents(self, name):
        """identities of a flag, with flags defined as clusters expanded"""
        ident = self.ident(name)
        return list(EXPANSIONS.get((self.cmd, ident), (ident,)))

    def cluster(self, word):
        """short flags of a cluster, or None"""
        if len(word) < 2 or word[0] != "-":
            return None
        if any("-" + c in ATTACHED.get(self.cmd, ()) for c in word[1:-1]):
            return None
        return ["-" + c for c in word[1:]] if all("-" + c in self.flag_names for c in word[1:]) else None

    def make_cluster(self, chars):
        """the longest cluster which starts with the given short flags"""
        out = ""
        for c in chars:
            out += c
            if "-" + c in ATTACHED.get(self.cmd, ()): break
        return "-" + out

    def classify(self, words):
        """model of parsing: ([(ident,) or (ident, arg)], operands)"""
        out, i = [], 0
        while i < len(words):
            w = words[i]
            if w in self.flag_names:
                out += [(x,) for x in self.flag_idents(w)]
            elif w in self.option_names and i + 1 < len(words):
                out.append((self.ident(w), words[i + 1]))
                i += 1
            elif w.startswith("--") and "=" in w and w.split("=", 1)[0] in self.option_names:
                n, a = w.split("=", 1)
                out.append((self.ident(n), a))
            elif self.cluster(w):
                for c in self.cluster(w):
                    out += [(x,) for x in self.flag_idents(c)]
            else:
                break
            i += 1
        return out, list(words[i:])

    def idents(self, flagoptions):
        """identities in a parsed list of flags and options"""
        out = []
        for f in flagoptions:
            if len(f) == 1:
                out += [(x,) for x in self.flag_idents(f[0])]
            else:
                out.append((self.ident(f[0]), f[1]))
        return out


SPECS = {c: Spec(c) for c in list(TABLE) + NO_TABLE}
