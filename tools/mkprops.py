"""Writes /verif/properties.jsonl (kept as a program only so that the text is easy to edit)."""
import json, os
PA = "pash_annotations/"
PR = PA + "parser/parser.py"
UT = PA + "parser/util_parser.py"
DATA = PA + "parser/command_flag_option_info/data"
AG = PA + "annotation_generation/AnnotationGeneration.py"
GEN = PA + "annotation_generation/annotation_generators"
IOI = PA + "annotation_generation/datatypes/InputOutputInfo.py"
PAR = PA + "annotation_generation/datatypes/parallelizability"
VARS = PA + "datatypes/CommandInvocationWithIOVars.py"
props = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Parsing keeps every word of a command line, in order, with the right arity",
  "Parsing a shell-quoted command line gives the command name followed by every further word exactly once and in order, as a flag, as an option with its argument, or as an operand; no word is lost, duplicated, reordered or altered. For the commands with a table, a leading word is a flag exactly if the command takes no separate argument for it, an option with the right argument if it takes one (given as next word or after an equal sign of a long option), and a cluster of short flags gives each of its flags. From the first word that is none of these on (also an empty word), all words are operands.",
  ["inputs"], "all command lines of the 24 commands with a table and of arbitrary other commands: every flag and option of the table in every spelling, clusters, equal signs, arbitrary option arguments and operands (quotes, blanks, newlines, unicode, leading dashes, empty words), any quoting style",
  "The 8 parser tests look at one or two spellings of cat, grep and sort; a wrong arity of any other option, a dropped word or a quoting problem stays unnoticed.",
  [PR, UT, DATA], [("tokenising and the classification loop", PR), ("tables of flags and options", DATA)], observe=["result of parse"])
p("C02", "Equivalent spellings of a command line are understood identically",
  "Two command lines which differ only in how they are written (quoting, long or short name of a flag or option, flags clustered or separate, option argument as separate word or after an equal sign) have equal parses, equal input/output annotations and equal parallelizability annotations. Different flags, options, arguments or operands are never merged: command lines of different meaning have different parses.",
  ["inputs"], "all command lines of commands with a table and all pairs of spellings of them, and all single-word modifications of them",
  "Two tests compare one pair of spellings (cat -be, sort --output); whether an annotation generator sees the same flags for every synonym is a property of all pairs.",
  [PR, DATA, AG, GEN], [("canonical name for synonyms", PR), ("tables list synonyms in one row", DATA), ("annotation generators look at canonical names", GEN)], observe=["result of parse", "both annotations"])
p("C03", "A command rebuilt from its parsed form behaves like the original command",
  "Executing the command rebuilt from the parsed form (command name, then flags and options with their arguments, then operands) has the same standard output, exit status and effect on the file system as executing the original command line, except for requests for help or the version and options which wait, need a terminal or behave randomly.",
  ["inputs", "programs"], "all valid command lines of the installed commands with a table, over generated file systems and standard inputs",
  "No test executes a command; a synonym listed with the wrong primary name, or a table row with a wrong arity, changes what the rebuilt command does only for that option.",
  [PR, DATA], [("canonical names and arities", DATA), ("parse", PR)], observe=["real execution of both commands"])
p("C04", "Applying an input/output annotation types every argument exactly once",
  "Applying the input/output annotation of a command to the command gives a command with the same name, the same flags, and the same options and operands in the same order with unchanged text, in which every option argument and operand is either a plain string or a file with exactly one access kind; '-' as file denotes standard input if it is read and standard output if it is written. The grouped views (configuration, streaming or other input, streaming or other output) and the report whether there are other outputs agree with these types, and the original command stays unchanged.",
  ["inputs"], "all invocations of annotated commands, and all sequences of the role-assigning operations on annotations with any number of operands and any option types",
  "About 20 invocations are tested, nearly always only by counting operands per kind; order, text and '-' are compared in none or one of them.",
  [IOI, PA + "datatypes/CommandInvocationWithIO.py", PA + "datatypes/BasicDatatypesWithIO.py", PA + "util.py", PA + "datatypes/AccessKind.py"],
  [("typers for flags, options and operands", IOI), ("'-' to descriptor", PA + "util.py")], observe=["command with I/O information"])
p("C05", "Input/output annotations are sound for what the command really does",
  "If a command has an input/output annotation without other outputs and its execution succeeds, then the execution consumes standard input only if this is annotated, depends only on files annotated as read, changes only files annotated as written, and prints only if standard output is annotated. Files annotated as streaming inputs really exist as files the command takes, and annotated streaming outputs are really written. (Requests for help or the version are excluded.)",
  ["inputs", "programs"], "all valid invocations of the installed annotated commands (text-processing scripts that do I/O of their own and commands run by xargs excluded) over generated file systems and standard inputs",
  "The tests compare annotations with expectations written by the same authors; none runs the command, so a wrong belief about a command is in both.",
  [GEN, DATA, IOI], [("input/output generators", GEN), ("access kinds of option arguments", DATA)], observe=["file offsets of stdin, file-system differences, outputs under perturbation of undeclared files"])
p("C06", "Input/output annotations assign the documented role to every argument",
  "For every invocation of an annotated command, each operand, option argument, standard input and standard output gets exactly the role (configuration string, configuration / streaming / other input, streaming / other output, unused) that the command's documentation gives it. These get no annotation: comm without exactly two operands, uniq with more than two, set_diff without exactly one, mv with several -t, grep, sed and awk without pattern or script, grep -r, -R or -d recurse without files, wc --files0-from, awk with options that make it read or write further files (-d, -D, -g, -i, -o, -p) or with assignments as operands, tee - and sort -o - (which are files of this name), and invocations with an operand (for xargs: a first operand) that starts with a dash and may thus be an option which the table does not know (not for seq, whose operands may be negative numbers).",
  ["inputs"], "all combinations of flags, options and numbers of operands of the 27 commands with input/output annotation",
  "10 commands have tests, with 1 to 4 invocations each; the roles depend on combinations of flags and operand counts.",
  [GEN, IOI, DATA], [("input/output generators", GEN), ("table of access kinds", DATA)], observe=["input/output annotation applied to the invocation"])
p("C07", "Unknown or invalid commands get no annotation, and no lookup fails",
  "Parsing any non-empty command line and asking for its annotations never fails: for commands nobody annotated, and for invalid invocations, the answer is that there is no annotation. In particular a command never gets the annotation or the flag table of another command.",
  ["inputs"], "arbitrary command names (also path-like, over-long, with odd characters, similar to known names) and arbitrary words, and arbitrary programmatically built invocations",
  "The tests only ask for well-formed invocations of annotated commands.",
  [AG, PR, UT], [("lookup by command name with fallback", AG), ("default table", UT)], observe=["parse and both annotation queries"])
p("C08", "Annotations are a function of the command alone, whatever happened before",
  "Parsing and annotating the same command gives the same answer in every process, in every order and however often it is asked, whatever was done with earlier answers (also modifying them), and never changes the command it is asked about. Answers for different commands share no modifiable parts.",
  ["histories"], "all histories of parse, annotate, apply, infer, derive-mapper, derive-aggregator and modify-the-answer operations over many commands",
  "Every test asks once about a freshly built command.",
  [AG, GEN, PR, PA + "annotation_generation/datatypes/ParallelizabilityInfo.py"], [("fresh generator object per query", AG), ("factory functions build fresh specifications", PAR)], observe=["structural dump of all answers"])
p("C09", "Running a command in parallel as annotated preserves its output",
  "If a command with a single streaming input is annotated as parallelizable and all parts of the parallelizer are implemented or have a defined meaning, then splitting the input as annotated, running the mapper on every part and combining the results with the aggregator gives exactly the output of the sequential command. (xargs: for invocations that run the command once per item; the placeholder functions for adjacent lines have no defined meaning and are not part of this; text input, requests for help excluded.)",
  ["inputs", "programs"], "all invocations of parallelizable commands with one streaming input, all line-based text inputs, all numbers of parts and ways to cut the input into consecutive chunks or round-robin blocks, all shapes of the aggregation tree (C locale)",
  "No test executes anything: tests compare the list of parallelizers with a copy of it. Soundness depends on flags, data and cuts.",
  [GEN, PAR], [("parallelizability generators", GEN), ("mapper and aggregator specifications", PAR)], observe=["output of real sequential and parallel executions"])
p("C10", "Parallelizability is annotated exactly as documented for every flag combination",
  "For every invocation of a command with parallelizability annotation, the set of parallelizers (splitter, mapper, aggregator, information passed between them, implemented or not) and the properties of the command are the ones documented for this combination of flags, options and operands; flags that make parallelization unsound leave no parallelizer.",
  ["inputs"], "all combinations of flags and options of the commands with parallelizability annotation, and all sets of tr",
  "Between 1 and 4 flag combinations of 7 commands are tested.",
  [GEN, PAR], [("parallelizability generators", GEN)], observe=["parallelizability annotation"])
p("C11", "Parallelizers inferred from commutativity are complete, correct and repeatable",
  "The inferred list of parallelizers consists of the annotated ones in order, followed, for a commutative command only, by one copy of each consecutive-chunks parallelizer with the splitter replaced by round-robin with unwrapping and nothing else changed. Inferring never changes what was annotated, so repeating it gives the same answer.",
  ["inputs", "histories"], "all lists of parallelizers of all kinds, with and without commutativity, and any number of repeated queries and additions in between",
  "The tests read the annotated list directly and never ask for the inferred one twice.",
  [PA + "annotation_generation/datatypes/ParallelizabilityInfo.py", PAR + "/Parallelizer.py"], [("inference", PA + "annotation_generation/datatypes/ParallelizabilityInfo.py")], observe=["inferred list"])
p("C12", "Mappers are the sequential command with exactly its streams replaced",
  "A mapper derived from a command has the (possibly replaced) command name, the transformed flags and options, and the original operands and implicit streams with the one streaming input and the one streaming output replaced by the requested ones, and its access information describes exactly its variables. With auxiliary outputs its operands are input, output and auxiliary outputs in this order and it uses no implicit stream; the original command is unchanged, and there is no mapper if the mapper is not implemented.",
  ["inputs"], "all commands with variables (streams in operands, options or implicit), all mapper specifications, all fresh variables and numbers of auxiliary outputs",
  "No test derives a mapper.",
  [PAR + "/MapperSpec.py", PAR + "/Mapper.py", VARS, PAR + "/Parallelizer.py"], [("derivation", PAR + "/MapperSpec.py"), ("substitution of variables", VARS)], observe=["derived mapper and original command"])
p("C13", "Aggregators combine exactly the given inputs into exactly the given output",
  "An aggregator derived for given inputs and output takes exactly these inputs, in order, as its operands and writes exactly to this output, with the command name and the flags its kind defines (concatenation: cat without flags; derived from the command: its transformed flags and options without its old streams; given as text: as written); its kind is that of the specification. With auxiliary streams the operands are first input with its auxiliary inputs, second input with its auxiliary inputs, output, auxiliary outputs. The original command is unchanged, there is no aggregator if it is not implemented, and wrong numbers of inputs are rejected.",
  ["inputs"], "all commands with variables, all aggregator specifications, all numbers of inputs and auxiliary streams",
  "No test derives an aggregator.",
  [PAR + "/AggregatorSpec.py", PAR + "/Aggregator.py", VARS], [("derivation", PAR + "/AggregatorSpec.py")], observe=["derived aggregator and original command"])
p("C14", "Operations on commands with variables touch exactly the selected variables",
  "Substituting streaming inputs or outputs, renaming, removing and listing the variables of a command visits all variables in options, operands and implicit streams, in this order, each exactly once; exactly the selected ones are changed, everything else (names, flags, string arguments, order) stays, and the access information keeps describing exactly the remaining variables. Operands and options grouped by role are exactly those whose variable has this role, in order (strings count as configuration). Substitution with too few or too many variables is rejected.",
  ["histories"], "all commands with any mix of variables and all sequences of substitute, rename, remove, list and query operations",
  "No test uses commands with variables.",
  [VARS], [("traversal", VARS)], state=[("access map", "access kind of every variable", VARS)], observe=["command after every operation"])
p("C15", "Transformers of flag lists follow their laws",
  "Keeping, adding, removing, filtering, emptying, replacing and chaining transformers give exactly the documented list: adding appends, in order, what is not yet there; removing and filtering partition the list by name and keep order; chaining applies the parts from first to last. A transformer changes neither its argument nor itself, so applying it again gives the same result.",
  ["inputs"], "all lists of flags and options, all transformers and chains of them",
  "No test applies a transformer; only equality of specifications is tested.",
  [PAR + "/TransformerFlagOptionList.py", PA + "util.py"], [("transformers", PAR + "/TransformerFlagOptionList.py")], observe=["transformed list"])
p("C16", "Values compare equal exactly if they have the same kind and content",
  "Flags, options, operands, files, descriptors, access kinds, commands in all forms, splitters, specifications of mappers and aggregators, transformers, parallelizers, mappers and aggregators are equal exactly if they are of the same kind and all their parts are equal; equality is reflexive, symmetric and transitive, never fails (also against values of other types), and copies are equal until one of them is changed.",
  ["inputs"], "all pairs and triples of values of all these kinds, including pairs differing in a single part, and values of other types",
  "Tests compare a result with one expected value, which a comparison that is too generous also passes.",
  [PA + "util_standard.py", PA + "datatypes/BasicDatatypes.py", PA + "datatypes/BasicDatatypesWithIO.py", PA + "datatypes/BasicDatatypesWithIOVar.py", PA + "datatypes/AccessKind.py", PAR], [("equality of class and contents", PA + "util_standard.py")], observe=["==, !="])
p("C17", "The command-line tool reports what the library computes, overwriting no file",
  "For any command line, the command-line tool reports the command line, its parse, its input/output annotation (or that there is none, or that there are other outputs) and its parallelizability exactly as the library computes them. With a file to save to, a new file (relative to the caller's directory) gets exactly this report; whatever already exists at that path is never changed, and the report is printed instead. The report shows every part in order, so commands whose parse or annotations differ have different reports.",
  ["inputs", "configurations"], "all command lines, and save paths that are new, existing files, directories, dangling links, links to files, in missing directories, absolute or relative, from any working directory",
  "The tool has no test.",
  [PA + "annotation_cli.py"], [("exclusive creation", PA + "annotation_cli.py")], observe=["standard output, saved file and file system of the tool"])
p("C18", "Tables generated from manual pages are valid and usable by the parser",
  "For any option list of a manual page, the table generator prints a valid table: every flag entry is a list of names and every option entry a list of a name and its argument, all of them from the input, each name at most once and in order of appearance; flags and options written in the documented patterns are all listed (also if a description follows on the line), flags of one line in one entry unless the line has an option. The parser accepts any valid table and treats the flags and options as the table says.",
  ["inputs"], "all texts in the style of manual-page option lines (short, long, with and without arguments, optional arguments, repetitions, prose)",
  "The generator has no test.",
  [PA + "parser/command_flag_option_info/args-to-json.py", PR], [("line patterns", PA + "parser/command_flag_option_info/args-to-json.py")], observe=["printed table", "parse with this table"])
p("C19", "Parallelizers can only be built and used consistently",
  "A parallelizer built from parts has exactly these parts, with sequential mapper, concatenating aggregator and no extra information as defaults; plain round-robin splitting with an aggregator other than concatenation or one for adjacent lines is rejected. It counts as implemented exactly if mapper and aggregator are, an unimplemented part is never derived, and deriving a mapper with a number of auxiliary outputs other than declared is rejected.",
  ["inputs"], "all combinations of splitter, mapper specification, aggregator specification and passed information, built by any of the factories",
  "Tests only build the combinations used by seven commands.",
  [PAR + "/Parallelizer.py", PAR + "/Splitter.py", PAR + "/MapperSpec.py", PAR + "/AggregatorSpec.py"], [("sanity checks", PAR + "/Parallelizer.py")], observe=["construction and derivation"])
p("C20", "Commands added in the documented way get the annotations they define",
  "A command added in the documented way (an entry in the dictionary from names to generators, a table of flags and options, a file for each kind of generator, each written with the helpers of the interfaces) is parsed as its table says and gets exactly the annotations its generators define for each command line: conditions on flags, options and operands hold exactly if these are there, helpers append exactly the parallelizers they are named after, options naming files have the access in the table. Without a table, entry or generator, or if a generator rejects the command line, there is no annotation. Two names for one generator get the same annotations, and commands that are there already keep theirs.",
  ["inputs", "configurations"], "all tables, all generators made of the documented helpers under any nesting of conditions, sets of up to five new commands, and all command lines of new and existing commands",
  "Tests only use the commands that are there.",
  [AG, GEN + "/Generator_Interface.py", GEN + "/InputOutputInfoGenerator_Interface.py", GEN + "/ParallelizabilityInfoGenerator_Interface.py", PA + "config/definitions.py", UT, "docs/adding-annotations.md"],
  [("loading of generators", AG), ("helpers", GEN)], observe=["parse and annotations of added and existing commands, in a scratch copy"])
p("C21", "Values have exactly the parts they were made from; helpers do what they say",
  "Every value (flags, options, operands, files, descriptors, access kinds, commands of all four kinds, mappers, aggregators, splitters, specifications, parallelizers) has exactly the parts it was made from, also in a copy; commands with variables, mappers and aggregators do not change when the lists and maps they were made from do. The views of a command grouped by role have exactly the operands with this role, in order. The names of access kinds in tables stand for these kinds and other names are rejected. Shared helpers fold from the left, keep the first of equal elements, replace None and nothing else by a default, and show a shell word with every part of it.",
  ["inputs"], "all values of all kinds with any parts, all names of access kinds and words like them, all lists and shell words",
  "No test reads back the parts of values other than those of a few commands.",
  [PA + "datatypes/" + n for n in ("BasicDatatypes.py", "BasicDatatypesWithIO.py", "BasicDatatypesWithIOVar.py", "AccessKind.py", "CommandInvocationWithIO.py", "CommandInvocationWithIOVars.py")] + [PA + "util.py", PA + "util_flag_option.py", PAR + "/Aggregator.py", PAR + "/Mapper.py"],
  [("values", PA + "datatypes/"), ("helpers", PA + "util.py")], observe=["parts of values, results of helpers"])
p("C22", "Queries at the same time, or after a failed one, get the answers they get alone",
  "When several threads of a program parse commands, ask for their annotations, apply and infer them and derive mappers and aggregators at the same time, also from the same annotations and commands, every query gets the answer it gets alone, however the threads are interleaved. When a query fails at any point (interrupt, lack of memory, stack or files), later queries, also about the same commands and annotations, get the answers they get without this failure.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of threads between lines of the library, all points at which a query can fail, all commands and queries",
  "Tests ask one question at a time, and nothing fails.",
  [PR, UT, AG, GEN + "/Generator_Interface.py", PA + "annotation_generation/datatypes/ParallelizabilityInfo.py", PAR + "/MapperSpec.py", PAR + "/AggregatorSpec.py"],
  [("queries", AG), ("derivation", PAR)], observe=["answers under controlled schedules and injected faults"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in props: f.write(json.dumps(q) + "\n")
for q in props:
    assert len(q["title"]) <= 80, q["id"]
    for fn in q["anchors"]["files"]:
        assert os.path.exists("/repo/" + fn), fn
