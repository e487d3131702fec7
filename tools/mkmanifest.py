"""Writes /verif/MANIFEST.json."""
import json, os
TECH = {
 "C01": ("generated command lines compared with an independent model of parsing", "every name of every table in every form enumerated, the rest sampled; trusts the table of arities in harness/gnu.py, written from the GNU manuals"),
 "C02": ("metamorphic: two generated spellings of one command line compared; mutated command lines must differ", "all pairs of synonyms enumerated, combinations sampled; trusts the synonyms in harness/gnu.py"),
 "C03": ("differential execution of generated command lines, original against rebuilt", "real commands in scratch directories; covers the installed commands (awk is mawk)"),
 "C04": ("generated commands and sequences of role assignments compared with a model of typing", "sampled; the independent model is in the check"),
 "C05": ("generated executions perturbed: files, directories and streams outside of the annotation are changed and must not matter", "real commands in scratch directories; only what generated files and options can show"),
 "C06": ("generated and pairwise enumerated command lines compared with an independent reference of roles", "all flags and ordered pairs enumerated; trusts harness/ref.py, written from the manuals"),
 "C07": ("generated odd command names, words and built invocations: totality and absence of annotations", "sampled, plus fixed hard names"),
 "C08": ("generated histories of queries and modifications in forked pristine processes, compared with pristine answers", "sampled histories of up to 14 operations over up to 5 command lines, and every annotated command systematically"),
 "C09": ("differential execution: sequential command against generated splittings, mappers and aggregation trees", "real commands where installed, emulations of the custom ones; C locale text; known findings excluded from the search"),
 "C10": ("generated and pairwise enumerated command lines compared with an independent reference of parallelizers; tr sets against the real tr", "all flags and ordered pairs enumerated; trusts harness/ref.py"),
 "C11": ("model-based histories over parallelizability information", "sampled histories over arbitrary parallelizers"),
 "C12": ("generated mapper specifications and commands compared with a model; original unchanged", "sampled; the model is in the check"),
 "C13": ("generated aggregator specifications, commands and inputs compared with a model; original unchanged", "sampled; the model is in the check"),
 "C14": ("model-based histories of operations on commands with variables", "sampled histories; the model is in the check"),
 "C15": ("generated transformers, chains and lists compared with laws and a model", "sampled"),
 "C16": ("generated pairs of values of all kinds: equality compared with equality of their descriptions", "sampled pairs, equal, mutated and unrelated ones"),
 "C17": ("generated command lines and save paths, the tool run in contained children, report and file system compared", "fork of a process with the library, plus real processes"),
 "C18": ("generated manual-page option lists compared with a model of the generator; tables used by the real parser compared with a model of parsing", "documented patterns exactly, arbitrary text for validity"),
 "C19": ("generated parallelizers by all factories compared with a model of construction and derivation", "sampled"),
 "C20": ("generated commands (tables and generators) added to a scratch copy, annotations compared with a model", "sampled; up to five new commands at a time, conditions nested up to two deep"),
 "C21": ("generated values of all kinds read back through their public names; helpers compared with models", "sampled"),
 "C22": ("generated schedules of threads and injected faults under a line-level scheduler, answers compared with those of pristine processes", "sampled; switches and faults between lines of the library"),
}
checks = [dict(property=p, quick_cmd="python3-vt harness/run.py %s" % p, thorough_cmd="python3-vt harness/run.py %s --tier thorough" % p,
               evidence_file="evidence/%s.json" % p, technique="property-based testing: " + t, level="exploration", level_note=n) for p, (t, n) in TECH.items()]
m = dict(version=1, setup_cmd="python3-vt -c \"import hypothesis\" && mkdir -p evidence replays", checks=checks, not_applicable=[],
         notes="No hooks: every property is observed through public names, printed reports and real executions. VERIF_SEED selects the explored cases.")
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
