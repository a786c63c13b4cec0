#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks below."""
import glob
import json
import re
TECH = {
 "model": "property-based testing: structured table/text generation against an independent reference model (differential), with shrinking",
}
MODEL_NOTE = ("Random search, no proof: {n} generated tables per quick run, each with several texts, compared with a naive reference model "
  "written from the documentation and observed behaviour. Trusts the model and the generator's reach; constructs with undocumented outcome are discarded (counted in the evidence).")
CLAIMED = {
 **{c: (TECH["model"], MODEL_NOTE.format(n="{n}")) for c in "C06 C07 C08 C09 C10 C11 C12 C13 C14 C25".split()},
}
TECH["total"] = "property-based fuzzing of tables and texts (grammar-based, mutation and raw), with crash, hang and allocation watchdogs and an invariant oracle"
TOTAL_NOTE = ("Random search, no proof: {n} generated cases per quick run in 8 worker processes with stack, memory and time limits; what a case may not do is judged by {o}. "
  "Tables and texts are bounded in length.")
CLAIMED.update({
 "C01": (TECH["total"], TOTAL_NOTE.format(n="{n}", o="the process: no panic, overflow, runaway allocation or hang")),
 "C02": (TECH["total"], TOTAL_NOTE.format(n="{n}", o="the process: no panic, overflow, runaway allocation or hang")),
 "C03": ("property-based testing: metamorphic relation (same input, same output) across calls, translators, threads and processes", TOTAL_NOTE.format(n="{n}", o="comparing outputs of repeated, rebuilt and concurrent translations and of several processes")),
 "C04": ("property-based testing: invariant over the recorded steps of each translation", TOTAL_NOTE.format(n="{n}", o="an invariant of the recorded steps")),
 "C05": ("property-based testing: line grammar with known-good and known-bad lines (constructed oracle)", TOTAL_NOTE.format(n="{n}", o="which lines were made valid or invalid on purpose")),
 "C15": (TECH["model"], MODEL_NOTE.format(n="{n}")),
 "C26": (TECH["model"], MODEL_NOTE.format(n="{n}")),
 "C27": (TECH["model"], MODEL_NOTE.format(n="{n}")),
 "C16": ("property-based testing: round trip over generated uniquely readable tables", "Random search, no proof: {n} generated tables per quick run, each with up to eight texts, translated and translated back. Only tables built to be readable in one way; texts whose contractions depend on each other are discarded (counted)."),
})
META_NOTE = "Random search, no proof: {n} generated tables per quick run. The relation only compares two runs of the real code, so what both get wrong in the same way is left to the properties with a model. {x}"
CLAIMED.update({
 "C17": ("property-based testing: metamorphic relation (rules of the other direction added, unmarked rules split by direction)", META_NOTE.format(n="{n}", x="")),
 "C18": ("property-based testing: metamorphic relation (the same rules in another spelling)", META_NOTE.format(n="{n}", x="")),
 "C19": ("property-based testing: metamorphic relation (irrelevant rules added, non-competing rules shuffled)", META_NOTE.format(n="{n}", x="")),
 "C20": ("property-based testing: differential (directory of files against pasted text), constructed oracle for the errors", META_NOTE.format(n="{n}", x="File names are plain ASCII.")),
 "C21": ("property-based testing: generated YAML documents, the verdicts of the real `louis check` process against a model of the verdict over library translations", "Random search, no proof: {n} runs of the tool per quick run. YAML is written in the styles the format documents; strings with NUL are only written escaped (the YAML library ends them there)."),
 "C22": ("property-based testing: generated display tables through the real `louis check` process against a naive model", "Random search, no proof: {n} runs of the tool per quick run."),
 "C23": ("property-based testing: generated directories and queries, the real `louis query` process against a naive model", "Random search, no proof: {n} cases per quick run."),
 "C28": ("property-based testing: the rules that the real `louis trace` process names against the rules of the generated table", "Random search, no proof: {n} runs of the tool per quick run, each with several texts. Whether the named rule is the right one among several that say the same is left to the properties with a model; the text of match patterns and multipass tests is compared in its parts only."),
 "C24": ("property-based testing: differential (output of the real `louis` process against the library)", "Random search, no proof: {n} runs of the tool per quick run. The text of tables of steps is only compared where the text holds no control or box-drawing characters."),
})
try:
    from manifest_more import MORE
    CLAIMED.update(MORE)
except ImportError:
    pass
# the budgets are those of the checks themselves
QUICK = {}
for f in glob.glob("harness/src/props/*.rs"):
    for i, n in re.findall(r'id: "(C\d+)",\s+quick: ([\d_]+)', open(f).read()):
        QUICK[i] = int(n.replace("_", ""))
props = [json.loads(l) for l in open("properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "bash /verif/build.sh",
 "hooks": {
  "guard": "cfg louis_verif",
  "enable": "RUSTFLAGS='--cfg louis_verif' (env.sh); build.sh compiles /repo's working tree as a path dependency of /verif/harness",
  "source_commits": ["80605480a6e27f9725e2f0c54a0c116f4167aa15"],
 },
 "checks": [],
 "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        n = n.replace("{n}", f"{QUICK[i]:,}")
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
                            "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: the check is being built"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
