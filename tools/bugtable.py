"""Write the table of planted bugs into DESIGN.md (between the markers)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MADE = {  # what a check learned from a bug it would have missed
    "core-index-byte": "wide programs: more than 256 functions",
    "core-element-front": "passive segments in the generated programs",
    "core-call-order": "several tables in the generated programs and in `Machine`",
    "core-base-table": "several tables in the generated programs and in `Machine`",
    "core-buffer-leak": "many calls in one run; buffers in use are counted",
    "core-typed-select": "references in the generated programs",
    "core-offset-sign": "offsets of 2^31 and more",
    "core-targets-unsorted": "selections in any order",
    "core-float-slot": "NaN payloads in the histories of buffers",
    "lib-rust-slots": "live neighbours in the histories of buffers",
    "wasp-guest-crlf": "seams of guest text: every kind of line ending at every end of the text",
    "wasp-guest-newline": "seams of guest text",
    "merge-large-output": "outputs of the stand-in tool beyond pipe and buffer sizes",
    "pure-long-chain": "chains of calls longer than any fixed bound",
    "as-result-bounds": "indices just beyond the arguments and beyond the results, separately",
    "merge-content-addressed": "requests with modules in common",
    "merge-remembered": "the same request again",
    "wasp-guest-bom": "byte order marks and other controls in guest text",
    "merge-sweeps-stale": "old files of others",
    "report-wide-add": "programs with every operator",
    "core-brif-answer": "answers that are even and not zero",
}
rows = ["| bug | property, check that catches it | what it breaks | needs | what the check learned |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], MADE.get(d, "")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
