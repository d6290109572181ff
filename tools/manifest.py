#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
V = "/verif/"
CLAIMED = {
 "P01": ("TLA+ parser/compiler machine (Wasp, WaspGen): TLC-written programs replayed, recorded answers validated",
         "Every single-definition program of the specification's pool (exhaustive) and random multi-definition programs written by TLC are replayed through the real compiler; randomly built programs' recorded answers are validated by TLC against the same specification. Bounded exploration: no claim for programs not explored. Trusts TLC, the recorder (harness/lite/src/wasp.rs) and the reading of the repository's unit tests for the introspect/intercept flag."),
 "P06": ("TLA+ specification of merging (Merge, MergeMC) model-checked by TLC; recorded tool invocations validated against it (MergeTrace)",
         "The specification is checked for two concurrent merges exhaustively; the real crate is run with a recording stand-in for wasm-merge over every single option and pair of options, many module shapes and names, and every recorded invocation is validated by TLC. Assumes the stand-in behaves as a program found on PATH."),
}
LEVEL = {}
for p in ("P02", "P03", "P04", "P05"):
    CLAIMED[p] = CLAIMED["P01"]
CLAIMED["P07"] = ("TLA+ specification of merging model-checked by TLC; recorded merges under scripted tool behaviours and resource faults validated against it (MergeTrace)",
                  "As P06, over scripted exits, signals, diagnostics, outputs and resource exhaustion (descriptors, file size, missing tool or directory); outcomes validated by TLC event by event.")
CLAIMED["P08"] = ("TLA+ specification of merging model-checked over all interleavings of two merges; recorded concurrent merges validated against it (MergeTrace)",
                  "All interleavings of two merges are explored in the specification; the real crate is run concurrently in threads and processes with scripted delays and failures, and each recorded interleaving and the directory contents are validated by TLC. Real schedules are sampled, not enumerated.")
try:
    from manifest_core import CORE
    CLAIMED.update(CORE)
except ImportError:
    pass
props = [json.loads(l) for l in open(V + "properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": [],
     "notes": "All checks: python3 bin/check.py PROPERTY quick|thorough. The specifications are in spec/ (TLA+, checked with TLC). No hooks were needed in /repo."}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet (planned, see DESIGN.md)"})
json.dump(m, open(V + "MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
