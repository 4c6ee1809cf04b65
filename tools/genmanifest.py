#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01": "hang, panic and memory monitors on generated hostile inputs (coverage-guided), all modes",
"C02": "executable document model compared with the observed tree",
"C03": "executable model of string literals compared with the observed value tree",
"C04": "fault injection into generated documents, oracle on errors and partial trees",
"C05": "online trace checker: the token stream tiles the source",
"C06": "executable model of positions compared with every observed node position",
"C07": "metamorphic monitor: the same input under all modes",
"C08": "metamorphic monitor: concatenated documents, layout rewrites, values alone",
"C09": "executable model of comments compared with the observed comment groups",
"C10": "instrumented readers (chunking, faults, canaries), results compared",
"C11": "race detector plus result comparison under injected yields",
"C12": "history monitor: reused scanners and repeated runs against fresh ones",
"C13": "instrumented resolvers (call log) and entry oracle over the tree",
"C14": "executable model of name lists compared with the extracted names",
"C15": "conservation checker: text of every name in the source and in the author",
"C16": "executable model of plain text compared with the rendering",
"C17": "trace checker: visitor calls against a reference recursion",
"C18": "instrumented renderers (call log) and render-parse round trip",
"C19": "fault injection at every write of an instrumented writer",
"C20": "basic-block step counts and allocation counts of growing inputs",
"C21": "package result compared with the files alone, with injected file faults",
"C22": "verbatim-address monitor through parsing, rendering and resolving",
"C23": "reference replacement compared with the observed tree",
"C24": "construction helpers compared with the parser; description pairs",
"C25": "history checker against a table of names",
"C27": "end-to-end executable model: entries after parsing and all resolving steps compared with the generated document",
"C26": "structure checker over every part of the trees of hostile inputs, which are then walked, rendered and resolved",
}
L = {
"C01": "Held on the cases run: no execution panicked, exceeded its budget of executed basic blocks, or its heap bound. Hangs are decided on block counts, not on the clock.",
"C11": "The race detector and the comparison judge the interleavings that occurred; races on paths the scripts do not drive are not seen.",
"C20": "Growth is judged on block counts and allocation between two sizes of each family, up to 1 MiB; work inside the standard library shows only as allocation and processor time (wide margin).",
}
D = "Held on the cases run, which the evidence file counts; the oracle is trusted code in /verif/harness and judges the exported API only."
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
faults = set()
checks = [dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
  technique="runtime monitoring: " + T[i], level="exploration", level_note=L.get(i, D)) for i in ids]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
  notes="Every check builds /verif/harness against /repo's working tree in a scratch folder (block counters through a build overlay; the race detector for C11). No hooks are committed in /repo.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
