#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and engines.PROPERTIES."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent))
import engines
V = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
NA = {
 "G02": "Symbols are built by formatting dyn segments into heap strings through core::fmt; injectivity of that concatenation over unbounded names does not finish in CBMC, and stubbing the formatter would replace what the property is about. A real collision seen by reading is described in DESIGN.md.",
 "G09": "A statement on the parse of the emitted text: the state of the printer is formatted text, and a per-function contract cannot express it without a model of the printer.",
 "G10": "Depends on canonicalisation, symbolic links and the process environment, which have no body to put a contract on; modelling the file system is a different family.",
 "X02": "Interleavings of std::shared_ptr control-block operations: Kani, CBMC's contracts and the VC generator are sequential.",
 "X03": "Whole-history and crash-point property of the real file system; a per-call contract has no vocabulary for prior directory states or crash points.",
}
NA.update(engines.NOT_APPLICABLE)
checks = []
for i in ids:
    if i not in engines.PROPERTIES: continue
    e = engines.PROPERTIES[i]
    checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i}", thorough_cmd=f"python3 bin/check.py {i} --tier thorough",
                       technique=e["technique"], level=e["level"], level_note=e["note"]))
na = [dict(property=i, reason=NA.get(i, "No contract within reach decides it; see DESIGN.md.")) for i in ids if i not in engines.PROPERTIES]
m = dict(version=1, setup_cmd="sh bin/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: contracts are attached to a verbatim copy of the sources made on every run (see DESIGN.md).")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
