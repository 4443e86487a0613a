#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and properties_map.py (run by hand, result committed)"""
import json, subprocess
from properties_map import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo on every run"),
            "level": c.get("level", "proof"), "level_note": c["note"], **({"theorems": c["theorems"]} if "theorems" in c else {}),
        })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")} for i in ids if i not in PROPS]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "cfg(plusendi_verif)",
        "enable": "RUSTFLAGS=--cfg plusendi_verif with PLUSENDI_VERIF_HOOKS naming the directory of access files (see check.py build_harness)",
        "source_commits": [l.split()[0] for l in hooks.splitlines() if l.split(" ", 1)[1].startswith("verif:")],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Known findings and repaired defects: known-findings.txt. Design: DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
