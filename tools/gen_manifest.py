#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks whose monitors exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X, F = "exploration", "fault_enumeration"
C = {
 "C01": (X, "model-based monitor over random histories; independent block decoder",
   "Seeded random append histories under random configurations; every read path and an independent decoding of the raw blocks are compared with a reference list. Explores thousands of histories per run, not all."),
}
exec(open(os.path.join(V, "tools/checks.py")).read()) if os.path.exists(os.path.join(V, "tools/checks.py")) else None
checks = []
for id in sorted(C):
    b = id.lower() + ".rs"
    if not any(os.path.exists(f"{V}/{c}/src/bin/{b}") for c in ("harness", "umon")): continue
    level, technique, note = C[id]
    checks.append(dict(property=id, quick_cmd=f"./run.sh {id}", thorough_cmd=f"./run.sh {id} --thorough",
        technique="runtime monitoring: " + technique, level=level, level_note=note))
have={c['property'] for c in checks}
props=[json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
na=[dict(property=i,reason='its monitor is not built yet') for i in props if i not in have]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
    open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
