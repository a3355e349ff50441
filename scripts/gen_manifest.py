#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (antlint list) and the
notes below."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'scripts'))
from notes import NOTES, NA
reg = {}
for l in subprocess.check_output([os.path.join(root, 'bin/antlint'), 'list'], text=True, errors='replace').splitlines():
    i, _, rule = l.partition(' ')
    reg[i] = rule
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
GEN = "Sound for the rule over every path of the analysed functions up to the stated abstractions (loops widened, library callees opaque); trusts go/types, go/ssa and the documented behaviour of callees outside the module. Decides the structural rule, not timing or values of third-party code."
for p in props:
    i = p['id']
    if i in reg:
        t, note = NOTES.get(i, ("path-sensitive typestate and provenance dataflow over SSA", ""))
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "technique": t,
            "level": "other",
            "level_note": (note + " " if note else "") + GEN,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: ./check.sh ID runs tool/ (a Go program on golang.org/x/tools/go/ssa) on /repo's current source. No hooks in /repo."}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
