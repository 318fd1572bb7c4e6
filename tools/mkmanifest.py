#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties and the reasons for the others."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(D + '/properties.jsonl')]
claimed = json.load(open(D + '/tools/claimed.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed and claimed[i].get('level'):
        c = claimed[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} --tier quick", "thorough_cmd": f"./check.sh {i} --tier thorough",
                       "technique": "contract-based deductive verification of the real code (gv: symbolic execution of go/ssa against contracts, obligations discharged by z3 and cvc5)",
                       "level": c['level'], "level_note": c['note']})
    else:
        na.append({"property": i, "reason": claimed.get(i, {}).get('reason', "not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the verifier reads the source as it is; replay drivers go in through go test -overlay."}
json.dump(m, open(D + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
