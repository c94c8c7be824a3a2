#!/usr/bin/env python3
"""Writes MANIFEST.json from the contracts present; unclaimed properties get a reason."""
import json, glob, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{root}/properties.jsonl')]
units = {}
for f in sorted(glob.glob(f'{root}/contracts/*.spec')):
    cur = None
    for l in open(f):
        l = l.strip()
        if l.startswith('unit '): cur = l[5:].strip()
        elif l.startswith('property '):
            for p in re.split(r'[ ,]+', l[9:].strip()):
                units.setdefault(p, []).append(cur)
notes = json.load(open(f'{root}/tools/notes.json'))
commits = notes.get('_hooks', [])
m = {"version": 1, "setup_cmd": "bash /verif/build-govc.sh", "hooks": {"guard": "verif", "enable": "no hooks: /repo is verified as it is", "source_commits": commits},
     "checks": [], "not_applicable": [],
     "notes": "govc (in /verif/govc) is a contract verifier for Go over go/ssa with z3/cvc5; contracts in /verif/contracts. Details in DESIGN.md."}
for p in props:
    i = p['id']
    if i in units and i not in notes.get('_unclaimed', {}):
        m["checks"].append({"property": i, "quick_cmd": f"bash /verif/check.sh {i} quick", "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "evidence_file": f"/verif/evidence/{i}.json",
            "technique": "contract-based deductive verification: govc generates obligations from go/ssa of the current source (all paths, loops by invariants), z3/cvc5 discharge them",
            "level": "proof", "level_note": notes.get(i, "units: " + ", ".join(units[i])), "theorems": units[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get('_unclaimed', {}).get(i, "contracts for this property are not finished")})
json.dump(m, open(f'{root}/MANIFEST.json', 'w'), indent=1)
print(len(m["checks"]), "claimed")
