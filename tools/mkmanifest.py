#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl, the contracts present and the notes below.
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json'))
NOTES = json.load(open(V + '/tools/level_notes.json'))
BASE = ("Every obligation of the contracts in contracts/%s.spec is generated from /repo's current source and discharged by SMT "
        "(all inputs, all iterations, no bound). Trusted: the govc translation of Go SSA, the solvers, the assumed contracts of "
        "dependencies listed in the evidence; int64 arithmetic is mathematical, floats are reals; partial correctness. ")
checks = []
na = []
for p in props:
    i = p['id']
    if glob.glob(V + '/contracts/%s*.spec' % i):
        checks.append({
            "property": i,
            "quick_cmd": "./check %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
            "technique": "contract-based deductive verification of the Go code (pre/postconditions, invariants, frames; SMT-discharged per function)",
            "level": "proof",
            "level_note": (BASE % i) + NOTES.get(i, ""),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no contract within the verifier's reach has been built for it yet")})
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "check <id> regenerates and discharges every obligation from /repo's working tree; see DESIGN.md"}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
