#!/usr/bin/env python3
"""Regenerates MANIFEST.json from specs.py and properties.jsonl."""
import json, os, subprocess
import specs
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = specs.NA
checks = []; na = []
for p in props:
    i = p['id']
    if i in specs.JOBS:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the real code (LLVM bitcode of /repo), SMT (z3, cvc5) verdict over all inputs' + ('/interleavings' if any(j.threads for j in specs.JOBS[i]) else '') + ' within bounds, native replay under ASan',
            level='model_checking', level_note=specs.NOTE.get(i, '') + ' Bounded: see coverage.jobs[].bounds. Trusts the executor (engine/), the libc/libstdc++/pthread models in rt/ (cross-checked by native replay of sampled paths), clang -O1 and z3/cvc5; sequentially consistent interleavings.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na, notes='Known and repaired findings: known_findings.json. Design: DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
