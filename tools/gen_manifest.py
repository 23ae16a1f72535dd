#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from specs import SPECS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i not in SPECS: continue
    s = SPECS[i]
    note = 'Bounded: ' + s['bounds'] + '. Outside: ' + s['outside'] + '. ' + s.get('note', '') + ' Trusts clang 18, the ksym executor and its models of the system allocator and pthread primitives, and z3 (SAT answers re-evaluated; UNSAT answers sampled against cvc5 and a newer z3 in the thorough tier).'
    checks.append({'property': i, 'quick_cmd': 'python3 run.py ' + i, 'thorough_cmd': 'python3 run.py ' + i + ' --tier thorough', 'technique': s.get('technique', 'symbolic execution of the LLVM IR of the real headers, z3 (QF_BV)'), 'level': 'model_checking', 'level_note': ' '.join(note.split())})
na = [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()]
for p in props:
    if p['id'] not in SPECS and p['id'] not in NOT_APPLICABLE: na.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
m = {'version': 1, 'setup_cmd': 'make -s -C engine OUT=../build', 'checks': checks, 'not_applicable': na, 'notes': 'run.py builds the executor on demand when build/ is empty. No hooks in /repo are needed.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
