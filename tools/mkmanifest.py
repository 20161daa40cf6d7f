#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = json.load(open(V + '/contracts/scope.json'))
N = json.load(open(V + '/contracts/notes.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in S:
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3 tools/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
            'technique': 'contract-based deductive verification (Verus) of functions extracted from /repo/src on every run',
            'level': S[i]['level'], 'level_note': N[i],
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': N.get(i, 'check under construction')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
