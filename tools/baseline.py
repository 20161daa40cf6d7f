#!/usr/bin/env python3
"""Writes contracts/baseline.json: the text hash, loops and calls of every function of the tree the contracts were written for."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call([V + '/target/vpx/release/vpx', '--src', '/repo/src', '--contracts', V + '/contracts', '--out', d, '--feature', 'threads'])
    o = json.load(open(d + '/extract.json'))
b = {f['key']: {'hash': f['hash'], 'loops': f['loops'], 'calls': f['calls'], 'status': f['status'], 'binds': f['binds'], 'tail': f['tail']} for f in o['functions']}
json.dump(b, open(V + '/contracts/baseline.json', 'w'), indent=0, sort_keys=True)
open(V + '/contracts/baseline.json', 'a').write('\n')
print(len(b))
