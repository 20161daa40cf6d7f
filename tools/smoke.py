#!/usr/bin/env python3
"""Vacuity test: a false assertion at the start, the end or in the loops of every
function under contract has to fail in every one of them (otherwise its contract,
an invariant or an assumption is contradictory).  usage: smoke.py start|end|head|exit"""
import glob, json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + '/target'
where = sys.argv[1]
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call([T + '/vpx/release/vpx', '--src', '/repo/src', '--contracts', V + '/contracts', '--out', d, '--feature', 'threads'], env=dict(os.environ, VPX_SMOKE=where))
    ext = json.load(open(d + '/extract.json'))
    deps = T + '/deps/debug/deps'
    cmd = ['verus', '--crate-type=lib', 'lib.rs', '--edition', '2021', '--multiple-errors', '40', '--rlimit', '30', '--output-json', '--error-format=json', '-L', 'dependency=' + deps]
    for c in ['digest', 'sha2', 'blake2', 'blake3', 'generic_array', 'typenum', 'openat', 'itertools', 'num_cpus', 'futures', 'futures_cpupool']:
        cmd += ['--extern', '%s=%s' % (c, glob.glob('%s/lib%s-*.rlib' % (deps, c))[0])]
    p = subprocess.run(cmd, cwd=d, capture_output=True, text=True)
    n, hit, sites = 0, {}, {}
    for f in ext['functions']:
        if f['status'] == 'verified':
            ls = open(d + '/' + f['file']).read().split('\n')
            inner = [g for g in ext['functions'] if g is not f and g['file'] == f['file'] and f['out_lines'][0] <= g['out_lines'][0] and g['out_lines'][1] < f['out_lines'][1]]
            for i in range(f['out_lines'][0], f['out_lines'][1] + 1):
                if ls[i - 1] == 'assert(1int == 2int);' and not any(g['out_lines'][0] <= i <= g['out_lines'][1] for g in inner):
                    sites[(f['file'], i)] = f['key']
    failed = set()
    other = []
    for l in p.stderr.splitlines():
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('level') != 'error': continue
            s = [(x['file_name'].replace('./', ''), x['line_start']) for x in m['spans'] if x['is_primary']]
            if s and s[0] in sites: failed.add(s[0])
            else: other.append((m['message'][:80], s))
    # an assertion that follows another one is looked at alone
    for k, v in sorted(sites.items()):
        if k in failed: continue
        for (f, i) in sites:
            ls = open(d + '/' + f).read().split('\n')
            ls[i - 1] = 'assert(1int == 2int);' if (f, i) == k else ''
            open(d + '/' + f, 'w').write('\n'.join(ls))
        q = subprocess.run(cmd + ['--verify-module', k[0][:-3].replace('/mod', '').replace('/', '::')], cwd=d, capture_output=True, text=True)
        if any(l.startswith('{') and json.loads(l).get('level') == 'error' and [1 for x in json.loads(l)['spans'] if x['is_primary'] and x['line_start'] == k[1]] for l in q.stderr.splitlines()): failed.add(k)
        else: print('NOT REFUTED', v, k)
    print(len(sites), 'false assertions,', len(failed), 'refused; other errors:', len(other))
    for o in other[:20]: print('  ', o)
