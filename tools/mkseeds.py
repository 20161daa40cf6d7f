#!/usr/bin/env python3
"""Plant bugs: write /verif/seeded/<id>/ from the definitions in seeds_def.py after
confirming each in a scratch copy of /repo (builds, passes the stable tests, the
demonstration passes without and fails with the change).  usage: mkseeds.py [ID...]"""
import json, os, shutil, subprocess, sys, re
sys.path.insert(0, os.path.dirname(__file__))
from seeds_def import SEEDS, DEMO_SH, DEMO_TOML
WT = '/tmp/seedwt'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.exists(WT):
        sh(f'cp -a /repo {WT}')
    sh(f'git -C {WT} fetch -q /repo; git -C {WT} checkout -q -f FETCH_HEAD; git -C {WT} checkout -q -- .')
    h = sh('git -C /repo rev-parse HEAD').stdout; assert sh(f'git -C {WT} rev-parse HEAD').stdout == h
def tests():
    r = []
    for f in ('', '--no-default-features'):
        o = sh(f'cd {WT} && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR={WT}/target cargo test --workspace --no-fail-fast --offline {f} 2>&1')
        r.append(o.returncode); out = o.stdout
        if o.returncode: print(out[-1500:])
    return not any(r)
def main():
    ids = sys.argv[1:]
    for s in SEEDS:
        if ids and s['id'] not in ids: continue
        if not ids and os.path.exists(f"/verif/seeded/{s['id']}/meta.json"): continue
        print('==', s['id'], flush=True)
        fresh()
        d = f"/tmp/seedout/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.rs', 'w').write(s['demo']); open(d + '/Cargo.toml.in', 'w').write(DEMO_TOML)
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        env = dict(os.environ)
        a = sh(f'cd {WT} && DEMO_TARGET=/tmp/seedtarget timeout 300 bash {d}/demo.sh')
        if a.returncode: print('  demo fails on the unchanged tree', a.stdout[-1500:]); continue
        ok = True
        for f, old, new in s['edits']:
            p = f'{WT}/src/{f}'; t = open(p).read()
            if t.count(old) != 1: print('  edit matches', t.count(old), repr(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok: continue
        if not tests(): print('  tests fail with the change'); continue
        b = sh(f'cd {WT} && DEMO_TARGET=/tmp/seedtarget timeout 300 bash {d}/demo.sh')
        if b.returncode == 0: print('  demo passes with the change'); continue
        if 'error[' in b.stdout: print(b.stdout[-1500:]); continue
        print('  ', [l for l in b.stdout.splitlines() if l.strip()][-2:])
        open(d + '/patch.diff', 'w').write(sh(f'git -C {WT} diff').stdout)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(f"/verif/seeded/{s['id']}", ignore_errors=True)
        shutil.move(d, f"/verif/seeded/{s['id']}")
        print('   kept')
    shutil.rmtree('/tmp/seedout', ignore_errors=True)
main()
