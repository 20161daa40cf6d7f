#!/usr/bin/env python3
"""check.py PROP: decide one property on the current tree of /repo.

1. extract the functions under contract from /repo/src (vpx)
2. let Verus discharge every obligation
3. a failed obligation is a violation: look for a failing input with the oracle
4. a function the verifier cannot take (front end error, lost anchor, changed
   loops, helper without contract) is degraded to a bounded stand-in (labelled)
"""
import glob, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'target')
REPO = os.environ.get('VP_REPO', '/repo')
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
SCOPE = json.load(open(os.path.join(V, 'contracts', 'scope.json')))[PROP]
BASE = json.load(open(os.path.join(V, 'contracts', 'baseline.json')))
CRATES = ['digest', 'sha2', 'blake2', 'blake3', 'generic_array', 'typenum', 'openat', 'itertools', 'num_cpus', 'futures', 'futures_cpupool']
OUT = os.path.join(T, 'run', PROP)


def log(*a):
    print(*a, flush=True)


def build(what):
    return subprocess.run(['bash', os.path.join(V, 'tools', 'setup.sh'), what]).returncode


FEATURES = ['threads']
# blake3 as its contract is meant, without the known finding: tried when the
# contract that describes the finding fails, so that a repair is no alarm
REPAIRED = False


def extract(degrade):
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)
    cmd = [os.path.join(T, 'vpx/release/vpx'), '--src', REPO + '/src', '--contracts', V + '/contracts', '--out', OUT, '--known', V + '/contracts/baseline.json']
    for x in FEATURES:
        cmd += ['--feature', x]
    for k, l in sorted(degrade.items()):
        cmd += ['--degrade', '%s=%d' % (k, l)]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr
    if REPAIRED:
        for f, a, b in (('v1/hash.rs', 'fn resets() -> bool { false }', 'fn resets() -> bool { true }'), ('spec.rs', '{ !(a is Blake3_256) }', '{ true }')):
            q = os.path.join(OUT, f)
            t = open(q).read()
            if t.count(a) != 1:
                return None, 'no single `%s` in %s' % (a, f)
            open(q, 'w').write(t.replace(a, b))
    return json.load(open(os.path.join(OUT, 'extract.json'))), ''


def verus(modules, rlimit, extra=()):
    d = T + '/deps/debug/deps'
    cmd = ['verus', '--crate-type=lib', 'lib.rs', '--edition', '2021', '--multiple-errors', '8', '--rlimit', str(rlimit),
           '--num-threads', '8', '--output-json', '--time-expanded', '--error-format=json', '-L', 'dependency=' + d] + list(extra)
    for c in CRATES:
        r = sorted(glob.glob('%s/lib%s-*.rlib' % (d, c)), key=os.path.getmtime)
        if r:
            cmd += ['--extern', '%s=%s' % (c, r[-1])]
    for m in modules:
        cmd += ['--verify-module', m]
    try:
        p = subprocess.run(cmd, cwd=OUT, capture_output=True, text=True, timeout=max(60, min(420, 660 - (time.time() - T0))))
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        out, err = '', 'timeout'
    try:
        j = json.loads(out)
    except ValueError:
        j = {}
    msgs = []
    for l in err.splitlines():
        if l.startswith('{'):
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('level') == 'error' and not m['message'].startswith('aborting due'):
                msgs.append(m)
    return {'json': j, 'errors': msgs, 'stderr': err, 'cmd': ' '.join(cmd)}


FAIL = re.compile(r'postcondition|precondition|assertion|invariant|overflow|underflow|decreases|termination|possible|out of bounds|unreachable|'
                  r'could not|cannot prove|not satisfied|recommend|unwrap|division|index', re.I)


def spans(m):
    r = [(s['is_primary'], s['file_name'], s['line_start'], s['line_end'], s.get('label') or '') for s in m['spans']]
    for c in m.get('children', []):
        r += [(False, s['file_name'], s['line_start'], s['line_end'], s.get('label') or '') for s in c['spans']]
    return r


def fn_at(ext, file, line):
    file = file[2:] if file.startswith('./') else file
    best = None
    for f in ext['functions']:
        a, b = f['out_lines']
        if f['file'] == file and a <= line <= b and (best is None or b - a < best['out_lines'][1] - best['out_lines'][0]):
            best = f
    return best


def tags(file, a, b):
    try:
        ls = open(os.path.join(OUT, file)).read().split('\n')
    except OSError:
        return set()
    r = set()
    for l in ls[a - 1:b]:
        for x in re.findall(r'//\s*\[((?:P\d\d[ ,]*)+)\]', l):
            r |= set(re.findall(r'P\d\d', x))
    return r


def is_front(res):
    vr = res['json'].get('verification-results', {})
    return not res['json'] or vr.get('encountered-vir-error') or 'verified' not in vr or (vr.get('encountered-error') and not vr.get('errors') and not vr.get('verified'))


def stays(x, bad):
    if x['key'] is not None:
        return (x['key'], None) in bad
    return any((None, w.split(' ')[0]) in bad for w in x['where'])


def run_verifier():
    """-> dict(ok, failed=[...], degraded={key: why}, ext, res)"""
    degrade, why = {}, {}
    keys = SCOPE['functions']
    modules = SCOPE['modules']
    rlimit = 30
    ext = res = None
    rounds = 0
    while rounds < 14 and time.time() - T0 < 560:
        rounds += 1
        ext, e = extract(degrade)
        if ext is None:
            return {'lost': 'the extractor fails: ' + e[-400:], 'ext': None, 'res': None, 'failed': [], 'degraded': why}
        byk = {f['key']: f for f in ext['functions']}
        for f in ext['functions']:
            if f['status'] == 'degraded':
                why.setdefault(f['key'], f['reason'])
        res = verus(modules, rlimit)
        if is_front(res):
            new = 0
            for m in res['errors']:
                cand = []
                for (pr, file, a, b, lab) in sorted(spans(m), key=lambda s: not s[0]):
                    f = fn_at(ext, file, a)
                    if f and f['status'] in ('verified', 'degraded', 'trusted', 'declared'):
                        cand.append(f)
                for f in cand[:1]:
                    k = f['key']
                    l = degrade.get(k, 0)
                    if f['status'] == 'degraded' and l == 0:
                        l = 1
                    if l < 2:
                        degrade[k] = l + 1
                        why[k] = 'the verifier does not take it: ' + m['message'][:160]
                        new += 1
            if not new:
                # cannot be attributed: give up the changed functions, then everything
                ch = [f for f in ext['functions'] if f['status'] in ('verified', 'degraded') and BASE.get(f['key'], {}).get('hash') != f['hash'] and degrade.get(f['key'], 0) < 2]
                for f in ch:
                    degrade[f['key']] = degrade.get(f['key'], 0) + 1
                    why[f['key']] = 'changed, and the verifier rejects the crate'
                if not ch:
                    m = res['errors'][0]['message'] if res['errors'] else res['stderr'][-300:]
                    return {'lost': 'the verifier rejects the crate: ' + m, 'ext': ext, 'res': res, 'failed': [], 'degraded': why}
            continue
        failed, again = [], False
        for m in res['errors']:
            sp = sorted(spans(m), key=lambda s: not s[0])
            f = None
            for (pr, file, a, b, lab) in sp:
                if pr:
                    f = fn_at(ext, file, a)
                    if f and f['status'] in ('verified',):
                        break
                    f = None
            if f is None:
                for (pr, file, a, b, lab) in sp:
                    f = fn_at(ext, file, a)
                    if f and f['status'] == 'verified':
                        break
                    f = None
            if 'rlimit' in m['message'] or 'timed out' in m['message'] or 'Resource limit' in m['message']:
                if rlimit < 100:
                    rlimit = 120
                    again = True
                elif f and degrade.get(f['key'], 0) < 1:
                    degrade[f['key']] = 1
                    why[f['key']] = 'the solver gives up within its resource limit'
                    again = True
                continue
            tg = set()
            where = []
            for (pr, file, a, b, lab) in sp:
                tg |= tags(file, a, b)
                where.append('%s:%d %s' % (file, a, lab))
            failed.append({'key': f['key'] if f else None, 'what': m['message'], 'where': where, 'tags': sorted(tg), 'text': m.get('rendered', '')})
        if again:
            continue
        # a function whose loops changed or that calls a helper without contract
        # is outside its contract's reach: its proof is lost, not refuted
        more = 0
        for x in failed:
            k = x['key']
            if k is None or k not in byk or k not in BASE:
                continue
            f, b = byk[k], BASE[k]
            if f['hash'] == b['hash']:
                continue
            reason = None
            if f['loops'] != b['loops']:
                reason = 'its loops changed (%d instead of %d)' % (f['loops'], b['loops'])
            if reason is None and f.get('inlined'):
                reason = 'the proof does not go through with its new helper substituted: ' + ', '.join(sorted(set(f['inlined'])))
            if reason is None:
                names = set(g['key'].rsplit('::', 1)[-1].rstrip('>') for g in ext['functions'] if g['status'] == 'external' and g['key'] not in BASE)
                new = set(c.lstrip('.').rsplit('::', 1)[-1] for c in f['calls']) - set(c.lstrip('.').rsplit('::', 1)[-1] for c in b['calls'])
                h = names & new
                if h:
                    reason = 'it calls a helper without contract: ' + ', '.join(sorted(h))
            if reason and degrade.get(k, 0) < 1:
                degrade[k] = 1
                why[k] = reason
                more += 1
        if more:
            continue
        # an obligation is proved when the solver accepts it under any seed
        for seed in (11, 5):
            if failed and time.time() - T0 < 400:
                r2 = verus(modules, 60, ['--smt-option', 'smt.random_seed=%d' % seed])
                if not is_front(r2):
                    bad = set()
                    for m in r2['errors']:
                        for (pr, file, a, b, lab) in spans(m):
                            f = fn_at(ext, file, a)
                            bad.add((f['key'], None) if f else (None, '%s:%d' % (file, a)))
                    log('seed %d: %d of %d failures stay' % (seed, sum(1 for x in failed if stays(x, bad)), len(failed)))
                    failed = [x for x in failed if stays(x, bad)]
        return {'lost': None, 'ext': ext, 'res': res, 'failed': failed, 'degraded': why}
    return {'lost': 'no fixed point after %d rounds' % rounds, 'ext': ext, 'res': res, 'failed': [], 'degraded': why}


def without_threads():
    """the same obligations in the configuration without the feature `threads`
    -> (what, failed obligations)"""
    global FEATURES, OUT
    old = OUT
    FEATURES, OUT = [], OUT + '-nothreads'
    try:
        ext, e = extract({})
        if ext is None:
            return 'not extracted: ' + e[-200:], []
        there = set(f['module'] for f in ext['functions']) | {'spec'}
        modules = [m for m in SCOPE['modules'] if m in there]
        failed = None
        for extra in ([], ['--smt-option', 'smt.random_seed=11'], ['--smt-option', 'smt.random_seed=5']):
            if failed is not None and time.time() - T0 > 480:
                break
            res = verus(modules, 30 if failed is None else 60, extra)
            if is_front(res):
                return 'not verified: ' + (res['errors'][0]['message'] if res['errors'] else res['stderr'][-200:]), []
            now = []
            for m in res['errors']:
                sp = sorted(spans(m), key=lambda s: not s[0])
                f = next((x for x in (fn_at(ext, s[1], s[2]) for s in sp) if x and x['status'] == 'verified'), None)
                if f is None or f['key'] not in SCOPE['functions'] or 'rlimit' in m['message'] or 'Resource limit' in m['message']:
                    continue
                b = BASE.get(f['key'])
                if f.get('inlined') or (b and b['loops'] != f['loops']):
                    continue
                now.append({'key': f['key'], 'what': m['message'] + ' (configuration without threads)', 'where': ['%s:%d %s' % (s[1], s[2], s[4]) for s in sp], 'tags': [], 'text': m.get('rendered', '')})
            failed = now if failed is None else [x for x in failed if x['key'] in set(y['key'] for y in now)]
            if not failed:
                return '%d obligations discharged' % res['json'].get('verification-results', {}).get('verified', 0), []
        return 'failed', failed
    finally:
        shutil.rmtree(OUT, ignore_errors=True)
        FEATURES, OUT = ['threads'], old


def oracle(secs, jobs, seed0):
    exe = T + '/oracle/release/oracle'
    outs = [None] * jobs
    procs = []

    def one(i):
        p = subprocess.Popen([exe, 'run', PROP, str(seed0 + i), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        procs.append(p)
        o, e = p.communicate()
        outs[i] = (p.returncode, o, e)
    th = [threading.Thread(target=one, args=(i,)) for i in range(jobs)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    r = {'fail': None, 'known': {}, 'done': 0, 'error': None}
    for i, (rc, o, e) in enumerate(outs):
        fail = None
        for l in o.splitlines():
            w = l.split(' ', 2)
            if w[0] == 'KNOWN' and len(w) == 3:
                r['known'].setdefault(w[2], (seed0 + i, int(w[1])))
            elif w[0] == 'FAIL':
                fail = {'seed': seed0 + i, 'case': int(w[1]), 'msg': w[2] if len(w) > 2 else '', 'input': ''}
            elif w[0] == 'INPUT' and fail:
                fail['input'] = l[6:]
            elif w[0] == 'DONE':
                r['done'] += int(w[1])
        if fail:
            r['done'] += fail['case'] + 1
            if r['fail'] is None or fail['case'] < r['fail']['case']:
                r['fail'] = fail
        elif rc not in (0, 1):
            r['error'] = 'oracle worker ended with %s: %s' % (rc, e[-300:])
    return r


def axioms(secs):
    """the assumed contracts on library functions, tried against the library"""
    p = subprocess.run([T + '/oracle/release/oracle', 'run', 'AX', str(SEED), str(secs)], capture_output=True, text=True, errors='replace')
    n = sum(int(l.split()[1]) for l in p.stdout.splitlines() if l.startswith('DONE '))
    bad = [l for l in p.stdout.splitlines() if l.startswith('FAIL ')]
    return n, (bad[0] if bad else None)


def known_list():
    r = []
    for l in open(os.path.join(V, 'known-findings.txt')):
        m = re.match(r'KNOWN-FINDING: property=(P\d\d) (.*)', l.strip())
        if m and m.group(1) == PROP:
            r.append(m.group(2))
    return r


def trusted_base(ext):
    tb = []
    vp = open(os.path.join(V, 'contracts', 'vp.rs')).read()
    n = len(re.findall(r'assume_specification', vp))
    tb.append('contracts/vp.rs: %d assumed contracts on functions of std and the dependencies, %d assumed lemmas (axiom/external_body)' % (n, len(re.findall(r'external_body\]|axiom fn', vp))))
    for m in re.finditer(r'assume_specification(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]\s*\(', vp):
        tb.append('assumed: ' + re.sub(r'\s+', ' ', m.group(1)))
    for f in (ext or {}).get('functions', []):
        if f['status'] == 'trusted':
            tb.append('trusted body: ' + f['key'])
    tb.append('vpx: the rewrites of DESIGN.md (R1-R20), counted in rewrites')
    tb.append('Verus 0.2026.09.13, Z3; rustc')
    return tb


def main():
    rc = build('vpx')
    orc = [None]

    def bo():
        orc[0] = build('oracle')
    bt = threading.Thread(target=bo)
    bt.start()
    if rc == 0:
        v = run_verifier()
        if any(x['key'] and '<Blake3_256 as Hash>' in x['key'] for x in v['failed']) and time.time() - T0 < 300:
            global REPAIRED
            REPAIRED = True
            v2 = run_verifier()
            if v2['lost'] or v2['failed']:
                REPAIRED = False
                extract({})
            else:
                log('blake3 resets: the contract without the known finding is proved')
                v = v2
    else:
        v = {'lost': 'the extractor does not build', 'ext': None, 'res': None, 'failed': [], 'degraded': {}}
    nothreads, ntf = None, []
    if rc == 0 and SCOPE.get('without_threads') and not v['lost'] and not v['failed'] and not v['degraded']:
        nothreads, ntf = without_threads()
    bt.join()
    ext, res = v['ext'], v['res']
    keys = SCOPE['functions']
    stat = {f['key']: f for f in (ext or {}).get('functions', [])}
    mine = [x for x in v['failed'] if x['key'] in keys and (not x['tags'] or PROP in x['tags'])]
    mine += ntf
    for x in v['failed']:
        # an obligation of the specification itself: never depends on /repo alone
        if x['key'] is None and not mine:
            mine.append(x)
    missing = [k for k in keys if k not in stat]
    if missing and v['lost'] is None:
        for k in missing:
            v['degraded'][k] = 'not in the source any more'
    deg = {k: w for k, w in v['degraded'].items() if k in keys}
    if v['lost']:
        deg = {k: v['lost'] for k in keys}
    # functions of this property that are not under contract at all
    bounded = SCOPE.get('bounded', {})

    axn, axbad = 0, None
    # oracle
    if orc[0] != 0:
        log('the oracle does not build')
        oracle_res = {'fail': None, 'known': {}, 'done': 0, 'error': 'the oracle does not build against /repo'}
    else:
        thorough = TIER == 'thorough'
        axn, axbad = axioms(60 if thorough else 3)
        if axbad:
            # the proofs rest on a wrong assumption: none of them counts
            log('an assumed contract is refuted: ' + axbad)
            deg = {k: 'an assumed contract is refuted: ' + axbad[:200] for k in keys}
            mine = []
        secs = 300 if thorough else 12
        if mine or deg:
            secs = 420 if thorough else 100
        oracle_res = oracle(secs, 7, SEED * 1000)
    fail = oracle_res['fail']
    kn = known_list()
    new_known = [k for k in oracle_res['known'] if k not in kn]

    violations = 0
    rp = os.path.join(V, 'evidence', 'replay')
    os.makedirs(rp, exist_ok=True)
    path = os.path.join(rp, PROP + '.txt')
    if os.path.exists(path):
        os.remove(path)
    vt = ''
    for x in mine:
        vt += 'failed obligation: %s in %s\n  at %s\n%s\n' % (x['what'], x['key'] or 'the specification', '\n     '.join(x['where']), x['text'])
    line = None
    if fail or new_known:
        if not fail:
            k = new_known[0]
            s, c = oracle_res['known'][k]
            fail = {'seed': s, 'case': c, 'msg': k + ' (not a listed finding)', 'input': ''}
        with open(path, 'w') as f:
            f.write('property %s\nfailing input (run against the real code): %s\n%s\nreplay: %s/oracle/release/oracle replay %s %d %d\n\n%s' % (
                PROP, fail['msg'], fail['input'], T, PROP, fail['seed'], fail['case'], vt))
        log('failing input: %s' % fail['msg'][:600])
        line = 'VIOLATION property=%s replay=%s' % (PROP, path)
    elif mine:
        with open(path, 'w') as f:
            f.write('property %s\nno failing input found in %d cases\n\n%s' % (PROP, oracle_res['done'], vt))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, path)
    if line:
        violations = 1
    # evidence
    br = []
    smt = 0
    if res and res['json']:
        for m in res['json'].get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                br.append(f)
                smt += f.get('time-micros', 0)
    want = set(SCOPE['lemmas'])

    def in_scope(fn):
        last = fn.split('::')[-1]
        if last in want:
            return True
        for k in keys:
            kl = k.split('::')[-1]
            m = re.match(r'<(\w+)', k.rsplit('::', 1)[0].split('::')[-1]) if '<' in k else None
            if kl == last and (m or '::'.join(fn.split('::')[1:]) == k or 'impl&' in fn):
                return True
        return False
    ob = [f for f in br if in_scope(f['function'])]
    nfail = len(set(x['key'] for x in mine))
    proved = [k for k in keys if stat.get(k, {}).get('status') == 'verified' and k not in deg and not any(x['key'] == k for x in mine)]
    cov = {
        'obligations': len(ob), 'discharged': len([f for f in ob if f.get('success')]) ,
        'checker_cmd': 'verus (Z3) on the crate extracted from /repo/src; one SMT query per function and lemma: ' + ((res or {}).get('cmd', '')[:400]),
        'trusted_base': trusted_base(ext),
        'functions_under_contract': proved,
        'contract_assumed': [k for k in keys if stat.get(k, {}).get('status') in ('trusted', 'declared')],
        'lemmas': [f['function'] for f in ob if f['function'].split('::')[-1] in want],
        'back_end': 'Verus 0.2026.09.13.671956e, Z3', 'solver_time_ms': round(sum(f.get('time-micros', 0) for f in ob) / 1000, 1), 'solver_time_all_ms': round(smt / 1000, 1),
        'rewrites': (ext or {}).get('rewrites', {}),
        'degraded_to_bounded': deg,
        'bounded_standins': bounded,
        'bounded_cases': oracle_res['done'],
        'bounded_note': 'random cases of the property on the real crate (oracle/), seed %d: stands in for the functions of bounded_standins and degraded_to_bounded, and searches a failing input when an obligation fails; never counted as proved' % SEED,
        'failed_obligations': [{k: x[k] for k in ('key', 'what', 'where')} for x in mine],
    }
    cov['assumed_contracts_tried'] = {'cases': axn, 'refuted': axbad, 'note': 'oracle/src/axioms.rs: the assumed contracts on paths, strings, slices, streams, hashers and sorting, run against the real functions; a test of the trusted base'}
    if nothreads:
        cov['configuration_without_threads'] = nothreads
    cov['evaluations'] = oracle_res['done']
    known = []
    for k in kn:
        log('KNOWN-FINDING: property=%s %s' % (PROP, k))
        known.append(k)
    cov['known_findings'] = known
    if oracle_res['error']:
        cov['oracle_error'] = oracle_res['error']
    ev = {'property': PROP, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': SCOPE['level'], 'coverage': cov,
          'assumptions': SCOPE.get('assumptions', []), 'wall_s': round(time.time() - T0, 1), 'violations': violations}
    if SCOPE['level'] == 'other':
        cov['explanation'] = SCOPE['explanation']
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', PROP + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s: %d obligations, %d discharged, %d functions under contract, %d degraded, %d cases, %.0f s' % (PROP, cov['obligations'], cov['discharged'], len(proved), len(deg), oracle_res['done'], time.time() - T0))
    for k, w in deg.items():
        log('bounded stand-in for %s: %s' % (k, w[:200]))
    shutil.rmtree(OUT, ignore_errors=True)
    if line:
        log(line)
        sys.exit(1)
    if oracle_res['error'] and (deg or v['lost'] or bounded):
        log('error: ' + oracle_res['error'])
        sys.exit(2)
    sys.exit(0)


main()
