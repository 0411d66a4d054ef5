#!/usr/bin/env python3-vt
"""Decide one property: verify every harness of the property from the IR of /repo's current source; replay
countermodels natively; bounded stand-ins where the verifier cannot decide. See DESIGN.md."""
import sys, os, time, json, subprocess, tempfile, shutil, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import ir, exec as X, contracts as C, verify
from props import PROPS
REPO = os.environ.get('VF_REPO', '/repo')      # another tree only while planting bugs in scratch copies
GXX = ['g++', '-std=c++20', '-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,null', '-DPERSISTENCE_BOOST_DESCRIBE', '-fno-sanitize-recover=all', '-rdynamic',
       '-I' + REPO + '/include', '-I' + VERIF + '/harness', '-I' + VERIF + '/native']
ENVN = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')

def sh(cmd, timeout):
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=timeout, env=ENVN)
        return p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('latin1'), 'timeout'

def job_verify(a):
    ll, fn, budget, timeout, unroll, pid, last = a
    budget = max(1, min(budget, last - time.time()))
    out = {'fn': fn, 'status': 'ok', 'obl': [], 'covers': [], 'loops': {}, 'assumed': {}, 'funcs': [], 'solver_s': 0, 'queries': 0, 'paths': 0, 'why': '', 'hit_bound': False}
    t0 = time.time()
    try:
        mod = ir.Module(ll)
        if fn not in mod.funcs: raise X.Unsupported('harness missing')
        e = verify.run(mod, fn, timeout=timeout, budget=budget, unroll=unroll)
    except X.Unsupported as x:
        out['status'] = 'unsupported'; out['why'] = str(x)[:300]; out['wall'] = time.time() - t0; return out
    except Exception as x:
        out['status'] = 'unsupported'; out['why'] = 'engine: ' + repr(x)[:200] + ' ' + traceback.format_exc()[-600:]; out['wall'] = time.time() - t0; return out
    for k, o in e.obl.items():
        if o.kind == 'assert' and o.name.startswith('[') and pid not in o.name[1:o.name.index(']')].split(','): continue
        st = 'failed' if o.failed else 'unknown' if o.unknown else 'ok'
        out['obl'].append({'name': o.name, 'kind': o.kind, 'loc': o.loc, 'n': o.instances, 'status': st, 'time': round(o.time, 3), 'cex': o.cex, 'detail': o.detail, 'abstract': o.abstract})
        if st != 'ok' and out['status'] == 'ok': out['status'] = 'failed'
    out['covers'] = list(e.covers); out['loops'] = {k: sorted(v['invariants']) for k, v in e.loop_log.items()}
    out['assumed'] = e.assumed; out['solver_s'] = e.sol.time; out['queries'] = e.sol.queries; out['paths'] = len(e.outs)
    out['funcs'] = sorted({e.dem.get(f, f) for f in e.funcs_seen if 'persistence::' in e.dem.get(f, f)})
    out['nfuncs'] = len(e.funcs_seen); out['hit_bound'] = e.hit_bound
    out['second'] = []
    if os.environ.get('VERIF_TIER') == 'thorough' and unroll is None:
        out['second'] = verify.cross_check(e)
    out['wall'] = time.time() - t0
    return out

def write_tape(path, cex):
    with open(path, 'w') as f:
        for k, n, v in cex:
            if k == 'fn': f.write('fn %s %s %s\n' % (n, v[0], v[1]))
            else: f.write('%s %s %s\n' % (k, n, v))

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    ENVN['VF_PROP'] = pid
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vf_%s_' % pid)
    try: rc = decide(pid, P, tier, seed, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def decide(pid, P, tier, seed, tmp, t0):
    thorough = tier == 'thorough'
    pool = mp.Pool(8)
    rep = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
    files = sorted({h[0] for h in P['harness']})
    lls = {}; compiled = {}
    procs = []
    # 1. translate and build (all in parallel)
    for f in files:
        src = os.path.join(VERIF, 'harness', f); b = f.replace('.cpp', '')
        lls[f] = os.path.join(tmp, b + '.ll')
        procs.append(('ir', f, subprocess.Popen([verify.CLANG] + verify.FLAGS + ['-S', '-emit-llvm', src, '-o', lls[f]], stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
        procs.append(('nat', f, subprocess.Popen(GXX + [src, os.path.join(VERIF, 'native', 'vf_native.cpp'), '-o', os.path.join(tmp, b + '.nat'), '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    for d in P.get('drivers', []):
        procs.append(('drv', d, subprocess.Popen(GXX + [os.path.join(VERIF, 'native', d), '-o', os.path.join(tmp, d + '.drv')], stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    errs = {}
    nat = {}
    def wait(kind, f):
        for k, g, p in procs:
            if k == kind and g == f:
                if (k, g) not in errs:
                    o, e = p.communicate(); errs[(k, g)] = '' if p.returncode == 0 else e.decode('latin1')[-3000:]
                return errs[(k, g)]
    res = {}; jobs = []
    for f, fn in [(h[0], h[1]) for h in P['harness']]:
        if wait('ir', f) == '':
            jobs.append((f, fn, pool.apply_async(job_verify, ((lls[f], fn, P.get('budget', 240) * (3 if thorough else 1), 20000 if not thorough else 60000, None, pid, t0 + (400 if not thorough else 2400)),))))
        else:
            res[(f, fn)] = {'fn': fn, 'status': 'unsupported', 'why': 'harness does not compile against the current source: ' + errs[('ir', f)][-400:], 'obl': [], 'covers': [], 'loops': {}, 'assumed': {}, 'funcs': [], 'solver_s': 0, 'queries': 0, 'paths': 0, 'second': [], 'wall': 0}
    # 2. bounded native runs meanwhile
    violations = []     # (what, replayfile, reproduced)
    native_runs = {}
    notes = []
    aux = {h[1] for h in P['harness'] if len(h) > 2 and 'aux' in h[2]}
    auxfail = []
    def add_violation(tag, text, reproduced, fn=None):
        # a lemma about private representation failed: only the interface-level obligations decide
        if fn in aux: auxfail.append(tag); return
        p = os.path.join(rep, '%s_%s.txt' % (pid, ''.join(c if c.isalnum() else '_' for c in tag)[:80]))
        with open(p, 'w') as fh: fh.write(text)
        violations.append((tag, p, reproduced))
    for d in P.get('drivers', []):
        err = wait('drv', d)
        if err:
            notes.append('driver %s does not compile against the current source: %s' % (d, err[-300:])); continue
        secs = P.get('driver_secs', 8) * (8 if thorough else 1)
        rc, o, e = sh([os.path.join(tmp, d + '.drv'), pid, str(secs), str(seed)], secs * 6 + 120)
        m = [l for l in o.split('\n') if l.startswith('DRV-RUNS')]
        if rc == 0 and m: native_runs[d] = int(m[-1].split()[1])
        elif rc == 124: notes.append('driver %s timed out' % d)
        else:
            add_violation('driver_' + d, 'bounded native check %s, exit %d\n%s\n%s' % (d, rc, o[-6000:], e[-6000:]), True)
    # native generator runs of the same harness functions, beside the proofs
    from multiprocessing.pool import ThreadPool
    side = ThreadPool(2)
    secs = (1.0 if not thorough else 20.0)
    def native_job(h):
        if wait('nat', h[0]): return None
        return sh([os.path.join(tmp, h[0].replace('.cpp', '') + '.nat'), 'search', h[1], str(secs), str(seed)], secs * 8 + 60)
    hs = [h for h in P['harness'] if not (len(h) > 2 and 'nonative' in h[2])]
    import threading
    lock = threading.Lock(); wait0 = wait
    def wait(kind, f):
        with lock: return wait0(kind, f)
    rj = [(h, side.apply_async(native_job, (h,))) for h in hs]
    def native_result(h, r):
        if r is None: return
        rc, o, e = r
        if rc == 0 and 'VF-RUNS' in o: native_runs[h[1]] = int(o.split('VF-RUNS')[1].split()[0])
        elif rc in (1, 86) or rc < 0: add_violation('search_' + h[1], fn=h[1], text='generator run of %s (seed %d), exit %d\n%s\n%s' % (h[1], seed, rc, o[-6000:], e[-6000:]), reproduced=True)
        else: notes.append('generator run of %s: exit %d' % (h[1], rc))
    while jobs or rj:
        for x in [x for x in rj if x[1].ready()]: rj.remove(x); native_result(x[0], x[1].get())
        for x in [x for x in jobs if x[2].ready()]: jobs.remove(x); res[(x[0], x[1])] = x[2].get()
        # a reproduced violation decides; proofs that do not end by then need not be waited for
        if any(v[2] for v in violations) and time.time() - t0 > 120 and not rj: break
        time.sleep(0.05)
    for f, fn, j in jobs:
        res[(f, fn)] = {'fn': fn, 'status': 'unsupported', 'why': 'proof not waited for: a violation was already reproduced', 'obl': [], 'covers': [], 'loops': {}, 'assumed': {}, 'funcs': [], 'solver_s': 0, 'queries': 0, 'paths': 0, 'second': [], 'wall': 0}
    for f in files:
        if wait('nat', f):
            notes.append('native harness %s does not compile: %s' % (f, errs[('nat', f)][-300:]))
    # 3. failed obligations
    bounded = []
    unproved = []
    for key, r in list(res.items()):
        f, fn = key
        def attempt(obls, how):
            """replay countermodels; returns True if a violation was recorded"""
            done = False
            for o in obls:
                if o['status'] != 'failed' or o['cex'] is None: continue
                tp = os.path.join(tmp, 'tape'); write_tape(tp, o['cex'])
                rc, so, se = (0, '', '') if errs.get(('nat', f)) or key_nonative(P, fn) else sh([os.path.join(tmp, f.replace('.cpp', '') + '.nat'), 'replay', fn, tp], 60)
                if rc in (1, 86) or rc < 0:
                    add_violation(fn + '_' + o['name'], fn=fn, text='failed obligation: %s (%s) in %s\nverifier: %s\n%s\ncountermodel:\n%s\nreplay of the countermodel on the real code: exit %d\n%s\n%s' % (o['name'], o['loc'], fn, how, o['detail'], open(tp).read(), rc, so[-4000:], se[-4000:]), reproduced=True)
                    done = True; break
            return done
        if r['status'] == 'ok': continue
        if r['status'] == 'failed':
            if attempt(r['obl'], 'z3, unbounded'): continue
            definite = [o for o in r['obl'] if o['status'] == 'failed' and not o['abstract']]
            if definite and not any(v[2] for v in violations):
                o = definite[0]
                add_violation(fn + '_' + o['name'], fn=fn, text='failed obligation: %s (%s) in %s\nverifier: z3 finds a countermodel on a path without loop abstraction; the native replay does not reproduce it\n%s\ncountermodel:\n%s\n' % (o['name'], o['loc'], fn, o['detail'], o['cex']), reproduced=False)
                continue
        # undecided by the unbounded proof: bounded unrolling stands in
        unproved.append((key, r))
    if unproved and not any(v[2] for v in violations):
        bj = [(k, r, pool.apply_async(job_verify, ((lls[k[0]], k[1], 120, 10000, 3, pid, t0 + (650 if not thorough else 3000)),))) for k, r in unproved if not errs.get(('ir', k[0]))]
        for k, r, j in bj:
            b = j.get()
            why = r['why'] or '; '.join(o['name'] for o in r['obl'] if o['status'] != 'ok')[:300]
            if b['status'] == 'ok':
                bounded.append('%s: bounded unrolling (3 iterations of each input-sized loop), %d obligations; unbounded proof undecided: %s' % (k[1], len(b['obl']), why))
            elif b['status'] == 'failed' and any(o['status'] == 'failed' for o in b['obl']):
                hit = False
                for o in b['obl']:
                    if o['status'] != 'failed': continue
                    tp = os.path.join(tmp, 'tape')
                    rc, so, se = 0, '', ''
                    if o['cex'] is not None:
                        write_tape(tp, o['cex'])
                        if not errs.get(('nat', k[0])) and not key_nonative(P, k[1]):
                            rc, so, se = sh([os.path.join(tmp, k[0].replace('.cpp', '') + '.nat'), 'replay', k[1], tp], 60)
                    rep_ok = rc in (1, 86) or rc < 0
                    if rep_ok or not hit:
                        add_violation(k[1] + '_' + o['name'], fn=k[1], text='failed obligation: %s (%s) in %s (loops unrolled)\n%s\ncountermodel:\n%s\nreplay: exit %d\n%s\n%s' % (o['name'], o['loc'], k[1], o['detail'], o['cex'], rc, so[-4000:], se[-4000:]), reproduced=rep_ok)
                        hit = True
                    if rep_ok: break
            else:
                bounded.append('%s: native generator runs only; verifier undecided: %s / %s' % (k[1], why, b['why']))
        for k, r in unproved:
            if errs.get(('ir', k[0])): bounded.append('%s: not checked by the verifier: %s' % (k[1], r['why'][:200]))
    pool.terminate()
    if auxfail: notes.append('lemmas about the private representation do not hold on this source (the interface-level obligations decide): ' + ', '.join(auxfail)[:300])
    # 4. vacuity
    vac = []
    for h in P['harness']:
        r = res[(h[0], h[1])]
        if r['status'] == 'ok':
            if not r['obl'] or not any(o['kind'] == 'assert' for o in r['obl']): vac.append(h[1] + ': no obligations')
            src = open(os.path.join(VERIF, 'harness', h[0])).read()
            miss = [c for c in covers_of(src, h[1]) if c not in r['covers']]
            if miss: vac.append('%s: cover points not reached: %s' % (h[1], ', '.join(miss)))
    # 5. evidence
    allo = [o for r in res.values() for o in r['obl']]
    nob = sum(o['n'] for o in allo); ndis = sum(o['n'] for r in res.values() for o in r['obl'] if o['status'] == 'ok')
    assumed = {}
    for r in res.values():
        for a, n in r['assumed'].items(): assumed[a] = assumed.get(a, 0) + n
    funcs = sorted({x for r in res.values() for x in r['funcs']})
    known = [l.strip() for l in open(os.path.join(VERIF, 'known_findings.txt'))] if os.path.exists(os.path.join(VERIF, 'known_findings.txt')) else []
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3-vt engine/check.py %s %s (engine/exec.py over clang-18 IR of /repo/include, back end z3 %s%s)' % (pid, tier, X.z3.get_version_string(), ', cross-checked by cvc5' if thorough else ''),
        'trusted_base': ['clang 18 front end (C++ to LLVM IR at -O0)', 'engine/*.py (IR semantics, loop rule, memory model)', 'z3 ' + X.z3.get_version_string()] + ['contract: ' + a for a in sorted(assumed)],
        'harnesses': {h[1]: {'status': res[(h[0], h[1])]['status'], 'why': res[(h[0], h[1])]['why'], 'paths': res[(h[0], h[1])]['paths'],
                             'named_obligations': len(res[(h[0], h[1])]['obl']), 'instances': sum(o['n'] for o in res[(h[0], h[1])]['obl']),
                             'solver_s': round(res[(h[0], h[1])]['solver_s'], 2), 'queries': res[(h[0], h[1])]['queries'], 'wall_s': round(res[(h[0], h[1])]['wall'], 2),
                             'loops': res[(h[0], h[1])]['loops'], 'covers': res[(h[0], h[1])]['covers']} for h in P['harness']},
        'functions_under_contract': len(funcs), 'functions': [f[:200] for f in funcs][:400],
        'named_obligations': sorted({o['name'] for o in allo if o['kind'] == 'assert'}),
        'solver_time_s': round(sum(r['solver_s'] for r in res.values()), 2),
        'bounded_stand_ins': bounded + list(P.get('bounded', [])), 'native_runs': native_runs, 'notes': notes, 'vacuity': vac,
        'second_back_end': [x for r in res.values() for x in r.get('second', [])][:50],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'), 'coverage': cov,
          'assumptions': P.get('assumptions', []) + ['assumed contract: %s (used at %d call sites on explored paths)' % (a, n) for a, n in sorted(assumed.items())],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in known:
        if l.startswith('KNOWN-FINDING: property=%s ' % pid): print(l)
    print('%s: %d/%d obligation instances discharged (%d harnesses, %d verified without bound), native runs %s, %.1f s' % (pid, ndis, nob, len(P['harness']), sum(r['status'] == 'ok' for r in res.values()), sum(native_runs.values()), time.time() - t0))
    for b in bounded: print('bounded:', b[:400])
    for n in notes + vac: print('note:', n[:400])
    if violations:
        violations.sort(key=lambda v: (not v[2], v[0].startswith(('search_', 'driver_'))))
        tag, path, ok = violations[0]
        print('failed:', tag)
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if ok else ' no-failing-input-found'))
        return 1
    return 0

def key_nonative(P, fn):
    for h in P['harness']:
        if h[1] == fn and len(h) > 2 and 'nonative' in h[2]: return True
    return False
def covers_of(src, fn):
    import re
    m = re.search(r'VF_HARNESS\s+%s\(' % re.escape(fn), src)
    if not m: return []
    i = src.find('{', m.end()); d = 0; end = i
    while end < len(src):
        d += (src[end] == '{') - (src[end] == '}'); end += 1
        if d == 0: break
    body = src[i:end]
    return re.findall(r'vf_reach\("([^"]*)"\)', body)
if __name__ == '__main__': main()
