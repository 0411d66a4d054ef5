"""Run one harness function through the engine."""
import sys, os, time, json
sys.path.insert(0, os.path.dirname(__file__))
import ir, exec as X, contracts as C
CLANG = '/usr/lib/llvm-18/bin/clang++'
FLAGS = ['-std=c++20', '-I' + os.environ.get('VF_REPO', '/repo') + '/include', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DRAPIDJSON_48BITPOINTER_OPTIMIZATION=0', '-DPERSISTENCE_BOOST_DESCRIBE', '-DVF_IR', '-O0', '-gline-tables-only', '-fno-discard-value-names']
def compile_ir(src, out, repo='/repo', defs=()):
    import subprocess
    fl = [f.replace('/repo/', repo + '/') for f in FLAGS]
    p = subprocess.run([CLANG] + fl + list(defs) + ['-S', '-emit-llvm', src, '-o', out], capture_output=True, text=True)
    return p.returncode == 0, p.stderr
NAME = None
def ctors_for(mod, fn):
    """dynamic initialisers of the globals that fn can reach (by name, transitively), in program order"""
    import re
    g = mod.globals.get('llvm.global_ctors')
    if g is None: return []
    rx = re.compile(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)')
    ent = re.findall(r'\{ i32 \d+, ptr @("[^"]*"|[-a-zA-Z$._0-9]+), ptr (null|@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) \}', g)
    un = lambda x: x.strip('"') if x.startswith('"') else x
    ent = [(un(a), None if b == 'null' else un(b[1:])) for a, b in ent]
    def names(n):
        if n in mod.funcs: return (m for _, l in mod.funcs[n].lines for m in rx.findall(l))
        if n in mod.globals: return rx.findall(mod.globals[n])
        if n in mod.aliases: return rx.findall(mod.aliases[n])
        return ()
    def reach(start):
        seen = set(); work = [start]
        while work:
            n = work.pop()
            if n in seen or n == 'llvm.global_ctors': continue
            seen.add(n)
            for m in names(n): work.append(un(m))
        return seen
    r = reach(fn)
    out = []
    for a, b in ent:
        if b is not None: use = b in r
        else: use = any(x in mod.globals and not x.startswith('.str') for x in reach(a) if x in r)      # whole-file initialiser
        if use: out.append(a)
    return out
def run(mod, fn, timeout=10000, budget=600, unroll=None, extra=None, verbose=False):
    eng = X.Engine(mod, C.Contracts(extra), timeout=timeout, deadline=time.time() + budget, unroll=unroll, verbose=verbose)
    eng.exit_tests = []
    s = X.State()
    t0 = time.time()
    for c in ctors_for(mod, fn):
        eng.call_function(s, c, [])
        o = eng.explore(s)
        if len(o) != 1 or o[0].outcome[0] != 'ret': raise X.Unsupported('dynamic initialiser ' + c)
        s = o[0]; s.outcome = None
    eng.call_function(s, fn, [])
    outs = eng.explore(s)
    for o in outs:
        if o.outcome[0] == 'throw':
            eng.oblige(o, 'no exception escapes the harness', False, 'assert', detail=str(o.outcome))
    eng.wall = time.time() - t0
    eng.outs = outs
    return eng
def cross_check(eng, limit=4000, budget=240):
    """re-discharge the obligations of a run with cvc5"""
    import z3, cvc5
    t0 = time.time(); n = ok = unk = bad = 0
    for pc, neg, name in eng.obl_log[:limit]:
        if time.time() - t0 > budget: break
        s = z3.Solver()
        for c in pc: s.add(c)
        s.add(neg)
        n += 1
        try:
            slv = cvc5.Solver(); slv.setOption('tlimit-per', '10000')
            sm = cvc5.SymbolManager(slv.getTermManager()) if hasattr(slv, 'getTermManager') else cvc5.SymbolManager(slv)
            par = cvc5.InputParser(slv, sm)
            par.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + s.to_smt2(), 'q')
            r = ''
            while True:
                cmd = par.nextCommand()
                if cmd.isNull(): break
                r += str(cmd.invoke(slv, sm))
            if 'unsat' in r: ok += 1
            elif 'sat' in r: bad += 1
            else: unk += 1
        except Exception as x:
            unk += 1
    return ['cvc5: %d of %d obligations re-discharged, %d unknown, %d disagreements' % (ok, n, unk, bad)]
def cli_one(a):
    ll, f = a
    mod = ir.Module(ll); out = []
    try: e = run(mod, f)
    except X.Unsupported as x:
        import traceback
        if os.environ.get('TB'): out.append(traceback.format_exc())
        return '\n'.join(out + ['%s UNSUPPORTED %s' % (f, x)])
    except Exception as x:
        import traceback
        return '%s ENGINE %s' % (f, traceback.format_exc())
    out.append('%s: %d paths, %d obligations, %d instances, %d queries, solver %.1fs, wall %.1fs, covers %s' % (f, len(e.outs), len(e.obl), sum(o.instances for o in e.obl.values()), e.sol.queries, e.sol.time, e.wall, list(e.covers)))
    for k, o in e.obl.items():
        st = 'FAILED' if o.failed else 'UNKNOWN' if o.unknown else 'ok'
        if st != 'ok' or os.environ.get('V'): out.append('    %s %s %s %s %s %s %s' % (st, o.kind, o.name, o.loc, o.instances, o.cex if o.failed else '', (o.detail or '')[:200]))
    if os.environ.get('V'):
        for l, v in e.loop_log.items(): out.append('    loop %s %s' % (l, v))
        out.append('    assumed %s' % e.assumed)
    return '\n'.join(out)
if __name__ == '__main__':
    import tempfile, multiprocessing as mp
    src = sys.argv[1]; fns = sys.argv[2:]
    fd, ll = tempfile.mkstemp(suffix='.ll'); os.close(fd)
    ok, err = compile_ir(src, ll, defs=os.environ.get('VF_DEFS', '').split())
    if not ok: print('\n'.join([l for l in err.split('\n') if 'error' in l][:10])); os.unlink(ll); sys.exit(2)
    mod = ir.Module(ll)
    if not fns: fns = [f for f in mod.funcs if f.startswith('h_')]
    with mp.Pool(min(8, len(fns))) as pool:
        for r in pool.imap_unordered(cli_one, [(ll, f) for f in fns], 1): print(r, flush=True)
    os.unlink(ll)
