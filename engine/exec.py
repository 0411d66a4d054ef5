"""Deductive symbolic execution of LLVM IR: every path of the function under contract is executed on
symbolic inputs, calls to contracted functions are replaced by their contracts, loops are cut at
inductive invariants, and every obligation (postconditions, memory bounds, contract preconditions,
invariant initiation/preservation) is discharged by z3."""
import re, subprocess, time, itertools, os
import z3
import ir
from vals import *

_ctr = itertools.count(1)
def fresh_name(p): return '%s!%d' % (p, next(_ctr))

class Region:
    __slots__ = ('rid','kind','size','cells','node','unit','name','alive','ro','owner','default','raw','ext')
    def __init__(s, rid, kind, size, name):
        s.rid = rid; s.kind = kind; s.size = size; s.name = name
        s.cells = {}; s.node = None; s.unit = 1; s.alive = True; s.ro = False; s.owner = 0
        s.default = 'undef'; s.raw = None; s.ext = None
    def copy(s, owner):
        r = Region(s.rid, s.kind, s.size, s.name)
        r.cells = dict(s.cells); r.node = s.node; r.unit = s.unit; r.alive = s.alive; r.ro = s.ro
        r.default = s.default; r.raw = s.raw; r.ext = s.ext; r.owner = owner
        return r

class Frame:
    __slots__ = ('fn','block','idx','regs','prev','ins','loops','rids','uid')
    def __init__(s, fn):
        s.fn = fn; s.block = None; s.idx = 0; s.regs = {}; s.prev = None; s.ins = None; s.loops = {}; s.rids = []; s.uid = next(_ctr)
    def copy(s):
        f = Frame.__new__(Frame)
        f.fn = s.fn; f.block = s.block; f.idx = s.idx; f.regs = dict(s.regs); f.prev = s.prev; f.ins = s.ins
        f.loops = {k: list(v) for k, v in s.loops.items()}; f.rids = list(s.rids); f.uid = s.uid
        return f

class State:
    __slots__ = ('frames','mem','pc','ghost','inputs','exc','owner','outcome','globs','caught','note','tracks','lazy')
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.ghost = {}; s.inputs = []; s.exc = None; s.owner = next(_ctr)
        s.outcome = None; s.globs = {}; s.caught = []; s.note = []; s.tracks = []; s.lazy = []
    def fork(s):
        t = State.__new__(State)
        t.frames = [f.copy() for f in s.frames]; t.mem = dict(s.mem); t.pc = list(s.pc); t.ghost = dict(s.ghost)
        t.inputs = list(s.inputs); t.exc = s.exc; t.outcome = s.outcome; t.globs = dict(s.globs); t.caught = list(s.caught)
        t.note = list(s.note); t.tracks = list(s.tracks); t.lazy = list(s.lazy)
        t.owner = next(_ctr); s.owner = next(_ctr)
        return t
    @property
    def fr(s): return s.frames[-1]

class Obligation:
    def __init__(s, name, kind, loc):
        s.name = name; s.kind = kind; s.loc = loc; s.instances = 0; s.failed = 0; s.unknown = 0; s.time = 0.0; s.cex = None; s.detail = None; s.abstract = False

class Solver:
    """one incremental z3 solver whose assertion stack follows the path being explored"""
    def __init__(self, timeout):
        self.s = z3.SolverFor('ALL') if False else z3.Solver()
        self.s.set('timeout', timeout)
        self.timeout = timeout
        self.stack = []
        self.queries = 0; self.time = 0.0; self.unknowns = 0
        self.cache = {}
        self.keep = []
    def sync(self, pc):
        i = 0
        n = min(len(pc), len(self.stack))
        while i < n and self.stack[i] is pc[i]: i += 1
        k = len(self.stack) - i
        if k:
            self.s.pop(k); del self.stack[i:]
        for c in pc[i:]:
            self.s.push(); self.s.add(c); self.stack.append(c)
    def check(self, pc, extra=None, want_model=False):
        key = None
        if not want_model:
            key = (tuple(c.get_id() for c in pc), extra.get_id() if extra is not None else 0)
            if key in self.cache: return self.cache[key]
        t0 = time.time()
        self.sync(pc)
        self.queries += 1
        if extra is not None:
            self.s.push(); self.s.add(extra)
        r = self.s.check()
        m = self.s.model() if (want_model and r == z3.sat) else None
        if extra is not None: self.s.pop()
        if r == z3.unknown:
            # second attempt from scratch with the full solver pipeline
            s2 = z3.Solver(); s2.set('timeout', self.timeout)
            for c in pc: s2.add(c)
            if extra is not None: s2.add(extra)
            r = s2.check()
            m = s2.model() if (want_model and r == z3.sat) else None
        if r == z3.unknown: self.unknowns += 1
        self.time += time.time() - t0
        if key is not None:
            self.cache[key] = r
            self.keep.append((pc[-1] if pc else None, extra))
        return (r, m) if want_model else r

def fp_never_nan(t):
    if z3.is_fp_value(t): return not t.isNaN()
    if t.decl().kind() == z3.Z3_OP_FPA_TO_FP and t.num_args() == 2:
        return z3.is_bv(t.arg(1)) or (z3.is_fp(t.arg(1)) and fp_never_nan(t.arg(1)))
    if t.decl().kind() == z3.Z3_OP_FPA_TO_FP_UNSIGNED: return True
    return False
def fp_from_int(t):
    return t.decl().kind() in (z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED) and t.num_args() == 2 and (z3.is_bv(t.arg(1)) or (z3.is_fp(t.arg(1)) and fp_from_int(t.arg(1))))
class Engine:
    def __init__(self, mod, contracts, timeout=20000, max_paths=20000, deadline=None, unroll=None, verbose=False):
        self.mod = mod
        self.sol = Solver(timeout)
        self.obl = {}
        self.record = True
        self.contracts = contracts        # object with lookup(name, demangled) -> handler or None
        self.dem = {}
        self.max_paths = max_paths
        self.paths = 0
        self.deadline = deadline
        self.covers = {}
        self.funcs_seen = {}
        self.assumed = {}
        self.loop_log = {}
        self.bounded = unroll             # None: invariants; n: bounded unrolling (fallback)
        self.hit_bound = False
        self.verbose = verbose
        self.steps = 0
        self._rid = itertools.count(1)
        self.demangle_all()
        self.typeids = {}
        self.obl_log = []                 # (pc, goal) pairs of discharged obligations for the second back end
        self.in_dry = 0
        self.unroll_memo = {}
        self.exit_tests = []

    # ------------------------------------------------------------ names
    def demangle_all(self):
        names = list(self.mod.funcs) + list(self.mod.decls)
        p = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), text=True, capture_output=True)
        for n, d in zip(names, p.stdout.split('\n')): self.dem[n] = d

    # ------------------------------------------------------------ solver helpers
    def add_pc(self, s, c):
        c = smp(c)
        if c is True: return True
        if c is False: return False
        s.pc.append(c)
        return True
    def feasible(self, s, c=None):
        if c is not None:
            c = smp(c)
            if c is False: return False
            if c is True: c = None
        r = self.sol.check(s.pc, c)
        return r != z3.unsat
    def must(self, s, c):
        c = smp(c)
        if c is True: return True
        if c is False: return not self.feasible(s)
        return self.sol.check(s.pc, z3.Not(c)) == z3.unsat
    def loc(self, s):
        for f in reversed(s.frames):
            if f.ins is not None and f.ins.line is not None:
                l = self.mod.line(f.ins.line)
                if l and l[0] and '/repo/' in l[0]: return '%s:%d' % (l[0].split('/repo/')[-1], l[1])
        for f in reversed(s.frames):
            if f.ins is not None and f.ins.line is not None:
                l = self.mod.line(f.ins.line)
                if l and l[0]: return '%s:%d' % (os.path.basename(l[0]), l[1])
        return '?'
    def oblige(self, s, name, cond, kind='assert', detail=None):
        """obligation: pc => cond. Continues under cond."""
        cond = smp(cond)
        if not self.record:
            if cond is True: return True
            if cond is False: return False
            s.pc.append(cond)
            return True
        loc = self.loc(s)
        key = (name, kind, loc) if kind != 'assert' else (name, kind, '')
        o = self.obl.get(key)
        if o is None: o = self.obl[key] = Obligation(name, kind, loc)
        o.instances += 1
        if cond is True: return True
        t0 = time.time()
        neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
        r = self.sol.check(s.pc, neg)
        pc = s.pc
        if r != z3.unsat and s.lazy:            # definitions that are rarely needed and costly
            pc = s.pc + s.lazy
            r = self.sol.check(pc, neg)
        o.time += time.time() - t0
        if r == z3.unsat:
            self.obl_log.append((list(pc), neg, name))
            if cond is False: return False
            s.pc.append(cond)
            return True
        if r == z3.unknown:
            o.unknown += 1
        else:
            o.failed += 1
            if o.cex is None:
                o.cex = self.concretize(s, neg)
                o.detail = detail or str(cond)[:400]
                o.loc = loc; o.abstract = bool(s.note)
        if cond is False: return False
        s.pc.append(cond)
        if not self.feasible(s): return False
        return True
    def must_fully(self, s, c): return self.must(s, c) or (bool(s.lazy) and self.sol.check(s.pc + s.lazy, z3.Not(c)) == z3.unsat)
    def concretize(self, s, extra):
        """inputs of the failing path from the solver's model, smallest sizes first"""
        sizes = [t for (k, n, t) in s.inputs if k == 'size' and is_sym(t)]
        for lim in (2, 8, 40, 300, 5000, None):
            pc = list(s.pc) + s.lazy
            if lim is not None:
                if not sizes: 
                    continue
                pc = pc + [t <= lim for t in sizes]
            elif False:
                pass
            r, m = self.sol.check(pc, extra, want_model=True)
            if r == z3.sat:
                return self.tape(s, m)
        return None
    def tape(self, s, m):
        out = []
        def ev(t):
            if isinstance(t, bool): return int(t)
            if isinstance(t, int): return t
            v = m.eval(t, model_completion=True)
            if z3.is_true(v): return 1
            if z3.is_false(v): return 0
            if is_fp(v): v = m.eval(z3.fpToIEEEBV(v), model_completion=True)
            try: return v.as_long()
            except Exception: return 0
        for (k, n, t) in s.inputs:
            if k == 'bytes':
                node, cnt = t
                c = ev(cnt)
                if c > 20000: return None
                out.append(('bytes', n, bytes(ev(node.select(i)) & 255 for i in range(c)).hex()))
            elif k == 'fnat':
                out.append(('fn', n, (ev(t[0]), ev(t[1]))))
            else:
                out.append((k, n, ev(t)))
        for d in m.decls():
            nm = d.name()
            if d.arity() == 1 and (nm.startswith('fn!') or nm.startswith('fnb!')):
                fi = m[d]
                for i in range(fi.num_entries()):
                    en = fi.entry(i)
                    try: out.append(('fn', nm.split('!', 1)[1], (en.arg_value(0).as_long() & (2**64 - 1), en.value().as_long())))
                    except Exception: pass
                try: out.append(('fn', nm.split('!', 1)[1], ('*', fi.else_value().as_long())))
                except Exception: pass
        return out

    # ------------------------------------------------------------ memory
    def new_region(self, s, kind, size, name):
        r = Region(next(self._rid), kind, size, name); r.owner = s.owner
        s.mem[r.rid] = r
        return r
    def wr(self, s, rid):
        r = s.mem[rid]
        if r.owner != s.owner:
            r = r.copy(s.owner); s.mem[rid] = r
        return r
    def global_ptr(self, s, name):
        if name in s.globs: return Ptr(s.globs[name], 0)
        mod = self.mod
        while name in mod.aliases:
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*$', mod.aliases[name]); name = ir.unquote('@' + m.group(1))[1:]
        if name in mod.funcs or name in mod.decls:
            r = self.new_region(s, 'func', 0, name)
        else:
            ty, init, const = mod.glob(name)
            try: size = mod.size(ty)
            except ir.IRError: size = 8
            r = self.new_region(s, 'cells', size, '@' + name)
            r.ro = const
            s.globs[name] = r.rid
            if init is not None: self.init_const(s, r, 0, ty, init)
            elif name.startswith('_ZTI') and const:
                # type_info of a fundamental type, provided by the run-time library: (vtable, mangled name)
                r.size = 16; t = self.new_region(s, 'cells', len(name) - 3, '@_ZTS' + name[4:]); t.ro = True
                for i, b in enumerate(name[4:].encode() + b'\0'): t.cells[i] = (1, b)
                r.cells[8] = (8, Ptr(t.rid, 0))
            elif not const or True:
                r.default = 'undef'
            if init is not None and init[0] == 'bytes': r.raw = init[1]
            return Ptr(r.rid, 0)
        s.globs[name] = r.rid
        return Ptr(r.rid, 0)
    def init_const(self, s, r, off, ty, c):
        mod = self.mod
        ty = mod.resolve(ty)
        k = c[0]
        if k == 'zero' or k == 'null' and ty[0] != 'ptr':
            if off == 0 and r.size == mod.size(ty): r.default = 'zero'
            else:
                for i in range(mod.size(ty)): r.cells[off + i] = (1, 0)
                if ty[0] == 'ptr': r.cells[off] = (8, NULL)
            return
        if k == 'bytes':
            for i, b in enumerate(c[1]): r.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if ty[0] == 'arr':
                es = mod.size(ty[2])
                for i, (et, ev) in enumerate(c[1]): self.init_const(s, r, off + i * es, et, ev)
            else:
                offs, _ = mod.layout(ty)
                for o, (et, ev) in zip(offs, c[1]): self.init_const(s, r, off + o, et, ev)
            return
        if k == 'undef': return
        v = self.operand(s, ty, c)
        if ty[0] in ('st', 'arr'):
            raise Unsupported('const init %s' % k)
        r.cells[off] = (mod.size(ty), v)
    def region(self, s, p, what='access'):
        if not isinstance(p, Ptr): 
            if isinstance(p, int) and p == 0: p = NULL
            else: raise Unsupported('%s through non-pointer %r' % (what, p))
        if p.rid == 0: return None
        return s.mem[p.rid]
    def bounds(self, s, r, off, n, what):
        """in-bounds obligation"""
        sz = r.size
        if sz is None: return True
        if is_bv(off):
            if not isinstance(sz, int): raise Unsupported('bv offset in unbounded region')
            if sz < n: c = False
            else: c = z3.ULE(off, sz - n)
        elif isinstance(off, int) and isinstance(sz, int):
            c = 0 <= off and off + n <= sz
        else:
            c = z3.And(as_z(off) >= 0, as_z(off) + n <= as_z(sz))
        if c is True: return True
        return self.oblige(s, 'memory-safety: %s stays inside %s' % (what, nice(r.name)), c, 'memory')
    def load(self, s, p, ty):
        """-> value; may raise Fork to split on an offset"""
        mod = self.mod
        ty = mod.resolve(ty)
        if ty[0] in ('st', 'arr'):
            if ty[0] == 'st':
                offs, _ = mod.layout(ty)
                return [self.load(s, Ptr(p.rid, addoff(p.off, o)), f) for o, f in zip(offs, ty[1])]
            es = mod.size(ty[2])
            return [self.load(s, Ptr(p.rid, addoff(p.off, i * es)), ty[2]) for i in range(ty[1])]
        n = mod.size(ty)
        v = self.load_raw(s, p, n, ty)
        return self.coerce(s, v, ty)
    def coerce(self, s, v, ty):
        k = ty[0]
        if isinstance(v, Poison): return v
        if k == 'ptr':
            if isinstance(v, Ptr): return v
            if isinstance(v, int): return NULL if v == 0 else Ptr(0, v)
            raise Unsupported('symbolic pointer bits')
        if k == 'f64' or k == 'f32':
            w = 64 if k == 'f64' else 32
            if is_fp(v): return v
            return z3.fpBVToFP(as_bv(v, w), z3.Float64() if w == 64 else z3.Float32())
        if k == 'f80':
            return v
        if k == 'i':
            w = ty[1]
            if isinstance(v, Ptr): return v
            if is_fp(v): return z3.fpToIEEEBV(v)
            if w == 1:
                if is_bv(v): return smp(z3.Extract(0, 0, v) == 1) if v.size() > 1 else v == 1
                return v
            if is_bool(v): return as_bv(v, w)
            if w not in (8, 16, 32, 64, 128) and is_bv(v) and v.size() != w:
                return z3.Extract(w - 1, 0, v)
            return v
        if k == 'vec': raise Unsupported('vector load')
        return v
    def load_raw(self, s, p, n, ty=None):
        r = self.region(s, p, 'load')
        if r is None:
            self.oblige(s, 'memory-safety: no null dereference', False, 'memory')
            raise DeadPath()
        if not r.alive:
            self.oblige(s, 'memory-safety: no use after free of %s' % nice(r.name), False, 'memory')
            raise DeadPath()
        off = p.off
        if r.kind == 'func': raise Unsupported('load from function')
        if not self.bounds(s, r, off, n, 'load'): raise DeadPath()
        if r.kind == 'ext':
            return r.ext(self, s, r, off, n, ty)
        if r.kind == 'farr':
            if is_bv(off): off = z3.BV2Int(off)
            off = norm(off)
            if n == r.unit: return r.node.select(off)
            if r.unit == 1:
                bs = [as_bv(r.node.select(addoff(off, i)), 8) for i in range(n)]
                return smp(z3.Concat(*reversed(bs)))
            raise Unsupported('load of %d bytes from a region of %d-byte cells (%s)' % (n, r.unit, r.name))
        if not isinstance(off, int):
            c = smp(off)
            if isinstance(c, int): off = c
        if not isinstance(off, int):
            return self.load_symoff(s, p, r, off, n)
        return self.cell_load(s, r, off, n, ty)
    def cell_load(self, s, r, off, n, ty=None):
        c = r.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        # assemble from bytes
        bs = []
        for i in range(n):
            b = self.cell_byte(r, off + i)
            if b is None:
                if r.default == 'zero': b = 0
                else:
                    # uninitialised: any value (remembered)
                    if all(self.cell_byte(r, off + j) is None for j in range(n)):
                        v = z3.BitVec(fresh_name('undef'), 8 * n)
                        if n == 8 and ty is not None and ty[0] == 'ptr': v = POISON
                        w = self.wr(s, r.rid); w.cells[off] = (n, v)
                        return v
                    b = z3.BitVec(fresh_name('undef'), 8)
                    w = self.wr(s, r.rid); w.cells[off + i] = (1, b); r = w
            bs.append(b)
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        return smp(z3.Concat(*[as_bv(b, 8) for b in reversed(bs)]) if len(bs) > 1 else as_bv(bs[0], 8))
    def cell_byte(self, r, off):
        for d in range(0, 16):
            c = r.cells.get(off - d)
            if c is not None and c[0] > d:
                sz, v = c
                if isinstance(v, int): return (v >> (8 * d)) & 255
                if isinstance(v, Ptr):
                    if v.rid == 0 and isinstance(v.off, int): return (v.off >> (8 * d)) & 255
                    raise Unsupported('byte of a pointer in %s' % r.name)
                if isinstance(v, Poison): raise Unsupported('byte of poison')
                if sz == 1: return as_bv(v, 8)
                b = as_bv(v, 8 * sz)
                return z3.Extract(8 * d + 7, 8 * d, b)
        return None
    def load_symoff(self, s, p, r, off, n):
        # table of integers indexed symbolically
        if isinstance(r.size, int) and r.size <= 4096 and is_bv(off):
            vals = []
            ok = True
            for o in range(0, r.size - n + 1, n):
                try: v = self.cell_load(s, r, o, n)
                except Unsupported: ok = False; break
                if not isinstance(v, int): ok = False; break
                vals.append(v)
            if ok and vals and (n == 1 or self.must(s, z3.URem(off, z3.BitVecVal(n, off.size())) == 0)):
                return table_bv(vals, off, n)
        # otherwise split on the possible offsets
        cands = self.enum_values(s, off, 160)
        if cands is None: raise Unsupported('symbolic offset into %s' % r.name)
        raise Fork([(off == c if not is_bv(off) else off == z3.BitVecVal(c, off.size()), ('setoff', off, c)) for c in cands])
    def enum_values(self, s, e, limit):
        vals = []
        pc = list(s.pc)
        while len(vals) <= limit:
            r, m = self.sol.check(pc, None, want_model=True)
            if r == z3.unsat: return vals
            if r != z3.sat: return None
            v = m.eval(e, model_completion=True).as_long()
            vals.append(v)
            pc = pc + [e != v]
        return None
    def store(self, s, p, n, v, ty=None):
        r = self.region(s, p, 'store')
        if r is None:
            self.oblige(s, 'memory-safety: no null dereference', False, 'memory')
            raise DeadPath()
        if not r.alive:
            self.oblige(s, 'memory-safety: no use after free of %s' % nice(r.name), False, 'memory')
            raise DeadPath()
        off = p.off
        if r.ro:
            self.oblige(s, 'frame: %s is not written' % nice(r.name), False, 'frame')
            raise DeadPath()
        if not self.bounds(s, r, off, n, 'store'): raise DeadPath()
        if r.kind == 'ext': raise Unsupported('store into %s' % r.name)
        if r.kind == 'farr':
            if is_bv(off): off = z3.BV2Int(off)
            off = norm(off)
            w = self.wr(s, r.rid)
            if n == r.unit:
                w.node = Store(w.node, off, v if isinstance(v, (int, Ptr)) else as_bv(v, 8 * n))
                return
            if r.unit == 1:
                b = as_bv(v, 8 * n)
                for i in range(n):
                    w.node = Store(w.node, addoff(off, i), smp_bv(z3.Extract(8 * i + 7, 8 * i, b)))
                return
            raise Unsupported('store of %d bytes into a region of %d-byte cells (%s)' % (n, r.unit, r.name))
        if not isinstance(off, int):
            c = smp(off)
            if isinstance(c, int): off = c
        if not isinstance(off, int):
            cands = self.enum_values(s, off, 160)
            if cands is None: raise Unsupported('symbolic store offset into %s' % r.name)
            raise Fork([(off == c if not is_bv(off) else off == z3.BitVecVal(c, off.size()), ('setoff', off, c)) for c in cands])
        self.cell_store(s, r.rid, off, n, v)
    def cell_clear(self, w, off, n):
        """drop the bytes [off, off+n) keeping the rest of partly covered cells"""
        for d in range(1, 16):
            o = off - d
            c = w.cells.get(o)
            if c is not None and c[0] > d:
                # what is left of a partly overwritten pointer has no value of its own (reading it is refused)
                bs = [POISON] * c[0] if (isinstance(c[1], Poison) or isinstance(c[1], Ptr) and c[1].rid != 0) else [self.cell_byte(w, o + i) for i in range(c[0])]
                del w.cells[o]
                for i, b in enumerate(bs):
                    if not (off <= o + i < off + n): w.cells[o + i] = (1, b)
        for o in ([x for x in range(off, off + n) if x in w.cells] if n < 2 * len(w.cells) else [x for x in w.cells if off <= x < off + n]):
            c = w.cells[o]
            if o + c[0] > off + n:
                # what is left of a partly overwritten pointer has no value of its own (reading it is refused)
                bs = [POISON] * c[0] if (isinstance(c[1], Poison) or isinstance(c[1], Ptr) and c[1].rid != 0) else [self.cell_byte(w, o + i) for i in range(c[0])]
                del w.cells[o]
                for i, b in enumerate(bs):
                    if o + i >= off + n: w.cells[o + i] = (1, b)
            else:
                del w.cells[o]
    def cell_store(self, s, rid, off, n, v):
        w = self.wr(s, rid)
        c = w.cells.get(off)
        if c is None or c[0] != n: self.cell_clear(w, off, n)
        elif n > 1 and False: pass
        w.cells[off] = (n, v)
    def store_ty(self, s, p, ty, v):
        mod = self.mod
        ty = mod.resolve(ty)
        if ty[0] == 'st':
            offs, _ = mod.layout(ty)
            if isinstance(v, tuple) and v and v[0] == 'undefagg': return
            for o, f, x in zip(offs, ty[1], v): self.store_ty(s, Ptr(p.rid, addoff(p.off, o)), f, x)
            return
        if ty[0] == 'arr':
            es = mod.size(ty[2])
            for i, x in enumerate(v): self.store_ty(s, Ptr(p.rid, addoff(p.off, i * es)), ty[2], x)
            return
        n = mod.size(ty)
        if ty[0] == 'i' and ty[1] == 1 and is_bool(v): v = as_bv(v, 8)
        if ty[0] == 'i' and ty[1] not in (1, 8, 16, 32, 64, 128) and is_bv(v):
            v = z3.ZeroExt(8 * n - ty[1], v)
        self.store(s, p, n, v, ty)
    def memcpy(self, s, d, src, n):
        n = smp(n) if is_sym(n) else n
        if isinstance(n, int) and n == 0: return
        if isinstance(n, int):
            rs = self.region(s, src); rd = self.region(s, d)
            if rs is None or rd is None:
                self.oblige(s, 'memory-safety: no null dereference', False, 'memory'); raise DeadPath()
            if rs.kind == 'cells' and rd.kind == 'cells' and isinstance(src.off, int) and isinstance(d.off, int):
                if not rs.alive or not rd.alive:
                    self.oblige(s, 'memory-safety: no use after free', False, 'memory'); raise DeadPath()
                if not self.bounds(s, rs, src.off, n, 'copy source'): raise DeadPath()
                if not self.bounds(s, rd, d.off, n, 'copy target'): raise DeadPath()
                if rd.ro:
                    self.oblige(s, 'frame: %s is not written' % nice(rd.name), False, 'frame'); raise DeadPath()
                moved = []
                covered = set()
                for o, (sz, v) in list(rs.cells.items()):
                    if o >= src.off and o + sz <= src.off + n:
                        moved.append((o - src.off, sz, v)); covered.update(range(o, o + sz))
                    elif o < src.off + n and o + sz > src.off:
                        for i in range(sz):
                            if src.off <= o + i < src.off + n:
                                moved.append((o + i - src.off, 1, self.cell_byte(rs, o + i))); covered.add(o + i)
                w = self.wr(s, d.rid)
                self.cell_clear(w, d.off, n)
                for o, sz, v in moved: w.cells[d.off + o] = (sz, v)
                if rs.default == 'zero' and len(covered) < n:
                    for i in range(n):
                        if src.off + i not in covered: w.cells[d.off + i] = (1, 0)
                return
            unit = rs.unit if rs.kind == 'farr' else rd.unit if rd.kind == 'farr' else 8
            if rs.kind == 'ext' or rd.kind == 'ext': unit = 8 if n % 8 == 0 else 1
            if n <= 64 and n % unit == 0:
                vals = [self.load_raw(s, Ptr(src.rid, addoff(src.off, i)), unit) for i in range(0, n, unit)]
                for i, v in zip(range(0, n, unit), vals): self.store(s, Ptr(d.rid, addoff(d.off, i)), unit, v)
                return
        # symbolic or long copy between sequences
        rs = self.region(s, src); rd = self.region(s, d)
        if rs is None or rd is None:
            if self.must(s, as_z(n) == 0): return
            raise Unsupported('copy through null')
        if is_sym(n) and (rs.kind == 'cells' or rd.kind == 'cells'):
            # a short copy into or out of an object: one path per length
            vs = self.enum_values(s, n, 24)
            if vs is not None:
                if len(vs) == 1: return self.memcpy(s, d, src, vs[0])
                raise Fork([(n == v, None) for v in vs])
        self.to_farr(s, rs.rid); self.to_farr(s, rd.rid)
        rs = s.mem[rs.rid]; rd = s.mem[rd.rid]
        if rs.unit != rd.unit: raise Unsupported('copy between regions of different cell size')
        for (r, off, w) in ((rs, src.off, 'copy source'), (rd, d.off, 'copy target')):
            if r.size is None: continue
            if not self.oblige(s, 'memory-safety: %s stays inside %s' % (w, nice(r.name)),
                        z3.And(as_z(off) >= 0, as_z(off) + as_z(n) <= as_z(r.size)), 'memory'): raise DeadPath()
        w = self.wr(s, rd.rid)
        w.node = Copy(w.node, d.off, n, rs.node, src.off)
    def to_farr(self, s, rid):
        """give a byte region the sequence representation"""
        r = s.mem[rid]
        if r.kind == 'farr': return
        if r.kind != 'cells' or not isinstance(r.size, int): raise Unsupported('sequence view of %s' % r.name)
        w = self.wr(s, rid)
        if r.default == 'zero': node = Const(0, 8)
        else: node = Base(fresh_name('mem'), 8)
        data = {}
        for o, (sz, v) in r.cells.items():
            for i in range(sz): data[o + i] = self.cell_byte(r, o + i)
        if data and all(isinstance(x, int) for x in data.values()) and len(data) == r.size:
            node = Lit(bytes(data[i] for i in range(r.size)))
        else:
            for o in sorted(data): node = Store(node, o, data[o] if isinstance(data[o], int) else as_bv(data[o], 8))
        w.kind = 'farr'; w.unit = 1; w.node = node; w.cells = {}

    # ------------------------------------------------------------ operands
    def operand(self, s, ty, c):
        k = c[0]
        if k == 'reg':
            try: return s.frames[-1].regs[c[1]]
            except KeyError: raise Unsupported('register %s' % c[1])
        if k == 'int':
            if ty[0] == 'ptr': return NULL if c[1] == 0 else Ptr(0, c[1])
            return c[1]
        if k == 'null': return NULL
        if k == 'glob': return self.global_ptr(s, c[1])
        if k == 'fp':
            if ty[0] == 'f80': return ('f80', c[1])
            w = 64 if ty[0] == 'f64' else 32
            return z3.simplify(z3.fpBVToFP(z3.BitVecVal(c[1], w), z3.Float64() if w == 64 else z3.Float32()))
        if k in ('undef', 'zero'):
            return self.undef(s, ty, k == 'zero')
        if k == 'agg': return [self.operand(s, et, ev) for et, ev in c[1]]
        if k == 'gep':
            base = self.operand(s, ('ptr',), c[2][0][1])
            return self.gep(s, c[1], base, [(t, self.operand(s, t, v)) for t, v in c[2][1:]])
        if k == 'cast':
            v = self.operand(s, c[2], c[3])
            return self.cast(s, c[1], c[2], v, c[4])
        if k == 'cbin':
            return self.binop(s, c[1], c[2], self.operand(s, c[2], c[3]), self.operand(s, c[2], c[4]))
        if k == 'bytes': return list(c[1])
        raise Unsupported('operand %s' % k)
    def undef(self, s, ty, zero=False):
        ty = self.mod.resolve(ty)
        if ty[0] == 'st': return [self.undef(s, f, zero) for f in ty[1]]
        if ty[0] == 'arr': return [self.undef(s, ty[2], zero) for _ in range(ty[1])]
        if ty[0] == 'ptr': return NULL if zero else POISON
        if ty[0] == 'i': return 0 if zero else z3.BitVec(fresh_name('undef'), ty[1]) if ty[1] > 1 else z3.Bool(fresh_name('undef'))
        if ty[0] in ('f64', 'f32'):
            so = z3.Float64() if ty[0] == 'f64' else z3.Float32()
            return z3.FPVal(0.0, so) if zero else z3.FP(fresh_name('undef'), so)
        return POISON
    def sindex(self, s, v, w):
        """signed mathematical value of an index"""
        if isinstance(v, int): return sgn(v, w)
        if is_int(v):
            if self.must(s, v < (1 << (w - 1))): return v
            return z3.If(v < (1 << (w - 1)), v, v - (1 << w))
        return v
    def gep(self, s, bt, base, idx):
        if isinstance(base, Poison): raise Unsupported('gep on unknown pointer')
        if isinstance(base, int): base = NULL if base == 0 else Ptr(0, base)
        mod = self.mod
        off = base.off
        ty = bt
        first = True
        for t, v in idx:
            if first:
                sz = mod.size(ty); first = False
            else:
                ty = mod.resolve(ty)
                if ty[0] == 'st':
                    offs, _ = mod.layout(ty)
                    off = addoff(off, offs[v]); ty = ty[1][v]
                    continue
                elif ty[0] in ('arr', 'vec'):
                    ty = ty[2]; sz = mod.size(ty)
                else: raise Unsupported('gep into %s' % (ty,))
            w = t[1]
            iv = self.sindex(s, v, w)
            if isinstance(iv, Ptr): raise Unsupported('pointer as index')
            if is_bv(iv):
                if w < 64: iv = z3.SignExt(64 - w, iv)
                iv = smp_bv(iv * sz) if sz != 1 else iv
                if isinstance(iv, int): off = addoff(off, sgn(iv, 64))
                elif isinstance(off, int): off = iv + off if off != 0 else iv
                elif is_bv(off): off = off + iv
                else: off = addoff(off, z3.BV2Int(iv, True))
            else:
                d = iv * sz
                if is_bv(off):
                    if isinstance(d, int): off = smp_bv(off + d)
                    else: off = addoff(z3.BV2Int(off), d)
                else: off = addoff(off, d)
        return Ptr(base.rid, off)

    # ------------------------------------------------------------ arithmetic
    def binop(self, s, op, ty, a, b):
        if ty[0] in ('f64', 'f32'):
            a = self.coerce(s, a, ty); b = self.coerce(s, b, ty)
            rm = z3.RNE()
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
            if f is None: raise Unsupported(op)
            return f(rm, a, b)
        if ty[0] != 'i': raise Unsupported('%s on %s' % (op, ty))
        w = ty[1]
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported('arithmetic on unknown value')
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptr_arith(s, op, w, a, b)
        if isinstance(a, int) and isinstance(b, int):
            return self.const_op(s, op, w, a, b)
        if w == 1:
            x = as_bool(a); y = as_bool(b)
            if op == 'and': return smp(z3.And(x, y))
            if op == 'or': return smp(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'): return smp(z3.Xor(x if is_sym(x) else z3.BoolVal(x), y if is_sym(y) else z3.BoolVal(y)))
            raise Unsupported(op + ' i1')
        if is_int(a) or is_int(b):
            return self.int_op(s, op, w, a, b)
        x = as_bv(a, w); y = as_bv(b, w)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if not self.oblige(s, 'arithmetic: no division by zero', y != 0, 'arith'): raise DeadPath()
            if op == 'sdiv':
                r = self.cancel(s, w, x, y)
                if r is not None: return r
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'udiv': lambda: z3.UDiv(x, y), 'sdiv': lambda: x / y,
             'urem': lambda: z3.URem(x, y), 'srem': lambda: z3.SRem(x, y), 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]
        return smp(f())
    def cancel(self, s, w, x, y):
        """(t * c1) / c2 without the multiplication, where one constant divides the other and t * c1 does not overflow"""
        if not z3.is_bv_value(y): return None
        x = z3.simplify(x)
        if x.decl().kind() != z3.Z3_OP_BMUL or x.num_args() != 2 or not z3.is_bv_value(x.arg(0)): return None
        c1 = x.arg(0).as_signed_long(); c2 = y.as_signed_long(); t = x.arg(1)
        if c1 <= 0 or c2 <= 0 or (c1 % c2 and c2 % c1): return None
        lim = (1 << (w - 1)) - 1
        if not self.must(s, z3.And(t <= z3.BitVecVal(lim // c1, w), t >= z3.BitVecVal(-(lim // c1), w))): return None
        if c1 % c2 == 0: return smp(t * z3.BitVecVal(c1 // c2, w))
        return self.binop(s, 'sdiv', ('i', w), t, z3.BitVecVal(c2 // c1, w))
    def const_op(self, s, op, w, a, b):
        if op == 'add': return mask(a + b, w)
        if op == 'sub': return mask(a - b, w)
        if op == 'mul': return mask(a * b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
            self.oblige(s, 'arithmetic: no division by zero', False, 'arith'); raise DeadPath()
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        if op in ('sdiv', 'srem'):
            x = sgn(a, w); y = sgn(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return mask(q if op == 'sdiv' else x - q * y, w)
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return mask(a << b, w) if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return mask(sgn(a, w) >> min(b, w - 1), w)
        raise Unsupported(op)
    def wrap(self, s, e, w, lo, hi):
        """e mod 2^w where e is known to lie in [lo, hi)"""
        e = norm(e) if not isinstance(e, int) else e
        if isinstance(e, int): return mask(e, w)
        M = 1 << w
        if lo < 0 and self.must(s, e >= 0): lo = 0
        if hi > M and self.must(s, e < M): hi = M
        if lo >= 0 and hi <= M: return e
        if lo >= -M and hi <= M: return z3.If(e < 0, e + M, e)
        if lo >= 0 and hi <= 2 * M: return z3.If(e >= M, e - M, e)
        return e % M
    def int_op(self, s, op, w, a, b):
        M = 1 << w
        if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem'):
            x = as_int(a); y = as_int(b)
            if op == 'add':
                # adding a negative constant
                if isinstance(y, int) and y >= M // 2: return self.wrap(s, x + (y - M), w, -M, M)
                if isinstance(x, int) and x >= M // 2: return self.wrap(s, y + (x - M), w, -M, M)
                return self.wrap(s, as_z(x) + y, w, 0, 2 * M)
            if op == 'sub': return self.wrap(s, as_z(x) - y, w, -M, M)
            if op == 'mul':
                if isinstance(y, int) and y >= M // 2 and False: pass
                return self.wrap(s, as_z(x) * y, w, 0, M * M)
            if isinstance(y, int):
                if y == 0:
                    self.oblige(s, 'arithmetic: no division by zero', False, 'arith'); raise DeadPath()
            else:
                if not self.oblige(s, 'arithmetic: no division by zero', y != 0, 'arith'): raise DeadPath()
            if op in ('sdiv', 'srem'):
                if not self.must(s, z3.And(as_z(x) < M // 2, as_z(y) < M // 2)):
                    if isinstance(y, int) and 0 < y < M // 2:
                        sx = self.sindex(s, x, w)
                        q = z3.If(sx >= 0, sx / y, -((-sx) / y))
                        r = q if op == 'sdiv' else sx - q * y
                        return z3.If(r < 0, r + M, r)
                    raise Unsupported('signed division')
            if isinstance(y, int):
                q = lin_div(x, y)
                if q is not None: return q if op in ('udiv', 'sdiv') else 0
                # name the quotient and remainder so the solver sees linear facts only
                qn = z3.Int(fresh_name('quot')); rn = z3.Int(fresh_name('rem'))
                s.pc.append(z3.And(x == qn * y + rn, rn >= 0, rn < y, qn >= 0))
                return qn if op in ('udiv', 'sdiv') else rn
            if op in ('udiv', 'sdiv'): return as_z(x) / y
            return as_z(x) % y
        # bit operations with constants
        if op in ('and', 'shl', 'lshr', 'or', 'xor', 'ashr'):
            x, y = a, b
            if op == 'and' and isinstance(x, int): x, y = y, x
            if isinstance(y, int) and is_int(x):
                if op == 'and' and (y & (y + 1)) == 0:
                    if self.must(s, x <= y): return x
                    return self.int_op(s, 'urem', w, x, y + 1)
                if op == 'and' and y == M - 1: return x
                if op == 'shl': return self.int_op(s, 'mul', w, x, 1 << y)
                if op == 'lshr': return self.int_op(s, 'udiv', w, x, 1 << y)
                if op == 'ashr' and self.must(s, x < M // 2): return self.int_op(s, 'udiv', w, x, 1 << y)
                if op == 'xor' and y == M - 1: return self.wrap(s, (M - 1) - x, w, 0, M)
                if op in ('or', 'xor') and y == 0: return x
            if op == 'xor' and isinstance(x, int) and x == M - 1: return self.wrap(s, (M - 1) - y, w, 0, M)
        return self.binop(s, op, ('i', w), as_bv(a, w), as_bv(b, w))
    def ptr_arith(self, s, op, w, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.rid == b.rid:
                d = lin_sub(toint(a.off), toint(b.off))
                if isinstance(d, int): return mask(d, w)
                return self.wrap(s, d, w, -(1 << w), 1 << w)
            raise Unsupported('difference of pointers into different objects')
        if op == 'sub' and isinstance(a, Ptr):
            if isinstance(b, int): return Ptr(a.rid, addoff(a.off, -sgn(b, w)))
        if op == 'add':
            p, o = (a, b) if isinstance(a, Ptr) else (b, a)
            if isinstance(o, int): return Ptr(p.rid, addoff(p.off, sgn(o, w)))
            if is_int(o): return Ptr(p.rid, addoff(p.off, self.sindex(s, o, w)))
        if op == 'and':
            p, o = (a, b) if isinstance(a, Ptr) else (b, a)
            if isinstance(o, int) and p.rid != 0:
                if o >= (1 << 48) - 1 and (o & ((1 << 48) - 1)) == (1 << 48) - 1: return p
                if o < 16 and isinstance(p.off, int): return p.off & o    # regions are 16-byte aligned
            if isinstance(p, Ptr) and p.rid == 0 and isinstance(p.off, int): return self.binop(s, op, ('i', w), p.off, o)
        if op == 'or':
            p, o = (a, b) if isinstance(a, Ptr) else (b, a)
            if isinstance(o, int) and o == 0: return p
        if isinstance(a, Ptr) and a.rid == 0: return self.binop(s, op, ('i', w), a.off, b)
        if isinstance(b, Ptr) and b.rid == 0: return self.binop(s, op, ('i', w), a, b.off)
        raise Unsupported('%s on a pointer' % op)
    def cmp_ptr(self, s, pred, a, b):
        if isinstance(a, int): a = NULL if a == 0 else Ptr(0, a)
        if isinstance(b, int): b = NULL if b == 0 else Ptr(0, b)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('comparison of pointer with %r' % ((a, b),))
        if a.rid != b.rid:
            if pred == 'eq': return False
            if pred == 'ne': return True
            # null compares below everything (idiom in the standard library)
            if a.rid == 0: return pred in ('ult', 'ule', 'slt', 'sle')
            if b.rid == 0: return pred in ('ugt', 'uge', 'sgt', 'sge')
            # distinct objects lie in some order, the same whenever they are compared
            ra, rb = z3.Int('addr!%d' % a.rid), z3.Int('addr!%d' % b.rid)
            self.add_pc(s, ra != rb)
            lt = ra < rb
            return lt if pred in ('ult', 'ule', 'slt', 'sle') else z3.Not(lt)
        x = toint(a.off); y = toint(b.off)
        if isinstance(x, int) and isinstance(y, int):
            return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
        x = as_z(x)
        return smp({'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: x < y, 'ule': lambda: x <= y, 'ugt': lambda: x > y, 'uge': lambda: x >= y,
                    'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]())
    def icmp(self, s, pred, ty, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison): raise Unsupported('comparison of unknown value')
        if ty[0] == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr): return self.cmp_ptr(s, pred, a, b)
        w = ty[1]
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
        if w == 1:
            x = as_bool(a); y = as_bool(b)
            x = x if is_sym(x) else z3.BoolVal(x)
            if pred == 'eq': return smp(x == y)
            if pred == 'ne': return smp(x != y)
            raise Unsupported('icmp i1')
        if is_int(a) or is_int(b):
            if is_bv(a) or is_bv(b):
                # mixed representation: compare as bit vectors when the integer side is a conversion
                pass
            x = as_int(a); y = as_int(b)
            if pred[0] == 's':
                x = self.sindex(s, x, w); y = self.sindex(s, y, w)
            x = as_z(x)
            p = pred[1:] if pred[0] in 'us' else pred
            return smp({'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[p]())
        x = as_bv(a, w); y = as_bv(b, w)
        return smp({'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y),
                    'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]())
    def fcmp(self, s, pred, ty, a, b):
        if pred == 'true': return True
        if pred == 'false': return False
        a = self.coerce(s, a, ty); b = self.coerce(s, b, ty)
        if fp_never_nan(a) and fp_never_nan(b): nan = z3.BoolVal(False)
        else: nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if a.eq(b):
            if pred[1:] in ('eq', 'ge', 'le'): return smp(z3.Not(nan)) if pred[0] == 'o' else True
            if pred[1:] in ('ne', 'lt', 'gt'): return False if pred[0] == 'o' else smp(nan)
        if pred == 'ord': return smp(z3.Not(nan))
        if pred == 'uno': return smp(nan)
        r = {'eq': z3.fpEQ(a, b), 'ne': z3.Not(z3.fpEQ(a, b)), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b)}[pred[1:]]
        return smp(z3.And(z3.Not(nan), r) if pred[0] == 'o' else z3.Or(nan, r))
    def cast(self, s, op, st, v, dt):
        st = self.mod.resolve(st); dt = self.mod.resolve(dt)
        if op in ('bitcast', 'addrspacecast'):
            if st[0] == dt[0]: return v
            return self.coerce(s, v, dt)
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.rid == 0 and isinstance(v.off, int): return v.off
            return v
        if op == 'inttoptr': return self.coerce(s, v, dt)
        if isinstance(v, Poison): return v
        if op in ('zext', 'sext', 'trunc'):
            w0, w1 = st[1], dt[1]
            if isinstance(v, Ptr):
                if w1 >= 64: return v
                raise Unsupported('%s of a pointer' % op)
            if op == 'zext':
                if isinstance(v, (int, bool)): return int(v)
                if is_bool(v): return smp(as_bv(v, w1))
                if is_int(v): return v
                return smp(z3.ZeroExt(w1 - w0, v))
            if op == 'sext':
                if isinstance(v, (int, bool)): return mask(sgn(int(v), w0), w1)
                if is_bool(v): return smp(z3.If(v, z3.BitVecVal(-1, w1), z3.BitVecVal(0, w1)))
                if is_int(v):
                    if self.must(s, v < (1 << (w0 - 1))): return v
                    return z3.If(v < (1 << (w0 - 1)), v, v + ((1 << w1) - (1 << w0)))
                return smp(z3.SignExt(w1 - w0, v))
            if isinstance(v, int): 
                r = mask(v, w1)
                return bool(r) if w1 == 1 else r
            if is_int(v):
                if w1 == 1: return smp(v % 2 == 1)
                if self.must(s, v < (1 << w1)): return v
                return self.int_op(s, 'urem', w0, v, 1 << w1)
            if w1 == 1: return smp(z3.Extract(0, 0, as_bv(v, w0)) == 1)
            return smp(z3.Extract(w1 - 1, 0, as_bv(v, w0)))
        if op in ('fpext', 'fptrunc'):
            if dt[0] == 'f80' or st[0] == 'f80': raise Unsupported('long double')
            v = self.coerce(s, v, st)
            return z3.simplify(z3.fpFPToFP(z3.RNE(), v, z3.Float64() if dt[0] == 'f64' else z3.Float32()))
        if op in ('sitofp', 'uitofp'):
            so = z3.Float64() if dt[0] == 'f64' else z3.Float32()
            b = as_bv(v, st[1])
            if st[1] <= 64 and not isinstance(v, int):
                # canonical form, so that equal integers converted along different routes give the same term
                if st[1] < 64: b = z3.simplify(z3.SignExt(64 - st[1], b) if op == 'sitofp' else z3.ZeroExt(64 - st[1], b)); op = 'sitofp'
                lo = z3.Extract(31, 0, b)
                for c in (z3.SignExt(32, lo), z3.ZeroExt(32, lo)):
                    if self.must(s, b == c): b = z3.simplify(c); op = 'sitofp'; break
                else:
                    if op == 'uitofp' and self.must(s, b >= 0): op = 'sitofp'
            return z3.simplify(z3.fpSignedToFP(z3.RNE(), b, so) if op == 'sitofp' else z3.fpUnsignedToFP(z3.RNE(), b, so))
        if op in ('fptosi', 'fptoui'):
            v = self.coerce(s, v, st)
            f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
            return z3.simplify(f(z3.RTZ(), v, z3.BitVecSort(dt[1])))
        raise Unsupported(op)

    # ------------------------------------------------------------ running
    def call_function(self, s, name, args, ins=None):
        f = self.mod.funcs[name].parse()
        self.funcs_seen[name] = self.funcs_seen.get(name, 0) + 1
        if len(s.frames) > 1200: raise Unsupported('recursion too deep at %s' % self.dem.get(name, name))
        fr = Frame(f)
        for (ty, nm), v in zip(f.params, args): fr.regs[nm] = v
        fr.block = f.entry; fr.idx = 0
        s.frames.append(fr)
    def explore(self, s, stop=None):
        """run s (and all forks) to the end or to `stop`; returns the final states"""
        work = [s]; outs = []
        while work:
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
            s = work.pop()
            r = self.run(s, stop)
            for t in r:
                if t.outcome is not None: outs.append(t)
                else: work.append(t)
            if len(outs) + len(work) > self.max_paths: raise Unsupported('too many paths')
        return outs
    def run(self, s, stop):
        """execute until an outcome or a fork"""
        while True:
            self.steps += 1
            if self.steps % 2000 == 0 and self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
            if s.exc is not None and s.exc[2]:
                if not self.unwind(s, stop): return [s]
                continue
            fr = s.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.idx]
            fr.ins = ins
            try:
                r = self.step(s, fr, ins, stop)
            except DeadPath:
                return []
            except Fork as f:
                res = []
                for c, act in f.alts:
                    if self.feasible(s, c):
                        t = s.fork()
                        self.add_pc(t, c)
                        if act and act[0] == 'setoff': subst_off(t, act[1], act[2])
                        elif act and act[0] == 'do': act[1](t)
                        res.append(t)
                return res
            if r is not None: return r
            if s.outcome is not None: return [s]
    def unwind(self, s, stop):
        """exception in flight: find the next landing pad. False when an outcome was set."""
        while s.frames:
            fr = s.frames[-1]
            ins = fr.ins
            if ins is not None and ins.op == 'invoke':
                lpb = ins.a['unwind']
                blk = fr.fn.blocks[lpb]
                k = 0
                while blk[k].op == 'phi': k += 1
                lp = blk[k]
                assert lp.op == 'landingpad'
                cleanup, clauses = lp.a
                sel = None
                for kind, c in clauses:
                    if kind == 'catch':
                        tn = None if c[0] == 'null' else c[1]
                        if tn is None or self.exc_matches(s.exc[1], tn):
                            sel = self.typeid(tn); break
                    else:
                        raise Unsupported('exception filter')
                if sel is None and cleanup: sel = 0
                if sel is not None:
                    s.exc = (s.exc[0], s.exc[1], False)
                    fr.regs['%lp'] = sel
                    res = self.goto(s, fr, lpb, stop)
                    if res is not None:
                        # loop handling at a landing pad is not expected
                        raise Unsupported('loop entry through landing pad')
                    return s.outcome is None
            if stop is not None and len(s.frames) == stop[0]:
                s.outcome = ('loopexit', 'unwind')
                return False
            self.pop_frame(s)
            if s.frames and s.frames[-1].ins is not None and s.frames[-1].ins.op == 'call' and False: pass
        s.outcome = ('throw', s.exc[1])
        return False
    BASES = {'_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
             '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
             '_ZTISt18bad_variant_access': '_ZTISt9exception', '_ZTISt19bad_optional_access': '_ZTISt9exception', '_ZTISt11range_error': '_ZTISt13runtime_error',
             '_ZTISt14overflow_error': '_ZTISt13runtime_error'}
    def base_of(self, t):
        if t in self.BASES: return self.BASES[t]
        if t in self.mod.globals:
            ty, init, _ = self.mod.glob(t)
            if init and init[0] == 'agg' and len(init[1]) == 3 and init[1][2][1][0] == 'glob': return init[1][2][1][1]
        return None
    def exc_matches(self, t, want):
        while t is not None:
            if t == want: return True
            t = self.base_of(t)
        return False
    def typeid(self, tn):
        return self.typeids.setdefault(tn, len(self.typeids) + 1)
    def pop_frame(self, s):
        fr = s.frames.pop()
        for rid in fr.rids:
            if rid in s.mem: del s.mem[rid]
        return fr
    def throw(self, s, tinfo, obj=None):
        """start unwinding"""
        if obj is None:
            r = self.new_region(s, 'cells', 64, 'exception'); obj = Ptr(r.rid, 0)
        s.exc = (obj, tinfo, True)

    def goto(self, s, fr, target, stop):
        """block transfer with loop handling; returns None or list of states"""
        src = fr.block
        loops = fr.fn.loops()
        if stop is not None and len(s.frames) == stop[0] and fr.uid == stop[3]:
            _, header, body, _ = stop
            if target == header:
                fr.prev = src; fr.block = target; fr.idx = 0
                s.outcome = ('back',)
                return None
            if target not in body:
                self.enter(s, fr, src, target)
                s.outcome = ('loopexit', 'edge')
                return None
        # leaving other loops of this frame
        for h in [h for h in fr.loops if target not in loops[h]]: del fr.loops[h]
        if target in loops:
            if src in loops[target] and target in fr.loops:
                info = fr.loops[target]; info[0] += 1
            else:
                fr.loops[target] = [0]
            if fr.fn.blocks[target] and fr.fn.blocks[target][0].op == 'phi':
                self.enter(s, fr, src, target)
                # loops with phi nodes in the header (short-circuit values) are unrolled only
                info = fr.loops[target]
                if len(info) == 1: info.append(len(s.pc))
                return None if info[0] < 70 or (info[0] < 5000 and len(s.pc) - info[1] < 70) else self.unsup('phi loop')
            self.enter(s, fr, src, target)
            return self.at_header(s, fr, target, loops[target])
        self.enter(s, fr, src, target)
        return None
    def unsup(self, m): raise Unsupported(m)
    def enter(self, s, fr, src, target):
        blk = fr.fn.blocks[target]
        vals = []
        k = 0
        while blk[k].op == 'phi':
            for v, l in blk[k].a:
                if l == src: vals.append((blk[k].dst, self.operand(s, blk[k].ty, v))); break
            else: raise Unsupported('phi')
            k += 1
        for d, v in vals: fr.regs[d] = v
        fr.prev = src; fr.block = target; fr.idx = k

    # ------------------------------------------------------------ loops
    def at_header(self, s, fr, header, body):
        """state s stands at a loop header. Decide: unroll one iteration or cut with invariants."""
        info = fr.loops[header]
        if info[0] > 600: raise Unsupported('unrolling too long')
        if self.bounded is not None:
            # fallback mode: bounded unrolling
            if len(info) > 1 and info[1] >= self.bounded:
                self.hit_bound = True
                return []
        stop = (len(s.frames), header, body, fr.uid)
        probe = s.fork()
        rec, self.record = self.record, False
        covers, self.covers = self.covers, {}
        self.in_dry += 1
        self.exit_tests = getattr(self, 'exit_tests', [])
        self.exit_tests.append({'concrete': 0, 'sym': 0, 'flag': 0, 'conds': []})
        try:
            outs = self.explore(probe, stop)
        finally:
            self.record = rec; self.covers = covers; self.in_dry -= 1
            tests = self.exit_tests.pop()
        back = [o for o in outs if o.outcome[0] == 'back']
        exits = [o for o in outs if o.outcome[0] != 'back']
        if not back:
            return None            # at most this one partial iteration: just run on
        if tests['sym'] == 0 or tests['concrete'] > 0:
            return None            # trip count decided concretely: unroll this iteration
        if tests['flag'] > 0:
            # an exit flag was concrete: does the loop end by itself after a few iterations?
            mk = (tuple(f.fn.name for f in s.frames), header)
            if mk not in self.unroll_memo: self.unroll_memo[mk] = self.ends_soon(back[0], stop)
            if self.unroll_memo[mk]: return None
        if self.bounded is not None:
            if len(info) < 2: info.append(0)
            info[1] += 1
            return None
        return self.cut(s, fr, header, body, stop)
    def ends_soon(self, s, stop):
        rec, self.record = self.record, False
        covers, self.covers = self.covers, {}
        self.in_dry += 1
        self.exit_tests.append({'concrete': 0, 'sym': 0, 'flag': 0, 'conds': []})
        try:
            for _ in range(24):
                s = s.fork(); s.outcome = None
                back = [o for o in self.explore(s, stop) if o.outcome[0] == 'back']
                if not back: return True
                s = back[0]
            return False
        finally:
            self.record = rec; self.covers = covers; self.in_dry -= 1; self.exit_tests.pop()
    def cut(self, s0, fr, header, body, stop):
        key = (fr.fn.name, header)
        lname = '%s loop at %s' % (self.dem.get(fr.fn.name, fr.fn.name)[:120], self.loc_block(fr, header))
        rec = self.record
        self.record = False
        covers, self.covers = self.covers, {}
        self.in_dry += 1
        try:
            W = {}
            ks = None
            for it in range(12):
                s = s0.fork()
                self.havoc(s, s0, W)
                self.exit_tests.append({'concrete': 0, 'sym': 0, 'flag': 0, 'conds': []})
                try: outs = self.explore(s.fork(), stop)
                finally: tests = self.exit_tests.pop()
                backs = [o for o in outs if o.outcome[0] == 'back']
                new = self.diff(s, backs, W)
                if not new: break
                W.update(new)
            else:
                raise Unsupported('write set of loop did not stabilise')
            # inductive variables: constant change per iteration on every path
            k = z3.Int(fresh_name('k'))
            ind = {}
            for key_, kind in list(W.items()):
                v0 = self.get_loc(s0, key_)
                vs = self.get_loc(s, key_)
                if kind in ('int', 'ptr') or (kind == 'gint'):
                    o0 = v0.off if isinstance(v0, Ptr) else v0
                    os_ = vs.off if isinstance(vs, Ptr) else vs
                    if not (isinstance(o0, int) or is_int(o0)): continue
                    ds = set()
                    for b in backs:
                        vb = self.get_loc(b, key_)
                        ob = vb.off if isinstance(vb, Ptr) else vb
                        if not (isinstance(ob, int) or is_int(ob)): ds.add(None); continue
                        d = lin_sub(strip_wrap(ob), os_)     # validated below (no wrap-around under the invariants)
                        ds.add(d if isinstance(d, int) else None)
                    if len(ds) == 1 and None not in ds: ind[key_] = ds.pop()
            self.fronts = self.frontiers(s0, W, ind, k, stop) if s0.tracks else {}
            cands = self.candidates(s0, s, W, ind, tests, backs)
            for rnd in range(40):
                s = s0.fork()
                self.havoc(s, s0, W, ind, k)
                s.pc.append(k >= 0)
                if not all(self.add_pc(s, c(s, k)) for _, c in cands): raise Unsupported('loop: inconsistent candidates')
                outs = self.explore(s.fork(), stop)
                backs = [o for o in outs if o.outcome[0] == 'back']
                bad = []
                for i, (nm, c) in enumerate(cands):
                    try:
                        ok = (rnd > 0 or self.must(s0, subst_k(c(s0, z3.IntVal(0))))) and all(self.must(b, c(b, k + 1)) for b in backs)
                    except Unsupported:
                        ok = False
                    if not ok: bad.append(i)
                badind = []
                for key_, d in ind.items():
                    v0 = self.get_loc(s0, key_); o0 = v0.off if isinstance(v0, Ptr) else v0
                    for b in backs:
                        vb = self.get_loc(b, key_); ob = vb.off if isinstance(vb, Ptr) else vb
                        if not (isinstance(ob, int) or is_int(ob)) or not self.must(b, as_z(ob) == as_z(o0) + d * (k + 1)):
                            badind.append(key_); break
                if not bad and not badind: break
                cands = [c for i, c in enumerate(cands) if i not in bad]
                if badind:
                    for x in badind: del ind[x]
                    self.fronts = self.frontiers(s0, W, ind, k, stop) if s0.tracks else {}
                    cands = self.candidates(s0, s, W, ind, tests, backs)
            else:
                raise Unsupported('invariant inference did not converge')
        finally:
            self.record = rec; self.covers = covers; self.in_dry -= 1
        # final pass: obligations inside the body are recorded, exits continue
        s = s0.fork()
        self.havoc(s, s0, W, ind, k)
        s.pc.append(k >= 0)
        for _, c in cands: self.add_pc(s, c(s, k))
        s.note = s.note + ['loop abstraction']
        outs = self.explore(s, stop)
        if rec and not self.in_dry:
            lg = self.loop_log.setdefault(lname, {'invariants': set(), 'inductive': 0, 'times': 0})
            lg['invariants'].update(nm for nm, _ in cands); lg['inductive'] = len(ind); lg['times'] += 1
            nm = 'loop invariant: initiation and preservation'
            o = self.obl.setdefault((nm, 'invariant', lname), Obligation(nm + ' (' + lname + ')', 'invariant', lname))
            o.instances += len(cands) + len(ind)
        res = []
        for o in outs:
            if o.outcome[0] == 'back': continue
            if o.outcome[0] == 'loopexit':
                how = o.outcome[1]
                o.outcome = None
                f = o.frames[-1]
                for h in [h for h in f.loops if f.block not in f.fn.loops()[h]]: del f.loops[h]
                if how == 'unwind':
                    # resume unwinding above the loop's frame
                    f.ins = UNWOUND
            res.append(o)
        return res
    def frontiers(self, s0, W, ind, k, stop):
        """offsets written by iteration k of each sequence the loop writes, as functions of k"""
        rids = [key[1] for key in W if key[0] == 'node']
        if not rids or not ind: return {}
        s = s0.fork()
        self.havoc(s, s0, W, ind, k); s.pc.append(k >= 0)
        base = {r: s.mem[r].node for r in rids}
        out = {}
        for b in self.explore(s, stop):
            if b.outcome[0] != 'back': continue
            for r in rids:
                if r not in b.mem: continue
                n = b.mem[r].node
                while n is not base[r] and isinstance(n, (Store, Copy, Fill)):
                    o = strip_wrap(n.i if isinstance(n, Store) else n.d)
                    if not isinstance(o, int):
                        lf = linear(o)
                        co = lf[0].get(k.get_id(), (None, 0))[1]
                        if co:
                            rest = dict(lf[0]); rest.pop(k.get_id(), None)
                            key = (co, str(unlinear((rest, 0))))
                            lo, hi, e0 = out.setdefault(r, {}).get(key, (lf[1], lf[1], unlinear((lf[0], 0))))
                            out[r][key] = (min(lo, lf[1]), max(hi, lf[1]), e0)
                    n = n.prev
        res = {}
        for r, d in out.items():
            res[r] = [(co, (lambda kk, e0=e0, lo=lo: z3.substitute(as_z(e0) + lo, (k, as_z(kk)))), (lambda kk, e0=e0, hi=hi: z3.substitute(as_z(e0) + hi, (k, as_z(kk))))) for (co, _), (lo, hi, e0) in d.items()]
        return res
    def loc_block(self, fr, b):
        for i in fr.fn.blocks[b]:
            if i.line is not None:
                l = self.mod.line(i.line)
                if l and l[0]: return '%s:%d' % (os.path.basename(l[0]), l[1])
        return b
    def get_loc(self, s, key):
        if key[0] == 'cell':
            r = s.mem.get(key[1])
            if r is None: return POISON
            c = r.cells.get(key[2])
            if c is None or c[0] != key[3]:
                try: return self.cell_load(s, r, key[2], key[3])
                except Unsupported: return POISON
            return c[1]
        if key[0] == 'ghost': return s.ghost.get(key[1])
        if key[0] == 'size': return s.mem[key[1]].size
        if key[0] == 'node': return s.mem[key[1]].node
        return None
    def diff(self, s, backs, W):
        new = {}
        for b in backs:
            for rid, r in s.mem.items():
                rb = b.mem.get(rid)
                if rb is r or rb is None: continue
                if r.kind != rb.kind:
                    if r.kind == 'cells' and rb.kind == 'farr':
                        raise Unsupported('representation change of %s in a loop' % r.name)
                    continue
                if r.kind == 'farr':
                    if rb.node is not r.node and ('node', rid) not in W: new[('node', rid)] = 'node'
                    if not eqterm(r.size, rb.size) and ('size', rid) not in W: new[('size', rid)] = 'gint'
                    continue
                offs = set(r.cells) | set(rb.cells)
                for o in offs:
                    c = r.cells.get(o); d = rb.cells.get(o)
                    if c is not None and d is not None and c[0] == d[0] and same_val(c[1], d[1]): continue
                    n = d[0] if d is not None else c[0]
                    key = ('cell', rid, o, n)
                    v = d[1] if d is not None else POISON
                    kind = self.kind_of(v, c[1] if c is not None else None, n)
                    old = W.get(key)
                    if old is None: new[key] = kind
                    elif old != kind and not (old == 'poison'):
                        j = self.join_kind(old, kind)
                        if j != old: new[key] = j
            for g, v in b.ghost.items():
                if g not in s.ghost:
                    continue
                v0 = s.ghost[g]
                if same_val(v0, v): continue
                key = ('ghost', g)
                kind = 'gint' if (isinstance(v, int) and not isinstance(v, bool) or is_int(v)) else 'gbv%d' % v.size() if is_bv(v) else 'gbool' if (is_bool(v) or isinstance(v, bool)) else 'poison'
                if isinstance(v, Ptr): kind = 'poison'
                if key not in W: new[key] = kind
                elif W[key] != kind and kind != 'poison':
                    if W[key] == 'gint' and kind.startswith('gbv'): new[key] = kind
                elif W[key] != kind: new[key] = 'poison'
        return new
    def kind_of(self, v, v0, n):
        if isinstance(v, Poison): return 'poison'
        if isinstance(v, Ptr):
            if v0 is None: return 'poison'
            if isinstance(v0, Ptr) and v0.rid == v.rid: return 'ptr'
            return 'poison'
        if isinstance(v0, Ptr): return 'poison'
        if is_fp(v): return 'fp%d' % (n * 8)
        if is_bv(v) or is_bool(v): return 'bv'
        if isinstance(v, int) and is_bv(v0): return 'bv'
        if n < 4: return 'bv'
        return 'int'
    def join_kind(self, a, b):
        if 'poison' in (a, b): return 'poison'
        if a == b: return a
        if set((a, b)) == {'int', 'bv'}: return 'bv'
        return 'poison'
    def havoc(self, s, s0, W, ind={}, k=None):
        for key, kind in W.items():
            v0 = self.get_loc(s0, key)
            if key in ind:
                d = ind[key]
                o0 = v0.off if isinstance(v0, Ptr) else v0
                nv = norm(as_z(o0) + d * k) if d != 0 else o0
                if isinstance(v0, Ptr): nv = Ptr(v0.rid, nv)
            elif kind == 'poison': nv = POISON
            elif kind == 'ptr': nv = Ptr(v0.rid, z3.Int(fresh_name('hp')))
            elif kind == 'int':
                nv = z3.Int(fresh_name('hi')); s.pc.append(z3.And(nv >= 0, nv < (1 << (8 * key[3]))))
            elif kind == 'gint': nv = z3.Int(fresh_name('hg')); s.pc.append(nv >= 0)
            elif kind == 'bv': nv = z3.BitVec(fresh_name('hb'), 8 * key[3])
            elif kind.startswith('gbv'): nv = z3.BitVec(fresh_name('hb'), int(kind[3:]))
            elif kind == 'gbool': nv = z3.Bool(fresh_name('hb'))
            elif kind.startswith('fp'): nv = z3.FP(fresh_name('hf'), z3.Float64() if kind == 'fp64' else z3.Float32())
            elif kind == 'node':
                w = self.wr(s, key[1]); w.node = Base(fresh_name('hm'), 8 * w.unit)
                continue
            else: raise Unsupported('havoc ' + kind)
            if key[0] == 'cell':
                if key[1] not in s.mem: continue
                w = self.wr(s, key[1])
                c = w.cells.get(key[2])
                if c is None or c[0] != key[3]: self.cell_clear(w, key[2], key[3])
                w.cells[key[2]] = (key[3], nv)
            elif key[0] == 'ghost': s.ghost[key[1]] = nv
            elif key[0] == 'size':
                w = self.wr(s, key[1]); w.size = nv
    def candidates(self, s0, sh, W, ind, tests, backs):
        """candidate invariants; false ones are discarded by the Houdini loop in cut()"""
        out = []
        # 1. bounds suggested by the exit tests, with the loop variables as functions of the state
        locs = []
        for key in W:
            v = self.get_loc(sh, key)
            if isinstance(v, Ptr) and is_sym(v.off): locs.append((key, v.off))
            elif is_int(v): locs.append((key, v))
        names = {v.get_id(): key for key, v in locs if is_sym(v)}
        def rebuild(e):
            """closure evaluating term e with the loop variables replaced by their value in a state"""
            def f(st):
                subs = []
                for key, v in locs:
                    nv = self.get_loc(st, key)
                    if isinstance(nv, Ptr): nv = nv.off
                    if isinstance(nv, Poison): raise Unsupported('poison in invariant')
                    subs.append((v, as_z(nv) if not is_bv(nv) else z3.BV2Int(nv)))
                return z3.substitute(e, *subs) if subs else e
            return f
        seen = set()
        atoms = []
        for c in tests['conds']: collect_atoms(c, atoms)
        for a, b in atoms:
            if not (contains_any(a, names) or contains_any(b, names)): continue
            a = strip_wrap(a); b = strip_wrap(b)
            for e in (a <= b, b <= a, a + 1 <= b, b + 1 <= a, a <= b + 1, b <= a + 1):
                if e.get_id() in seen: continue
                seen.add(e.get_id())
                f = rebuild(e)
                out.append(('bound %s' % short(e), (lambda f: lambda st, k: f(st))(f)))
        # 2. values that stay what they were
        for key, kind in W.items():
            if key in ind or kind in ('poison', 'node'): continue
            v0 = self.get_loc(s0, key)
            if isinstance(v0, (Ptr, Poison)) or v0 is None: continue
            def unchanged(st, k, key=key, v0=v0):
                v = self.get_loc(st, key)
                return eq_any(v, v0)
            out.append(('unchanged %s' % self.loc_name(s0, key), unchanged))
        # 3. pointwise facts the contract tracks (for an arbitrary but fixed index)
        for t in s0.tracks:
            out += t.candidates(self, s0, sh, W, ind)
        return out
    def loc_name(self, s, key):
        if key[0] == 'cell': return '%s+%d' % (nice(s.mem[key[1]].name), key[2])
        return str(key[1])

    # ------------------------------------------------------------ one instruction
    def step(self, s, fr, ins, stop):
        op = ins.op
        regs = fr.regs
        if op == 'load':
            p = self.operand(s, ('ptr',), ins.a)
            regs[ins.dst] = self.load(s, p, ins.ty); fr.idx += 1; return None
        if op == 'store':
            v = self.operand(s, ins.ty, ins.a[0]); p = self.operand(s, ('ptr',), ins.a[1])
            self.store_ty(s, p, ins.ty, v); fr.idx += 1; return None
        if op == 'alloca':
            n = 1
            if ins.a is not None:
                n = self.operand(s, ins.a[0], ins.a[1])
                if not isinstance(n, int): raise Unsupported('variable alloca')
            r = self.new_region(s, 'cells', self.mod.size(ins.ty) * n, '%s (local of %s)' % (ins.dst, self.dem.get(fr.fn.name, fr.fn.name)[:80]))
            fr.rids.append(r.rid)
            regs[ins.dst] = Ptr(r.rid, 0); fr.idx += 1; return None
        if op == 'getelementptr':
            base = self.operand(s, ('ptr',), ins.a[0][1])
            regs[ins.dst] = self.gep(s, ins.ty, base, [(t, self.operand(s, t, v)) for t, v in ins.a[1:]]); fr.idx += 1; return None
        if op == 'icmp':
            pred, a, b = ins.a
            regs[ins.dst] = self.icmp(s, pred, ins.ty, self.operand(s, ins.ty, a), self.operand(s, ins.ty, b)); fr.idx += 1; return None
        if op == 'fcmp':
            pred, a, b = ins.a
            regs[ins.dst] = self.fcmp(s, pred, ins.ty, self.operand(s, ins.ty, a), self.operand(s, ins.ty, b)); fr.idx += 1; return None
        if op in ir.BIN:
            regs[ins.dst] = self.binop(s, op, self.mod.resolve(ins.ty), self.operand(s, ins.ty, ins.a[0]), self.operand(s, ins.ty, ins.a[1])); fr.idx += 1; return None
        if op == 'fneg':
            regs[ins.dst] = z3.fpNeg(self.coerce(s, self.operand(s, ins.ty, ins.a), ins.ty)); fr.idx += 1; return None
        if op in ir.CAST:
            regs[ins.dst] = self.cast(s, op, ins.a[0], self.operand(s, ins.a[0], ins.a[1]), ins.ty); fr.idx += 1; return None
        if op == 'br':
            if ins.a[0] is None: return self.goto(s, fr, ins.a[1], stop)
            c = as_bool(self.operand(s, ('i', 1), ins.a[0]))
            self.note_exit(s, fr, c, ins.a[1], ins.a[2], stop, ins.a[0])
            if c is True: return self.goto(s, fr, ins.a[1], stop)
            if c is False: return self.goto(s, fr, ins.a[2], stop)
            c = smp(c)
            return self.branch(s, fr, [(c, ins.a[1]), (z3.Not(c) if is_sym(c) else (not c), ins.a[2])], stop)
        if op == 'switch':
            v = self.operand(s, ins.ty, ins.a[0])
            w = ins.ty[1]
            if isinstance(v, int):
                for cv, l in ins.a[2]:
                    if cv == v: return self.goto(s, fr, l, stop)
                return self.goto(s, fr, ins.a[1], stop)
            alts = {}
            none = []
            for cv, l in ins.a[2]:
                c = self.icmp(s, 'eq', ins.ty, v, cv)
                c = c if is_sym(c) else z3.BoolVal(c)
                alts.setdefault(l, []).append(c); none.append(c)
            al = [(z3.Or(*cs) if len(cs) > 1 else cs[0], l) for l, cs in alts.items()]
            al.append((z3.Not(z3.Or(*none)), ins.a[1]))
            return self.branch(s, fr, al, stop)
        if op == 'ret':
            v = None if ins.a is None else self.operand(s, ins.ty, ins.a)
            if stop is not None and len(s.frames) == stop[0] and fr.uid == stop[3]:
                s.outcome = ('loopexit', 'ret')
                return None
            self.pop_frame(s)
            if not s.frames:
                s.outcome = ('ret', v); return None
            f = s.frames[-1]
            ci = f.ins
            if getattr(ci, 'op', None) == 'native': 
                s.outcome = ('ret', v); return None
            return self.after_call(s, f, ci, v, stop)
        if op == 'phi': raise Unsupported('phi in block body')
        if op == 'select':
            c = as_bool(self.operand(s, ('i', 1), ins.a[0]))
            a = self.operand(s, ins.ty, ins.a[1]); b = self.operand(s, ins.ty, ins.a[2])
            c = smp(c) if is_sym(c) else c
            if c is True: regs[ins.dst] = a
            elif c is False: regs[ins.dst] = b
            elif same_val(a, b): regs[ins.dst] = a
            elif isinstance(a, (Ptr, list, Poison)) or isinstance(b, (Ptr, list, Poison)):
                res = []
                for cc, v in ((c, a), (z3.Not(c), b)):
                    if self.feasible(s, cc):
                        t = s.fork(); self.add_pc(t, cc); t.frames[-1].regs[ins.dst] = v; t.frames[-1].idx += 1; res.append(t)
                return res
            elif is_int(a) or is_int(b): regs[ins.dst] = z3.If(c, as_z(as_int(a)), as_z(as_int(b)))
            elif is_fp(a): regs[ins.dst] = z3.If(c, a, b)
            elif ins.ty[0] == 'i' and ins.ty[1] == 1: regs[ins.dst] = smp(z3.If(c, as_boolz(a), as_boolz(b)))
            else: regs[ins.dst] = smp(z3.If(c, as_bv(a, ins.ty[1]), as_bv(b, ins.ty[1])))
            fr.idx += 1; return None
        if op == 'extractvalue':
            v = self.operand(s, ins.ty, ins.a[0])
            for i in ins.a[1]: v = v[i]
            regs[ins.dst] = v; fr.idx += 1; return None
        if op == 'insertvalue':
            v = self.operand(s, ins.ty, ins.a[0]); e = self.operand(s, ins.a[1], ins.a[2])
            def ins_(v, ix):
                v = list(v)
                if len(ix) == 1: v[ix[0]] = e
                else: v[ix[0]] = ins_(v[ix[0]], ix[1:])
                return v
            regs[ins.dst] = ins_(v, ins.a[3]); fr.idx += 1; return None
        if op in ('call', 'invoke'):
            return self.call(s, fr, ins, stop)
        if op == 'landingpad':
            regs[ins.dst] = [s.exc[0], regs.get('%lp', 0)]; fr.idx += 1; return None
        if op == 'resume':
            s.exc = (s.exc[0], s.exc[1], True)
            fr.ins = UNWOUND
            return None
        if op == 'unreachable':
            raise DeadPath()
        if op == 'freeze':
            regs[ins.dst] = self.operand(s, ins.ty, ins.a); fr.idx += 1; return None
        if op == 'atomicrmw':
            o, p, v = ins.a
            p = self.operand(s, ('ptr',), p); v = self.operand(s, ins.ty, v)
            old = self.load(s, p, ins.ty)
            new = self.binop(s, o, ins.ty, old, v) if o in ('add', 'sub', 'and', 'or', 'xor') else v if o == 'xchg' else self.unsup('atomicrmw ' + o)
            self.store_ty(s, p, ins.ty, new)
            regs[ins.dst] = old; fr.idx += 1; return None
        raise Unsupported(op)
    def note_exit(self, s, fr, c, a, b, stop, ci):
        if stop is None or not getattr(self, 'exit_tests', None): return
        if len(s.frames) != stop[0] or fr.uid != stop[3]: return
        body = stop[2]
        if (a in body) != (b in body):
            t = self.exit_tests[-1]
            if is_sym(c):
                cc = smp(c)
                if is_sym(cc):
                    t['sym'] += 1; t['conds'].append(c); return
            d = fr.fn.defs().get(ci[1]) if ci[0] == 'reg' else None
            if d is not None and d.op == 'icmp': t['concrete'] += 1
            else: t['flag'] += 1
    def branch(self, s, fr, alts, stop):
        feas = []
        for c, l in alts:
            c = smp(c)
            if c is False: continue
            if c is True or self.feasible(s, c): feas.append((c, l))
        if not feas: return []
        res = []
        if len(feas) == 1:
            c, l = feas[0]
            self.add_pc(s, c)
            return self.goto(s, fr, l, stop)
        for c, l in feas[:-1]:
            t = s.fork(); self.add_pc(t, c)
            r = self.goto(t, t.frames[-1], l, stop)
            res += [t] if r is None else r
        c, l = feas[-1]
        self.add_pc(s, c)
        r = self.goto(s, fr, l, stop)
        res += [s] if r is None else r
        return res
    def after_call(self, s, fr, ins, v, stop):
        if ins.dst is not None: fr.regs[ins.dst] = v
        if ins.op == 'invoke': return self.goto(s, fr, ins.a['normal'], stop)
        fr.idx += 1
        return None
    def call(self, s, fr, ins, stop):
        c = ins.a['callee']
        fp = self.operand(s, ('ptr',), c)
        if not isinstance(fp, Ptr) or fp.rid == 0: raise Unsupported('call through unknown pointer')
        r = s.mem[fp.rid]
        if r.kind != 'func': raise Unsupported('call of non-function %s' % r.name)
        name = r.name
        args = []
        for t, v in ins.a['args']:
            args.append(None if v is None else self.operand(s, t, v))
        dem = self.dem.get(name, name)
        h = self.contracts.lookup(name, dem, self)
        if h is not None:
            res = h(self, s, args, ins)
            if s.exc is not None and s.exc[2]: return None
            if s.outcome is not None: return None
            if isinstance(res, Outcomes):
                outs = []
                for item in res.items:
                    t, v = item
                    if t.exc is not None and t.exc[2] or t.outcome is not None: outs.append(t); continue
                    rr = self.after_call(t, t.frames[-1], ins, v, stop)
                    outs += [t] if rr is None else rr
                return outs
            if isinstance(res, TailCall):
                self.call_function(s, res.name, res.args); return None
            return self.after_call(s, fr, ins, res, stop)
        if name in self.mod.funcs:
            self.call_function(s, name, args)
            return None
        raise Unsupported('no contract for external function %s' % dem)

class Outcomes:
    def __init__(s, items): s.items = items
class TailCall:
    def __init__(s, name, args): s.name = name; s.args = args
class DeadPath(Exception): pass
class Fork(Exception):
    def __init__(s, alts): s.alts = alts
class _Unw: 
    op = 'unwound'; line = None; dst = None
UNWOUND = _Unw()

def subst_k(e): return e
def strip_wrap(e):
    """drop the modular correction of a machine operation (the caller validates the result)"""
    if not is_int(e): return e
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        d = lin_sub(e.arg(1), e.arg(2))
        if isinstance(d, int) and abs(d) in (1 << 8, 1 << 16, 1 << 32, 1 << 64):
            return strip_wrap(min(e.arg(1), e.arg(2), key=lambda x: abs(linear(x)[1])))
        return e
    if z3.is_app_of(e, z3.Z3_OP_MOD) and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() in (1 << 32, 1 << 64): return strip_wrap(e.arg(0))
    if z3.is_add(e) or z3.is_sub(e) or z3.is_mul(e):
        ch = [strip_wrap(c) for c in e.children()]
        if any(not x.eq(y) for x, y in zip(ch, e.children())):
            r = ch[0]
            for c in ch[1:]: r = r + c if z3.is_add(e) else r - c if z3.is_sub(e) else r * c
            return r
    return e
def as_boolz(v):
    v = as_bool(v)
    return v if is_sym(v) else z3.BoolVal(v)
def eq_any(v, v0):
    if isinstance(v, Poison): raise Unsupported('poison')
    if isinstance(v, Ptr) or isinstance(v0, Ptr): raise Unsupported('ptr')
    if isinstance(v, bool) or is_bool(v): return as_boolz(v) == as_boolz(v0)
    if is_fp(v): return v == v0
    if is_bv(v): return v == as_bv(v0, v.size())
    if is_bv(v0): return v0 == as_bv(v, v0.size())
    return as_z(v) == as_z(as_int(v0))
def addoff(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if is_bv(a):
        if isinstance(b, int): return smp_bv(a + b) if b else a
        return norm(z3.BV2Int(a) + b)
    if is_bv(b): return addoff(b, a)
    return norm(as_z(a) + b)
def toint(o): return z3.BV2Int(o) if is_bv(o) else o
def smp_bv(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e
def nice(n): return n[:140]
def short(e): return str(e).replace('\n', ' ')[:90]
def table_bv(vals, off, n):
    w = off.size()
    idx = off if n == 1 else z3.UDiv(off, z3.BitVecVal(n, w))
    out = None
    rs = runs(vals) if all(v < 256 for v in vals) and n == 1 else [(i, i, 'c', v) for i, v in enumerate(vals)]
    low = z3.Extract(7, 0, idx) if n == 1 else None
    for lo, hi, kind, v in reversed(rs):
        val = z3.BitVecVal(v, 8 * n) if kind == 'c' else low + z3.BitVecVal((v - lo) & 255, 8)
        out = val if out is None else z3.If(z3.ULE(idx, z3.BitVecVal(hi, w)), val, out)
    return out
def subst_off(t, e, c):
    """replace the offset term by its value in the registers of the current frame"""
    for k, v in list(t.frames[-1].regs.items()):
        if isinstance(v, Ptr) and is_sym(v.off) and v.off.eq(e): t.frames[-1].regs[k] = Ptr(v.rid, c)
def collect_atoms(c, out):
    st = [c]
    while st:
        e = st.pop()
        if z3.is_le(e) or z3.is_ge(e) or z3.is_lt(e) or z3.is_gt(e) or (z3.is_eq(e) and is_int(e.arg(0))) or (z3.is_distinct(e) and e.num_args() == 2 and is_int(e.arg(0))):
            if is_int(e.arg(0)) : out.append((e.arg(0), e.arg(1)))
        elif is_bool(e): st.extend(e.children())
def contains_any(e, ids):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in ids: return True
        if i in seen: continue
        seen.add(i)
        st.extend(x.children())
    return False
