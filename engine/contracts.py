"""Contracts of functions that are not verified here: the C++ standard library, the C library, rapidjson's
token writer, the C++ ABI, and the vf_* specification interface. Everything else is executed from the IR."""
import re, z3
from vals import *
import exec as X
from exec import Outcomes, TailCall, DeadPath, Fork, fresh_name, addoff, as_boolz

RULES = []          # (regex, handler, label)
def rule(rx, label=None):
    c = re.compile(rx)
    def deco(f):
        RULES.append((c, f, label)); return f
    return deco

STR = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>::'
class Contracts:
    def __init__(self, extra=None):
        self.cache = {}
        self.extra = extra or []
    def lookup(self, name, dem, eng):
        if name in self.cache:
            e = self.cache[name]
        else:
            e = None
            d = norm_dem(dem)
            for rx, h, label in list(self.extra) + RULES:
                if rx.search(d): e = (h, label, d); break
            self.cache[name] = e
        if e is None: return None
        h, label, d = e
        if label and not eng.in_dry:
            eng.assumed[label] = eng.assumed.get(label, 0) + 1
        return h
def norm_dem(d):
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    d = d.replace('std::basic_string_view<char, std::char_traits<char>>', 'std::string_view')
    d = d.replace('[abi:cxx11]', '').replace('[abi:ne180000]', '')
    return d

# ------------------------------------------------------------------ helpers
def cstr(eng, s, p):
    """concrete C string"""
    r = s.mem[p.rid]
    if r.raw is not None and isinstance(p.off, int):
        b = r.raw[p.off:]
        return bytes(b).split(b'\0')[0].decode('latin1')
    out = bytearray(); o = p.off
    while True:
        v = eng.load_raw(s, Ptr(p.rid, o), 1)
        if not isinstance(v, int): raise Unsupported('symbolic C string')
        if v == 0: return out.decode('latin1')
        out.append(v); o += 1
def uname(s, n):
    """input names are unique per path (occurrence number)"""
    k = '#' + n
    c = s.ghost.get(k, 0)
    s.ghost[k] = c + 1
    return n if c == 0 else '%s.%d' % (n, c)
def word(v): return as_bv(v, 64)

# ------------------------------------------------------------------ specification interface
@rule(r'^vf_u64$')
def _(e, s, a, ins):
    n = uname(s, cstr(e, s, a[0])); v = z3.BitVec('in!' + n, 64); s.inputs.append(('u64', n, v)); return v
@rule(r'^vf_size$')
def _(e, s, a, ins):
    n = uname(s, cstr(e, s, a[0])); v = z3.Int('in!' + n); s.inputs.append(('size', n, v))
    s.pc.append(z3.And(v >= 0, v <= as_z(as_int(a[1])))); return v
@rule(r'^vf_choice$')
def _(e, s, a, ins):
    n = uname(s, cstr(e, s, a[0])); res = []
    for k in range(a[1] + 1):
        t = s.fork(); t.inputs.append(('size', n, k)); res.append((t, k))
    return Outcomes(res)
@rule(r'^vf_bool$')
def _(e, s, a, ins):
    n = uname(s, cstr(e, s, a[0])); v = z3.Bool('in!' + n); s.inputs.append(('u64', n, v)); return v
@rule(r'^vf_double$')
def _(e, s, a, ins):
    n = uname(s, cstr(e, s, a[0])); v = z3.BitVec('in!' + n, 64); s.inputs.append(('u64', n, v)); return z3.fpBVToFP(v, z3.Float64())
@rule(r'^vf_bytes$')
def _(e, s, a, ins):
    n = uname(s, cstr(e, s, a[0]))
    r = e.new_region(s, 'farr', as_int(a[1]), n); r.node = Base('in!' + n, 8); r.unit = 1; r.ro = True
    s.inputs.append(('bytes', n, (r.node, as_int(a[1])))); return Ptr(r.rid, 0)
def ufun(n): return z3.Function('fn!' + n, z3.IntSort(), z3.BitVecSort(64))
def ufunb(n): return z3.Function('fnb!' + n, z3.BitVecSort(64), z3.BitVecSort(64))
@rule(r'^vf_fn$')
def _(e, s, a, ins):
    n = cstr(e, s, a[0])
    if is_bv(a[1]):
        v = ufunb(n)(a[1])
    else:
        v = ufun(n)(as_z(as_int(a[1])))
    s.inputs.append(('fnat', n, (a[1], v)))
    return v
@rule(r'^vf_assume$')
def _(e, s, a, ins):
    c = as_boolz(a[0])
    if not e.feasible(s, c): raise DeadPath()
    e.add_pc(s, c)
@rule(r'^vf_assert$')
def _(e, s, a, ins):
    if not e.oblige(s, cstr(e, s, a[1]), as_boolz(a[0]), 'assert'): raise DeadPath()
@rule(r'^vf_reach$')
def _(e, s, a, ins):
    n = cstr(e, s, a[0])
    if e.record and not e.covers.get(n):
        if e.sol.check(s.pc, None) == z3.sat: e.covers[n] = True
@rule(r'^vf_any_string$')
def _(e, s, a, ins):
    n = uname(s, cstr(e, s, a[0])); ln = z3.Int('in!%s.len' % n)
    s.inputs.append(('size', n + '.len', ln)); s.pc.append(z3.And(ln >= 0, ln <= as_z(as_int(a[2]))))
    b = Base('in!' + n, 8); s.inputs.append(('bytes', n, (b, ln)))
    str_set(e, s, a[1], Copy(Const(0, 8), 0, ln, b, 0), ln)
@rule(r'^vf_any_byte_vector$')
def _(e, s, a, ins):
    n = uname(s, cstr(e, s, a[0])); ln = z3.Int('in!%s.len' % n)
    s.inputs.append(('size', n + '.len', ln)); s.pc.append(z3.And(ln >= 0, ln <= as_z(as_int(a[2]))))
    b = Base('in!' + n, 8); s.inputs.append(('bytes', n, (b, ln)))
    vec_set(e, s, a[1], b, ln, 1)
@rule(r'^vf_text_like$')
def _(e, s, a, ins):
    n = uname(s, cstr(e, s, a[0])); ln = z3.Int('in!%s.len' % n)
    s.inputs.append(('size', n + '.len', ln)); s.pc.append(z3.And(ln >= 0, ln <= as_z(as_int(a[2]))))
    b = Base('in!' + n, 8); s.inputs.append(('bytes', n, (b, ln)))
    str_set(e, s, a[1], Copy(Const(0, 8), 0, ln, b, 0), ln)
class Track:
    """expected byte/word `want` at index j of the contiguous container *obj"""
    def __init__(self, obj, j, want, width): self.obj = obj; self.j = j; self.want = want; self.w = width
    def place(self, e, s):
        try: p = e.load_raw(s, self.obj, 8)
        except Unsupported: return None
        if not isinstance(p, Ptr) or p.rid == 0: return None
        r = s.mem.get(p.rid)
        if r is None or r.kind != 'farr': return None
        return p, r
    def candidates(self, e, s0, sh, W, ind):
        pl = self.place(e, s0)
        if pl is None or ('node', pl[1].rid) not in W: return []
        rid = pl[1].rid
        at = addoff(pl[0].off, self.j * self.w if isinstance(self.j, int) else norm(self.j * self.w))
        want = as_bv(self.want, 8 * self.w)
        node0 = pl[1].node
        out = []
        for co, lo, hi in e.fronts.get(rid, []):
            def sel(st): return as_bv(st.mem[rid].node.select(at), 8 * self.w)
            if co > 0:
                out.append(('written[j] below the iteration frontier', lambda st, k, lo=lo: z3.Implies(as_z(at) < lo(k), sel(st) == want)))
                out.append(('untouched[j] above the iteration frontier', lambda st, k, lo=lo: z3.Implies(as_z(at) >= lo(k), sel(st) == as_bv(node0.select(at), 8 * self.w))))
            else:
                out.append(('written[j] above the iteration frontier', lambda st, k, hi=hi: z3.Implies(as_z(at) > hi(k), sel(st) == want)))
                out.append(('untouched[j] below the iteration frontier', lambda st, k, hi=hi: z3.Implies(as_z(at) <= hi(k), sel(st) == as_bv(node0.select(at), 8 * self.w))))
        # frontier of writing: offsets of the stores of one iteration as functions of the state
        for key, d in ind.items():
            if d == 0: continue
            v0 = e.get_loc(s0, key)
            if isinstance(v0, Ptr):
                if v0.rid != rid: continue
                scales = (1,)
            else: continue
            for sc in scales:
                def fr(st, key=key, sc=sc, v0=v0):
                    v = e.get_loc(st, key)
                    if isinstance(v, Ptr): return as_z(v.off)
                    return as_z(v) * sc * self.w if not is_bv(v) else z3.BV2Int(v) * sc * self.w
                for base in ((0,) if isinstance(v0, Ptr) else (0, -1)):
                    def sel(st): return as_bv(st.mem[rid].node.select(at), 8 * self.w)
                    if d > 0:
                        out.append(('written[j] below frontier', lambda st, k, fr=fr, base=base, sc=sc: z3.Implies(as_z(at) < fr(st) + base * sc * self.w, sel(st) == want)))
                        out.append(('untouched[j] above frontier', lambda st, k, fr=fr, base=base, sc=sc: z3.Implies(as_z(at) >= fr(st) + base * sc * self.w, sel(st) == as_bv(node0.select(at), 8 * self.w))))
                    else:
                        out.append(('written[j] above frontier', lambda st, k, fr=fr: z3.Implies(as_z(at) >= fr(st), sel(st) == want)))
                        out.append(('untouched[j] below frontier', lambda st, k, fr=fr: z3.Implies(as_z(at) < fr(st), sel(st) == as_bv(node0.select(at), 8 * self.w))))
        return out
class Fact:
    """fact about iteration j expected to hold once iteration j is over"""
    def __init__(self, j, cond): self.j = j; self.cond = cond
    def candidates(self, e, s0, sh, W, ind):
        return [('fact[j] after iteration %+d' % c, lambda st, k, c=c: z3.Implies(as_z(self.j) < k + c, self.cond)) for c in (1, 0, -1)]
@rule(r'^vf_track$')
def _(e, s, a, ins):
    w = a[3]
    want = a[2]
    if w == 0:
        s.tracks.append(Fact(a[1], as_boolz(want))); return
    if is_bv(want): want = z3.simplify(z3.Extract(8 * w - 1, 0, want))
    j = a[1]
    if is_bv(j): raise Unsupported('track index')
    s.tracks.append(Track(a[0], j, want, w))

# ------------------------------------------------------------------ intrinsics, ABI
@rule(r'^llvm\.(lifetime|dbg|experimental|assume|prefetch|donothing)')
def _(e, s, a, ins): return None
@rule(r'^llvm\.mem(cpy|move)')
def _(e, s, a, ins): e.memcpy(s, a[0], a[1], a[2])
@rule(r'^llvm\.memset')
def _(e, s, a, ins): memset(e, s, a[0], a[1], a[2])
def memset(e, s, p, v, n):
    n = smp(n) if is_sym(n) else n
    if isinstance(n, int) and n == 0: return
    r = e.region(s, p)
    if r is None:
        e.oblige(s, 'memory-safety: no null dereference', False, 'memory'); raise DeadPath()
    if r.kind == 'cells' and isinstance(n, int) and isinstance(p.off, int):
        if not e.bounds(s, r, p.off, n, 'fill'): raise DeadPath()
        w = e.wr(s, p.rid); e.cell_clear(w, p.off, n)
        o = 0
        while o < n:
            if isinstance(v, int) and v == 0 and (p.off + o) % 8 == 0 and n - o >= 8: w.cells[p.off + o] = (8, 0); o += 8
            else: w.cells[p.off + o] = (1, v); o += 1
        return
    e.to_farr(s, p.rid)
    r = s.mem[p.rid]
    if r.unit != 1: raise Unsupported('fill of wide cells')
    if not e.oblige(s, 'memory-safety: fill stays inside %s' % X.nice(r.name), z3.And(as_z(p.off) >= 0, as_z(p.off) + as_z(n) <= as_z(r.size)), 'memory'): raise DeadPath()
    w = e.wr(s, p.rid); w.node = Fill(w.node, p.off, n, v if isinstance(v, int) else as_bv(v, 8))
@rule(r'^llvm\.eh\.typeid\.for')
def _(e, s, a, ins): return e.typeid(s.mem[a[0].rid].name.lstrip('@'))
@rule(r'^llvm\.trap|^abort$|^__assert_fail$|^__cxa_pure_virtual$')
def _(e, s, a, ins):
    e.oblige(s, 'no abort', False, 'memory'); raise DeadPath()
@rule(r'^std::terminate|^__clang_call_terminate')
def _(e, s, a, ins):
    e.oblige(s, 'no exception escapes a noexcept function', False, 'memory'); raise DeadPath()
def ov(op, signed):
    def h(e, s, a, ins):
        w = ins.ty[1][0][1] if ins.ty[0] == 'st' else e.mod.resolve(ins.ty)[1][0][1]
        x, y = a
        if isinstance(x, int) and isinstance(y, int):
            A, B = (sgn(x, w), sgn(y, w)) if signed else (x, y)
            r = {'add': A + B, 'sub': A - B, 'mul': A * B}[op]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            return [mask(r, w), not (lo <= r <= hi)]
        if is_int(x) or is_int(y):
            if signed: raise Unsupported('checked signed arithmetic on sizes')
            x = as_z(as_int(x)); y = as_int(y)
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
            o = smp(z3.Or(r < 0, r >= (1 << w)))
            if not (o is False or e.must(s, z3.Not(as_boolz(o)))): return [as_bv(e.int_op(s, op, w, a[0], a[1]), w), o]
            return [r, False]
        x = as_bv(x, w); y = as_bv(y, w)
        ex = z3.SignExt if signed else z3.ZeroExt
        X_, Y_ = ex(w, x), ex(w, y)
        r = {'add': X_ + Y_, 'sub': X_ - Y_, 'mul': X_ * Y_}[op]
        lo = z3.Extract(w - 1, 0, r)
        return [smp(lo), smp(ex(w, lo) != r)]
    return h
for _op in ('add', 'sub', 'mul'):
    RULES.append((re.compile(r'^llvm\.s%s\.with\.overflow' % _op), ov(_op, True), None))
    RULES.append((re.compile(r'^llvm\.u%s\.with\.overflow' % _op), ov(_op, False), None))
@rule(r'^llvm\.is\.fpclass')
def _(e, s, a, ins):
    v = a[0]; m = a[1]
    v = e.coerce(s, v, ('f64',)) if not is_fp(v) else v
    alts = []
    if X.fp_from_int(v) and m in (0x1f8, 0x207): return m == 0x1f8     # an integer converted is finite (below 2^64)
    if m & 3: alts.append(z3.fpIsNaN(v))
    neg = z3.fpIsNegative(v); pos = z3.fpIsPositive(v)
    if m & 4: alts.append(z3.And(z3.fpIsInf(v), neg))
    if m & 512: alts.append(z3.And(z3.fpIsInf(v), pos))
    if m & 8: alts.append(z3.And(z3.fpIsNormal(v), neg))
    if m & 256: alts.append(z3.And(z3.fpIsNormal(v), pos))
    if m & 16: alts.append(z3.And(z3.fpIsSubnormal(v), neg))
    if m & 128: alts.append(z3.And(z3.fpIsSubnormal(v), pos))
    if m & 32: alts.append(z3.And(z3.fpIsZero(v), neg))
    if m & 64: alts.append(z3.And(z3.fpIsZero(v), pos))
    return smp(z3.Or(*alts))
@rule(r'^llvm\.(ctlz|cttz)\.i\d+$')
def _(e, s, a, ins):
    w = ins.ty[1]; v = a[0]; d = e.dem[s.mem[e.operand(s, ('ptr',), ins.a['callee']).rid].name]
    lead = 'ctlz' in d
    if isinstance(v, int):
        if v == 0: return w
        return w - v.bit_length() if lead else (v & -v).bit_length() - 1
    v = as_bv(v, w); r = bv(w, w)
    for k in (range(w) if lead else reversed(range(w))): r = z3.If(z3.Extract(k, k, v) == 1, bv(w - 1 - k if lead else k, w), r)
    return smp(r)
@rule(r'^llvm\.fabs')
def _(e, s, a, ins): return z3.fpAbs(a[0])
@rule(r'^operator new\(unsigned long(, std::align_val_t)?\)$|^operator new\[\]\(unsigned long\)$', 'operator new: returns fresh storage of the requested size')
def _(e, s, a, ins):
    n = smp(a[0]) if is_sym(a[0]) else a[0]
    if isinstance(n, int):
        r = e.new_region(s, 'cells', n, 'heap block of %d bytes' % n)
    else: raise Unsupported('allocation of symbolic size outside the contracted containers')
    return Ptr(r.rid, 0)
@rule(r'^operator delete')
def _(e, s, a, ins):
    p = a[0]
    if isinstance(p, Poison): raise Unsupported('delete of unknown pointer')
    if isinstance(p, int) or p.rid == 0: return
    r = s.mem[p.rid]
    if not r.alive:
        e.oblige(s, 'memory-safety: no double free', False, 'memory'); raise DeadPath()
    w = e.wr(s, p.rid); w.alive = False
@rule(r'^__cxa_allocate_exception$')
def _(e, s, a, ins):
    r = e.new_region(s, 'cells', a[0], 'exception object'); return Ptr(r.rid, 0)
@rule(r'^__cxa_free_exception$')
def _(e, s, a, ins): return None
@rule(r'^__cxa_throw$')
def _(e, s, a, ins): e.throw(s, s.mem[a[1].rid].name.lstrip('@'), a[0])
@rule(r'^__cxa_begin_catch$')
def _(e, s, a, ins):
    s.caught = s.caught + [s.exc]; s.exc = None
    return a[0]
@rule(r'^__cxa_end_catch$')
def _(e, s, a, ins):
    s.caught = s.caught[:-1]
@rule(r'^__cxa_rethrow$')
def _(e, s, a, ins):
    x = s.caught[-1]; e.throw(s, x[1], x[0])
@rule(r'^__cxa_guard_acquire$')
def _(e, s, a, ins):
    v = e.load_raw(s, a[0], 1)
    if not isinstance(v, int): raise Unsupported('guard')
    return 1 if v == 0 else 0
@rule(r'^__cxa_guard_release$')
def _(e, s, a, ins): e.store(s, a[0], 1, 1)
@rule(r'^__cxa_(atexit|guard_abort)$')
def _(e, s, a, ins): return 0
THROW = {'out_of_range_fmt': '_ZTISt12out_of_range', 'out_of_range': '_ZTISt12out_of_range', 'length_error': '_ZTISt12length_error', 'logic_error': '_ZTISt11logic_error',
         'bad_alloc': '_ZTISt9bad_alloc', 'bad_variant_access': '_ZTISt18bad_variant_access', 'bad_optional_access': '_ZTISt19bad_optional_access', 'bad_array_new_length': '_ZTISt20bad_array_new_length', 'bad_function_call': '_ZTISt17bad_function_call', 'invalid_argument': '_ZTISt16invalid_argument'}
@rule(r'^std::__throw_(\w+)\(')
def _(e, s, a, ins):
    d = e.dem[s.mem[e.operand(s, ('ptr',), ins.a['callee']).rid].name]
    k = re.match(r'std::__throw_(\w+)\(', d).group(1)
    e.throw(s, THROW[k])

# ------------------------------------------------------------------ std::string by specification, on the real (pointer, length, capacity) layout
SL = 'std::string: libstdc++ implements the standard (contents, length, contiguous NUL-terminated storage)'
class Row(Node):
    """a text of known length: its bytes one by one, NUL beyond"""
    def __init__(s, data): s.data_ = data; s.w = 8
    def select(s, i):
        if isinstance(i, int): return s.data_[i] if 0 <= i < len(s.data_) else 0
        r = z3.BitVecVal(0, 8)
        for k in range(len(s.data_) - 1, -1, -1): r = ite(smp(as_z(i) == k), s.data_[k], r, 8)
        return r
def flat(node, ln):
    if not isinstance(ln, int) or ln > 400 or isinstance(node, (Lit, Const, Row)): return node
    bs = [node.select(i) for i in range(ln)]
    if all(isinstance(b, int) for b in bs): return Lit(bytes(bs))
    return Row(bs)
def str_set(e, s, o, node, ln):
    node = flat(node, ln)
    r = e.new_region(s, 'farr', add(ln, 1), 'string buffer'); r.unit = 1; r.node = node
    e.store(s, Ptr(o.rid, addoff(o.off, 0)), 8, Ptr(r.rid, 0))
    e.store(s, Ptr(o.rid, addoff(o.off, 8)), 8, ln)
    e.store(s, Ptr(o.rid, addoff(o.off, 16)), 8, ln)
def str_get(e, s, o):
    p = e.load_raw(s, Ptr(o.rid, addoff(o.off, 0)), 8); n = e.load_raw(s, Ptr(o.rid, addoff(o.off, 8)), 8)
    return p, n
def seq_of(e, s, p, n=None):
    """node of the byte region p points into"""
    if isinstance(p, int) or p.rid == 0: return Const(0, 8), 0
    r = s.mem[p.rid]
    if r.kind == 'cells':
        if isinstance(n, int) and n <= 4096 and isinstance(p.off, int) and r.default != 'zero':
            bs = []
            for i in range(n):
                try: b = e.cell_byte(r, p.off + i)
                except Unsupported: b = None
                if not isinstance(b, int): break
                bs.append(b)
            if len(bs) == n: return Lit(bytes(bs)), 0
        if any((isinstance(v, Ptr) and v.rid != 0) or isinstance(v, Poison) for _, v in r.cells.values()):
            # text beside pointers: a snapshot of the bytes (those of pointers are unknown)
            node = Const(0, 8) if r.default == 'zero' else Base(fresh_name('mem'), 8)
            for o, (sz, v) in r.cells.items():
                for i in range(sz):
                    if (isinstance(v, Ptr) and v.rid != 0) or isinstance(v, Poison): b = z3.BitVec(fresh_name('ptrbyte'), 8)
                    else: b = e.cell_byte(r, o + i)
                    node = Store(node, o + i, b if isinstance(b, int) else as_bv(b, 8))
            return node, p.off
        e.to_farr(s, p.rid); r = s.mem[p.rid]
    if r.unit != 1: raise Unsupported('byte view of wide cells')
    return r.node, p.off
def check_read(e, s, p, n, what='read'):
    if isinstance(n, int) and n == 0: return
    r = e.region(s, p)
    if r is None:
        if not e.oblige(s, 'memory-safety: no null dereference', as_z(n) == 0, 'memory'): raise DeadPath()
        return
    if not r.alive:
        e.oblige(s, 'memory-safety: no use after free of %s' % X.nice(r.name), False, 'memory'); raise DeadPath()
    if not e.oblige(s, 'memory-safety: %s stays inside %s' % (what, X.nice(r.name)), z3.And(as_z(p.off) >= 0, as_z(X.toint(p.off)) + as_z(n) <= as_z(r.size)), 'memory'): raise DeadPath()
def str_kill(e, s, o):
    p, n = str_get(e, s, o)
    if isinstance(p, Ptr) and p.rid != 0 and p.rid in s.mem and s.mem[p.rid].name == 'string buffer':
        w = e.wr(s, p.rid); w.alive = False
def sizev(v): return as_int(v)

# ------------------------------------------------------------------ std::vector of plain words by specification, on the real (begin, end, capacity) layout
def vec_set(e, s, o, node, n, width, unit=None):
    r = e.new_region(s, 'farr', norm(as_z(n) * width) if not isinstance(n, int) else n * width, 'vector buffer'); r.unit = unit or width; r.node = node
    end = norm(as_z(n) * width) if not isinstance(n, int) else n * width
    e.store(s, Ptr(o.rid, addoff(o.off, 0)), 8, Ptr(r.rid, 0))
    e.store(s, Ptr(o.rid, addoff(o.off, 8)), 8, Ptr(r.rid, end))
    e.store(s, Ptr(o.rid, addoff(o.off, 16)), 8, Ptr(r.rid, end))
def srule(rx): return rule(r'^std::string::' + rx, SL)
@srule(r'(basic_)?(string|basic_string)\(\)$')
def _(e, s, a, ins): str_set(e, s, a[0], Const(0, 8), 0)
def str_from(e, s, o, p, n):
    check_read(e, s, p, n, 'copied text')
    node, off = seq_of(e, s, p, n)
    str_set(e, s, o, Copy(Const(0, 8), 0, n, node, off), n)
def strlen(e, s, p):
    """length of a NUL-terminated string"""
    r = s.mem[p.rid]
    if r.raw is not None and isinstance(p.off, int) or r.kind == 'cells' and isinstance(p.off, int) or isinstance(r.node, Const) and isinstance(p.off, int) or isinstance(getattr(r.node, 'data', None), (bytes, bytearray)):
        i = 0
        while True:
            v = e.load_raw(s, Ptr(p.rid, addoff(p.off, i)), 1)
            if not isinstance(v, int): break
            if v == 0: return i
            i += 1
    node, off = seq_of(e, s, p)
    r = s.mem[p.rid]
    n = z3.Int(fresh_name('strlen')); j = z3.Int(fresh_name('j'))
    # specification of strlen: first NUL at or after p, inside the object
    if isinstance(node, Copy) and isinstance(node.prev, Const) and node.prev.v == 0 and isinstance(node.d, int) and node.d == 0 and eqterm(off, 0):
        full = node.n
        s.pc.append(z3.And(n >= 0, n <= as_z(full)))
        s.pc.append(z3.Or(n == as_z(full), as_bv(node.src.select(add(n, node.so)), 8) == 0))
        s.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), as_bv(node.src.select(add(j, node.so)), 8) != 0)))
        return n
    raise Unsupported('strlen of symbolic text')
@srule(r'(basic_)?string(<[^(]*>)?\((char const\*, std::allocator<char> const&|char const\*)\)$')
def _(e, s, a, ins): str_from(e, s, a[0], a[1], strlen(e, s, a[1]))
@srule(r'(basic_)?string\(char const\*, unsigned long, std::allocator<char> const&\)$')
def _(e, s, a, ins): str_from(e, s, a[0], a[1], sizev(a[2]))
@srule(r'(basic_)?string\(std::string const&\)$')
def _(e, s, a, ins):
    p, n = str_get(e, s, a[1]); str_from(e, s, a[0], p, n)
@srule(r'(basic_)?string\(std::string&&\)$')
def _(e, s, a, ins):
    p, n = str_get(e, s, a[1]); str_from(e, s, a[0], p, n); str_kill(e, s, a[1]); str_set(e, s, a[1], Const(0, 8), 0)
@srule(r'(basic_)?string<std::string_view, void>\(std::string_view const&, std::allocator<char> const&\)$')
def _(e, s, a, ins):
    n = e.load_raw(s, a[1], 8); p = e.load(s, Ptr(a[1].rid, addoff(a[1].off, 8)), ('ptr',)); str_from(e, s, a[0], p, n)
@srule(r'(basic_)?string\(unsigned long, char, std::allocator<char> const&\)$')
def _(e, s, a, ins):
    n = sizev(a[1]); str_set(e, s, a[0], Fill(Const(0, 8), 0, n, a[2]), n)
@srule(r'~(basic_)?string\(\)$')
def _(e, s, a, ins): str_kill(e, s, a[0])
@srule(r'clear\(\)$')
def _(e, s, a, ins): str_kill(e, s, a[0]); str_set(e, s, a[0], Const(0, 8), 0)
@srule(r'reserve\(')
def _(e, s, a, ins): return None
@srule(r'resize\(unsigned long(, char)?\)$')
def _(e, s, a, ins):
    p, n = str_get(e, s, a[0]); m = sizev(a[1]); c = a[2] if len(a) > 2 else 0
    node, off = seq_of(e, s, p)
    if isinstance(n, int) and n == 0: str_resize_to(e, s, a[0], Const(0, 8) if (isinstance(c, int) and c == 0) else Fill(Const(0, 8), 0, m, c), m); return
    res = []
    for cond, grow in ((as_z(m) > as_z(n), True), (as_z(m) <= as_z(n), False)):
        if not e.feasible(s, cond): continue
        t = s.fork(); e.add_pc(t, cond)
        if grow:
            nd = Const(0, 8) if (isinstance(c, int) and c == 0) else Fill(Const(0, 8), 0, m, c)
            str_kill(e, t, a[0]); str_set(e, t, a[0], Copy(nd, 0, n, node, off), m)
        else:
            e.store(t, Ptr(a[0].rid, addoff(a[0].off, 8)), 8, m); e.store(t, Ptr(p.rid, addoff(p.off, m)), 1, 0)
        res.append((t, None))
    return Outcomes(res)
def str_resize_to(e, s, o, node, m): str_kill(e, s, o); str_set(e, s, o, node, m)
def str_append(e, s, o, node2, off2, m):
    p, n = str_get(e, s, o); node, off = seq_of(e, s, p)
    str_kill(e, s, o)
    str_set(e, s, o, Copy(Copy(Const(0, 8), 0, n, node, off), n, m, node2, off2), add(n, m))
@srule(r'(push_back\(char\)|operator\+=\(char\))$')
def _(e, s, a, ins):
    p, n = str_get(e, s, a[0]); node, off = seq_of(e, s, p); str_kill(e, s, a[0])
    str_set(e, s, a[0], Store(Copy(Const(0, 8), 0, n, node, off), n, a[1] if isinstance(a[1], int) else as_bv(a[1], 8)), add(n, 1)); return a[0]
@srule(r'pop_back\(\)$')
def _(e, s, a, ins):
    p, n = str_get(e, s, a[0])
    if not e.oblige(s, 'pop_back on a non-empty string', as_z(n) > 0, 'memory'): raise DeadPath()
    e.store(s, Ptr(a[0].rid, addoff(a[0].off, 8)), 8, lin_sub(n, 1)); e.store(s, Ptr(p.rid, addoff(p.off, lin_sub(n, 1))), 1, 0)
@srule(r'(append|operator\+=)\((char const\*)\)$')
def _(e, s, a, ins):
    m = strlen(e, s, a[1]); nd, of = seq_of(e, s, a[1]); str_append(e, s, a[0], nd, of, m); return a[0]
@srule(r'append\(char const\*, unsigned long\)$')
def _(e, s, a, ins):
    check_read(e, s, a[1], sizev(a[2]), 'appended text'); nd, of = seq_of(e, s, a[1], sizev(a[2])); str_append(e, s, a[0], nd, of, sizev(a[2])); return a[0]
@srule(r'append\(unsigned long, char\)$')
def _(e, s, a, ins):
    str_append(e, s, a[0], Const(a[2], 8), 0, sizev(a[1])); return a[0]
@srule(r'(append|operator\+=)\(std::string const&\)$')
def _(e, s, a, ins):
    p, m = str_get(e, s, a[1]); nd, of = seq_of(e, s, p); str_append(e, s, a[0], nd, of, m); return a[0]
@srule(r'assign\(char const\*, unsigned long\)$')
def _(e, s, a, ins):
    check_read(e, s, a[1], sizev(a[2]), 'assigned text'); nd, of = seq_of(e, s, a[1], sizev(a[2])); str_kill(e, s, a[0]); str_set(e, s, a[0], Copy(Const(0, 8), 0, sizev(a[2]), nd, of), sizev(a[2])); return a[0]
@rule(r'^std::string& std::string::assign<char const\*, void>\(char const\*, char const\*\)$', SL)
def _(e, s, a, ins):
    if not (isinstance(a[1], Ptr) and isinstance(a[2], Ptr) and a[1].rid == a[2].rid): raise Unsupported('assign from two sequences')
    n = lin_sub(a[2].off, a[1].off)
    check_read(e, s, a[1], n, 'assigned text'); nd, of = seq_of(e, s, a[1], n); str_kill(e, s, a[0]); str_set(e, s, a[0], Copy(Const(0, 8), 0, n, nd, of), n); return a[0]
@srule(r'(assign|operator=)\(std::string(&&| const&)\)$')
def _(e, s, a, ins):
    p, m = str_get(e, s, a[1]); nd, of = seq_of(e, s, p)
    if a[0].same(a[1]): return a[0]
    str_kill(e, s, a[0]); str_set(e, s, a[0], Copy(Const(0, 8), 0, m, nd, of), m); return a[0]
@srule(r'(assign|operator=)\(char const\*\)$')
def _(e, s, a, ins):
    m = strlen(e, s, a[1]); nd, of = seq_of(e, s, a[1]); str_kill(e, s, a[0]); str_set(e, s, a[0], Copy(Const(0, 8), 0, m, nd, of), m); return a[0]
@srule(r'std::enable_if<.*>::type ?(assign|operator=)<std::string_view>')
def _(e, s, a, ins): raise Unsupported('assign view')
@rule(r'^(std::enable_if<.*)?std::string& std::string::(assign|operator=)<std::string_view>\(|^std::enable_if<.*std::string::(assign|operator=)<std::string_view>\(', SL)
def _(e, s, a, ins):
    n = e.load_raw(s, a[1], 8); p = e.load(s, Ptr(a[1].rid, addoff(a[1].off, 8)), ('ptr',))
    nd, of = seq_of(e, s, p); str_kill(e, s, a[0]); str_set(e, s, a[0], Copy(Const(0, 8), 0, n, nd, of), n); return a[0]

VL = 'std::vector: libstdc++ implements the standard (contents, length, contiguous storage)'
WIDTH = {'std::byte': 1, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'unsigned long': 8, 'long': 8, 'Elem': 8}
def vtype(e, s, ins):
    d = norm_dem(e.dem[s.mem[e.operand(s, ('ptr',), ins.a['callee']).rid].name])
    m = re.search(r'std::vector<(.+?), std::allocator<', d)
    t = m.group(1)
    if t not in WIDTH: raise Unsupported('vector of ' + t)
    return WIDTH[t]
def vec_get(e, s, o):
    b = e.load(s, Ptr(o.rid, addoff(o.off, 0)), ('ptr',)); en = e.load(s, Ptr(o.rid, addoff(o.off, 8)), ('ptr',))
    return b, en
def vec_len(e, s, o, w):
    b, en = vec_get(e, s, o)
    if b.rid == 0: return 0
    d = lin_sub(X.toint(en.off), X.toint(b.off))
    q = lin_div(d, w)
    if q is None: raise Unsupported('vector length')
    return q
VT = r'std::vector<(?P<vt>std::byte|char|unsigned char|signed char|unsigned long|long|Elem), std::allocator<(?P=vt)>>::'
def vrule(rx): return rule(r'(^|\s)' + VT + rx, VL)
def vec_kill(e, s, o):
    b, _ = vec_get(e, s, o)
    if b.rid != 0 and b.rid in s.mem and s.mem[b.rid].name == 'vector buffer':
        w = e.wr(s, b.rid); w.alive = False
@vrule(r'vector\(\)$')
def _(e, s, a, ins):
    for i in (0, 8, 16): e.store(s, Ptr(a[0].rid, addoff(a[0].off, i)), 8, NULL)
@vrule(r'~vector\(\)$')
def _(e, s, a, ins): vec_kill(e, s, a[0])
@vrule(r'clear\(\)$')
def _(e, s, a, ins):
    b, _ = vec_get(e, s, a[0]); e.store(s, Ptr(a[0].rid, addoff(a[0].off, 8)), 8, b)
@vrule(r'(reserve|shrink_to_fit)\(')
def _(e, s, a, ins): return None
@vrule(r'resize\(unsigned long\)$')
def _(e, s, a, ins):
    w = vtype(e, s, ins); n = vec_len(e, s, a[0], w); m = sizev(a[1])
    b, en = vec_get(e, s, a[0])
    if isinstance(n, int) and n == 0:
        vec_set(e, s, a[0], Const(0, 8 * w), m, w); return
    node = s.mem[b.rid].node
    res = []
    for cond, grow in ((as_z(m) > as_z(n), True), (as_z(m) <= as_z(n), False)):
        if not e.feasible(s, cond): continue
        t = s.fork(); e.add_pc(t, cond)
        if grow: vec_kill(e, t, a[0]); vec_set(e, t, a[0], Copy(Const(0, 8 * w), 0, scale(n, w), node, b.off), m, w)
        else: e.store(t, Ptr(a[0].rid, addoff(a[0].off, 8)), 8, Ptr(b.rid, addoff(b.off, scale(m, w))))
        res.append((t, None))
    return Outcomes(res)
def scale(n, w): return n * w if isinstance(n, int) else norm(n * w)
@vrule(r'pop_back\(\)$')
def _(e, s, a, ins):
    w = vtype(e, s, ins); b, en = vec_get(e, s, a[0])
    if b.rid == 0 or not e.oblige(s, 'pop_back on a non-empty vector', as_z(vec_len(e, s, a[0], w)) > 0, 'memory'): raise DeadPath()
    e.store(s, Ptr(a[0].rid, addoff(a[0].off, 8)), 8, Ptr(en.rid, addoff(en.off, -w)))
@rule(r'^vf_bytes_over$')
def _(e, s, a, ins):
    n = uname(s, cstr(e, s, a[0])); cnt = as_int(a[1]); size = a[3]
    tab = [e.load_raw(s, Ptr(a[2].rid, addoff(a[2].off, i)), 1) for i in range(size)]
    w = 8
    fn = z3.Function('in!' + n, z3.IntSort(), z3.BitVecSort(8))
    def f(i):
        u = fn(as_z(i))
        u = z3.URem(u, z3.BitVecVal(size, 8)) if size & (size - 1) else (u & (size - 1)) if size < 256 else u
        return X.table_bv(tab, z3.ZeroExt(8, u), 1)
    r = e.new_region(s, 'farr', cnt, n); r.node = FnNode(f, 8); r.unit = 1
    s.inputs.append(('bytes', n, (FnNode(lambda i: fn(as_z(i)), 8), cnt))); return Ptr(r.rid, 0)

# ------------------------------------------------------------------ C library
@rule(r'^malloc$', 'malloc/realloc/free: the C library implements them; allocation succeeds')
def _(e, s, a, ins):
    n = smp(a[0]) if is_sym(a[0]) else a[0]
    if not isinstance(n, int): raise Unsupported('malloc of symbolic size')
    r = e.new_region(s, 'cells', n, 'heap block of %d bytes' % n); return Ptr(r.rid, 0)
@rule(r'^free$', 'malloc/realloc/free: the C library implements them; allocation succeeds')
def _(e, s, a, ins):
    p = a[0]
    if isinstance(p, Poison): raise Unsupported('free of unknown pointer')
    if isinstance(p, int) or p.rid == 0: return
    if not s.mem[p.rid].alive:
        e.oblige(s, 'memory-safety: no double free', False, 'memory'); raise DeadPath()
    w = e.wr(s, p.rid); w.alive = False
@rule(r'^strlen$', 'strlen: length of a NUL-terminated text')
def _(e, s, a, ins): return strlen(e, s, a[0])

# ------------------------------------------------------------------ string concatenation, error objects
def text_of(e, s, kind, v):
    if kind == 'std::string':
        p, n = str_get(e, s, v); nd, of = seq_of(e, s, p); return nd, of, n
    if kind == 'char const*':
        n = strlen(e, s, v); nd, of = seq_of(e, s, v); return nd, of, n
    return Const(v, 8), 0, 1
@rule(r'^std::string std::operator\+<char, std::char_traits<char>, std::allocator<char>\s*>\(', SL)
def _(e, s, a, ins):
    d = norm_dem(e.dem[s.mem[e.operand(s, ('ptr',), ins.a['callee']).rid].name])
    m = re.search(r'\((.*)\)$', d)
    ks = [k.strip().replace(' const&', '').replace('&&', '') for k in m.group(1).split(', ')]
    n1, o1, l1 = text_of(e, s, ks[0], a[1]); n2, o2, l2 = text_of(e, s, ks[1], a[2])
    str_set(e, s, a[0], Copy(Copy(Const(0, 8), 0, l1, n1, o1), l1, l2, n2, o2), add(l1, l2))
@rule(r'^std::(__cxx11::)?to_string\(', 'std::to_string: yields some decimal text')
def _(e, s, a, ins):
    if isinstance(a[1], int):
        w = b'%d' % a[1]; str_set(e, s, a[0], Lit(w + b'\0') , len(w)); return
    n = z3.Int(fresh_name('to_string')); s.pc.append(z3.And(n >= 1, n <= 20))
    str_set(e, s, a[0], Copy(Const(0, 8), 0, n, Base(fresh_name('to_string'), 8), 0), n)
EL = 'std::runtime_error and relatives: construction does not throw'
@rule(r'^std::(runtime_error|logic_error|out_of_range|exception)::~?(runtime_error|logic_error|out_of_range|exception)\(', EL)
def _(e, s, a, ins):
    d = norm_dem(e.dem[s.mem[e.operand(s, ('ptr',), ins.a['callee']).rid].name])
    if '~' in d or not isinstance(a[0], Ptr): return None
    # a dispatch table in which what() is the third entry
    t = e.new_region(s, 'cells', 24, '@vtable of a standard exception'); t.ro = True
    f = e.new_region(s, 'func', 0, 'vf_what'); t.cells[16] = (8, Ptr(f.rid, 0))
    e.store(s, a[0], 8, Ptr(t.rid, 0))
    return None
@rule(r'^vf_what$', EL.replace('construction does not throw', 'what() yields some text'))
def _(e, s, a, ins):
    r = e.new_region(s, 'cells', 6, 'text of an error'); r.ro = True
    for i, b in enumerate(b'error\0'): r.cells[i] = (1, b)
    return Ptr(r.rid, 0)

# ------------------------------------------------------------------ calendar
CAL = 'C library timegm/gmtime_r and std::chrono::year_month_day <-> sys_days: the proleptic Gregorian calendar (years 0..9999)'
DAYSF = z3.Function('days', *([z3.BitVecSort(32)] * 3), z3.BitVecSort(64))
FIELDF = [z3.Function('cal_' + n, z3.BitVecSort(64), z3.BitVecSort(32)) for n in ('year', 'month', 'day')]
CLOCKF = [z3.Function('clock_' + n, z3.BitVecSort(64), z3.BitVecSort(32)) for n in ('days', 'hour', 'minute', 'second')]
def bv(v, w): return z3.BitVecVal(v, w)
def cal_leap(y): return z3.And(z3.URem(y, 4) == 0, z3.Or(z3.URem(y, 100) != 0, z3.URem(y, 400) == 0))
def cal_valid(y, m, d):
    """a real date of the years 0..9999"""
    dim = z3.If(m == 2, z3.If(cal_leap(z3.Extract(15, 0, y)), bv(29, 32), bv(28, 32)), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), bv(30, 32), bv(31, 32)))
    return z3.And(z3.ULE(y, 9999), z3.UGE(m, 1), z3.ULE(m, 12), z3.UGE(d, 1), z3.ULE(d, dim))
def cal_canon(e, s, *f):
    """the terms of an earlier call where these are provably equal to them"""
    f = [as_bv(v, 32) for v in f]
    for k, v in list(s.ghost.items()):
        if isinstance(k, tuple) and k[0] == 'args' and len(k) == len(f) + 1 and (all(x.eq(y) for x, y in zip(f, v)) or e.must(s, z3.And(*[x == y for x, y in zip(f, v)]))): return v
    s.ghost[('args',) + tuple(x.get_id() for x in f)] = f
    return f
def cal_days(e, s, y, m, d):
    """days since 1970-01-01: the term and its definition (for the first of a month of the years 0..9999, plus d-1 days)"""
    y, m, d = cal_canon(e, s, y, m, d)
    t = DAYSF(y, m, d)
    key = ('days', y.get_id(), m.get_id(), d.get_id())
    if key in s.ghost: return t
    s.ghost[key] = (y, m, d, t)
    Y = z3.Extract(15, 0, y) + bv(7999, 16)
    before = z3.ZeroExt(48, Y) * 365 + z3.ZeroExt(48, z3.UDiv(Y, bv(4, 16)) - z3.UDiv(Y, bv(100, 16)) + z3.UDiv(Y, bv(400, 16)))
    leap = cal_leap(z3.Extract(15, 0, y))
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    c = bv(0, 64)
    for k in range(1, 12): c = z3.If(m == k + 1, bv(cum[k], 64), c)
    c = c + z3.If(z3.And(z3.UGT(m, 2), leap), bv(1, 64), bv(0, 64))
    total = before + c + z3.SignExt(32, d) - bv(1, 64) - bv(CAL0, 64)
    ok = z3.And(z3.ULE(y, 9999), z3.UGE(m, 1), z3.ULE(m, 12))
    s.lazy.append(z3.Implies(ok, t == total))
    s.pc.append(z3.Implies(z3.And(ok, z3.ULE(d, 31)), z3.And(t >= bv(-719529, 64), t <= bv(2932896, 64))))
    s.pc.append(z3.Implies(cal_valid(y, m, d), z3.And(FIELDF[0](t) == y, FIELDF[1](t) == m, FIELDF[2](t) == d)))
    return t
def _cal0():
    Y = 1969 + 8000
    return Y * 365 + Y // 4 - Y // 100 + Y // 400
CAL0 = _cal0()
def cal_posix(e, s, y, m, d, h, mi, sec):
    if not all(isinstance(v, int) for v in (h, mi, sec)):
        h, mi, sec = cal_canon(e, s, h, mi, sec)[:]
        y, m, d = cal_canon(e, s, y, m, d)
    t = cal_days(e, s, y, m, d) * bv(86400, 64)
    for v, k in ((h, 3600), (mi, 60), (sec, 1)):
        if isinstance(v, int) and v == 0: continue
        t = t + z3.SignExt(32, as_bv(v, 32)) * bv(k, 64)
    t = smp(t)
    key = ('posix', t.get_id())
    if key not in s.ghost:
        s.ghost[key] = t
        h, mi, sec = [as_bv(v, 32) for v in (h, mi, sec)]
        D = DAYSF(*[as_bv(v, 32) for v in (y, m, d)])
        s.pc.append(z3.Implies(z3.And(z3.ULT(h, 24), z3.ULT(mi, 60), z3.ULT(sec, 60)), z3.And(CLOCKF[0](t) == z3.Extract(31, 0, D), CLOCKF[1](t) == h, CLOCKF[2](t) == mi, CLOCKF[3](t) == sec)))
    return t
def cal_fields(e, s, t):
    """calendar date and time of day of a POSIX time (years 0..9999)"""
    t = as_bv(t, 64)
    D = z3.SignExt(32, CLOCKF[0](t)); f = [F(D) for F in FIELDF] + [F(t) for F in CLOCKF[1:]]
    key = ('civil', t.get_id())
    if key not in s.ghost:
        s.ghost[key] = t
        lo, hi = -719528 * 86400, 2932897 * 86400          # 0000-01-01 .. 9999-12-31
        inr = z3.And(t >= bv(lo, 64), t < bv(hi, 64))
        cal_days(e, s, *f[:3])
        s.pc.append(z3.Implies(inr, z3.And(cal_valid(*f[:3]), z3.ULT(f[3], 24), z3.ULT(f[4], 60), z3.ULT(f[5], 60), DAYSF(*f[:3]) == D)))
        s.pc.append(z3.Implies(inr, cal_posix(e, s, *f) == t))
        s.pc.append(z3.Implies(z3.And(t >= bv(-9223372036, 64), t <= bv(9223372036, 64)), z3.And(f[0] >= 1677, f[0] <= 2262)))
    return f
@rule(r'^vf_posix$')
def _(e, s, a, ins): return cal_posix(e, s, *a)
@rule(r'^vf_civil$')
def _(e, s, a, ins):
    for i, v in enumerate(cal_fields(e, s, a[0])): e.store(s, Ptr(a[1].rid, add(a[1].off, 4 * i)), 4, v)
@rule(r'^timegm$', CAL)
def _(e, s, a, ins):
    at = lambda i: Ptr(a[0].rid, add(a[0].off, 4 * i))
    f = [e.coerce(s, e.load(s, at(i), ('i', 32)), ('i', 32)) for i in range(6)]
    year = smp(as_bv(f[5], 32) + 1900); mon = smp(as_bv(f[4], 32) + 1)
    h, mi, sec = f[2], f[1], f[0]
    t = cal_posix(e, s, year, mon, f[3], h, mi, sec)
    ok = z3.And(cal_valid(as_bv(year, 32), as_bv(mon, 32), as_bv(f[3], 32)), z3.ULT(as_bv(h, 32), 24), z3.ULT(as_bv(mi, 32), 60), z3.ULT(as_bv(sec, 32), 60))
    if not e.must(s, ok):           # otherwise the fields are normalised
        for i in range(6): e.store(s, at(i), 4, z3.If(ok, as_bv(f[i], 32), z3.BitVec(fresh_name('tm'), 32)))
    for i in (6, 7, 8): e.store(s, at(i), 4, z3.BitVec(fresh_name('tm'), 32))
    ref = z3.And(z3.ULE(as_bv(year, 32), 9999), z3.UGE(as_bv(mon, 32), 1), z3.ULE(as_bv(mon, 32), 12))
    return t if e.must(s, ref) else z3.If(ref, as_bv(t, 64), z3.BitVec(fresh_name('timegm'), 64))
@rule(r'^gmtime_r$', CAL)
def _(e, s, a, ins):
    t = e.load(s, a[0], ('i', 64))
    y, m, d, h, mi, sec = cal_fields(e, s, t)
    for i, v in enumerate((sec, mi, h, d, m - 1, y - 1900)): e.store(s, Ptr(a[1].rid, add(a[1].off, 4 * i)), 4, smp(v))
    for i in (6, 7): e.store(s, Ptr(a[1].rid, add(a[1].off, 4 * i)), 4, z3.BitVec(fresh_name('tm'), 32))
    e.store(s, Ptr(a[1].rid, add(a[1].off, 32)), 4, 0)
    return a[1]
def ymd_at(e, s, p):
    y = e.coerce(s, e.load(s, p, ('i', 16)), ('i', 16)); o = lambda k: Ptr(p.rid, add(p.off, k))
    m = e.load(s, o(2), ('i', 8)); d = e.load(s, o(3), ('i', 8))
    return smp(z3.SignExt(16, as_bv(y, 16))), smp(z3.ZeroExt(24, as_bv(m, 8))), smp(z3.ZeroExt(24, as_bv(d, 8)))
@rule(r'^std::chrono::year_month_day::_M_days_since_epoch\(\) const', CAL)
def _(e, s, a, ins):
    y, m, d = ymd_at(e, s, a[0])
    t = cal_days(e, s, y, m, d)
    return smp(t)
@rule(r'^std::chrono::year_month_day::_S_from_days\(', CAL)
def _(e, s, a, ins):
    D = as_bv(e.load(s, a[0], ('i', 64)), 64)
    y, m, d = [F(D) for F in FIELDF]
    cal_days(e, s, y, m, d)
    inr = z3.And(D >= bv(-719528, 64), D < bv(2932897, 64))
    s.pc.append(z3.Implies(inr, z3.And(cal_valid(y, m, d), DAYSF(y, m, d) == D)))
    return smp(z3.Concat(z3.Extract(7, 0, d), z3.Extract(7, 0, m), z3.Extract(15, 0, y)))

@rule(r'^std::to_chars\(char\*, char\*, (int|unsigned int|long|unsigned long|short|unsigned short|long long|unsigned long long), int\)', 'std::to_chars (integers, base 10): the shortest decimal text, or value_too_large if it does not fit')
def _(e, s, a, ins):
    d = norm_dem(e.dem[s.mem[e.operand(s, ('ptr',), ins.a['callee']).rid].name])
    ty = re.search(r'char\*, char\*, ([a-z ]+), int', d).group(1)
    w = {'int': 32, 'short': 16}.get(ty.replace('unsigned ', ''), 64); signed = 'unsigned' not in ty
    if a[3] != 10: raise Unsupported('to_chars in base %r' % (a[3],))
    first, last, v = a[0], a[1], a[2]
    if first.rid != last.rid: raise Unsupported('to_chars range')
    room = lin_sub(last.off, first.off)
    if is_int(v): v = smp(as_bv(v, w))
    def put(t, digs):
        n = len(digs)
        c = smp(as_z(room) >= n) if not isinstance(room, int) else room >= n
        if c is not True and not e.must(t, as_boolz(c)):
            if e.must(t, z3.Not(as_boolz(c))): return (t, [last, 75])
            raise Unsupported('to_chars into a range of unknown size')
        for i, b in enumerate(digs): e.store(t, Ptr(first.rid, add(first.off, i)), 1, b)
        return (t, [Ptr(first.rid, add(first.off, n)), 0])
    if isinstance(v, int):
        return Outcomes([put(s, list(b'%d' % (sgn(v, w) if signed else v)))])
    v = as_bv(v, w); res = []
    def branch(c):
        if not e.feasible(s, c): return None
        t = s.fork(); e.add_pc(t, c); return t
    for neg in ((False, True) if signed else (False,)):
        m = -v if neg else v
        lim = (1 << (w - 1)) if signed else (1 << w)
        nd = len(str(lim))
        if neg and not e.feasible(s, v < 0): continue
        for k in range(1, nd + 1):
            lo, hi = (10 ** (k - 1) if k > 1 else (1 if neg else 0)), min(10 ** k - 1, lim - (0 if neg else 1))
            c = z3.And(z3.UGE(m, bv(lo, w)), z3.ULE(m, bv(hi, w)))
            if signed: c = z3.And(c, v < 0 if neg else v >= 0)
            t = branch(c)
            if t is None: continue
            q = (lambda x, y: z3.UDiv(x, y)) if (neg or not signed) else (lambda x, y: x / y)
            r = (lambda x, y: z3.URem(x, y)) if (neg or not signed) else (lambda x, y: z3.SRem(x, y))
            digs = [smp(z3.Extract(7, 0, r(q(m, bv(10 ** (k - 1 - i), w)), bv(10, w))) + 48) for i in range(k)]
            res.append(put(t, ([45] if neg else []) + digs))
    if not res: raise DeadPath()
    return Outcomes(res)

import contracts_json
