"""Contracts of rapidjson's token writer (as a ghost log of tokens), its string buffer and its allocator."""
import re, z3
from vals import *
import exec as X
from exec import Outcomes, DeadPath, fresh_name, addoff, as_boolz
from contracts import rule, str_set, str_get, seq_of, check_read, strlen, cstr, sizev, norm_dem, Fact

WL = 'rapidjson::Writer: appends exactly the named token to its output (text formatting is rapidjson\'s)'
W = r'^rapidjson::Writer<rapidjson::GenericStringBuffer<.*>::'
NULLT, BOOL, INT, NEG, DOUBLE, STRING, KEY, OBJ, OBJ_END, ARR, ARR_END = range(1, 12)
STRINGS = []            # snapshots of written strings: (node, offset, length); immutable
def log_regions(e, s, w):
    k = e.load(s, Ptr(w.rid, addoff(w.off, 0)), ('ptr',)); v = e.load(s, Ptr(w.rid, addoff(w.off, 8)), ('ptr',))
    n = e.load_raw(s, Ptr(w.rid, addoff(w.off, 16)), 8)
    return k, v, n
def log_init(e, s, w):
    for off, nm in ((0, 'token kinds'), (8, 'token values')):
        r = e.new_region(s, 'farr', None, nm); r.unit = 8; r.node = Const(0, 64)
        e.store(s, Ptr(w.rid, addoff(w.off, off)), 8, Ptr(r.rid, 0))
    e.store(s, Ptr(w.rid, addoff(w.off, 16)), 8, 0)
def scale8(n): return n * 8 if isinstance(n, int) else norm(n * 8)
def emit(e, s, w, kind, val=0):
    k, v, n = log_regions(e, s, w)
    n = as_int(n)
    for p, x in ((k, kind), (v, val)):
        r = e.wr(s, p.rid); r.node = Store(r.node, scale8(n), x if isinstance(x, int) else as_bv(x, 64))
    e.store(s, Ptr(w.rid, addoff(w.off, 16)), 8, add(n, 1))
    return True
def emit_text(e, s, w, kind, p, n):
    check_read(e, s, p, n, 'written text')
    nd, of = seq_of(e, s, p, n)
    STRINGS.append((nd, of, n))
    return emit(e, s, w, kind, len(STRINGS))
def wrule(rx): return rule(W + rx, WL)
@wrule(r'Writer\(')
def _(e, s, a, ins): log_init(e, s, a[0])
@wrule(r'~Writer\(\)$')
def _(e, s, a, ins): return None
@wrule(r'Null\(\)$')
def _(e, s, a, ins): return emit(e, s, a[0], NULLT)
@wrule(r'Bool\(bool\)$')
def _(e, s, a, ins): return emit(e, s, a[0], BOOL, as_bv(as_boolz(a[1]), 64))
def sint(w):
    def h(e, s, a, ins):
        v = as_bv(a[1], w); x = z3.SignExt(64 - w, v) if w < 64 else v
        return emit(e, s, a[0], smp(z3.If(x < 0, z3.BitVecVal(NEG, 64), z3.BitVecVal(INT, 64))), smp(z3.If(x < 0, -x, x)))
    return h
def uint(w):
    def h(e, s, a, ins):
        if is_int(a[1]): return emit(e, s, a[0], INT, as_bv(a[1], 64))
        v = as_bv(a[1], w); return emit(e, s, a[0], INT, smp(z3.ZeroExt(64 - w, v) if w < 64 else v))
    return h
wrule(r'Int\(int\)$')(sint(32)); wrule(r'Int64\(long\)$')(sint(64)); wrule(r'Uint\(unsigned int\)$')(uint(32)); wrule(r'Uint64\(unsigned long\)$')(uint(64))
@wrule(r'Double\(double\)$')
def _(e, s, a, ins):
    v = e.coerce(s, a[1], ('f64',))
    fin = z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))
    res = []
    for c, ok in ((fin, True), (z3.Not(fin), False)):
        if not e.feasible(s, c): continue
        t = s.fork(); e.add_pc(t, c)
        if ok: emit(e, t, a[0], DOUBLE, fpbits(v))
        res.append((t, ok))
    return Outcomes(res)
def fpbits(v):
    """bits of a double; the exact inverse where the double was made from bits"""
    if v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and is_bv(v.arg(0)): return v.arg(0)
    return z3.fpToIEEEBV(v)
@wrule(r'String\(char const\*, unsigned int, bool\)$')
def _(e, s, a, ins): return emit_text(e, s, a[0], STRING, a[1], sizev(a[2]))
@wrule(r'Key\(char const\*, unsigned int, bool\)$')
def _(e, s, a, ins): return emit_text(e, s, a[0], KEY, a[1], sizev(a[2]))
@wrule(r'String\(char const\* const&\)$')
def _(e, s, a, ins):
    p = e.load(s, a[1], ('ptr',)); return emit_text(e, s, a[0], STRING, p, strlen(e, s, p))
@wrule(r'Key\(char const\* const&\)$')
def _(e, s, a, ins):
    p = e.load(s, a[1], ('ptr',)); return emit_text(e, s, a[0], KEY, p, strlen(e, s, p))
@wrule(r'String\(char const\*\)$')
def _(e, s, a, ins): return emit_text(e, s, a[0], STRING, a[1], strlen(e, s, a[1]))
@wrule(r'Key\(char const\*\)$')
def _(e, s, a, ins): return emit_text(e, s, a[0], KEY, a[1], strlen(e, s, a[1]))
@wrule(r'String\(std::string const&\)$')
def _(e, s, a, ins):
    p, n = str_get(e, s, a[1]); return emit_text(e, s, a[0], STRING, p, n)
@wrule(r'Key\(std::string const&\)$')
def _(e, s, a, ins):
    p, n = str_get(e, s, a[1]); return emit_text(e, s, a[0], KEY, p, n)
@wrule(r'StartObject\(\)$')
def _(e, s, a, ins): return emit(e, s, a[0], OBJ)
@wrule(r'EndObject\(')
def _(e, s, a, ins): return emit(e, s, a[0], OBJ_END)
@wrule(r'StartArray\(\)$')
def _(e, s, a, ins): return emit(e, s, a[0], ARR)
@wrule(r'EndArray\(')
def _(e, s, a, ins): return emit(e, s, a[0], ARR_END)
@wrule(r'\w+')
def _(e, s, a, ins): raise Unsupported('rapidjson::Writer function without a contract')
# ------------------------------------------------------------------ log queries
@rule(r'^vf_log_count$')
def _(e, s, a, ins): return log_regions(e, s, a[0])[2]
def log_at(e, s, w, i, col):
    k, v, n = log_regions(e, s, w)
    return s.mem[(k, v)[col].rid].node.select(scale8(as_int(i)))
@rule(r'^vf_log_kind$')
def _(e, s, a, ins): return log_at(e, s, a[0], a[1], 0)
@rule(r'^vf_log_value$')
def _(e, s, a, ins): return log_at(e, s, a[0], a[1], 1)
def text_at(e, s, w, i):
    v = log_at(e, s, w, i, 1)
    v = smp(v) if is_sym(v) else v
    if not isinstance(v, int): raise Unsupported('text of a token at a symbolic position')
    if not 1 <= v <= len(STRINGS): return None
    return STRINGS[v - 1]
@rule(r'^vf_log_length$')
def _(e, s, a, ins):
    t = text_at(e, s, a[0], a[1])
    return (1 << 64) - 1 if t is None else t[2]
@rule(r'^vf_log_byte$')
def _(e, s, a, ins):
    t = text_at(e, s, a[0], a[1])
    return 0 if t is None else t[0].select(add(as_int(a[2]), X.toint(t[1])))
class LogTrack:
    """token i of the log is expected to be (kind, value)"""
    def __init__(self, w, i, kind, val): self.w = w; self.i = i; self.kind = kind; self.val = val
    def candidates(self, e, s0, sh, W, ind):
        out = []
        try: k, v, n0 = log_regions(e, s0, self.w)
        except Unsupported: return out
        at = scale8(as_int(self.i))
        for p, want in ((k, self.kind), (v, self.val)):
            if ('node', p.rid) not in W: continue
            node0 = s0.mem[p.rid].node
            def cnt(st): return as_z(as_int(log_regions(e, st, self.w)[2]))
            def sel(st, p=p): return as_bv(st.mem[p.rid].node.select(at), 64)
            lo = as_z(as_int(n0))
            out.append(('token[i] written by the loop is as specified', lambda st, kk, sel=sel, want=want: z3.Implies(z3.And(lo <= as_z(as_int(self.i)), as_z(as_int(self.i)) < cnt(st)), sel(st) == as_bv(want, 64))))
            out.append(('tokens before the loop are kept', lambda st, kk, sel=sel, node0=node0: z3.Implies(as_z(as_int(self.i)) < lo, sel(st) == as_bv(node0.select(at), 64))))
        return out
@rule(r'^vf_track_log$')
def _(e, s, a, ins):
    s.tracks.append(LogTrack(a[0], a[1], a[2], a[3]))
# ------------------------------------------------------------------ string buffer, allocator
BL = 'rapidjson::GenericStringBuffer: a growable text buffer'
B = r'^rapidjson::GenericStringBuffer<.*>::'
@rule(B + r'(GenericStringBuffer|~GenericStringBuffer|Clear|ShrinkToFit|Reserve|Flush)\(', BL)
def _(e, s, a, ins): return None
def buf_text(e, s, o):
    """text of the buffer: some text determined by the tokens (left uninterpreted)"""
    key = 'buf:%s:%s' % (o.rid, o.off)
    if key not in s.ghost:
        n = z3.Int(fresh_name('buflen')); s.pc.append(z3.And(n >= 0, n < (1 << 40)))
        r = e.new_region(s, 'farr', add(n, 1), 'text buffer'); r.unit = 1; r.node = Copy(Const(0, 8), 0, n, Base(fresh_name('buftext'), 8), 0); r.ro = True
        s.ghost[key] = Ptr(r.rid, 0); s.ghost[key + '#'] = n
    return s.ghost[key], s.ghost[key + '#']
@rule(B + r'GetString\(', BL)
def _(e, s, a, ins): return buf_text(e, s, a[0])[0]
@rule(B + r'(GetSize|GetLength)\(', BL)
def _(e, s, a, ins): return buf_text(e, s, a[0])[1]
AL = 'rapidjson::MemoryPoolAllocator: Malloc returns fresh storage of the requested size; Realloc keeps the contents'
M = r'^rapidjson::MemoryPoolAllocator<.*>::'
def fresh_block(e, s, n):
    n = smp(n) if is_sym(n) else n
    if isinstance(n, int): r = e.new_region(s, 'cells', n, 'pool block of %d bytes' % n)
    else:
        r = e.new_region(s, 'farr', as_int(n), 'pool block'); r.unit = 1; r.node = Base(fresh_name('pool'), 8)
    return Ptr(r.rid, 0)
@rule(M + r'Malloc\(', AL)
def _(e, s, a, ins):
    n = smp(a[1]) if is_sym(a[1]) else a[1]
    if isinstance(n, int) and n == 0: return NULL
    return fresh_block(e, s, n)
@rule(M + r'Realloc\(', AL)
def _(e, s, a, ins):
    old = a[1]; n = smp(a[3]) if is_sym(a[3]) else a[3]
    if not isinstance(n, int): raise Unsupported('reallocation of symbolic size')
    p = fresh_block(e, s, n)
    if isinstance(old, Ptr) and old.rid != 0: e.memcpy(s, p, old, a[2])
    return p
@rule(M + r'Free\(', AL)
def _(e, s, a, ins): return None
@rule(r'^rapidjson::CrtAllocator::Realloc\(', 'rapidjson::CrtAllocator: Realloc returns fresh storage that keeps the contents; allocation succeeds')
def _(e, s, a, ins):
    old, n, m = a[1], smp(a[2]) if is_sym(a[2]) else a[2], smp(a[3]) if is_sym(a[3]) else a[3]
    if not isinstance(n, int) or not isinstance(m, int): raise Unsupported('reallocation of symbolic size')
    if m == 0: return NULL
    p = fresh_block(e, s, m)
    if isinstance(old, Ptr) and old.rid != 0 and min(n, m): e.memcpy(s, p, old, min(n, m))
    if isinstance(old, Ptr) and old.rid != 0: e.wr(s, old.rid).alive = False
    return p
# ------------------------------------------------------------------ byte comparison
@rule(r'^(memcmp|bcmp|__builtin_memcmp)$', 'memcmp: lexicographic comparison of bytes')
def _(e, s, a, ins): return memcmp(e, s, a[0], a[1], sizev(a[2]))
def memcmp(e, s, p, q, n):
    n = smp(n) if is_sym(n) else n
    if is_sym(n):
        vs = e.enum_values(s, n, 40)
        if vs is None: raise Unsupported('comparison of symbolic length')
        if len(vs) == 1: n = vs[0]
        else: raise X.Fork([(n == v, None) for v in vs])
    if n == 0: return 0
    check_read(e, s, p, n, 'compared text'); check_read(e, s, q, n, 'compared text')
    eq = []
    lt = z3.BoolVal(False)
    A = [as_bv(e.load_raw(s, Ptr(p.rid, addoff(p.off, i)), 1), 8) for i in range(n)]
    C = [as_bv(e.load_raw(s, Ptr(q.rid, addoff(q.off, i)), 1), 8) for i in range(n)]
    for x, y in reversed(list(zip(A, C))): lt = z3.Or(z3.ULT(x, y), z3.And(x == y, lt))
    same = z3.And(*[x == y for x, y in zip(A, C)])
    return smp(z3.If(same, z3.BitVecVal(0, 32), z3.If(lt, z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32))))

def text_concrete(e, s, p):
    """bytes up to the NUL if they are all concrete, else None"""
    r = s.mem[p.rid]
    if isinstance(p.off, int) and r.raw is not None: return bytes(r.raw[p.off:]).split(b'\0')[0]
    out = bytearray()
    if not isinstance(p.off, int) or not isinstance(r.size, int): return None
    for i in range(p.off, r.size):
        try: v = e.load_raw(s, Ptr(p.rid, i), 1)
        except (Unsupported, X.Fork): return None
        if not isinstance(v, int): return None
        if v == 0: return bytes(out)
        out.append(v)
    return None
@rule(r'^strcmp$', 'strcmp: lexicographic comparison of NUL-terminated texts')
def _(e, s, a, ins):
    x, y = text_concrete(e, s, a[0]), text_concrete(e, s, a[1])
    if x is not None and y is not None: return 0 if x == y else 1 if x > y else (1 << 32) - 1
    if x is None and y is None: raise Unsupported('comparison of two symbolic texts')
    flip = x is not None
    word, p = (x, a[1]) if flip else (y, a[0])
    r = s.mem[p.rid]; same = z3.BoolVal(True); lt = z3.BoolVal(False)
    cs = []
    for i, c in enumerate(word + b'\0'):
        if not e.oblige(s, 'memory-safety: compared text is terminated inside %s' % X.nice(r.name), z3.Implies(same, as_z(X.toint(p.off)) + i < as_z(r.size)), 'memory'): raise DeadPath()
        b = as_bv(r.node.select(addoff(p.off, i)) if r.kind == 'farr' else e.load_raw(s, Ptr(p.rid, addoff(p.off, i)), 1), 8)
        lt = z3.Or(lt, z3.And(same, z3.ULT(b, c)))
        same = z3.And(same, b == c)
    if flip: lt = z3.And(z3.Not(lt), z3.Not(same))
    return smp(z3.If(same, z3.BitVecVal(0, 32), z3.If(lt, z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32))))
@rule(r'^memchr$', 'memchr: first occurrence of a byte')
def _(e, s, a, ins):
    p, c, n = a[0], a[1], sizev(a[2])
    n = smp(n) if is_sym(n) else n
    if isinstance(n, int) and n == 0: return NULL
    check_read(e, s, p, n, 'searched text')
    c8 = c & 255 if isinstance(c, int) else z3.Extract(7, 0, as_bv(c, 32))
    if isinstance(n, int) and n <= 64 and isinstance(c8, int):
        for i in range(n):
            b = e.load_raw(s, Ptr(p.rid, addoff(p.off, i)), 1)
            if not isinstance(b, int): break
            if b == c8: return Ptr(p.rid, addoff(p.off, i))
        else: return NULL
    nd, of = seq_of(e, s, p)
    of = X.toint(of)
    c8 = as_bv(c8, 8)
    j = z3.Int(fresh_name('j')); i = z3.Int(fresh_name('found'))
    at = lambda k: as_bv(nd.select(add(k, of)), 8)
    res = []
    f = s.fork(); e.add_pc(f, z3.And(i >= 0, i < as_z(n))); e.add_pc(f, at(i) == c8); f.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), at(j) != c8)))
    if e.feasible(f): res.append((f, Ptr(p.rid, addoff(p.off, i))))
    g = s.fork(); g.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < as_z(n)), at(j) != c8)))
    if e.feasible(g): res.append((g, NULL))
    return Outcomes(res)
