"""Symbolic values: machine integers, pointers, floats, persistent byte/word sequences."""
import z3

class Unsupported(Exception):
    """the code reached a construct outside the verifier's reach (never reported as a violation)"""

class Ptr:
    __slots__ = ('rid', 'off')
    def __init__(s, rid, off=0): s.rid = rid; s.off = off
    def __repr__(s): return 'Ptr(%s,%s)' % (s.rid, s.off)
    def same(s, o): return isinstance(o, Ptr) and s.rid == o.rid and eqterm(s.off, o.off)

class Poison:
    """unknown value left by a loop abstraction; any use is outside the verifier's reach"""
    def __repr__(s): return 'Poison'
POISON = Poison()

NULL = Ptr(0, 0)

def is_sym(v): return isinstance(v, z3.ExprRef)
def is_int(v): return isinstance(v, z3.ArithRef)
def is_bv(v): return isinstance(v, z3.BitVecRef)
def is_fp(v): return isinstance(v, z3.FPRef)
def is_bool(v): return isinstance(v, z3.BoolRef)

def eqterm(a, b):
    if a is b: return True
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    return False

def same_val(a, b):
    if a is b: return True
    if isinstance(a, Ptr): return a.same(b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return eqterm(a, b)

def smp(e):
    if isinstance(e, z3.ExprRef):
        e = z3.simplify(e)
        if z3.is_int_value(e): return e.as_long()
        if z3.is_bv_value(e): return e.as_long()
        if z3.is_true(e): return True
        if z3.is_false(e): return False
    return e

def mask(v, w): return v & ((1 << w) - 1)
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

def as_bv(v, w):
    if isinstance(v, bool): return z3.BitVecVal(int(v), w)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if is_bv(v):
        if v.size() != w: raise Unsupported('bv width %d/%d' % (v.size(), w))
        return v
    if is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if is_int(v): return z3.Int2BV(v, w)
    if is_fp(v): return z3.fpToIEEEBV(v)
    raise Unsupported('as_bv %r' % (v,))

def as_bool(v):
    if isinstance(v, (bool, int)): return bool(v)
    if is_bool(v): return v
    if is_bv(v): return v != 0
    if is_int(v): return v != 0
    if isinstance(v, Ptr): raise Unsupported('bool of ptr')
    raise Unsupported('as_bool %r' % (v,))

def as_int(v):
    """mathematical (unsigned) integer"""
    if isinstance(v, bool): return int(v)
    if isinstance(v, int) or is_int(v): return v
    if is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if is_bv(v): return z3.BV2Int(v)
    raise Unsupported('as_int %r' % (v,))

def linear(e):
    """Int term -> ({term-id: (term, coef)}, const) or None"""
    if isinstance(e, int): return ({}, e)
    if z3.is_int_value(e): return ({}, e.as_long())
    if z3.is_add(e):
        acc = {}; c = 0
        for ch in e.children():
            r = linear(ch)
            if r is None: return None
            for k, (t, q) in r[0].items():
                acc[k] = (t, acc.get(k, (t, 0))[1] + q)
            c += r[1]
        return (acc, c)
    if z3.is_sub(e):
        chs = e.children()
        r0 = linear(chs[0])
        if r0 is None: return None
        acc = dict(r0[0]); c = r0[1]
        for ch in chs[1:]:
            r = linear(ch)
            if r is None: return None
            for k, (t, q) in r[0].items():
                acc[k] = (t, acc.get(k, (t, 0))[1] - q)
            c -= r[1]
        return (acc, c)
    if z3.is_mul(e):
        chs = e.children()
        if len(chs) == 2 and z3.is_int_value(chs[0]):
            r = linear(chs[1])
            if r is None: return None
            q = chs[0].as_long()
            return ({k: (t, q * x) for k, (t, x) in r[0].items()}, q * r[1])
        if len(chs) == 2 and z3.is_int_value(chs[1]):
            r = linear(chs[0])
            if r is None: return None
            q = chs[1].as_long()
            return ({k: (t, q * x) for k, (t, x) in r[0].items()}, q * r[1])
        return ({e.get_id(): (e, 1)}, 0)
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        r = linear(e.children()[0])
        return ({k: (t, -x) for k, (t, x) in r[0].items()}, -r[1])
    return ({e.get_id(): (e, 1)}, 0)

def unlinear(r):
    acc, c = r
    e = None
    for k, (t, q) in sorted(acc.items(), key=lambda kv: kv[0]):
        if q == 0: continue
        x = t if q == 1 else q * t
        e = x if e is None else e + x
    if e is None: return c
    return e if c == 0 else e + c

def norm(e):
    """normal form of a linear Int term (so that equal offsets are recognised without the solver)"""
    if isinstance(e, int): return e
    r = linear(e)
    return unlinear(r)

def lin_sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return norm((z3.IntVal(a) if isinstance(a, int) else a) - b)

def lin_div(e, c):
    """exact quotient of a linear term by a positive constant, or None"""
    if isinstance(e, int): return e // c if e % c == 0 else None
    r = linear(e)
    if all(q % c == 0 for _, q in r[0].values()) and r[1] % c == 0:
        return unlinear(({k: (t, q // c) for k, (t, q) in r[0].items()}, r[1] // c))
    return None

# ---------------------------------------------------------------- persistent sequences
class Node:
    pass
class Base(Node):
    """arbitrary contents: an uninterpreted function of the offset"""
    def __init__(s, name, w):
        s.w = w; s.fn = z3.Function(name, z3.IntSort(), z3.BitVecSort(w)); s.name = name
    def select(s, i): return s.fn(i if not isinstance(i, int) else z3.IntVal(i))
class Const(Node):
    def __init__(s, v, w): s.v = v; s.w = w
    def select(s, i): return s.v
class Lit(Node):
    """literal bytes"""
    def __init__(s, data, default=0): s.data = data; s.d = default; s.w = 8
    def select(s, i):
        if isinstance(i, int): return s.data[i] if 0 <= i < len(s.data) else s.d
        e = z3.BitVecVal(s.d, 8)
        # runs of equal or consecutive values keep the term small
        for (lo, hi, kind, v) in reversed(runs(s.data)):
            c = z3.And(i >= lo, i <= hi) if lo != hi else i == lo
            val = z3.BitVecVal(v, 8) if kind == 'c' else z3.Int2BV(i + (v - lo), 8)
            e = z3.If(c, val, e)
        return e
class Store(Node):
    def __init__(s, prev, i, v): s.prev = prev; s.i = i; s.v = v; s.w = prev.w
    def select(s, j):
        n = s
        ites = []
        res = None
        while isinstance(n, Store):
            d = lin_sub(j, n.i)
            if isinstance(d, int):
                if d == 0: res = n.v; break
            else:
                ites.append((d == 0, n.v))
            n = n.prev
        if res is None: res = n.select(j)
        for c, v in reversed(ites):
            res = ite(c, v, res, s.w)
        return res
class Copy(Node):
    def __init__(s, prev, d, n, src, so): s.prev = prev; s.d = d; s.n = n; s.src = src; s.so = so; s.w = prev.w
    def select(s, j):
        rel = lin_sub(j, s.d)
        if isinstance(rel, int) and rel < 0: return s.prev.select(j)
        left = lin_sub(s.n, rel)
        if isinstance(left, int) and left <= 0: return s.prev.select(j)
        if isinstance(left, int) and isinstance(rel, int): return s.src.select(add(rel, s.so))
        c = smp(z3.And(as_z(rel) >= 0, as_z(rel) < as_z(s.n)))
        if c is True: return s.src.select(add(rel, s.so))
        if c is False: return s.prev.select(j)
        return ite(c, s.src.select(add(rel, s.so)), s.prev.select(j), s.w)
class Fill(Node):
    def __init__(s, prev, d, n, v): s.prev = prev; s.d = d; s.n = n; s.v = v; s.w = prev.w
    def select(s, j):
        rel = lin_sub(j, s.d)
        c = smp(z3.And(as_z(rel) >= 0, as_z(rel) < as_z(s.n)))
        if c is True: return s.v
        if c is False: return s.prev.select(j)
        return ite(c, s.v, s.prev.select(j), s.w)
class FnNode(Node):
    """contents given by a Python function (functional specification of a region)"""
    def __init__(s, f, w): s.f = f; s.w = w
    def select(s, j): return s.f(j)

def as_z(v): return z3.IntVal(v) if isinstance(v, int) else v
def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return norm(as_z(a) + b)

def ite(c, a, b, w):
    if same_val(a, b): return a
    if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('ite over pointers')
    return z3.If(c, as_bv(a, w), as_bv(b, w))

_runs = {}
def runs(data):
    key = bytes(data)
    if key in _runs: return _runs[key]
    out = []; i = 0; n = len(data)
    while i < n:
        j = i
        while j + 1 < n and data[j + 1] == data[i]: j += 1
        k = i
        while k + 1 < n and data[k + 1] == data[k] + 1: k += 1
        if k > j: out.append((i, k, 'l', data[i])); i = k + 1
        else: out.append((i, j, 'c', data[i])); i = j + 1
    _runs[key] = out
    return out
