"""Values, memory objects and byte contents used by the VC generator."""
import z3
from functools import lru_cache

BV64 = z3.BitVecSort(64)
BV8 = z3.BitVecSort(8)
ARR8 = z3.ArraySort(BV64, BV8)


def is_const(t):
    return z3.is_bv_value(t)


def cval(t):
    return t.as_long()


def bv(v, w=64):
    return z3.BitVecVal(v, w)


def to_signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


_S = {}


def simp(t):
    """constant-preserving light simplification"""
    k = t.get_id()
    r = _S.get(k)
    if r is not None:
        return r[1]
    r = z3.simplify(t)
    _S[k] = (t, r)
    return r


def add(a, b):
    if is_const(a) and is_const(b):
        return bv(cval(a) + cval(b), a.size())
    if is_const(b) and cval(b) == 0:
        return a
    if is_const(a) and cval(a) == 0:
        return b
    return simp(a + b)


def sub(a, b):
    if is_const(b) and cval(b) == 0:
        return a
    if is_const(a) and is_const(b):
        return bv(cval(a) - cval(b), a.size())
    if a.eq(b):
        return bv(0, a.size())
    return simp(a - b)


def mulc(a, c):
    if c == 1:
        return a
    if is_const(a):
        return bv(cval(a) * c, a.size())
    return simp(a * bv(c, a.size()))


_LIN = {}


def lin(t):
    """linear normal form of a BV64 term: (const, ((atom_id, coeff),...)), modulo 2^64"""
    k = t.get_id()
    r = _LIN.get(k)
    if r is not None:
        return r[1]
    M = (1 << 64) - 1
    c = 0
    d = {}

    def go(x, m):
        nonlocal c
        if z3.is_bv_value(x):
            c = (c + m * x.as_long()) & M
            return
        kd = x.decl().kind()
        if kd == z3.Z3_OP_BADD:
            for i in range(x.num_args()):
                go(x.arg(i), m)
            return
        if kd == z3.Z3_OP_BSUB and x.num_args() == 2:
            go(x.arg(0), m)
            go(x.arg(1), -m)
            return
        if kd == z3.Z3_OP_BNEG:
            go(x.arg(0), -m)
            return
        if kd == z3.Z3_OP_BMUL and x.num_args() == 2:
            for a, b in ((0, 1), (1, 0)):
                if z3.is_bv_value(x.arg(a)):
                    go(x.arg(b), m * x.arg(a).as_long())
                    return
        i = x.get_id()
        v = (d[i][0] + m) & M if i in d else m & M
        if v:
            d[i] = (v, x)
        elif i in d:
            del d[i]

    go(t, 1)
    r = (c, tuple(sorted((i, v[0]) for i, v in d.items())))
    _LIN[k] = (t, r, [v[1] for v in d.values()])
    return r


def cdiff(a, b):
    """a-b if it is a constant (signed), else None"""
    if a.eq(b):
        return 0
    la, lb = lin(a), lin(b)
    if la[1] == lb[1]:
        return to_signed(la[0] - lb[0], 64)
    return None


class Ptr:
    __slots__ = ("obj", "idx", "off")

    def __init__(self, obj, off=0, idx=None):
        self.obj = obj
        self.off = off
        self.idx = idx  # None == 0

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.obj, self.off, self.idx)

    def same(self, o):
        return (isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off and
                (self.idx is o.idx or (self.idx is not None and o.idx is not None and self.idx.eq(o.idx))))


NULL = Ptr(0)


class FPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "F(%s)" % self.name


class PInt:
    """integer obtained from a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class Agg:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = list(e)


# ---------------------------------------------------------------- byte contents
class C:
    __slots__ = ("k", "prev", "start", "n", "x", "y")

    def __init__(self, k, prev, start, n, x, y=None):
        self.k = k          # base,int,seg,tok,fill
        self.prev = prev
        self.start = start
        self.n = n          # base: None ; int: python int ; others BV64
        self.x = x          # base: z3 array; int: value; seg: source content; tok: Token; fill: byte
        self.y = y          # seg: source start


def cbase(name_or_arr):
    a = z3.Const(name_or_arr, ARR8) if isinstance(name_or_arr, str) else name_or_arr
    return C("base", None, None, None, a)


class Token:
    """abstract predicate instance: the bytes encode `val` in format `kind`"""
    __slots__ = ("kind", "val", "id")
    N = 0

    def __init__(self, kind, val):
        self.kind = kind
        self.val = val
        Token.N += 1
        self.id = Token.N


class Abs:
    """abstract state of a library object (string, vector, map, ...). Immutable."""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d

    def get(self, k):
        return self.d[k]

    def with_(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return Abs(self.kind, **d)

    def __repr__(self):
        return "Abs(%s,%s)" % (self.kind, self.d)


class Obj:
    __slots__ = ("id", "name", "size", "kind", "stride", "cells", "abs", "content", "arrays", "freed", "ro", "sym", "owner", "heap", "guard")

    def __init__(self, id, name, size, kind, stride=0):
        self.id = id
        self.name = name
        self.size = size      # python int or BV64 (bytes)
        self.kind = kind      # 'struct' | 'bytes' | 'arr'
        self.stride = stride
        self.cells = {}
        self.abs = {}
        self.content = None
        self.arrays = {}
        self.freed = False
        self.ro = False
        self.sym = False
        self.heap = False
        self.guard = None
        self.owner = None

    def clone(self, owner):
        o = Obj(self.id, self.name, self.size, self.kind, self.stride)
        o.cells = dict(self.cells)
        o.abs = dict(self.abs)
        o.content = self.content
        o.arrays = dict(self.arrays)
        o.freed = self.freed
        o.ro = self.ro
        o.sym = self.sym
        o.heap = self.heap
        o.guard = self.guard
        o.owner = owner
        return o

    def sizebv(self):
        return bv(self.size) if isinstance(self.size, int) else self.size
