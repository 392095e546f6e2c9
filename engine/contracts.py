"""Contracts of /repo functions used at call sites in place of their bodies. Each is proved against the real body by the lemma
harnesses named next to it (a check that uses the contract also runs those lemmas)."""
import re
import z3
from mem import *
from vcg import *
from spec import *
from stl import *

VARLEN = z3.Function("varlen", BV64, BV64)
LEMMAS = {}


def varlen(ex, st, v):
    if is_const(v) and cval(v) < 128:
        return bv(1)
    n = VARLEN(v)
    ex.assume(st, z3.And(z3.UGE(n, 1), z3.ULE(n, 9)))
    return n


def find_tok(ex, st, c, i):
    """token node that starts at index i of content c and is not overwritten"""
    newer = []
    wins = []   # (lo, hi) windows of copies: token must lie inside
    while True:
        if c.k == "base":
            return None
        if c.k == "tok":
            d = cdiff(i, c.start)
            if d == 0 or (d is None and ex.proves(st, i == c.start, timeout=3000)):
                for nb, j in newer:
                    m = bv(nb.n) if isinstance(nb.n, int) else nb.n
                    if not ex.disjoint(st, j, c.n, nb.start, m):
                        return None
                for (j, lo, n) in wins:
                    if not ex.inside(st, j, c.n, lo, n):
                        return None
                return c
        if c.k == "seg":
            d = cdiff(i, c.start)
            if ex.inside(st, i, bv(1), c.start, c.n):
                wins.append((i, c.start, c.n))
                # windows are relative to this content level
                j = add(c.y, sub(i, c.start))
                # newer nodes were at this level: remember with their level index
                i = j
                c = c.x
                continue
        newer.append((c, i))
        c = c.prev


def enc_varu(ex, st, ins, a, m):
    data, datasz, posr, v = a
    pos = ex.load(st, posr, "i64", 8)
    datasz = simp(datasz)
    if data.obj != 0:
        ex.chk(st, data, cval(datasz) if is_const(datasz) else datasz, "write")
    else:
        ex.oblige(st, datasz == 0, "pre:encodeVarU64:buffer", "pre")
    n = varlen(ex, st, v)
    fits = simp(z3.And(pos >= 0, z3.ULE(pos, datasz), z3.ULE(n, datasz - pos)))

    def good(st):
        o = st.wobj(data.obj)
        i = add(bidx(data), pos)
        o.content = C("tok", o.content, i, n, Token("varu", v))
        ex.note_write(st, o.id, "bytes")
        ex.store(st, posr, add(pos, n), "i64", 8)
        return z3.BoolVal(True)

    def bad(st):
        if data.obj != 0:
            inr = simp(z3.And(pos >= 0, z3.ULT(pos, datasz)))
            if ex.feasible(st, inr):
                o = st.wobj(data.obj)
                k = simp(z3.If(inr, datasz - pos, bv(0)))
                o.content = C("seg", o.content, add(bidx(data), simp(z3.If(inr, pos, bv(0)))), k, cbase(ex.fresharr("partial")), bv(0))
                ex.note_write(st, o.id, "bytes")
        return z3.BoolVal(False)
    alts = [(fits, good), (simp(z3.Not(fits)), bad)]
    if data.obj == 0:
        alts = alts[1:]
    return Forks(alts)


def dec_varu(ex, st, ins, a, m):
    data, datalen, posr, resr = a
    pos = ex.load(st, posr, "i64", 8)
    datalen = simp(datalen)
    if data.obj == 0:
        ex.oblige(st, datalen == 0, "pre:decodeVarU64:buffer", "pre")
        return z3.BoolVal(False)
    o = ex.chk(st, data, cval(datalen) if is_const(datalen) else datalen, "read")
    if o.kind != "bytes":
        raise Unsupported("varint in non byte object %s" % o.name)
    i = add(bidx(data), pos)
    inr = simp(z3.And(pos >= 0, pos < datalen, z3.ULT(pos, datalen)))
    t = find_tok(ex, st, o.content, i)
    if t is not None and t.x.kind == "varu":
        n = t.n
        fits = simp(z3.And(inr, z3.ULE(n, datalen - pos)))
        val = t.x.val
    else:
        n = ex.fresh("dlen")
        okb = ex.freshb("dok")
        val = ex.fresh("dval")
        fits = simp(z3.And(inr, okb, z3.UGE(n, 1), z3.ULE(n, 9), z3.ULE(n, datalen - pos)))

    def good(st):
        ex.store(st, posr, add(pos, n), "i64", 8)
        ex.store(st, resr, val, "i64", 8)
        return z3.BoolVal(True)
    return Forks([(fits, good), (simp(z3.Not(fits)), lambda st: z3.BoolVal(False))])


def c_varint(ex):
    ex.add_handler(r"facebook::wdt::encodeVarU64\(char\*, unsigned long, long&, unsigned long\)$", enc_varu, "contract")
    ex.add_handler(r"facebook::wdt::decodeVarU64\(char const\*, unsigned long, long&, unsigned long&\)$", dec_varu, "contract")


LEMMAS["varint"] = ["codec:varu_encode", "codec:varu_roundtrip", "codec:varu_decode_raw"]
