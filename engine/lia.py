"""Exact-for-linear translation of bit-vector queries to linear integer arithmetic.

A term of width w is mapped to its unsigned value (an Int in [0,2^w)); sums get a
fresh wrap-around quotient, so the translation is exact for linear arithmetic,
comparisons, ite, zero/sign extension and extraction. Every other term or atom
becomes an unconstrained variable: an UNSAT answer is therefore sound, a SAT
answer means nothing.
"""
import z3

K = z3


class Lia:
    def __init__(self):
        self.bc = {}
        self.tc = {}
        self.keep = []
        self.n = 0
        self.stack = [([], set())]
        self.node = {}      # (sort, term id) -> (side constraints of this node, keys of the nodes it uses)
        self.top = {}       # condition id -> (translation, indices of all side constraints it needs)
        self.sides = []
        self.sidx = {}

    @property
    def side(self):
        return self.stack[-1][0]

    @side.setter
    def side(self, v):
        if v is not self.stack[-1][0]:
            self.stack[-1][0].extend(v)

    def cond(self, e):
        k = e.get_id()
        r = self.top.get(k)
        if r is None:
            f = self.b(e)
            todo = [("b", k)]
            seen = set(todo)
            idx = set()
            while todo:
                key = todo.pop()
                nd = self.node.get(key)
                if nd is None:
                    continue
                for c in nd[0]:
                    i = self.sidx.get(c.get_id())
                    if i is None:
                        i = self.sidx[c.get_id()] = len(self.sides)
                        self.sides.append(c)
                    idx.add(i)
                for d in nd[1]:
                    if d not in seen:
                        seen.add(d)
                        todo.append(d)
            r = self.top[k] = (f, idx)
            self.keep.append(e)
        return r

    def fi(self, pre="k"):
        self.n += 1
        return z3.Int("%s~%d" % (pre, self.n))

    def fb(self):
        self.n += 1
        return z3.Bool("ob~%d" % self.n)

    # ---- booleans
    def b(self, e):
        k = e.get_id()
        r = self.bc.get(k)
        self.stack[-1][1].add(("b", k))
        if r is None:
            self.stack.append(([], set()))
            try:
                r = self._b(e)
            finally:
                nd = self.stack.pop()
            self.node[("b", k)] = nd
            self.bc[k] = r
            self.keep.append(e)
        return r

    def _b(self, e):
        if z3.is_true(e) or z3.is_false(e):
            return e
        if not z3.is_app(e):
            return self.fb()
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_AND:
            return z3.And(*[self.b(c) for c in ch])
        if d == z3.Z3_OP_OR:
            return z3.Or(*[self.b(c) for c in ch])
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if d == z3.Z3_OP_XOR:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if d == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if d in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            if z3.is_bool(ch[0]):
                return self.b(ch[0]) == self.b(ch[1])
            if z3.is_bv(ch[0]):
                return self.t(ch[0]) == self.t(ch[1])
            if z3.is_arith(ch[0]):
                return self.ri(ch[0]) == self.ri(ch[1])
            return self.opaque_bool(e)
        if len(ch) == 2 and z3.is_arith(ch[0]):
            f = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt"}.get(d)
            if f:
                x, y = self.ri(ch[0]), self.ri(ch[1])
                return {"le": x <= y, "lt": x < y, "ge": x >= y, "gt": x > y}[f]
        if d == z3.Z3_OP_DISTINCT and len(ch) == 2 and z3.is_bv(ch[0]):
            return self.t(ch[0]) != self.t(ch[1])
        if ch and z3.is_bv(ch[0]) and len(ch) == 2:
            f = {z3.Z3_OP_ULEQ: (0, "le"), z3.Z3_OP_ULT: (0, "lt"), z3.Z3_OP_UGEQ: (0, "ge"), z3.Z3_OP_UGT: (0, "gt"),
                 z3.Z3_OP_SLEQ: (1, "le"), z3.Z3_OP_SLT: (1, "lt"), z3.Z3_OP_SGEQ: (1, "ge"), z3.Z3_OP_SGT: (1, "gt")}.get(d)
            if f:
                x, y = self.t(ch[0]), self.t(ch[1])
                if f[0]:
                    w = ch[0].size()
                    x, y = self.sg(x, w), self.sg(y, w)
                return {"le": x <= y, "lt": x < y, "ge": x >= y, "gt": x > y}[f[1]]
        if not ch and d == z3.Z3_OP_UNINTERPRETED and z3.is_bool(e):
            return e
        return self.opaque_bool(e)

    def opaque_bool(self, e):
        return self.fb()

    def sg(self, x, w):
        if z3.is_int_value(x):
            v = x.as_long()
            return z3.IntVal(v - (1 << w) if v >> (w - 1) else v)
        return z3.If(x >= (1 << (w - 1)), x - (1 << w), x)

    # ---- terms
    def t(self, e):
        k = e.get_id()
        r = self.tc.get(k)
        self.stack[-1][1].add(("t", k))
        if r is None:
            self.stack.append(([], set()))
            try:
                r = self._t(e)
            finally:
                nd = self.stack.pop()
            self.node[("t", k)] = nd
            self.tc[k] = r
            self.keep.append(e)
        return r

    # ---- reals and integers
    def ri(self, e):
        k = e.get_id()
        r = self.tc.get(k)
        self.stack[-1][1].add(("t", k))
        if r is None:
            self.stack.append(([], set()))
            try:
                r = self._ri(e)
            finally:
                nd = self.stack.pop()
            self.node[("t", k)] = nd
            self.tc[k] = r
            self.keep.append(e)
        return r

    def _ri(self, e):
        d = e.decl().kind()
        ch = e.children()
        if z3.is_rational_value(e) or z3.is_int_value(e) or (not ch and d == z3.Z3_OP_UNINTERPRETED):
            return e
        if d == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.ri(ch[1]), self.ri(ch[2]))
        if d == z3.Z3_OP_TO_REAL:
            return z3.ToReal(self.ri(ch[0]))
        if d == z3.Z3_OP_BV2INT:
            return self.t(ch[0])
        if d == z3.Z3_OP_TO_INT:
            x = self.ri(ch[0])
            n = self.fi("i")
            self.side.extend([z3.ToReal(n) <= x, x < z3.ToReal(n) + 1])
            return n
        if d == z3.Z3_OP_UMINUS:
            return -self.ri(ch[0])
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
            r = self.ri(ch[0])
            for c in ch[1:]:
                x = self.ri(c)
                r = r + x if d == z3.Z3_OP_ADD else r - x if d == z3.Z3_OP_SUB else r * x
            return r
        if d == z3.Z3_OP_DIV:
            x, y = self.ri(ch[0]), self.ri(ch[1])
            self.n += 1
            q = z3.Real("q~%d" % self.n)
            self.side.append(z3.Implies(y != 0, q * y == x))
            return q
        self.n += 1
        return z3.Real("or~%d" % self.n) if z3.is_real(e) else z3.Int("oi~%d" % self.n)

    def opaque(self, w):
        v = self.fi("o")
        self.side.append(v >= 0)
        self.side.append(v < (1 << w))
        return v

    def norm(self, s, w, lo, hi):
        """s mod 2^w where lo<=s<=hi known"""
        M = 1 << w
        if lo >= 0 and hi < M:
            return s
        k = self.fi("k")
        self.side.extend([k >= lo // M, k <= hi // M])
        r = self.fi("r")
        self.side.extend([r == s - M * k, r >= 0, r < M])
        return r

    def _t(self, e):
        w = e.size()
        M = 1 << w
        if z3.is_bv_value(e):
            return z3.IntVal(e.as_long())
        d = e.decl().kind()
        ch = e.children()
        if d in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL):
            c, at = self.flat(e, w)
            s = z3.IntVal(c)
            lo = hi = c
            parts = [z3.IntVal(c)] if c else []
            for m, x in at:
                parts.append(self.t(x) * m if m != 1 else self.t(x))
                if m > 0:
                    hi += m * (M - 1)
                else:
                    lo += m * (M - 1)
            if not parts:
                return z3.IntVal(0)
            s = z3.Sum(parts) if len(parts) > 1 else parts[0]
            return self.norm(s, w, lo, hi)
        if d == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.t(ch[1]), self.t(ch[2]))
        if d == z3.Z3_OP_ZERO_EXT:
            return self.t(ch[0])
        if d == z3.Z3_OP_SIGN_EXT:
            x = self.t(ch[0])
            w0 = ch[0].size()
            return z3.If(x >= (1 << (w0 - 1)), x + (M - (1 << w0)), x)
        if d == z3.Z3_OP_CONCAT:
            last = ch[-1]
            w0 = last.size()
            if all(c.size() == 1 and z3.is_app(c) and c.decl().kind() == z3.Z3_OP_EXTRACT and c.params() == [w0 - 1, w0 - 1] and c.arg(0).eq(last) for c in ch[:-1]):
                x = self.t(last)
                return z3.If(x >= (1 << (w0 - 1)), x + (M - (1 << w0)), x)
            # sign bit repeated over a low part that was itself split
            s = None
            for c in ch:
                x = self.t(c)
                s = x if s is None else s * (1 << c.size()) + x
            return s
        if d == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            x = self.t(ch[0])
            wx = ch[0].size()
            return self.bits(x, wx, hi, lo)
        if d == z3.Z3_OP_BAND and len(ch) == 2:
            for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                if z3.is_bv_value(b):
                    v = b.as_long()
                    if v & (v + 1) == 0:
                        n = v.bit_length()
                        return self.bits(self.t(a), w, n - 1, 0) if n else z3.IntVal(0)
        if d in (z3.Z3_OP_BLSHR,) and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            return self.bits(self.t(ch[0]), w, w - 1, n) if n < w else z3.IntVal(0)
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n >= w:
                return z3.IntVal(0)
            return self.bits(self.t(ch[0]), w, w - 1 - n, 0) * (1 << n)
        if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            c = ch[1].as_long()
            x = self.t(ch[0])
            q, r = self.fi("q"), self.fi("r")
            self.side.extend([x == q * c + r, q >= 0, r >= 0, r < c])
            return q if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
        if d in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I) and z3.is_bv_value(ch[1]) and 0 < ch[1].as_long() < (1 << (w - 1)):
            c = ch[1].as_long()
            x = self.sg(self.t(ch[0]), w)
            q, r = self.fi("q"), self.fi("r")
            self.side.extend([x == q * c + r, z3.If(x >= 0, z3.And(r >= 0, r < c), z3.And(r <= 0, r > -c))])
            v = q if d in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I) else r
            return z3.If(v < 0, v + M, v)
        if d == z3.Z3_OP_INT2BV:
            k, r = self.fi("k"), self.fi("r")
            self.side.extend([r == self.ri(ch[0]) - M * k, r >= 0, r < M])
            return r
        if not ch and d == z3.Z3_OP_UNINTERPRETED:
            v = z3.Int("v~" + e.decl().name())
            self.side.extend([v >= 0, v < M])
            return v
        return self.opaque(w)

    def bits(self, x, wx, hi, lo):
        # x = a*2^(hi+1) + m*2^lo + r
        if lo == 0 and hi == wx - 1:
            return x
        m = self.fi("m")
        parts = m * (1 << lo)
        self.side.extend([m >= 0, m < (1 << (hi - lo + 1))])
        if hi < wx - 1:
            a = self.fi("a")
            self.side.extend([a >= 0, a < (1 << (wx - 1 - hi))])
            parts = parts + a * (1 << (hi + 1))
        if lo > 0:
            r = self.fi("r")
            self.side.extend([r >= 0, r < (1 << lo)])
            parts = parts + r
        self.side.append(x == parts)
        return m

    def flat(self, e, w):
        M = 1 << w
        acc = {}
        c = 0

        def go(x, m):
            nonlocal c
            if z3.is_bv_value(x):
                c += m * x.as_long()
                return
            k = x.decl().kind()
            if k == z3.Z3_OP_BADD:
                for a in x.children():
                    go(a, m)
                return
            if k == z3.Z3_OP_BSUB and x.num_args() == 2:
                go(x.arg(0), m)
                go(x.arg(1), -m)
                return
            if k == z3.Z3_OP_BNEG:
                go(x.arg(0), -m)
                return
            if k == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
                go(x.arg(1), m * x.arg(0).as_long())
                return
            i = x.get_id()
            v = acc.get(i, (0, x))[0] + m
            acc[i] = (v, x)
        if e.decl().kind() == z3.Z3_OP_BMUL and not (e.num_args() == 2 and z3.is_bv_value(e.arg(0))):
            return 0, [(1, z3.BitVec("nl~%d" % e.get_id(), w))]
        go(e, 1)

        def sgn(v):
            v %= M
            return v - M if v > M // 2 else v
        c = sgn(c)
        return c, [(sgn(v), x) for v, x in acc.values() if sgn(v)]


def unsat(L, conds, timeout):
    """"unsat" if conds are unsatisfiable already in the linear integer abstraction"""
    idx = set()
    fs = []
    for c in conds:
        f, i = L.cond(c)
        fs.append(f)
        idx |= i
    s = z3.Solver()
    s.set("timeout", timeout)
    if idx:
        s.add(*[L.sides[i] for i in sorted(idx)])
    s.add(*fs)
    return str(s.check())
