"""Trusted contracts of the C++ library classes used by the code under proof.

std::string  -> Abs('string', buf=object id of the bytes (size len+1, NUL terminated), len)
std::vector  -> Abs('vec', buf=object id or 0, len, stride, cap)   buf is a 'struct' object when the length
                is concrete ('list' representation) or an 'arr' object when it is symbolic.
"""
import re
import z3
from mem import *
from vcg import *
from spec import cstr, cstrlen, cname

S = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
SE = re.escape(S)


# ------------------------------------------------------------------ strings
def fresh_string(ex, st, name, n=None):
    """arbitrary string"""
    if n is None:
        n = ex.fresh("len_" + name)
        ex.assume(st, z3.ULT(n, bv(1 << 40)))
    arr = ex.fresharr("str_" + name)
    o = ex.newobj(st, "str(%s)" % name, simp(n + 1), "bytes")
    o.content = C("int", cbase(arr), n, 1, bv(0, 8))
    return Abs("string", buf=o.id, len=n), arr


def const_string(ex, st, s):
    b = s.encode("latin1") if isinstance(s, str) else s
    o = ex.newobj(st, "str(const)", len(b) + 1, "bytes")
    c = cbase(ex.fresharr("cstr"))
    for i, x in enumerate(b + b"\0"):
        c = C("int", c, bv(i), 1, bv(x, 8))
    o.content = c
    return Abs("string", buf=o.id, len=bv(len(b)))


def getstr(ex, st, p, what="read"):
    if not isinstance(p, Ptr):
        raise Unsupported("string through %r" % (p,))
    o = ex.chk(st, p, 32, what)
    if p.idx is not None:
        raise Unsupported("string at symbolic index in %s" % o.name)
    a = o.abs.get(p.off)
    if a is None:
        if o.sym:
            a, arr = fresh_string(ex, st, "%s_%d" % (o.name, p.off))
            st.wobj(p.obj).abs[p.off] = a
            return a
        raise Unsupported("uninitialised string %s+%d" % (o.name, p.off))
    if a.kind != "string":
        raise Unsupported("not a string: %r" % a)
    return a


def setabs(ex, st, p, a, size):
    o = ex.chk(st, p, size, "write")
    if p.idx is not None:
        raise Unsupported("library object at symbolic index")
    o = st.wobj(p.obj)
    ex.clobber(st, o, p.off, size)
    o.abs[p.off] = a
    ex.note_write(st, o.id, ("abs", p.off))


def setstr(ex, st, p, a):
    setabs(ex, st, p, a, 32)


def bidx(p):
    return add(p.idx if p.idx is not None else bv(0), bv(p.off))


def str_from(ex, st, p, n):
    """new string holding the n bytes at p"""
    n = simp(n) if not isinstance(n, int) else bv(n)
    o = ex.newobj(st, "str", simp(n + 1), "bytes")
    o.content = cbase(ex.fresharr("str"))
    ex.memcopy(st, Ptr(o.id), p, cval(n) if is_const(n) else n, "string-copy")
    o = st.wobj(o.id)
    o.content = C("int", o.content, n, 1, bv(0, 8))
    if is_const(n):
        o.size = cval(n) + 1
    return Abs("string", buf=o.id, len=n)


def str_content(ex, st, a):
    return st.obj(a.get("buf")).content


def str_copy(ex, st, a):
    return str_from(ex, st, Ptr(a.get("buf")), a.get("len"))


def str_concat(ex, st, a, p, n):
    """a ++ bytes [p,p+n)"""
    la = a.get("len")
    tot = simp(la + n)
    o = ex.newobj(st, "str", simp(tot + 1), "bytes")
    o.content = cbase(ex.fresharr("str"))
    ex.assume(st, z3.ULT(tot, bv(1 << 62)))
    ex.memcopy(st, Ptr(o.id), Ptr(a.get("buf")), cval(la) if is_const(la) else la, "string-copy")
    if isinstance(p, Ptr):
        ex.memcopy(st, ex.gep(st, Ptr(o.id), 0, [(la, 1)]), p, cval(n) if is_const(n) else n, "string-copy")
        o = st.wobj(o.id)
    else:
        o = st.wobj(o.id)
        o.content = C("int", o.content, la, 1, p)
    o.content = C("int", o.content, tot, 1, bv(0, 8))
    if is_const(tot):
        o.size = cval(tot) + 1
    return Abs("string", buf=o.id, len=tot)


def str_const(ex, st, a):
    """python bytes if the string is fully concrete"""
    n = a.get("len")
    if not is_const(n) or cval(n) > 4096:
        return None
    c = str_content(ex, st, a)
    out = []
    for i in range(cval(n)):
        b = ex.readbyte(st, c, bv(i))
        if not is_const(b):
            return None
        out.append(cval(b))
    return bytes(out)


def str_eq(ex, st, a, b):
    """Bool term for string equality"""
    if a.get("buf") == b.get("buf"):
        return z3.BoolVal(True)
    la, lb = a.get("len"), b.get("len")
    d = ex.decide(st, la == lb)
    if d is False:
        return z3.BoolVal(False)
    ca, cb = str_content(ex, st, a), str_content(ex, st, b)
    for n in (la, lb):
        if is_const(n):
            if cval(n) > 256:
                break
            return simp(z3.And(la == lb, *[ex.readbyte(st, ca, bv(i)) == ex.readbyte(st, cb, bv(i)) for i in range(cval(n))]))
    # symbolic length: same origin?
    ra, ia = ex.root(st, ca, bv(0), la)
    rb, ib = ex.root(st, cb, bv(0), lb)
    if ra is rb or (ra.k == "base" and rb.k == "base" and ra.x.eq(rb.x)):
        if ex.decide(st, ia == ib) is True:
            return simp(la == lb)
    # opaque equality of two origins: one boolean per pair (congruence with length)
    ka = (ra.x.get_id() if ra.k == "base" else id(ra), ia.get_id(), la.get_id())
    kb = (rb.x.get_id() if rb.k == "base" else id(rb), ib.get_id(), lb.get_id())
    key = ("streq", frozenset((ka, kb)))
    e = ex.o.setdefault("_streq", {}).get(key)
    if e is None:
        e = ex.freshb("streq")
        ex.o["_streq"][key] = e
        ex.o.setdefault("_keep", []).append((ra, ia, la, rb, ib, lb))
    ex.assume(st, z3.Implies(e, la == lb))
    ex.assume(st, z3.Implies(z3.And(la == 0, lb == 0), e))
    return e


def vp_same_string(ex, st, ins, a, m):
    """goal form: equal length and equal bytes at an arbitrary position"""
    x, y = getstr(ex, st, a[0]), getstr(ex, st, a[1])
    la, lb = x.get("len"), y.get("len")
    if ex.decide(st, la == lb) is False:
        return z3.BoolVal(False)
    t = simp(z3.And(la == lb, ex.same_bytes(st, str_content(ex, st, x), bv(0), str_content(ex, st, y), bv(0), la)))
    if z3.is_true(t) or ex.o.get("_streq") is None:
        return t
    # the program may have compared them itself
    return simp(z3.Or(t, str_eq(ex, st, x, y)))


def cptr_str(ex, st, p):
    n = cstrlen(ex, st, p)
    return str_from(ex, st, p, n)


def install_strings(ex):
    A = ex.add_handler
    T = "libstdc++ std::string"

    def H(rx, f):
        A(SE + "::" + rx, f, T)

    def vpstr(ex, st, ins, a, m):
        nm = cname(ex, st, a[1])
        n = ex.fresh("in_%s_len" % nm)
        ex.assume(st, z3.ULT(n, bv(1 << 40)))
        s, arr = fresh_string(ex, st, nm, n)
        st.trace = st.trace + [(nm + ".len", n, "size"), (nm, (arr, n), "bytes")]
        setstr(ex, st, a[0], s)

    A(r"vp_str\(char const\*\)", vpstr, "spec")
    A(r"vp_same_string\(", vp_same_string, "spec")

    def empty(ex, st, ins, a, m):
        setstr(ex, st, a[0], const_string(ex, st, ""))

    def fromc(ex, st, ins, a, m):
        setstr(ex, st, a[0], cptr_str(ex, st, a[1]))

    def frompn(ex, st, ins, a, m):
        setstr(ex, st, a[0], str_from(ex, st, a[1], a[2]))

    def copy(ex, st, ins, a, m):
        setstr(ex, st, a[0], str_copy(ex, st, getstr(ex, st, a[1])))

    def move(ex, st, ins, a, m):
        if isinstance(a[1], Ptr) and a[0].same(a[1]):
            return
        setstr(ex, st, a[0], getstr(ex, st, a[1]))
        setstr(ex, st, a[1], const_string(ex, st, ""))

    def dtor(ex, st, ins, a, m):
        o = st.obj(a[0].obj)
        s = o.abs.get(a[0].off)
        if s is not None and s.kind == "string" and s.get("buf") in st.mem:
            st.wobj(s.get("buf")).freed = True

    def retthis(f):
        def g(ex, st, ins, a, m):
            f(ex, st, ins, a, m)
            return a[0]
        return g

    def size(ex, st, ins, a, m):
        return getstr(ex, st, a[0]).get("len")

    def data(ex, st, ins, a, m):
        return Ptr(getstr(ex, st, a[0]).get("buf"))

    def isempty(ex, st, ins, a, m):
        return simp(getstr(ex, st, a[0]).get("len") == 0)

    def index(ex, st, ins, a, m):
        s = getstr(ex, st, a[0])
        ex.oblige(st, z3.ULE(a[1], s.get("len")), "mem:%s:string-index" % ex.codesite(st), "bounds")
        return ex.gep(st, Ptr(s.get("buf")), 0, [(a[1], 1)])

    def back(ex, st, ins, a, m):
        s = getstr(ex, st, a[0])
        ex.oblige(st, s.get("len") != 0, "mem:%s:string-back" % ex.codesite(st), "bounds")
        return ex.gep(st, Ptr(s.get("buf")), 0, [(simp(s.get("len") - 1), 1)])

    def end(ex, st, ins, a, m):
        s = getstr(ex, st, a[0])
        return ex.gep(st, Ptr(s.get("buf")), 0, [(s.get("len"), 1)])

    def appendpn(ex, st, ins, a, m):
        setstr(ex, st, a[0], str_concat(ex, st, getstr(ex, st, a[0]), a[1], simp(a[2])))
        return a[0]

    def appendc(ex, st, ins, a, m):
        n = cstrlen(ex, st, a[1])
        setstr(ex, st, a[0], str_concat(ex, st, getstr(ex, st, a[0]), a[1], n))
        return a[0]

    def appends(ex, st, ins, a, m):
        s = getstr(ex, st, a[1])
        setstr(ex, st, a[0], str_concat(ex, st, getstr(ex, st, a[0]), Ptr(s.get("buf")), s.get("len")))
        return a[0]

    def pushc(ex, st, ins, a, m):
        setstr(ex, st, a[0], str_concat(ex, st, getstr(ex, st, a[0]), a[1], bv(1)))
        return a[0] if ins["t"] != "void" else None

    def resize(ex, st, ins, a, m):
        s = getstr(ex, st, a[0])
        n = simp(a[1])
        o = ex.newobj(st, "str", simp(n + 1), "bytes")
        o.content = C("fill", cbase(ex.fresharr("str")), bv(0), n, bv(0, 8))
        if is_const(n):
            o.size = cval(n) + 1
        k = simp(z3.If(z3.ULT(n, s.get("len")), n, s.get("len")))
        ex.memcopy(st, Ptr(o.id), Ptr(s.get("buf")), cval(k) if is_const(k) else k, "string-copy")
        o = st.wobj(o.id)
        o.content = C("int", o.content, n, 1, bv(0, 8))
        setstr(ex, st, a[0], Abs("string", buf=o.id, len=n))

    def substr(ex, st, ins, a, m):
        s = getstr(ex, st, a[1])
        pos, n = a[2], a[3]
        L = s.get("len")

        def ok(st):
            k = simp(z3.If(z3.ULT(n, L - pos), n, L - pos))
            setstr(ex, st, a[0], str_from(ex, st, ex.gep(st, Ptr(s.get("buf")), 0, [(pos, 1)]), k))
        return Forks([(simp(z3.ULE(pos, L)), ok), (simp(z3.UGT(pos, L)), lambda st: ex.throw(st, ins, "std::out_of_range substr"))])

    def assignsub(ex, st, ins, a, m):
        s = getstr(ex, st, a[1])
        pos, n = a[2], a[3]
        L = s.get("len")

        def ok(st):
            k = simp(z3.If(z3.ULT(n, L - pos), n, L - pos))
            setstr(ex, st, a[0], str_from(ex, st, ex.gep(st, Ptr(s.get("buf")), 0, [(pos, 1)]), k))
            return a[0]
        return Forks([(simp(z3.ULE(pos, L)), ok), (simp(z3.UGT(pos, L)), lambda st: ex.throw(st, ins, "std::out_of_range assign"))])

    def compare(ex, st, ins, a, m):
        x, y = getstr(ex, st, a[0]), getstr(ex, st, a[1])
        e = str_eq(ex, st, x, y)
        r = ex.fresh("strcmp", 32)
        ex.assume(st, (r == 0) == e)
        return r

    def comparec(ex, st, ins, a, m):
        x = getstr(ex, st, a[0])
        y = cptr_str(ex, st, a[1])
        e = str_eq(ex, st, x, y)
        r = ex.fresh("strcmp", 32)
        ex.assume(st, (r == 0) == e)
        return r

    def find(ex, st, ins, a, m):
        s = getstr(ex, st, a[0])
        r = ex.fresh("find")
        L = s.get("len")
        ex.assume(st, z3.Or(r == bv(-1), z3.ULT(r, L)))
        # the first occurrence of a constant, related to the positions the harness asks about (inputs named at...)
        nd = None
        if m.group(1) == "find" and len(a) == 3:
            if not isinstance(a[1], Ptr):
                nd = [simp(z3.Extract(7, 0, a[1]))]
            elif "char const*" in m.string[m.start():]:
                b = str_const(ex, st, cptr_str(ex, st, a[1]))
                nd = None if b is None else [bv(x, 8) for x in b]
        if nd:
            c = str_content(ex, st, s)
            k = bv(len(nd))

            def occ(t):
                return z3.And(z3.ULE(a[2], t), z3.ULE(k, L), z3.ULE(t, L - k), *[ex.readbyte(st, c, simp(t + i)) == x for i, x in enumerate(nd)])
            ex.assume(st, simp(z3.Or(r == bv(-1), occ(r))))
            for nm, t, kind in list(st.trace):
                if nm.startswith("at") and z3.is_bv(t) and t.size() == 64:
                    ex.assume(st, simp(z3.Implies(z3.ULT(t, r), z3.Not(occ(t)))))
        return r

    H(r"basic_string\(\)$", empty)
    H(r"basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)$", fromc)
    H(r"basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$", frompn)
    H(r"basic_string\(" + SE + r" const&\)$", copy)
    H(r"basic_string\(" + SE + r"&&\)$", move)
    H(r"~basic_string\(\)$", dtor)
    H(r"(operator=|assign)\(" + SE + r" const&\)$", retthis(copy))
    H(r"(operator=|assign)\(" + SE + r"&&\)$", retthis(move))
    H(r"(operator=|assign)\(char const\*\)$", retthis(fromc))
    H(r"assign\(char const\*, unsigned long\)$", retthis(frompn))
    H(r"assign\(" + SE + r" const&, unsigned long, unsigned long\)$", assignsub)
    H(r"(size|length)\(\) const$", size)
    H(r"(data|c_str)\(\)( const)?$", data)
    H(r"(begin|cbegin)\(\)( const)?$", data)
    H(r"(end|cend)\(\)( const)?$", end)
    H(r"front\(\)( const)?$", data)
    H(r"empty\(\) const$", isempty)
    H(r"operator\[\]\(unsigned long\)( const)?$", index)
    H(r"at\(unsigned long\)( const)?$", index)
    H(r"back\(\)( const)?$", back)
    H(r"append\(char const\*, unsigned long\)$", appendpn)
    H(r"(append|operator\+=)\(char const\*\)$", appendc)
    H(r"(append|operator\+=)\(" + SE + r" const&\)$", appends)
    H(r"(push_back|operator\+=)\(char\)$", pushc)
    H(r"clear\(\)$", empty)
    H(r"reserve\(", lambda ex, st, ins, a, m: None)
    H(r"resize\(unsigned long\)$", resize)
    H(r"substr\(unsigned long, unsigned long\) const$", substr)
    H(r"compare\(" + SE + r" const&\) const$", compare)
    H(r"compare\(char const\*\) const$", comparec)
    H(r"(find|rfind|find_first_of|find_last_of)\(", find)

    def eqss(ex, st, ins, a, m):
        e = str_eq(ex, st, getstr(ex, st, a[0]), getstr(ex, st, a[1]))
        return e if m.group(1) == "==" else simp(z3.Not(e))

    def eqsc(ex, st, ins, a, m):
        e = str_eq(ex, st, getstr(ex, st, a[0]), cptr_str(ex, st, a[1]))
        return e if m.group(1) == "==" else simp(z3.Not(e))

    BS = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
    BSE = re.escape(BS)
    A(r"bool std::operator(==|!=)<char.*\(" + BSE + " const&, " + BSE + r" const&\)$", eqss, T)
    A(r"bool std::operator(==|!=)<char.*\(" + BSE + r" const&, char const\*\)$", eqsc, T)

    def plus(ex, st, ins, a, m):
        d = m.string
        args = d[d.rindex("("):] if False else d
        l = a[1]
        r = a[2]
        # decide argument kinds from the demangled parameter list
        pl = d[d.index("(", d.index("operator+")) + 1:]
        lstr = pl.startswith("std::")
        rest = pl.split(", ")
        rstr = pl.rstrip(")").endswith("&") or pl.rstrip(")").endswith("&&")
        rchar = pl.rstrip(")").endswith(", char")
        x = getstr(ex, st, l) if lstr else cptr_str(ex, st, l)
        if rstr:
            y = getstr(ex, st, r)
            z = str_concat(ex, st, x, Ptr(y.get("buf")), y.get("len"))
        elif rchar:
            z = str_concat(ex, st, x, r, bv(1))
        else:
            z = str_concat(ex, st, x, r, cstrlen(ex, st, r))
        setstr(ex, st, a[0], z)
    A(BSE + r" std::operator\+<char", plus, T)

    def tostring(ex, st, ins, a, m):
        v = simp(a[1])
        w = v.size()
        if is_const(v):
            setstr(ex, st, a[0], const_string(ex, st, str(to_signed(cval(v), w) if not m.group(1).startswith("unsigned") else cval(v))))
            return
        f = z3.Function("dec_len_%d" % w, z3.BitVecSort(w), BV64)
        n = f(v)
        s, arr = fresh_string(ex, st, "tostring", n)
        ex.assume(st, z3.And(z3.UGE(n, 1), z3.ULE(n, 20)))
        setstr(ex, st, a[0], s)
    A(r"std::(?:__cxx11::)?to_string\((.*)\)$", tostring, T)
    A(r"std::allocator<char>::~?allocator\(", lambda ex, st, ins, a, m: None, T)


# ------------------------------------------------------------------ vectors
VRX = re.compile(r"std::vector<(.*), std::allocator<\1 ?> >::(?!iterator)(.*)$")


def vec_elem(d):
    """element type and method of a std::vector method"""
    m = VRX.match(d)
    return (m.group(1), m.group(2)) if m else (None, None)


def install_vectors(ex):
    T = "libstdc++ std::vector"

    def getvec(ex, st, p, what="read"):
        o = ex.chk(st, p, 24, what)
        if p.idx is not None:
            raise Unsupported("vector at symbolic index")
        a = o.abs.get(p.off)
        if a is None:
            raise Unsupported("uninitialised vector %s+%d" % (o.name, p.off))
        return a

    def stride_of(ex, el):
        n = ex.mod.sizeof(el)
        if n is None:
            raise Unsupported("size of " + el)
        return n

    def newvec(ex, st, el):
        return Abs("vec", buf=0, len=bv(0), stride=stride_of(ex, el), el=el)

    def put(ex, st, p, a):
        setabs(ex, st, p, a, 24)

    ex.getvec, ex.newvec, ex.putvec = getvec, newvec, put

    def elptr(ex, st, a, i):
        if a.get("buf") == 0:
            return NULL
        o = st.obj(a.get("buf"))
        if o.kind == "arr":
            return Ptr(o.id, 0, i)
        return ex.gep(st, Ptr(o.id), 0, [(i, a.get("stride"))])

    def grow(ex, st, a, extra=1):
        """new backing object with room for len+extra elements, old contents copied"""
        n = a.get("len")
        s = a.get("stride")
        if is_const(n) and (a.get("buf") == 0 or st.obj(a.get("buf")).kind == "struct"):
            o = ex.newobj(st, "vec", (cval(n) + extra) * s, "struct")
            if a.get("buf"):
                ob = st.obj(a.get("buf"))
                o.cells = dict(ob.cells)
                o.abs = dict(ob.abs)
                o.sym = ob.sym
            return o
        ob = st.obj(a.get("buf"))
        o = ex.newobj(st, "vec", simp(n + extra), "arr", s)
        o.arrays = dict(ob.arrays)
        return o

    def construct_call(ex, name):
        """the allocator construct call inside push_back/emplace_back's body"""
        fn = ex.mod.fn[name]
        for b in fn.get("blocks", []):
            for i in b:
                if i["o"] in ("call", "invoke") and i["f"][0] == "f":
                    g = ex.mod.fn.get(i["f"][1])
                    if g and "::construct<" in g["d"] and "allocator_traits" in g["d"]:
                        return g
                    if g and "::emplace_back<" in g["d"]:
                        return construct_call(ex, g["n"])
        return None

    def emplace(ex, st, ins, a, m):
        el, meth = vec_elem(m.string)
        name = m_name(ex, ins, st)
        v = getvec(ex, st, a[0], "write")
        g = construct_call(ex, name)
        if g is None:
            raise Unsupported("construct call in " + m.string)
        n = v.get("len")
        o = grow(ex, st, v)
        nv = v.with_(buf=o.id, len=simp(n + 1))
        ret_ref = ins["t"] == "ptr"
        if o.kind == "arr":
            t = ex.newobj(st, "elemtmp", v.get("stride"), "struct")

            def cont(ex, st, val):
                dst = Ptr(o.id, 0, n)
                oo = st.obj(t.id)
                w = st.wobj(o.id)
                for k, (s, x) in oo.cells.items():
                    if not z3.is_bv(x):
                        raise Unsupported("non integer element in symbolic vector")
                    if k in w.arrays and w.arrays[k][0] == s:
                        w.arrays[k] = (s, z3.Store(w.arrays[k][1], n, x))
                    else:
                        w.arrays[k] = (s, z3.Store(ex.fresharr("vec_f%d" % k, 8 * s), n, x))
                put(ex, st, a[0], nv)
                st.wobj(t.id).freed = True
                return dst if ret_ref else None
            tp = Ptr(t.id)
        else:
            tp = Ptr(o.id, cval(n) * v.get("stride"))

            def cont(ex, st, val):
                put(ex, st, a[0], nv)
                return tp if ret_ref else None
        gargs = [a[0], tp] + list(a[1:])
        ga = g["args"]
        ex.push(st, g, gargs[:len(ga)], ins, cont)
        return PUSHED

    def m_name(ex, ins, st):
        f = ins["f"]
        return f[1] if f[0] == "f" else ex.val(st, f).name

    def default(ex, st, ins, a, m):
        put(ex, st, a[0], newvec(ex, st, vec_elem(m.string)[0]))

    def copyvec(ex, st, v):
        if v.get("buf") == 0:
            return v
        ob = st.obj(v.get("buf"))
        if ob.kind == "arr":
            o = ex.newobj(st, "vec", v.get("len"), "arr", v.get("stride"))
            o.arrays = dict(ob.arrays)
            return v.with_(buf=o.id)
        o = ex.newobj(st, "vec", ob.size, "struct")
        o.cells = dict(ob.cells)
        o.sym = ob.sym
        for k, x in ob.abs.items():
            if x.kind == "string":
                o.abs[k] = str_copy(ex, st, x)
            elif x.kind == "vec":
                o.abs[k] = copyvec(ex, st, x)
            else:
                raise Unsupported("copy of vector of " + x.kind)
        return v.with_(buf=o.id)

    def copy(ex, st, ins, a, m):
        put(ex, st, a[0], copyvec(ex, st, getvec(ex, st, a[1])))
        return a[0] if ins["t"] == "ptr" else None

    def move(ex, st, ins, a, m):
        v = getvec(ex, st, a[1])
        put(ex, st, a[0], v)
        if not a[0].same(a[1]):
            put(ex, st, a[1], v.with_(buf=0, len=bv(0)))
        return a[0] if ins["t"] == "ptr" else None

    def dtor(ex, st, ins, a, m):
        o = st.obj(a[0].obj)
        v = o.abs.get(a[0].off)
        if v is not None and v.get("buf"):
            st.wobj(v.get("buf")).freed = True

    def size(ex, st, ins, a, m):
        return getvec(ex, st, a[0]).get("len")

    def isempty(ex, st, ins, a, m):
        return simp(getvec(ex, st, a[0]).get("len") == 0)

    def begin(ex, st, ins, a, m):
        v = getvec(ex, st, a[0])
        return elptr(ex, st, v, bv(0))

    def end(ex, st, ins, a, m):
        v = getvec(ex, st, a[0])
        return elptr(ex, st, v, v.get("len"))

    def index(ex, st, ins, a, m):
        v = getvec(ex, st, a[0])
        ex.oblige(st, z3.ULT(a[1], v.get("len")), "mem:%s:vector-index" % ex.codesite(st), "bounds")
        if v.get("buf") == 0:
            raise PathEnd("empty")
        o = st.obj(v.get("buf"))
        i = a[1]
        if o.kind == "struct" and not is_const(i) and cval(v.get("len")) <= 16:
            n = cval(v.get("len"))
            return Forks([(simp(i == bv(k)), (lambda k: lambda s: elptr(ex, s, v, bv(k)))(k)) for k in range(n)])
        return elptr(ex, st, v, i)

    def back(ex, st, ins, a, m):
        v = getvec(ex, st, a[0])
        ex.oblige(st, v.get("len") != 0, "mem:%s:vector-back" % ex.codesite(st), "bounds")
        return elptr(ex, st, v, simp(v.get("len") - 1))

    def front(ex, st, ins, a, m):
        v = getvec(ex, st, a[0])
        ex.oblige(st, v.get("len") != 0, "mem:%s:vector-front" % ex.codesite(st), "bounds")
        return elptr(ex, st, v, bv(0))

    def clear(ex, st, ins, a, m):
        v = getvec(ex, st, a[0], "write")
        put(ex, st, a[0], v.with_(buf=0, len=bv(0)))

    def popback(ex, st, ins, a, m):
        v = getvec(ex, st, a[0], "write")
        ex.oblige(st, v.get("len") != 0, "mem:%s:vector-pop" % ex.codesite(st), "bounds")
        put(ex, st, a[0], v.with_(len=simp(v.get("len") - 1)))

    def resize(ex, st, ins, a, m):
        v = getvec(ex, st, a[0], "write")
        n = simp(a[1])
        if not is_const(n) or cval(n) > 4096:
            if v.get("buf") == 0 or st.obj(v.get("buf")).kind == "arr":
                o = ex.newobj(st, "vec", n, "arr", v.get("stride"))
                put(ex, st, a[0], v.with_(buf=o.id, len=n))
                return
            raise Unsupported("vector resize to symbolic size")
        if v.get("buf") != 0 and st.obj(v.get("buf")).kind == "arr":
            raise Unsupported("resize of symbolic vector")
        o = ex.newobj(st, "vec", cval(n) * v.get("stride"), "struct")
        if v.get("buf"):
            ob = st.obj(v.get("buf"))
            lim = min(cval(n), cval(v.get("len"))) * v.get("stride")
            o.cells = {k: c for k, c in ob.cells.items() if k < lim}
            o.abs = {k: c for k, c in ob.abs.items() if k < lim}
        for k in range(cval(v.get("len")) * v.get("stride"), cval(n) * v.get("stride")):
            o.cells[k] = (1, bv(0, 8))
        # integers are read as whole words
        el = v.get("el")
        put(ex, st, a[0], v.with_(buf=o.id, len=n))

    def erase(ex, st, ins, a, m):
        raise Unsupported("vector erase")

    def disp(ex, st, ins, a, m):
        el, meth = vec_elem(m.string)
        for rx, f in table:
            if rx.match(meth):
                return f(ex, st, ins, a, m)
        name = m_name(ex, ins, st)
        fn = ex.mod.fn.get(name)
        raise Unsupported("vector method " + m.string)

    table = [(re.compile(r), f) for r, f in [
        (r"vector\(\)$", default),
        (r"vector\(std::vector<.*&&\)$", move),
        (r"vector\(std::vector<.* const&\)$", copy),
        (r"~vector\(\)$", dtor),
        (r"operator=\(std::vector<.* const&\)$", copy),
        (r"operator=\(std::vector<.*&&\)$", move),
        (r"size\(\) const$", size),
        (r"empty\(\) const$", isempty),
        (r"(begin|cbegin|data)\(\)( const)?$", begin),
        (r"(end|cend)\(\)( const)?$", end),
        (r"operator\[\]\(unsigned long\)( const)?$", index),
        (r"at\(unsigned long\)( const)?$", index),
        (r"back\(\)( const)?$", back),
        (r"front\(\)( const)?$", front),
        (r"clear\(\)$", clear),
        (r"reserve\(", lambda ex, st, ins, a, m: None),
        (r"pop_back\(\)$", popback),
        (r"resize\(unsigned long\)$", resize),
        (r"push_back\(", emplace),
        (r"erase\(", erase),
    ]]
    ex.add_handler(r"std::vector<.*> >::(vector|~vector|operator=|operator\[\]|size|empty|begin|end|cbegin|cend|data|at|back|front|clear|reserve|"
                   r"pop_back|resize|push_back|erase|insert|swap|assign)\(", disp, T)

    def emplace_d(ex, st, ins, a, m):
        # demangled template methods carry the return type first
        d = m.string[m.string.index("std::vector<"):]
        class M:
            string = d
        # strip template args of emplace_back
        return emplace(ex, st, ins, a, M)
    ex.add_handler(r"(.* )?std::vector<.*> >::emplace_back<", emplace_d, T)

    def vpvec(ex, st, ins, a, m):
        # vp_vec_(vector*, name, elem size, field spec) : arbitrary length and contents
        nm = cname(ex, st, a[1])
        s = cval(a[2])
        spec_ = cname(ex, st, a[3])
        n = ex.fresh("in_%s_n" % nm)
        ex.assume(st, z3.ULT(n, bv(1 << 32)))
        o = ex.newobj(st, "vec(%s)" % nm, n, "arr", s)
        fl = []
        for f in spec_.split(","):
            off, sz = f.rstrip("b").split(":")
            off, sz = int(off), int(sz)
            o.arrays[off] = (sz, ex.fresharr("in_%s_f%d" % (nm, off), 8 * sz))
            fl.append((off, sz))
        st.trace = st.trace + [(nm + ".n", n, "size"), (nm, (n, [o.arrays[f[0]][1] for f in fl]), "vec")]
        put(ex, st, a[0], Abs("vec", buf=o.id, len=n, stride=s, el="?"))
    ex.add_handler(r"vp_vec_$", vpvec, "spec")


def install(ex):
    install_strings(ex)
    install_vectors(ex)


def install_misc(ex):
    """std::set<std::string>: only its size is ever used (a value between 0/1 and the number of insertions)"""
    T = "libstdc++ std::set"
    SS = r"std::set<std::__cxx11::basic_string<char.*?std::allocator<char> >, std::less<.*>, std::allocator<.*> >::"

    def ctor(ex, st, ins, a, m):
        setabs(ex, st, a[0], Abs("strset", n=bv(0)), 48)

    def insert(ex, st, ins, a, m):
        p = a[0]
        if ins["t"] == "void":
            p = a[1]
        s = st.obj(p.obj).abs[p.off]
        n = ex.fresh("setsize")
        ex.assume(st, z3.And(z3.UGE(n, s.get("n")), z3.UGE(n, 1), z3.ULE(n, s.get("n") + 1)))
        st.wobj(p.obj).abs[p.off] = s.with_(n=n)
        ty = ins["t"]
        if isinstance(ty, dict):
            return Agg([NULL, bv(0, 8)])
        return NULL if ty != "void" else None

    def size(ex, st, ins, a, m):
        return st.obj(a[0].obj).abs[a[0].off].get("n")
    ex.add_handler(SS + r"set\(\)", ctor, T)
    ex.add_handler(SS + r"~set\(\)", lambda ex, st, ins, a, m: None, T)
    ex.add_handler(SS + r"insert\(", insert, T)
    ex.add_handler(SS + r"size\(\) const", size, T)


_install0 = install


def install(ex):
    _install0(ex)
    install_misc(ex)
