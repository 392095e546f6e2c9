"""Meaning of the specification interface (spec/vp.h) inside the VC generator."""
import z3
from mem import *
from vcg import *


def cstr(ex, st, p):
    """a constant C string argument"""
    o = st.obj(p.obj)
    g = None
    for name, oid in ex.gobjs.items():
        if oid == p.obj:
            g = ex.mod.gl[name]
    if g is None or "init" not in g:
        return None
    off = p.off + (cval(p.idx) if p.idx is not None and is_const(p.idx) else 0)
    if g["init"][0] == "zero":
        return ""
    if g["init"][0] != "agg":
        return None
    bs = bytes(int(e[2]) & 255 for e in g["init"][2])
    return bs[off:bs.index(0, off)].decode("latin1")


def cname(ex, st, p):
    try:
        return cstr(ex, st, p) or "?"
    except Exception:
        return "?"


def h_u64(ex, st, ins, a, m):
    nm = cname(ex, st, a[0])
    v = ex.fresh("in_" + nm)
    st.trace = st.trace + [(nm, v, "u64")]
    return v


def h_size(ex, st, ins, a, m):
    nm = cname(ex, st, a[0])
    v = ex.fresh("in_" + nm)
    st.trace = st.trace + [(nm, v, "size")]
    ex.assume(st, z3.ULT(v, bv(1 << 40)))
    return v


def h_real(ex, st, ins, a, m):
    nm = cname(ex, st, a[0])
    v = ex.freshr("in_" + nm)
    st.trace = st.trace + [(nm, v, "real")]
    return v


def h_buf(ex, st, ins, a, m):
    nm = cname(ex, st, a[0])
    n = simp(a[1])
    o = ex.newobj(st, "buf(%s)" % nm, cval(n) if is_const(n) else n, "bytes")
    arr = ex.fresharr("bytes_" + nm)
    o.content = cbase(arr)
    o.heap = True
    st.trace = st.trace + [(nm, (arr, n), "bytes")]
    return Ptr(o.id)


def h_assume(ex, st, ins, a, m):
    c = simp(a[0] != 0)
    if z3.is_false(c):
        raise PathEnd("assume")
    if not z3.is_true(c):
        ex.assume(st, c)
        if not ex.feasible(st, z3.BoolVal(True)) or ex.check(st.conds, [c], timeout=5000) == "unsat":
            raise PathEnd("assume")
    return None


def h_assert(ex, st, ins, a, m):
    nm = cname(ex, st, a[1])
    ex.reached[nm] = ex.reached.get(nm, 0) + 1
    ex.oblige(st, simp(a[0] != 0), "spec:" + nm, "post")
    return None


def h_cover(ex, st, ins, a, m):
    nm = cname(ex, st, a[0])
    if ex.reached.get("cover:" + nm):
        return None
    r = ex.check(st.conds, [], full=True)
    if r != "unsat":
        ex.reached["cover:" + nm] = 1
    return None


def h_free(ex, st, ins, a, m):
    p = a[0]
    if isinstance(p, Ptr) and p.obj != 0:
        o = st.wobj(p.obj)
        if o.freed:
            ex.fail_path(st, "double free", "mem")
        o.freed = True
    return None


def h_checkfail(ex, st, ins, a, m):
    if ex.o["abort"] == "allow":
        raise PathEnd("check failed (allowed)")
    t = cname(ex, st, a[0])
    ex.fail_path(st, "CHECK(%s)" % t, "abort")


def h_range(ex, st, ins, a, m):
    if ex.o["abort"] == "allow":
        raise PathEnd("range misuse (allowed)")
    ex.fail_path(st, "range", "abort")


def nop(ex, st, ins, a, m):
    return None


def h_memcpy(ex, st, ins, a, m):
    ex.memcopy(st, a[0], a[1], a[2])
    return None


def h_memcpy_ret(ex, st, ins, a, m):
    ex.memcopy(st, a[0], a[1], a[2])
    return a[0]


def h_memset(ex, st, ins, a, m):
    ex.memset(st, a[0], a[1] if a[1].size() == 8 else simp(z3.Extract(7, 0, a[1])), a[2])
    return a[0] if ins["t"] != "void" else None


def h_ovf(ex, st, ins, a, m):
    op, w = m.group(1), int(m.group(2))
    x, y = a
    sg = op[0] == "s"
    k = op[1:]
    if k == "add":
        r = x + y
        no = z3.And(z3.BVAddNoOverflow(x, y, sg), z3.BVAddNoUnderflow(x, y)) if sg else z3.BVAddNoOverflow(x, y, False)
    elif k == "sub":
        r = x - y
        no = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)) if sg else z3.BVSubNoUnderflow(x, y, False)
    else:
        r = x * y
        no = z3.And(z3.BVMulNoOverflow(x, y, sg), z3.BVMulNoUnderflow(x, y)) if sg else z3.BVMulNoOverflow(x, y, False)
    return Agg([simp(r), simp(z3.Not(no))])


def h_expect(ex, st, ins, a, m):
    return a[0]


def h_assume_llvm(ex, st, ins, a, m):
    return None


def h_minmax(ex, st, ins, a, m):
    k = m.group(1)
    x, y = a
    c = {"smax": x > y, "smin": x < y, "umax": z3.UGT(x, y), "umin": z3.ULT(x, y)}[k]
    return simp(z3.If(c, x, y))


def h_fabs(ex, st, ins, a, m):
    return z3.simplify(z3.If(a[0] >= 0, a[0], -a[0]))


def h_new(ex, st, ins, a, m):
    n = simp(a[0])
    if not is_const(n):
        o = ex.newobj(st, "new", n, "bytes")
        o.content = cbase(ex.fresharr("heap"))
    else:
        o = ex.newobj(st, "new", cval(n), "struct")
    o.heap = True
    return Ptr(o.id)


def h_ctz(ex, st, ins, a, m):
    v = ex.ival(st, a[0]) if hasattr(ex, "ival") else a[0]
    w = v.size()
    r = bv(w, w)
    rng = range(w) if m.group(1) == "l" else range(w - 1, -1, -1)
    for i in rng:
        r = z3.If(z3.Extract(i, i, v) == 1, bv(w - 1 - i if m.group(1) == "l" else i, w), r)
    return z3.simplify(r)


def h_bswap(ex, st, ins, a, m):
    x = a[0]
    w = x.size()
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)]))


def h_unreachable(ex, st, ins, a, m):
    ex.fail_path(st, m.group(0)[:60], "abort")


def h_sleep(ex, st, ins, a, m):
    return bv(0, 32) if ins["t"] != "void" else None


def h_note(ex, st, ins, a, m):
    return None


def h_throwfn(ex, st, ins, a, m):
    if ex.o["abort"] == "allow":
        raise PathEnd("throw (allowed)")
    return ex.throw(st, ins, m.group(0)[:60])


def h_alloc_exc(ex, st, ins, a, m):
    o = ex.newobj(st, "exception", 4096, "struct")
    o.sym = True
    return Ptr(o.id)


def h_strlen(ex, st, ins, a, m):
    return cstrlen(ex, st, a[0])


def cstrlen(ex, st, p):
    s = cstr(ex, st, p) if isinstance(p, Ptr) and p.obj in st.mem else None
    if s is not None:
        return bv(len(s.encode("latin1")))
    o = ex.chk(st, p, 1, "read")
    if o.kind != "bytes":
        raise Unsupported("strlen of %s" % o.name)
    i = add(p.idx if p.idx is not None else bv(0), bv(p.off))
    # a string whose terminator position is known
    for ln in st.ghost.get("cstrs", ()):
        if ln[0] == p.obj and cdiff(ln[1], i) == 0 and o.content is ln[3]:
            return ln[2]
    k = 0
    while k < 64:  # characters known to the engine
        c = simp(ex.readbyte(st, o.content, add(i, bv(k))))
        if is_const(c):
            if cval(c) == 0:
                return bv(k)
        elif ex.feasible(st, c == 0):
            break
        k += 1
    n = ex.fresh("strlen")
    ex.assume(st, z3.UGE(n, bv(k)))
    sz = o.sizebv()
    # the terminator must exist inside the object: obligation cannot be decided here in general
    ex.assumptions.add("strlen: a terminator exists inside the buffer")
    ex.assume(st, z3.ULT(n, sz))
    ex.assume(st, z3.ULT(add(i, n), sz))
    ex.assume(st, ex.readbyte(st, o.content, add(i, n)) == 0)
    return n


def h_init(ex, st, ins, a, m):
    """dynamic initialisation of one source file: its real initialiser runs"""
    f = ex.mod.fn.get("_GLOBAL__sub_I_%s.cpp" % m.group(1))
    if f is None:
        raise Unsupported("initialiser of " + m.group(1))
    ex.push(st, f, [], ins)
    return PUSHED


def h_memcmp(ex, st, ins, a, m):
    p, q, n = a
    o1, o2 = ex.chk(st, p, simp(n) if not is_const(n) else cval(n), "read"), ex.chk(st, q, simp(n) if not is_const(n) else cval(n), "read")
    b = lambda x: add(x.idx if x.idx is not None else bv(0), bv(x.off))
    if is_const(n) and cval(n) <= 64 and o1.kind == "bytes" and o2.kind == "bytes":
        r = bv(0, 32)
        for k in reversed(range(cval(n))):
            x, y = ex.readbyte(st, o1.content, add(b(p), bv(k))), ex.readbyte(st, o2.content, add(b(q), bv(k)))
            r = simp(z3.If(x == y, r, z3.If(z3.ULT(x, y), bv(0xffffffff, 32), bv(1, 32))))
        return r
    raise Unsupported("memcmp")


def h_malloc(ex, st, ins, a, m):
    return h_new(ex, st, ins, a, m)


def h_memalign(ex, st, ins, a, m):
    p = h_new(ex, st, ins, [a[2]], m)
    ex.store(st, a[0], p, "ptr", 8)
    return bv(0, 32)


def lockkey(a):
    p = a[0]
    return (p.obj, p.off, None if p.idx is None else p.idx.get_id())


def h_lock(ex, st, ins, a, m):
    k = lockkey(a)
    w = "rd" if "rdlock" in m.group(0) else "wr"
    h = st.held.get(k)
    if h and not (w == "rd" and h[0] == "rd"):
        ex.fail_path(st, "lock acquired twice by the same thread", "lock")
    st.held[k] = (w, (h[1] if h else 0) + 1)
    cb = ex.o.get("_onlock")
    if cb:
        cb(ex, st, a[0], w)
    return bv(0, 32)


def h_trylock(ex, st, ins, a, m):
    k = lockkey(a)
    v = ex.freshb("trylock")

    def yes(s):
        s.held[k] = ("wr", 1)
        return bv(0, 32)
    return Forks([(v, yes), (z3.Not(v), lambda s: bv(16, 32))])


def h_unlock(ex, st, ins, a, m):
    k = lockkey(a)
    if not st.held.get(k):
        ex.fail_path(st, "lock released that is not held", "lock")
    w, n = st.held[k]
    if n > 1:
        st.held[k] = (w, n - 1)
    else:
        st.held.pop(k, None)
    return bv(0, 32)


def h_guard(ex, st, ins, a, m):
    """every access to these bytes happens with the lock held"""
    p = a[0]
    o = st.wobj(p.obj)
    n = cval(a[1])
    o.guard = list(o.guard or []) + ([(p.off, p.off + n, lockkey([a[2]]), cname(ex, st, a[3]))] if n else [])


def h_unguard(ex, st, ins, a, m):
    st.wobj(a[0].obj).guard = None


def h_isatty(ex, st, ins, a, m):
    v = ex.fresh("isatty", 32)
    ex.assume(st, z3.ULE(v, 1))
    return v


def h_now(ex, st, ins, a, m):
    v = ex.fresh("now")
    ex.assume(st, z3.And(v >= 0, v < bv(1 << 62)))
    last = st.ghost.get("now")
    st.ghost["now"] = v
    return v


def install(ex):
    A = ex.add_handler
    A(r"(isatty)$", h_isatty, "libc")
    A(r"(malloc)$", h_malloc, "libc")
    A(r"(free)$", h_free, "libc")
    A(r"posix_memalign$", h_memalign, "libc")
    A(r"pthread_(mutex_lock|rwlock_wrlock|rwlock_rdlock|spin_lock)$", h_lock, "libc")
    A(r"pthread_(mutex_trylock|rwlock_trywrlock|rwlock_tryrdlock)$", h_trylock, "libc")
    A(r"pthread_(mutex_unlock|rwlock_unlock|spin_unlock)$", h_unlock, "libc")
    A(r"pthread_\w+_(init|destroy)$", lambda ex, st, ins, a, m: bv(0, 32), "libc")
    A(r"std::condition_variable::(~?condition_variable|notify_one|notify_all)\(", nop, "libstdc++")
    A(r"std::chrono::_V2::(system|steady)_clock::now\(\)", h_now, "libstdc++")
    A(r"vp_init_(\w+)$", h_init, "spec")
    A(r"vp_in_u64$", h_u64, "spec")
    A(r"vp_in_size$", h_size, "spec")
    A(r"vp_in_real$", h_real, "spec")
    A(r"vp_in_buf$", h_buf, "spec")
    A(r"vp_free_buf$", h_free, "spec")
    A(r"vp_assume_$", h_assume, "spec")
    A(r"vp_assert_$", h_assert, "spec")
    A(r"vp_cover_$", h_cover, "spec")
    A(r"vp_note$", h_note, "spec")
    A(r"vp_lock_$", h_lock, "spec")
    A(r"vp_unlock_$", h_unlock, "spec")
    A(r"vp_held_$", lambda ex, st, ins, a, m: bv(1 if st.held.get(lockkey(a)) else 0, 32), "spec")
    A(r"vp_guard_$", h_guard, "spec")
    A(r"vp_unguard_$", h_unguard, "spec")
    A(r"vp_bound_$", lambda ex, st, ins, a, m: a[1] if ex.o.get("deep") else a[0], "spec")
    A(r"vp_check_failed$", h_checkfail, "spec")
    A(r"vp_throw_out_of_range$", h_range, "spec")
    A(r"llvm\.(lifetime|dbg|experimental\.noalias|prefetch|stackrestore)", nop, "llvm")
    A(r"llvm\.stacksave", lambda ex, st, ins, a, m: NULL, "llvm")
    A(r"llvm\.mem(cpy|move)", h_memcpy, "llvm")
    A(r"llvm\.memset", h_memset, "llvm")
    A(r"mem(cpy|move)$", h_memcpy_ret, "libc")
    A(r"memset$", h_memset, "libc")
    A(r"memcmp$", h_memcmp, "libc")
    A(r"strlen$", h_strlen, "libc")
    A(r"llvm\.([su](?:add|sub|mul))\.with\.overflow\.i(\d+)", h_ovf, "llvm")
    A(r"llvm\.(expect|launder|strip)", h_expect, "llvm")
    A(r"llvm\.assume", h_assume_llvm, "llvm")
    A(r"llvm\.([su](?:max|min))\.", h_minmax, "llvm")
    A(r"llvm\.fabs", h_fabs, "llvm")
    A(r"llvm\.ct([lt])z\.", h_ctz, "llvm")
    A(r"llvm\.bswap", h_bswap, "llvm")
    A(r"llvm\.(trap|ubsantrap)", h_unreachable, "llvm")
    A(r"operator new(\[\])?\(unsigned long(, std::nothrow_t const&)?\)$", h_new, "libstdc++")
    A(r"operator delete", h_free, "libstdc++")
    A(r"(usleep|sleep)$", h_sleep, "libc")
    A(r"__cxa_allocate_exception$", h_alloc_exc, "libstdc++")
    A(r"__cxa_free_exception$", nop, "libstdc++")
    A(r"std::(range_error|runtime_error|logic_error|invalid_argument)::~?\w+\(", nop, "libstdc++")
    A(r"(__cxa_throw|__cxa_rethrow|std::__throw_\w+)", h_throwfn, "libstdc++")
    A(r"(std::terminate|abort|__clang_call_terminate|__cxa_pure_virtual)", h_unreachable, "libstdc++")
    A(r"__cxa_guard_acquire$", lambda ex, st, ins, a, m: bv(1, 32), "libstdc++")
    A(r"__cxa_guard_release$", nop, "libstdc++")
    A(r"__cxa_atexit$", lambda ex, st, ins, a, m: bv(0, 32), "libstdc++")
    A(r"__cxa_begin_catch$", lambda ex, st, ins, a, m: NULL, "libstdc++")
    A(r"__cxa_end_catch$", nop, "libstdc++")
