"""Loop invariants: inferred by template + Houdini, then checked as ordinary obligations.

At a loop header the state is replaced by an arbitrary one: everything a loop
iteration may change (phis, memory cells, arrays, byte contents, library
objects) is havocked, the surviving candidate invariants are assumed, and every
back edge must re-establish them (obligations inv:<function>:<invariant>).
What an iteration may change is found by executing the body from the havocked
state and comparing the memory, until nothing new shows up.
Candidates are relations between changing integers, their entry values, other
integers in scope and the harness inputs. Only candidates proved on entry and
preserved by the body survive, so their origin does not matter for soundness.
"""
import os
import sys
import time
import z3
from mem import *
import vcg
from vcg import Unsupported, PathEnd, Budget


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.same(b)
    if isinstance(a, vcg.FPtr) and isinstance(b, vcg.FPtr):
        return a.name == b.name
    if isinstance(a, PInt) and isinstance(b, PInt):
        return same(a.p, b.p)
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, Abs) and isinstance(b, Abs):
        return a.kind == b.kind and set(a.d) == set(b.d) and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) in (int, str, bool, type(None)) and type(a) is type(b):
        return a == b
    return False


def diff(head, s, depth, phis, out):
    """locations whose value differs between head and s"""
    new = set()
    for oid, o1 in head.mem.items():
        o2 = s.mem.get(oid)
        if o2 is None or o1 is o2:
            continue
        if o1.freed != o2.freed:
            raise Unsupported("loop frees %s" % o1.name)
        if not same(o1.size, o2.size):
            raise Unsupported("loop resizes %s" % o1.name)
        for k, (n, v) in o2.cells.items():
            c = o1.cells.get(k)
            if c is None or c[0] != n or not same(c[1], v):
                new.add((oid, "cell", k, n))
        for k, (n, v) in o1.cells.items():
            if k not in o2.cells:
                new.add((oid, "cell", k, n))
        for k, a in o2.abs.items():
            if k not in o1.abs or not same(o1.abs[k], a):
                new.add((oid, "abs", k))
        for k in o1.abs:
            if k not in o2.abs:
                raise Unsupported("loop destroys library object in %s" % o1.name)
        if o1.content is not o2.content:
            new.add((oid, "content"))
        for k, a in o2.arrays.items():
            if k in o1.arrays and not (o1.arrays[k][1].eq(a[1])):
                new.add((oid, "arr", k))
            elif k not in o1.arrays:
                new.add((oid, "newarr", k, a[0]))
    f1, f2 = head.frames[depth - 1], s.frames[depth - 1]
    for i in phis:
        if not same(f1.regs.get(i), f2.regs.get(i)):
            new.add(("phi", i))
    # registers of outer frames and non-phi registers live across iterations cannot change (SSA)
    for k, v in s.ghost.items():
        if k not in head.ghost or not same(head.ghost[k], v):
            new.add(("ghost", k))
    if not same(sorted(map(str, head.held.items())), sorted(map(str, s.held.items()))):
        raise Unsupported("loop changes the set of held locks")
    return new - out


SKIPGHOST = ("cstrs",)


def widen(ex, st, fr, m, old, sample):
    """replace location m of st by an arbitrary value of the same shape. sample: list of observed values"""
    def arb(v, nm):
        if isinstance(v, Ptr):
            objs = {(x.obj, x.off) for x in sample if isinstance(x, Ptr)}
            if all(isinstance(x, Ptr) for x in sample) and len({o for o, _ in objs}) == 1 and v.obj != 0:
                o = st.obj(v.obj)
                if o.kind == "bytes":
                    return Ptr(v.obj, 0, ex.fresh(nm + "_idx"))
                if len(objs) == 1:
                    return Ptr(v.obj, v.off, ex.fresh(nm + "_idx"))
                if o.kind == "struct" and isinstance(o.size, int):
                    raise Unsupported("pointer walking over %s in a loop with invariant" % o.name)
            raise Unsupported("pointer changes object in loop (%s)" % nm)
        if z3.is_bv(v):
            return ex.fresh(nm, v.size())
        if z3.is_bool(v):
            return ex.freshb(nm)
        if z3.is_real(v):
            return ex.freshr(nm)
        if isinstance(v, PInt) or v is None:
            raise Unsupported("loop-carried %s" % nm)
        raise Unsupported("loop-carried value %r" % (v,))
    if m[0] == "phi":
        v = old
        fr.regs[m[1]] = arb(v, "lv%d" % m[1])
        return
    if m[0] == "ghost":
        if m[1] in SKIPGHOST:
            return
        if z3.is_expr(old):
            st.ghost[m[1]] = arb(old, "ghost_%s" % (m[1],))
            return
        raise Unsupported("loop changes ghost %s" % (m[1],))
    o = st.wobj(m[0])
    if m[1] == "cell":
        c = o.cells.get(m[2])
        if c is None or c[0] != m[3]:
            # created or reshaped in the loop: forget
            ex.clobber(st, o, m[2], m[3])
            if any(not z3.is_expr(x) for x in sample):
                return      # unknown afterwards: a read is refused as uninitialised
            sm = sample[0] if sample else None
            o.cells[m[2]] = (m[3], arb(sm, "cell_%s_%d" % (o.name, m[2])) if sm is not None else ex.fresh("cell", 8 * m[3]))
            return
        o.cells[m[2]] = (c[0], arb(c[1], "cell_%s_%d" % (o.name, m[2])))
    elif m[1] == "abs":
        a = o.abs.get(m[2])
        if a is None:
            return
        if a.kind == "string":
            import stl
            o.abs[m[2]] = stl.fresh_string(ex, st, "loopstr")[0]
        elif a.kind == "vec":
            n = ex.fresh("veclen")
            ex.assume(st, z3.ULT(n, bv(1 << 40)))
            ob = st.obj(a.get("buf")) if a.get("buf") else None
            arrs = {}
            for x in [a] + sample:
                if x is None or not x.get("buf"):
                    continue
                xs = x.d.get("_obj")
                if xs is None:
                    continue
                if xs.kind == "arr":
                    for k, (s, v) in xs.arrays.items():
                        arrs[k] = s
                else:
                    if xs.abs:
                        raise Unsupported("vector of library objects changes in loop")
                    st_ = a.get("stride")
                    for k, (s, v) in xs.cells.items():
                        if not z3.is_bv(v):
                            raise Unsupported("vector of pointers changes in loop")
                        arrs[k % st_] = s
            no = ex.newobj(st, "vec", n, "arr", a.get("stride"))
            for k, s in arrs.items():
                no.arrays[k] = (s, ex.fresharr("vec_f%d" % k, 8 * s))
            d = dict(a.d)
            d.pop("_obj", None)
            d.update(buf=no.id, len=n)
            for k, v in d.items():
                if k.startswith("g_"):
                    d[k] = arb(v, k)
            st.wobj(m[0]).abs[m[2]] = Abs("vec", **d)
        else:
            h = HAVOC.get(a.kind)
            if h is None:
                raise Unsupported("loop changes a %s" % a.kind)
            h(ex, st, o, m[2], a, sample)
    elif m[1] == "content":
        o.content = cbase(ex.fresharr("loopbytes"))
    elif m[1] in ("arr", "newarr"):
        n = o.arrays[m[2]][0] if m[2] in o.arrays else m[3]
        o.arrays[m[2]] = (n, ex.fresharr("looparr", 8 * n))


HAVOC = {}


def sampleof(ex, s, m, depth):
    """value of location m in state s"""
    if m[0] == "phi":
        return s.frames[depth - 1].regs.get(m[1])
    if m[0] == "ghost":
        return s.ghost.get(m[1])
    o = s.mem[m[0]]
    if m[1] == "cell":
        c = o.cells.get(m[2])
        return c[1] if c is not None and c[0] == m[3] else None
    if m[1] == "abs":
        a = o.abs.get(m[2])
        if a is not None and a.kind == "vec":
            d = dict(a.d)
            d["_obj"] = s.mem.get(a.get("buf")) if a.get("buf") else None
            return Abs("vec", **d)
        return a
    return None


def signed64(t):
    w = t.size()
    return t if w == 64 else simp(z3.SignExt(64 - w, t))


class Slots:
    """integers of a state that change in the loop, readable in any state of the loop"""

    def __init__(self, ex, mods, depth):
        self.ex, self.mods, self.depth = ex, sorted(mods, key=str), depth
        self.names = {"/".join(map(str, m)): m for m in self.mods}

    def back(self, nm):
        return self.names.get(nm)

    def read(self, s):
        out = {}
        for m in self.mods:
            nm = "/".join(map(str, m))
            try:
                v = sampleof(self.ex, s, m, self.depth)
            except KeyError:
                continue
            if isinstance(v, Ptr):
                if v.obj:
                    o = s.obj(v.obj)
                    i = v.idx if v.idx is not None else bv(0)
                    out[nm + ".idx"] = add(i, bv(v.off)) if o.kind == "bytes" else i
            elif isinstance(v, Abs):
                if v.kind in ("vec", "string"):
                    out[nm + ".len"] = v.get("len")
                for k, x in v.d.items():
                    if k.startswith("g_"):
                        out[nm + "." + k] = x
            elif v is not None and z3.is_expr(v):
                out[nm] = v
        return out


def label(fr, m):
    return m


def distinct(vs):
    out = []
    for v in vs:
        if not any(same(v, w) for w in out):
            out.append(v)
    return out


def leaves(vs):
    """constants these values may take, or None"""
    out = set()
    todo = [v for v in vs if z3.is_bv(v)]
    n = 0
    while todo and n < 400:
        n += 1
        v = simp(todo.pop())
        if is_const(v):
            out.add(cval(v))
        elif z3.is_app_of(v, z3.Z3_OP_ITE):
            todo += [v.arg(1), v.arg(2)]
    return out


def candidates(ex, st, entry, slots, terms, consts, samples=None):
    """list of (name, f(values dict)->Bool)"""
    out = []
    ints = [k for k, v in entry.items() if z3.is_bv(v) and v.size() >= 32]
    small = [k for k, v in entry.items() if (z3.is_bv(v) and v.size() < 32) or z3.is_bool(v)]
    reals = [k for k, v in entry.items() if z3.is_real(v)]

    def g(k):
        return lambda v: signed64(v[k])
    for k in small:
        e = entry[k]
        out.append(("%s == entry" % k, lambda v, k=k, e=e: v[k] == e))
        if z3.is_bv(e) and e.size() == 8:
            out.append(("%s is bool" % k, lambda v, k=k: z3.ULE(v[k], 1)))
    for k in reals:
        e = entry[k]
        out.append(("%s == entry" % k, lambda v, k=k, e=e: v[k] == e))
        out.append(("%s >= 0" % k, lambda v, k=k: v[k] >= 0))
        out.append(("%s >= entry" % k, lambda v, k=k, e=e: v[k] >= e))
        out.append(("%s <= entry" % k, lambda v, k=k, e=e: v[k] <= e))
    for k in ints:
        e = signed64(entry[k])
        f = g(k)
        for c in consts:
            cb = bv(c)
            out.append(("%s >= %d" % (k, c), lambda v, f=f, cb=cb: f(v) >= cb))
            out.append(("%s <= %d" % (k, c), lambda v, f=f, cb=cb: f(v) <= cb))
            out.append(("%s == %d" % (k, c), lambda v, f=f, cb=cb: f(v) == cb))
            out.append(("%s < 2^40" % k, lambda v, f=f, cb=cb: f(v) < bv(1 << 40))) if c == 0 else None
        ts = [("entry", e)] + [(n, t) for n, t in terms if not t.eq(e)]
        for n, t in ts:
            out.append(("%s == %s" % (k, n), lambda v, f=f, t=t: f(v) == t))
            out.append(("%s <= %s" % (k, n), lambda v, f=f, t=t: f(v) <= t))
            out.append(("%s >= %s" % (k, n), lambda v, f=f, t=t: f(v) >= t))
            out.append(("%s u<= %s" % (k, n), lambda v, f=f, t=t: z3.ULE(f(v), t)))
            if n.startswith("in_at"):   # positions named by the specification
                out.append(("%s < %s" % (k, n), lambda v, f=f, t=t: f(v) < t))
                out.append(("%s > %s" % (k, n), lambda v, f=f, t=t: f(v) > t))
    # enumerated integers: one of the constants seen, and booleans tied to them
    enums = []
    for k in ints:
        cs = leaves([entry[k]] + (samples or {}).get(slots.back(k), []))
        if cs and 2 <= len(cs) <= 6:
            enums.append((k, cs))
            out.append(("%s in %s" % (k, sorted(to_signed(c, entry[k].size()) for c in cs)),
                        lambda v, k=k, cs=cs: z3.Or(*[v[k] == z3.BitVecVal(c, v[k].size()) for c in cs])))
    bools = [k for k in small if z3.is_bool(entry[k]) or entry[k].size() in (1, 8)]

    def tb(x):
        return x if z3.is_bool(x) else x != 0
    for b in bools[:12]:
        for k, cs in enums[:6]:
            for c in cs:
                out.append(("%s == (%s == %d)" % (b, k, c), lambda v, b=b, k=k, c=c: tb(v[b]) == (v[k] == z3.BitVecVal(c, v[k].size()))))
                out.append(("%s == (%s != %d)" % (b, k, c), lambda v, b=b, k=k, c=c: tb(v[b]) == (v[k] != z3.BitVecVal(c, v[k].size()))))
        for b2 in bools[:12]:
            if b < b2:
                out.append(("%s == %s" % (b, b2), lambda v, b=b, b2=b2: tb(v[b]) == tb(v[b2])))
                out.append(("%s == !%s" % (b, b2), lambda v, b=b, b2=b2: tb(v[b]) != tb(v[b2])))
    for a in range(len(ints)):
        for b in range(len(ints)):
            if a == b:
                continue
            x, y = ints[a], ints[b]
            fx, fy = g(x), g(y)
            ex0, ey0 = signed64(entry[x]), signed64(entry[y])
            out.append(("%s <= %s" % (x, y), lambda v, fx=fx, fy=fy: fx(v) <= fy(v)))
            if a < b:
                d = simp(ex0 - ey0)
                s = simp(ex0 + ey0)
                out.append(("%s - %s const" % (x, y), lambda v, fx=fx, fy=fy, d=d: fx(v) - fy(v) == d))
                out.append(("%s + %s const" % (x, y), lambda v, fx=fx, fy=fy, s=s: fx(v) + fy(v) == s))
                for n, t in terms:
                    out.append(("%s + %s == %s" % (x, y, n), lambda v, fx=fx, fy=fy, t=t: fx(v) + fy(v) == t))
    return out


def scope_terms(ex, st, fr, blocks, entry):
    """loop-invariant integers that invariants may mention"""
    out = []
    seen = set()

    def put(n, v):
        if v is None or not z3.is_bv(v) or v.size() not in (32, 64):
            return
        v = signed64(v)
        if is_const(v) or v.get_id() in seen or len(out) > 40:
            return
        seen.add(v.get_id())
        out.append((n, v))
    for nm, t, kind in st.trace:
        if kind in ("u64", "size"):
            put("in_" + nm, t)
    for i, v in list(fr.regs.items()):
        if z3.is_expr(v) and z3.is_bv(v):
            put("r%d" % i, v)
    for k, v in entry.items():
        if z3.is_expr(v) and z3.is_bv(v):
            put("entry(%s)" % k, v)
    for nm, oid in ex.gobjs.items():
        o = st.mem.get(oid)
        if o is not None and not o.ro:
            for k, (n, v) in o.cells.items():
                put("%s+%d" % (nm, k), v)
    for d in out[:]:
        pass
    return out


def loop_consts(fn, blocks):
    out = {0, 1}
    for b in blocks:
        for i in fn["blocks"][b]:
            if i["o"] == "icmp":
                for a in (i.get("a"), i.get("b")):
                    if isinstance(a, list) and a and a[0] == "c":
                        try:
                            w = a[1]
                            v = to_signed(int(a[2]), w)
                            if abs(v) < 1 << 40:
                                out.add(v)
                        except Exception:
                            pass
    return sorted(out)[:8]


def dbg(*a):
    if os.environ.get("VP_INV"):
        print("%.1f" % time.process_time(), *a, file=sys.stderr)


def quiet_explore(ex, st, cut):
    ex.quiet += 1
    save = (ex.paths, ex.completed, dict(ex.reached))
    try:
        return ex.explore([st], cut)
    finally:
        ex.quiet -= 1
        ex.paths, ex.completed, ex.reached = save


def mkcut(depth, h, blocks):
    def cut(s):
        if len(s.frames) < depth:
            return True
        if len(s.frames) > depth:
            return False
        f = s.frames[-1]
        if f.bi == h and f.pi in blocks:
            return True
        return f.bi not in blocks
    return cut


def backs(ex, states, depth, h, blocks):
    out = []
    for s in states:
        if len(s.frames) == depth and s.frames[-1].bi == h and s.frames[-1].pi in blocks:
            try:
                ex_phis(ex, s)
            except PathEnd:
                continue
            out.append(s)
    return out


def ex_phis(ex, s):
    f = s.frames[-1]
    if f.fn["blocks"][f.bi][0]["o"] == "phi":
        ex.do_phis(s)


def handle(ex, st, fr, h, blocks, cfg, cut0):
    fn = fr.fn
    depth = len(st.frames)
    if fn["blocks"][h][0]["o"] == "phi":
        ex.do_phis(st)
    fr.pi = None
    phis = [i["i"] for i in fn["blocks"][h] if i["o"] == "phi"]
    fr.lc[h] = 0
    cut = mkcut(depth, h, blocks)
    site = "%s" % fn["d"].split("(")[0]
    key = (fn["n"], h)
    # 1. what can change
    mods = set()
    samples = {}
    for rnd in range(8):
        s = st.clone()
        f = s.frames[-1]
        for m in sorted(mods, key=str):
            widen(ex, s, f, m, sampleof(ex, st, m, depth), [x for x in [sampleof(ex, st, m, depth)] + samples.get(m, []) if x is not None])
        if f.ii == 0:
            f.lc[("skip", h)] = True
        head = s.clone()
        bs = backs(ex, quiet_explore(ex, s, cut), depth, h, blocks)
        new = set()
        for b in bs:
            # relative to the original state: what differs from st's own entry values or from head
            new |= diff(head, b, depth, phis, set())
            for m in new:
                v = sampleof(ex, b, m, depth)
                if v is not None:
                    samples.setdefault(m, []).append(v)
        samples = {k: distinct(v)[:12] for k, v in samples.items()}
        dbg("discover", site, rnd, "backs", len(bs), "mods", len(mods | new))
        new = {m for m in new if not (m[0] == "ghost" and m[1] in SKIPGHOST)}
        # a pointer/cell location first seen after widening another one
        # objects created by widening (fresh vectors) are not part of st
        new = {m for m in new if m[0] in ("phi", "ghost") or m[0] in st.mem}
        if new <= mods:
            break
        mods |= new
    else:
        raise Unsupported("loop effect does not stabilise in " + site)
    slots = Slots(ex, mods, depth)
    entry = slots.read(st)
    terms = scope_terms(ex, st, fr, blocks, entry)
    cands = candidates(ex, st, entry, slots, terms, loop_consts(fn, blocks), samples)
    for gen in cfg.get("gens", []):
        import contracts
        cands += getattr(contracts, gen)(ex, st, entry, slots, terms)
    kept = ex.houdini_kept.get(key)
    if kept is not None:
        c2 = [c for c in cands if c[0] in kept]
        if c2:
            pass
    # 2. entry filter
    cands = filt(ex, st, slots, cands)
    # 3. Houdini
    for rnd in range(12):
        s, f = arbitrary(ex, st, mods, samples, depth, h)
        vals = slots.read(s)
        for n, c in cands:
            try:
                ex.assume(s, c(vals))
            except PathEnd:
                raise Unsupported("inconsistent invariants in " + site)
        before = len(cands)
        for b in backs(ex, quiet_explore(ex, s, cut), depth, h, blocks):
            cands = filt(ex, b, slots, cands)
        dbg("houdini", site, rnd, before, len(cands))
        if len(cands) == before:
            break
    else:
        raise Unsupported("Houdini did not converge in " + site)
    names = [c[0] for c in cands]
    ex.houdini_kept[key] = set(names)
    if not ex.quiet:
        ex.inv_used.setdefault(site, {})["header %d" % h] = names[:60]
    s, f = arbitrary(ex, st, mods, samples, depth, h)
    vals = slots.read(s)
    for n, c in cands:
        ex.assume(s, c(vals))
    f.lc[h] = ("inv", slots, cands, site)
    return [s]


def arbitrary(ex, st, mods, samples, depth, h):
    s = st.clone()
    f = s.frames[-1]
    for m in sorted(mods, key=str):
        e = sampleof(ex, st, m, depth)
        widen(ex, s, f, m, e, [x for x in [e] + samples.get(m, []) if x is not None])
    if f.ii == 0:
        f.lc[("skip", h)] = True
    return s, f


def filt(ex, s, slots, cands):
    """candidates that hold in s"""
    vals = slots.read(s)
    todo, keep = [], []
    for n, c in cands:
        try:
            t = c(vals)
        except (KeyError, z3.Z3Exception):
            continue
        t = simp(t)
        if z3.is_true(t):
            keep.append((n, c))
        elif not z3.is_false(t):
            todo.append((n, c, t))
    while todo:
        goal = z3.Not(z3.And(*[t for _, _, t in todo])) if len(todo) > 1 else z3.Not(todo[0][2])
        r, m = ex.check(s.conds, [goal], full=True, model=True, timeout=6000)
        if r == "unsat":
            break
        if r == "sat" and m is not None:
            nt = [x for x in todo if not z3.is_false(m.eval(x[2], model_completion=True))]
            if len(nt) < len(todo):
                todo = nt
                continue
        # undecided together: one by one
        todo = [x for x in todo if ex.check(s.conds, [z3.Not(x[2])], timeout=1500) == "unsat"]
        break
    kept = {n for n, _ in keep} | {n for n, _, _ in todo}
    return [(n, c) for n, c in cands if n in kept]


def back_edge(ex, st, fr, h):
    """marked back edge: the invariants must hold again; the path ends"""
    _, slots, cands, site = fr.lc[h]
    ex_phis(ex, st)
    vals = slots.read(st)
    if not cands:
        raise PathEnd("loop")
    conj = []
    for n, c in cands:
        conj.append(c(vals))
    ex.oblige(st, z3.And(*conj), "inv:%s:preserved" % site, "invariant")
    raise PathEnd("loop")
