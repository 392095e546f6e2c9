"""VC generator: symbolic execution of LLVM IR with function contracts and loop
invariants; every obligation is discharged by an SMT solver.

Functions that have a contract (a handler registered in self.handlers, or a
C++ contract function `vpc__<mangled>`), are replaced by it at call sites;
library functions have trusted contracts (stl.py); everything else defined in
the module is inlined.
"""
import json, re, sys, time, subprocess, os, tempfile
from fractions import Fraction
import z3
from mem import *

sys.setrecursionlimit(20000)
z3.set_param("auto_config", True)


class Unsupported(Exception):
    pass


class NeedInvariant(Exception):
    def __init__(self, fn, header):
        self.fn, self.header = fn, header


class Budget(Exception):
    pass


class PathEnd(Exception):
    """this path stops (assume false, abnormal termination that is allowed, ...)"""
    def __init__(self, why=""):
        self.why = why


class Forks:
    """returned by a handler: list of (cond or None, thunk(st)->value)"""
    def __init__(self, alts):
        self.alts = alts


def width(ty):
    if isinstance(ty, str) and ty[0] == "i":
        return int(ty[1:])
    return None


_VARS = {}


def fvars(e):
    """set of uninterpreted symbols in e (cached, DAG walk)"""
    k = e.get_id()
    r = _VARS.get(k)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _VARS.get(i)
        if c is not None:
            out |= c[1]
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name() if x.num_args() else x.decl().name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    out = frozenset(out)
    _VARS[k] = (e, out)
    return out


class Frame:
    __slots__ = ("fn", "regs", "bi", "pi", "ii", "ret_i", "lc", "allocas", "args", "unwind", "cont")

    def __init__(self, fn, args):
        self.fn = fn
        self.regs = {}
        self.bi = 0
        self.pi = -1
        self.ii = 0
        self.ret_i = None      # caller instruction
        self.lc = {}
        self.allocas = []
        self.args = args
        self.unwind = None
        self.cont = None       # python continuation on return: f(ex, st, val)->val

    def clone(self):
        f = Frame(self.fn, self.args)
        f.regs = dict(self.regs)
        f.bi, f.pi, f.ii = self.bi, self.pi, self.ii
        f.ret_i = self.ret_i
        f.lc = dict(self.lc)
        f.allocas = list(self.allocas)
        f.unwind = self.unwind
        f.cont = self.cont
        return f


class State:
    N = 0

    def __init__(self):
        State.N += 1
        self.tok = State.N
        self.frames = []
        self.mem = {}
        self.conds = []
        self.condset = set()
        self.ghost = {}
        self.trace = []
        self.held = {}
        self.path = []       # human readable branch trace
        self.written = None  # loop write collection
        self.exc = None
        self.seqeq = []      # established string equalities

    def clone(self):
        s = State.__new__(State)
        State.N += 1
        s.tok = State.N
        State.N += 1
        self.tok = State.N
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.conds = list(self.conds)
        s.condset = set(self.condset)
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        s.held = dict(self.held)
        s.path = list(self.path)
        s.written = self.written
        s.exc = self.exc
        s.seqeq = list(self.seqeq)
        return s

    # objects -------------------------------------------------------------
    def obj(self, oid):
        return self.mem[oid]

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.tok:
            o = o.clone(self.tok)
            self.mem[oid] = o
        return o


class Oblig:
    __slots__ = ("name", "kind", "where", "ok", "n", "bad", "time")

    def __init__(self, name, kind, where):
        self.name, self.kind, self.where = name, kind, where
        self.ok = True
        self.n = 0
        self.bad = []
        self.time = 0.0


class Module:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.fn = {}
        self.bydem = {}
        for f in j["functions"]:
            f["d"] = f["d"].replace("[abi:cxx11]", "")
            self.fn[f["n"]] = f
            self.bydem.setdefault(f["d"], f)
            f["lh"] = {}
            for L in f.get("loops", []):
                f["lh"][L["h"]] = set(L["b"])
        self.gl = {g["n"]: g for g in j["globals"]}
        self.structs = j["structs"]

    def sizeof(self, cpp):
        """size of a C++ type name as it appears in demangled template arguments"""
        cpp = cpp.strip()
        prim = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4,
                "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "double": 8, "float": 4}
        if cpp in prim:
            return prim[cpp]
        if cpp.endswith("*"):
            return 8
        if cpp.startswith("std::unique_ptr<"):
            return 8
        if cpp.startswith("std::shared_ptr<"):
            return 16
        if cpp.startswith("std::__cxx11::basic_string<char"):
            return 32
        if cpp.startswith("std::vector<"):
            return 24
        for pre in ("class.", "struct."):
            if pre + cpp in self.structs:
                return self.structs[pre + cpp]
        f = self.fn.get("vp_env_sizeof_" + cpp.replace("::", "__"))  # VP_SIZEOF: the linker merges struct types of equal layout
        if f and f["blocks"][-1][-1]["v"][0] == "c":
            return int(f["blocks"][-1][-1]["v"][2])
        return None


FORKS = {} if os.environ.get("VP_FORK") else None


class Exec:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = dict(unroll=24, peel=0, abort="fail", overflow=False, lazy=False, timeout=20000, maxpaths=20000, budget=800, merge=True)
        self.o.update(opts or {})
        self.handlers = []       # (regex, func)
        self.hcache = {}
        self.obl = {}
        self.quiet = 0           # >0: do not record obligations (houdini / discovery)
        self.nobj = 0
        self.fresh_n = 0
        self.solver_time = 0.0
        self.nqueries = 0
        self.backends = {}
        self.fcache = {}
        self.inv = {}            # (fnname, header) -> candidates config
        self.loopcfg = []        # (regex, header_or_None, candidate generator or None)
        self.funcs_seen = {}
        self.trusted_used = {}
        self.contracts_used = {}
        self.inv_used = {}
        self.gobjs = {}
        self.reached = {}
        self.paths = 0
        self.completed = 0
        self.t0 = time.time()
        self.failures = []
        self.bounds_hint = []
        self.houdini_kept = {}
        self.assumptions = set()
        self.spaths = 0
        self.mergej = []

    # ------------------------------------------------------------------ util
    def fresh(self, name, w=64):
        self.fresh_n += 1
        return z3.BitVec("%s!%d" % (name, self.fresh_n), w)

    def freshb(self, name):
        self.fresh_n += 1
        return z3.Bool("%s!%d" % (name, self.fresh_n))

    def freshr(self, name):
        self.fresh_n += 1
        return z3.Real("%s!%d" % (name, self.fresh_n))

    def fresharr(self, name, w=8):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (name, self.fresh_n), z3.ArraySort(BV64, z3.BitVecSort(w)))

    def newobj(self, st, name, size, kind, stride=0):
        self.nobj += 1
        o = Obj(self.nobj, name, size, kind, stride)
        o.owner = st.tok
        st.mem[o.id] = o
        return o

    # ---------------------------------------------------------------- solver
    def relevant(self, conds, goals):
        want = set()
        for g in goals:
            want |= fvars(g)
        rest = [(c, fvars(c)) for c in conds]
        out = []
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for c, v in rest:
                if not v or (v & want):
                    out.append(c)
                    if not v <= want:
                        want |= v
                    ch = True
                else:
                    nr.append((c, v))
            rest = nr
        return out

    def check(self, conds, extra, timeout=None, full=False, model=False, quick=False):
        """sat/unsat/unknown of conds /\\ extra."""
        extra = [e for e in extra if not z3.is_true(e)]
        for e in extra:
            if z3.is_false(e):
                return ("unsat", None) if model else "unsat"
        cs = conds if full else self.relevant(conds, extra)
        key = None
        if not model:
            key = (frozenset(c.get_id() for c in cs), frozenset(e.get_id() for e in extra))
            r = self.fcache.get(key)
            if r is not None:
                return r[0]
        t = time.time()
        r = "unknown"
        m = None
        tmo = timeout or self.o["timeout"]
        stages = [("z3", min(tmo, 400)), ("lia", min(tmo, 4000)), ("z3-bv", tmo), ("cvc5", tmo)]
        if len(cs) > 10 and not model:
            stages = [("lia", 1000)] + stages
        if any(self.has_real(c) for c in cs) or any(self.has_real(c) for c in extra):
            stages = [("z3", 400), ("lia", tmo), ("cvc5", tmo)]
        for be, to in stages:
            rr = "unknown"
            try:
                if be == "lia":
                    import lia
                    L = self.__dict__.get("_lia")
                    if L is None:
                        L = self._lia = lia.Lia()
                    rr = lia.unsat(L, list(cs) + extra, to)
                    if rr == "sat" and quick:
                        break
                    if rr != "unsat":
                        rr = "unknown"
                elif be == "cvc5":
                    rr = self.cvc5(list(cs) + extra, to)
                    if rr != "unsat":
                        rr = "unknown"
                else:
                    s = z3.SimpleSolver() if be == "z3" else z3.SolverFor("QF_AUFBV")
                    s.set("timeout", to)
                    s.add(*cs)
                    s.add(*extra)
                    rr = str(s.check())
            except z3.Z3Exception:
                rr = "unknown"
            if rr != "unknown":
                r = rr
                self.backends[be] = self.backends.get(be, 0) + 1
                if rr == "sat" and model:
                    m = s.model()
                break
        dt = time.time() - t
        if os.environ.get("VP_STAT"):
            self.stat = getattr(self, "stat", {})
            q = self.stat.setdefault((r, be), [0, 0.0])
            q[0] += 1
            q[1] += dt
        self.solver_time += dt
        self.nqueries += 1
        if os.environ.get("VP_SLOW") and dt > float(os.environ["VP_SLOW"]):
            print("SLOW %.1fs %s %s" % (dt, r, [str(e)[:300] for e in extra]), file=sys.stderr)
        if key is not None:
            self.fcache[key] = (r, cs, extra)
        return (r, m) if model else r

    def has_real(self, c):
        h = self.__dict__.setdefault("_hasreal", {})
        k = c.get_id()
        r = h.get(k)
        if r is None:
            r = z3.is_arith(c) or any(self.has_real(x) for x in c.children())
            h[k] = r
            self.keepreal = self.__dict__.get("keepreal", [])
            self.keepreal.append(c)
        return r

    def cvc5(self, conds, to):
        s = z3.Solver()
        s.add(*conds)
        try:
            txt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            p = subprocess.run(["cvc5", "--tlimit=%d" % to, f.name], capture_output=True, text=True, timeout=to / 1000 + 10)
            os.unlink(f.name)
            return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
        except Exception:
            return "unknown"

    def feasible(self, st, cond):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(st.conds, [cond], timeout=5000, quick=True) != "unsat"

    def proves(self, st, cond, timeout=None):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.check(st.conds, [z3.Not(cond)], timeout=timeout) == "unsat"

    def decide(self, st, cond):
        """True / False / None"""
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.check(st.conds, [z3.Not(cond)], timeout=4000, quick=True) == "unsat":
            return True
        if self.check(st.conds, [cond], timeout=4000, quick=True) == "unsat":
            return False
        return None

    def assume(self, st, cond):
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        cond = simp(cond)
        if z3.is_true(cond):
            return
        if z3.is_and(cond):
            for c in cond.children():
                self.assume(st, c)
            return
        if z3.is_false(cond):
            raise PathEnd("infeasible")
        i = cond.get_id()
        if i in st.condset:
            return
        st.condset.add(i)
        st.conds.append(cond)

    # ----------------------------------------------------------- obligations
    def where(self, st):
        out = []
        for f in reversed(st.frames):
            fn = f.fn
            ins = fn["blocks"][f.bi][f.ii] if f.ii < len(fn["blocks"][f.bi]) else None
            out.append((fn["d"].split("(")[0], os.path.basename(fn.get("file", "?")), ins["l"] if ins else 0))
        return out

    def codesite(self, st):
        """innermost frame that belongs to /repo or the spec (not library code)"""
        w = self.where(st)
        for d, f, l in w:
            if not d.startswith("std::") and not d.startswith("folly::") and not d.startswith("__gnu") and "operator" not in d:
                return d
        return w[0][0] if w else "?"

    def oblige(self, st, cond, name, kind="assert"):
        """obligation: cond holds on this path; afterwards it is assumed"""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        cond = simp(cond)
        if self.quiet:
            if not z3.is_true(cond):
                self.assume(st, cond)
            return
        ob = self.obl.get(name)
        if ob is None:
            ob = self.obl[name] = Oblig(name, kind, self.where(st)[:4])
        ob.n += 1
        if z3.is_true(cond):
            return
        t = time.time()
        r = None
        if not z3.is_false(cond):
            sc = self.same_index(cond)
            if sc is not None and self.check(st.conds, [z3.Not(sc)], timeout=3000, quick=True) == "unsat":
                r = "unsat"
            else:
                r = self.check(st.conds, [z3.Not(cond)])
        if z3.is_false(cond):
            # is this path itself feasible?
            r2 = self.check(st.conds, [], full=True) if st.conds else "sat"
            r = {"unsat": "unsat", "sat": "sat"}.get(r2, "unknown")
            if r == "unsat":
                raise PathEnd("infeasible")
        ob.time += time.time() - t
        if r != "unsat":
            ob.ok = False
            if len(ob.bad) < 3:
                m = None
                try:
                    rr, m = self.small_model(st, z3.Not(cond))
                    if rr == "unsat":
                        r = "spurious-relevance"
                except Exception as e:
                    pass
                ob.bad.append(dict(result=r, where=self.where(st)[:6], path=st.path[-40:], inputs=self.inputs(st, m) if m is not None else None,
                                   goal=str(cond)[:2000]))
            if not self.feasible(st, cond):
                raise PathEnd("failed")
        self.assume(st, cond)

    def one_select(self, t, depth=0):
        while depth < 4:
            if z3.is_select(t):
                return t
            if z3.is_app(t) and t.num_args() >= 1 and t.decl().kind() in (z3.Z3_OP_EXTRACT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
                t = t.arg(0)
                depth += 1
            else:
                return None
        return None

    def same_index(self, c):
        """a stronger formula: elements of the same array are equal because their indices are"""
        if z3.is_and(c):
            ch = [self.same_index(x) for x in c.children()]
            if all(x is None for x in ch):
                return None
            return z3.And([x if x is not None else y for x, y in zip(ch, c.children())])
        if z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            x, y = self.one_select(a), self.one_select(b)
            if x is not None and y is not None and x.arg(0).eq(y.arg(0)) and z3.substitute(a, (x, y)).eq(b):
                return simp(x.arg(1) == y.arg(1))
        return None

    def small_model(self, st, neg):
        sizes = [t for (nm, t, kind) in st.trace if kind == "size"]
        for lim in (16, 64, 512, 5000):
            ex = [neg] + [z3.ULE(t, lim) for t in sizes]
            r, m = self.check(st.conds, ex, full=True, model=True, timeout=4000)
            if r == "sat":
                return r, m
        return self.check(st.conds, [neg], full=True, model=True)

    def inputs(self, st, m):
        out = []
        for nm, t, kind in st.trace:
            try:
                if kind == "bytes":
                    arr, n = t
                    nn = m.eval(n, model_completion=True).as_long()
                    if nn > 1 << 16:
                        nn = 1 << 16
                    bs = bytes(m.eval(z3.Select(arr, bv(i)), model_completion=True).as_long() for i in range(nn))
                    out.append(["bytes", nm, bs.hex()])
                elif kind == "real":
                    v = m.eval(t, model_completion=True)
                    out.append(["real", nm, float(v.as_fraction()) if z3.is_rational_value(v) else 0.0])
                else:
                    v = m.eval(t, model_completion=True)
                    out.append(["u64", nm, v.as_long()])
            except Exception as e:
                out.append(["u64", nm, 0])
        return out

    def fail_path(self, st, why, kind="abort"):
        """this path ends abnormally (check failure, throw, null deref...)"""
        site = self.codesite(st)
        self.oblige(st, z3.BoolVal(False), "%s:%s:%s" % (kind, site, why), kind)
        raise PathEnd(why)

    # -------------------------------------------------------------- constants
    def const(self, st, v):
        k = v[0]
        if k == "c":
            w = v[1]
            if w == 1:
                return z3.BoolVal(v[2] != "0")
            return bv(int(v[2]), w)
        if k == "fp":
            x = float.fromhex(v[1])
            if x != x or x in (float("inf"), float("-inf")):
                return self.freshr("fpspecial")
            return z3.RealVal(Fraction(x))
        if k == "null":
            return NULL
        if k == "undef":
            return self.undef(v[1])
        if k == "f":
            return FPtr(v[1])
        if k == "g":
            return Ptr(self.globobj(st, v[1]), 0)
        if k == "zero":
            return self.zero(v[1])
        if k == "agg":
            return Agg([self.const(st, e) for e in v[2]])
        if k == "gep":
            return self.gep(st, self.const(st, v[1]), v[2], [(self.const(st, a), s) for a, s in v[3]])
        if k == "ce":
            if v[1] in ("bitcast", "addrspacecast"):
                return self.const(st, v[3])
            if v[1] == "ptrtoint":
                return PInt(self.const(st, v[3]))
            if v[1] == "inttoptr":
                x = self.const(st, v[3])
                if is_const(x) and cval(x) == 0:
                    return NULL
                return Ptr(0, to_signed(cval(x), 64))
            if v[1] == "sub":
                return self.binop(st, "sub", self.const(st, v[3]), self.const(st, v[4]), width(v[2]))
        raise Unsupported("constant %s" % (v[:2],))

    def undef(self, ty):
        if isinstance(ty, str):
            if ty == "ptr":
                return NULL
            if ty in ("double", "float", "fp80"):
                return self.freshr("undef")
            w = width(ty)
            if w == 1:
                return self.freshb("undef")
            return self.fresh("undef", w)
        if ty["k"] == "struct":
            return Agg([self.undef(e[1]) for e in ty["e"]])
        if ty["k"] == "array":
            return Agg([self.undef(ty["e"]) for _ in range(ty["n"])])
        raise Unsupported("undef %s" % ty)

    def zero(self, ty):
        if isinstance(ty, str):
            if ty == "ptr":
                return NULL
            if ty in ("double", "float", "fp80"):
                return z3.RealVal(0)
            w = width(ty)
            if w == 1:
                return z3.BoolVal(False)
            return bv(0, w)
        if ty["k"] == "struct":
            return Agg([self.zero(e[1]) for e in ty["e"]])
        if ty["k"] == "array":
            return Agg([self.zero(ty["e"]) for _ in range(ty["n"])])
        raise Unsupported("zero %s" % ty)

    def globobj(self, st, name):
        oid = self.gobjs.get(name)
        if oid is not None and oid in st.mem:
            return oid
        g = self.mod.gl[name]
        ty = g["t"]
        kind = "struct"
        if isinstance(ty, dict) and ty["k"] == "array" and ty["e"] == "i8":
            kind = "bytes"
        if oid is None:
            self.nobj += 1
            oid = self.gobjs[name] = self.nobj
        o = Obj(oid, "@" + g["d"], g["sz"], kind)
        o.owner = st.tok
        o.ro = bool(g["const"])
        st.mem[oid] = o
        if kind == "bytes":
            arr = z3.Const("glob_" + name, ARR8)
            o.content = cbase(arr)
            init = g.get("init")
            if init and init[0] == "agg":
                for i, e in enumerate(init[2]):
                    o.content = C("int", o.content, bv(i), 1, bv(int(e[2]), 8))
            elif init and init[0] == "zero":
                o.content = C("fill", o.content, bv(0), bv(g["sz"]), bv(0, 8))
        elif "init" in g and (g["const"] or True):
            self.init_cells(st, o, 0, ty, g["init"])
        hook = self.o.get("globals", {}).get(name)
        if hook:
            hook(self, st, o)
        if "init" not in g:
            o.sym = True
        return oid

    def init_cells(self, st, o, off, ty, v):
        if isinstance(ty, str):
            if v[0] == "undef":
                return
            val = self.const(st, v)
            w = width(ty)
            if w:
                sz = (w + 7) // 8
                if w == 1:
                    val = z3.If(val, bv(1, 8), bv(0, 8))
                elif w % 8:
                    val = z3.ZeroExt(sz * 8 - w, val)
            else:
                sz = 8
            o.cells[off] = (sz, val)
            return
        if ty["k"] == "struct":
            for i, (eo, et) in enumerate(ty["e"]):
                self.init_cells(st, o, off + eo, et, ["zero", et] if v[0] == "zero" else (["undef", et] if v[0] == "undef" else v[2][i]))
            return
        if ty["k"] == "array":
            if v[0] == "undef":
                return
            if ty["n"] > 4096:
                o.sym = True
                return
            for i in range(ty["n"]):
                self.init_cells(st, o, off + i * ty["es"], ty["e"], ["zero", ty["e"]] if v[0] == "zero" else v[2][i])
            return
        raise Unsupported("global init")

    def val(self, st, v):
        if v[0] == "v":
            return st.frames[-1].regs[v[1]]
        return self.const(st, v)

    # ------------------------------------------------------------------- gep
    def gep(self, st, p, c, vars):
        if isinstance(p, PInt):
            p = p.p
        if not isinstance(p, Ptr):
            if c == 0 and not vars:
                return p
            raise Unsupported("gep on %r" % (p,))
        if p.obj == 0:
            # arithmetic on null: keep constant offset
            o = p.off + c
            for t, s in vars:
                t = self.as64(t)
                if is_const(t):
                    o += to_signed(cval(t), 64) * s
                else:
                    return Ptr(0, o, t)
            return Ptr(0, o, p.idx)
        ob = st.obj(p.obj)
        off = p.off + c
        idx = p.idx
        stride = 1 if ob.kind == "bytes" else ob.stride
        for t, s in vars:
            t = self.as64(t)
            if ob.kind == "struct":
                if is_const(t):
                    off += to_signed(cval(t), 64) * s
                else:
                    idx = mulc(t, s) if idx is None else add(idx, mulc(t, s))
                continue
            if s % stride == 0:
                d = mulc(t, s // stride)
                idx = d if idx is None else add(idx, d)
            elif is_const(t):
                off += to_signed(cval(t), 64) * s
            else:
                raise Unsupported("gep scale %d in stride %d object %s" % (s, stride, ob.name))
        if ob.kind != "struct" and (off < 0 or off >= stride):
            q = off // stride
            off -= q * stride
            idx = bv(q) if idx is None else add(idx, bv(q))
        if ob.kind == "struct" and idx is not None and is_const(idx):
            off += to_signed(cval(idx), 64)
            idx = None
        return Ptr(p.obj, off, idx)

    def as64(self, t):
        if isinstance(t, PInt):
            return self.pint(t)
        w = t.size()
        if w < 64:
            t = simp(z3.SignExt(64 - w, t))
        return t

    def pint(self, pi):
        """numeric address of a pointer"""
        p = pi.p
        if p.obj == 0:
            return bv(p.off) if p.idx is None else add(p.idx, bv(p.off))
        b = z3.BitVec("addr!%d" % p.obj, 64)
        return add(b, self.byteoff(p, 1))

    def byteoff(self, p, stride):
        r = bv(p.off)
        if p.idx is not None:
            r = add(mulc(p.idx, stride), r)
        return r

    # ---------------------------------------------------------------- memory
    def chk(self, st, p, n, what):
        """bounds check of [p, p+n) ; n python int or BV64. Returns object."""
        if not isinstance(p, Ptr):
            raise Unsupported("%s through %r" % (what, p))
        if p.obj == 0:
            self.fail_path(st, "null-" + what, "mem")
        o = st.mem.get(p.obj)
        if o is None:
            self.fail_path(st, "dangling-" + what, "mem")
        if o.freed:
            self.fail_path(st, "use-after-free-%s-%s" % (what, o.name), "mem")
        if o.guard:
            self.guard_check(st, o, p, n, what)
        nm = "mem:%s:%s" % (self.codesite(st), what)
        stride = 1 if o.kind != "arr" else o.stride
        if p.idx is None and isinstance(o.size, int) and isinstance(n, int):
            if p.off < 0 or p.off + n > o.size:
                self.oblige(st, z3.BoolVal(False), nm, "bounds")
            elif not self.quiet:
                ob = self.obl.get(nm)
                if ob is None:
                    ob = self.obl[nm] = Oblig(nm, "bounds", self.where(st)[:4])
                ob.n += 1
            return o
        if o.kind == "arr":
            # size counted in elements
            i = p.idx if p.idx is not None else bv(0)
            if isinstance(n, int) and p.off + n <= stride:
                self.oblige(st, z3.ULT(i, o.sizebv()), nm, "bounds")
                return o
            raise Unsupported("block access on element array")
        off = self.byteoff(p, 1)
        nb = bv(n) if isinstance(n, int) else n
        sz = o.sizebv()
        self.oblige(st, z3.And(z3.ULE(nb, sz), z3.ULE(off, sz - nb)), nm, "bounds")
        return o

    def guard_check(self, st, o, p, n, what):
        for (lo, hi, mtx, label) in o.guard:
            if p.idx is None and lo <= p.off < hi:
                if not st.held.get(mtx):
                    self.oblige(st, z3.BoolVal(False), "lock:%s:%s-of-%s-without-lock" % (self.codesite(st), what, label), "lock")
                elif not self.quiet:
                    nm = "lock:%s:%s" % (self.codesite(st), label)
                    ob = self.obl.get(nm)
                    if ob is None:
                        ob = self.obl[nm] = Oblig(nm, "lock", self.where(st)[:4])
                    ob.n += 1

    def note_write(self, st, oid, loc):
        if st.written is not None:
            st.written.add((oid, loc))

    def load(self, st, p, ty, n):
        if not isinstance(ty, str):
            # aggregate load: load elementwise
            if ty["k"] == "struct":
                return Agg([self.load(st, self.gep(st, p, eo, []), et, self.tsz(et)) for eo, et in ty["e"]])
            if ty["k"] == "array":
                return Agg([self.load(st, self.gep(st, p, i * ty["es"], []), ty["e"], ty["es"]) for i in range(ty["n"])])
            raise Unsupported("load of %s" % ty)
        o = self.chk(st, p, n, "read")
        w = width(ty)
        if o.kind == "bytes":
            if w is None:
                raise Unsupported("load %s from byte object %s" % (ty, o.name))
            i = p.idx if p.idx is not None else bv(0)
            i = add(i, bv(p.off))
            v = self.readint(st, o.content, i, n)
            if w < 8 * n:
                v = simp(z3.Extract(w - 1, 0, v))
                if w == 1:
                    v = v == bv(1, 1)
            return v
        if o.kind == "arr":
            return self.load_arr(st, o, p, ty, n)
        if p.idx is not None:
            return self.load_symidx(st, o, p, ty, n)
        c = o.cells.get(p.off)
        if c is None or c[0] != n:
            v = self.load_odd(st, p.obj, p.off, n, ty)
        else:
            v = c[1]
        return self.conv(v, ty, n)

    def tsz(self, ty):
        if isinstance(ty, str):
            w = width(ty)
            return 8 if w is None else (w + 7) // 8
        return ty["sz"] if ty["k"] == "struct" else ty["n"] * ty["es"]

    def conv(self, v, ty, n):
        """convert stored cell value to register type"""
        w = width(ty)
        if w is None:
            if ty == "ptr":
                if isinstance(v, (Ptr, FPtr)):
                    return v
                if isinstance(v, PInt):
                    return v.p
                if z3.is_bv(v) and is_const(v) and cval(v) == 0:
                    return NULL
                raise Unsupported("load ptr from int cell %s" % (v,))
            if z3.is_real(v):
                return v
            if z3.is_bv(v) and is_const(v) and cval(v) == 0:
                return z3.RealVal(0)
            raise Unsupported("load %s from %s" % (ty, v))
        if isinstance(v, (Ptr, FPtr)):
            if isinstance(v, Ptr) and v.obj == 0 and v.idx is None:
                return bv(v.off, w)
            return PInt(v)
        if isinstance(v, PInt):
            return v
        if not z3.is_bv(v):
            raise Unsupported("load int from %s" % (v,))
        if w < 8 * n:
            v = simp(z3.Extract(w - 1, 0, v))
            if w == 1:
                v = simp(v == bv(1, 1))
        return v

    def load_odd(self, st, oid, off, n, ty):
        o = st.obj(oid)
        # exact pieces?
        over = [(k, s, v) for k, (s, v) in o.cells.items() if k < off + n and k + s > off]
        if not over:
            # uninitialised / lazily symbolic
            w = width(ty)
            o = st.wobj(oid)
            if w is None:
                if ty == "ptr":
                    if o.sym and self.o["lazy"]:
                        self.assumptions.add("pointer fields of arbitrary objects (%s) are non-null and unaliased" % o.name)
                        q = self.newobj(st, "lazy(%s+%d)" % (o.name, off), 1 << 20, "struct")
                        q.sym = True
                        v = Ptr(q.id)
                    else:
                        raise Unsupported("load of uninitialised pointer %s+%d" % (o.name, off))
                else:
                    v = self.freshr("cell_%s_%d" % (o.name, off))
            else:
                v = self.fresh("cell_%s_%d" % (o.name, off), 8 * n)
            o.cells[off] = (n, v)
            return v
        if len(over) == 1 and over[0][0] <= off and over[0][0] + over[0][1] >= off + n:
            k, s, v = over[0]
            if z3.is_bv(v):
                lo = (off - k) * 8
                return simp(z3.Extract(lo + 8 * n - 1, lo, v))
            if isinstance(v, Ptr) and v.obj == 0 and v.idx is None:
                return simp(z3.Extract((off - k) * 8 + 8 * n - 1, (off - k) * 8, bv(v.off, 64)))
            raise Unsupported("partial load of pointer cell %s+%d" % (o.name, off))
        # concat bytes
        bs = []
        for i in range(off, off + n):
            hit = None
            for k, s, v in over:
                if k <= i < k + s:
                    hit = (k, s, v)
            if hit is None:
                b = self.fresh("cell_%s_%d" % (o.name, i), 8)
                st.wobj(oid).cells[i] = (1, b)
            else:
                k, s, v = hit
                if isinstance(v, Ptr) and v.obj == 0 and v.idx is None:
                    v = bv(v.off, 64)
                if not z3.is_bv(v):
                    raise Unsupported("mixed load %s+%d" % (o.name, off))
                b = z3.Extract((i - k) * 8 + 7, (i - k) * 8, v)
            bs.append(b)
        return simp(z3.Concat(*reversed(bs))) if len(bs) > 1 else simp(bs[0])

    def load_symidx(self, st, o, p, ty, n):
        w = width(ty)
        if w is None and ty != "double":
            raise Unsupported("symbolic index pointer load in %s" % o.name)
        cells = [(k, v) for k, (s, v) in o.cells.items() if s == n and (z3.is_bv(v) or z3.is_real(v))]
        if len(cells) > 600:
            raise Unsupported("symbolic index into large object %s" % o.name)
        if o.sym or len(cells) * n < 8:
            raise Unsupported("symbolic index into %s" % o.name)
        off = self.byteoff(p, 1)
        r = None
        cells.sort(key=lambda x: x[0])
        for k, v in cells:
            r = v if r is None else z3.If(off == bv(k), v, r)
        # must hit one of the cells
        self.oblige(st, z3.Or(*[off == bv(k) for k, v in cells]), "mem:%s:indexed-read" % self.codesite(st), "bounds")
        return self.conv(r, ty, n)

    def load_arr(self, st, o, p, ty, n):
        w = width(ty)
        if w is None and ty != "double":
            raise Unsupported("pointer load from element array %s" % o.name)
        a = o.arrays.get(p.off)
        i = p.idx if p.idx is not None else bv(0)
        if a is None:
            o = st.wobj(o.id)
            arr = self.fresharr("%s_f%d" % (o.name, p.off), 8 * n)
            o.arrays[p.off] = a = (n, arr)
        if a[0] != n:
            raise Unsupported("element field size mismatch")
        v = simp(z3.Select(a[1], i))
        return self.conv(v, ty, n)

    def tocell(self, v, ty, n):
        if isinstance(v, (Ptr, FPtr, PInt)):
            return v
        w = width(ty)
        if w is not None:
            if w == 1:
                return simp(z3.If(v, bv(1, 8), bv(0, 8)))
            if w < 8 * n:
                return simp(z3.ZeroExt(8 * n - w, v))
        return v

    def store(self, st, p, v, ty, n):
        if isinstance(v, Agg):
            if ty["k"] == "struct":
                for (eo, et), x in zip(ty["e"], v.e):
                    self.store(st, self.gep(st, p, eo, []), x, et, self.tsz(et))
                return
            for i, x in enumerate(v.e):
                self.store(st, self.gep(st, p, i * ty["es"], []), x, ty["e"], ty["es"])
            return
        o = self.chk(st, p, n, "write")
        if o.ro:
            self.fail_path(st, "write to constant %s" % o.name, "mem")
        v = self.tocell(v, ty, n)
        o = st.wobj(p.obj)
        if o.kind == "bytes":
            if not z3.is_bv(v):
                if isinstance(v, PInt):
                    v = self.pint(v)
                else:
                    raise Unsupported("store %r to byte object %s" % (v, o.name))
            i = add(p.idx if p.idx is not None else bv(0), bv(p.off))
            o.content = C("int", o.content, i, n, v)
            self.note_write(st, o.id, "bytes")
            return
        if o.kind == "arr":
            i = p.idx if p.idx is not None else bv(0)
            a = o.arrays.get(p.off)
            if a is None:
                a = (n, self.fresharr("%s_f%d" % (o.name, p.off), 8 * n))
            if a[0] != n or not z3.is_bv(v):
                raise Unsupported("element store mismatch")
            o.arrays[p.off] = (n, z3.Store(a[1], i, v))
            self.note_write(st, o.id, ("arr", p.off))
            return
        if p.idx is not None:
            off = self.byteoff(p, 1)
            cells = [(k, c) for k, (s, c) in o.cells.items() if s == n and z3.is_bv(c)]
            if o.sym or not cells:
                raise Unsupported("symbolic index store into %s" % o.name)
            self.oblige(st, z3.Or(*[off == bv(k) for k, c in cells]), "mem:%s:indexed-write" % self.codesite(st), "bounds")
            for k, c in cells:
                o.cells[k] = (n, simp(z3.If(off == bv(k), v, c)))
                self.note_write(st, o.id, (k, n))
            return
        self.setcell(st, o, p.off, n, v)

    def setcell(self, st, o, off, n, v):
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clobber(st, o, off, n)
        o.cells[off] = (n, v)
        self.note_write(st, o.id, (off, n))

    def clobber(self, st, o, off, n):
        for k in list(o.cells):
            s, v = o.cells[k]
            if k < off + n and k + s > off:
                del o.cells[k]
                if z3.is_bv(v):
                    if k < off:
                        for i in range(k, off):
                            o.cells[i] = (1, simp(z3.Extract((i - k) * 8 + 7, (i - k) * 8, v)))
                    for i in range(max(off + n, k), k + s):
                        o.cells[i] = (1, simp(z3.Extract((i - k) * 8 + 7, (i - k) * 8, v)))
        if o.abs:
            pass

    # ---------------------------------------------------------- byte contents
    def rng(self, st, i, start, n):
        """is index i inside [start,start+n)?  True/False/None, condition"""
        d = cdiff(i, start)
        if isinstance(n, int) and d is not None:
            return (0 <= d < n), None
        nb = bv(n) if isinstance(n, int) else n
        # [start, start+n) lies inside an object, so start+n does not wrap
        cond = simp(z3.And(z3.ULE(start, i), z3.ULT(i, start + nb)))
        r = self.decide(st, cond)
        return r, cond

    def readbyte(self, st, c, i):
        pend = []  # (cond, value)
        while True:
            if c.k == "base":
                v = z3.Select(c.x, i)
                break
            if c.k == "int":
                r, cond = self.rng(st, i, c.start, c.n)
                if r is False:
                    c = c.prev
                    continue
                if c.n == 1:
                    x = c.x
                else:
                    d = cdiff(i, c.start)
                    if d is not None and 0 <= d < c.n:
                        x = z3.Extract(d * 8 + 7, d * 8, c.x)
                    else:
                        sh = z3.ZeroExt(0, simp(i - c.start))
                        x = None
                        for kk in range(c.n):
                            b = z3.Extract(kk * 8 + 7, kk * 8, c.x)
                            x = b if x is None else z3.If(sh == bv(kk), b, x)
                if r is True:
                    v = x
                    break
                pend.append((cond, x))
                c = c.prev
                continue
            r, cond = self.rng(st, i, c.start, c.n)
            if r is False:
                c = c.prev
                continue
            if c.k == "fill":
                x = c.x
            elif c.k == "tok":
                x = self.tokbyte(c.x, simp(i - c.start))
            elif c.k == "seg":
                x = self.readbyte(st, c.x, add(c.y, sub(i, c.start)))
            else:
                raise Unsupported("content " + c.k)
            if r is True:
                v = x
                break
            pend.append((cond, x))
            c = c.prev
        for cond, x in reversed(pend):
            v = z3.If(cond, x, v)
        return simp(v)

    def tokbyte(self, tok, k):
        f = z3.Function("tokbyte_%s" % tok.kind, BV64, BV64, BV8)
        return f(tok.val, k)

    def readint(self, st, c, i, n):
        if n == 1:
            return self.readbyte(st, c, i)
        # whole-int fast path
        cc = c
        while cc.k != "base":
            d = cdiff(i, cc.start)
            if cc.k == "int" and d is not None:
                if d == 0 and cc.n == n:
                    return cc.x
                if 0 <= d and d + n <= cc.n:
                    return simp(z3.Extract((d + n) * 8 - 1, d * 8, cc.x))
                if d + n <= 0 or d >= cc.n:
                    cc = cc.prev
                    continue
                break
            if self.disjoint(st, i, bv(n), cc.start, bv(cc.n) if isinstance(cc.n, int) else cc.n):
                cc = cc.prev
                continue
            if cc.k == "seg" and self.inside(st, i, bv(n), cc.start, cc.n):
                return self.readint(st, cc.x, add(cc.y, sub(i, cc.start)), n)
            break
        bs = [self.readbyte(st, c, add(i, bv(k))) for k in range(n)]
        return simp(z3.Concat(*reversed(bs)))

    def disjoint(self, st, a, n, b, m):
        """[a,a+n) and [b,b+m) provably disjoint (no wrap assumed by bounds)"""
        d = cdiff(a, b)
        if d is not None:
            if is_const(n) and d + cval(n) <= 0:
                return True
            if is_const(m) and d >= cval(m):
                return True
        cond = z3.Or(z3.ULE(a + n, b), z3.ULE(b + m, a), n == 0, m == 0)
        return self.decide(st, cond) is True

    def inside(self, st, a, n, b, m):
        m = bv(m) if isinstance(m, int) else m
        d = cdiff(a, b)
        if d is not None and is_const(n) and is_const(m):
            return d >= 0 and d + cval(n) <= cval(m)
        cond = z3.And(z3.ULE(b, a), z3.ULE(a + n, b + m))
        return self.decide(st, cond) is True

    def root(self, st, c, i, n):
        """chase copies: the content/offset the range [i,i+n) of c came from"""
        while True:
            if c.k == "base":
                return c, i
            m = bv(c.n) if isinstance(c.n, int) else c.n
            if self.disjoint(st, i, n, c.start, m):
                c = c.prev
                continue
            if c.k == "seg" and self.inside(st, i, n, c.start, m):
                i = add(c.y, sub(i, c.start))
                c = c.x
                continue
            return c, i

    def same_bytes(self, st, c1, i1, c2, i2, n):
        """Bool term: the n bytes at (c1,i1) equal those at (c2,i2). Sound as a goal."""
        if is_const(n) and cval(n) == 0:
            return z3.BoolVal(True)
        r1, j1 = self.root(st, c1, i1, n)
        r2, j2 = self.root(st, c2, i2, n)
        if r1 is r2 or (r1.k == "base" and r2.k == "base" and r1.x.eq(r2.x)):
            if self.decide(st, j1 == j2) is True:
                return z3.BoolVal(True)
        if r1.k == "tok" and r2.k == "tok" and r1.x is r2.x and self.decide(st, z3.And(j1 == r1.start, j2 == r2.start)) is True:
            return z3.BoolVal(True)
        if is_const(n) and cval(n) <= 64:
            return simp(z3.And(*[self.readbyte(st, c1, add(i1, bv(k))) == self.readbyte(st, c2, add(i2, bv(k))) for k in range(cval(n))]))
        k = self.fresh("sk")
        # skolemised goal: for an arbitrary k<n the bytes agree
        s2 = st.clone()
        try:
            self.assume(s2, z3.ULT(k, n))
            b1 = self.readbyte(s2, c1, add(i1, k))
            b2 = self.readbyte(s2, c2, add(i2, k))
        except PathEnd:
            return z3.BoolVal(True)
        return z3.Implies(z3.ULT(k, n), b1 == b2)

    def memcopy(self, st, dst, src, n, what="memcpy"):
        """n: python int or BV64"""
        if not isinstance(n, int):
            n = simp(n)
            if is_const(n):
                n = cval(n)
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, int) and n > (1 << 62):
            self.fail_path(st, "negative length " + what, "mem")
        if not isinstance(n, int):
            if self.decide(st, n == 0) is True:
                return
            if (isinstance(src, Ptr) and src.obj == 0) or (isinstance(dst, Ptr) and dst.obj == 0):
                self.oblige(st, n == 0, "mem:%s:%s-null" % (self.codesite(st), what), "bounds")
                return
        so = self.chk(st, src, n, "read")
        do = self.chk(st, dst, n, "write")
        if do.ro:
            self.fail_path(st, "write to constant %s" % do.name, "mem")
        do = st.wobj(dst.obj)
        so = st.obj(src.obj)
        if so.kind == "bytes" and do.kind == "bytes":
            si = add(src.idx if src.idx is not None else bv(0), bv(src.off))
            di = add(dst.idx if dst.idx is not None else bv(0), bv(dst.off))
            if isinstance(n, int) and n <= 8:
                v = self.readint(st, so.content, si, n)
                do.content = C("int", do.content, di, n, v)
            else:
                nb = bv(n) if isinstance(n, int) else n
                do.content = C("seg", do.content, di, nb, so.content, si)
            self.note_write(st, do.id, "bytes")
            return
        if not isinstance(n, int):
            raise Unsupported("symbolic size copy between %s and %s" % (so.name, do.name))
        if so.kind == "struct" and do.kind == "struct" and src.idx is None and dst.idx is None:
            cs = [(k, c) for k, c in so.cells.items() if src.off <= k and k + c[0] <= src.off + n]
            ab = [(k, a) for k, a in so.abs.items() if src.off <= k < src.off + n]
            self.clobber(st, do, dst.off, n)
            for k, c in cs:
                do.cells[k - src.off + dst.off] = c
                self.note_write(st, do.id, (k - src.off + dst.off, c[0]))
            for k, a in ab:
                do.abs[k - src.off + dst.off] = a
            return
        # element / bytes <-> struct
        if so.kind == "arr" and do.kind in ("struct", "arr"):
            for fo, (fs, arr) in list(so.arrays.items()):
                if src.off <= fo < src.off + n:
                    v = simp(z3.Select(arr, src.idx if src.idx is not None else bv(0)))
                    q = self.gep(st, dst, fo - src.off, [])
                    self.store(st, q, v, "i%d" % (8 * fs), fs)
            return
        if so.kind == "struct" and do.kind in ("arr",):
            cs = [(k, c) for k, c in so.cells.items() if src.off <= k and k + c[0] <= src.off + n]
            for k, (s, v) in cs:
                self.store(st, self.gep(st, dst, k - src.off, []), v, "i%d" % (8 * s), s)
            return
        if so.kind == "bytes" and do.kind == "struct" and dst.idx is None:
            si = add(src.idx if src.idx is not None else bv(0), bv(src.off))
            k = 0
            while k < n:
                m = 8 if n - k >= 8 else (4 if n - k >= 4 else (2 if n - k >= 2 else 1))
                self.setcell(st, do, dst.off + k, m, self.readint(st, so.content, add(si, bv(k)), m))
                k += m
            return
        if so.kind == "struct" and do.kind == "bytes" and src.idx is None:
            di = add(dst.idx if dst.idx is not None else bv(0), bv(dst.off))
            k = 0
            while k < n:
                c = so.cells.get(src.off + k)
                if c and k + c[0] <= n and z3.is_bv(c[1]):
                    m, v = c
                else:
                    m = 1
                    v = self.load_odd(st, src.obj, src.off + k, 1, "i8")
                do.content = C("int", do.content, add(di, bv(k)), m, v)
                k += m
            self.note_write(st, do.id, "bytes")
            return
        raise Unsupported("memcpy %s(%s) <- %s(%s)" % (do.name, do.kind, so.name, so.kind))

    def memset(self, st, dst, b, n):
        n = simp(n)
        o = self.chk(st, dst, cval(n) if is_const(n) else n, "write")
        if is_const(n) and cval(n) == 0:
            return
        o = st.wobj(dst.obj)
        if o.kind == "bytes":
            di = add(dst.idx if dst.idx is not None else bv(0), bv(dst.off))
            o.content = C("fill", o.content, di, n, b)
            self.note_write(st, o.id, "bytes")
            return
        if not is_const(n) or dst.idx is not None:
            raise Unsupported("memset symbolic on %s" % o.name)
        nn = cval(n)
        have = {k: c for k, c in o.cells.items() if dst.off <= k and k + c[0] <= dst.off + nn}
        self.clobber(st, o, dst.off, nn)
        k = dst.off
        while k < dst.off + nn:
            m = 8 if (k % 8 == 0 and dst.off + nn - k >= 8) else (4 if k % 4 == 0 and dst.off + nn - k >= 4 else 1)
            if is_const(b) and cval(b) == 0:
                v = bv(0, 8 * m)
            else:
                v = simp(z3.Concat(*([b] * m))) if m > 1 else b
            o.cells[k] = (m, v)
            self.note_write(st, o.id, (k, m))
            k += m

    # -------------------------------------------------------------- arithmetic
    def rem(self, st, a, b, w):
        """a % b for a variable b, as a named value with the linear facts that relate it to other remainders of the same b"""
        if not hasattr(self, "rems"):
            self.rems = {}
        l = self.rems.setdefault(b.get_id(), (b, []))[1]
        for a1, r1 in l:
            if a1.eq(a):
                r = r1
                break
        else:
            r = self.fresh("rem", w)
            l.append((a, r))
        pos = z3.And(a >= 0, b > 0)
        f = [z3.Implies(pos, z3.And(r >= 0, r < b)), z3.Implies(z3.And(pos, a < b), r == a)]
        f.append(z3.Implies(z3.And(pos, a == b), r == 0))
        if is_const(a):
            f.append(z3.Implies(b > 0, r == z3.SRem(a, b)) if cval(a) else r == 0)
        for a1, r1 in l:
            if a1.eq(a):
                continue
            for x, rx, y, ry in ((a, r, a1, r1), (a1, r1, a, r)):  # y = x + k with rx + k < b, or == b
                k = simp(y - x)
                g = z3.And(pos, x >= 0, y >= x, k <= b)
                f.append(z3.Implies(z3.And(g, k < b - rx), ry == rx + k))
                f.append(z3.Implies(z3.And(g, k == b - rx), ry == 0))
                f.append(z3.Implies(z3.And(pos, x == y), rx == ry))
        for c in f:
            self.assume(st, simp(c))
        return r

    def binop(self, st, op, a, b, w, ins=None):
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            if op == "fadd":
                return z3.simplify(a + b)
            if op == "fsub":
                return z3.simplify(a - b)
            if op == "fmul":
                return z3.simplify(a * b)
            if op == "fdiv":
                return z3.simplify(a / b) if z3.is_rational_value(b) else a / b
            raise Unsupported(op)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt) and a.p.obj == b.p.obj:
                if a.p.obj == 0:
                    return bv(a.p.off - b.p.off)
                o = st.obj(a.p.obj)
                stride = o.stride if o.kind == "arr" else 1
                return simp(self.byteoff(a.p, stride) - self.byteoff(b.p, stride))
            if op in ("add", "sub") and isinstance(a, PInt) and not isinstance(b, PInt):
                if op == "sub":
                    b = simp(-b)
                return PInt(self.gep(st, a.p, 0, [(b, 1)]))
            if isinstance(a, PInt):
                a = self.pint(a)
            if isinstance(b, PInt):
                b = self.pint(b)
        if w == 1:
            if op == "and":
                return simp(z3.And(a, b))
            if op == "or":
                return simp(z3.Or(a, b))
            if op in ("xor", "add", "sub"):
                return simp(z3.Xor(a, b))
            raise Unsupported("i1 " + op)
        if op == "add":
            if ins and self.o["overflow"] and "s" in ins.get("fl", ""):
                self.ovf(st, z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)))
            return add(a, b)
        if op == "sub":
            if ins and self.o["overflow"] and "s" in ins.get("fl", ""):
                self.ovf(st, z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))
            return sub(a, b)
        if op == "mul":
            if ins and self.o["overflow"] and "s" in ins.get("fl", ""):
                self.ovf(st, z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)))
            return simp(a * b)
        if op in ("sdiv", "udiv", "srem", "urem"):
            self.oblige(st, b != 0, "div:%s:divide-by-zero" % self.codesite(st), "ub")
            if op == "sdiv":
                # exact division of k*x by k
                return simp(a / b)
            if op == "udiv":
                return simp(z3.UDiv(a, b))
            if op == "srem":
                if not is_const(b) and w >= 32:
                    return self.rem(st, a, b, w)
                return simp(z3.SRem(a, b))
            return simp(z3.URem(a, b))
        if op in ("shl", "lshr", "ashr"):
            if not is_const(b):
                self.oblige(st, z3.ULT(b, w), "shift:%s" % self.codesite(st), "ub")
            elif cval(b) >= w:
                self.fail_path(st, "shift too large", "ub")
            if op == "shl":
                return simp(a << b)
            if op == "lshr":
                return simp(z3.LShR(a, b))
            return simp(a >> b)
        if op in ("and", "or", "xor"):
            x, y = self.asbool(a), self.asbool(b)
            if x is not None and y is not None:
                r = z3.And(x, y) if op == "and" else z3.Or(x, y) if op == "or" else z3.Xor(x, y)
                r = simp(r)
                if z3.is_true(r) or z3.is_false(r):
                    return bv(1 if z3.is_true(r) else 0, w)
                return z3.If(r, bv(1, w), bv(0, w))
        if op == "and":
            return simp(a & b)
        if op == "or":
            return simp(a | b)
        if op == "xor":
            return simp(a ^ b)
        raise Unsupported("binop " + op)

    @staticmethod
    def asbool(t):
        """c if t is (c ? 1 : 0)"""
        if is_const(t):
            return z3.BoolVal(cval(t) == 1) if cval(t) in (0, 1) else None
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            x, y = t.arg(1), t.arg(2)
            if is_const(x) and is_const(y):
                if cval(x) == 1 and cval(y) == 0:
                    return t.arg(0)
                if cval(x) == 0 and cval(y) == 1:
                    return simp(z3.Not(t.arg(0)))
        return None

    def ovf(self, st, cond):
        site = self.codesite(st)
        flt = self.o["overflow"]
        if flt is True or re.search(flt, site):
            self.oblige(st, cond, "overflow:%s" % site, "overflow")

    def icmp(self, st, pred, a, b, ot):
        isp = isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr))
        if isinstance(a, PInt) and isinstance(b, PInt):
            a, b, isp = a.p, b.p, True
        elif isinstance(a, PInt) or isinstance(b, PInt):
            # pointer-int against integer: null test
            pi, x = (a, b) if isinstance(a, PInt) else (b, a)
            if z3.is_bv(x) and is_const(x) and cval(x) == 0 and pred in ("eq", "ne"):
                z = isinstance(pi.p, Ptr) and pi.p.obj == 0 and pi.p.off == 0
                return z3.BoolVal(z == (pred == "eq"))
            a = self.pint(a) if isinstance(a, PInt) else a
            b = self.pint(b) if isinstance(b, PInt) else b
        if isp:
            return self.pcmp(st, pred, a, b)
        if ot == "i1":
            if pred == "eq":
                return simp(a == b)
            if pred == "ne":
                return simp(z3.Xor(a, b))
            a = z3.If(a, bv(1, 1), bv(0, 1))
            b = z3.If(b, bv(1, 1), bv(0, 1))
        f = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
             "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b,
             "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]
        return simp(f())

    def pcmp(self, st, pred, a, b):
        if isinstance(a, FPtr) or isinstance(b, FPtr):
            same = isinstance(a, FPtr) and isinstance(b, FPtr) and a.name == b.name
            if pred == "eq":
                return z3.BoolVal(same)
            if pred == "ne":
                return z3.BoolVal(not same)
            raise Unsupported("function pointer order")
        if a.obj != b.obj:
            if pred == "eq":
                return z3.BoolVal(False)
            if pred == "ne":
                return z3.BoolVal(True)
            x, y = self.pint(PInt(a)), self.pint(PInt(b))
            return self.icmp(st, pred, x, y, "i64")
        if a.obj == 0:
            x = bv(a.off) if a.idx is None else add(a.idx, bv(a.off))
            y = bv(b.off) if b.idx is None else add(b.idx, bv(b.off))
        else:
            o = st.obj(a.obj)
            stride = o.stride if o.kind == "arr" else 1
            if a.off == b.off and o.kind == "arr":
                x = a.idx if a.idx is not None else bv(0)
                y = b.idx if b.idx is not None else bv(0)
            else:
                x, y = self.byteoff(a, stride), self.byteoff(b, stride)
        # offsets inside one object are non negative and below 2^62: order on them
        return self.icmp(st, {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred), x, y, "i64")

    def fcmp(self, pred, a, b):
        f = {"oeq": a == b, "one": a != b, "olt": a < b, "ole": a <= b, "ogt": a > b, "oge": a >= b, "ueq": a == b, "une": a != b,
             "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b, "ord": z3.BoolVal(True), "uno": z3.BoolVal(False)}[pred]
        return z3.simplify(f)

    def cast(self, st, op, v, fr, to):
        wf, wt = width(fr), width(to)
        if op == "ptrtoint":
            if isinstance(v, Ptr) and v.obj == 0 and v.idx is None:
                return bv(v.off, wt)
            return PInt(v)
        if op == "inttoptr":
            if isinstance(v, PInt):
                return v.p
            if is_const(v):
                return Ptr(0, to_signed(cval(v), 64))
            raise Unsupported("inttoptr")
        if op in ("bitcast", "addrspacecast"):
            if fr == to:
                return v
            raise Unsupported("bitcast")
        if op in ("fpext", "fptrunc"):
            return v
        if op in ("sitofp", "uitofp"):
            if wf == 1:
                return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            if is_const(v):
                return z3.RealVal(to_signed(cval(v), wf) if op == "sitofp" else cval(v))
            return z3.ToReal(z3.BV2Int(v, op == "sitofp"))
        if op in ("fptosi", "fptoui"):
            self.assumptions.add("float to integer conversions modelled as truncation of a mathematical real")
            r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return z3.Int2BV(r, wt)
        if isinstance(v, PInt):
            if op == "trunc" and wt == 64:
                return v
            v = self.pint(v)
        if op == "trunc":
            if wt == 1:
                return simp(z3.Extract(0, 0, v) == bv(1, 1))
            return simp(z3.Extract(wt - 1, 0, v))
        if op == "zext":
            if wf == 1:
                return simp(z3.If(v, bv(1, wt), bv(0, wt)))
            return simp(z3.ZeroExt(wt - wf, v))
        if op == "sext":
            if wf == 1:
                return simp(z3.If(v, bv((1 << wt) - 1, wt), bv(0, wt)))
            return simp(z3.SignExt(wt - wf, v))
        raise Unsupported("cast " + op)

    # ------------------------------------------------------------- interpreter
    def handler(self, name):
        if name in self.hcache:
            return self.hcache[name]
        f = self.mod.fn.get(name)
        d = f["d"] if f else name
        r = None
        for rx, h, tag in reversed(self.handlers):
            m = rx.match(d) or (rx.match(name))
            if m:
                r = (h, m, tag)
                break
        self.hcache[name] = r
        return r

    def add_handler(self, rx, h, tag="trusted"):
        self.handlers.append((re.compile(rx), h, tag))
        self.hcache = {}

    def run(self, name, args=None, st=None):
        st = st or State()
        fn = self.mod.fn.get(name)
        if fn is None or "blocks" not in fn:
            raise Unsupported("no such function " + name)
        fr = Frame(fn, None)
        for (i, ty, bvs, sret, deref), a in zip(fn["args"], args or []):
            fr.regs[i] = a
        st.frames.append(fr)
        self.explore([st])

    def explore(self, work, cut=None):
        """DFS. cut(st) -> True stops the state and it is returned in the list."""
        out = []
        while work:
            st = work.pop()
            if time.time() - self.t0 > self.o["budget"]:
                raise Budget("time budget")
            try:
                r = self.exec_path(st, cut)
            except PathEnd as e:
                self.paths += 1
                continue
            if r is None:
                self.paths += 1
                self.completed += 1
                continue
            if isinstance(r, list):
                self.spaths += len(r) - 1
                if self.spaths > self.o["maxpaths"]:
                    raise Budget("path budget")
                work.extend(reversed(r))
            else:
                out.append(st)
        return out

    def jump(self, st, bi):
        fr = st.frames[-1]
        fr.pi = fr.bi
        fr.bi = bi
        fr.ii = 0

    def do_phis(self, st):
        fr = st.frames[-1]
        blk = fr.fn["blocks"][fr.bi]
        vals = []
        k = 0
        while k < len(blk) and blk[k]["o"] == "phi":
            for b, v in blk[k]["in"]:
                if b == fr.pi:
                    vals.append((blk[k]["i"], self.val(st, v)))
                    break
            else:
                raise Unsupported("phi: no value for predecessor %s of block %s in %s" % (fr.pi, fr.bi, fr.fn["d"]))
            k += 1
        for i, v in vals:
            fr.regs[i] = v
        fr.ii = k

    def exec_path(self, st, cut):
        steps = 0
        while True:
            if not st.frames:
                return None
            fr = st.frames[-1]
            if fr.ii == 0:
                if cut is not None and cut(st):
                    return st
                lh = fr.fn["lh"].get(fr.bi)
                if lh is not None:
                    r = self.at_header(st, fr, lh, cut)
                    if r is not None:
                        return r
                if fr.fn["blocks"][fr.bi][0]["o"] == "phi":
                    self.do_phis(st)
            ins = fr.fn["blocks"][fr.bi][fr.ii]
            steps += 1
            if steps % 2000 == 0 and time.time() - self.t0 > self.o["budget"]:
                raise Budget("time budget")
            try:
                r = self.step(st, fr, ins, cut)
            except (PathEnd, NeedInvariant, Budget, Unsupported):
                raise
            except (KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, ValueError) as e:
                if os.environ.get("VP_TRACE"):
                    raise
                raise Unsupported("engine: %s %s at %s" % (type(e).__name__, e, self.where(st)[:3]))
            if r is not None:
                return r

    def at_header(self, st, fr, blocks, cut):
        fn = fr.fn
        h = fr.bi
        if fr.lc.pop(("skip", h), None):
            return None
        back = fr.pi in blocks
        if back and isinstance(fr.lc.get(h), tuple):
            import invariants
            invariants.back_edge(self, st, fr, h)
        mode = self.loop_mode(fn, h)
        if mode is not None and self.o["peel"]:
            # the first iterations are executed as they are, the invariant holds from then on
            fr.lc[h] = 0 if not back else fr.lc.get(h, 0) + 1
            if fr.lc[h] < self.o["peel"]:
                return None
            return self.inv_loop(st, fr, h, blocks, mode, cut)
        if mode is not None and not back:
            return self.inv_loop(st, fr, h, blocks, mode, cut)
        if not back:
            fr.lc[h] = 0
        else:
            fr.lc[h] = fr.lc.get(h, 0) + 1
            if fr.lc[h] > self.unroll_limit(fn, h):
                if self.o.get("bounded"):
                    self.assumptions.add("bounded: at most %d iterations of the loop in %s" % (self.unroll_limit(fn, h), fn["d"].split("(")[0]))
                    raise PathEnd("bound")
                raise NeedInvariant(fn["n"], h)
        return None

    def unroll_limit(self, fn, h):
        for rx, lim in self.o.get("unrolls", []):
            if re.search(rx, fn["d"]):
                return lim
        return self.o["unroll"]

    def loop_mode(self, fn, h):
        k = (fn["n"], h)
        if k in self.inv:
            return self.inv[k]
        r = None
        for rx, hh, cfg in self.loopcfg:
            if (hh is None or hh == h) and re.search(rx, fn["d"]):
                r = cfg
                break
        self.inv[k] = r
        return r

    # -------------------------------------------------------- loop invariants
    def inv_loop(self, st, fr, h, blocks, cfg, cut):
        import invariants
        return invariants.handle(self, st, fr, h, blocks, cfg, cut)

    # ------------------------------------------------------------------ steps
    def branch(self, st, cond, then, els):
        """fork on cond: returns list of states or None when decided in place"""
        cond = simp(cond)
        if z3.is_true(cond):
            then(st)
            return None
        if z3.is_false(cond):
            els(st)
            return None
        ncond = simp(z3.Not(cond))
        ft = self.feasible(st, cond)
        ff = self.feasible(st, ncond) if ft else True
        if ft and ff:
            if FORKS is not None:
                w = str([x[:3] for x in self.where(st)[:3]])
                FORKS[w] = FORKS.get(w, 0) + 1
            s2 = st.clone()
            out = []
            try:
                self.assume(st, cond)
                then(st)
                out.append(st)
            except PathEnd:
                pass
            try:
                self.assume(s2, ncond)
                els(s2)
                out.append(s2)
            except PathEnd:
                pass
            if not out:
                raise PathEnd()
            return out
        if ft:
            self.assume(st, cond)
            then(st)
        else:
            self.assume(st, ncond)
            els(st)
        return None

    def step(self, st, fr, ins, cut):
        o = ins["o"]
        regs = fr.regs
        if o == "load":
            p = self.val(st, ins["p"])
            regs[ins["i"]] = self.load(st, p, ins["t"], ins["sz"])
            fr.ii += 1
            return None
        if o == "store":
            p = self.val(st, ins["p"])
            v = self.val(st, ins["v"])
            self.store(st, p, v, ins["vt"], ins["sz"])
            fr.ii += 1
            return None
        if o == "gep":
            g = ins["g"]
            if g[0] == "unk":
                raise Unsupported("gep")
            regs[ins["i"]] = self.gep(st, self.val(st, g[1]), g[2], [(self.val(st, a), s) for a, s in g[3]])
            fr.ii += 1
            return None
        if o == "br":
            self.jump(st, ins["d"])
            return None
        if o == "cbr":
            c = self.val(st, ins["c"])
            d1, d2 = ins["d"]
            if d1 == d2:
                self.jump(st, d1)
                return None
            if self.o["merge"] and not z3.is_true(simp(c)) and not z3.is_false(simp(c)):
                r = self.try_merge(st, fr, ins, c, d1, d2, cut)
                if r is not None:
                    return r
            l = ins["l"]
            def t(s):
                s.path.append("%s:%d T" % (fr.fn["d"].split("(")[0][-40:], l))
                self.jump(s, d1)
            def e(s):
                s.path.append("%s:%d F" % (fr.fn["d"].split("(")[0][-40:], l))
                self.jump(s, d2)
            return self.branch(st, c, t, e)
        if o == "icmp":
            a, b = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            regs[ins["i"]] = self.icmp(st, ins["p"], a, b, ins["ot"])
            fr.ii += 1
            return None
        if o in ("call", "invoke"):
            return self.call(st, fr, ins)
        if o == "ret":
            v = self.val(st, ins["v"]) if "v" in ins else None
            return self.ret(st, v)
        if o == "alloca":
            sz = ins["sz"]
            at = ins["at"]
            cnt = self.val(st, ins["cnt"])
            nm = "%s.%d" % (fr.fn["d"].split("(")[0].split("::")[-1], ins["i"])
            if not is_const(cnt):
                cnt = self.as64(cnt)
                if at != "i8":
                    raise Unsupported("VLA")
                self.oblige(st, z3.And(z3.UGT(cnt, 0), z3.ULT(cnt, 1 << 40)), "vla:%s" % self.codesite(st), "ub")
                ob = self.newobj(st, nm, cnt, "bytes")
                ob.content = cbase(self.fresharr(nm))
            else:
                kind = "struct"
                if isinstance(at, dict) and at["k"] == "array" and at["e"] == "i8":
                    kind = "bytes"
                if at == "i8" and cval(cnt) > 1:
                    kind = "bytes"
                ob = self.newobj(st, nm, sz * cval(cnt), kind)
                if kind == "bytes":
                    ob.content = cbase(self.fresharr(nm))
            fr.allocas.append(ob.id)
            regs[ins["i"]] = Ptr(ob.id)
            fr.ii += 1
            return None
        if o == "switch":
            return self.switch(st, fr, ins)
        if o == "select":
            c, a, b = [self.val(st, x) for x in ins["a"]]
            if a is b or (isinstance(a, Ptr) and a.same(b)):
                regs[ins["i"]] = a
                fr.ii += 1
                return None
            if z3.is_true(c) or z3.is_false(c):
                regs[ins["i"]] = a if z3.is_true(c) else b
                fr.ii += 1
                return None
            if isinstance(a, (Ptr, FPtr, PInt, Agg)) or isinstance(b, (Ptr, FPtr, PInt, Agg)):
                def t(s):
                    f = s.frames[-1]
                    f.regs[ins["i"]] = a
                    f.ii += 1
                def e(s):
                    f = s.frames[-1]
                    f.regs[ins["i"]] = b
                    f.ii += 1
                return self.branch(st, c, t, e)
            regs[ins["i"]] = simp(z3.If(c, a, b))
            fr.ii += 1
            return None
        if o in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"):
            regs[ins["i"]] = self.cast(st, o, self.val(st, ins["a"][0]), ins["st"], ins["t"])
            fr.ii += 1
            return None
        if o == "fcmp":
            regs[ins["i"]] = self.fcmp(ins["p"], self.val(st, ins["a"][0]), self.val(st, ins["a"][1]))
            fr.ii += 1
            return None
        if o == "fneg":
            regs[ins["i"]] = z3.simplify(-self.val(st, ins["a"][0]))
            fr.ii += 1
            return None
        if o == "extractvalue":
            v = self.val(st, ins["a"][0])
            for k in ins["ix"]:
                v = v.e[k]
            regs[ins["i"]] = v
            fr.ii += 1
            return None
        if o == "insertvalue":
            v = self.val(st, ins["a"][0])
            x = self.val(st, ins["a"][1])
            def put(agg, ix):
                e = list(agg.e)
                e[ix[0]] = x if len(ix) == 1 else put(e[ix[0]], ix[1:])
                return Agg(e)
            regs[ins["i"]] = put(v, ins["ix"])
            fr.ii += 1
            return None
        if o == "freeze":
            regs[ins["i"]] = self.val(st, ins["a"][0])
            fr.ii += 1
            return None
        if o == "atomicrmw":
            p = self.val(st, ins["p"])
            n = ins["sz"]
            old = self.load(st, p, ins["t"], n)
            v = self.val(st, ins["v"])
            op = ins["op"]
            if op == "xchg":
                new = v
            elif op in ("add", "sub", "or", "and", "xor"):
                new = self.binop(st, op, old, v, width(ins["t"]))
            else:
                raise Unsupported("atomicrmw " + op)
            self.store(st, p, new, ins["t"], n)
            regs[ins["i"]] = old
            fr.ii += 1
            return None
        if o == "cmpxchg":
            p = self.val(st, ins["p"])
            n = ins["sz"]
            old = self.load(st, p, "i%d" % (8 * n), n)
            cv = self.val(st, ins["cv"])
            nv = self.val(st, ins["nv"])
            eq = old == cv
            self.store(st, p, simp(z3.If(eq, nv, old)), "i%d" % (8 * n), n)
            regs[ins["i"]] = Agg([old, simp(eq)])
            fr.ii += 1
            return None
        if o == "fence":
            fr.ii += 1
            return None
        if o == "unreachable":
            self.fail_path(st, "unreachable reached", "ub")
        if o == "landingpad":
            regs[ins["i"]] = Agg([Ptr(0, 0), bv(1, 32)])
            fr.ii += 1
            return None
        if o == "resume":
            raise PathEnd("exception escapes")
        if "a" in ins and len(ins["a"]) == 2:
            a, b = self.val(st, ins["a"][0]), self.val(st, ins["a"][1])
            regs[ins["i"]] = self.binop(st, o, a, b, width(ins["t"]), ins)
            fr.ii += 1
            return None
        raise Unsupported("instruction " + o)

    def switch(self, st, fr, ins):
        c = self.val(st, ins["c"])
        groups = {}
        allc = []
        for v, d in ins["cs"]:
            k = self.const(st, v)
            groups.setdefault(d, []).append(c == k)
            allc.append(c == k)
        alts = []
        for d, cs in groups.items():
            if d == ins["dd"]:
                continue
            alts.append((simp(z3.Or(*cs)), d))
        other = [x for d, cs in groups.items() if d != ins["dd"] for x in cs]
        alts.append((simp(z3.Not(z3.Or(*other))) if other else z3.BoolVal(True), ins["dd"]))
        feas = [(cd, d) for cd, d in alts if self.feasible(st, cd)]
        if not feas:
            raise PathEnd("infeasible")
        out = []
        for i, (cd, d) in enumerate(feas):
            s = st if i == len(feas) - 1 else st.clone()
            try:
                self.assume(s, cd)
            except PathEnd:
                continue
            s.path.append("%s:%d case %d" % (fr.fn["d"].split("(")[0][-40:], ins["l"], i))
            self.jump(s, d)
            out.append(s)
        if len(out) == 1 and out[0] is st:
            return None
        return out

    # ---------------------------------------------------------- state merging
    def try_merge(self, st, fr, ins, c, d1, d2, cut):
        """side-effect-light diamonds: run both arms to the immediate post-dominator and merge"""
        fn = fr.fn
        j = fn["pdom"][fr.bi]
        if j < 0:
            return None
        if self.mergej and self.mergej[-1] == (len(st.frames), j):
            return None      # the enclosing merge ends at the same block
        mg = fn.setdefault("mg", {})
        ok = mg.get(fr.bi)
        if ok is None:
            ok = mg[fr.bi] = self.simple_region(fn, fr.bi, j)
        if not ok:
            return None
        cond = simp(c)
        nc = simp(z3.Not(cond))
        if not self.feasible(st, cond):
            self.assume(st, nc)
            self.jump(st, d2)
            return [st]
        if not self.feasible(st, nc):
            self.assume(st, cond)
            self.jump(st, d1)
            return [st]
        depth = len(st.frames)
        s1 = st.clone()
        s2 = st.clone()
        n0 = len(st.conds)
        ends = []
        self.mergej.append((depth, j))
        try:
          for s, cd, d in ((s1, cond, d1), (s2, nc, d2)):
            try:
                self.assume(s, cd)
            except PathEnd:
                continue
            self.jump(s, d)
            ends.extend(self.explore([s], cut=lambda x: len(x.frames) == depth and x.frames[-1].bi == j and x.frames[-1].ii == 0))
        finally:
            self.mergej.pop()
        if not ends:
            raise PathEnd("no arm survives")
        for s in ends:
            if s.frames[-1].fn["blocks"][j][0]["o"] == "phi":
                self.do_phis(s)
        m = ends[0]
        res = []
        for s in ends[1:]:
            r = self.merge2(m, s, n0)
            if r is None:
                res.append(m)
                m = s
            else:
                m = r
        res.append(m)
        for s in res:
            f = s.frames[-1]
            f.pi = -2
            if f.ii == 0:
                f.ii = 0
        # states are positioned at block j after phis; mark to skip header handling
        return res

    def simple_region(self, fn, b, j):
        """blocks strictly between b and j: at most 6, no loops headers, only cheap instructions"""
        seen = set()
        work = [x for x in self.succs(fn, b) if x != j]
        allowed = {"load", "store", "gep", "br", "cbr", "icmp", "select", "trunc", "zext", "sext", "add", "sub", "mul", "and", "or", "xor", "shl",
                   "lshr", "ashr", "phi", "fadd", "fsub", "fmul", "fdiv", "fcmp", "sitofp", "uitofp", "fneg", "extractvalue", "freeze", "bitcast"}
        if j in fn["lh"] or b == j:
            return False
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 6 or x in fn["lh"]:
                return False
            for i in fn["blocks"][x]:
                if i["o"] not in allowed:
                    if i["o"] == "call" and i["f"][0] == "f" and i["f"][1].startswith("llvm.lifetime"):
                        continue
                    return False
            for s in self.succs(fn, x):
                if s != j:
                    work.append(s)
        # first instruction of j must make position after phis non-zero
        return fn["blocks"][j][0]["o"] == "phi" or True

    def succs(self, fn, b):
        t = fn["blocks"][b][-1]
        if t["o"] == "br":
            return [t["d"]]
        if t["o"] in ("cbr", "invoke"):
            return t["d"]
        if t["o"] == "switch":
            return [t["dd"]] + [d for _, d in t["cs"]]
        return []

    def mval(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.same(b):
                return a
            if a.obj == b.obj and a.obj != 0 and a.off == b.off and (a.idx is not None or b.idx is not None):
                return Ptr(a.obj, a.off, simp(z3.If(c, a.idx if a.idx is not None else bv(0), b.idx if b.idx is not None else bv(0))))
            return None
        if isinstance(a, FPtr) and isinstance(b, FPtr) and a.name == b.name:
            return a
        if isinstance(a, PInt) and isinstance(b, PInt) and a.p.same(b.p):
            return a
        if isinstance(a, Agg) and isinstance(b, Agg):
            e = [self.mval(c, x, y) for x, y in zip(a.e, b.e)]
            return None if any(x is None for x in e) else Agg(e)
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
            if a.eq(b):
                return a
            return simp(z3.If(c, a, b))
        return None

    def merge2(self, a, b, n0):
        """merge state b into a (same frame position); None if not mergeable"""
        if len(a.frames) != len(b.frames) or a.ghost.keys() != b.ghost.keys() or len(a.trace) != len(b.trace):
            return None
        if any(x[1] is not y[1] for x, y in zip(a.trace, b.trace)) or a.held != b.held:
            return None
        c = z3.And(*a.conds[n0:]) if len(a.conds) > n0 else z3.BoolVal(True)
        c2 = z3.And(*b.conds[n0:]) if len(b.conds) > n0 else z3.BoolVal(True)
        for k in a.ghost:
            if a.ghost[k] is not b.ghost[k]:
                x, y = a.ghost[k], b.ghost[k]
                if self.mval(c, x, y) is None:
                    return None
        r = a.clone()
        fa, fb = a.frames[-1], b.frames[-1]
        for k in set(fa.regs) & set(fb.regs):
            v = self.mval(c, fa.regs[k], fb.regs[k])
            if v is None:
                # value may be dead; drop it (a later use raises KeyError -> Unsupported)
                r.frames[-1].regs.pop(k, None)
                return None
            r.frames[-1].regs[k] = v
        if set(a.mem) != set(b.mem):
            return None
        for oid in a.mem:
            oa, ob = a.mem[oid], b.mem[oid]
            if oa is ob:
                continue
            if oa.content is not ob.content or oa.freed != ob.freed or oa.size is not ob.size and oa.size != ob.size:
                return None
            if oa.abs != ob.abs:
                if set(oa.abs) != set(ob.abs) or any(oa.abs[k] is not ob.abs[k] for k in oa.abs):
                    return None
            w = r.wobj(oid)
            for k in set(oa.cells) | set(ob.cells):
                x, y = oa.cells.get(k), ob.cells.get(k)
                if x is y:
                    continue
                if x is None or y is None or x[0] != y[0]:
                    return None
                v = self.mval(c, x[1], y[1])
                if v is None:
                    return None
                w.cells[k] = (x[0], v)
            for k in set(oa.arrays) | set(ob.arrays):
                x, y = oa.arrays.get(k), ob.arrays.get(k)
                if x is y:
                    continue
                if x is None or y is None:
                    return None
                if not x[1].eq(y[1]):
                    w.arrays[k] = (x[0], z3.If(c, x[1], y[1]))
        for k in a.ghost:
            r.ghost[k] = self.mval(c, a.ghost[k], b.ghost[k]) if a.ghost[k] is not b.ghost[k] else a.ghost[k]
        base = a.conds[:n0]
        r.conds = list(base)
        r.condset = set(x.get_id() for x in base)
        d = simp(z3.Or(c, c2))
        if not z3.is_true(d):
            r.conds.append(d)
            r.condset.add(d.get_id())
        return r

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        f = ins["f"]
        if f[0] == "f":
            name = f[1]
        elif f[0] == "v":
            p = self.val(st, f)
            if isinstance(p, FPtr):
                name = p.name
            else:
                raise Unsupported("indirect call through %r" % (p,))
        else:
            raise Unsupported("call of %s" % (f[:2],))
        return self.call_name(st, fr, ins, name, [self.val(st, a) if a[0] != "unk" else None for a in ins["a"]])

    def finish_call(self, st, ins, v):
        fr = st.frames[-1]
        if ins["t"] != "void":
            if v is None:
                v = self.undef(ins["t"]) if ins["t"] != "ptr" else NULL
            fr.regs[ins["i"]] = v
        if ins["o"] == "invoke":
            self.jump(st, ins["d"][0])
        else:
            fr.ii += 1

    def call_name(self, st, fr, ins, name, args):
        if "bv" in ins:
            for k, sz in ins["bv"]:
                o = self.newobj(st, "byval", sz, "struct")
                self.memcopy(st, Ptr(o.id), args[k], sz)
                args[k] = Ptr(o.id)
        con = self.mod.fn.get("vp_contract_" + name)
        if con is not None and "blocks" in con and not self.o.get("nocontract") and not any(f.fn is con for f in st.frames) and self.con_on(name) and not self.con_first(st, name):
            d = self.mod.fn[name]["d"].split("(")[0]
            self.contracts_used[d] = self.contracts_used.get(d, 0) + 1
            self.push(st, con, args, ins)
            return None
        env = self.mod.fn.get("vp_env_" + name)
        if env is not None and "blocks" in env:
            self.trusted_used["environment model " + name] = self.trusted_used.get("environment model " + name, 0) + 1
            self.push(st, env, args, ins)
            return None
        h = self.handler(name)
        if h is not None:
            fnc, m, tag = h
            d = self.mod.fn[name]["d"] if name in self.mod.fn else name
            tbl = self.contracts_used if tag == "contract" else self.trusted_used
            tbl[d.split("(")[0] if len(d) < 300 else d[:120]] = tbl.get(d.split("(")[0] if len(d) < 300 else d[:120], 0) + 1
            r = fnc(self, st, ins, args, m)
            if isinstance(r, Forks):
                out = []
                alts = r.alts
                for i, (cond, th) in enumerate(alts):
                    s = st if i == len(alts) - 1 else st.clone()
                    try:
                        if cond is not None:
                            if not self.feasible(s, cond):
                                continue
                            self.assume(s, cond)
                        v = th(s)
                        if v is not PUSHED:
                            self.finish_call(s, ins, v)
                        out.append(s)
                    except PathEnd:
                        continue
                if not out:
                    raise PathEnd("no alternative")
                return out
            if r is PUSHED:
                return None
            self.finish_call(st, ins, r)
            return None
        fn = self.mod.fn.get(name)
        if fn is None or "blocks" not in fn:
            d = fn["d"] if fn else name
            raise Unsupported("external function without contract: " + d)
        self.push(st, fn, args, ins)
        return None

    def con_first(self, st, name):
        """a recursive function under verification (option "rec"): its contract stands for the inner calls only"""
        d = self.mod.fn[name]["d"]
        return any(re.search(r, d) for r in self.o.get("rec", [])) and not any(f.fn["n"] == name for f in st.frames)

    def con_on(self, name):
        """is the C++ contract of this function used by this harness? (option "use": list of regexes)"""
        d = self.mod.fn[name]["d"]
        return any(re.search(r, d) for r in self.o.get("use", []))

    def push(self, st, fn, args, ins, cont=None):
        if len(st.frames) > 120:
            raise Unsupported("call depth " + fn["d"])
        self.funcs_seen[fn["n"]] = self.funcs_seen.get(fn["n"], 0) + 1
        nf = Frame(fn, None)
        if len(fn["args"]) > len(args):
            raise Unsupported("arity of " + fn["d"])
        for (i, ty, b, s, dr), a in zip(fn["args"], args):
            nf.regs[i] = a
        nf.ret_i = ins
        nf.cont = cont
        st.frames.append(nf)

    def ret(self, st, v):
        fr = st.frames.pop()
        if not st.frames:
            for a in fr.allocas:
                st.mem.pop(a, None)
            return None
        keep = set()
        if fr.cont is not None:
            r = fr.cont(self, st, v)
            if r is PUSHED:
                return None
            v = r
        for a in fr.allocas:
            if a in st.mem:
                st.wobj(a).freed = True
        if fr.ret_i is not None:
            self.finish_call(st, fr.ret_i, v)
        return None

    def throw(self, st, ins, what):
        """an exception leaves the current call: unwind to the nearest invoke"""
        # current frame: ins is call or invoke
        cur = ins
        first = True
        while True:
            if cur is not None and cur["o"] == "invoke":
                fr = st.frames[-1]
                self.jump(st, cur["d"][1])
                st.exc = what
                return PUSHED
            fr = st.frames.pop()
            for a in fr.allocas:
                if a in st.mem:
                    st.wobj(a).freed = True
            cur = fr.ret_i
            if not st.frames:
                # escapes everything
                st.frames.append(fr)
                self.fail_path(st, "exception " + what, "abort")


PUSHED = object()
