"""prove one harness: python prove.py module.json harness [opts-json] -> JSON result on stdout"""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vcg import *
import spec


def make(mod, opts):
    ex = Exec(mod, {k: v for k, v in opts.items() if k not in ("contracts", "loops")})
    spec.install(ex)
    try:
        import stl
        stl.install(ex)
    except ImportError:
        pass
    import contracts
    for c in opts.get("contracts", []):
        getattr(contracts, "c_" + c)(ex)
    for rx, h, cfg in opts.get("loops", []):
        ex.loopcfg.append((rx, h, cfg))
    return ex


def wanted(ex, mod, fname):
    """assertion and cover names of the harness itself (they must all be reached)"""
    out = set()
    f = mod.fn.get(fname)
    for b in f["blocks"] if f else []:
        for i in b:
            if i["o"] in ("call", "invoke") and i["f"][0] == "f" and i["f"][1] in ("vp_assert_", "vp_cover_"):
                a = i["a"][-1]
                g = mod.gl.get(a[1]) if a[0] == "g" else None
                if g and g["init"][0] == "agg":
                    s = bytes(int(e[2]) & 255 for e in g["init"][2])
                    s = s[:s.index(0)].decode()
                    out.add(s if i["f"][1] == "vp_assert_" else "cover:" + s)
    return out


def prove(path, harness, opts):
    mod = Module(path)
    t0 = time.time()
    res = dict(harness=harness, status="proved", reason="")
    loops = list(opts.get("loops", []))
    t_end = t0 + opts.get("budget", 800)
    while True:
        o = dict(opts, loops=loops, budget=max(1, t_end - time.time()))
        ex = make(mod, o)
        res["status"], res["reason"] = "proved", ""
        try:
            ex.run("vh_" + harness)
        except Unsupported as e:
            res["status"], res["reason"] = "undecided", "unsupported: %s" % e
            if os.environ.get("VP_TRACE"):
                traceback.print_exc()
        except NeedInvariant as e:
            new = ["^" + re.escape(mod.fn[e.fn]["d"]) + "$", e.header, {}]
            if len(loops) < 16 and new not in loops and opts.get("autoinv", True):
                loops = [new] + loops
                continue
            res["status"], res["reason"] = "undecided", "loop without invariant: %s header %s" % (mod.fn[e.fn]["d"], e.header)
        except Budget as e:
            res["status"], res["reason"] = "undecided", str(e)
        break
    for r in opts.get("use", []):
        if not any(n.startswith("vp_contract_") and n[12:] in mod.fn and re.search(r, mod.fn[n[12:]]["d"]) for n in mod.fn):
            res["reason"] += " [no contract matches %s]" % r
    if os.environ.get("VP_FORK"):
        import vcg
        for k, v in sorted(vcg.FORKS.items(), key=lambda x: -x[1])[:45]:
            print(v, k, file=sys.stderr)
    if os.environ.get("VP_STAT"):
        print(ex.stat, file=sys.stderr)
    bad = [o for o in ex.obl.values() if not o.ok]
    if bad:
        res["status"] = "failed"
    # vacuity: every assertion of the harness must have been reached
    miss = [w for w in wanted(ex, mod, "vh_" + harness) if not ex.reached.get(w)]
    if res["status"] == "proved" and (not ex.completed or miss):
        res["status"], res["reason"] = "vacuous", "not reached: %s" % (miss or "end of harness")
    res["obligations"] = {n: dict(kind=o.kind, n=o.n, ok=o.ok, time=round(o.time, 3), bad=o.bad) for n, o in ex.obl.items()}
    res.update(paths=ex.paths, completed=ex.completed, queries=ex.nqueries, solver_s=round(ex.solver_time, 2), backends=ex.backends,
               functions=sorted({mod.fn[n]["d"].split("(")[0] for n in ex.funcs_seen}), trusted=ex.trusted_used, contracts=ex.contracts_used,
               invariants=ex.inv_used, reached=ex.reached, assumptions=sorted(ex.assumptions), wall=round(time.time() - t0, 2))
    return res


if __name__ == "__main__":
    o = json.loads(sys.argv[3]) if len(sys.argv) > 3 else {}
    r = prove(sys.argv[1], sys.argv[2], o)
    if "-v" in sys.argv:
        print(json.dumps(r, indent=1)[:12000])
    else:
        bad = [n for n, x in r["obligations"].items() if not x["ok"]]
        print(r["harness"], r["status"], r["reason"], "obl=%d" % len(r["obligations"]), "n=%d" % sum(x["n"] for x in r["obligations"].values()),
              "paths=%d/%d" % (r["completed"], r["paths"]), "q=%d solver=%.1f wall=%.1f" % (r["queries"], r["solver_s"], r["wall"]), r["backends"])
        for b in bad:
            x = r["obligations"][b]["bad"][0]
            print("  FAILED", b, x["result"], x["where"][:4], x["inputs"])
