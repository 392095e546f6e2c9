#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- exit 0 held, 1 violation, 2 error of the check"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(VT) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv") and not os.environ.get("VP_REEXEC"):
    os.environ["VP_REEXEC"] = "1"
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, V + "/engine")
from build import Build, BuildError, REPO
EVD = os.environ.get("VP_EVIDENCE", V + "/evidence")
import contracts as _c
import props


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    try:
        rc = run(pid, tier, seed, P, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def one(job):
    path, h, o, lim = job
    t = time.time()
    try:
        p = subprocess.run([sys.executable, V + "/engine/run_one.py", path, h, json.dumps(o)], capture_output=True, text=True, timeout=lim)
        m = re.search(r"^RESULT (.*)$", p.stdout, re.M)
        if m:
            return json.loads(m.group(1))
        why = "engine died: " + (p.stderr or p.stdout)[-1500:]
    except subprocess.TimeoutExpired:
        why = "timeout after %ds" % lim
    return dict(harness=h, status="undecided", reason=why, obligations={}, wall=time.time() - t)


def native_search(binary, h, inputs, seed, secs, work):
    mf = "-"
    if inputs:
        mf = "%s/model_%s_%d" % (work, h, seed)
        with open(mf, "w") as f:
            for k, nm, v in inputs:
                if k == "bytes":
                    f.write("b %s\n" % (v or "-"))
                elif k == "real":
                    f.write("r %r\n" % v)
                else:
                    f.write("u %d\n" % v)
    try:
        p = subprocess.run([binary, h, mf, str(seed), str(secs)], capture_output=True, text=True, errors="replace", timeout=secs + 60)
    except subprocess.TimeoutExpired as e:
        return dict(failed="does not terminate", inputs=inputs or [], rc=-1, stderr="")
    m = re.search(r"^VPFAIL (.*)$", p.stdout, re.M)
    if m:
        try:
            r = json.loads(m.group(1))
        except ValueError:
            r = dict(failed=m.group(1)[:500], inputs=[])
        r["rc"] = p.returncode
        r["stderr"] = p.stderr[-1500:]
        return r
    if p.returncode not in (0,):
        return dict(failed="abnormal exit %d" % p.returncode, inputs=[], rc=p.returncode, stderr=p.stderr[-1500:])
    return None


def run(pid, tier, seed, P, work, t0):
    b = Build(work)
    jobs = []
    groups = P["groups"]
    if callable(groups):
        groups = groups()
    undec = []
    try:
        for g in groups:
            srcs = g["srcs"]
            spec = [V + "/spec/" + s for s in g["spec"]]
            try:
                with ThreadPoolExecutor(8) as ex:
                    list(ex.map(b.bc, [REPO + "/" + s for s in srcs]))
            except BuildError as e:
                print("ERROR: /repo does not compile: %s" % e)
                return 2
            names = ["vh_" + h for h in g["h"]] + ["^vp_env_", "^vp_contract_"]
            try:
                path = b.module(g["name"], spec + srcs, names)
            except BuildError as e:
                undec.append(dict(harness="*", status="undecided", reason="the contracts no longer attach to the code: %s" % str(e)[:3000], obligations={}))
                continue
            for h, o in g["h"].items():
                o = dict(o)
                if o.pop("tier", "quick") == "thorough" and tier != "thorough":
                    continue
                if tier == "thorough":
                    o.update(o.pop("thorough", {}))
                    o["deep"] = True
                    o["timeout"] = 3 * o.get("timeout", 20000)
                else:
                    o.pop("thorough", None)
                o.setdefault("contracts", g.get("contracts", []))
                lim = 620 if tier == "quick" else 3000
                o.setdefault("budget", lim - 20)
                jobs.append((path, h, o, lim, g))
    except BuildError as e:
        print("ERROR: %s" % e)
        return 2
    jobs.sort(key=lambda j: -j[2].get("weight", 1))
    with ThreadPoolExecutor(int(os.environ.get("VP_JOBS", "8"))) as ex:
        res = list(ex.map(one, [(p, h, {k: v for k, v in o.items() if k != "weight"}, lim) for p, h, o, lim, g in jobs]))
    for r, j in zip(res, jobs):
        r["group"] = j[4]
        r["opts"] = j[2]
    res += undec
    bad = [r for r in res if r["status"] != "proved"]
    # ---- known findings: demonstrations on the real code
    kf = []
    kfile = V + "/known_findings.json"
    if os.path.exists(kfile):
        for k in json.load(open(kfile)):
            if k["property"] == pid and k.get("status") == "known":
                kf.append(k)
    viol = None
    found_input = None
    nat = []
    if bad or kf:
        rem = max(60, 800 - (time.time() - t0)) if tier == "quick" else 900
        bins = {}
        for g in groups:
            if kf or any(r.get("group", g) is g for r in bad):
                try:
                    bins[g["name"]] = b.native(g["name"], [V + "/spec/" + s for s in g["spec"]] + [s for s in g.get("native", g["srcs"])])
                except BuildError as e:
                    nat.append("native build: %s" % str(e)[:500])
        for k in kf:
            if k["group"] not in bins:
                continue
            r = native_search(bins[k["group"]], k["harness"], k["inputs"], seed, 0, work)
            if r is not None:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if bad:
            todo = []
            for r in bad:
                g = r.get("group")
                if g is None or g["name"] not in bins:
                    continue
                inps = [x["inputs"] for o in r["obligations"].values() for x in o.get("bad", []) if x.get("inputs")]
                secs = min(45, rem / 4)
                for n, i in enumerate(inps[:6]):
                    todo.append((bins[g["name"]], r["harness"], i, seed + n, 3, work))
                for n in range(3):
                    todo.append((bins[g["name"]], r["harness"], None, seed * 1000 + n, secs, work))
            todo.sort(key=lambda t: t[4])
            with ThreadPoolExecutor(8) as ex:
                futs = [(t, ex.submit(native_search, *t)) for t in todo[:60]]
                for t, f in futs:
                    r = f.result()
                    if r is not None and found_input is None:
                        found_input = dict(harness=t[1], **r)
                        for _, f2 in futs:
                            f2.cancel()
                        break
    ev = evidence(pid, tier, seed, P, res, t0, bool(bad), kf)
    if bad:
        os.makedirs(EVD + "/replay", exist_ok=True)
        rp = EVD + "/replay/%s.json" % pid
        with open(rp, "w") as f:
            json.dump(dict(property=pid, failing_input=found_input, replay="VP: build spec harness natively (engine/build.py Build.native) and run: <bin> <harness> <model file>",
                           failed=[dict(harness=r["harness"], status=r["status"], reason=r["reason"],
                                        obligations={n: o for n, o in r["obligations"].items() if not o["ok"]}) for r in bad], notes=nat), f, indent=1)
        for r in bad:
            names = [n for n, o in r["obligations"].items() if not o["ok"]]
            print("FAILED harness=%s status=%s obligations=%s %s" % (r["harness"], r["status"], names[:6], r["reason"][:600]))
        if found_input:
            print("INPUT harness=%s: %s %s" % (found_input["harness"], found_input["failed"], json.dumps(found_input["inputs"])[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        return 1
    print("OK property=%s proved-obligations=%d/%d bounded-obligations=%d harnesses=%d wall=%.1fs" % (pid, ev["coverage"]["discharged"], ev["coverage"]["obligations"], sum(x["obligations"] for x in ev["coverage"]["bounded_checks"]), len(res), time.time() - t0))
    return 0


def evidence(pid, tier, seed, P, res, t0, bad, kf):
    def count(rs):
        return (sum(o["n"] for r in rs for o in r["obligations"].values()),
                sum(o["n"] - len(o["bad"]) if o["ok"] is False else o["n"] for r in rs for o in r["obligations"].values()))
    # a harness with a stated bound is a bounded check: its obligations are never counted as proved
    nob, dis = count([r for r in res if not r.get("opts", {}).get("bound")])
    bounded = []
    for r in res:
        bd = r.get("opts", {}).get("bound")
        if bd:
            n, d = count([r])
            bounded.append(dict(harness=r["harness"], bound=bd, obligations=n, discharged_within_bound=d))
    fn, tr, co, inv, ass, be = set(), {}, {}, {}, set(), {}
    for r in res:
        fn |= set(r.get("functions", []))
        for k, v in r.get("trusted", {}).items():
            tr[k] = tr.get(k, 0) + v
        for k, v in r.get("contracts", {}).items():
            co[k] = co.get(k, 0) + v
        for k, v in r.get("backends", {}).items():
            be[k] = be.get(k, 0) + v
        inv.update(r.get("invariants", {}))
        ass |= set(r.get("assumptions", []))
    mine = sorted(f for f in fn if "facebook::wdt" in f)
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "proof"),
              coverage=dict(obligations=nob, discharged=dis, checker_cmd="engine/run_one.py (symbolic execution of clang 18 LLVM IR of /repo; z3, LIA abstraction in z3, cvc5)",
                            trusted_base=["clang-18 front end and the sroa/simplifycfg/loop-simplify passes", "engine/irdump.cpp, engine/*.py (VC generator)", "z3, cvc5",
                                          "shim/ headers standing for folly, glog, gflags"] + ["contract of " + k for k in sorted(tr) if not k.startswith(("vp_", "llvm."))],
                            functions_under_contract=mine, contracts_used_at_call_sites=co, loop_invariants=inv, backends=be,
                            solver_s=round(sum(r.get("solver_s", 0) for r in res), 1), paths=sum(r.get("paths", 0) for r in res),
                            named_obligations=sum(len(r["obligations"]) for r in res),
                            harnesses={r["harness"]: dict(status=r["status"], obligations=len(r["obligations"]), wall=r.get("wall")) for r in res},
                            bounded_checks=bounded),
              assumptions=sorted(ass) + P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=1 if bad else 0)
    os.makedirs(EVD, exist_ok=True)
    with open(EVD + "/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    return ev


main()
