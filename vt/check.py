"""Check one property:  python3-vt vt/check.py C01 [--tier quick|thorough]

Symbolically executes /repo's current source for every obligation registered
for the property, lets the SMT solvers decide each assertion, replays every
candidate counterexample on the unpatched code, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s)."""
from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
EVDIR = os.path.join(ROOT, "evidence")


def known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def work(oid, tier, seed, budget, conn):
    """one obligation, in its own process"""
    sys.setrecursionlimit(6000)
    out = {"id": oid, "paths": 0, "forks": 0, "checks": [], "violations": [], "inconclusive": [], "mismatch": [],
           "unsound": [], "validated": 0, "witnessed": [], "labels": [], "feas": 0, "stats": {}, "wall": 0.0,
           "funcs": [], "stubs": [], "vars": {}}
    srv = None
    t0 = time.time()
    try:
        from vt import explore, reg, shim, smt
        obs = reg.load_all()
        srv = explore.Server()
        ex = explore.Explorer(obs[oid], srv, seed=seed, budget=budget, tier=tier,
                              qtime=4.0 if tier == "quick" else 20.0)
        try:
            ex.run()
        finally:
            out.update(paths=ex.paths, forks=ex.forks, checks=[(r.label, r.verdict) for r in ex.results],
                       violations=ex.violations, inconclusive=sorted(set(ex.inconclusive)), mismatch=ex.mismatch[:3],
                       unsound=[repr(u) for u in ex.unsound[:3]], validated=ex.validated,
                       witnessed=sorted(ex.witnessed), labels=sorted(ex.seen_labels), feas=ex.feas_queries,
                       stats=dict(smt.STATS), funcs=sorted(shim.CALLED), stubs=sorted(ex.stubbed),
                       vars={n: [float(a.args[0]), float(a.args[1])] for n, a in ex.vars.items()}, replays=srv.calls)
    except BaseException as e:
        out["inconclusive"].append("engine: %s: %s @ %s" % (type(e).__name__, str(e)[:200],
                                                            traceback.format_exc().strip().splitlines()[-3:-1]))
    finally:
        if srv:
            srv.close()
    out["wall"] = time.time() - t0
    try:
        conn.send(out)
    except Exception:
        pass
    conn.close()


def run_all(ids, tier, seed, budget, total, jobs, stop_on_violation):
    ctx = mp.get_context("fork")
    pend = list(ids)
    live = {}
    res = []
    t_end = time.time() + total
    while pend or live:
        while pend and len(live) < jobs and time.time() < t_end:
            i = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(i, tier, seed, min(budget, max(5.0, t_end - time.time())), b))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        if pend and time.time() >= t_end:
            for i in pend:
                res.append({"id": i, "inconclusive": ["not started: time budget of the whole check exhausted"]})
            pend = []
        for i in list(live):
            p, a, t0 = live[i]
            r = None
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = {"id": i, "inconclusive": ["worker died (memory or crash)"]}
            elif not p.is_alive():
                r = {"id": i, "inconclusive": ["worker died (memory or crash)"]}
            elif time.time() - t0 > budget * 1.5 + 40:
                p.kill()
                r = {"id": i, "inconclusive": ["obligation exceeded its time budget"]}
            if r is not None:
                res.append(r)
                p.join(2)
                if p.is_alive():
                    p.kill()
                del live[i]
        if stop_on_violation and sum(1 for r in res if r.get("violations")) >= 12:
            for i, (p, a, t0) in live.items():
                p.kill()
                res.append({"id": i, "inconclusive": ["stopped: violations already found"]})
            for i in pend:
                res.append({"id": i, "inconclusive": ["stopped: violations already found"]})
            break
        time.sleep(0.01)
    return res


ASSUME = [
    "floats are interpreted as exact reals (decimal literals as the decimal rationals they denote); rounding is outside the encoding",
    "inputs range over the closed real boxes listed under bounds; points where a divisor is exactly zero are excluded",
    "numpy/math/pandas/warnings are modelled by the shim in vt/shim.py (translator-validated against the real code on every path set)",
    "deltares_wave_toolbox wavelength routine is an uninterpreted function KH(mu) constrained by kh*tanh(kh)=mu consequences",
    "unsat verdicts of z3 are trusted; sat/unknown verdicts are reported only after replay on the unpatched code",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VT_JOBS", "8")))
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from vt import reg
    obs = [o for o in reg.load_all().values() if o.prop == a.prop and a.only in o.id
           and (tier == "thorough" or o.tier == "quick")]
    if not obs:
        print("no obligations for", a.prop)
        return 2
    obs.sort(key=lambda o: -o.weight)
    budget, total = (240.0, 700.0) if tier == "quick" else (3000.0, 6 * 3600.0)
    # warm the shared imports once before forking
    from vt import explore
    try:
        explore.get_loader()
    except BaseException as e:
        print("loading the repository under the shim failed:", repr(e))
    res = run_all([o.id for o in obs], tier, seed, budget, total, a.jobs, True)
    kn = [k for k in known() if k["property"] == a.prop]
    new, seen = [], []
    rdir = os.path.join(EVDIR, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.prop + "-"):
            os.unlink(os.path.join(rdir, f))
    for r in res:
        for v in r.get("violations", []):
            hit = [k for k in kn if k["obligation"] == r["id"] and k["label"] == v["label"]]
            if hit:
                if hit[0] not in seen:
                    seen.append(hit[0])
                continue
            new.append((r["id"], v))
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    shown = set()
    n = 0
    for oid, v in new:
        if oid in shown:
            continue
        shown.add(oid)
        n += 1
        path = os.path.join(rdir, "%s-%d.json" % (a.prop, n))
        json.dump({"obligation": oid, "label": v["label"], "inputs": v["env"], "observed": v["values"],
                   "exception": v["exc"], "where": v.get("where"),
                   "replay": "python3-vt %s/vt/replay.py %s" % (ROOT, path)}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  %s: %s %s %s inputs=%s" % (oid, v["label"], v["values"], v["exc"] or "", v["env"]))
    inc = [(r["id"], x) for r in res for x in r.get("inconclusive", [])]
    mis = [(r["id"], x) for r in res for x in r.get("mismatch", []) + r.get("unsound", [])]
    for i, x in inc[:40]:
        print("INCONCLUSIVE %s: %s" % (i, x[:300]))
    for i, x in mis[:20]:
        print("TRANSLATOR-MISMATCH %s: %s" % (i, x[:300]))
    unw = [(r["id"], l) for r in res for l in r.get("labels", []) if l not in r.get("witnessed", []) and l != "no exception"]
    for i, l in unw[:20]:
        print("NO-WITNESS %s: %s" % (i, l))
    nchk = sum(len(r.get("checks", [])) for r in res)
    uns = sum(v == "unsat" for r in res for _, v in r.get("checks", []))
    bym = {}
    for o in obs:
        bym[o.id] = o
    st = {}
    for r in res:
        for k, v in r.get("stats", {}).items():
            st[k] = st.get(k, 0) + v
    ok_ob = [r for r in res if r.get("checks") and all(v == "unsat" for _, v in r["checks"]) and not r["inconclusive"]
             and not r["violations"] and not r["mismatch"] and not r["unsound"]]
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r.get("paths", 0) for r in res),
            "transitions": sum(r.get("forks", 0) for r in res),
            "traces_validated_against_impl": sum(r.get("validated", 0) for r in res),
            "samples": [{"obligation": r["id"], "paths": r.get("paths"), "assertions": len(r.get("checks", [])),
                         "discharged": sum(v == "unsat" for _, v in r.get("checks", [])), "bounds": r.get("vars"),
                         "stubs": r.get("stubs")} for r in res[:8]],
            "obligations": len(res), "obligations_fully_discharged": len(ok_ob),
            "assertions": nchk, "discharged": uns,
            "assertions_not_discharged": nchk - uns,
            "witnessed_assertion_labels": sum(len(r.get("witnessed", [])) for r in res),
            "real_code_replays": sum(r.get("replays", 0) for r in res),
            "solver_queries": st.get("queries", 0), "solver_unsat": st.get("unsat", 0), "solver_sat": st.get("sat", 0),
            "solver_unknown": st.get("unknown", 0), "solver_time_s": round(st.get("time", 0.0), 2),
            "linearisation_refinements": st.get("refinements", 0), "nra_queries": st.get("nra", 0),
            "feasibility_queries": sum(r.get("feas", 0) for r in res),
            "functions_encoded": sorted({f for r in res for f in r.get("funcs", [])}),
            "stubbed": sorted({f for r in res for f in r.get("stubs", [])}),
            "inconclusive": ["%s: %s" % x for x in inc][:60],
            "translator_mismatches": ["%s: %s" % x for x in mis][:20],
            "unwitnessed": ["%s: %s" % x for x in unw][:40],
            "bounds": {r["id"]: r.get("vars") for r in res},
            "known_findings_seen": [k["what"] for k in seen],
            "checker_cmd": "python3-vt vt/check.py %s --tier %s" % (a.prop, tier),
            "trusted_base": ["vt/ symbolic interpreter and numpy shim", "z3 " + z3v(), "CPython 3.12"],
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(shown),
    }
    os.makedirs(EVDIR, exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(EVDIR, a.prop + ".json"), "w"), indent=1)
    if os.environ.get("VT_SLOW"):
        for r in sorted(res, key=lambda r: -r.get("wall", 0))[:int(os.environ["VT_SLOW"])]:
            print("   %6.1fs paths %4d %s" % (r.get("wall", 0), r.get("paths", 0), r["id"]))
    print("%s %s: obligations %d (fully discharged %d), assertions %d/%d unsat, paths %d, queries %d, solver %.1fs, wall %.1fs, violations %d, inconclusive %d"
          % (a.prop, tier, len(res), len(ok_ob), uns, nchk, ev["coverage"]["states"], st.get("queries", 0),
             st.get("time", 0.0), time.time() - t0, len(shown), len(inc)))
    return 1 if shown else 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
