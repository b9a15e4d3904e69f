"""debug: run obligations matching a substring in-process"""
import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import reg, explore, smt
def main():
    pat = sys.argv[1]
    obs = reg.load_all()
    srv = explore.Server()
    tot = 0
    for o in obs.values():
        if pat not in o.id: continue
        t0 = time.time()
        ex = explore.Explorer(o, srv, budget=float(os.environ.get("VT_BUDGET", "60")))
        ex.run()
        un = sum(r.verdict == "unsat" for r in ex.results)
        tot += 1
        flag = "OK " if not ex.violations and not ex.inconclusive and not ex.mismatch and not ex.unsound and un == len(ex.results) and un and ex.seen_labels <= ex.witnessed | {"no exception"} else "BAD"
        print("%s %-60s paths %d checks %d/%d feas %d %.1fs wit %d/%d val %d" % (flag, o.id, ex.paths, un, len(ex.results), ex.feas_queries, time.time() - t0, len(ex.witnessed), len(ex.seen_labels), ex.validated))
        for v in ex.violations[:2]: print("    VIOL", v)
        for v in sorted(set(ex.inconclusive))[:4]: print("    INC", v[:300])
        for v in ex.mismatch[:2]: print("    MISMATCH", v[:300])
        for v in ex.unsound[:2]: print("    UNSOUND", v)
        miss = ex.seen_labels - ex.witnessed - {"no exception"}
        if miss: print("    NOWITNESS", sorted(miss)[:5])
        sys.stdout.flush()
    srv.close()
    print(tot, "obligations", smt.STATS)
main()
