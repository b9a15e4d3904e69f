"""C17 - regimes meet at the switch"""
from ob._mono import *

P_ = "C17"
G_ = ((RU + "taw2002", "calculate_adjusted_influence_roughness_gamma_f", "G", (0.3, 1.0)),)


def cont(key, comp=0, pre=None, box=None, const=None, name=None, tier="quick", free=(), lax=True):
    item = CAT[key]

    def h(M):
        bx = dict(item.var, **(box or {}))
        kw = M.vars(**bx)
        for fr in free:
            M.free(*fr)

        def f(**k):
            for p in (item.pre, pre):
                if p:
                    p(M, **k)
            return item.results(M, dict(k, **(const or {})))[comp]
        M.continuous("no jump", f, kw, bx)
    ob(P_, (name or key) + ("" if comp == 0 else "/%d" % comp), funcs=item.funcs, tier=tier, lax=lax)(h)


# published steps, tables of steps, and rounded results: not meant to join (see DESIGN.md)
STEPS = {"runup/taw2002/beta", "runup/eurotop2018/beta", "runup/gamma_beta18", "ot/gamma_beta18", "taw/gamma_v", "Kt/goda",
         "hudson/M50/rough", "hudson/M50/smooth", "hudson/Hs/rough", "hudson/Hs/smooth", "vandermeer1988/gamma_N", "xbloc/seabed-cot",
         "xbloc/seabed-perc", "xbloc/freeboard", "xbloc/depth", "xbloc/slope", "xblocplus/seabed-cot", "xblocplus/seabed-perc",
         "xblocplus/freeboard", "accropode/KD", "accropode2/KD", "core_loc/KD", "etemad2020/Hs", "etemad2020/S", "etemad2020/S/mass",
         "etemad2020/S/depth", "etemad2020/Cp", "Kt/briganti", "q/vangent2025/factors", "vandermeer1988/Hs", "takahashi/Ns", "takahashi/Dn50"}
for k, it in CAT.items():
    if k in STEPS:
        continue
    kw = {}
    if k.startswith(("runup/taw2002", "runup/eurotop2018", "q/taw2002", "q/eurotop2018", "Rc/taw2002", "Rc/eurotop2018")):
        kw["free"] = G_             # the roughness factor itself: runup/gamma_f_adj
    if k.startswith("vandermeer"):
        # flatter slopes and longer storms have their own published rule (a step)
        kw["box"] = {a: b for a, b in dict(cot_alpha=(1.5, 3.99), N_waves=(100.0, 5000.0)).items() if a in it.var}
    for i, o in enumerate(it.out):
        if o is not None and not (k == "goda/pressures" and i in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11)):
            cont(k, i, **kw)
for k in ("runup/gamma_beta18", "ot/gamma_beta18"):
    cont(k, box=dict(gamma_f=(0.3, 0.59)), name=k + "/rough")
    cont(k, box=dict(gamma_f=(0.61, 1.0)), name=k + "/smooth")
cont("etemad2020/Cp", box=dict(Dn50_core=(0.01, 2.0)))
cont("Kt/briganti", pre=lambda M, B, Hsi, **k: M.assume(B <= 9.9 * Hsi), name="Kt/briganti/narrow")
cont("Kt/briganti", pre=lambda M, B, Hsi, **k: M.assume(B >= 10.1 * Hsi), name="Kt/briganti/wide")
cont("vandermeer1988/Hs", box=dict(cot_alpha=(1.5, 3.99), N_waves=(1001.0, 5000.0)))
