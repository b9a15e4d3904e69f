"""C03: wave run-up and overtopping functions equal their published equations."""
from ._lib import *
from . import _spec as sp

SL = dict(Hm0=H, Tmm10=T, cot_alpha=COT)
CP_ = dict(Hm0=H, Tmm10=T, cot_alpha_down=COT, cot_alpha_up=COT, B_berm=(0.0, 20.0), db=(-3.0, 3.0))
FAC = dict(gamma_beta=GBETA, gamma_b=GB, gamma_f=GF)
BETA = (-90.0, 90.0)


def up(M, Hm0, db=None, **k):
    if db is not None:
        M.assume(db <= 1.4 * Hm0)
        M.assume(db >= -1.4 * Hm0)
    if "Tmm10" in k:
        M.assume(sp.steep(M, Hm0, k["Tmm10"]) <= 0.14)


def pos(M, **k):
    pass


# ---- run-up TAW 2002 / EurOtop 2018
for fam, mod, ref in (("taw", RU + "taw2002", sp.runup_taw), ("eurotop", RU + "eurotop2018", sp.runup_eurotop)):
    for bf in (False, True):
        t = "bestfit" if bf else "design"
        eqob("C03", "runup/%s/%s" % (fam, t), mod, "calculate_wave_runup_height_z2p", dict(SL, **FAC),
             ref, const=dict(use_best_fit=bf))
        eqob("C03", "runup/%s/%s/composite" % (fam, t), mod, "calculate_wave_runup_height_z2p",
             dict(CP_, gamma_beta=GBETA, gamma_f=GF), ref, const=dict(use_best_fit=bf), stubs=Z2P + GBI, pre=up)
        eqob("C03", "runup/%s/%s/berm" % (fam, t), mod, "calculate_wave_runup_height_z2p",
             dict(SL, gamma_beta=GBETA, gamma_f=GF, B_berm=(0.0, 20.0), db=(-3.0, 3.0)), ref,
             const=dict(use_best_fit=bf), stubs=Z2P + GBI)
    eqob("C03", "runup/%s/beta" % fam, mod, "calculate_wave_runup_height_z2p",
         dict(SL, gamma_b=GB, gamma_f=GF, beta=BETA), ref, stubs=GBETAS)
    eqob("C03", "runup/%s/dimensionless" % fam, mod, "calculate_dimensionless_wave_runup_height_z2p",
         dict(SL, **FAC), lambda M, ref=ref, **k: ref(M, diml=True, **k))
    eqob("C03", "runup/%s/coefficients" % fam, mod, "calculate_wave_runup_height_z2p",
         dict(SL, gamma_f=(1.0, 1.0), gamma_b=GB, gamma_beta=GBETA, c1=(1, 3), c2=(3, 6), c3=(1, 3), c4=(.5, 1.5)), ref)
    eqob("C03", "runup/%s/gamma_beta" % fam, mod, "calculate_influence_oblique_waves_gamma_beta",
         dict(beta=BETA, gamma_f=GF) if fam == "eurotop" else dict(beta=BETA),
         lambda M, beta, gamma_f=1.0: sp.gamma_beta_lin(M, beta, M.np.where(gamma_f > 0.6, 0.0022, 0.0063)))

# ---- pieces of the TAW family
m = RU + "taw2002"
eqob("C03", "taw/gamma_f_adj", m, "calculate_adjusted_influence_roughness_gamma_f",
     dict(gamma_f=GF, gamma_b=GB, ksi_mm10=(0.1, 30.0)), lambda M, gamma_f, gamma_b, ksi_mm10: sp.gamma_f_adj(M, gamma_f, gamma_b, ksi_mm10))
eqob("C03", "taw/average_slope", m, "determine_average_slope",
     dict(Hm0=H, z2p=(0.05, 40.0), cot_alpha_down=COT, cot_alpha_up=COT, B_berm=(0.0, 50.0), db=(-3.0, 3.0)),
     lambda M, Hm0, z2p, cot_alpha_down, cot_alpha_up, B_berm, db: sp.avg_cot(Hm0, z2p, cot_alpha_down, cot_alpha_up, B_berm, db), pre=up)
eqob("C03", "taw/berm_length/composite", m, "calculate_berm_length",
     dict(Hm0=H, cot_alpha_down=COT, cot_alpha_up=COT, B_berm=(0.0, 50.0)),
     lambda M, Hm0, cot_alpha_down, cot_alpha_up, B_berm: Hm0 * (cot_alpha_down + cot_alpha_up) + B_berm)
eqob("C03", "taw/berm_length/single", m, "calculate_berm_length", dict(Hm0=H, cot_alpha=COT, B_berm=(0.0, 50.0)),
     lambda M, Hm0, cot_alpha, B_berm: 2 * Hm0 * cot_alpha + B_berm)


def berm(M, Hm0, z2p, db, B_berm, L_berm):
    x = M.np.where(db < 0, z2p, 2 * Hm0)
    out = db > 2 * Hm0 if not (db < 0) else db < -z2p
    r = 1.0 if out else 0.5 - 0.5 * M.np.cos(M.pi * db / x)
    return sp.clip(M, 1 - B_berm / L_berm * (1 - r), 0.6, 1.0)


eqob("C03", "taw/gamma_b", m, "calculate_influence_berm_gamma_b",
     dict(Hm0=H, z2p=(0.05, 40.0), db=(-50.0, 50.0), B_berm=(0.0, 50.0), L_berm=(0.1, 100.0)), berm)


def gb_iter(M, fam, **k):
    """two evaluations of the run-up, starting without berm influence"""
    kb = dict(k)
    B, L, db, cot = kb.pop("B_berm"), kb.pop("L_berm"), kb.pop("db"), kb.pop("cot_alpha_average")
    bf = k["use_best_fit"]
    kb.update(zip(("c1", "c2", "c3", "c4"), (1.75, 4.3, 1.6, 1.0) if fam == "taw" else (1.65, 4.0, 1.5, 1.0) if bf else (1.75, 4.3, 1.5, 1.07)))
    f = M.fn(RU + "taw2002", "calculate_influence_berm_gamma_b")
    ru = M.fn(RU + "taw2002", "calculate_wave_runup_height_z2p")
    if M.truth(B == 0):
        return 1.0
    z = ru(cot_alpha=cot, gamma_b=1.0, **kb)[0]
    g = f(Hm0=k["Hm0"], z2p=z, db=db, B_berm=B, L_berm=L)
    z = ru(cot_alpha=cot, gamma_b=g, **kb)[0]
    return f(Hm0=k["Hm0"], z2p=z, db=db, B_berm=B, L_berm=L)


for fam, mod in (("taw", RU + "taw2002"), ("eurotop", RU + "eurotop2018")):
    for bf in (False, True):
        eqob("C03", "%s/gamma_b_iteration/%s" % (fam, bf), mod, "iteration_procedure_gamma_b",
             dict(Hm0=H, Tmm10=T, cot_alpha_average=COT, B_berm=(0.0, 50.0), L_berm=(0.1, 100.0), db=(-5.0, 5.0),
                  gamma_beta=GBETA, gamma_f=GF), lambda M, fam=fam, **k: gb_iter(M, fam, **k), const=dict(use_best_fit=bf),
             stubs=((RU + "taw2002", "calculate_influence_berm_gamma_b"), (RU + "taw2002", "calculate_wave_runup_height_z2p", 2)))

# ---- overtopping TAW
m = OT + "taw2002"
QF, RF = "calculate_overtopping_discharge_q", "calculate_crest_freeboard_Rc"
DQ, DR = "calculate_dimensionless_overtopping_discharge_q", "calculate_dimensionless_crest_freeboard"
inv = lambda f, **o: (lambda M, **k: f(M, inv=True, **o, **k))
dim = lambda f, **o: (lambda M, **k: f(M, diml=True, **o, **k))
dinv = lambda f, **o: (lambda M, **k: f(M, diml=True, inv=True, **o, **k))
for bf in (False, True):
    t = "bestfit" if bf else "design"
    full = dict(SL, **FAC, gamma_v=GV, g=G)
    eqob("C03", "q/taw/" + t, m, QF, dict(full, Rc=RC), sp.q_taw, const=dict(use_best_fit=bf))
    eqob("C03", "Rc/taw/" + t, m, RF, dict(full, q=Q), inv(sp.q_taw), const=dict(use_best_fit=bf))
    comp = dict(CP_, gamma_beta=GBETA, gamma_f=GF, gamma_v=GV)
    eqob("C03", "q/taw/%s/composite" % t, m, QF, dict(comp, Rc=RC), sp.q_taw, const=dict(use_best_fit=bf), stubs=Z2P + GBI, pre=up)
    eqob("C03", "Rc/taw/%s/composite" % t, m, RF, dict(comp, q=Q), inv(sp.q_taw), const=dict(use_best_fit=bf), stubs=Z2P + GBI, pre=up)
    sb = dict(SL, gamma_beta=GBETA, gamma_f=GF, B_berm=(0.0, 20.0), db=(-3.0, 3.0))
    eqob("C03", "q/taw/%s/berm" % t, m, QF, dict(sb, Rc=RC), sp.q_taw, const=dict(use_best_fit=bf), stubs=Z2P + GBI)
    eqob("C03", "Rc/taw/%s/berm" % t, m, RF, dict(sb, q=Q), inv(sp.q_taw), const=dict(use_best_fit=bf), stubs=Z2P + GBI)
for sg in (1, 2, -1):
    eqob("C03", "q/taw/sigma%d" % sg, m, QF, dict(SL, **FAC, Rc=RC), sp.q_taw, const=dict(use_best_fit=True, sigma=sg))
    eqob("C03", "Rc/taw/sigma%d" % sg, m, RF, dict(SL, **FAC, q=Q), inv(sp.q_taw), const=dict(use_best_fit=True, sigma=sg))
eqob("C03", "q/taw/beta", m, QF, dict(SL, gamma_b=GB, gamma_f=GF, beta=BETA, Rc=RC), sp.q_taw, stubs=GBETAS)
eqob("C03", "Rc/taw/beta", m, RF, dict(SL, gamma_b=GB, gamma_f=GF, beta=BETA, q=Q), inv(sp.q_taw), stubs=GBETAS)
eqob("C03", "q/taw/dimensionless", m, DQ, dict(SL, **FAC, Rc=RC), dim(sp.q_taw))
eqob("C03", "Rc/taw/dimensionless", m, DR, dict(SL, **FAC, q=Q, g=G), dinv(sp.q_taw))
eqob("C03", "taw/gamma_beta_q", m, "calculate_influence_oblique_waves_gamma_beta", dict(beta=BETA),
     lambda M, beta: sp.gamma_beta_lin(M, beta, 0.0033))
eqob("C03", "taw/gamma_v", m, "calculate_influence_crest_wall_gamma_v", dict(alpha_wall_deg=(0.0, 90.0)),
     lambda M, alpha_wall_deg: M.np.where(alpha_wall_deg > 45, 1.35 - 0.0078 * alpha_wall_deg, 1.0))

# ---- overtopping EurOtop 2018
m = OT + "eurotop2018"


def small_q(M, **k):
    """discharges for which both exponents are positive (a real freeboard exists)"""
    Hm0, gb = k["Hm0"], k.get("gamma_b", None)
    sc = M.np.sqrt(k.get("g", 9.81) * Hm0 * Hm0 * Hm0)
    M.assume(k["q"] <= 0.003 * sc)
    if "cot_alpha" in k:
        M.assume(M.np.sqrt(sp.steep(M, Hm0, k["Tmm10"])) <= 0.5)


for bf in (False, True):
    t = "bestfit" if bf else "design"
    full = dict(SL, **FAC, gamma_v=GV, g=G, gamma_star=(0.7, 1.0))
    eqob("C03", "q/eurotop2018/" + t, m, QF, dict(full, Rc=RC), sp.q_eurotop18, const=dict(use_best_fit=bf))
    eqob("C03", "Rc/eurotop2018/" + t, m, RF, dict(full, q=Q), inv(sp.q_eurotop18), const=dict(use_best_fit=bf), pre=small_q, stubs=GFA)
    comp = dict(CP_, gamma_beta=GBETA, gamma_f=GF)
    eqob("C03", "q/eurotop2018/%s/composite" % t, m, QF, dict(comp, Rc=RC), sp.q_eurotop18, const=dict(use_best_fit=bf), stubs=Z2P + GBI, pre=up)
    eqob("C03", "Rc/eurotop2018/%s/composite" % t, m, RF, dict(comp, q=Q), inv(sp.q_eurotop18), const=dict(use_best_fit=bf), stubs=Z2P + GBI + GFA,
         pre=lambda M, **k: (up(M, **k), small_q(M, **k)))
    sb = dict(SL, gamma_beta=GBETA, gamma_f=GF, B_berm=(0.0, 20.0), db=(-3.0, 3.0))
    eqob("C03", "q/eurotop2018/%s/berm" % t, m, QF, dict(sb, Rc=RC), sp.q_eurotop18, const=dict(use_best_fit=bf), stubs=Z2P + GBI)
    RMQ, RMR = QF + "_rubble_mound", RF + "_rubble_mound"
    for nm, v, st, pr in (("", dict(SL, gamma_beta=GBETA, gamma_f=GF), (), None), ("/composite", dict(CP_, gamma_beta=GBETA, gamma_f=GF), Z2P, up)):
        eqob("C03", "q/eurotop2018/rubble/%s%s" % (t, nm), m, RMQ, dict(v, Rc=RC, g=G), sp.q_rubble, const=dict(use_best_fit=bf), stubs=st, pre=pr)
        eqob("C03", "Rc/eurotop2018/rubble/%s%s" % (t, nm), m, RMR, dict(v, q=Q, g=G), inv(sp.q_rubble), const=dict(use_best_fit=bf), stubs=st,
             pre=(lambda M, pr=pr, **k: (small_q(M, **{a: b for a, b in k.items() if a != "cot_alpha"}), pr and pr(M, **k))))
    v = dict(SL, gamma_beta=GBETA, gamma_f=GF)
    q07 = lambda M, **k: sp.q_rubble(M, year=2007, **k)
    eqob("C03", "q/eurotop2007/" + t, OT + "eurotop2007", RMQ, dict(v, Rc=RC, g=G), q07, const=dict(use_best_fit=bf))
    eqob("C03", "Rc/eurotop2007/" + t, OT + "eurotop2007", RMR, dict(v, q=Q), inv(sp.q_rubble, year=2007), const=dict(use_best_fit=bf))
eqob("C03", "q/eurotop2007/beta", OT + "eurotop2007", RMQ, dict(SL, gamma_f=GF, beta=BETA, Rc=RC), q07, stubs=GBETAS)
eqob("C03", "Rc/eurotop2007/beta", OT + "eurotop2007", RMR, dict(SL, gamma_f=GF, beta=BETA, q=Q), inv(sp.q_rubble, year=2007), stubs=GBETAS)
eqob("C03", "q/eurotop2007/coef", OT + "eurotop2007", RMQ, dict(SL, gamma_f=GF, gamma_beta=GBETA, Rc=RC, c2=(.05, .5), c3=(1., 4.)), q07)
eqob("C03", "Rc/eurotop2007/coef", OT + "eurotop2007", RMR, dict(SL, gamma_f=GF, gamma_beta=GBETA, q=Q, c2=(.05, .5), c3=(1., 4.)), inv(sp.q_rubble, year=2007))
eqob("C03", "q/eurotop2018/beta", m, QF, dict(SL, gamma_b=GB, gamma_f=GF, beta=BETA, Rc=RC), sp.q_eurotop18, stubs=GBETAS)
eqob("C03", "q/eurotop2018/coef", m, QF, dict(SL, **FAC, Rc=RC, c1=(1., 4.), c2=(.05, .5), c3=(.5, 3.), c4=(.01, .1)), sp.q_eurotop18)
eqob("C03", "q/eurotop2018/rubble/beta", m, RMQ, dict(SL, gamma_f=GF, beta=BETA, Rc=RC), sp.q_rubble, stubs=GBETAS)
eqob("C03", "eurotop2018/gamma_beta_q", m, "calculate_influence_oblique_waves_gamma_beta", dict(beta=BETA, gamma_f=GF),
     lambda M, beta, gamma_f: sp.gamma_beta_lin(M, beta, M.np.where(gamma_f > 0.6, 0.0033, 0.0063)))

# ---- run-up Van Gent 2001
m = RU + "vangent2001"
g3 = dict(Tmm10=T, gamma=(0.3, 1.0), cot_alpha=COT)
for nm, c0, c1 in (("z1p", 1.45, 5.1), ("z2p", 1.35, 4.7), ("z10p", 1.1, 4.0)):
    r = lambda M, c0_=c0, c1_=c1, **k: sp.runup_vangent2001(M, k.pop("c0", c0_), k.pop("c1", c1_), **k)
    eqob("C03", "runup/vangent2001/" + nm, m, "calculate_wave_runup_height_" + nm, dict(g3, Hs=H), r)
    eqob("C03", "runup/vangent2001/%s/coef" % nm, m, "calculate_wave_runup_height_" + nm, dict(g3, Hs=H, c0=(.5, 2.), c1=(2., 7.)), r)
eqob("C03", "runup/vangent2001/z2p/Hm0", m, "calculate_wave_runup_height_z2p", dict(g3, Hm0=H),
     lambda M, **k: sp.runup_vangent2001(M, 1.45, 3.8, **k))

# ---- overtopping velocity, Van Gent 2002
eqob("C03", "velocity/vangent2002", OT + "vangent2002_velocity", "calculate_maximum_wave_overtopping_velocity_uXp",
     dict(Hs=H, zXp=(0.1, 30.0), Rc=RC, Bc=(0.1, 20.0), gamma_f=GF, gamma_f_Crest=GF, g=G, cu1=(1.0, 2.5), cu2=(.05, .3)),
     lambda M, Hs, zXp, Rc, Bc, gamma_f, gamma_f_Crest, g, cu1, cu2:
     cu1 * M.np.sqrt(g * gamma_f_Crest * (zXp - Rc) / gamma_f) * Hs / (Hs + cu2 * Bc),
     pre=lambda M, **k: M.assume(k["zXp"] > k["Rc"]))
eqob("C03", "velocity/vangent2002/default", OT + "vangent2002_velocity", "calculate_maximum_wave_overtopping_velocity_uXp",
     dict(Hs=H, zXp=(0.1, 30.0), Rc=RC, Bc=(0.1, 20.0), gamma_f=GF, gamma_f_Crest=GF),
     lambda M, Hs, zXp, Rc, Bc, gamma_f, gamma_f_Crest:
     1.7 * M.np.sqrt(9.81 * gamma_f_Crest * (zXp - Rc) / gamma_f) * Hs / (Hs + 0.1 * Bc),
     pre=lambda M, **k: M.assume(k["zXp"] > k["Rc"]))

# ---- caisson, Van Gent 2021
m = OT + "vangent2021_caisson"
for c in (1.0, 1.3):
    for mode in ("short", "short_parapet", "long", "crossing", "crossing_parapet"):
        k = dict(c=c, short_crested_waves=not mode.startswith("long"), crossing_seas=mode.startswith("cross"), parapet=mode.endswith("parapet"))
        if mode == "crossing":
            k["short_crested_waves"] = False
        v = dict(Hm0=H, beta=(0.0, 75.0), g=G)
        if k["crossing_seas"]:
            v["Hm0_swell"] = (0.0, 1.0)
        pr = (lambda M, **k: M.assume(k["Rc"] > k.get("Hm0_swell", 0) * 0.4))
        prq = (lambda M, **k: M.assume(k["q"] <= 0.04 * M.np.sqrt(k["g"] * k["Hm0"] ** 3)))
        eqob("C03", "q/vangent2021/%s/%s" % (c, mode), m, QF, dict(v, Rc=RC), sp.q_vangent2021, const=k, pre=pr)
        eqob("C03", "Rc/vangent2021/%s/%s" % (c, mode), m, RF, dict(v, q=Q), inv(sp.q_vangent2021), const=k, pre=prq)
    v = dict(Hm0=H, gamma_beta=GBETA)
    eqob("C03", "q/vangent2021/%s/gamma_beta" % c, m, DQ, dict(v, Rc=RC), dim(sp.q_vangent2021), const=dict(c=c))
    eqob("C03", "Rc/vangent2021/%s/gamma_beta" % c, m, DR, dict(v, q=Q, g=G), dinv(sp.q_vangent2021), const=dict(c=c), pre=prq)
    eqob("C03", "q/vangent2021/%s/c_swell" % c, m, QF, dict(v, Rc=RC, Hm0_swell=(0.0, 1.0), c_swell=(0.0, 1.0)), sp.q_vangent2021,
         const=dict(c=c, crossing_seas=True), pre=lambda M, **k: M.assume(k["Rc"] > k["Hm0_swell"]))

# ---- De Ridder
SM = (0.004, 0.06)
for eq, y in ((24, 2024), (26, 2024), (28, 2026), (32, 2026)):
    m = OT + "deridder%d" % y
    v = dict(smm10_HF=SM, gamma_f=GF)
    v["Hm0_HF" if eq == 32 else "Hm0"] = H
    if eq in (26, 32):
        v["Hm0_LF"] = (0.0, 2.0)
    w = dict(v, theta=(-60.0, 60.0)) if y == 2026 else v
    eqob("C03", "q/deridder%d/eq%d" % (y, eq), m, "calculate_overtopping_discharge_q_eq%d" % eq, dict(w, Rc=RC, g=G),
         lambda M, eq=eq, **k: sp.q_deridder(M, eq, **k))
    eqob("C03", "q/deridder%d/eq%d/dimensionless" % (y, eq), m, "calculate_dimensionless_overtopping_discharge_eq%d" % eq, dict(w, Rc=RC),
         lambda M, eq=eq, **k: sp.q_deridder(M, eq, diml=True, **k))
    eqob("C03", "Rc/deridder%d/eq%d" % (y, eq), m, "calculate_crest_freeboard_discharge_q_eq%d" % eq, dict(w, q=Q, g=G),
         lambda M, eq=eq, **k: sp.q_deridder(M, eq, inv=True, **k))
    eqob("C03", "q/deridder%d/eq%d/default" % (y, eq), m, "calculate_overtopping_discharge_q_eq%d" % eq, dict(v, Rc=RC),
         lambda M, eq=eq, **k: sp.q_deridder(M, eq, **k))
    eqob("C03", "Rc/deridder%d/eq%d/default" % (y, eq), m, "calculate_crest_freeboard_discharge_q_eq%d" % eq, dict(v, q=Q),
         lambda M, eq=eq, **k: sp.q_deridder(M, eq, inv=True, **k))
eqob("C03", "Rc/deridder2024/eq24/dimensionless", OT + "deridder2024", "calculate_dimensionless_crest_freeboard_discharge_q_eq24",
     dict(Hm0=H, smm10_HF=SM, gamma_f=GF, q=Q, g=G), lambda M, **k: sp.q_deridder(M, 24, inv=True, diml=True, **k))
eqob("C03", "Rc/deridder2026/eq28/dimensionless", OT + "deridder2026", "calculate_dimensionless_crest_freeboard_discharge_q_eq28",
     dict(Hm0=H, smm10_HF=SM, gamma_f=GF, q=Q, g=G, gamma_beta=GBETA), lambda M, **k: sp.q_deridder(M, 28, inv=True, diml=True, **k))

# ---- Van Gent et al. 2025
m = OT + "vangent2025"
base = dict(Hm0=H, Hm0_swell=(0.0, 2.0), Tmm10=T, Ac=(0.1, 10.0), cot_alpha=COT)
gam = dict(gamma_f=GF, gamma_b=GB, gamma_v=(1.0, 1.45), gamma_beta=GBETA)
for des in (True, False):
    t = "design" if des else "mean"
    eqob("C03", "q/vangent2025/" + t, m, QF, dict(base, **gam, Rc=RC, g=G), sp.q_vangent2025, const=dict(design_calculation=des))
    eqob("C03", "Rc/vangent2025/" + t, m, RF, dict(base, **gam, q=Q), inv(sp.q_vangent2025), const=dict(design_calculation=des))
    eqob("C03", "Rc/vangent2025/%s/dimensionless" % t, m, DR, dict(base, **gam, q=Q, g=G), dinv(sp.q_vangent2025), const=dict(design_calculation=des))
    eqob("C03", "q/vangent2025/%s/wind" % t, m, QF, dict(base, **gam, Rc=RC), sp.q_vangent2025,
         const=dict(design_calculation=des, include_influence_wind=True), pre=lambda M, **k: M.assume(k["Rc"] >= k["Ac"]))
v = dict(base, gamma_v=(1.0, 1.45), beta=(0.0, 75.0), Dn50=DN, B_berm=(0.01, 20.0), db=(-3.0, 3.0))
# friction factor positive, berm level below the armour crest
pr = lambda M, **k: (M.assume(k["Dn50"] <= 5 * k["Hm0"]), M.assume(k["db"] < k["Ac"]))
eqob("C03", "q/vangent2025/computed_factors", m, DQ, dict(v, Rc=RC), dim(sp.q_vangent2025), pre=pr, const=dict(design_calculation=False))
eqob("C03", "Rc/vangent2025/computed_factors", m, DR, dict(v, q=Q), dinv(sp.q_vangent2025), pre=pr, const=dict(design_calculation=False))
eqob("C03", "vangent2025/gamma_f", m, "calculate_influence_friction_gamma_f", dict(Dn50=DN, Hm0=H, smm10=(0.0005, 0.06)), sp.vg25_gamma_f)
eqob("C03", "vangent2025/gamma_b", m, "calculate_influence_berm_gamma_b",
     dict(Hm0=H, smm10=(0.0005, 0.06), Ac=(.1, 10.), B_berm=(0.01, 20.), BL=(.01, 10.)), sp.vg25_gamma_b)
eqob("C03", "vangent2025/gamma_beta", m, "calculate_influence_oblique_waves_gamma_beta", dict(beta=(-90.0, 90.0)),
     lambda M, beta: 0.65 * sp.cos2(M, beta) + 0.35)
eqob("C03", "vangent2025/gamma_v", m, "calculate_influence_crest_wall_gamma_v", dict(cot_alpha=COT, Rc=RC, Ac=RC),
     lambda M, cot_alpha, Rc, Ac: M.np.where(cot_alpha <= 4, 1 + 0.45 * (1 - Ac / Rc), 1 + 0.1125 * cot_alpha * (1 - Ac / Rc)))
eqob("C03", "vangent2025/gamma_w", m, "calculate_influence_wind_gamma_w", dict(Rc=RC, Ac=RC, Hm0=H, q_diml=(1e-8, 0.1)),
     lambda M, Rc, Ac, Hm0, q_diml: 1 + 0.075 * (Rc - Ac) / Hm0 / q_diml ** 0.3)
