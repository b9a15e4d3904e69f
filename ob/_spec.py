"""Independent statements of the published equations, written against M.np.

Nothing here is derived from the repository at run time; the symbolic and the
concrete back end evaluate the same text."""
from ._lib import NAN, OT, RU


def nan(x):
    return isinstance(x, float) and x != x


# ------------------------------------------------------------------ core
def steep(M, H, T, g=9.81):
    return 2 * M.pi * H / (g * T * T)


def irib(M, H, T, cot):
    return 1 / (cot * M.np.sqrt(steep(M, H, T)))


def mn(M, a, b):
    return M.np.minimum(a, b)


def mx(M, a, b):
    return M.np.maximum(a, b)


def clip(M, x, lo, hi):
    return mn(M, mx(M, x, lo), hi)


def delta(rr, rw):
    return rr / rw - 1


# ------------------------------------------------------------------ run-up / overtopping, TAW family
def gamma_beta_lin(M, beta, c, top=80.0):
    return 1 - c * mn(M, abs(beta), top)


def gamma_f_adj(M, gf, gb, ksi):
    if getattr(M, "gfa_stub", False):
        # decided by its own obligation
        return M.fn(RU + "taw2002", "calculate_adjusted_influence_roughness_gamma_f")(gamma_f=gf, gamma_b=gb, ksi_mm10=ksi)
    return gf + (1 - gf) * (clip(M, gb * ksi, 1.8, 10) - 1.8) / 8.2


def avg_cot(Hm0, z, cd, cu, B, db):
    return ((1.5 * Hm0 - db) * cd + (z + db) * cu) / (1.5 * Hm0 + z)


def taw_slope(M, kw, gbeta, mod, it_kw):
    """representative slope; composite slopes by way of the (stubbed) run-up iteration"""
    cot = kw.get("cot_alpha", NAN)
    if "cot_alpha_down" in kw:
        B, db = kw.get("B_berm", 0.0), kw.get("db", 0.0)
        z = M.fn(RU + mod, "iteration_procedure_z2p")(
            Hm0=kw["Hm0"], Tmm10=kw["Tmm10"], cot_alpha_down=kw["cot_alpha_down"], cot_alpha_up=kw["cot_alpha_up"],
            B_berm=B, db=db, gamma_f=kw.get("gamma_f", 1.0), gamma_beta=gbeta, **it_kw)
        cot = M.fn(RU + "taw2002", "determine_average_slope")(
            Hm0=kw["Hm0"], z2p=z, cot_alpha_down=kw["cot_alpha_down"], cot_alpha_up=kw["cot_alpha_up"], B_berm=B, db=db)
    return cot


def taw_berm(M, kw, cot, gbeta, mod, it_kw):
    if "gamma_b" in kw:
        return kw["gamma_b"]
    B, db = kw.get("B_berm", 0.0), kw.get("db", 0.0)
    cd, cu = kw.get("cot_alpha_down", cot), kw.get("cot_alpha_up", cot)
    L = kw["Hm0"] * (cd + cu) + B
    return M.fn(RU + mod, "iteration_procedure_gamma_b")(
        Hm0=kw["Hm0"], Tmm10=kw["Tmm10"], cot_alpha_average=cot, B_berm=B, L_berm=L, db=db,
        gamma_f=kw.get("gamma_f", 1.0), gamma_beta=gbeta, **it_kw)


def runup_taw(M, coef=(1.75, 4.3, 1.6, 1.0), best=(1.65, 4.0, 1.5, 1.0), family="taw", diml=False, **kw):
    c = best if kw.get("use_best_fit") else tuple(kw.get("c%d" % (i + 1), coef[i]) for i in range(4))
    gf = kw.get("gamma_f", 1.0)
    if "gamma_beta" in kw:
        gbeta = kw["gamma_beta"]
    elif family == "taw":
        gbeta = M.fn(RU + "taw2002", "calculate_influence_oblique_waves_gamma_beta")(beta=kw["beta"])
    else:
        gbeta = M.fn(RU + "eurotop2018", "calculate_influence_oblique_waves_gamma_beta")(beta=kw["beta"], gamma_f=gf)
    it = dict(c1=c[0], c2=c[1], c3=c[2], c4=c[3])
    if family == "taw":
        it["use_best_fit"] = bool(kw.get("use_best_fit"))
    cot = taw_slope(M, kw, gbeta, "taw2002", it)
    gb = taw_berm(M, kw, cot, gbeta, "taw2002", it)
    ksi = irib(M, kw["Hm0"], kw["Tmm10"], cot)
    ga = gamma_f_adj(M, gf, gb, ksi)
    za = c[0] * gb * ga * gbeta * ksi
    zb = c[3] * ga * gbeta * (c[1] - c[2] / M.np.sqrt(ksi))
    return mn(M, za, zb) * (1 if diml else kw["Hm0"]), ("ge", za, zb)


def runup_eurotop(M, **kw):
    return runup_taw(M, coef=(1.75, 4.3, 1.5, 1.07), family="eurotop", **kw)


def _taw_pre(M, kw, family):
    gf = kw.get("gamma_f", 1.0)
    best = bool(kw.get("use_best_fit"))
    if "gamma_beta" in kw:
        gbeta = kw["gamma_beta"]
    elif family == "taw":
        gbeta = M.fn(OT + "taw2002", "calculate_influence_oblique_waves_gamma_beta")(beta=kw["beta"])
    else:
        gbeta = M.fn(OT + "eurotop2018", "calculate_influence_oblique_waves_gamma_beta")(beta=kw["beta"], gamma_f=gf)
    mod = "taw2002" if family == "taw" else "eurotop2018"
    cot = taw_slope(M, kw, gbeta, mod, {} if family == "taw" else {"use_best_fit": best})
    ksi = irib(M, kw["Hm0"], kw["Tmm10"], cot)
    return gf, best, gbeta, cot, ksi, mod


def q_taw(M, inv=False, diml=False, **kw):
    gf, best, gbeta, cot, ksi, mod = _taw_pre(M, kw, "taw")
    gb = taw_berm(M, kw, cot, gbeta, mod, {})
    ga = gamma_f_adj(M, gf, gb, ksi)
    gv = kw.get("gamma_v", 1.0)
    sg = kw.get("sigma", 0) if best else 0
    c1, c3 = (4.75 + 0.5 * sg, 2.6 + 0.35 * sg) if best else (4.3, 2.3)
    H = kw["Hm0"]
    sc = M.np.sqrt(kw.get("g", 9.81) * H * H * H)
    A = 0.067 * M.np.sqrt(cot) * ksi * gb
    ka = c1 / (ksi * gb * ga * gbeta * gv)
    kb = c3 / (ga * gbeta)
    if not inv:
        x = kw["Rc"] / H
        a, b = A * M.np.exp(-ka * x), 0.2 * M.np.exp(-kb * x)
        return mn(M, a, b) * (1 if diml else sc), ("ge", a, b)
    x = kw["q"] / sc
    a, b = M.np.log(A / x) / ka, M.np.log(0.2 / x) / kb
    return mn(M, a, b) * (1 if diml else H), ("ge", a, b)


def q_eurotop18(M, inv=False, diml=False, **kw):
    gf, best, gbeta, cot, ksi, mod = _taw_pre(M, kw, "eurotop")
    gb = taw_berm(M, kw, cot, gbeta, mod, {})
    ga = gamma_f_adj(M, gf, gb, ksi)
    gv, gs = kw.get("gamma_v", 1.0), kw.get("gamma_star", 1.0)
    d = (2.5, 0.1035, 1.35, 0.026)
    c1, c2, c3, c4 = (2.7, 0.09, 1.5, 0.023) if best else [kw.get("c%d" % (i + 1), d[i]) for i in range(4)]
    H = kw["Hm0"]
    sc = M.np.sqrt(kw.get("g", 9.81) * H * H * H)
    A = c4 * M.np.sqrt(cot) * ksi * gb
    ka = c1 / (ksi * gb * ga * gbeta * gv)
    kb = c3 / (ga * gbeta * gs)
    if not inv:
        x = kw["Rc"] / H
        a, b = A * M.np.exp(-((ka * x) ** 1.3)), c2 * M.np.exp(-((kb * x) ** 1.3))
        return mn(M, a, b) * (1 if diml else sc), ("ge", a, b)
    x = kw["q"] / sc
    # a real freeboard exists
    M.assume(A > x)
    M.assume(c2 > x)
    a, b = M.np.log(A / x) ** (1 / 1.3) / ka, M.np.log(c2 / x) ** (1 / 1.3) / kb
    return mn(M, a, b) * (1 if diml else H), ("ge", a, b)


def q_rubble(M, year=2018, inv=False, diml=False, **kw):
    if year == 2018:
        gf, best, gbeta, cot, ksi, mod = _taw_pre(M, kw, "eurotop")
        c2, c3 = (0.09, 1.5) if best else (kw.get("c2", 0.1035), kw.get("c3", 1.35))
        p = 1.3
    else:
        gf = kw.get("gamma_f", 1.0)
        gbeta = kw["gamma_beta"] if "gamma_beta" in kw else M.fn(
            RU + "taw2002", "calculate_influence_oblique_waves_gamma_beta")(beta=kw["beta"])
        ksi = irib(M, kw["Hm0"], kw["Tmm10"], kw["cot_alpha"])
        c2, c3 = (0.2, 2.6) if kw.get("use_best_fit") else (kw.get("c2", 0.2), kw.get("c3", 2.3))
        p = 1
    ga = gamma_f_adj(M, gf, 1.0, ksi)
    H = kw["Hm0"]
    sc = M.np.sqrt(kw.get("g", 9.81) * H * H * H)
    k = c3 / (ga * gbeta)
    if not inv:
        y = k * kw["Rc"] / H
        return c2 * M.np.exp(-(y ** p if p != 1 else y)) * (1 if diml else sc)
    y = M.np.log(c2 * sc / kw["q"])
    return (y ** (1 / p) if p != 1 else y) / k * (1 if diml else H)


def runup_vangent2001(M, c0, c1, **kw):
    H = kw.get("Hs", kw.get("Hm0"))
    c0, c1 = kw.get("c0", c0), kw.get("c1", c1)
    ksi = irib(M, H, kw["Tmm10"], kw["cot_alpha"])
    M.away((ksi, c1 / (2 * c0)))
    return kw["gamma"] * H * M.np.where(2 * c0 * ksi < c1, c0 * ksi, c1 - c1 * c1 / (4 * c0 * ksi))


# ------------------------------------------------------------------ caisson, Van Gent (2021)
VG21 = {(1.0, True): (0.2, 3.9, 0.75, 0.89), (1.0, False): (0.2, 4.0, 0.8, None),
        (1.3, True): (0.047, 2.57, 0.7, 0.85), (1.3, False): (0.047, 2.7, 0.8, None)}


def cos2(M, beta):
    return M.np.cos(beta * M.pi / 180) ** 2


def q_vangent2021(M, inv=False, diml=False, **kw):
    c = kw.get("c", 1.0)
    cross = kw.get("crossing_seas", False)
    a, b, cb, gp = VG21[(c, kw.get("short_crested_waves", True) or cross)]
    if not kw.get("parapet", False):
        gp = 1.0
    gbeta = kw["gamma_beta"] if "gamma_beta" in kw else (1 - cb / gp) * cos2(M, kw["beta"]) + cb / gp
    sw = kw.get("c_swell", 0.4) * kw["Hm0_swell"] if cross else 0
    H = kw["Hm0"]
    sc = M.np.sqrt(kw.get("g", 9.81) * H * H * H)
    k = b / (gbeta * gp)
    if not inv:
        x = (kw["Rc"] - sw) / H
        return a * M.np.exp(-k * (x ** c if c != 1 else x)) * (1 if diml else sc)
    y = M.np.log(a * sc / kw["q"]) / k
    return ((y ** (1 / c) if c != 1 else y) + sw / H) * (1 if diml else H)


# ------------------------------------------------------------------ De Ridder
def q_deridder(M, eq, inv=False, diml=False, **kw):
    gf, s = kw["gamma_f"], kw["smm10_HF"]
    gbeta = 1
    if eq in (28, 32):
        gbeta = kw["gamma_beta"] if "gamma_beta" in kw else 0.65 * cos2(M, kw.get("theta", 0.0)) + 0.35
    a, k, e, sw = {24: (0.74, 8.51, 0.32, 0), 26: (0.5, 7.91, 0.3, 0.21), 28: (0.16, 6.93, 0.36, 0),
                   32: (0.05, 10.4, 0.5, 0.97)}[eq]
    H = kw["Hm0_HF"] if eq == 32 else kw["Hm0"]
    sw = sw * kw["Hm0_LF"] if sw else 0
    kk = k * s ** e / (gf * gbeta)
    sc = M.np.sqrt(kw.get("g", 9.81) * H * H * H)
    if not inv:
        return a * M.np.exp(-kk * (kw["Rc"] - sw) / H) * (1 if diml else sc)
    return (M.np.log(a * sc / kw["q"]) / kk + sw / H) * (1 if diml else H)


# ------------------------------------------------------------------ Van Gent et al. (2025)
def vg25_factors(M, kw):
    H, s = kw["Hm0"], steep(M, kw["Hm0"], kw["Tmm10"])
    gbeta = kw["gamma_beta"] if "gamma_beta" in kw else 0.65 * cos2(M, kw["beta"]) + 0.35
    if "gamma_b" in kw:
        gb = kw["gamma_b"]
    else:
        gb = vg25_gamma_b(M, H, s, kw["Ac"], kw.get("B_berm", 0.0), kw["Ac"] - kw.get("db", 0.0))
    gf = kw["gamma_f"] if "gamma_f" in kw else vg25_gamma_f(M, kw["Dn50"], H, s)
    return gf, gb, gbeta


def vg25_gamma_f(M, Dn50, Hm0, smm10):
    g1 = 1 - 0.7 * (Dn50 / Hm0) ** 0.05
    return M.np.where(smm10 >= 0.012, g1, g1 + 12 * (0.012 - smm10) * (1 - g1))


def vg25_gamma_b(M, Hm0, smm10, Ac, B_berm, BL):
    return 1 - 18 * (smm10 * B_berm / Hm0) ** 1.3 * (1 - 0.34 * (BL / (smm10 * Ac)) ** 0.2)


def q_vangent2025(M, inv=False, diml=False, **kw):
    gf, gb, gbeta = vg25_factors(M, kw)
    G = gf * gb * kw["gamma_v"] * gbeta
    H, cot = kw["Hm0"], kw["cot_alpha"]
    ksi = irib(M, H, kw["Tmm10"], cot)
    sw = 0.4 * kw["Hm0_swell"]
    des = kw.get("design_calculation", True)
    wind = kw.get("include_influence_wind", False)
    sc = M.np.sqrt(kw.get("g", 9.81) * H * H * H)
    ka, kb = 5 / (G * ksi), 2.5 / (G * ksi ** 0.24)
    if not inv:
        x = (kw["Rc"] - sw) / H
        a, b = 6.8 / cot * M.np.exp(-ka * x), 0.8 / cot * M.np.exp(-kb * x)
        q = mn(M, a, b)
        if wind:
            q = q * (1 + 0.075 * (kw["Rc"] - kw["Ac"]) / H * q ** (-0.3))
        if des:
            q = q ** 0.857
        return q * (1 if diml else sc), ("ge", a, b)
    x = kw["q"] / sc
    if des:
        x = x ** (1 / 0.857)
    a, b = M.np.log(6.8 / (cot * x)) / ka + sw / H, M.np.log(0.8 / (cot * x)) / kb + sw / H
    return mn(M, a, b) * (1 if diml else H), ("ge", a, b)
