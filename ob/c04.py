"""C04: wave transmission, structure-induced set-up and the shared physics equal their published equations."""
from ._lib import *
from . import _spec as sp

E_ = "C04"
TRV = dict(Hsi=H, Tpi=T, Rc=(-10.0, 10.0), B=(0.1, 200.0), cot_alpha=COT)


def dang(M, Hsi, Tpi, Rc, B, cot_alpha, C1=0.64, h=None, do_validity_check=True):
    np = M.np
    K = -0.4 * Rc / Hsi + C1 * (B / Hsi) ** -0.31 * (1 - np.exp(-0.5 * sp.irib(M, Hsi, Tpi, cot_alpha)))
    return sp.clip(M, K, 0.075, 0.8)


def brig(M, Hsi, Tpi, Rc, B, cot_alpha):
    np = M.np
    if B < 10 * Hsi:
        K = dang(M, Hsi, Tpi, Rc, B, cot_alpha)
    else:
        K = -0.35 * Rc / Hsi + 0.51 * (B / Hsi) ** -0.65 * (1 - np.exp(-0.41 * sp.irib(M, Hsi, Tpi, cot_alpha)))
    return sp.mx(M, sp.mn(M, K, 0.93 - 0.006 * B / Hsi), 0.05)


def goda67(M, Hsi, Rc, alpha_1=2.2, beta_1=0.4):
    x = Rc / Hsi
    if x <= -alpha_1 - beta_1:
        return 1
    if x <= alpha_1 - beta_1:
        return (1 - M.np.sin(M.pi / 2 * (x + beta_1) / alpha_1)) / 2
    return 0.03


KT23 = dict(impermeable=(0.47, 0.0, 0.5), permeable=(0.43, -0.25, 0.5), perforated=(0.13, -0.15, 0.82),
            perforated_with_screen=(0.4, -0.15, 0.5), perforated_with_perforated_screen=(0.17, -0.15, 0.76))


def kt23(M, Hm0, Tmm10, Rc, B, structure_type="permeable"):
    c1, c4, c5 = KT23[structure_type]
    L = 9.81 * Tmm10 * Tmm10 / (2 * M.pi)
    return c5 - c1 * M.np.tanh(Rc / Hm0 + 3.1 * (B / L) ** 0.75 + c4)


for fn, c in (("permeable", 0.64), ("impermeable", 0.8)):
    f = "calculate_wave_transmission_Kt_" + fn
    eqob(E_, "dangremond/" + fn, TR + "dangremond1996", f, dict(TRV, h=(0.5, 60.0)), lambda M, c=c, **k: dang(M, C1=c, **k))
    eqob(E_, "dangremond/%s/C1" % fn, TR + "dangremond1996", f, dict(TRV, h=(0.5, 60.0), C1=(0.2, 1.2)), dang)
eqob(E_, "dangremond/nocheck", TR + "dangremond1996", "calculate_wave_transmission_Kt_permeable", dict(TRV, h=(0.5, 60.0)), dang, const=dict(do_validity_check=False))
eqob(E_, "briganti", TR + "briganti2003", "calculate_wave_transmission_Kt", TRV, brig)
eqob(E_, "goda1967", TR + "goda1967_caisson", "calculate_wave_transmission_Kt", dict(Hsi=H, Rc=(-30.0, 30.0)), goda67)
eqob(E_, "goda1967/parameters", TR + "goda1967_caisson", "calculate_wave_transmission_Kt",
     dict(Hsi=H, Rc=(-30.0, 30.0), alpha_1=(1.5, 3.0), beta_1=(0.0, 1.0)), goda67)
for st in KT23:
    eqob(E_, "vangent2023/" + st, TR + "vangent2023", "calculate_wave_transmission_Kt",
         dict(Hm0=H, Tmm10=T, Rc=(-20.0, 20.0), B=(0.1, 200.0)), kt23, const=dict(structure_type=st))
eqob(E_, "vangent2023/default", TR + "vangent2023", "calculate_wave_transmission_Kt",
     dict(Hm0=H, Tmm10=T, Rc=(-20.0, 20.0), B=(0.1, 200.0)), kt23)


@ob(E_, "vangent2023/unknown-type", funcs=(TR + "vangent2023.calculate_wave_transmission_Kt",))
def _(M):
    kw = M.vars(Hm0=H, Tmm10=T, Rc=(-20.0, 20.0), B=(0.1, 200.0))
    f = M.fn(TR + "vangent2023", "calculate_wave_transmission_Kt")
    M.check("error", M.raises(lambda: f(structure_type="rubble", **kw), ValueError))


def setup_i(M, Hm0, Tmm10, Rc, diml=False):
    np = M.np
    d = 0.34 * sp.steep(M, Hm0, Tmm10) ** 0.4 * (Rc / Hm0 + 1.6) ** 3.5
    return d if diml else d * Hm0


def setup_p(M, Hm0, Tmm10, Rc, hc, diml=False):
    d = 0.22 * sp.steep(M, Hm0, Tmm10) ** 0.2 * (hc / Hm0) ** -0.7 * (Rc / Hm0 + 1.5) ** 1.5
    return d if diml else d * Hm0


sub = lambda c: lambda M, Rc, Hm0, **k: M.assume(Rc > -c * Hm0)
v = dict(Hm0=H, Tmm10=T, Rc=(-20.0, 10.0))
vp = dict(v, hc=(0.1, 30.0))
m = TR + "vangent2024_setup"
eqob(E_, "setup/impermeable", m, "calculate_structure_induced_setup_delta_impermeable", v, setup_i, pre=sub(1.6))
eqob(E_, "setup/impermeable/dimensionless", m, "calculate_dimensionless_structure_induced_setup_impermeable", v, lambda M, **k: setup_i(M, diml=True, **k), pre=sub(1.6))
eqob(E_, "setup/permeable", m, "calculate_structure_induced_setup_delta_permeable", vp, setup_p, pre=sub(1.5))
eqob(E_, "setup/permeable/dimensionless", m, "calculate_dimensionless_structure_induced_setup_permeable", vp, lambda M, **k: setup_p(M, diml=True, **k), pre=sub(1.5))

# ---- shared physics
eqob(E_, "physics/steepness", CP, "calculate_wave_steepness_s", dict(H=H, T=T), lambda M, H, T: sp.steep(M, H, T))
eqob(E_, "physics/steepness/g", CP, "calculate_wave_steepness_s", dict(H=H, T=T, g=G), lambda M, H, T, g: sp.steep(M, H, T, g))
eqob(E_, "physics/iribarren", CP, "calculate_Iribarren_number_ksi", dict(H=H, T=T, cot_alpha=COT), lambda M, H, T, cot_alpha: sp.irib(M, H, T, cot_alpha))
eqob(E_, "physics/critical-iribarren", CP, "calculate_critical_Iribarren_number_ksi_mc", dict(c_pl=(3., 12.), c_s=(.5, 3.), P=P, cot_alpha=COT),
     lambda M, c_pl, c_s, P, cot_alpha: M.np.power(c_pl / c_s * M.np.power(P, 0.31) / M.np.sqrt(cot_alpha), 1 / (P + 0.5)))
eqob(E_, "physics/stability-number", CP, "calculate_stability_number_Ns", dict(H=H, D=DN, rho_rock=RROCK, rho_water=RW),
     lambda M, H, D, rho_rock, rho_water: H * rho_water / ((rho_rock - rho_water) * D))
eqob(E_, "physics/Delta", CP, "calculate_buoyant_density_Delta", dict(rho_rock=RROCK, rho_water=RW), lambda M, rho_rock, rho_water: rho_rock / rho_water - 1)
eqob(E_, "physics/M50", CP, "calculate_M50_from_Dn50", dict(Dn50=DN, rho_rock=RROCK), lambda M, Dn50, rho_rock: rho_rock * Dn50 * Dn50 * Dn50)
eqob(E_, "physics/M50/default", CP, "calculate_M50_from_Dn50", dict(Dn50=DN), lambda M, Dn50: 2650 * Dn50 * Dn50 * Dn50)
eqob(E_, "physics/S", CP, "calculate_S_from_Nod", dict(Nod=(0.1, 10.), G=(1., 2.), nv=(0.2, 0.6)), lambda M, Nod, G, nv: Nod / (G * (1 - nv)))
eqob(E_, "physics/Nod", CP, "calculate_Nod_from_S", dict(S=S, G=(1., 2.), nv=(0.2, 0.6)), lambda M, S, G, nv: S * G * (1 - nv))


@ob(E_, "physics/Dn50", funcs=(CP + ".calculate_Dn50_from_M50",))
def _(M):
    kw = M.vars(M50=(1.0, 1e6), rho_rock=RROCK)
    d = M.fn(CP, "calculate_Dn50_from_M50")(**kw)
    M.check("cube", M.eq(d * d * d * kw["rho_rock"], kw["M50"]))
    d = M.fn(CP, "calculate_Dn50_from_M50")(M50=kw["M50"])
    M.check("cube, default density", M.eq(d * d * d * 2650, kw["M50"]))


@ob(E_, "physics/dispersion", funcs=(CP + ".calculate_local_wavelength",))
def _(M):
    kw = M.vars(T=T, h=(0.5, 200.0), g=G)
    f = M.fn(CP, "calculate_local_wavelength")
    for lab, k in (("g given", kw), ("default g", dict(T=kw["T"], h=kw["h"]))):
        L = f(**k)
        kk = 2 * M.pi / L
        w = 2 * M.pi / kw["T"]
        M.check(lab, M.eq(k.get("g", 9.81) * kk * M.np.tanh(kk * kw["h"]), w * w, rtol=1e-5))


@ob(E_, "physics/stability-relation", funcs=(CP + ".check_usage_stabilitynumber",))
def _(M):
    kw = M.vars(Hs=H, Dn=DN, Delta=(0.5, 2.5), Ns=(0.5, 10.0))
    f = M.fn(CP, "check_usage_stabilitynumber")
    for miss in kw:
        k = {a: b for a, b in kw.items() if a != miss}
        x, name = f(**k)
        M.check("name of missing " + miss, name == miss)
        k[miss] = x
        M.check("relation with " + miss, M.eq(k["Hs"], k["Ns"] * k["Delta"] * k["Dn"]))
