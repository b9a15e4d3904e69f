"""C02: structural formulas solved for different unknowns are inverse to each other."""
from ._lib import *
from . import _spec as sp
from . import _spec2 as s2

P_ = "C02"
HB, TB_, M50_, NOD, HT, HW = (0.1, 12.0), (2.0, 25.0), (1.0, 5e4), (0.01, 10.0), (0.1, 20.0), (0.2, 30.0)
MASS = (10.0, 1e5)


def trip(name, mod, f1, out, f2, back, var, const=None, pre=None, post=None, stubs=(), drop1=(), drop2=(), conv=None, rtol=1e-6, mod2=None, const2=None, pick=None):
    """x = f1(kw) gives `out`; f2(kw with out instead of back) must give back kw[back].
    back is an input of f1 that f2 computes."""
    const = const or {}

    def h(M):
        for a in stubs:
            M.stub_uf(*a)
        kw = dict(M.vars(**{(k if k != "M" else "mass"): v for k, v in var.items()}), **const)
        if "mass" in kw:
            kw["M"] = kw.pop("mass")
        if pre:
            pre(M, kw)
        x = M.fn(mod, f1)(**{k: v for k, v in kw.items() if k not in drop1})
        if post:
            post(M, x, kw)
        k2 = {k: v for k, v in kw.items() if k != back and k not in drop2}
        k2[out] = x
        k2.update(const2 or {})
        if conv:
            k2 = conv(M, k2, kw)
        y = M.fn(mod2 or mod, f2)(**k2)
        M.check(back + " recovered", M.eq(y, kw[back], rtol=rtol))
    ob(P_, name, funcs=(mod + "." + f1, (mod2 or mod) + "." + f2))(h)


def pair(name, mod, f1, out, f2, back, var, rng, **k):
    """both directions: back -> out -> back and out -> back -> out (rng: box of out)"""
    trip(name + "/" + back, mod, f1, out, f2, back, var, **{a: b for a, b in k.items() if a not in ("pre2", "post2")})
    v2 = {a: b for a, b in var.items() if a != back}
    v2[out] = rng
    k2 = dict(k)
    k2["drop1"], k2["drop2"] = k.get("drop2", ()), k.get("drop1", ())
    k2["pre"], k2["post"] = k.get("pre2"), k.get("post2")
    k2.pop("pre2", None), k2.pop("post2", None)
    trip(name + "/" + out, mod, f2, back, f1, out, v2, **k2)


# ---- conversions
for t, e in (("", {}), ("/density", dict(rho_rock=RROCK))):
    trip("mass of diameter" + t, CP, "calculate_M50_from_Dn50", "M50", "calculate_Dn50_from_M50", "Dn50", dict(Dn50=DN, **e))
    trip("diameter of mass" + t, CP, "calculate_Dn50_from_M50", "Dn50", "calculate_M50_from_Dn50", "M50", dict(M50=M50_, **e))
trip("S of Nod", CP, "calculate_Nod_from_S", "Nod", "calculate_S_from_Nod", "S", dict(S=S, G=(1., 2.), nv=(.2, .6)))
trip("Nod of S", CP, "calculate_S_from_Nod", "S", "calculate_Nod_from_S", "Nod", dict(Nod=NOD, G=(1., 2.), nv=(.2, .6)))


SN = dict(Hs=HB, Dn=DN, Delta=(1., 2.5))
for a in ("Hs", "Dn", "Delta"):
    def hsn(M, a=a):
        kw = M.vars(**SN)
        f = M.fn(CP, "check_usage_stabilitynumber")
        Ns, nm = f(**kw)
        x, who = f(Ns=Ns, **{k: v for k, v in kw.items() if k != a})
        M.check("recovered", M.eq(x, kw[a]))
        M.check("name", (nm == "Ns") and (who == a))
        M.check("definition", M.eq(Ns * kw["Delta"] * kw["Dn"], kw["Hs"]))
    ob(P_, "stability number/" + a, funcs=(CP + ".check_usage_stabilitynumber",))(hsn)


@ob(P_, "stability number/definition", funcs=(CP + ".calculate_stability_number_Ns", CP + ".calculate_buoyant_density_Delta"))
def _(M):
    kw = M.vars(H=HB, D=DN, rho_rock=RROCK, rho_water=RW)
    Ns = M.fn(CP, "calculate_stability_number_Ns")(**kw)
    D = M.fn(CP, "calculate_buoyant_density_Delta")(rho_rock=kw["rho_rock"], rho_water=kw["rho_water"])
    M.check("density", M.eq((D + 1) * kw["rho_water"], kw["rho_rock"]))
    M.check("number", M.eq(Ns * D * kw["D"], kw["H"]))


# ---- Hudson
m = RA + "hudson1959"
hv = dict(rho_water=RW, rho_armour=RROCK, KD=(1.0, 20.0), cot_alpha=COT)
MN, HN = "calculate_median_rock_mass_M50_no_damage", "calculate_significant_wave_height_Hs_no_damage"
for t, e in (("", {}), ("/alpha", dict(alpha_Hs=(1., 1.6)))):
    pair("hudson/no-damage" + t, m, MN, "M50", HN, "Hs", dict(hv, Hs=HB, **e), MASS)
    for rt in ("rough", "smooth"):
        pair("hudson/damage/" + rt + t, m, "calculate_median_rock_mass_M50", "M50", "calculate_significant_wave_height_Hs", "Hs",
             dict(hv, Hs=HB, damage_percentage=(0., 100.), **e), MASS, const=dict(rock_type=rt))

# ---- Van der Meer family
VM = dict(N_waves=N, cot_alpha=COT, P=P, rho_armour=RROCK)
SF, DF, HF = "calculate_damage_number_S", "calculate_nominal_rock_diameter_Dn50", "calculate_significant_wave_height_Hs"
GN = ((RA + "vandermeer1988", "calculate_correction_term_gamma_N"),)


def ratio(M, k2, kw):
    k2 = dict(k2)
    if "H2p" in k2:
        k2["ratio_H2p_Hs"] = k2.pop("H2p") / kw["Hs"]
    return k2


for name, md, tn, h2, cpl, cs, extra in (
        ("vandermeer1988", "vandermeer1988", "Tm", True, (6., 10.), (1., 2.), {}),
        ("modified", "vandermeer1988_modified", "Tmm10", True, (6., 10.), (1., 2.), {}),
        ("vandermeer2021", "vandermeer2021", "Tmm10", False, (5., 8.), (.7, 1.3), dict(c_pl_mult=(.8, 1.2), c_s_mult=(.8, 1.2)))):
    m = RA + md
    base = dict(VM, **{tn: TB_, "Hs": HB})
    st = GN if name == "vandermeer1988" else ()
    if h2:
        base["H2p"] = (0.1, 18.0)
    for t, e in (("", dict(rho_water=RW) if h2 else {}), ("/coefficients", dict(c_pl=cpl, c_s=cs))):
        pair(name + "/S-Dn50" + t, m, SF, "S", DF, "Dn50", dict(base, Dn50=DN, **e), S, stubs=st)
        trip(name + "/S-Hs" + t, m, SF, "S", HF, "Hs", dict(base, Dn50=DN, **e), conv=ratio if h2 else None, stubs=st)
        trip(name + "/Dn50-Hs" + t, m, DF, "Dn50", HF, "Hs", dict(base, S=S, **e), conv=ratio if h2 else None, stubs=st)

        # wave height -> damage
        def hs(M, m=m, base=base, e=e, h2=h2, st=st):
            for a in st:
                M.stub_uf(*a)
            v = {k: b for k, b in base.items() if k not in ("Hs", "H2p")}
            if h2:
                v["ratio_H2p_Hs"] = (1., 1.5)
            kw = M.vars(**dict(v, Dn50=DN, S=S, **e))
            x = M.fn(m, HF)(**kw)
            k2 = {k: b for k, b in kw.items() if k not in ("S", "ratio_H2p_Hs")}
            k2["Hs"] = x
            if h2:
                k2["H2p"] = x * kw["ratio_H2p_Hs"]
            M.check("S recovered", M.eq(M.fn(m, SF)(**k2), kw["S"], rtol=1e-6))
        ob(P_, name + "/Hs-S" + t, funcs=(m + "." + HF, m + "." + SF))(hs)
    if extra:
        pair(name + "/S-Dn50/multipliers", m, SF, "S", DF, "Dn50", dict(base, Dn50=DN, **extra), S)
        trip(name + "/S-Hs/multipliers", m, SF, "S", HF, "Hs", dict(base, Dn50=DN, **extra))

# ---- Jumelet 2024
m = RA + "jumelet2024"
jv = dict(Hs=HB, Tmm10=TB_, N_waves=(250., 20000.), cot_alpha=(4., 12.), rho_armour=RROCK)


def ju_pre(M, kw):
    ksi = sp.irib(M, kw["Hs"], kw["Tmm10"], kw["cot_alpha"])
    M.assume(s2.ju_Np(M, ksi, kw["N_waves"]) >= 1)


for t, e in (("", {}), ("/coefficient", dict(c_pl=(3., 6.)))):
    pair("jumelet/S-Dn50" + t, m, SF, "S", DF, "Dn50", dict(jv, Dn50=DN, **e), S, pre=ju_pre, pre2=ju_pre)

    def ju(M, e=e):
        """the solution is a fixed point of the wave-height iteration"""
        kw = M.vars(**dict(jv, Dn50=DN, **e))
        ju_pre(M, kw)
        x = M.fn(RA + "jumelet2024", SF)(**kw)
        s = sp.steep(M, kw["Hs"], kw["Tmm10"])
        k2 = {k: v for k, v in kw.items() if k != "Hs"}
        y = M.fn(RA + "jumelet2024", HF)(S=x, smm10_init=s, max_iter=2, **k2)
        M.check("Hs recovered", M.eq(y, kw["Hs"], rtol=1e-6))
    ob(P_, "jumelet/Hs-fixed-point" + t, funcs=(m + "." + HF, m + "." + SF), bounds="2 iterations from the solution")(ju)

# ---- Etemad-Shahidi 2020 (diameter: the solution is a fixed point of the iteration)
m = RA + "etemadshahidi2020"
e20 = dict(Hs=HB, Tmm10=TB_, N_waves=N, cot_alpha=COT, rho_armour=RROCK, Dn50=DN, Dn50_core=(.01, 2.))
for t, e, c in (("", {}, {}), ("/depth", dict(m=(0., .2)), dict(use_depth_limited_version=True))):
    def es(M, e=e, c=c):
        kw = dict(M.vars(**dict(e20, **e)), **c)
        x = M.fn(RA + "etemadshahidi2020", SF)(**kw)
        cp = M.fn(RA + "etemadshahidi2020", "calculate_permeability_coefficient_Cp")(Dn50=kw["Dn50"], Dn50_core=kw["Dn50_core"])
        M.away((sp.irib(M, kw["Hs"], kw["Tmm10"], kw["cot_alpha"]), 1.8))
        k2 = {k: v for k, v in kw.items() if k != "Dn50"}
        y = M.fn(RA + "etemadshahidi2020", DF)(S=x, Cp_init=cp, max_iter=2, **k2)
        M.check("Dn50 recovered", M.eq(y, kw["Dn50"], rtol=1e-6))
    ob(P_, "etemadshahidi2020/Dn50-fixed-point" + t, funcs=(m + "." + DF, m + "." + SF), bounds="2 iterations from the solution")(es)

    def eh(M, e=e, c=c, t=t):
        kw = dict(M.vars(**dict(e20, **e)), **c)
        ksi = sp.irib(M, kw["Hs"], kw["Tmm10"], kw["cot_alpha"])
        # the two branches leave a jump at ksi = 1.8 in which two wave heights have the same damage
        M.assume((ksi < 1.6) | (ksi >= 2.0))
        x = M.fn(RA + "etemadshahidi2020", SF)(**kw)
        y = M.fn(RA + "etemadshahidi2020", HF)(S=x, **{k: v for k, v in kw.items() if k != "Hs"})
        M.check("Hs recovered", M.eq(y, kw["Hs"], rtol=1e-6))
    ob(P_, "etemadshahidi2020/Hs" + t, funcs=(m + "." + HF, m + "." + SF))(eh)

# ---- Kramer & Burcharth 2004
m = RA + "kramerburcharth2004_lowcrested"
kv = dict(Rc=(-8., 5.), rho_armour=RROCK, Dn50=DN)


@ob(P_, "kramer/Dn50-fixed-point", funcs=(m + "." + DF, m + "." + HF), bounds="2 iterations from the solution")
def _(M):
    kw = M.vars(**kv)
    x = M.fn(RA + "kramerburcharth2004_lowcrested", HF)(**kw)
    Ns = x / (sp.delta(kw["rho_armour"], 1025) * kw["Dn50"])
    y = M.fn(RA + "kramerburcharth2004_lowcrested", DF)(Hs=x, Rc=kw["Rc"], rho_armour=kw["rho_armour"], Ns_init=Ns, max_iter=2)
    M.check("Dn50 recovered", M.eq(y, kw["Dn50"], rtol=1e-6))


@ob(P_, "kramer/Rc-fixed-point", funcs=(m + ".calculate_crest_freeboard_Rc", m + "." + HF), bounds="2 iterations from the solution")
def _(M):
    kw = M.vars(**kv)
    M.assume(0.06 * kw["Rc"] < 0.229 * kw["Dn50"])
    x = M.fn(RA + "kramerburcharth2004_lowcrested", HF)(**kw)
    y = M.fn(RA + "kramerburcharth2004_lowcrested", "calculate_crest_freeboard_Rc")(Hs=x, Dn50=kw["Dn50"], rho_armour=kw["rho_armour"], Rc_Dn50_init=kw["Rc"] / kw["Dn50"], max_iter=2)
    M.check("Rc recovered", M.eq(y, kw["Rc"], rtol=1e-6, atol=1e-6))


# ---- Scaravaglione 2025
m = RA + "scaravaglione2025"
sv = dict(Hm0=HB, Tmm10=TB_, N_waves=N, cot_alpha=COT, rho_armour=RROCK, rho_core=RROCK, Dn50_core=(.01, 2.))
HM = "calculate_significant_wave_height_Hm0"
for t, e in (("", dict(rho_water=RW)), ("/coefficient", dict(c_VGnew=(2., 5.)))):
    pair("scaravaglione/S-Dn50" + t, m, SF, "S", DF, "Dn50", dict(sv, Dn50=DN, **e), S)
    pair("scaravaglione/S-Hm0" + t, m, SF, "S", HM, "Hm0", dict(sv, Dn50=DN, **e), S)
    pair("scaravaglione/Dn50-Hm0" + t, m, DF, "Dn50", HM, "Hm0", dict(sv, S=S, **e), DN)

# ---- rear side
Z1 = ((RU + "vangent2001", "calculate_wave_runup_height_z1p"),)


def over(gam):
    def f(M, kw):
        z = M.fn(*Z1[0])(Hs=kw["Hs"], Tmm10=kw["Tmm10"], gamma=kw[gam], cot_alpha=kw["cot_alpha"])
        M.assume(z > kw["Rc"])
        if "Rc2_rear" in kw:
            M.assume(kw["Rc2_rear"] < kw["Rc"])
    return f


m = RR + "vangentpozueta2004"
r4 = dict(cot_alpha=COT, cot_phi=(1., 5.), gamma_f=GF, gamma_f_Crest=GF, Hs=HB, Tmm10=TB_, Rc=(0.1, 10.), Rc_rear=(0., 20.), Bc=(0., 20.), N_waves=N, rho_rock=RROCK)
for t, e in (("", dict(rho_water=RW)), ("/cs", dict(cs=(1e-14, 1e-11)))):
    pair("rear2004/S-Dn50" + t, m, SF, "S", DF, "Dn50", dict(r4, Dn50=DN, **e), S, stubs=Z1, pre=over("gamma_f"), pre2=over("gamma_f"))

m = RR + "vangent2007"
r7 = dict(cot_alpha=COT, cot_phi=(1., 5.), gamma=GF, Hs=HB, Tmm10=TB_, Rc=(0.1, 10.), Rc2_front=(0., 5.), Rc2_rear=(0., 5.), N_waves=N)


@ob(P_, "rear2007/S-Dn50 to two percent", funcs=(m + "." + SF, m + "." + DF))
def _(M):
    M.stub_uf(*Z1[0])
    kw = M.vars(**dict(r7, Dn50=DN))
    over("gamma")(M, kw)
    x = M.fn(RR + "vangent2007", SF)(**kw)
    y = M.fn(RR + "vangent2007", DF)(S=x, **{k: v for k, v in kw.items() if k != "Dn50"})
    M.check("not above", M.le(y, 1.02 * kw["Dn50"]))
    M.check("not below", M.ge(y, 0.98 * kw["Dn50"]))


# the wave height iterations start from a fixed value; where that value is the solution it is returned
WH = "calculate_maximum_significant_wave_height_Hs"


@ob(P_, "rear2007/Hs-fixed-point", funcs=(m + "." + SF, m + "." + WH), bounds="2 iterations, solution at the starting value Hs = Rc")
def _(M):
    kw = M.vars(**dict({k: v for k, v in r7.items() if k != "Hs"}, Dn50=DN))
    kw["Hs"] = kw["Rc"]
    over("gamma")(M, kw)
    x = M.fn(RR + "vangent2007", SF)(**kw)
    y = M.fn(RR + "vangent2007", WH)(S=x, max_iterations=2, **{k: v for k, v in kw.items() if k != "Hs"})
    M.check("Hs recovered", M.eq(y, kw["Hs"], rtol=1e-6))


@ob(P_, "rear2004/Hs-fixed-point", funcs=(RR + "vangentpozueta2004." + SF, RR + "vangentpozueta2004." + WH), bounds="2 iterations, solution at the starting value")
def _(M):
    kw = M.vars(**dict({k: v for k, v in r4.items() if k != "Hs"}, Dn50=DN, rho_water=RW))
    kw["Hs"] = (kw["Rc"] + 0.5) / (2.552 * kw["gamma_f"])
    over("gamma_f")(M, kw)
    x = M.fn(RR + "vangentpozueta2004", SF)(**kw)
    y = M.fn(RR + "vangentpozueta2004", WH)(S=x, max_iterations=2, **{k: v for k, v in kw.items() if k != "Hs"})
    M.check("Hs recovered", M.eq(y, kw["Hs"], rtol=1e-6))


# ---- toe berms
RH = dict(rho_rock=RROCK, rho_water=RW)
ND, TD, TH, TT = "calculate_damage_Nod", "calculate_nominal_diameter_Dn50", "calculate_wave_height_Hs", "calculate_depth_above_toe_ht"
for name in ("gerding1993", "vandermeer1998"):
    m = TB + name
    b = dict(RH, h=HW, Hs=HB, ht=HT, Dn50=DN)
    trip(name + "/Nod-Dn50", m, ND, "Nod", TD, "Dn50", b)
    trip(name + "/Nod-Hs", m, ND, "Nod", TH, "Hs", b)
    trip(name + "/Nod-ht", m, ND, "Nod", TT, "ht", b, pre=lambda M, kw: None)
    b2 = dict(RH, h=HW, ht=HT, Dn50=DN, Nod=NOD)
    trip(name + "/Hs-Nod", m, TH, "Hs", ND, "Nod", b2)
    trip(name + "/Hs-Dn50", m, TH, "Hs", TD, "Dn50", b2)
    trip(name + "/Hs-ht", m, TH, "Hs", TT, "ht", b2)
    b3 = dict(RH, h=HW, ht=HT, Hs=HB, Nod=NOD)
    pos = lambda M, x, kw: M.assume(x > 0.001)
    trip(name + "/Dn50-Nod", m, TD, "Dn50", ND, "Nod", b3, post=pos)
    trip(name + "/Dn50-Hs", m, TD, "Dn50", TH, "Hs", b3, post=pos)

m = TB + "etemadshahidi2021"
ev = dict(rho_rock=RROCK, Hs=HB, Tmm10=TB_, h=HW, ht=HT, Bt=(.1, 20.), m=(0., .2))
CO = dict(c1=(.8, 1.6), c2=(8., 14.), c3=(1., 2.5), c4=(.1, .3), c5=(.2, .6), c6=(-.3, -.05), c7=(2., 4.5))
for t, e in (("", dict(rho_water=RW, g=G)), ("/coefficients", CO)):
    trip("etemadshahidi2021/Dn50-Nod" + t, m, TD, "Dn50", ND, "Nod", dict(ev, Nod=NOD, **e))

    def stable(M, kw):
        M.assume(kw["Hs"] / (sp.delta(kw["rho_rock"], kw.get("rho_water", 1025.0)) * kw["Dn50"]) > kw.get("c1", 1.2) + 0.01)
    trip("etemadshahidi2021/Nod-Dn50" + t, m, ND, "Nod", TD, "Dn50", dict(ev, Dn50=DN, **e), pre=stable)

    def eti(M, e=e):
        """the wave height is a fixed point of its iteration"""
        kw = M.vars(**dict(ev, Nod=NOD, **e))
        mm = TB + "etemadshahidi2021"
        x = M.fn(mm, TD)(**kw)
        s = sp.steep(M, kw["Hs"], kw["Tmm10"], kw.get("g", 9.81))
        y = M.fn(mm, HF)(Dn50=x, smm10_init=s, max_iter=2, **{k: v for k, v in kw.items() if k != "Hs"})
        M.check("Hs recovered", M.eq(y, kw["Hs"], rtol=1e-6))
    ob(P_, "etemadshahidi2021/Hs-fixed-point" + t, funcs=(m + "." + TD, m + "." + HF), bounds="2 iterations from the solution")(eti)

m = TB + "vangentvanderwerf2014"


@ob(P_, "vangentvanderwerf2014/Nod-Dn50 to two percent", funcs=(m + "." + ND, m + "." + TD))
def _(M):
    kw = M.vars(**dict(RH, Hm0=HB, Tmm10=TB_, ht=HT, Bt=(.1, 20.), tt=(.1, 10.), cot_alpha_armour_slope=COT, Dn50=DN, g=G))
    x = M.fn(TB + "vangentvanderwerf2014", ND)(**kw)
    y = M.fn(TB + "vangentvanderwerf2014", TD)(Nod=x, **{k: v for k, v in kw.items() if k != "Dn50"})
    M.check("not above", M.le(y, 1.02 * kw["Dn50"]))
    M.check("not below", M.ge(y, 0.98 * kw["Dn50"]))


# ---- concrete armour
hv = dict(rho_water=RW, rho_armour=RROCK, KD=(2., 30.))
UM, UH = "calculate_unit_mass_M", "calculate_significant_wave_height_Hs"
for u, dflt in (("accropode_hudson1959", True), ("accropode2_hudson1959", True), ("core_loc_hudson1959", True), ("cubipod_hudson1959", True),
                ("cubes_double_layer_hudson1959", False), ("tetrapod_hudson1959", False)):
    for t, e in (("", dict(cot_alpha=COT, alpha_Hs=(1., 1.6))), ("/default", {} if dflt else dict(cot_alpha=COT))):
        pair(u + t, CA + u, UM, "M", UH, "Hs", dict(hv, Hs=HB, **e), MASS)
m = CA + "cubes_single_layer_vangent2002"
sv = dict(rho_water=RW, rho_armour=RROCK)
for w in ("start_of_damage", "failure"):
    for t, e in (("", {}), ("/Ns", dict(Ns=(1.5, 6.)))):
        pair("cubes_single/" + w + t, m, UM + "_" + w, "M", UH + "_" + w, "Hs", dict(sv, Hs=HB, **e), MASS)
for u in ("xbloc", "xblocplus"):
    for t, e in (("", {}), ("/correction", dict(total_correction_factor=(1., 4.)))):
        pair(u + "/V" + t, CA + u, "calculate_unit_volume_V", "V", "calculate_wave_height_Hs_from_V", "Hs", dict(sv, Hs=HB, **e), (.05, 30.))
        pair(u + "/M" + t, CA + u, UM, "M", "calculate_wave_height_Hs_from_M", "Hs", dict(sv, Hs=HB, **e), MASS)
m = CA + "cubes_double_layer_vandermeer1988"
cv = dict(rho_water=RW, rho_armour=RROCK, N_waves=N, cot_alpha=COT)
CD, CH, CN = ("calculate_nominal_diameter_Dn_vanDerMeer1988", "calculate_wave_height_Hs_vanDerMeer1988", "calculate_damage_Nod_vanDerMeer1988")


def s0(M, k2, kw):
    k2 = dict(k2)
    T = k2.pop("Tm")
    k2["s0m"] = sp.steep(M, kw["Hs"], T)
    return k2


trip("cubes_vdm/Dn-Hs", m, CD, "Dn", CH, "Hs", dict(cv, Hs=HB, Tm=TB_, Nod=NOD), conv=s0)
trip("cubes_vdm/Dn-Nod", m, CD, "Dn", CN, "Nod", dict(cv, Hs=HB, Tm=TB_, Nod=NOD), conv=s0)
trip("cubes_vdm/Hs-Nod", m, CH, "Hs", CN, "Nod", dict(cv, Dn=DN, s0m=(.002, .08), Nod=NOD))
trip("cubes_vdm/Nod-Hs", m, CN, "Nod", CH, "Hs", dict(cv, Dn=DN, s0m=(.002, .08), Hs=HB),
     pre=lambda M, kw: M.assume(kw["Hs"] / (sp.delta(kw["rho_armour"], kw["rho_water"]) * kw["Dn"]) * M.np.power(kw["s0m"], 0.1) > 1.001))
