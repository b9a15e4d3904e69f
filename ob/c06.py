"""C06: toe-berm and concrete-armour formulas equal their published equations."""
from ._lib import *
from . import _spec as sp
from . import _spec2 as s2
from . import _spec3 as s3

P_ = "C06"
HB, TB_, M_ = (0.1, 12.0), (2.0, 25.0), (1.0, 1e5)
NOD, HT, HW = (0.01, 10.0), (0.1, 20.0), (0.2, 30.0)
RH = dict(rho_rock=RROCK, rho_water=RW)

# ---- toe: Gerding 1993, Van der Meer 1998
for name, ref, ht_fn in (("gerding1993", s3.ge_Nod, True), ("vandermeer1998", s3.vm_Nod, True)):
    m = TB + name
    base = dict(RH, h=HW)
    eqob(P_, name + "/Nod", m, "calculate_damage_Nod", dict(base, Hs=HB, ht=HT, Dn50=DN), ref)

    def solved(fn, unk, var, m=m, ref=ref, name=name):
        def h(M):
            kw = M.vars(**var)
            r = M.fn(m, fn)(**kw)
            k = {a: b for a, b in kw.items() if a != "Nod"}
            k[unk] = r
            M.assume(M.ge(r, 0.001) if unk != "ht" else r > 0)
            M.check("stability equation", M.eq(ref(M, **k), kw["Nod"]))
        ob(P_, name + "/" + unk, funcs=(m + "." + fn,))(h)
    solved("calculate_nominal_diameter_Dn50", "Dn50", dict(base, Hs=HB, ht=HT, Nod=NOD))
    solved("calculate_wave_height_Hs", "Hs", dict(base, Dn50=DN, ht=HT, Nod=NOD))
    solved("calculate_depth_above_toe_ht", "ht", dict(base, Dn50=DN, Hs=HB, Nod=NOD))


@ob(P_, "vandermeer1998/ht-none", funcs=(TB + "vandermeer1998.calculate_depth_above_toe_ht",))
def _(M):
    kw = M.vars(Hs=HB, Dn50=DN, h=HW, Nod=NOD, **RH)
    r = M.fn(TB + "vandermeer1998", "calculate_depth_above_toe_ht")(**kw)
    x = kw["Hs"] / (s3.delta(kw["rho_rock"], kw["rho_water"]) * kw["Dn50"]) / M.np.power(kw["Nod"], 0.15)
    M.away((x, 2))
    M.check("no depth exists iff the stability number is below 2 Nod^0.15", M.iff(M.isnan(r), x <= 2))


# ---- toe: Van Gent & Van der Werf 2014
m = TB + "vangentvanderwerf2014"
gv = dict(RH, Hm0=HB, Tmm10=TB_, ht=HT, Bt=(0.1, 20.), tt=(0.1, 10.), cot_alpha_armour_slope=COT)
eqob(P_, "vangentvanderwerf2014/velocity", m, "calculate_velocity_u_delta", dict(Hs=HB, Tmm10=TB_, ht=HT, g=G), s3.gw_u)
eqob(P_, "vangentvanderwerf2014/Nod", m, "calculate_damage_Nod", dict(gv, Dn50=DN, g=G), s3.gw_Nod)
eqob(P_, "vangentvanderwerf2014/Nod/default", m, "calculate_damage_Nod", dict(gv, Dn50=DN), s3.gw_Nod)
eqob(P_, "vangentvanderwerf2014/Nod/coefficients", m, "calculate_damage_Nod", dict(gv, Dn50=DN, c1=(.02, .05), c2=(.1, .5), c3=(.5, 1.5), c4=(2., 4.), c5=(.5, 1.5)), s3.gw_Nod)
eqob(P_, "vangentvanderwerf2014/Dn50", m, "calculate_nominal_diameter_Dn50", dict(gv, Nod=NOD, g=G), s3.gw_D)
eqob(P_, "vangentvanderwerf2014/Dn50/default", m, "calculate_nominal_diameter_Dn50", dict(gv, Nod=NOD), s3.gw_D)

# ---- toe: Etemad-Shahidi 2021
m = TB + "etemadshahidi2021"
ev = dict(rho_rock=RROCK, Hs=HB, Tmm10=TB_, h=HW, ht=HT, Bt=(0.1, 20.), m=(0., .2))
CO = dict(c1=(.8, 1.6), c2=(8., 14.), c3=(1., 2.5), c4=(.1, .3), c5=(.2, .6), c6=(-.3, -.05), c7=(2., 4.5))


def es_N(M, Dn50, rho_rock, rho_water=1025.0, Hs=None, Nod=None, **k):
    return Hs / (s3.delta(rho_rock, rho_water) * Dn50), Hs


for t, extra in (("", dict(rho_water=RW, g=G)), ("/default", {}), ("/coefficients", CO)):
    def hn(M, extra=extra, m=m):
        kw = M.vars(**dict(ev, Dn50=DN, **extra))
        Ns = kw["Hs"] / (s3.delta(kw["rho_rock"], kw.get("rho_water", 1025.0)) * kw["Dn50"])
        M.assume(Ns > kw.get("c1", 1.2) + 0.01)
        r = M.fn(m, "calculate_damage_Nod")(**kw)
        k = {a: b for a, b in kw.items() if a not in ("Dn50", "rho_rock", "rho_water")}
        M.check("stability equation", M.eq(s3.es_Ns(M, Nod=r, **k), Ns))
    ob(P_, "etemadshahidi2021/Nod" + t, funcs=(m + ".calculate_damage_Nod",))(hn)

    def hd(M, extra=extra, m=m):
        kw = M.vars(**dict(ev, Nod=NOD, **extra))
        r = M.fn(m, "calculate_nominal_diameter_Dn50")(**kw)
        k = {a: b for a, b in kw.items() if a not in ("rho_rock", "rho_water")}
        M.check("stability equation", M.eq(r * s3.es_Ns(M, **k), kw["Hs"] / s3.delta(kw["rho_rock"], kw.get("rho_water", 1025.0))))
    ob(P_, "etemadshahidi2021/Dn50" + t, funcs=(m + ".calculate_nominal_diameter_Dn50",))(hd)

# ---- toe: Takahashi 1990 (caisson)
m = TB + "takahashi1990_caisson"
LW = ((CP, "calculate_local_wavelength"),)
tv = dict(Hs=HB, Tp=TB_, hacc=(0.5, 20.), Bt=(0.5, 20.), beta=(0., 60.))


def tk(M, Hs, Tp, hacc, Bt, beta, g=9.81):
    L = M.fn(*LW[0])(T=Tp, h=hacc, g=g)
    return s3.tk_Ns(M, Hs, hacc, s3.tk_kappa(M, Tp, hacc, Bt, beta, g, L))


eqob(P_, "takahashi1990/Ns", m, "calculate_stability_number_Ns", dict(tv, g=G), tk, stubs=LW)
eqob(P_, "takahashi1990/Ns/default", m, "calculate_stability_number_Ns", tv, tk, stubs=LW)


def tkD(M, Hs, rho_rock, rho_water, **k):
    Ns = M.fn(TB + "takahashi1990_caisson", "calculate_stability_number_Ns")(Hs=Hs, **k)
    return Hs / (Ns * s3.delta(rho_rock, rho_water))


eqob(P_, "takahashi1990/Dn50", m, "calculate_nominal_diameter_Dn50", dict(tv, g=G, **RH), tkD, stubs=((m, "calculate_stability_number_Ns"),))

# ---- concrete armour: Hudson type units
hv = dict(rho_water=RW, rho_armour=RROCK, KD=(2., 30.))
UNITS = dict(
    accropode_hudson1959=(dict(trunk_non_breaking=15, trunk_breaking=12, head_non_breaking=11.5, head_breaking=9.5), 1.29, None, 1, 1.33),
    accropode2_hudson1959=(dict(trunk_breaking_min=9, trunk_breaking_max=16, trunk_nonbreaking=16), 1.52, None, 1, 1.33),
    core_loc_hudson1959=(dict(trunk=16, head=13), 1.516, None, 1, 1.33),
    cubes_double_layer_hudson1959=(dict(double_layer_trunk_non_breaking=7.5, double_layer_trunk_breaking=6.5, double_layer_head_non_breaking=5.0), 1.1, 0.47, 2, None),
    cubipod_hudson1959=(dict(trunk_double_layer=28, trunk_single_layer=12, head_double_layer=7, head_single_layer=5), 1.0, None, None, 1.33),
    tetrapod_hudson1959=(dict(trunk_non_breaking=8, trunk_breaking=7, head_non_breaking=5.5, head_breaking=4.5), 1.02, 0.5, 2, None),
)
for u, (kd, kt, nv, nl, dcot) in UNITS.items():
    m = CA + u
    one = lambda f, Mname=None, dcot=dcot: (lambda M, cot_alpha=dcot, alpha_Hs=1.0, **k: f(M, cot_alpha=cot_alpha, alpha_Hs=alpha_Hs, **{("M50" if a == "M" else a): b for a, b in k.items()}))
    refM, refH = one(s2.hudson_M50), one(s2.hudson_Hs)
    eqob(P_, u + "/M", m, "calculate_unit_mass_M", dict(hv, Hs=HB, cot_alpha=COT, alpha_Hs=(1., 1.6)), refM)
    # the parameter M of the unit mass clashes with the harness name; keyword-only wrapper
    for t, var in (("", dict(cot_alpha=COT, alpha_Hs=(1., 1.6))), ("/default", {} if dcot else dict(cot_alpha=COT))):
        def hh(X, m=m, var=var, refH=refH):
            kw = X.vars(**dict(hv, **var))
            mass = X.var("mass", *M_)
            X.check("value", X.eq(X.fn(m, "calculate_significant_wave_height_Hs")(M=mass, **kw), s2.hudson_Hs(X, M50=mass, **dict(dict(cot_alpha=1.33, alpha_Hs=1.0), **kw))))
        ob(P_, u + "/Hs" + t, funcs=(m + ".calculate_significant_wave_height_Hs",))(hh)
    eqob(P_, u + "/M/default", m, "calculate_unit_mass_M", dict(hv, Hs=HB) if dcot else dict(hv, Hs=HB, cot_alpha=COT), refM)

ALL = dict(UNITS, xbloc=(dict(trunk_breaking=16, head_breaking=13), 1.4, None, 1, None), xblocplus=(dict(trunk_breaking=12), 1.33, None, 1, None))
for u, (kd, kt, nv, nl, _d) in ALL.items():
    def hp(M, u=u, kd=kd, kt=kt, nv=nv, nl=nl):
        p = M.mod(CA + u).unit_properties
        H_ = M.var("Hs", 0.5, 10)
        for k, v in kd.items():
            # the tabulated coefficient used in the design formula
            M.check("KD " + k, M.eq(H_ * p["KD"][k], H_ * v))
        M.check("kt", M.eq(H_ * p["kt"], H_ * kt))
        if nv is not None:
            M.check("nv", M.eq(H_ * p["nv"], H_ * nv))
        if nl is not None:
            M.check("nlayers", p["nlayers"] == nl)
    ob(P_, u + "/properties", funcs=(CA + u + ".unit_properties",))(hp)

for u, ys in (("accropode_hudson1959", (15, 15, 9.7, 8)), ("accropode2_hudson1959", (16, 16, 10.66, 9)), ("core_loc_hudson1959", (16, 16, 10.66, 9))):
    m = CA + u

    def hk(M, m=m, ys=ys):
        s = M.var("seabed_slope_perc", -2., 15.)
        r = M.fn(m, "calculate_KD_breaking_trunk_from_seabed_slope")(s)
        y = s3.graph((0, 1, 5, 10), ys, s)
        # rounded down to one decimal
        M.check("not above the graph", r <= y + 1e-9)
        M.check("within one decimal", r > y - 0.1 - 1e-9)
        M.check("non-breaking", M.eq(M.fn(m, "calculate_KD_nonbreaking_trunk_from_seabed_slope")(), ys[0]))
    ob(P_, u + "/KD-graph", funcs=(m + ".calculate_KD_breaking_trunk_from_seabed_slope",))(hk)

# ---- double layer cubes, Van der Meer 1988
m = CA + "cubes_double_layer_vandermeer1988"
cv = dict(rho_water=RW, rho_armour=RROCK, N_waves=N, cot_alpha=COT)
eqob(P_, "cubes-vdm/Dn", m, "calculate_nominal_diameter_Dn_vanDerMeer1988", dict(cv, Hs=HB, Tm=TB_, Nod=NOD),
     lambda M, Hs, Tm, rho_water, rho_armour, N_waves, Nod, **k: Hs / (s3.delta(rho_armour, rho_water) * s3.cube_Ns(M, sp.steep(M, Hs, Tm), N_waves, Nod)))
eqob(P_, "cubes-vdm/Hs", m, "calculate_wave_height_Hs_vanDerMeer1988", dict(cv, Dn=DN, s0m=(.002, .08), Nod=NOD),
     lambda M, Dn, s0m, rho_water, rho_armour, N_waves, Nod, **k: Dn * s3.delta(rho_armour, rho_water) * s3.cube_Ns(M, s0m, N_waves, Nod))


@ob(P_, "cubes-vdm/Nod", funcs=(m + ".calculate_damage_Nod_vanDerMeer1988",))
def _(M):
    kw = M.vars(**dict(cv, Hs=HB, Dn=DN, s0m=(.002, .08)))
    Ns = kw["Hs"] / (s3.delta(kw["rho_armour"], kw["rho_water"]) * kw["Dn"])
    M.assume(Ns * M.np.power(kw["s0m"], 0.1) > 1.001)
    r = M.fn(CA + "cubes_double_layer_vandermeer1988", "calculate_damage_Nod_vanDerMeer1988")(**kw)
    M.check("stability equation", M.eq(s3.cube_Ns(M, kw["s0m"], kw["N_waves"], r), Ns))


# ---- single layer cubes
m = CA + "cubes_single_layer_vangent2002"
sv = dict(rho_water=RW, rho_armour=RROCK)
for w, d in (("start_of_damage", 2.9), ("failure", 3.5)):
    f = lambda M, Hs, rho_water, rho_armour, Ns=d: rho_armour * (Hs / (Ns * s3.delta(rho_armour, rho_water))) ** 3
    eqob(P_, "cubes-single/M/" + w, m, "calculate_unit_mass_M_" + w, dict(sv, Hs=HB), f)
    eqob(P_, "cubes-single/M/%s/Ns" % w, m, "calculate_unit_mass_M_" + w, dict(sv, Hs=HB, Ns=(1.5, 6.)), f)
    for t, e in (("", {}), ("/Ns", dict(Ns=(1.5, 6.)))):
        def hh(X, w=w, e=e, d=d):
            kw = X.vars(**dict(sv, **e))
            mass = X.var("mass", *M_)
            r = X.fn(CA + "cubes_single_layer_vangent2002", "calculate_significant_wave_height_Hs_" + w)(M=mass, **kw)
            X.check("value", X.eq(r, kw.get("Ns", d) * s3.delta(kw["rho_armour"], kw["rho_water"]) * X.np.power(mass / kw["rho_armour"], 1.0 / 3.0)))
        ob(P_, "cubes-single/Hs/" + w + t, funcs=(m + ".calculate_significant_wave_height_Hs_" + w,))(hh)

# ---- Xbloc and XblocPlus
for u, c in (("xbloc", 2.77), ("xblocplus", 2.5)):
    m = CA + u
    for t, e in (("", {}), ("/correction", dict(total_correction_factor=(1., 4.)))):
        V = lambda M, Hs, rho_water, rho_armour, total_correction_factor=1, c=c: total_correction_factor * (Hs / (c * s3.delta(rho_armour, rho_water))) ** 3
        eqob(P_, u + "/V" + t, m, "calculate_unit_volume_V", dict(sv, Hs=HB, **e), V)
        eqob(P_, u + "/M" + t, m, "calculate_unit_mass_M", dict(sv, Hs=HB, **e), lambda M, rho_armour, V=V, **k: rho_armour * V(M, rho_armour=rho_armour, **k))
        eqob(P_, u + "/Hs-V" + t, m, "calculate_wave_height_Hs_from_V", dict(sv, V=(.05, 30.), **e),
             lambda M, V, rho_water, rho_armour, total_correction_factor=1, c=c: c * s3.delta(rho_armour, rho_water) * M.np.power(V / total_correction_factor, 1.0 / 3.0))

        def hh(X, m=m, e=e, c=c):
            kw = X.vars(**dict(sv, **e))
            mass = X.var("mass", *M_)
            r = X.fn(m, "calculate_wave_height_Hs_from_M")(M=mass, **kw)
            X.check("value", X.eq(r, c * s3.delta(kw["rho_armour"], kw["rho_water"]) * X.np.power(mass / kw["rho_armour"] / kw.get("total_correction_factor", 1), 1.0 / 3.0)))
        ob(P_, u + "/Hs-M" + t, funcs=(m + ".calculate_wave_height_Hs_from_M",))(hh)
    eqob(P_, u + "/seabed", m, "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", dict(cot_alpha=(1., 100.)), lambda M, cot_alpha: s3.seabed(M, cot_alpha))
    eqob(P_, u + "/seabed-percent", m, "calculate_correctionfactor_unit_mass_M_by_percslope_seabed", dict(perc_slope=(.5, 60.)),
         lambda M, perc_slope: (M.away((100 / perc_slope, 10), (100 / perc_slope, 15), (100 / perc_slope, 20), (100 / perc_slope, 30)), s3.seabed(M, 100 / perc_slope))[1])
    lo, hi = ((2.0, 1.5) if u == "xbloc" else (1.5, 1.25))
    eqob(P_, u + "/freeboard", m, "calculate_correctionfactor_unit_mass_M_by_relative_freeboard", dict(rel_freeboard=(-2., 4.)),
         lambda M, rel_freeboard, lo=lo, hi=hi: lo if rel_freeboard < 0.5 else hi if rel_freeboard < 1 else 1.0)
    pl, pi = ((1.5, 2.0) if u == "xbloc" else (1.25, 1.5))
    for a in (False, True):
        for b in (False, True):
            def hperm(M, a=a, b=b, m=m, pl=pl, pi=pi):
                V = M.var("V", 0.1, 30)
                f = M.fn(m, "switch_correctionfactor_unit_mass_M_by_core_permeability")(low_core_permeability=a, core_impermeable=b)
                M.check("factor", M.eq(V * f, V * (pi if b else pl if a else 1)))
            ob(P_, u + "/permeability/%d%d" % (a, b), funcs=(m + ".switch_correctionfactor_unit_mass_M_by_core_permeability",))(hperm)
m = CA + "xbloc"
eqob(P_, "xbloc/depth", m, "calculate_correctionfactor_unit_mass_M_by_rel_depth", dict(rel_depth=(0., 8.)), lambda M, rel_depth: 2.0 if rel_depth > 3.5 else 1.5 if rel_depth > 2.5 else 1.0)
for a in (False, True):
    def hfr(M, a=a):
        V = M.var("V", 0.1, 30)
        M.check("factor", M.eq(V * M.fn(CA + "xbloc", "switch_correction_factor_unit_mass_M_near_design_event_frequency")(design_event_occurs_frequently=a), V * (1.25 if a else 1)))
    ob(P_, "xbloc/frequency/%d" % a, funcs=(m + ".switch_correction_factor_unit_mass_M_near_design_event_frequency",))(hfr)
