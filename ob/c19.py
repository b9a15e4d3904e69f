"""C19 - options and coefficients given by the user are honoured"""
from ob._mono import *
from ob._cat import HB, TBX, SL, FAC, V25, rc18, DC, ev, r4, Z1, rpre, hv, cv, MU, M50, VM
from ob import _spec2 as s2, _spec3 as s3

P_ = "C19"
g = 9.81

# ------------------------------------------------------------------ published defaults
ET18 = dict(c1=2.5, c2=0.1035, c3=1.35, c4=0.026)
RM = dict(gamma_f=1.0, use_best_fit=False)
R7, R18 = dict(RM, c2=0.2, c3=2.3), dict(RM, c2=0.1035, c3=1.35, g=g, B_berm=0.0, db=0.0)
OTD = dict(B_berm=0.0, db=0.0, gamma_f=1.0, gamma_v=1.0, use_best_fit=False, g=g)
C21 = dict(c=1.0, c_swell=0.4, short_crested_waves=True, crossing_seas=False, parapet=False, g=g)
V25D = dict(B_berm=0.0, db=0.0, design_calculation=True, include_influence_wind=False)
CWD = dict(gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, rho_water=1025.0, g=g)
RUD = dict(gamma_f=1.0, B_berm=0.0, db=0.0, use_best_fit=False, c1=1.75, c2=4.3)
QF, RF = "calculate_overtopping_discharge_q", "calculate_crest_freeboard_Rc"
ZF = "calculate_wave_runup_height_z2p"
ZD = "calculate_dimensionless_wave_runup_height_z2p"
SF, DF, HF = "calculate_damage_number_S", "calculate_nominal_rock_diameter_Dn50", "calculate_significant_wave_height_Hs"
ES = dict(rho_water=1025.0, g=g, c1=1.2, c2=11.2, c3=1.75, c4=1.0 / 6.0, c5=0.4, c6=-0.1, c7=3.7)
DEF = {
    (OT + "taw2002", QF): dict(OTD, sigma=0), (OT + "taw2002", RF): dict(OTD, sigma=0),
    (OT + "eurotop2018", QF): dict(OTD, gamma_star=1.0, **ET18), (OT + "eurotop2018", RF): dict(OTD, gamma_star=1.0, **ET18),
    (OT + "eurotop2018", QF + "_rubble_mound"): R18, (OT + "eurotop2018", RF + "_rubble_mound"): R18,
    (OT + "eurotop2007", QF + "_rubble_mound"): dict(R7, g=g), (OT + "eurotop2007", RF + "_rubble_mound"): R7,
    (OT + "vangent2021_caisson", QF): C21, (OT + "vangent2021_caisson", RF): C21,
    (OT + "vangent2025", QF): dict(V25D, g=g), (OT + "vangent2025", RF): V25D,
    (OT + "vangent2025", "calculate_influence_friction_gamma_f"): dict(c_f1=0.7, c_f2=0.05, smm10_lim=0.012),
    (OT + "vangent2025", "calculate_influence_berm_gamma_b"): dict(c_b1=18.0, c_b2=1.3, c_b3=0.34, c_b4=0.2),
    (OT + "vangent2025", "calculate_influence_oblique_waves_gamma_beta"): dict(c_beta=0.35),
    (OT + "vangent2025", "calculate_influence_crest_wall_gamma_v"): dict(c_v=0.45),
    (OT + "vangent2025", "calculate_influence_wind_gamma_w"): dict(c_w1=0.075, c_w2=-0.3),
    (OT + "taw2002", "calculate_influence_oblique_waves_gamma_beta"): dict(c_gamma_beta=0.0033, max_angle=80.0),
    (RU + "taw2002", "calculate_influence_oblique_waves_gamma_beta"): dict(c_gamma_beta=0.0022, max_angle=80.0),
    (OT + "eurotop2018", "calculate_influence_oblique_waves_gamma_beta"): dict(gamma_f_crit=0.6, c_gamma_beta_smooth=0.0033, c_gamma_beta_rough=0.0063, max_angle=80.0),
    (RU + "eurotop2018", "calculate_influence_oblique_waves_gamma_beta"): dict(gamma_f_crit=0.6, c_gamma_beta_smooth=0.0022, c_gamma_beta_rough=0.0063, max_angle=80.0),
    (RU + "taw2002", ZF): dict(RUD, c3=1.6, c4=1.0), (RU + "taw2002", ZD): dict(RUD, c3=1.6, c4=1.0),
    (RU + "eurotop2018", ZF): dict(RUD, c3=1.5, c4=1.07), (RU + "eurotop2018", ZD): dict(RUD, c3=1.5, c4=1.07),
    (RU + "vangent2001", "calculate_wave_runup_height_z1p"): dict(c0=1.45, c1=5.1),
    (RU + "vangent2001", "calculate_wave_runup_height_z2p"): dict(c0=1.35, c1=4.7),
    (RU + "vangent2001", "calculate_wave_runup_height_z10p"): dict(c0=1.1, c1=4.0),
    (OT + "vangent2002_velocity", "calculate_maximum_wave_overtopping_velocity_uXp"): dict(cu1=1.7, cu2=0.1, g=g),
    (OT + "deridder2024", QF + "_eq24"): dict(g=g), (OT + "deridder2024", QF + "_eq26"): dict(g=g),
    (OT + "deridder2024", "calculate_crest_freeboard_discharge_q_eq24"): dict(g=g), (OT + "deridder2024", "calculate_crest_freeboard_discharge_q_eq26"): dict(g=g),
    (OT + "deridder2026", QF + "_eq28"): dict(g=g, theta=0.0), (OT + "deridder2026", QF + "_eq32"): dict(g=g, theta=0.0),
    (OT + "deridder2026", "calculate_crest_freeboard_discharge_q_eq28"): dict(g=g, theta=0.0), (OT + "deridder2026", "calculate_crest_freeboard_discharge_q_eq32"): dict(g=g, theta=0.0),
    (TR + "dangremond1996", "calculate_wave_transmission_Kt_permeable"): dict(C1=0.64), (TR + "dangremond1996", "calculate_wave_transmission_Kt_impermeable"): dict(C1=0.8),
    (TR + "goda1967_caisson", "calculate_wave_transmission_Kt"): dict(alpha_1=2.2, beta_1=0.4),
    (TR + "vangent2023", "calculate_wave_transmission_Kt"): dict(structure_type="permeable"),
    (CP, "calculate_wave_steepness_s"): dict(g=g), (CP, "calculate_M50_from_Dn50"): dict(rho_rock=2650), (CP, "calculate_Dn50_from_M50"): dict(rho_rock=2650),
    (CP, "calculate_local_wavelength"): dict(g=g),
    (RA + "vandermeer1988", SF): dict(c_pl=8.7, c_s=1.4, rho_water=1025.0), (RA + "vandermeer1988", DF): dict(c_pl=8.7, c_s=1.4, rho_water=1025.0),
    (RA + "vandermeer1988", HF): dict(c_pl=8.7, c_s=1.4, rho_water=1025.0, g=g),
    (RA + "vandermeer1988_modified", SF): dict(c_pl=8.4, c_s=1.3, rho_water=1025.0), (RA + "vandermeer1988_modified", DF): dict(c_pl=8.4, c_s=1.3, rho_water=1025.0),
    (RA + "vandermeer1988_modified", HF): dict(c_pl=8.4, c_s=1.3, rho_water=1025.0, g=g),
    (RA + "vandermeer2021", SF): dict(c_pl=6.49, c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0), (RA + "vandermeer2021", DF): dict(c_pl=6.49, c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0),
    (RA + "vandermeer2021", HF): dict(c_pl=6.49, c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0, g=g),
    (RA + "etemadshahidi2020", SF): dict(rho_water=1025.0, use_depth_limited_version=False), (RA + "etemadshahidi2020", HF): dict(use_depth_limited_version=False, g=g),
    (RA + "jumelet2024", SF): dict(c_pl=4.3, rho_water=1025.0), (RA + "jumelet2024", DF): dict(c_pl=4.3),
    (RA + "scaravaglione2025", SF): dict(c_VGnew=3.3, rho_water=1025.0), (RA + "scaravaglione2025", DF): dict(c_VGnew=3.3, rho_water=1025.0),
    (RA + "scaravaglione2025", "calculate_significant_wave_height_Hm0"): dict(c_VGnew=3.3, g=g, rho_water=1025.0),
    (RR + "vangentpozueta2004", SF): dict(rho_water=1025.0, cs=0.008 ** 6.0), (RR + "vangentpozueta2004", DF): dict(rho_water=1025.0, cs=0.008 ** 6.0),
    (TB + "etemadshahidi2021", "calculate_damage_Nod"): ES, (TB + "etemadshahidi2021", "calculate_nominal_diameter_Dn50"): ES,
    (TB + "takahashi1990_caisson", "calculate_nominal_diameter_Dn50"): dict(g=g), (TB + "takahashi1990_caisson", "calculate_stability_number_Ns"): dict(g=g),
    (TB + "vangentvanderwerf2014", "calculate_damage_Nod"): dict(g=g, c1=0.032, c2=0.3, c3=1.0, c4=3.0, c5=1.0),
    (TB + "vangentvanderwerf2014", "calculate_nominal_diameter_Dn50"): dict(g=g), (TB + "vangentvanderwerf2014", "calculate_velocity_u_delta"): dict(g=g),
    (FC + "goda1985", "calculate_pressures_and_forces"): dict(g=g, return_dict=False), (FC + "goda1985", "calculate_Wup"): dict(g=g),
    (CW + "vangentvanderwerf2019", "calculate_FH2p_perpendicular"): dict(CWD, cFH=1.0), (CW + "vangentvanderwerf2019", "calculate_FH2p_oblique"): dict(CWD, cFH=1.0),
    (CW + "vangentvanderwerf2019", "calculate_FV2p_perpendicular"): dict(CWD, cFV=0.4, cFb=0.5), (CW + "vangentvanderwerf2019", "calculate_FV2p_oblique"): dict(CWD, cFV=0.4, cFb=0.5),
}
for nm in ("median_rock_mass_M50_no_damage", "significant_wave_height_Hs_no_damage"):
    DEF[(RA + "hudson1959", "calculate_" + nm)] = dict(alpha_Hs=1.27)
for nm in ("median_rock_mass_M50", "significant_wave_height_Hs"):
    DEF[(RA + "hudson1959", "calculate_" + nm)] = dict(alpha_Hs=1.27, rock_type="rough")
for md in ("accropode2_hudson1959", "accropode_hudson1959", "core_loc_hudson1959", "cubipod_hudson1959", "cubes_double_layer_hudson1959", "tetrapod_hudson1959"):
    for nm in ("unit_mass_M", "significant_wave_height_Hs"):
        DEF[(CA + md, "calculate_" + nm)] = dict(alpha_Hs=1.0, **({} if md[:4] in ("cube", "tetr") else dict(cot_alpha=1.33)))
for x, ns in (("start_of_damage", 2.9), ("failure", 3.5)):
    DEF[(CA + "cubes_single_layer_vangent2002", "calculate_unit_mass_M_" + x)] = dict(Ns=ns)
    DEF[(CA + "cubes_single_layer_vangent2002", "calculate_significant_wave_height_Hs_" + x)] = dict(Ns=ns)
for x in ("xbloc", "xblocplus"):
    for nm in ("wave_height_Hs_from_V", "wave_height_Hs_from_M", "unit_volume_V", "unit_mass_M"):
        DEF[(CA + x, "calculate_" + nm)] = dict(total_correction_factor=1.0)

done = set()
for key, it in CAT.items():
    d = DEF.get((it.mod, it.fn))
    if not d:
        continue
    opts = tuple(a for a in d if a in it.var)
    for sub in ((), opts) if opts and (it.mod, it.fn) not in done else ((),):
        # all options left out; in a second variant also the ones the catalogue item varies
        def h(M, it=it, d=d, sub=sub):
            for s in it.stubs:
                M.stub_uf(*s)
            kw = M.vars(**{a: b for a, b in it.var.items() if a not in sub})
            if it.pre:
                it.pre(M, **dict({a: d[a] for a in sub}, **kw))
            x = it.results(M, kw)
            y = it.results(M, dict({a: b for a, b in d.items() if a not in it.const}, **kw))
            M.check("number of results", len(x) == len(y))
            for i, (p, q) in enumerate(zip(x, y)):
                p, q = M.item(p), M.item(q)
                if is_bool(p) or is_bool(q):
                    M.check("same flag", M.iff(M.truth1(p), M.truth1(q)))
                else:
                    M.check("same result %d" % i, M.eq(p, q))
        ob(P_, "default given/%s%s" % (key, "/" + "+".join(sub) if sub else ""), funcs=it.funcs, lax=True)(h)
    done.add((it.mod, it.fn))

# ------------------------------------------------------------------ every coefficient as a free value in the published equation
inv = lambda f, **o: (lambda M, **k: f(M, inv=True, **o, **k))
BETA = (-120.0, 120.0)
for fam, ref in (("taw2002", sp.runup_taw), ("eurotop2018", sp.runup_eurotop)):
    cc = dict(c1=(1.0, 3.0), c2=(3.0, 6.0), c3=(1.0, 2.5), c4=(0.8, 1.2))
    eqob(P_, "coefficients/runup/" + fam, RU + fam, ZF, dict(SL, **FAC, **cc), ref, lax=True)

    def bf(M, fam=fam, cc=cc):
        """the best-fit switch wins over given coefficients (and says so in the result)"""
        kw = M.vars(**dict(SL, **FAC, **cc))
        k0 = {a: b for a, b in kw.items() if a not in cc}
        f = M.fn(RU + fam, ZF)
        M.check("best fit", M.eq(f(use_best_fit=True, **kw)[0], f(use_best_fit=True, **k0)[0]))
    ob(P_, "bestfit wins/runup/" + fam, funcs=(RU + fam + "." + ZF,), lax=True)(bf)
cc = dict(c1=(1., 4.), c2=(.05, .5), c3=(.5, 3.), c4=(.01, .1))


def coefq(M, **k):
    x = k["q"] / M.np.sqrt(k["g"] * k["Hm0"] * k["Hm0"] * k["Hm0"])
    M.assume(x <= 0.003)
    M.assume(M.np.sqrt(sp.steep(M, k["Hm0"], k["Tmm10"])) <= 0.5)


eqob(P_, "coefficients/q/eurotop2018", OT + "eurotop2018", QF, dict(SL, **FAC, Rc=RC, g=G, **cc), sp.q_eurotop18, lax=True)
eqob(P_, "coefficients/Rc/eurotop2018", OT + "eurotop2018", RF, dict(SL, **FAC, q=(1e-7, 0.1), g=G, **cc), inv(sp.q_eurotop18), pre=coefq, stubs=GFA, lax=True)
c2 = dict(c2=(.05, .5), c3=(.5, 3.))
eqob(P_, "coefficients/q/rubble2018", OT + "eurotop2018", QF + "_rubble_mound", dict(SL, gamma_f=GF, gamma_beta=GBETA, Rc=RC, g=G, **c2), sp.q_rubble, lax=True)
eqob(P_, "coefficients/Rc/rubble2018", OT + "eurotop2018", RF + "_rubble_mound", dict(SL, gamma_f=GF, gamma_beta=GBETA, q=(1e-7, 0.1), g=G, **c2), inv(sp.q_rubble), pre=coefq, stubs=GFA, lax=True)
eqob(P_, "coefficients/q/rubble2007", OT + "eurotop2007", QF + "_rubble_mound", dict(SL, gamma_f=GF, gamma_beta=GBETA, Rc=RC, g=G, **c2), lambda M, **k: sp.q_rubble(M, year=2007, **k), lax=True)
eqob(P_, "coefficients/Rc/rubble2007", OT + "eurotop2007", RF + "_rubble_mound", dict(SL, gamma_f=GF, gamma_beta=GBETA, q=Q, **c2), inv(sp.q_rubble, year=2007), lax=True)
SG = dict(SL, **FAC, sigma=(-3.0, 3.0), g=G, gamma_v=GV)
eqob(P_, "coefficients/q/taw sigma", OT + "taw2002", QF, dict(SG, Rc=RC), sp.q_taw, const=dict(use_best_fit=True), lax=True)
eqob(P_, "coefficients/Rc/taw sigma", OT + "taw2002", RF, dict(SG, q=Q), inv(sp.q_taw), const=dict(use_best_fit=True), lax=True)
eqob(P_, "sigma ignored by the design formula", OT + "taw2002", QF, dict(SG, Rc=RC), sp.q_taw, lax=True)
OB = "calculate_influence_oblique_waves_gamma_beta"
for md in (RU, OT):
    eqob(P_, "coefficients/gamma_beta/taw/" + md.split(".")[1], md + "taw2002", OB, dict(beta=BETA, c_gamma_beta=(0.001, 0.01), max_angle=(30.0, 89.0)),
         lambda M, beta, c_gamma_beta, max_angle: sp.gamma_beta_lin(M, beta, c_gamma_beta, max_angle), lax=True)
    eqob(P_, "coefficients/gamma_beta/eurotop2018/" + md.split(".")[1], md + "eurotop2018", OB,
         dict(beta=BETA, gamma_f=GF, gamma_f_crit=(0.4, 0.9), c_gamma_beta_smooth=(0.001, 0.01), c_gamma_beta_rough=(0.001, 0.01), max_angle=(30.0, 89.0)),
         lambda M, beta, gamma_f, gamma_f_crit, c_gamma_beta_smooth, c_gamma_beta_rough, max_angle: (
             M.away((gamma_f, gamma_f_crit)),
             sp.gamma_beta_lin(M, beta, M.np.where(gamma_f > gamma_f_crit, c_gamma_beta_smooth, c_gamma_beta_rough), max_angle))[1], lax=True)
for x in ("1p", "2p", "10p"):
    eqob(P_, "coefficients/runup/vangent2001/z" + x, RU + "vangent2001", "calculate_wave_runup_height_z" + x, dict(Tmm10=TBX, gamma=GF, cot_alpha=COT, Hs=HB, c0=(.5, 2.), c1=(2., 7.)),
         lambda M, **k: sp.runup_vangent2001(M, **k), lax=True)
for c in (1.0, 1.3):
    eqob(P_, "coefficients/q/caisson2021/%s" % c, OT + "vangent2021_caisson", QF, dict(Hm0=H, Rc=RC, beta=(0.0, 60.0), Hm0_swell=(0.0, 1.0), c_swell=(0.0, 1.0), g=G), sp.q_vangent2021,
         const=dict(c=c, crossing_seas=True), pre=lambda M, Rc, Hm0_swell, c_swell, **k: M.assume(Rc > c_swell * Hm0_swell), lax=True)
m = OT + "vangent2025"
eqob(P_, "coefficients/vg25/gamma_f", m, "calculate_influence_friction_gamma_f", dict(Dn50=DN, Hm0=H, smm10=(0.001, 0.06), c_f1=(.4, .9), c_f2=(.02, .1), smm10_lim=(0.005, 0.03)),
     lambda M, Dn50, Hm0, smm10, c_f1, c_f2, smm10_lim: (lambda g1: M.np.where(smm10 >= smm10_lim, g1, g1 + 12 * (smm10_lim - smm10) * (1 - g1)))(1 - c_f1 * (Dn50 / Hm0) ** c_f2), lax=True)
eqob(P_, "coefficients/vg25/gamma_b", m, "calculate_influence_berm_gamma_b", dict(Hm0=H, smm10=(0.001, 0.07), Ac=(0.1, 10.0), B_berm=(0.01, 30.0), BL=(0.01, 15.0), c_b1=(10., 30.), c_b2=(1., 2.), c_b3=(.1, .6), c_b4=(.1, .4)),
     lambda M, Hm0, smm10, Ac, B_berm, BL, c_b1, c_b2, c_b3, c_b4: 1 - c_b1 * (smm10 * B_berm / Hm0) ** c_b2 * (1 - c_b3 * (BL / (smm10 * Ac)) ** c_b4), lax=True)
eqob(P_, "coefficients/vg25/gamma_beta", m, OB, dict(beta=(-90.0, 90.0), c_beta=(0.1, 0.9)), lambda M, beta, c_beta: (1 - c_beta) * sp.cos2(M, beta) + c_beta, lax=True)
eqob(P_, "coefficients/vg25/gamma_v", m, "calculate_influence_crest_wall_gamma_v", dict(cot_alpha=(1.0, 4.0), Rc=(0.2, 15.0), Ac=(0.1, 15.0), c_v=(.2, .8)), lambda M, cot_alpha, Rc, Ac, c_v: 1 + c_v * (Rc - Ac) / Rc, lax=True)
eqob(P_, "coefficients/vg25/gamma_w", m, "calculate_influence_wind_gamma_w", dict(Rc=(0.2, 15.0), Ac=(0.1, 15.0), Hm0=H, q_diml=(1e-8, 0.1), c_w1=(.01, .2), c_w2=(-.6, -.1)),
     lambda M, Rc, Ac, Hm0, q_diml, c_w1, c_w2: 1 + c_w1 * (Rc - Ac) / Hm0 * q_diml ** c_w2, lax=True)
eqob(P_, "coefficients/velocity", OT + "vangent2002_velocity", "calculate_maximum_wave_overtopping_velocity_uXp",
     dict(Hs=HB, zXp=(0.1, 20.), Rc=(0.1, 10.), Bc=(0., 20.), gamma_f=GF, gamma_f_Crest=GF, cu1=(1., 3.), cu2=(.05, .5), g=G), s2.vel, pre=lambda M, zXp, Rc, **k: M.assume(zXp > Rc), lax=True)
TRV = dict(Hsi=H, Tpi=T, Rc=(-10.0, 10.0), B=(0.1, 200.0), cot_alpha=COT)


# structural side: the coefficient argument leaves the rest of the equation alone
for name, tn, h2, refS, refD in (("vandermeer1988", "Tm", True, s2.vdm1988_S, s2.vdm1988_D), ("vandermeer1988_modified", "Tmm10", True, s2.vdmm_S, s2.vdmm_D),
                                 ("vandermeer2021", "Tmm10", False, s2.vdm21_S, s2.vdm21_D)):
    base = dict(VM, **{tn: TBX, "Hs": HB}, c_pl=(5., 10.), c_s=(.7, 2.))
    base.update(dict(H2p=(0.1, 18.0), rho_water=RW) if h2 else dict(c_pl_mult=(.8, 1.2), c_s_mult=(.8, 1.2)))
    eqob(P_, "coefficients/%s/S" % name, RA + name, SF, dict(base, Dn50=DN), refS, lax=True)
    eqob(P_, "coefficients/%s/Dn50" % name, RA + name, DF, dict(base, S=S), refD, lax=True)


def scaled(name, mod, fn, var, arg, box, law, const=None, pre=None, stubs=()):
    """law(M, a, b): the factor on the result when arg goes from a to b"""
    def h(M):
        for s in stubs:
            M.stub_uf(*s)
        kw = M.vars(**var)
        if pre:
            pre(M, **kw)
        a, b = M.var(arg + "_a", *box), M.var(arg + "_b", *box)
        f = M.fn(mod, fn)
        x, y = (f(**kw, **{arg: v}, **(const or {})) for v in (a, b))
        x, y = (M.item(r[0] if isinstance(r, tuple) else r) for r in (x, y))
        M.check("factor", M.eq(y, x * law(M, a, b)))
    ob(P_, name, funcs=(mod + "." + fn,), lax=True)(h)


pw = lambda e: (lambda M, a, b: (b / a) ** e)
ipw = lambda e: (lambda M, a, b: (b / a) if e == 1 else (b / a) * (b / a) * (b / a) if e == 3 else 1 / ((b / a) * (b / a) * (b / a)) if e == -3 else a / b)
sqr = lambda M, a, b: M.np.sqrt(b / a)
for key, it in CAT.items():
    d = DEF.get((it.mod, it.fn)) or {}
    if it.fn.startswith(QF) and "g" in d and "bestfit" not in key:
        scaled("gravity/" + key, it.mod, it.fn, it.var, "g", G, sqr, const=it.const, pre=it.pre, stubs=it.stubs)
for u in ("accropode2", "accropode", "core_loc", "cubipod", "cubes_double_layer", "tetrapod"):
    scaled("alpha_Hs/%s/M" % u, CA + u + "_hudson1959", "calculate_unit_mass_M", dict(cv, Hs=HB), "alpha_Hs", (1., 1.6), ipw(3))
    scaled("alpha_Hs/%s/Hs" % u, CA + u + "_hudson1959", HF, dict(cv, M=MU), "alpha_Hs", (1., 1.6), ipw(-1))
for rt in ("rough", "smooth"):
    scaled("alpha_Hs/hudson/M50/" + rt, RA + "hudson1959", "calculate_median_rock_mass_M50", dict(hv, Hs=HB, damage_percentage=(0., 100.)), "alpha_Hs", (1., 1.6), ipw(3), const=dict(rock_type=rt))
    scaled("alpha_Hs/hudson/Hs/" + rt, RA + "hudson1959", HF, dict(hv, M50=M50, damage_percentage=(0., 100.)), "alpha_Hs", (1., 1.6), ipw(-1), const=dict(rock_type=rt))
c1 = dict(rho_water=RW, rho_armour=(1800.0, 3200.0))
for x in ("start_of_damage", "failure"):
    scaled("Ns/cubes2002/M/" + x, CA + "cubes_single_layer_vangent2002", "calculate_unit_mass_M_" + x, dict(c1, Hs=HB), "Ns", (1.5, 6.), ipw(-3))
    scaled("Ns/cubes2002/Hs/" + x, CA + "cubes_single_layer_vangent2002", HF + "_" + x, dict(c1, M=MU), "Ns", (1.5, 6.), ipw(1))
for x in ("xbloc", "xblocplus"):
    scaled("correction factor/%s/V" % x, CA + x, "calculate_unit_volume_V", dict(c1, Hs=HB), "total_correction_factor", (1., 3.), ipw(1))
    scaled("correction factor/%s/M" % x, CA + x, "calculate_unit_mass_M", dict(c1, Hs=HB), "total_correction_factor", (1., 3.), ipw(1))
w = CW + "vangentvanderwerf2019"
it = CAT["crestwall/FH"]
for nm, a, box in (("FH", "cFH", (.5, 2.)), ("FH", "rho_water", RW), ("FH", "g", G), ("FV", "cFV", (.2, 1.)), ("FV", "rho_water", RW), ("FV", "g", G)):
    for ang in ("", "-oblique"):
        it = CAT["crestwall/%s%s" % (nm, ang)]
        scaled("%s/crestwall/%s%s" % (a, nm, ang), w, it.fn, it.var, a, box, ipw(1), pre=it.pre, stubs=((RU + "vangent2001", "calculate_wave_runup_height_zXp"),))
it = CAT["rear2004/S"]
scaled("cs/rear2004/S", it.mod, it.fn, it.var, "cs", (1e-13, 1e-12), ipw(1), pre=rpre, stubs=Z1)
it = CAT["vgvdw2014/Nod"]
scaled("c1/vgvdw2014/Nod", it.mod, it.fn, it.var, "c1", (.02, .06), ipw(1))
for nm in ("S", "Dn50"):
    it = CAT["scaravaglione/" + nm]
for key, law in (("scaravaglione/S", 5),):
    it = CAT[key]
    scaled("c_VGnew/" + key, it.mod, it.fn, it.var, "c_VGnew", (2., 5.), lambda M, a, b: (a / b) * (a / b) * (a / b) * (a / b) * (a / b))
it = CAT["jumelet/S"]
scaled("c_pl/jumelet/S", it.mod, it.fn, it.var, "c_pl", (3., 6.), lambda M, a, b: (a / b) * (a / b) * (a / b) * (a / b) * (a / b), pre=it.pre)
it = CAT["jumelet/Dn50"]
scaled("c_pl/jumelet/Dn50", it.mod, it.fn, it.var, "c_pl", (3., 6.), ipw(-1), pre=it.pre)

# ------------------------------------------------------------------ design is never less safe than the best fit


def safer(name, key, opt_design, opt_fit, pre=None, stubs=(), box=None, positive=False):
    it = CAT[key]

    def h(M):
        for s in tuple(it.stubs) + tuple(stubs):
            M.stub_uf(*s)
        kw = M.vars(**dict(it.var, **(box or {})))
        for p in (it.pre, pre):
            if p:
                p(M, **kw)
        f = M.fn(it.mod, it.fn)
        d, b = f(**kw, **opt_design), f(**kw, **opt_fit)
        d, b = (M.item(r[0] if isinstance(r, tuple) else r) for r in (d, b))
        if positive:
            M.assume(b >= 0)
        M.check("design on the safe side", M.ge(d, b))
    ob(P_, "design/" + name, funcs=it.funcs, lax=True)(h)


off, on = dict(use_best_fit=False), dict(use_best_fit=True)
for k in ("q/taw2002", "Rc/taw2002", "q/rubble2007", "Rc/rubble2007", "runup/taw2002", "runup/eurotop2018"):
    safer(k, k, off, on, pre=steep if k.startswith("runup") else None, stubs=GFA if k.startswith("Rc") else (), positive=k == "Rc/taw2002")
# EurOtop (2018): the best-fit result is the result with the best-fit coefficients, and the result is monotone in each
# coefficient between its best-fit and its design value
for key, best in (("q/eurotop2018", dict(c1=2.7, c2=0.09, c3=1.5, c4=0.023)), ("Rc/eurotop2018", dict(c1=2.7, c2=0.09, c3=1.5, c4=0.023)),
                  ("q/rubble2018", dict(c2=0.09, c3=1.5)), ("Rc/rubble2018", dict(c2=0.09, c3=1.5))):
    def hb(M, it=CAT[key], best=best):
        kw = M.vars(**it.var)
        it.pre and it.pre(M, **kw)
        f = M.fn(it.mod, it.fn)
        x, y = f(**kw, use_best_fit=True), f(**kw, use_best_fit=False, **best)
        x, y = (M.item(r[0] if isinstance(r, tuple) else r) for r in (x, y))
        M.check("same result", M.eq(x, y))
    ob(P_, "design/%s/best-fit coefficients" % key, funcs=CAT[key].funcs, lax=True)(hb)
    rng = dict(c1=(2.5, 2.7), c2=(0.09, 0.1035), c3=(1.35, 1.5), c4=(0.023, 0.026))
    for c, sg in (("c1", "-"), ("c2", "+"), ("c3", "-"), ("c4", "+")):
        if c in best:
            mono(P_, key, c + sg, box={a: rng[a] for a in best}, const=off, name="design/" + key)


def mean(M):
    """the design discharge is the dimensionless mean discharge to the power 0.857 (C03), hence larger when that is below one"""
    it = CAT["q/vangent2025/mean"]
    kw = M.vars(**{a: b for a, b in it.var.items() if a != "Rc"})
    x = M.var("x", 0.0, 15.0)
    kw["Rc"] = 0.4 * kw["Hm0_swell"] + x
    r = M.fn(it.mod, "calculate_dimensionless_overtopping_discharge_q")(design_calculation=False, **kw)[0]
    H_, ksi = kw["Hm0"], sp.irib(M, kw["Hm0"], kw["Tmm10"], kw["cot_alpha"])
    b = 0.8 / kw["cot_alpha"] * M.np.exp(-2.5 * x / H_ / (kw["gamma_f"] * kw["gamma_b"] * kw["gamma_v"] * kw["gamma_beta"] * ksi ** 0.24))
    M.check("not above the maximum", M.le(M.item(r), b))
    M.check("the maximum is largest for zero freeboard", b <= 0.8 / kw["cot_alpha"])
    M.check("and below one", 0.8 / kw["cot_alpha"] <= 1)


ob(P_, "design/q/vangent2025", funcs=CAT["q/vangent2025"].funcs, lax=True)(mean)
for key in ("q/taw2002", "Rc/taw2002"):
    mono(P_, key, "sigma-", box=dict(sigma=(-3.0, 3.0)), const=on, name="sigma/" + key, positive=key[0] == "R")

# ------------------------------------------------------------------ composite slopes and berms: the coefficients reach the run-up iteration
up = lambda M, Hm0, db=None, **k: (M.assume(db <= 1.4 * Hm0), M.assume(db >= -1.4 * Hm0)) if db is not None else None
cc = dict(c1=(1.0, 3.0), c2=(3.0, 6.0), c3=(1.0, 2.5), c4=(0.8, 1.2))
for fam, ref in (("taw2002", sp.runup_taw), ("eurotop2018", sp.runup_eurotop)):
    comp = dict(Hm0=H, Tmm10=T, cot_alpha_down=COT, cot_alpha_up=COT, B_berm=(0.0, 50.0), db=(-5.0, 5.0), gamma_beta=GBETA, gamma_f=GF, **cc)
    eqob(P_, "coefficients/runup/%s/composite" % fam, RU + fam, ZF, comp, ref, stubs=Z2P + GBI, pre=up, lax=True)
    eqob(P_, "coefficients/runup/%s/berm" % fam, RU + fam, ZF, dict(SL, B_berm=(0.0, 50.0), db=(-5.0, 5.0), gamma_beta=GBETA, gamma_f=GF, **cc), ref, stubs=Z2P + GBI, lax=True)

# ------------------------------------------------------------------ coefficient obligations of the published-equation and inverse properties belong here too
import re as _re
from vt import reg as _reg
from ob import c01 as _1, c02 as _2, c03 as _3, c04 as _4, c05 as _5, c06 as _6, c07 as _7

for _i, _o in list(_reg.OBS.items()):
    if _re.match("C0[1-7]/", _i) and _re.search("/coef|/option|/alpha|/param|/mult|/C1$|/gamma_A|/cs|/c_beta|/run-up$|/steepness/g|/Ns$|/pressures/g", _i) and "start_of" not in _i.replace("/Ns", ""):
        ob(P_, "with " + _o.name + ("" if _o.prop > "C02" else " (" + _o.prop + ")"), tier=_o.tier, funcs=_o.funcs, bounds=_o.bounds, max_paths=_o.max_paths, note=_o.note, weight=_o.weight, lax=_o.lax)(_o.fn)
