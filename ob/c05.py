"""C05: rock armour (front and rear side) formulas equal their published equations."""
from ._lib import *
from . import _spec as sp
from . import _spec2 as s2

E_ = "C05"
HB, TB_ = (0.1, 12.0), (2.0, 25.0)
M50 = (1.0, 5e4)
DR = dict(rho_armour=RROCK)

# ---- Hudson 1959
m = RA + "hudson1959"
hv = dict(rho_water=RW, rho_armour=RROCK, KD=(1.0, 20.0), cot_alpha=COT)
for a in (False, True):
    v = dict(hv, alpha_Hs=(1.0, 1.6)) if a else hv
    t = "/alpha" if a else ""
    eqob(E_, "hudson/M50-no-damage" + t, m, "calculate_median_rock_mass_M50_no_damage", dict(v, Hs=HB), s2.hudson_M50)
    eqob(E_, "hudson/Hs-no-damage" + t, m, "calculate_significant_wave_height_Hs_no_damage", dict(v, M50=M50), s2.hudson_Hs)
for rt in ("rough", "smooth"):
    eqob(E_, "hudson/factor/" + rt, m, "lookup_table_damage_factors", dict(damage_percentage=(0.0, 100.0)), s2.hudson_factor, const=dict(rock_type=rt))
    fac = lambda M, ref, rt, damage_percentage, **k: ref(M, f=s2.hudson_factor(M, damage_percentage, rt), **k)
    eqob(E_, "hudson/M50/" + rt, m, "calculate_median_rock_mass_M50", dict(hv, Hs=HB, damage_percentage=(0.0, 100.0), alpha_Hs=(1.0, 1.6)),
         lambda M, rock_type, fac=fac, rt=rt, **k: fac(M, s2.hudson_M50, rt, **k), const=dict(rock_type=rt))
    eqob(E_, "hudson/Hs/" + rt, m, "calculate_significant_wave_height_Hs", dict(hv, M50=M50, damage_percentage=(0.0, 100.0), alpha_Hs=(1.0, 1.6)),
         lambda M, rock_type, fac=fac, rt=rt, **k: fac(M, s2.hudson_Hs, rt, **k), const=dict(rock_type=rt))
eqob(E_, "hudson/M50/default-type", m, "calculate_median_rock_mass_M50", dict(hv, Hs=HB, damage_percentage=(0.0, 100.0)),
     lambda M, fac=fac, **k: fac(M, s2.hudson_M50, "rough", **k))

# ---- Van der Meer 1988 / modified / 2021
VM = dict(N_waves=N, cot_alpha=COT, P=P, rho_armour=RROCK)
for name, md, tn, refS, refD, h2, cpl, cs in (
        ("vandermeer1988", "vandermeer1988", "Tm", s2.vdm1988_S, s2.vdm1988_D, True, (6., 10.), (1., 2.)),
        ("modified", "vandermeer1988_modified", "Tmm10", s2.vdmm_S, s2.vdmm_D, True, (6., 10.), (1., 2.)),
        ("vandermeer2021", "vandermeer2021", "Tmm10", s2.vdm21_S, s2.vdm21_D, False, (5., 8.), (.7, 1.3))):
    m = RA + md
    base = dict(VM, **{tn: TB_, "Hs": HB})
    if h2:
        base["H2p"] = (0.1, 18.0)
    rw = dict(rho_water=RW) if h2 else {}
    eqob(E_, name + "/S", m, "calculate_damage_number_S", dict(base, Dn50=DN, **rw), refS)
    eqob(E_, name + "/S/mass", m, "calculate_damage_number_S", dict(base, M50=M50), refS)
    eqob(E_, name + "/S/coefficients", m, "calculate_damage_number_S", dict(base, Dn50=DN, c_pl=cpl, c_s=cs), refS)
    eqob(E_, name + "/Dn50", m, "calculate_nominal_rock_diameter_Dn50", dict(base, S=S, **rw), refD)
    eqob(E_, name + "/Dn50/coefficients", m, "calculate_nominal_rock_diameter_Dn50", dict(base, S=S, c_pl=cpl, c_s=cs), refD)
    if not h2:
        mult = dict(c_pl_mult=(.8, 1.2), c_s_mult=(.8, 1.2))
        eqob(E_, name + "/S/multipliers", m, "calculate_damage_number_S", dict(base, Dn50=DN, **mult), refS)
        eqob(E_, name + "/Dn50/multipliers", m, "calculate_nominal_rock_diameter_Dn50", dict(base, S=S, **mult), refD)

    def hs(var, t, m=m, tn=tn, refS=refS, h2=h2):
        def h(M):
            kw = M.vars(**var)
            k = {a: b for a, b in kw.items() if a not in ("ratio_H2p_Hs", "S")}
            if tn == "Tm":
                # the storm-duration factor has its own obligation
                M.stub_uf(RA + "vandermeer1988", "calculate_correction_term_gamma_N")
                k["gN"] = M.fn(RA + "vandermeer1988", "calculate_correction_term_gamma_N")(N_waves=kw["N_waves"])
            r = M.fn(m, "calculate_significant_wave_height_Hs")(**kw)
            if h2:
                k["H2p"] = kw["ratio_H2p_Hs"] * r
            M.check("stability equation", M.eq(refS(M, Hs=r, **k), kw["S"]))
        ob(E_, t, funcs=(m + ".calculate_significant_wave_height_Hs",))(h)
    hb = dict(VM, S=S, Dn50=DN, **{tn: TB_})
    if h2:
        hb["ratio_H2p_Hs"] = (1.0, 1.5)
    hs(dict(hb, **rw), name + "/Hs")
    hs(dict(hb, c_pl=cpl, c_s=cs), name + "/Hs/coefficients")
    hs(dict({k: v for k, v in hb.items() if k != "Dn50"}, M50=M50), name + "/Hs/mass")
eqob(E_, "vandermeer1988/gamma_N", RA + "vandermeer1988", "calculate_correction_term_gamma_N", dict(N_waves=(50.0, 20000.0)), lambda M, N_waves: s2.gamma_N(M, N_waves))

# ---- Etemad-Shahidi 2020
m = RA + "etemadshahidi2020"
ev = dict(Hs=HB, Tmm10=TB_, N_waves=N, cot_alpha=COT, rho_armour=RROCK)
eqob(E_, "etemad/Cp", m, "calculate_permeability_coefficient_Cp", dict(Dn50=DN, Dn50_core=(0.0, 2.0)), s2.es_Cp)
eqob(E_, "etemad/S", m, "calculate_damage_number_S", dict(ev, Dn50=DN, Dn50_core=(0.01, 2.0), rho_water=RW), s2.es_S)
eqob(E_, "etemad/S/mass", m, "calculate_damage_number_S", dict(ev, M50=M50, M50_core=(0.1, 1e4), rho_core=RROCK), s2.es_S)
eqob(E_, "etemad/S/depth", m, "calculate_damage_number_S", dict(ev, Dn50=DN, Dn50_core=(0.01, 2.0), m=(0.0, 0.2)), s2.es_S, const=dict(use_depth_limited_version=True))


def es_hs(name, var, const):
    def h(M):
        kw = dict(M.vars(**var), **const)
        r = M.fn(RA + "etemadshahidi2020", "calculate_significant_wave_height_Hs")(**kw)
        M.check("stability equation", M.eq(s2.es_S(M, Hs=r, **{k: v for k, v in kw.items() if k != "S"}), kw["S"]))
    # the two branches leave a jump at ksi = 1.8; within it two wave heights have the same damage
    ob(E_, name, funcs=(m + ".calculate_significant_wave_height_Hs",))(h)


# ---- Jumelet 2024
m = RA + "jumelet2024"
jv = dict(Hs=HB, Tmm10=TB_, N_waves=(250., 20000.), cot_alpha=(4., 12.), rho_armour=RROCK)


def jp(M, Hs, Tmm10, cot_alpha, **k):
    ksi = sp.irib(M, Hs, Tmm10, cot_alpha)
    M.assume(s2.ju_Np(M, ksi, k["N_waves"]) >= 1)


eqob(E_, "jumelet/S", m, "calculate_damage_number_S", dict(jv, Dn50=DN, rho_water=RW), s2.ju_S, pre=jp)
eqob(E_, "jumelet/S/mass", m, "calculate_damage_number_S", dict(jv, M50=M50, c_pl=(3., 6.)), s2.ju_S, pre=jp)
eqob(E_, "jumelet/Dn50", m, "calculate_nominal_rock_diameter_Dn50", dict(jv, S=S, c_pl=(3., 6.)), s2.ju_D, pre=jp)
eqob(E_, "jumelet/Fp", m, "calculate_fraction_plunging_waves_Fp", dict(ksi_mm10=(0.2, 2.0)), lambda M, ksi_mm10: -1.7 * ksi_mm10 * ksi_mm10 + 3.2 * ksi_mm10 - 0.5)

# ---- Kramer & Burcharth 2004
m = RA + "kramerburcharth2004_lowcrested"
eqob(E_, "kramer/Hs", m, "calculate_significant_wave_height_Hs", dict(Rc=(-8., 5.), rho_armour=RROCK, Dn50=DN), s2.kb_Hs)
eqob(E_, "kramer/Hs/mass", m, "calculate_significant_wave_height_Hs", dict(Rc=(-8., 5.), rho_armour=RROCK, M50=M50), s2.kb_Hs)

# ---- Scaravaglione 2025
m = RA + "scaravaglione2025"
sv = dict(Hm0=HB, Tmm10=TB_, N_waves=N, cot_alpha=COT, rho_armour=RROCK, rho_core=RROCK)
eqob(E_, "scaravaglione/S", m, "calculate_damage_number_S", dict(sv, Dn50=DN, Dn50_core=(0.01, 2.), rho_water=RW, c_VGnew=(2., 5.)), s2.sc_S)
eqob(E_, "scaravaglione/S/mass", m, "calculate_damage_number_S", dict(sv, M50=M50, M50_core=(0.1, 1e4)), s2.sc_S)
eqob(E_, "scaravaglione/Dn50", m, "calculate_nominal_rock_diameter_Dn50", dict(sv, Dn50_core=(0.01, 2.), S=S, rho_water=RW, c_VGnew=(2., 5.)), s2.sc_D)
eqob(E_, "scaravaglione/Dn50/mass", m, "calculate_nominal_rock_diameter_Dn50", dict(sv, M50_core=(0.1, 1e4), S=S), s2.sc_D)


def sc_hs(name, var):
    def h(M):
        kw = M.vars(**var)
        r = M.fn(RA + "scaravaglione2025", "calculate_significant_wave_height_Hm0")(**kw)
        M.check("stability equation", M.eq(s2.sc_S(M, Hm0=r, **{k: v for k, v in kw.items() if k != "S"}), kw["S"]))
    ob(E_, name, funcs=(RA + "scaravaglione2025.calculate_significant_wave_height_Hm0",))(h)


hv = {k: v for k, v in sv.items() if k != "Hm0"}
sc_hs("scaravaglione/Hm0", dict(hv, S=S, Dn50=DN, Dn50_core=(0.01, 2.), rho_water=RW, c_VGnew=(2., 5.)))
sc_hs("scaravaglione/Hm0/mass", dict(hv, S=S, M50=M50, M50_core=(0.1, 1e4)))

# ---- rear side
Z1 = ((RU + "vangent2001", "calculate_wave_runup_height_z1p"),)


def z1(M, gam, **k):
    return M.fn(*Z1[0])(Hs=k["Hs"], Tmm10=k["Tmm10"], gamma=gam, cot_alpha=k["cot_alpha"])


def rear(M, ref, gamma=None, cot_alpha=None, Tmm10=None, M50=None, Dn50=None, rho_rock=None, keepT=False, **k):
    z = z1(M, gamma, Hs=k["Hs"], Tmm10=Tmm10, cot_alpha=cot_alpha)
    M.assume(z > k["Rc"])
    if Dn50 is not None:
        k["D"] = Dn50
    if M50 is not None:
        k["D"] = M.np.power(M50 / (2650 if rho_rock is None else rho_rock), 1.0 / 3.0)
    return ref(M, z=z, **k)


def rpre(M, **k):
    z = z1(M, k.get("gamma", k.get("gamma_f")), **k)
    M.assume(z > k["Rc"])
    if "Rc2_rear" in k:
        M.assume(k["Rc2_rear"] < k["Rc"])


m = RR + "vangent2007"
r7 = dict(cot_alpha=COT, cot_phi=(1., 5.), gamma=GF, Hs=HB, Tmm10=TB_, Rc=(0.1, 10.), Rc2_front=(0., 5.), Rc2_rear=(0., 5.), N_waves=N)
eqob(E_, "rear2007/S", m, "calculate_damage_number_S", dict(r7, Dn50=DN), lambda M, **k: rear(M, s2.rear07_S, **k), stubs=Z1, pre=rpre)
eqob(E_, "rear2007/S/mass", m, "calculate_damage_number_S", dict(r7, M50=M50, rho_rock=RROCK), lambda M, **k: rear(M, s2.rear07_S, **k), stubs=Z1, pre=rpre)
eqob(E_, "rear2007/S/mass-default-density", m, "calculate_damage_number_S", dict(r7, M50=M50), lambda M, **k: rear(M, s2.rear07_S, **k), stubs=Z1, pre=rpre)
eqob(E_, "rear2007/Dn50", m, "calculate_nominal_rock_diameter_Dn50", dict(r7, S=S), lambda M, **k: rear(M, s2.rear07_D, **k), stubs=Z1, pre=rpre)

m = RR + "vangentpozueta2004"
r4 = dict(cot_alpha=COT, cot_phi=(1., 5.), gamma_f=GF, gamma_f_Crest=GF, Hs=HB, Tmm10=TB_, Rc=(0.1, 10.), Rc_rear=(0., 20.), Bc=(0., 20.), N_waves=N, rho_rock=RROCK)


def rear4(M, ref, cot_alpha, M50=None, Dn50=None, **k):
    z = z1(M, k["gamma_f"], Hs=k["Hs"], Tmm10=k["Tmm10"], cot_alpha=cot_alpha)
    if Dn50 is not None:
        k["D"] = Dn50
    if M50 is not None:
        k["D"] = M.np.power(M50 / k["rho_rock"], 1.0 / 3.0)
    return ref(M, z=z, **k)


CS = (1e-14, 1e-11)
eqob(E_, "rear2004/S", m, "calculate_damage_number_S", dict(r4, Dn50=DN, rho_water=RW), lambda M, **k: rear4(M, s2.rear04_S, **k), stubs=Z1, pre=rpre)
eqob(E_, "rear2004/S/mass", m, "calculate_damage_number_S", dict(r4, M50=M50, cs=CS), lambda M, **k: rear4(M, s2.rear04_S, **k), stubs=Z1, pre=rpre)
eqob(E_, "rear2004/Dn50", m, "calculate_nominal_rock_diameter_Dn50", dict(r4, S=S, rho_water=RW), lambda M, **k: rear4(M, s2.rear04_D, **k), stubs=Z1, pre=rpre)
eqob(E_, "rear2004/Dn50/cs", m, "calculate_nominal_rock_diameter_Dn50", dict(r4, S=S, cs=CS), lambda M, **k: rear4(M, s2.rear04_D, **k), stubs=Z1, pre=rpre)
eqob(E_, "rear2004/velocity", OT + "vangent2002_velocity", "calculate_maximum_wave_overtopping_velocity_uXp",
     dict(Hs=HB, zXp=(0.1, 20.), Rc=(0.1, 10.), Bc=(0., 20.), gamma_f=GF, gamma_f_Crest=GF, cu1=(1., 2.), cu2=(.05, .2), g=G), s2.vel,
     pre=lambda M, zXp, Rc, **k: M.assume(zXp > Rc))
