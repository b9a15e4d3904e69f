"""Catalogue of the public calculation functions: argument boxes, options, domain of the formula and the
exponent of the length scale of every result (Froude similarity); used by the metamorphic properties."""
from ob._lib import *
from ob import _spec as sp

# exponent of the length scale per argument name (everything else is dimensionless or a density/gravity)
LEN = set("H Hm0 Hs Hsi H2p HD Hm0_HF Hm0_LF Hm0_swell Hm0_deep Rc Rc_rear Rc2_front Rc2_rear Ac Gc B B_berm Bc Bt Bwall Bup B1 "
          "db BL h ht hc tt h_s d hacc Dn50 Dn50_core Dn D z2p zXp z1p L L_berm Fb Hwall tup".split())
TIME = set("T Tm Tp Tpi Tmm10 Tmax".split())
MASS = set("M M50 M50_core V".split())


def exponent(a):
    return 1.0 if a in LEN else 0.5 if a in TIME else 3.0 if a in MASS else 1.5 if a == "q" else 0.0


class Item:
    def __init__(self, key, mod, fn, var, out, const=None, stubs=(), pre=None, arr=True, scale=True):
        self.key, self.mod, self.fn, self.var, self.const = key, mod, fn, var, const or {}
        self.out = out if isinstance(out, tuple) else (out,)
        self.single = not isinstance(out, tuple)
        self.stubs, self.pre, self.arr, self.scale = stubs, pre, arr, scale

    @property
    def funcs(self):
        return (self.mod + "." + self.fn,)

    def call(self, M, kw, **over):
        return M.fn(self.mod, self.fn)(**dict(self.const, **kw), **over)

    def results(self, M, kw):
        """tuple of results"""
        r = self.call(M, kw)
        return (r,) if self.single else tuple(r)


CAT = {}
FLAG = None


def add(key, mod, fn, var, out, **k):
    assert key not in CAT, key
    CAT[key] = Item(key, mod, fn, var, out, **k)


HB, TBX = (0.1, 12.0), (2.0, 25.0)
SL = dict(Hm0=H, Tmm10=T, cot_alpha=COT)
FAC = dict(gamma_beta=GBETA, gamma_b=GB, gamma_f=GF)

# ------------------------------------------------------------------ run-up
for fam in ("taw2002", "eurotop2018"):
    for bf in (False, True):
        t = "/bestfit" if bf else ""
        add("runup/%s%s" % (fam, t), RU + fam, "calculate_wave_runup_height_z2p", dict(SL, **FAC), (1, FLAG), const=dict(use_best_fit=bf))
    add("runup/%s/diml" % fam, RU + fam, "calculate_dimensionless_wave_runup_height_z2p", dict(SL, **FAC), (0, FLAG))
    add("runup/%s/beta" % fam, RU + fam, "calculate_wave_runup_height_z2p", dict(SL, gamma_b=GB, gamma_f=GF, beta=(-90.0, 90.0)), (1, FLAG), stubs=GBETAS)
for x in ("1p", "2p", "10p"):
    add("runup/vangent2001/z" + x, RU + "vangent2001", "calculate_wave_runup_height_z" + x,
        dict(Tmm10=TBX, gamma=GF, cot_alpha=COT, Hs=HB), 1)
add("runup/average-slope", RU + "taw2002", "determine_average_slope",
    dict(Hm0=H, z2p=(0.05, 40.0), cot_alpha_down=COT, cot_alpha_up=COT, B_berm=(0.0, 50.0), db=(-3.0, 3.0)), 0,
    pre=lambda M, Hm0, db, **k: (M.assume(db <= 1.4 * Hm0), M.assume(db >= -1.4 * Hm0)))
add("runup/gamma_b", RU + "taw2002", "calculate_influence_berm_gamma_b",
    dict(Hm0=H, z2p=(0.05, 40.0), db=(-50.0, 50.0), B_berm=(0.0, 50.0), L_berm=(0.1, 100.0)), 0)
add("runup/berm-length", RU + "taw2002", "calculate_berm_length", dict(Hm0=H, cot_alpha=COT, B_berm=(0.0, 50.0)), 1)
add("runup/gamma_beta", RU + "taw2002", "calculate_influence_oblique_waves_gamma_beta", dict(beta=(-120.0, 120.0)), 0)
add("runup/gamma_beta18", RU + "eurotop2018", "calculate_influence_oblique_waves_gamma_beta", dict(beta=(-120.0, 120.0), gamma_f=GF), 0)
add("runup/gamma_f_adj", RU + "taw2002", "calculate_adjusted_influence_roughness_gamma_f", dict(gamma_f=GF, gamma_b=GB, ksi_mm10=(0.1, 30.0)), 0)

# ------------------------------------------------------------------ overtopping
for bf in (False, True):
    t = "/bestfit" if bf else ""
    c = dict(use_best_fit=bf)
    add("q/taw2002" + t, OT + "taw2002", "calculate_overtopping_discharge_q", dict(SL, Rc=RC, gamma_v=GV, **FAC), (1.5, FLAG), const=c)
    add("Rc/taw2002" + t, OT + "taw2002", "calculate_crest_freeboard_Rc", dict(SL, q=Q, gamma_v=GV, **FAC), (1, FLAG), const=c)
    add("q/eurotop2018" + t, OT + "eurotop2018", "calculate_overtopping_discharge_q", dict(SL, Rc=RC, gamma_v=GV, gamma_star=GV, **FAC), (1.5, FLAG), const=c)
    add("Rc/eurotop2018" + t, OT + "eurotop2018", "calculate_crest_freeboard_Rc", dict(SL, q=(1e-7, 0.02), Hm0=(0.2, 15.0), gamma_v=GV, gamma_star=GV, **FAC), (1, FLAG), const=c,
        pre=lambda M, **k: rc18(M, **k))
    for y in ("2007", "2018"):
        add("q/rubble%s%s" % (y, t), OT + "eurotop" + y, "calculate_overtopping_discharge_q_rubble_mound", dict(SL, Rc=RC, gamma_beta=GBETA, gamma_f=GF), 1.5, const=c)
        add("Rc/rubble%s%s" % (y, t), OT + "eurotop" + y, "calculate_crest_freeboard_Rc_rubble_mound", dict(SL, q=(1e-7, 0.02), Hm0=(0.2, 15.0), gamma_beta=GBETA, gamma_f=GF), 1, const=c,
            pre=lambda M, **k: rc18(M, **k))


def rc18(M, Hm0, q, cot_alpha=None, gamma_b=None, Tmm10=None, **k):
    """discharges a freeboard exists for"""
    d = q / M.np.sqrt(9.81 * Hm0 * Hm0 * Hm0)
    M.assume(d <= 0.02)
    if gamma_b is not None:
        M.assume(d <= 0.02 * M.np.sqrt(cot_alpha) * gamma_b * sp.irib(M, Hm0, Tmm10, cot_alpha))


for opt in (dict(), dict(short_crested_waves=False), dict(crossing_seas=True), dict(parapet=True)):
    t = "".join("/" + a for a in opt)
    add("q/caisson2021" + t, OT + "vangent2021_caisson", "calculate_overtopping_discharge_q", dict(Hm0=H, Rc=RC, beta=(0.0, 60.0), Hm0_swell=(0.0, 3.0)), 1.5, const=opt)
    add("Rc/caisson2021" + t, OT + "vangent2021_caisson", "calculate_crest_freeboard_Rc", dict(Hm0=H, q=Q, beta=(0.0, 60.0), Hm0_swell=(0.0, 3.0)), 1, const=opt,
        pre=lambda M, **k: rc18(M, **k))
SHF = (0.002, 0.08)
for eq, md, var in (("24", "deridder2024", dict(Hm0=H, smm10_HF=SHF, gamma_f=GF)), ("26", "deridder2024", dict(Hm0=H, smm10_HF=SHF, gamma_f=GF, Hm0_LF=(0.01, 5.0))),
                    ("28", "deridder2026", dict(Hm0=H, smm10_HF=SHF, gamma_f=GF, theta=(0.0, 70.0))), ("32", "deridder2026", dict(Hm0_HF=H, smm10_HF=SHF, gamma_f=GF, Hm0_LF=(0.01, 5.0), theta=(0.0, 70.0)))):
    add("q/deridder/eq" + eq, OT + md, "calculate_overtopping_discharge_q_eq" + eq, dict(var, Rc=RC), 1.5)
    add("Rc/deridder/eq" + eq, OT + md, "calculate_crest_freeboard_discharge_q_eq" + eq, dict(var, q=Q), 1)
V25 = dict(Hm0=(0.2, 10.0), Hm0_swell=(0.0, 2.0), Tmm10=(3.0, 20.0), Ac=(0.1, 10.0), cot_alpha=COT, gamma_v=GV)
for d in (True, False):
    t = "" if d else "/mean"
    c = dict(design_calculation=d)
    add("q/vangent2025" + t, OT + "vangent2025", "calculate_overtopping_discharge_q", dict(V25, Rc=RC, gamma_f=GF, gamma_b=GB, gamma_beta=GBETA), (1.5, FLAG), const=c)
    add("Rc/vangent2025" + t, OT + "vangent2025", "calculate_crest_freeboard_Rc", dict(V25, q=Q, gamma_f=GF, gamma_b=GB, gamma_beta=GBETA), (1, FLAG), const=c)
add("q/vangent2025/factors", OT + "vangent2025", "calculate_overtopping_discharge_q", dict(V25, Rc=RC, Dn50=(0.05, 3.0), B_berm=(0.0, 10.0), db=(-3.0, 3.0), beta=(0.0, 75.0)), (1.5, FLAG),
    pre=lambda M, db, Hm0, Ac, Rc, **k: M.assume(Ac >= db))
add("vg25/gamma_f", OT + "vangent2025", "calculate_influence_friction_gamma_f", dict(Dn50=(0.02, 5.0), Hm0=H, smm10=(0.001, 0.07)), 0)
add("vg25/gamma_b", OT + "vangent2025", "calculate_influence_berm_gamma_b", dict(Hm0=H, smm10=(0.001, 0.07), Ac=(0.1, 10.0), B_berm=(0.0, 30.0), BL=(0.0, 15.0)), 0)
add("vg25/gamma_beta", OT + "vangent2025", "calculate_influence_oblique_waves_gamma_beta", dict(beta=(-90.0, 90.0)), 0)
add("vg25/gamma_v", OT + "vangent2025", "calculate_influence_crest_wall_gamma_v", dict(cot_alpha=COT, Rc=(0.2, 15.0), Ac=(0.1, 15.0)), 0)
add("vg25/gamma_w", OT + "vangent2025", "calculate_influence_wind_gamma_w", dict(Rc=(0.2, 15.0), Ac=(0.1, 15.0), Hm0=H, q_diml=(1e-8, 0.1)), 0,
    pre=lambda M, Rc, Ac, **k: M.assume(Rc >= Ac))
add("taw/gamma_v", OT + "taw2002", "calculate_influence_crest_wall_gamma_v", dict(alpha_wall_deg=(0.0, 90.0)), 0)
add("ot/gamma_beta", OT + "taw2002", "calculate_influence_oblique_waves_gamma_beta", dict(beta=(-120.0, 120.0)), 0)
add("ot/gamma_beta18", OT + "eurotop2018", "calculate_influence_oblique_waves_gamma_beta", dict(beta=(-120.0, 120.0), gamma_f=GF), 0)
add("velocity2002", OT + "vangent2002_velocity", "calculate_maximum_wave_overtopping_velocity_uXp",
    dict(Hs=HB, zXp=(0.1, 20.), Rc=(0.1, 10.), Bc=(0., 20.), gamma_f=GF, gamma_f_Crest=GF), 0.5, pre=lambda M, zXp, Rc, **k: M.assume(zXp > Rc))

# ------------------------------------------------------------------ transmission
TRV = dict(Hsi=H, Tpi=T, Rc=(-10.0, 10.0), B=(0.1, 200.0), cot_alpha=COT)
add("Kt/dangremond/permeable", TR + "dangremond1996", "calculate_wave_transmission_Kt_permeable", dict(TRV, h=(0.5, 60.0)), 0)
add("Kt/dangremond/impermeable", TR + "dangremond1996", "calculate_wave_transmission_Kt_impermeable", dict(TRV, h=(0.5, 60.0)), 0)
add("Kt/briganti", TR + "briganti2003", "calculate_wave_transmission_Kt", TRV, 0)
add("Kt/goda", TR + "goda1967_caisson", "calculate_wave_transmission_Kt", dict(Hsi=H, Rc=(-30.0, 30.0)), 0)
KTT = ("impermeable", "permeable", "perforated", "perforated_with_screen", "perforated_with_perforated_screen")
for st in KTT:
    add("Kt/vangent2023/" + st, TR + "vangent2023", "calculate_wave_transmission_Kt", dict(Hm0=H, Tmm10=T, Rc=(-20.0, 20.0), B=(0.1, 200.0)), 0, const=dict(structure_type=st))
add("setup/impermeable", TR + "vangent2024_setup", "calculate_structure_induced_setup_delta_impermeable", dict(Hm0=H, Tmm10=T, Rc=(-20.0, 10.0)), 1,
    pre=lambda M, Rc, Hm0, **k: M.assume(Rc > -1.6 * Hm0))
add("setup/permeable", TR + "vangent2024_setup", "calculate_structure_induced_setup_delta_permeable", dict(Hm0=H, Tmm10=T, Rc=(-20.0, 10.0), hc=(0.1, 30.0)), 1,
    pre=lambda M, Rc, Hm0, **k: M.assume(Rc > -1.5 * Hm0))

# ------------------------------------------------------------------ shared physics
add("physics/s", CP, "calculate_wave_steepness_s", dict(H=H, T=T), 0)
add("physics/ksi", CP, "calculate_Iribarren_number_ksi", dict(H=H, T=T, cot_alpha=COT), 0)
add("physics/ksi_mc", CP, "calculate_critical_Iribarren_number_ksi_mc", dict(c_pl=(3., 12.), c_s=(.5, 3.), P=P, cot_alpha=COT), 0)
add("physics/Ns", CP, "calculate_stability_number_Ns", dict(H=H, D=DN, rho_rock=RROCK, rho_water=RW), 0)
add("physics/Delta", CP, "calculate_buoyant_density_Delta", dict(rho_rock=RROCK, rho_water=RW), 0)
add("physics/M50", CP, "calculate_M50_from_Dn50", dict(Dn50=DN, rho_rock=RROCK), 3)
add("physics/Dn50", CP, "calculate_Dn50_from_M50", dict(M50=(1.0, 1e6), rho_rock=RROCK), 1)
add("physics/S", CP, "calculate_S_from_Nod", dict(Nod=(0.1, 10.), G=(1., 2.), nv=(0.2, 0.6)), 0)
add("physics/Nod", CP, "calculate_Nod_from_S", dict(S=S, G=(1., 2.), nv=(0.2, 0.6)), 0)
add("physics/L", CP, "calculate_local_wavelength", dict(T=T, h=(0.5, 200.0)), 1)

# ------------------------------------------------------------------ rock armour
M50 = (1.0, 5e4)
hv = dict(rho_water=RW, rho_armour=RROCK, KD=(1.0, 20.0), cot_alpha=COT)
add("hudson/M50-nodamage", RA + "hudson1959", "calculate_median_rock_mass_M50_no_damage", dict(hv, Hs=HB), 3)
add("hudson/Hs-nodamage", RA + "hudson1959", "calculate_significant_wave_height_Hs_no_damage", dict(hv, M50=M50), 1)
for rt in ("rough", "smooth"):
    add("hudson/M50/" + rt, RA + "hudson1959", "calculate_median_rock_mass_M50", dict(hv, Hs=HB, damage_percentage=(0.0, 100.0)), 3, const=dict(rock_type=rt))
    add("hudson/Hs/" + rt, RA + "hudson1959", "calculate_significant_wave_height_Hs", dict(hv, M50=M50, damage_percentage=(0.0, 100.0)), 1, const=dict(rock_type=rt))
VM = dict(N_waves=N, cot_alpha=COT, P=P, rho_armour=RROCK)
for name, tn, h2 in (("vandermeer1988", "Tm", True), ("vandermeer1988_modified", "Tmm10", True), ("vandermeer2021", "Tmm10", False)):
    base = dict(VM, **{tn: TBX})
    hh = dict(Hs=HB, H2p=(0.1, 18.0)) if h2 else dict(Hs=HB)
    rw = dict(rho_water=RW) if h2 else {}
    rat = dict(ratio_H2p_Hs=(1.0, 1.5)) if h2 else {}
    add(name + "/S", RA + name, "calculate_damage_number_S", dict(base, Dn50=DN, **hh, **rw), 0)
    add(name + "/S/mass", RA + name, "calculate_damage_number_S", dict(base, M50=M50, **hh, **rw), 0)
    add(name + "/Dn50", RA + name, "calculate_nominal_rock_diameter_Dn50", dict(base, S=S, **hh, **rw), 1)
    add(name + "/Hs", RA + name, "calculate_significant_wave_height_Hs", dict(base, S=S, Dn50=DN, **rat, **rw), 1)
add("vandermeer1988/gamma_N", RA + "vandermeer1988", "calculate_correction_term_gamma_N", dict(N_waves=(50.0, 20000.0)), 0)
ev = dict(Tmm10=TBX, N_waves=N, cot_alpha=COT, rho_armour=RROCK)
DC = dict(Dn50_core=(0.01, 2.0))
add("etemad2020/S", RA + "etemadshahidi2020", "calculate_damage_number_S", dict(ev, Hs=HB, Dn50=DN, rho_water=RW, **DC), 0)
add("etemad2020/S/mass", RA + "etemadshahidi2020", "calculate_damage_number_S", dict(ev, Hs=HB, M50=M50, M50_core=(0.1, 1e4), rho_core=RROCK), 0)
add("etemad2020/S/depth", RA + "etemadshahidi2020", "calculate_damage_number_S", dict(ev, Hs=HB, Dn50=DN, m=(0.0, 0.2), **DC), 0, const=dict(use_depth_limited_version=True))
add("etemad2020/Hs", RA + "etemadshahidi2020", "calculate_significant_wave_height_Hs", dict(ev, S=S, Dn50=DN, **DC), 1)
add("etemad2020/Cp", RA + "etemadshahidi2020", "calculate_permeability_coefficient_Cp", dict(Dn50=DN, Dn50_core=(0.0, 2.0)), 0)
jv = dict(Hs=HB, Tmm10=TBX, N_waves=(250., 20000.), cot_alpha=(4., 12.), rho_armour=RROCK)


def jp(M, Hs, Tmm10, cot_alpha, N_waves, **k):
    ksi = sp.irib(M, Hs, Tmm10, cot_alpha)
    M.assume(M.np.round((-1.7 * ksi * ksi + 3.2 * ksi - 0.5) * N_waves) >= 1)


add("jumelet/S", RA + "jumelet2024", "calculate_damage_number_S", dict(jv, Dn50=DN, rho_water=RW), 0, pre=jp)
add("jumelet/Dn50", RA + "jumelet2024", "calculate_nominal_rock_diameter_Dn50", dict(jv, S=S), 1, pre=jp)
add("jumelet/Fp", RA + "jumelet2024", "calculate_fraction_plunging_waves_Fp", dict(ksi_mm10=(0.2, 2.0)), 0)
add("kramer/Hs", RA + "kramerburcharth2004_lowcrested", "calculate_significant_wave_height_Hs", dict(Rc=(-8., 5.), rho_armour=RROCK, Dn50=DN), 1)
sv = dict(Tmm10=TBX, N_waves=N, cot_alpha=COT, rho_armour=RROCK, rho_core=RROCK, rho_water=RW)
add("scaravaglione/S", RA + "scaravaglione2025", "calculate_damage_number_S", dict(sv, Hm0=HB, Dn50=DN, **DC), 0)
add("scaravaglione/S/mass", RA + "scaravaglione2025", "calculate_damage_number_S", dict(sv, Hm0=HB, M50=M50, M50_core=(0.1, 1e4)), 0)
add("scaravaglione/Dn50", RA + "scaravaglione2025", "calculate_nominal_rock_diameter_Dn50", dict(sv, Hm0=HB, S=S, **DC), 1)
add("scaravaglione/Hm0", RA + "scaravaglione2025", "calculate_significant_wave_height_Hm0", dict(sv, S=S, Dn50=DN, **DC), 1)

# ------------------------------------------------------------------ rear side
Z1 = ((RU + "vangent2001", "calculate_wave_runup_height_z1p"),)


def rpre(M, **k):
    z = M.fn(*Z1[0])(Hs=k["Hs"], Tmm10=k["Tmm10"], gamma=k.get("gamma", k.get("gamma_f")), cot_alpha=k["cot_alpha"])
    M.assume(z > 1.001 * k["Rc"])
    if "Rc2_rear" in k:
        M.assume(k["Rc2_rear"] <= 0.99 * k["Rc"])


r7 = dict(cot_alpha=COT, cot_phi=(1., 5.), gamma=GF, Hs=HB, Tmm10=TBX, Rc=(0.1, 10.), Rc2_front=(0., 5.), Rc2_rear=(0., 5.), N_waves=N)
r4 = dict(cot_alpha=COT, cot_phi=(1., 5.), gamma_f=GF, gamma_f_Crest=GF, Hs=HB, Tmm10=TBX, Rc=(0.1, 10.), Rc_rear=(0., 20.), Bc=(0., 20.), N_waves=N, rho_rock=RROCK)
add("rear2007/S", RR + "vangent2007", "calculate_damage_number_S", dict(r7, Dn50=DN), 0, pre=rpre)
add("rear2007/Dn50", RR + "vangent2007", "calculate_nominal_rock_diameter_Dn50", dict(r7, S=S), 1, pre=rpre)
add("rear2004/S", RR + "vangentpozueta2004", "calculate_damage_number_S", dict(r4, Dn50=DN, rho_water=RW), 0, pre=rpre)
add("rear2004/Dn50", RR + "vangentpozueta2004", "calculate_nominal_rock_diameter_Dn50", dict(r4, S=S, rho_water=RW), 1, pre=rpre)

# ------------------------------------------------------------------ toe
NOD, HT, HW = (0.01, 10.0), (0.1, 20.0), (0.2, 30.0)
RH = dict(rho_rock=RROCK, rho_water=RW)
for name in ("gerding1993", "vandermeer1998"):
    b = dict(RH, h=HW)
    add(name + "/Nod", TB + name, "calculate_damage_Nod", dict(b, Hs=HB, ht=HT, Dn50=DN), 0)
    add(name + "/Dn50", TB + name, "calculate_nominal_diameter_Dn50", dict(b, Hs=HB, ht=HT, Nod=NOD), 1)
    add(name + "/Hs", TB + name, "calculate_wave_height_Hs", dict(b, Dn50=DN, ht=HT, Nod=NOD), 1)
gv = dict(RH, Hm0=HB, Tmm10=TBX, ht=HT, Bt=(0.1, 20.), tt=(0.1, 10.), cot_alpha_armour_slope=COT)
add("vgvdw2014/u", TB + "vangentvanderwerf2014", "calculate_velocity_u_delta", dict(Hs=HB, Tmm10=TBX, ht=HT), 0.5)
add("vgvdw2014/Nod", TB + "vangentvanderwerf2014", "calculate_damage_Nod", dict(gv, Dn50=DN), 0)
add("vgvdw2014/Dn50", TB + "vangentvanderwerf2014", "calculate_nominal_diameter_Dn50", dict(gv, Nod=NOD), 1)
tv = dict(rho_rock=RROCK, rho_water=RW, Hs=HB, Tmm10=TBX, h=HW, ht=HT, Bt=(0.1, 20.), m=(0., .2))
add("etemad2021/Nod", TB + "etemadshahidi2021", "calculate_damage_Nod", dict(tv, Dn50=DN), 0,
    pre=lambda M, Hs, Dn50, rho_rock, rho_water, **k: M.assume(Hs > 1.21 * (rho_rock / rho_water - 1) * Dn50))
add("etemad2021/Dn50", TB + "etemadshahidi2021", "calculate_nominal_diameter_Dn50", dict(tv, Nod=NOD), 1)
kv = dict(Hs=(0.5, 12.0), Tp=(3.0, 20.0), hacc=(0.5, 20.0), Bt=(0.5, 20.0), beta=(0.0, 60.0))
add("takahashi/Ns", TB + "takahashi1990_caisson", "calculate_stability_number_Ns", kv, 0)
add("takahashi/Dn50", TB + "takahashi1990_caisson", "calculate_nominal_diameter_Dn50", dict(kv, **RH), 1)

# ------------------------------------------------------------------ concrete armour
cv = dict(rho_water=RW, rho_armour=(1800.0, 3200.0), KD=(1.0, 30.0), cot_alpha=COT)
MU = (10.0, 1e5)
for md in ("accropode2_hudson1959", "accropode_hudson1959", "core_loc_hudson1959", "cubes_double_layer_hudson1959", "cubipod_hudson1959", "tetrapod_hudson1959"):
    k = md.replace("_hudson1959", "")
    add(k + "/M", CA + md, "calculate_unit_mass_M", dict(cv, Hs=HB), 3)
    add(k + "/Hs", CA + md, "calculate_significant_wave_height_Hs", dict(cv, M=MU), 1)
cw8 = dict(rho_water=RW, rho_armour=(1800.0, 3200.0), N_waves=N, cot_alpha=COT)
m = CA + "cubes_double_layer_vandermeer1988"
add("cubes1988/Dn", m, "calculate_nominal_diameter_Dn_vanDerMeer1988", dict(cw8, Hs=HB, Tm=TBX, Nod=NOD), 1)
add("cubes1988/Hs", m, "calculate_wave_height_Hs_vanDerMeer1988", dict(cw8, Dn=DN, s0m=(0.005, 0.08), Nod=NOD), 1)
add("cubes1988/Nod", m, "calculate_damage_Nod_vanDerMeer1988", dict(cw8, Hs=HB, Dn=DN, s0m=(0.005, 0.08)), 0,
    pre=lambda M, Hs, Dn, s0m, rho_armour, rho_water, **k: M.assume(Hs / ((rho_armour / rho_water - 1) * Dn) * M.np.power(s0m, 0.1) > 1.001))
m = CA + "cubes_single_layer_vangent2002"
c1 = dict(rho_water=RW, rho_armour=(1800.0, 3200.0))
for x in ("start_of_damage", "failure"):
    add("cubes2002/M/" + x, m, "calculate_unit_mass_M_" + x, dict(c1, Hs=HB), 3)
    add("cubes2002/Hs/" + x, m, "calculate_significant_wave_height_Hs_" + x, dict(c1, M=MU), 1)
for x in ("xbloc", "xblocplus"):
    xt = dict(c1, total_correction_factor=(1.0, 3.0))
    add(x + "/Hs-V", CA + x, "calculate_wave_height_Hs_from_V", dict(xt, V=(0.1, 50.0)), 1)
    add(x + "/Hs-M", CA + x, "calculate_wave_height_Hs_from_M", dict(xt, M=MU), 1)
    add(x + "/V", CA + x, "calculate_unit_volume_V", dict(xt, Hs=HB), 3)
    add(x + "/M", CA + x, "calculate_unit_mass_M", dict(xt, Hs=HB), 3)
    add(x + "/seabed-cot", CA + x, "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", dict(cot_alpha=(5.0, 60.0)), 0, arr=False)
    add(x + "/seabed-perc", CA + x, "calculate_correctionfactor_unit_mass_M_by_percslope_seabed", dict(perc_slope=(1.0, 20.0)), 0, arr=False)
    add(x + "/freeboard", CA + x, "calculate_correctionfactor_unit_mass_M_by_relative_freeboard", dict(rel_freeboard=(-1.0, 3.0)), 0, arr=False)
add("xbloc/depth", CA + "xbloc", "calculate_correctionfactor_unit_mass_M_by_rel_depth", dict(rel_depth=(0.5, 6.0)), 0, arr=False)
add("xbloc/slope", CA + "xbloc", "calculate_correctionfactor_unit_mass_M_by_structure_slope", dict(cot_alpha=(0.5, 4.0)), 0, arr=False)
for md in ("accropode2_hudson1959", "accropode_hudson1959", "core_loc_hudson1959"):
    add(md.replace("_hudson1959", "") + "/KD", CA + md, "calculate_KD_breaking_trunk_from_seabed_slope", dict(seabed_slope_perc=(0.0, 12.0)), 0)

# ------------------------------------------------------------------ forces
LW = ((CP, "calculate_local_wavelength"),)
GO = dict(HD=(0.5, 20.), Hsi=(0.5, 12.), Tmax=(3., 25.), h_s=(2., 40.), d=(1., 38.), B1=(0.5, 40.), cota_seabed=(5., 200.),
          rho_water=RW, hacc=(1., 40.), Rc=(0.2, 20.), Bup=(2., 50.), beta=(0.0, 60.0))
add("goda/pressures", FC + "goda1985", "calculate_pressures_and_forces", GO,
    (2, 2, 3, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, FLAG), stubs=(), arr=False)
add("goda/Wup", FC + "goda1985", "calculate_Wup", dict(hacc=(1., 40.), Rc=(.2, 20.), Bup=(2., 50.), rho_fill_below_SWL=(1500., 2600.), rho_water=RW, rho_fill_above_SWL=(1500., 2600.)), 2)
w = CW + "vangentvanderwerf2019"
CWV = dict(Hm0=(.3, 10.), Tmm10=(3., 25.), cot_alpha=COT, Ac=(.2, 10.), gamma_f=GF)
hx = dict(Rc=(.2, 15.), Hwall=(.3, 8.))
vx = dict(Bwall=(1., 20.), Fb=(.01, 10.))


def crest(M, Ac, Hm0, Tmm10, cot_alpha, gamma_f, beta=None, Fb=None, **k):
    if beta is not None:
        z = M.fn(RU + "vangent2001", "calculate_wave_runup_height_zXp")(H=Hm0, Tmm10=Tmm10, cot_alpha=cot_alpha, gamma=gamma_f, c0=1.45, c1=5.0)
        M.assume(z > 1.001 * Ac)
    if Fb is not None:
        M.assume(Fb <= Ac)


add("crestwall/FH", w, "calculate_FH2p_perpendicular", dict(CWV, **hx), 2, pre=crest)
add("crestwall/FV", w, "calculate_FV2p_perpendicular", dict(CWV, **vx), 2, pre=crest)
add("crestwall/FH-oblique", w, "calculate_FH2p_oblique", dict(CWV, beta=(0., 75.), **hx), 2, pre=crest)
add("crestwall/FV-oblique", w, "calculate_FV2p_oblique", dict(CWV, beta=(0., 75.), **vx), 2, pre=crest)
