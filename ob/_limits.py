"""Published validity ranges (documentation of each method), one entry per judged parameter:
(name used in the warning, expression in the arguments, lower limit, upper limit).
An entry is judged when all arguments of its expression are given (rho_water has a default)."""
import ast
from ob._lib import *

INF = float("inf")
WAVE = "Wave steepness sm-1,0"
_taw = [
    (WAVE, "s(Hm0,Tmm10)", 0.0, 0.07), ("Iribarren number ksi_m-1,0", "ksi(Hm0,Tmm10,cot_alpha)", 0.0, 7.0),
    ("gamma_b * ksi_m-1,0", "gamma_b*ksi(Hm0,Tmm10,cot_alpha)", 0.5, 10.0),
    ("Cotangent alpha lower slope", "cot_alpha_down", 1.0, 7.0), ("Cotangent alpha upper slope", "cot_alpha_up", 1.0, 7.0),
    ("Incident wave angle beta", "beta", 0.0, 90.0), ("Influence factor berm gamma_b", "gamma_b", 0.4, 1.0),
    ("Influence factor roughness gamma_f", "gamma_f", 0.4, 1.0), ("Influence factor oblique waves gamma_beta", "gamma_beta", 0.4, 1.0),
    ("Influence factor vertical wall gamma_v", "gamma_v", 0.4, 1.0)]
_hud = [("Cotangent of the front-side slope of the structure", "cot_alpha", 1.33, 1.5), ("Seabed slope in percentage", "seabed_slope_perc", 0, 10)]
_COT = "Cotangent of outer structure slope cot_alpha"
_V24 = "Van Gent (2024)"

# key -> (module, function, formula, entries, fixed options)
T8 = {
    "dr24": (OT + "deridder2024", "check_validity_range", "De Ridder et al. (2024)", [
        (WAVE, "s(Hm0,Tmm10)", 0.001, 0.04), ("Short wave steepness sm-1,0_HF", "s(Hm0_HF,Tmm10_HF)", 0.004, 0.047),
        ("Iribarren number Ksi_m-1,0", "ksi(Hm0,Tmm10,cot_alpha)", 0.05, 1.11), ("Foreshore slope m", "m_foreshore_slope", 0.01, 0.05),
        ("Rc/Hm0", "Rc/Hm0", 0.8, 3.72), ("Dn50/Hm0", "Dn50/Hm0", 0.12, 0.89), ("Hm0_LF/Hm0", "Hm0_LF/Hm0", 0.1, 0.81), ("h/Hm0", "h/Hm0", 0.57, 4.95)], {}),
    "dr26": (OT + "deridder2026", "check_validity_range", "De Ridder et al. (2026)", [
        (WAVE, "s(Hm0,Tmm10)", 0.003, 0.041), ("Short wave steepness sm-1,0_HF", "s(Hm0_HF,Tmm10_HF)", 0.012, 0.049),
        ("Rc/Hm0", "Rc/Hm0", 0.98, 1.94), ("Dn50/Hm0", "Dn50/Hm0", 0.18, 0.35), ("Hm0_LF/Hm0", "Hm0_LF/Hm0", 0.15, 0.55),
        ("h/Hm0", "h/Hm0", 1.41, 2.15), ("theta", "theta", 0.0, 56.0)], {}),
    "eu18rm": (OT + "eurotop2018", "check_validity_range_rubble_mound", "EurOtop (2018) - rubble mound", [("Cotangent alpha", "cot_alpha", 4.0 / 3.0, 2.0)], {}),
    "taw": (OT + "taw2002", "check_validity_range", "TAW (2002)", _taw, {}),
    "vg21": (OT + "vangent2021_caisson", "check_validity_range", "Van Gent (2021)", [
        (WAVE, "s(Hm0,Tmm10)", 0.015, 0.041), ("Dimensionless freeboard Rc/Hm0", "Rc/Hm0", 1.2, 2.9),
        ("Dimensionless overtopping discharge q", "q_diml", 0.0, 0.0012), ("Incident wave angle beta", "beta", 0.0, 75.0)], {}),
    "vg25": (OT + "vangent2025", "check_validity_range", "Van Gent et al. (2025)", [
        ("Cotangent alpha slope", "cot_alpha", 1.5, 8.0), (WAVE, "s(Hm0,Tmm10)", 0.001, 0.042),
        ("Iribarren number ksi_m-1,0", "ksi(Hm0,Tmm10,cot_alpha)", 0.05, 6.0), ("Relative water depth h / Hm0", "h/Hm0", 0.6, 5.0),
        ("Ratio Hm0_deep / h", "Hm0_deep/h", 0.0, 1.0), ("Non-dimensional crest freeboard Rc / Hm0", "Rc/Hm0", 0.6, 5.0),
        ("Non-dimensional stone diameter Dn50 / Hm0", "Dn50/Hm0", 0.12, 0.9), ("Non-dimensional protruding part of crest wall (Rc - Ac) / Hm0", "(Rc-Ac)/Hm0", 0.0, 0.68),
        ("Non-dimensional armour width in front of crest wall Gc / Hm0", "Gc/Hm0", 0.6, 5.0), ("Non-dimensional Berm width B / Hm0", "B_berm/Hm0", 0.6, 5.0),
        ("Non-dimensional Berm height db / Hm0", "db/Hm0", -1.7, 0.5), ("Incident wave angle beta", "beta", 0.0, 75.0)], {}),
    "tawru": (RU + "taw2002", "check_validity_range", "TAW (2002)", [
        ("Influence factor for a berm gamma_b", "gamma_b", 0.6, 1.0), ("Influence factor for oblique wave incidence gamma_beta", "gamma_beta", 0.7, 1.0),
        ("Influence factor for surface roughness gamma_f", "gamma_f", 0.5, 1.0), ("Wave steepness smm10", "s(Hm0,Tmm10)", 0.001, 0.07),
        ("Iribarren number ksi_mm10", "ksi(Hm0,Tmm10,cot_alpha)", 0.4, 20.0)], {}),
    "brig": (TR + "briganti2003", "check_validity", "Briganti (2003)", [
        ("Wave steepness s0p", "s0p", 0.005, 0.07), ("Surf similarity parameter ksi_0p", "ksi_0p", 0.5, 10.0)], {}),
    "dang": (TR + "dangremond1996", "check_validity", "D'Angremond et al. (1996)", [
        ("Transmission coefficient Kt", "Kt", 0.075, 0.8), ("Wave steepness s0p (dataset limit)", "s0p", 0, 0.06),
        ("Relative water depth Hsi/h (dataset limit)", "Hsi_over_h", 0, 0.54), ("Relative crest level Rc/Hsi (dataset limit)", "Rc_over_Hsi", -2.5, 2.5)], {}),
    "vg23p": (TR + "vangent2023", "check_validity_range", "Van Gent et al. (2023)", [
        ("Dimensionless crest height Rc / Hm0", "Rc/Hm0", -2.5, 2.5), ("Dimensionless crest width B / Lm-1,0", "B/L0(Tmm10)", 0.017, 0.27),
        ("Dimensionless crest width B / Hm0", "B/Hm0", 0.9, 10.6)], dict(structure_type="permeable")),
    "vg23i": (TR + "vangent2023", "check_validity_range", "Van Gent et al. (2023)", [
        ("Dimensionless crest height Rc / Hm0", "Rc/Hm0", -2.5, 0.0), ("Dimensionless crest width B / Lm-1,0", "B/L0(Tmm10)", 0.017, 0.27),
        ("Dimensionless crest width B / Hm0", "B/Hm0", 0.9, 10.6)], dict(structure_type="impermeable")),
    "vg24p": (TR + "vangent2024_setup", "check_validity_range", _V24, [
        (WAVE, "s(Hm0,Tmm10)", 0.008, 0.04), ("Dimensionless freeboard Rc/Hm0", "Rc/Hm0", -0.8, 0.0),
        ("Dimensionless submerged structure height hc/Hm0", "hc/Hm0", 1.5, 3.0), ("Dimensionless submerged structure crest width B/Hm0", "B/Hm0", 0.94, 2.35),
        ("Dimensionless median stone diameter Dn50/Hm0", "Dn50/Hm0", 0.19, 0.47)], dict(structure_type="permeable")),
    "vg24i": (TR + "vangent2024_setup", "check_validity_range", _V24, [
        (WAVE, "s(Hm0,Tmm10)", 0.01, 0.04), ("Dimensionless freeboard Rc/Hm0", "Rc/Hm0", -1.0, 0.0)], dict(structure_type="impermeable")),
    "goda": (FC + "goda1985", "check_validity_range", "Goda (2000)", [
        ("Angle of wave incidence", "beta", 0.0, 90.0), ("Seabed slope", "cota_seabed", 10.0, 100.0), ("Wave period", "Tmax", 0.0, 30.0),
        ("Centre of gravity inside of caisson", "tup/Bup", 0.0, 1.0), ("Water depth at site", "h_s", 0.0, INF),
        ("Width of toe berm", "B1", 0.0, INF), ("Width of caisson upright section", "Bup", 0.0, INF)], {}),
    "cw": (CW + "vangentvanderwerf2019", "check_validity", "Van Gent and Van der Werf 2019", [
        ("(Rc-Ac)/Hm0", "(Rc-Ac)/Hm0", 0.26, 0.77), ("Rc/Ac", "Rc/Ac", 1.27, 1.55), ("Rc/Hm0", "Rc/Hm0", 0.79, 2.18),
        ("Fb/Hm0", "Fb/Hm0", 0.0, 0.62), ("beta", "beta", 0.0, 75.0)], {}),
    "accr2": (CA + "accropode2_hudson1959", "check_validity_range", "Accropode", _hud, {}),
    "accr": (CA + "accropode_hudson1959", "check_validity_range", "Accropode", _hud, {}),
    "core": (CA + "core_loc_hudson1959", "check_validity_range", "Core Loc", _hud, {}),
    "cub88": (CA + "cubes_double_layer_vandermeer1988", "check_validity_range", "Double layer cubes vander Meer 1988", [
        ("Significant wave height Hs", "Hs", 0.01, 20), ("Number of waves N_waves", "N_waves", 0, 7500), ("Wave period Tm", "Tm", 0.5, 30),
        ("Armour density rho_armour", "rho_armour", 2000, 3100), (_COT, "cot_alpha", 1.5, 1.5),
        ("Wave steepness using Tm and Hs", "s(Hs,Tm)", 0.005, 0.07)], {}),
    "et20": (RA + "etemadshahidi2020", "check_validity_range", "Etemad-Shahidi et al., 2020", [
        (WAVE, "s(Hs,Tmm10)", 0.003, 0.088), ("Iribarren number ksi_m-1,0", "ksi(Hs,Tmm10,cot_alpha)", 0.65, 8.18), (_COT, "cot_alpha", 1.5, 6.0),
        ("Number of waves N_waves", "N_waves", 500, 5000), ("Buoyant density Delta", "rho_armour/rho_water-1", 0.92, 2.05), ("Permeability P", "P", 0.1, 0.6),
        ("Relative core diameter Dn50_core / Dn50", "Dn50_core/Dn50", 0.0, 1.0), ("Stability number Ns", "Hs/((rho_armour/rho_water-1)*Dn50)", 1.0, 4.3),
        ("Damage number S", "S", 2.0, 12.0)], {}),
    "jum": (RA + "jumelet2024", "check_validity_range", "Jumelet et al., 2024", [
        (WAVE, "s(Hs,Tmm10)", 0.009, 0.057), ("Iribarren number ksi_m-1,0", "ksi(Hs,Tmm10,cot_alpha)", 0.42, 1.66), (_COT, "cot_alpha", 6.0, 10.0),
        ("Number of waves N_waves", "N_waves", 250, 20000)], {}),
    "kb": (RA + "kramerburcharth2004_lowcrested", "check_validity_range", "Kramer & Burcharth, 2004", [("Relative crest height Rc / Dn50", "Rc/Dn50", -3.1, 1.5)], {}),
    "sc25": (RA + "scaravaglione2025", "check_validity_range", "Scaravaglione et al. (2025)", [
        ("Notional permeability P", "P", 0.37, 0.55), ("Stability number Ns", "Hm0/((rho_armour/rho_water-1)*Dn50)", 1.47, 3.44),
        ("Wave steepness s_m-1,0", "s(Hm0,Tmm10)", 0.02, 0.049), ("Iribarren number ksi_m-1,0", "ksi(Hm0,Tmm10,cot_alpha)", 1.3, 15.0),
        (_COT, "cot_alpha", 2.0, 2.0), ("Number of waves N_waves", "N_waves", 652, 4064), ("Ratio core to armour Dn50_core / Dn50", "Dn50_core/Dn50", 0.21, 0.71)], {}),
    "vdm": (RA + "vandermeer1988", "check_validity_range", "Van der Meer (1988)", [
        ("Notional permeability P", "P", 0.1, 0.6), (_COT, "cot_alpha", 1.1, 7.0), ("Wave steepness s0p", "s(Hs,Tp)", 0.005, 0.06),
        ("Number of waves N_waves", "N_waves", 0, 7500), ("Ratio H2%/Hs", "H2p/Hs", 1.1, 1.4), ("Density of armour layer rock rho_armour", "rho_armour", 2000, 3100)], {}),
    "vdmm": (RA + "vandermeer1988_modified", "check_validity_range", "Modified Van der Meer (Van Gent et al., 2003)", [
        ("Notional permeability P", "P", 0.1, 0.6), ("Stability number Ns", "Hs/((rho_armour/rho_water-1)*Dn50)", 0.5, 4.5),
        ("Iribarren number ksi_m-1,0", "ksi(Hs,Tmm10,cot_alpha)", 1.3, 15.0), (_COT, "cot_alpha", 2.0, 4.0),
        ("Number of waves N_waves", "N_waves", 0, 3000), ("Ratio H2%/Hs", "H2p/Hs", 1.2, 1.4)], {}),
    "rr07": (RR + "vangent2007", "check_validity_range", "Van Gent (2007)", [
        ("sm-1,0", "s(Hs,Tmm10)", 0.023, 0.054), ("h/Hs", "h/Hs", 3.3, 11.0), ("N_waves", "N_waves", 1000, 10000), ("Rc/Hs", "Rc/Hs", 0.5, 1.9),
        ("Rc/Dn50", "Rc/Dn50", 7.0, 22.0), ("(z1% - Rc)/Hs", "(z1p-Rc)/Hs", 0.2, 1.3), ("Rc2,front/Hs", "Rc2_front/Hs", 0.0, 0.5),
        ("B_element/Hs", "B_element/Hs", 0.5, 1.5), ("Gc/Hs", "Gc/Hs", 0.5, 1.1), ("Stability number Ns", "Hs/((2650.0/1025.0-1)*Dn50)", 4.0, 12.0),
        ("Rc2,rear/Hs", "Rc2_rear/Hs", 0.0, 1.3), ("S", "S", 2.0, 100.0)], {}),
    "rr04": (RR + "vangentpozueta2004", "check_validity_range", "Van Gent & Pozueta (2004)", [
        ("sm-1,0", "s(Hs,Tmm10)", 0.019, 0.036), ("N_waves", "N_waves", 0, 4000), ("Rc/Hs", "Rc/Hs", 0.3, 2.0), ("Rc_rear/Hs", "Rc_rear/Hs", 0.3, 6.0),
        ("B_c/Hs", "Bc/Hs", 1.3, 1.6), ("(z1% - Rc)/(gamma_f*Hs)", "(z1p-Rc)/(gamma_f*Hs)", 0.0, 1.4),
        ("Hs/(Delta*Dn50_rear)", "Hs/((rho_rock/rho_w-1)*Dn50)", 5.5, 8.5), ("cot phi", "cot_phi", 2.0, 4.0), ("S", "S", 2.0, 50.0)], {}),
    "et21": (TB + "etemadshahidi2021", "check_validity", "Etemad-Shahidi et al. (2021)", [
        ("Armour slope cot_alpha_armour_slope", "cot_alpha_armour_slope", 1.5, 2.0), (WAVE, "s(Hs,Tmm10)", 0.009, 0.061),
        ("Relative water depth above the toe ht/h", "ht/h", 0.39, 0.88), ("Relative water depth above the toe ht/Hs", "ht/Hs", 0.48, 2.58),
        ("Relative water depth above the toe ht/Dn50", "ht/Dn50", 1.97, 23.4), ("Relative toe width Bt/Hs", "Bt/Hs", 0.17, 1.92),
        ("Relative water depth h/Hs", "h/Hs", 1.22, 3.0), ("Stability number Ns", "Hs/((rho_armour/rho_water-1)*Dn50)", 1.58, 10.0),
        ("Buoyant density Delta", "rho_armour/rho_water-1", 1.65, 1.75), ("Foreshore slope m", "m", 0.02, 0.1), ("Damage parameter Nod", "Nod", 0.5, 3.79)], {}),
    "gerd": (TB + "gerding1993", "check_validity", "Gerding (1993)", [
        ("Relative toe height (h)", "ht/h", 0.4, 0.9), ("Relative toe height (Dn50)", "ht/Dn50", 3, 25)], {}),
    "taka": (TB + "takahashi1990_caisson", "check_validity", "Takahashi et al (1990)", [
        ("Stability number Ns", "Ns", 0, INF), ("Toe width Bt", "Bt", 0, INF)], {}),
    "vdm98": (TB + "vandermeer1998", "check_validity", "van der Meer (1998)", [
        ("Significant wave height Hs", "Hs", 0.01, 20), ("Relative toe height (h)", "ht/h", 0.4, 0.9), ("Relative toe height (Dn50)", "ht/Dn50", 3, 25),
        ("Nod vs Ns", "Nod**(-0.15)*Hs/(Delta*Dn50)", 2, INF)], {}),
    "vgvdw": (TB + "vangentvanderwerf2014", "check_validity", "van Gent & van der Werf (2014)", [
        ("Armour slope cot_alpha_armour_slope", "cot_alpha_armour_slope", 1.5, 4),
        ("Armour slope cot_alpha_armour_slope, closer to 1:4 more inaccuracies are found", "cot_alpha_armour_slope", 1.5, 2),
        ("Relative toe height tt/h", "tt/(ht+tt)", 0.1, 0.3), ("Relative water depth h/Hs", "(ht+tt)/Hs", 1.2, 4.5)], {}),
}
ALIAS = {"rr04": {"rho_w": "rho_water"}}
BOX = dict(Hm0=(0.02, 15.0), Hs=(0.005, 25.0), Hm0_HF=(0.02, 15.0), Hm0_LF=(0.005, 12.0), Hm0_deep=(0.02, 15.0), H2p=(0.02, 25.0),
           Tmm10=(0.5, 40.0), Tmm10_HF=(0.5, 40.0), Tp=(0.5, 40.0), Tm=(0.3, 40.0), Tmax=(-1.0, 40.0), h=(0.1, 60.0), ht=(0.1, 60.0), tt=(0.05, 20.0),
           cot_alpha=(0.5, 12.0), cot_alpha_down=(0.5, 9.0), cot_alpha_up=(0.5, 9.0), cot_phi=(1.0, 6.0), cot_alpha_armour_slope=(1.0, 6.0),
           m_foreshore_slope=(0.001, 0.2), m=(0.001, 0.2), seabed_slope_perc=(-5.0, 20.0), cota_seabed=(1.0, 200.0),
           Rc=(-10.0, 15.0), Ac=(0.1, 15.0), Rc_rear=(0.05, 15.0), Rc2_front=(-2.0, 8.0), Rc2_rear=(-2.0, 15.0), Gc=(0.05, 15.0), B_berm=(0.05, 40.0), db=(-15.0, 8.0),
           Dn50=(0.02, 6.0), Dn50_core=(-0.5, 6.0), theta=(-20.0, 80.0), beta=(-30.0, 120.0), gamma_b=(0.1, 1.5), gamma_f=(0.1, 1.5), gamma_beta=(0.1, 1.5), gamma_v=(0.1, 1.5),
           q_diml=(-0.001, 0.01), s0p=(-0.01, 0.15), ksi_0p=(0.1, 15.0), Kt=(0.0, 1.2), Hsi_over_h=(-0.1, 1.0), Rc_over_Hsi=(-5.0, 5.0), B=(0.05, 60.0), hc=(0.05, 20.0),
           tup=(-2.0, 30.0), Bup=(0.5, 40.0), h_s=(-5.0, 40.0), B1=(-3.0, 30.0), Fb=(-3.0, 10.0), N_waves=(-10.0, 25000.0), rho_armour=(1500.0, 3500.0), rho_water=(950.0, 1100.0),
           rho_rock=(1500.0, 3500.0), rho_w=(950.0, 1100.0), P=(0.01, 0.9), S=(0.1, 150.0), z1p=(0.05, 25.0), Bc=(0.05, 30.0), B_element=(0.05, 30.0), Bt=(-2.0, 20.0),
           Nod=(0.05, 8.0), Ns=(-5.0, 50.0), Delta=(0.5, 2.5))
FUN = ("s", "ksi", "L0")


def names(expr):
    """arguments of an expression, in a stable order"""
    seen = []
    for n in ast.walk(ast.parse(expr, mode="eval")):
        if isinstance(n, ast.Name) and n.id not in FUN and n.id not in seen:
            seen.append(n.id)
    return tuple(sorted(seen))


def env(M):
    g0 = 9.81

    def s(H, T):
        return 2 * M.pi * H / (g0 * T ** 2)

    def ksi(H, T, cot):
        return 1 / cot / M.np.sqrt(s(H, T))

    def L0(T):
        return g0 * T ** 2 / (2 * M.pi)
    return dict(s=s, ksi=ksi, L0=L0)


def value(M, expr, kw):
    return eval(compile(expr, "<limit>", "eval"), dict(env(M)), dict(kw))


def direct(expr):
    return expr.isidentifier()


def outside(M, expr, lo, hi, kw):
    """the judged value is outside the (inclusive) limits"""
    v = value(M, expr, kw)
    if not direct(expr):
        M.away((v, lo))
        if hi != INF:
            M.away((v, hi))
    if hi == INF:
        return v < lo
    return M.lor(v < lo, v > hi)
