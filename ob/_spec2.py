"""Reference equations, structural part: rock armour and rear-side rock."""
from . import _spec as sp

steep, irib = sp.steep, sp.irib


def dn(M, kw, rho="rho_armour", d="Dn50", m="M50"):
    """nominal diameter from whichever of diameter / mass was given"""
    if d in kw:
        return kw[d]
    return M.np.power(kw[m] / kw.get(rho, 2650), 1.0 / 3.0)


# ------------------------------------------------------------------ Hudson
def hudson_M50(M, Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27, f=1):
    D = (rho_armour - rho_water) / rho_water
    return rho_armour * (alpha_Hs * Hs / (D * f)) ** 3 / (KD * cot_alpha)


def hudson_Hs(M, M50, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27, f=1):
    D = (rho_armour - rho_water) / rho_water
    return f * D / alpha_Hs * M.np.power(KD * cot_alpha * M50 / rho_armour, 1.0 / 3.0)


BANDS = ((5, 1.0, 1.0), (10, 1.08, 1.08), (15, 1.14, 1.19), (20, 1.20, 1.27), (30, 1.29, 1.37), (40, 1.41, 1.47))


def hudson_factor(M, damage_percentage, rock_type="rough"):
    for top, r, s in BANDS:
        if damage_percentage < top:
            return r if rock_type == "rough" else s
    return 1.54 if rock_type == "rough" else 1.56


# ------------------------------------------------------------------ Van der Meer family
def gamma_N(M, N):
    np = M.np
    if N < 1000:
        return np.sqrt(1000 / N)
    if N > 5000:
        return np.sqrt(N / 5000) / (1.3 * (1 - np.exp(-0.00031 * N)))
    return 1


def vdm_plunging(M, ksi, cot, P, cpl, cs):
    """True: plunging formula applies"""
    np = M.np
    kc = np.power(cpl / cs * np.power(P, 0.31) * np.sqrt(1 / cot), 1 / (P + 0.5))
    M.away((ksi, kc))
    return (ksi < kc) | (cot >= 4)


def vdm_stab(M, plunging, ksi, cot, P, cpl, cs):
    """H2%/(Delta Dn50) / (S gamma_N / sqrt N)^0.2"""
    np = M.np
    if plunging:
        return cpl * np.power(P, 0.18) / np.sqrt(ksi)
    return cs * np.power(P, -0.13) * np.sqrt(cot) * np.power(ksi, P)


def vdm_S(M, Hs, H2p, T, N, cot, P, Dn, rr, rw, cpl, cs, gN):
    ksi = irib(M, Hs, T, cot)
    k = vdm_stab(M, vdm_plunging(M, ksi, cot, P, cpl, cs), ksi, cot, P, cpl, cs)
    Ns = H2p / (sp.delta(rr, rw) * Dn)
    return (Ns / k) ** 5 * M.np.sqrt(N) / gN


def vdm_D(M, Hs, H2p, T, N, cot, P, S, rr, rw, cpl, cs, gN):
    ksi = irib(M, Hs, T, cot)
    k = vdm_stab(M, vdm_plunging(M, ksi, cot, P, cpl, cs), ksi, cot, P, cpl, cs)
    return H2p / sp.delta(rr, rw) / k / M.np.power(gN * S / M.np.sqrt(N), 0.2)


def vdm1988_S(M, Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, c_pl=8.7, c_s=1.4, rho_water=1025.0, gN=None, **d):
    return vdm_S(M, Hs, H2p, Tm, N_waves, cot_alpha, P, dn(M, dict(d, rho_armour=rho_armour)), rho_armour, rho_water, c_pl, c_s,
                 gamma_N(M, N_waves) if gN is None else gN)


def vdm1988_D(M, Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, S, c_pl=8.7, c_s=1.4, rho_water=1025.0):
    return vdm_D(M, Hs, H2p, Tm, N_waves, cot_alpha, P, S, rho_armour, rho_water, c_pl, c_s, gamma_N(M, N_waves))


def vdmm_S(M, Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, c_pl=8.4, c_s=1.3, rho_water=1025.0, **d):
    return vdm_S(M, Hs, H2p, Tmm10, N_waves, cot_alpha, P, dn(M, dict(d, rho_armour=rho_armour)), rho_armour, rho_water, c_pl, c_s, 1)


def vdmm_D(M, Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl=8.4, c_s=1.3, rho_water=1025.0):
    return vdm_D(M, Hs, H2p, Tmm10, N_waves, cot_alpha, P, S, rho_armour, rho_water, c_pl, c_s, 1)


def vdm21_S(M, Hs, c_pl=6.49, c_s=0.97, c_pl_mult=1, c_s_mult=1, **k):
    return vdmm_S(M, Hs=Hs, H2p=Hs, c_pl=c_pl * c_pl_mult, c_s=c_s * c_s_mult, **k)


def vdm21_D(M, Hs, c_pl=6.49, c_s=0.97, c_pl_mult=1, c_s_mult=1, **k):
    return vdmm_D(M, Hs=Hs, H2p=Hs, c_pl=c_pl * c_pl_mult, c_s=c_s * c_s_mult, **k)


# ------------------------------------------------------------------ Etemad-Shahidi 2020
def es_Cp(M, Dn50, Dn50_core):
    return M.np.power(1 + M.np.power(Dn50_core / Dn50, 0.3), 0.6)


def es_stab(M, ksi, N, cp, depth):
    """Ns / S^(1/6)"""
    np = M.np
    M.away((ksi, 1.8))
    if ksi >= 1.8:
        return 3.9 * cp * np.power(N, -0.1) * np.power(ksi, -1.0 / 3.0) * depth
    return 4.5 * cp * np.power(N, -0.1) * np.power(ksi, -7.0 / 12.0) * depth


def es_S(M, Hs, Tmm10, N_waves, cot_alpha, rho_armour, rho_water=1025.0, m=None, use_depth_limited_version=False, **d):
    D, Dc = dn(M, dict(d, rho_armour=rho_armour)), dn(M, d, "rho_core", "Dn50_core", "M50_core")
    k = es_stab(M, irib(M, Hs, Tmm10, cot_alpha), N_waves, es_Cp(M, D, Dc), 1 - 3 * m if use_depth_limited_version else 1)
    return (Hs / (sp.delta(rho_armour, rho_water) * D) / k) ** 6


# ------------------------------------------------------------------ Jumelet 2024
def ju_Np(M, ksi, N):
    return M.np.round((-1.7 * ksi * ksi + 3.2 * ksi - 0.5) * N)


def ju_S(M, Hs, Tmm10, N_waves, cot_alpha, rho_armour, c_pl=4.3, rho_water=1025.0, **d):
    ksi = irib(M, Hs, Tmm10, cot_alpha)
    Ns = Hs / (sp.delta(rho_armour, rho_water) * dn(M, dict(d, rho_armour=rho_armour)))
    return (Ns * ksi * M.np.power(ju_Np(M, ksi, N_waves), 0.1) / c_pl) ** 5


def ju_D(M, Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, c_pl=4.3):
    ksi = irib(M, Hs, Tmm10, cot_alpha)
    return Hs / sp.delta(rho_armour, 1025) * ksi * M.np.power(ju_Np(M, ksi, N_waves), 0.1) / (c_pl * M.np.power(S, 0.2))


# ------------------------------------------------------------------ Kramer & Burcharth 2004
def kb_Hs(M, Rc, rho_armour, **d):
    D = dn(M, dict(d, rho_armour=rho_armour))
    x = Rc / D
    return (1.36 - 0.23 * x + 0.06 * x * x) * sp.delta(rho_armour, 1025) * D


# ------------------------------------------------------------------ Scaravaglione 2025
def sc_S(M, Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, c_VGnew=3.3, rho_water=1025.0, **d):
    np = M.np
    D, Dc = dn(M, dict(d, rho_armour=rho_armour)), dn(M, dict(d, rho_core=rho_core), "rho_core", "Dn50_core", "M50_core")
    Ns = Hm0 / (sp.delta(rho_armour, rho_water) * D)
    return (Ns / (c_VGnew * np.sqrt(cot_alpha) * (1 + Dc / D) * np.power(steep(M, Hm0, Tmm10), 0.1))) ** 5 * np.sqrt(N_waves)


def sc_D(M, Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, c_VGnew=3.3, rho_water=1025.0, **d):
    np = M.np
    Dc = dn(M, dict(d, rho_core=rho_core), "rho_core", "Dn50_core", "M50_core")
    return Hm0 / sp.delta(rho_armour, rho_water) / (c_VGnew * np.sqrt(cot_alpha) * np.power(steep(M, Hm0, Tmm10), 0.1)
                                                    * np.power(S / np.sqrt(N_waves), 0.2)) - Dc


# ------------------------------------------------------------------ rear side
def z1p(M, Hs, Tmm10, gamma, cot_alpha):
    return sp.runup_vangent2001(M, Hs=Hs, Tmm10=Tmm10, gamma=gamma, cot_alpha=cot_alpha)


def rear07_S(M, z, cot_phi, Hs, Rc, Rc2_front, Rc2_rear, N_waves, D):
    np = M.np
    return (0.00025 * np.power(cot_phi, 1.25) * ((z - Rc) / D) ** 2 * np.sqrt(Rc / D)
            * (1 + 5 * Rc2_rear / (Rc - Rc2_rear)) / (1 + Rc2_front / Hs) * np.sqrt(N_waves))


def rear07_D(M, z, cot_phi, Hs, Rc, Rc2_front, Rc2_rear, N_waves, S):
    np = M.np
    return (0.036 * np.sqrt(cot_phi) * np.power(z - Rc, 0.8) * np.power(Rc, 0.2)
            * np.power((1 + 5 * Rc2_rear / (Rc - Rc2_rear)) / (1 + Rc2_front / Hs) * np.sqrt(N_waves) / S, 0.4))


def vel(M, Hs, zXp, Rc, Bc, gamma_f, gamma_f_Crest, cu1=1.7, cu2=0.1, g=9.81):
    np = M.np
    return cu1 * np.sqrt(g * gamma_f_Crest * (zXp - Rc) / gamma_f) / (1 + cu2 * Bc / Hs)


def rear04_S(M, z, cot_phi, gamma_f, gamma_f_Crest, Hs, Tmm10, Rc, Rc_rear, Bc, N_waves, D, rho_rock, rho_water=1025.0, cs=0.008 ** 6):
    np = M.np
    u = vel(M, Hs, z, Rc, Bc, gamma_f, gamma_f_Crest)
    return cs * (u * Tmm10 / D) ** 6 / sp.delta(rho_rock, rho_water) ** 3 * np.power(cot_phi, -2.5) * (1 + 10 * np.exp(-Rc_rear / Hs)) * np.sqrt(N_waves)


def rear04_D(M, z, cot_phi, gamma_f, gamma_f_Crest, S, Hs, Tmm10, Rc, Rc_rear, Bc, rho_rock, N_waves, rho_water=1025.0, cs=0.008 ** 6):
    np = M.np
    u = vel(M, Hs, z, Rc, Bc, gamma_f, gamma_f_Crest)
    return u * Tmm10 / np.sqrt(sp.delta(rho_rock, rho_water)) * np.power(
        cs * np.power(cot_phi, -2.5) * (1 + 10 * np.exp(-Rc_rear / Hs)) * np.sqrt(N_waves) / S, 1.0 / 6.0)
