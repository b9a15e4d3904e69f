"""Reference equations: toe berms and concrete armour units."""
from . import _spec as sp


def delta(rr, rw):
    return (rr - rw) / rw


# ------------------------------------------------------------------ toe berms
def ge_Nod(M, Hs, ht, Dn50, rho_rock, rho_water, h=None):
    Ns = Hs / (delta(rho_rock, rho_water) * Dn50)
    return M.np.power(Ns / (1.6 + 0.24 * ht / Dn50), 1 / 0.15)


def vm_Nod(M, Hs, ht, h, Dn50, rho_rock, rho_water):
    Ns = Hs / (delta(rho_rock, rho_water) * Dn50)
    return M.np.power(Ns / (2 + 6.2 * M.np.power(ht / h, 2.7)), 1 / 0.15)


def gw_u(M, Hs, Tmm10, ht, g=9.81):
    L0 = g * Tmm10 * Tmm10 / (2 * M.pi)
    return M.pi * Hs / (Tmm10 * M.np.sinh(2 * M.pi / L0 * ht))


def gw_Nod(M, Hm0, Tmm10, ht, Bt, tt, Dn50, rho_rock, rho_water, cot_alpha_armour_slope=None, g=9.81, c1=0.032, c2=0.3, c3=1, c4=3, c5=1):
    np = M.np
    u = gw_u(M, Hm0, Tmm10, ht, g)
    Ns = Hm0 / (delta(rho_rock, rho_water) * Dn50)
    return c1 * np.power(Bt / Hm0, c2) * np.power(tt / Hm0, c3) * np.power(Ns, c4) * np.power(u / np.sqrt(g * Hm0), c5)


def gw_D(M, Hm0, Tmm10, ht, Bt, tt, Nod, rho_rock, rho_water, cot_alpha_armour_slope=None, g=9.81):
    np = M.np
    u = gw_u(M, Hm0, Tmm10, ht, g)
    t = 1.0 / 3.0
    return 0.32 * Hm0 / delta(rho_rock, rho_water) * np.power(Bt / Hm0, 0.1) * np.power(tt / Hm0, t) * np.power(u / np.sqrt(g * Hm0), t) / np.power(Nod, t)


def es_Ns(M, Hs, Tmm10, h, ht, Bt, Nod, m, g=9.81, c1=1.2, c2=11.2, c3=1.75, c4=1.0 / 6.0, c5=0.4, c6=-0.1, c7=3.7):
    np = M.np
    s = sp.steep(M, Hs, Tmm10, g)
    return c1 + c2 * np.power(ht / h, c3) * np.power(s, c4) * np.power(Nod, c5) * np.power(Bt / Hs, c6) * (1 - c7 * m)


def tk_kappa(M, Tp, hacc, Bt, beta, g, L):
    np = M.np
    b = beta * M.pi / 180
    k = 2 * M.pi / L
    k1 = 2 * k * hacc / np.sinh(2 * k * hacc)
    p = k * Bt * np.cos(b)
    k2 = np.maximum(0.45 * np.sin(b) * np.sin(b) * np.cos(p) * np.cos(p), np.cos(b) * np.cos(b) * np.sin(p) * np.sin(p))
    return k1 * k2


def tk_Ns(M, Hs, hacc, kappa):
    np = M.np
    r = hacc / Hs
    k3 = np.power(kappa, 1.0 / 3.0)
    return np.maximum(1.8, 1.3 * (1 - kappa) / k3 * r + 1.8 * np.exp(-1.5 * (1 - kappa) * (1 - kappa) / k3 * r))


# ------------------------------------------------------------------ concrete armour
def cube_Ns(M, s, N, Nod):
    np = M.np
    return (6.7 * np.power(Nod, 0.4) / np.power(N, 0.3) + 1) / np.power(s, 0.1)


def seabed(M, cot):
    if cot <= 10:
        return 2.0
    if cot <= 15:
        return 1.5
    if cot <= 20:
        return 1.25
    if cot <= 30:
        return 1.1
    return 1.0


def graph(xs, ys, x):
    if x <= xs[0]:
        return ys[0]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            return ys[i - 1] + (ys[i] - ys[i - 1]) * (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return ys[-1]
