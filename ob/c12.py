"""C12 - bounds of the results"""
from ob._mono import *

P_ = "C12"


def bounds(key, lo=0.0, hi=None, comp=0, pre=None, box=None, const=None, name=None, tier="quick", free=(), lax=True):
    item = CAT[key]

    def h(M):
        kw = M.vars(**dict(item.var, **(box or {})))
        for fr in free:
            M.free(*fr)
        for p in (item.pre, pre):
            if p:
                p(M, **kw)
        r = M.item(item.results(M, dict(kw, **(const or {})))[comp])
        M.check("finite", M.finite(r))
        if lo is not None:
            M.check("lower bound", M.ge(r, lo(M, **kw) if callable(lo) else lo))
        if hi is not None:
            M.check("upper bound", M.le(r, hi(M, **kw) if callable(hi) else hi))
    ob(P_, (name or key) + ("" if comp == 0 else "/%d" % comp), funcs=item.funcs, tier=tier, lax=lax)(h)


def ksi_(M, Hm0, Tmm10, cot_alpha, **k):
    return sp.irib(M, Hm0, Tmm10, cot_alpha)


def qcap(c2, c3, p=1.0, star=False):
    """the maximum equation, as a discharge"""
    def hi(M, Hm0, Rc, gamma_beta, gamma_f, gamma_b=1.0, gamma_star=1.0, **k):
        ga = sp.gamma_f_adj(M, gamma_f, gamma_b, ksi_(M, Hm0, **k))
        y = c3 * Rc / (Hm0 * ga * gamma_beta * gamma_star)
        return c2 * M.np.exp(-(y ** p if p != 1 else y)) * M.np.sqrt(9.81 * Hm0 * Hm0 * Hm0)
    return hi


def zcap(c2, c3, c4):
    def hi(M, Hm0, gamma_beta, gamma_f, gamma_b, **k):
        ksi = ksi_(M, Hm0, **k)
        return c4 * sp.gamma_f_adj(M, gamma_f, gamma_b, ksi) * gamma_beta * (c2 - c3 / M.np.sqrt(ksi)) * Hm0
    return hi


def flat(c):
    def hi(M, Hm0, **k):
        return c * M.np.sqrt(9.81 * Hm0 * Hm0 * Hm0)
    return hi


HI = {"q/taw2002": qcap(0.2, 2.3), "q/taw2002/bestfit": qcap(0.2, 2.6),
      "q/eurotop2018": qcap(0.1035, 1.35, 1.3), "q/eurotop2018/bestfit": qcap(0.09, 1.5, 1.3),
      "q/rubble2007": flat(0.2), "q/rubble2007/bestfit": flat(0.2), "q/rubble2018": flat(0.1035), "q/rubble2018/bestfit": flat(0.09),

      "runup/taw2002": zcap(4.3, 1.6, 1.0), "runup/taw2002/bestfit": zcap(4.0, 1.5, 1.0),
      "runup/eurotop2018": zcap(4.3, 1.5, 1.07), "runup/eurotop2018/bestfit": zcap(4.0, 1.5, 1.0)}
for o in ("", "/short_crested_waves", "/crossing_seas"):
    HI["q/caisson2021" + o] = flat(0.2)
# (lower, upper) limits of coefficients and influence factors
FIX = {"Kt/dangremond/permeable": (0.075, 0.8), "Kt/dangremond/impermeable": (0.075, 0.8), "Kt/goda": (0.0, 1.0),
       "Kt/briganti": (0.05, 0.93), "runup/gamma_b": (0.6, 1.0), "runup/gamma_beta": (0.824, 1.0), "ot/gamma_beta": (0.736, 1.0),
       "runup/gamma_beta18": (0.4, 1.0), "ot/gamma_beta18": (0.4, 1.0), "vg25/gamma_beta": (0.35, 1.0), "taw/gamma_v": (0.648, 1.0),
       "vg25/gamma_v": (None, lambda M, cot_alpha, **k: 1.0 + M.np.maximum(0.45, 0.1125 * cot_alpha)), "vg25/gamma_b": (None, None), "vg25/gamma_w": (1.0, None), "vg25/gamma_f": (None, 1.0),
       "runup/gamma_f_adj": (lambda M, gamma_f, **k: gamma_f, 1.0)}
for st in ("impermeable", "permeable", "perforated", "perforated_with_screen", "perforated_with_perforated_screen"):
    FIX["Kt/vangent2023/" + st] = (0.0, 1.0)
# results without a physical lower bound, or outside the domain of an inverse (see DESIGN.md)
FREE = {"runup/average-slope", "jumelet/Fp", "scaravaglione/Dn50", "gerding1993/Dn50"}
SKIP = {"q/vangent2025/factors", "goda/pressures", "takahashi/Ns", "takahashi/Dn50", "runup/taw2002/beta", "runup/eurotop2018/beta"}
for k, it in CAT.items():
    if k in SKIP:
        continue
    lo, hi = FIX.get(k, (None if k in FREE or k.startswith("Rc/") else 0.0, HI.get(k)))
    kw = dict(pre=steep) if k.startswith(("runup/taw", "runup/eurotop")) else {}
    if k == "q/caisson2021/crossing_seas":
        kw = dict(pre=lambda M, Rc, Hm0_swell, **k: M.assume(Rc >= 0.5 * Hm0_swell))
    for i, o in enumerate(it.out):
        if o is not None:
            bounds(k, lo, hi, comp=i, **kw)
