"""C01: crest freeboard and overtopping discharge formulas are inverse to each other."""
from ._lib import *
from . import _spec as sp

QF, RF = "calculate_overtopping_discharge_q", "calculate_crest_freeboard_Rc"


def first(r):
    return r[0] if isinstance(r, tuple) else r


def rt(name, mod, qf, rf, var, const=None, stubs=(), preq=None, prer=None, rc=RC, q=Q, dimless=False, noq=(), **okw):
    """two round trips.  noq: arguments the freeboard function does not take"""
    const = const or {}

    def split(kw):
        return {k: v for k, v in kw.items() if k not in noq}

    def h1(M):
        for a in stubs:
            M.stub_uf(*a)
        kw = dict(M.vars(**var), **const)
        x = M.var("q", *q)
        if preq:
            preq(M, q=x, **kw)
        y = first(M.fn(mod, rf)(q=x, **split(kw)))
        if prer:
            prer(M, Rc=y, **kw)
        z = first(M.fn(mod, qf)(Rc=y, **kw))
        M.check("q(Rc(q)) = q", M.eq(z, x, rtol=1e-6))

    def h2(M):
        for a in stubs:
            M.stub_uf(*a)
        kw = dict(M.vars(**var), **const)
        x = M.var("Rc", *rc)
        if prer:
            prer(M, Rc=x, **kw)
        y = first(M.fn(mod, qf)(Rc=x, **kw))
        # below the float range the logarithm of an underflowed discharge is meaningless
        M.assume(y > 1e-200)
        if preq:
            preq(M, q=y, **kw)
        z = first(M.fn(mod, rf)(q=y, **split(kw)))
        M.check("Rc(q(Rc)) = Rc", M.eq(z, x, rtol=1e-6))
    ob("C01", name + "/q-Rc-q", funcs=(mod + "." + qf, mod + "." + rf), **okw)(h1)
    ob("C01", name + "/Rc-q-Rc", funcs=(mod + "." + qf, mod + "." + rf), **okw)(h2)


SL = dict(Hm0=H, Tmm10=T, cot_alpha=COT)
CPS = dict(Hm0=H, Tmm10=T, cot_alpha_down=COT, cot_alpha_up=COT, B_berm=(0.0, 20.0), db=(-3.0, 3.0))
FAC = dict(gamma_beta=GBETA, gamma_b=GB, gamma_f=GF)
BETA = (-90.0, 90.0)


def up(M, q=None, Rc=None, Hm0=None, Tmm10=None, db=0.0, **k):
    M.assume(db <= 1.4 * Hm0)
    M.assume(db >= -1.4 * Hm0)
    M.assume(sp.steep(M, Hm0, Tmm10) <= 0.14)


# TAW 2002
m = OT + "taw2002"
for bf in (False, True):
    t = "bestfit" if bf else "design"
    rt("taw/" + t, m, QF, RF, dict(SL, **FAC, gamma_v=GV, g=G), dict(use_best_fit=bf))
    rt("taw/%s/composite" % t, m, QF, RF, dict(CPS, gamma_f=GF, beta=BETA), dict(use_best_fit=bf), stubs=Z2P + GBI + GBETAS, preq=up, prer=up)
    rt("taw/%s/berm" % t, m, QF, RF, dict(SL, gamma_f=GF, beta=BETA, B_berm=(0.0, 20.0), db=(-3.0, 3.0)), dict(use_best_fit=bf), stubs=Z2P + GBI + GBETAS)
for sg in (-1, 1, 2):
    rt("taw/sigma%d" % sg, m, QF, RF, dict(SL, **FAC), dict(use_best_fit=True, sigma=sg))

# EurOtop 2018
m = OT + "eurotop2018"


def realrc(M, q, Hm0, **k):
    """discharges for which the exponents have a real root (guaranteed when q came from a freeboard)"""
    M.assume(q <= 0.003 * M.np.sqrt(k.get("g", 9.81) * Hm0 * Hm0 * Hm0))
    if "cot_alpha" in k:
        M.assume(sp.steep(M, Hm0, k["Tmm10"]) <= 0.25)
    if "cot_alpha_down" in k:
        up(M, Hm0=Hm0, **k)


def postrc(M, Rc, Hm0, **k):
    if "cot_alpha_down" in k:
        up(M, Hm0=Hm0, **k)


for bf in (False, True):
    t = "bestfit" if bf else "design"
    rt("eurotop2018/" + t, m, QF, RF, dict(SL, **FAC, gamma_v=GV, gamma_star=(0.7, 1.0), g=G), dict(use_best_fit=bf), stubs=GFA, preq=realrc, prer=postrc)
    rt("eurotop2018/%s/beta" % t, m, QF, RF, dict(SL, gamma_b=GB, gamma_f=GF, beta=BETA), dict(use_best_fit=bf), stubs=GBETAS + GFA, preq=realrc, prer=postrc)
    rt("eurotop2018/rubble/" + t, m, QF + "_rubble_mound", RF + "_rubble_mound", dict(SL, gamma_beta=GBETA, gamma_f=GF, g=G), dict(use_best_fit=bf), preq=realrc, prer=postrc)
    rt("eurotop2018/rubble/%s/composite" % t, m, QF + "_rubble_mound", RF + "_rubble_mound", dict(CPS, beta=BETA, gamma_f=GF, g=G), dict(use_best_fit=bf),
       stubs=Z2P + GBETAS, preq=realrc, prer=postrc)
    rt("eurotop2007/" + t, OT + "eurotop2007", QF + "_rubble_mound", RF + "_rubble_mound", dict(SL, gamma_beta=GBETA, gamma_f=GF), dict(use_best_fit=bf))
rt("eurotop2018/coefficients", m, QF, RF, dict(SL, gamma_b=GB, gamma_beta=GBETA, c1=(1., 4.), c2=(.05, .5), c3=(.5, 3.), c4=(.01, .1)), dict(gamma_f=1.0), stubs=GFA,
   preq=lambda M, **k: (realrc(M, **k), M.assume(k["q"] <= 0.001 * M.np.sqrt(9.81 * k["Hm0"] ** 3))), prer=postrc)
rt("eurotop2007/beta", OT + "eurotop2007", QF + "_rubble_mound", RF + "_rubble_mound", dict(SL, beta=BETA, gamma_f=GF, c2=(.05, .5), c3=(1., 4.)), stubs=GBETAS)

# caisson, Van Gent 2021
m = OT + "vangent2021_caisson"
for c in (1.0, 1.3):
    for mode in ("short", "short_parapet", "long", "crossing", "crossing_parapet"):
        k = dict(c=c, short_crested_waves=not mode.startswith("long"), crossing_seas=mode.startswith("cross"), parapet=mode.endswith("parapet"))
        v = dict(Hm0=H, beta=(0.0, 75.0), g=G)
        if k["crossing_seas"]:
            v.update(Hm0_swell=(0.0, 1.0), c_swell=(0.1, 1.0))
        rt("vangent2021/%s/%s" % (c, mode), m, QF, RF, v, k,
           preq=lambda M, q, Hm0, g, c, **k: M.assume(q <= (0.2 if c == 1 else 0.047) * M.np.sqrt(g * Hm0 ** 3)) if c != 1 else None,
           prer=lambda M, Rc, **k: M.assume(Rc > k.get("c_swell", 0) * k.get("Hm0_swell", 0)) if k["c"] != 1 else None)
    rt("vangent2021/%s/gamma_beta" % c, m, QF, RF, dict(Hm0=H, gamma_beta=GBETA), dict(c=c),
       preq=lambda M, q, Hm0, **k: M.assume(q <= 0.047 * M.np.sqrt(9.81 * Hm0 ** 3)))

# De Ridder
SM = (0.004, 0.06)
for eq, y in ((24, 2024), (26, 2024), (28, 2026), (32, 2026)):
    v = dict(smm10_HF=SM, gamma_f=GF, g=G)
    v["Hm0_HF" if eq == 32 else "Hm0"] = H
    if eq in (26, 32):
        v["Hm0_LF"] = (0.0, 2.0)
    if y == 2026:
        v["theta"] = (-60.0, 60.0)
    rt("deridder%d/eq%d" % (y, eq), OT + "deridder%d" % y, "calculate_overtopping_discharge_q_eq%d" % eq, "calculate_crest_freeboard_discharge_q_eq%d" % eq, v)

# Van Gent et al. 2025 (without wind)
m = OT + "vangent2025"
base = dict(Hm0=H, Hm0_swell=(0.0, 2.0), Tmm10=T, Ac=(0.1, 10.0), cot_alpha=COT, gamma_v=(1.0, 1.45))
for des in (True, False):
    t = "design" if des else "mean"
    rt("vangent2025/" + t, m, QF, RF, dict(base, gamma_f=GF, gamma_b=GB, gamma_beta=GBETA), dict(design_calculation=des))
    pr = lambda M, **k: (M.assume(k["Dn50"] <= 5 * k["Hm0"]), M.assume(k["db"] < k["Ac"]))
    rt("vangent2025/%s/computed" % t, m, QF, RF, dict(base, beta=(0.0, 75.0), Dn50=DN, B_berm=(0.01, 20.0), db=(-3.0, 3.0)), dict(design_calculation=des),
       stubs=((m, "calculate_influence_friction_gamma_f"), (m, "calculate_influence_berm_gamma_b"), (m, "calculate_influence_oblique_waves_gamma_beta")), preq=pr, prer=pr)
