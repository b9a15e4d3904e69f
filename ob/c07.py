"""C07: wave forces on caissons (Goda) and crest walls equal their published equations."""
from ._lib import *
from . import _spec as sp

P_ = "C07"
m = FC + "goda1985"
LW = ((CP, "calculate_local_wavelength"),)
GV_ = dict(HD=(0.5, 20.), Hsi=(0.5, 12.), Tmax=(3., 25.), h_s=(2., 40.), d=(1., 38.), B1=(0.5, 40.), cota_seabed=(5., 200.),
           rho_water=RW, hacc=(1., 40.), Rc=(0.2, 20.), Bup=(2., 50.))


def goda(M, HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, offshore_wave_steepness=None, g=9.81):
    """Goda pressure formulae"""
    np = M.np
    ab = np.abs(beta)
    cb = np.cos((ab - 15) * M.pi / 180) if ab >= 15 else 1
    L = M.fn(*LW[0])(T=Tmax, h=h_s, g=g)
    hb = h_s + 5 * Hsi / cota_seabed
    eta = 0.75 * (1 + cb) * HD
    kh = 2 * M.pi * h_s / L
    q = 2 * kh / np.sinh(2 * kh)
    a1 = 0.6 + 0.5 * q * q
    a2 = np.minimum((hb - d) / (3 * hb) * (HD / d) * (HD / d), 2 * d / HD)
    a3 = 1 - hacc / h_s * (1 - 1 / np.cosh(kh))
    w = rho_water * g
    p1 = 0.5 * (1 + cb) * (a1 + a2 * cb * cb) * w * HD
    p2 = p1 / np.cosh(kh)
    p3 = a3 * p1
    M.away((eta, Rc))
    p4 = p1 * (1 - Rc / eta) if eta > Rc else 0
    hc = np.minimum(eta, Rc)
    pu = 0.5 * (1 + cb) * a1 * a3 * w * HD
    FH = (p1 + p3) * hacc / 2 + (p1 + p4) * hc / 2
    MH = (2 * p1 + p3) * hacc * hacc / 6 + (p1 + p4) * hacc * hc / 2 + (p1 + 2 * p4) * hc * hc / 6
    FU = pu * Bup / 2
    MU = FU * Bup * 2 / 3
    return dict(FH=FH, FU=FU, MH=MH, MU=MU, p1=p1, p2=p2, p3=p3, p4=p4, hstar_c=hc, pu=pu, h_5Hs=hb, etastar=eta, L=L, alpha1=a1, alpha2=a2, alpha3=a3)


ORDER = ("FH", "FU", "MH", "MU", "p1", "p2", "p3", "p4", "hstar_c", "pu", "h_5Hs", "etastar", "L", "alpha1", "alpha2", "alpha3")
NOIMP = ((m, "check_impulsive_breaking"),)


def no_imp(M):
    M.patch(m, "check_impulsive_breaking", lambda real: (lambda *a, **k: False))


for t, beta, extra in (("/frontal", (0., 15.), {}), ("/oblique", (15., 80.), {}), ("/negative", (-80., 0.), {}), ("/g", (0., 40.), dict(g=G))):
    def h(M, beta=beta, extra=extra):
        for a in LW:
            M.stub_uf(*a)
        no_imp(M)
        kw = M.vars(**dict(GV_, beta=beta, **extra))
        r = M.fn(m, "calculate_pressures_and_forces")(**kw)
        e = goda(M, **kw)
        for i, k in enumerate(ORDER):
            M.check(k, M.eq(r[i], e[k]))
    ob(P_, "goda/pressures" + t, funcs=(m + ".calculate_pressures_and_forces",))(h)


@ob(P_, "goda/pressures/dict", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    for a in LW:
        M.stub_uf(*a)
    no_imp(M)
    kw = M.vars(**dict(GV_, beta=(0., 60.), g=G))
    r = M.fn(m, "calculate_pressures_and_forces")(return_dict=True, **kw)
    t = M.fn(m, "calculate_pressures_and_forces")(**kw)
    for i, k in enumerate(ORDER):
        M.check(k, M.eq(r[k], t[i]))
    for k in ("HD", "Hsi", "Tmax", "beta", "h_s", "d", "cota_seabed", "rho_water", "hacc", "Rc", "Bup", "g"):
        M.check("echo " + k, M.eq(r[k], kw[k]))


IB = dict(beta=(0., 60.), B1=(0.1, 40.), L=(10., 300.), cota_seabed=(5., 200.), offshore_wave_steepness=(0.002, 0.08), Rc=(0.05, 10.), Hsi=(0.3, 10.), d=(0.5, 30.), h_s=(1., 40.))


def imp(M, b, B1, L, Rc, Hsi, cota_seabed=None, offshore_wave_steepness=None, d=None, h_s=None):
    r = B1 / L
    M.away((r, 0.02), (r, 0.3), (Rc / Hsi, 0.3))
    base = (b < 20) & (Rc / Hsi > 0.3)
    c1 = c2 = False
    if cota_seabed is not None and offshore_wave_steepness is not None:
        c1 = base & (r < 0.02) & (cota_seabed < 50) & (offshore_wave_steepness < 0.03)
    if d is not None:
        M.away((d / h_s, 0.6))
        c2 = base & (r > 0.02) & (r < 0.3) & (d / h_s < 0.6)
    return c1, c2


for t, keys in (("all", tuple(IB)), ("no-steepness", ("beta", "B1", "L", "Rc", "Hsi", "d", "h_s", "cota_seabed")), ("no-mound", ("beta", "B1", "L", "Rc", "Hsi", "cota_seabed", "offshore_wave_steepness"))):
    def h(M, keys=keys):
        kw = M.vars(**{k: IB[k] for k in keys})
        r = M.fn(m, "check_impulsive_breaking")(**kw)
        c1, c2 = imp(M, kw["beta"], **{k: v for k, v in kw.items() if k != "beta"})
        M.check("flag", M.iff(M.truth1(r), M.lor(c1, c2)))
    ob(P_, "goda/impulsive/" + t, funcs=(m + ".check_impulsive_breaking",))(h)

for st in (True, False):
    @ob(P_, "goda/impulsive-flag" + ("" if st else "/no-steepness"), funcs=(m + ".calculate_pressures_and_forces", m + ".check_impulsive_breaking"))
    def _(M, st=st):
        for a in LW:
            M.stub_uf(*a)
        # a small wave on a high wall: the pressure branches are decided by their own obligations
        kw = M.vars(**dict(GV_, HD=(.5, .6), Rc=(1., 20.), beta=(-40., -15.5) if st else (15.5, 40.), **(dict(offshore_wave_steepness=(.002, .08)) if st else {})))
        L = M.fn(*LW[0])(T=kw["Tmax"], h=kw["h_s"], g=9.81)
        r = M.fn(m, "calculate_pressures_and_forces")(**kw)
        k = {a: kw[a] for a in ("B1", "Rc", "Hsi", "cota_seabed", "d", "h_s", "offshore_wave_steepness") if a in kw}
        c1, c2 = imp(M, M.np.abs(kw["beta"]), L=L, **k)
        M.check("flag", M.iff(M.truth1(r[16]), M.lor(c1, c2)))

eqob(P_, "goda/Wup", m, "calculate_Wup", dict(hacc=(1., 40.), Rc=(.2, 20.), Bup=(2., 50.), rho_fill_below_SWL=(1500., 2600.), rho_water=RW, rho_fill_above_SWL=(1500., 2600.), g=G),
     lambda M, hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL, g: g * Bup * (hacc * (rho_fill_below_SWL - rho_water) + Rc * rho_fill_above_SWL))
eqob(P_, "goda/Wup/default-g", m, "calculate_Wup", dict(hacc=(1., 40.), Rc=(.2, 20.), Bup=(2., 50.), rho_fill_below_SWL=(1500., 2600.), rho_water=RW, rho_fill_above_SWL=(1500., 2600.)),
     lambda M, hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL: 9.81 * Bup * (hacc * (rho_fill_below_SWL - rho_water) + Rc * rho_fill_above_SWL))
F_, MO, W_ = (1e3, 1e7), (1e3, 1e9), (1e4, 1e8)
eqob(P_, "goda/safety", m, "calculate_safety_factors", dict(FU=F_, FH=F_, Wup=W_, muf=(.2, 1.), tup=(1., 40.), MH=MO, MU=MO),
     lambda M, FU, FH, Wup, muf, tup, MH, MU: (muf * (Wup - FU) / FH, (Wup * tup - MU) / MH))


def bear(M, Wup, tup, MH, MU, FU, Bup):
    Me = Wup * tup - MU - MH
    We = Wup - FU
    te = Me / We
    M.away((te, Bup / 3))
    pe = 2 * We / (3 * te) if te <= Bup / 3 else 2 * We / Bup * (2 - 3 * te / Bup)
    return pe, Me, We, te


def bpre(M, Wup, tup, MH, MU, FU, Bup):
    M.assume(Wup > FU * 1.001)
    M.assume(Wup * tup > 1.001 * (MU + MH))


eqob(P_, "goda/bearing", m, "calculate_bearing_pressures", dict(FU=F_, Wup=W_, tup=(1., 40.), MH=MO, MU=MO, Bup=(2., 50.)), bear, pre=bpre)

# the combined function: the parts are stubbed, so the wiring is what is decided
PF = (m, "calculate_pressures_and_forces")
for t, extra in (("", {}), ("/options", dict(rho_fill_above_SWL=(1500., 2600.), rho_fill_below_SWL=(1500., 2600.), muf=(.2, 1.), tup_over_Bup=(.3, .7), g=G, offshore_wave_steepness=(.002, .08)))):
    for dic in (False, True):
        def h(M, extra=extra, dic=dic):
            M.stub_uf(*PF, outs=(True,) * 16 + (None,))
            kw = M.vars(**dict(GV_, beta=(0., 60.), **extra))
            pkw = {k: v for k, v in kw.items() if k not in ("rho_fill_above_SWL", "rho_fill_below_SWL", "muf", "tup_over_Bup")}
            p = M.fn(*PF)(**pkw)
            FH, FU, MH, MU = p[0], p[1], p[2], p[3]
            tup = kw.get("tup_over_Bup", 0.5) * kw["Bup"]
            Wup = kw.get("g", 9.81) * kw["Bup"] * (kw["hacc"] * (kw.get("rho_fill_below_SWL", 2100) - kw["rho_water"]) + kw["Rc"] * kw.get("rho_fill_above_SWL", 2400))
            M.assume(Wup > FU * 1.001)
            M.assume(Wup * tup > 1.001 * (MU + MH))
            pe, Me, We, te = bear(M, Wup, tup, MH, MU, FU, kw["Bup"])
            r = M.fn(m, "calculate_forces_and_reactions")(return_dict=dic, **kw)
            ss, so = kw.get("muf", 0.6) * (Wup - FU) / FH, (Wup * tup - MU) / MH
            if dic:
                e = dict(zip(ORDER, p))
                e.update(SF_overturning=so, SF_sliding=ss, tup=tup, Wup=Wup, te=te, We=We, Me=Me, pe=pe)
                for k in ("HD", "Hsi", "Tmax", "beta", "h_s", "d", "cota_seabed", "rho_water", "hacc", "Rc"):
                    e[k] = kw[k]
                e["B_up"] = kw["Bup"]
                for k, v in e.items():
                    M.check(k, M.eq(r[k], v))
            else:
                for k, x, y in zip(("FH", "FU", "MH", "MU", "p1", "pe", "pu", None, "SF_sliding", "SF_overturning"), r, (FH, FU, MH, MU, p[4], pe, p[9], None, ss, so)):
                    if k:
                        M.check(k, M.eq(x, y))
        ob(P_, "goda/reactions" + t + ("/dict" if dic else ""), funcs=(m + ".calculate_forces_and_reactions",))(h)


for flag in (True, False):
    @ob(P_, "goda/reactions/impulsive/%s" % flag, funcs=(m + ".calculate_forces_and_reactions",))
    def _(M, flag=flag):
        # the flag of the pressure calculation is passed on unchanged
        M.patch(m, "calculate_pressures_and_forces", lambda real: (lambda *a, **k: (1.,) * 16 + (flag,)))
        kw = M.vars(**dict(GV_, beta=(0., 40.), offshore_wave_steepness=(.002, .08)))
        M.assume(9.81 * kw["Bup"] * (kw["hacc"] * (2100 - kw["rho_water"]) + kw["Rc"] * 2400) > 1000)
        M.check("flag", M.iff(M.truth1(M.fn(m, "calculate_forces_and_reactions")(**kw)[7]), flag))
        M.check("flag in dict", M.iff(M.truth1(M.fn(m, "calculate_forces_and_reactions")(return_dict=True, **kw)["impulsive_breaking"]), flag))


# ---- crest wall
w = CW + "vangentvanderwerf2019"
ZX = ((RU + "vangent2001", "calculate_wave_runup_height_zXp"),)
HM = dict(Hm0=(.3, 10.), Tmm10=(3., 25.), cot_alpha=COT, Ac=(.2, 10.))


def cosd(M, b):
    return M.np.cos(b * M.pi / 180)


def gF(M, z2p, Ac, beta, gamma_A):
    c = cosd(M, beta)
    return ((0.5 * c * c + 0.5) * z2p - gamma_A * Ac) / (z2p - gamma_A * Ac)


def zp(lo):
    def f(M, z2p, Ac, **k):
        ga = k.get("gamma_A", lo)
        M.assume(z2p > 1.001 * ga * Ac)
    return f


ZV = dict(z2p=(.1, 25.), Ac=(.2, 10.), beta=(0., 80.))
eqob(P_, "crestwall/gamma_F", w, "calculate_influence_oblique_waves_force_gamma_F_beta", dict(ZV, gamma_A=(.5, 1.)), gF, pre=zp(1.0))
for nm, d in (("horizontal", 1.0), ("vertical", 0.75)):
    fn = "calculate_influence_oblique_waves_%s_force_gamma_F%s_beta" % (nm, nm[0].upper())
    eqob(P_, "crestwall/gamma_F/" + nm, w, fn, ZV, lambda M, z2p, Ac, beta, d=d: gF(M, z2p, Ac, beta, d), pre=zp(d))
    eqob(P_, "crestwall/gamma_F/%s/gamma_A" % nm, w, fn, dict(ZV, gamma_A=(.5, 1.)), gF, pre=zp(d))
for t, e in (("", {}), ("/c_beta", dict(c_beta=(0., 1.)))):
    eqob(P_, "crestwall/gamma_beta" + t, w, "calculate_influence_oblique_waves_gamma_beta", dict(beta=(0., 90.), **e), lambda M, beta, c_beta=0.5: (1 - c_beta) * cosd(M, beta) * cosd(M, beta) + c_beta)


def FH(M, z2p, Ac, Hwall, rho_water=1025.0, g=9.81, cFH=1.0, **k):
    M.away((z2p, Ac))
    return M.np.maximum(cFH * rho_water * g * Hwall * (z2p - Ac), 0)


def FV(M, z2p, Ac, Bwall, Fb, cFV=0.4, cFb=0.5, rho_water=1025.0, g=9.81, **k):
    M.away((z2p, 0.75 * Ac), (Fb, Ac))
    return M.np.maximum(cFV * rho_water * g * Bwall * (z2p - 0.75 * Ac) * (1 - M.np.power(Fb / Ac, cFb)), 0)


hx = dict(Rc=(.2, 15.), Hwall=(.3, 8.))
vx = dict(Bwall=(1., 20.), Fb=(.01, 10.))
opts = dict(rho_water=RW, g=G)
eqob(P_, "crestwall/FH-z2p", w, "calculate_FH2p_perpendicular_from_z2p", dict(hx, Hm0=(.3, 10.), z2p=(.1, 25.), Ac=(.2, 10.)), lambda M, **k: FH(M, **k))
eqob(P_, "crestwall/FH-z2p/options", w, "calculate_FH2p_perpendicular_from_z2p", dict(hx, Hm0=(.3, 10.), z2p=(.1, 25.), Ac=(.2, 10.), cFH=(.5, 2.), **opts), lambda M, **k: FH(M, **k))
VZ = dict(vx, z2p=(.1, 25.), Ac=(.2, 10.))
low = lambda M, z2p, Ac, Fb, **k: M.assume((z2p >= 0.75 * Ac) | (Fb <= Ac))
eqob(P_, "crestwall/FV-z2p", w, "calculate_FV2p_perpendicular_from_z2p", VZ, FV, pre=low)
eqob(P_, "crestwall/FV-z2p/options", w, "calculate_FV2p_perpendicular_from_z2p", dict(VZ, cFV=(.2, 1.), cFb=(.2, 1.), **opts), FV, pre=low)


def chain(M, core, gam, gamma_A, kw):
    z = M.fn(*ZX[0])(H=kw["Hm0"], Tmm10=kw["Tmm10"], cot_alpha=kw["cot_alpha"], gamma=gam, c0=kw.get("c0", 1.45), c1=kw.get("c1", 5.0))
    f = core(M, z, **{k: v for k, v in kw.items() if k not in ("Hm0", "Tmm10", "cot_alpha", "beta", "gamma_beta", "gamma_f", "c0", "c1")})
    if "beta" in kw:
        M.assume(z > 1.001 * gamma_A * kw["Ac"])
        f = M.np.maximum(f * gF(M, z, kw["Ac"], kw["beta"], gamma_A), 0)
    return f


RUO = dict(gamma_beta=GBETA, gamma_f=GF, c0=(1., 2.), c1=(3., 6.))
for d, core, x, gA, coef in (("FH", FH, hx, 1.0, dict(cFH=(.5, 2.))), ("FV", FV, vx, 0.75, dict(cFV=(.2, 1.), cFb=(.2, 1.)))):
    for ang in ("perpendicular", "oblique"):
        for t, e in (("", {}), ("/run-up", RUO), ("/options", dict(opts, **coef))):
            def h(M, d=d, core=core, x=x, gA=gA, ang=ang, e=e):
                M.stub_uf(*ZX[0])
                var = dict(HM, **x, **e)
                if ang == "oblique":
                    var["beta"] = (0., 75.)
                kw = M.vars(**var)
                if d == "FV":
                    M.assume(kw["Fb"] <= kw["Ac"])
                ref = chain(M, core, kw.get("gamma_f", 0.45) * kw.get("gamma_beta", 1), gA, kw)
                M.check("value", M.eq(M.fn(w, "calculate_%s2p_%s" % (d, ang))(**kw), ref))
            ob(P_, "crestwall/%s-%s%s" % (d, ang, t), funcs=(w + ".calculate_%s2p_%s" % (d, ang),))(h)
eqob(P_, "crestwall/FH01", w, "calculate_FH01p_perpendicular", dict(FH2p=(0., 1e6)), lambda M, FH2p: 1.6 * FH2p)
eqob(P_, "crestwall/FV01", w, "calculate_FV01p_perpendicular", dict(FV2p=(0., 1e6), s0p=(.005, .08)), lambda M, FV2p, s0p: (2.88 - 32 * s0p) * FV2p)
