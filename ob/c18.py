"""C18: the caisson calculation is in equilibrium and internally consistent."""
from ._lib import *

P_ = "C18"
m = FC + "goda1985"
LW = ((CP, "calculate_local_wavelength"),)
GV_ = dict(HD=(0.5, 20.), Hsi=(0.5, 12.), Tmax=(3., 25.), h_s=(2., 40.), d=(1., 38.), B1=(0.5, 40.), cota_seabed=(5., 200.),
           rho_water=RW, hacc=(1., 40.), Rc=(0.2, 20.), Bup=(2., 50.), beta=(0., 75.))
F_, MO, W_ = (1e3, 1e7), (1e3, 1e9), (1e4, 1e8)


def press(M, pre=None, quiet=True, **over):
    # wave lengths of the dispersion relation for these periods and depths lie in this interval
    M.stub_uf(*LW[0], iv=(5.0, 1000.0))
    if quiet:
        M.patch(m, "check_impulsive_breaking", lambda real: (lambda *a, **k: False))
    kw = M.vars(**dict(GV_, **over))
    L = M.fn(*LW[0])(T=kw["Tmax"], h=kw["h_s"])
    # wave lengths the dispersion relation can give: no longer than in deep water and in the shallow-water limit
    M.assume(L <= 9.81 / (2 * M.pi) * kw["Tmax"] * kw["Tmax"])
    M.assume(kw["d"] <= kw["h_s"])
    M.assume(kw["hacc"] <= kw["h_s"])
    r = M.fn(m, "calculate_pressures_and_forces")(return_dict=True, **kw)
    return kw, r


@ob(P_, "horizontal force is the integral of the pressure diagram", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M)
    # linear from p1 at the water line to p3 at the bottom and to p4 at the crest (or the run-up level)
    lower = (r["p1"] + r["p3"]) * kw["hacc"] / 2
    upper = (r["p1"] + r["p4"]) * r["hstar_c"] / 2
    M.check("FH", M.eq(r["FH"], lower + upper))
    M.check("upper edge", M.eq(r["p4"] * r["etastar"], r["p1"] * (r["etastar"] - r["hstar_c"])))


@ob(P_, "moment is the first moment of the pressure diagram", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M)
    ha, hc = kw["hacc"], r["hstar_c"]
    # integral of p(z) z dz about the heel: rectangle + triangle below and above the water line
    low = r["p3"] * ha * ha / 2 + (r["p1"] - r["p3"]) * ha / 2 * (2 * ha / 3)
    up = r["p4"] * hc * (ha + hc / 2) + (r["p1"] - r["p4"]) * hc / 2 * (ha + hc / 3)
    M.check("MH", M.eq(r["MH"], low + up))


@ob(P_, "uplift is triangular with its moment about the heel", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M)
    M.check("FU", M.eq(2 * r["FU"], r["pu"] * kw["Bup"]))
    M.check("MU", M.eq(3 * r["MU"], 2 * r["FU"] * kw["Bup"]))


@ob(P_, "uplift pressure does not exceed the front pressure at the bottom", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M)
    M.check("pu <= p3", M.le(r["pu"], r["p3"]))


@ob(P_, "pressures and forces are non-negative", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M)
    for k in ("p1", "p2", "p3", "p4", "pu", "FH", "FU", "MH", "MU", "hstar_c", "etastar", "alpha1", "alpha2", "alpha3"):
        M.check(k, M.ge(r[k], 0))


@ob(P_, "pressures are ordered", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M)
    M.check("p2 <= p1", M.le(r["p2"] / r["p1"], 1))
    M.check("p3 <= p1", M.le(r["p3"] / r["p1"], 1))
    M.check("p4 <= p1", M.le(r["p4"] / r["p1"], 1))
    M.check("p2 <= p3", M.le(r["p2"] / r["p1"], r["p3"] / r["p1"]))
    M.check("hstar_c <= Rc", M.le(r["hstar_c"], kw["Rc"]))
    M.check("hstar_c <= etastar", M.le(r["hstar_c"], r["etastar"]))
    # not above the shallow-water limit
    M.check("alpha1 upper", M.le(r["alpha1"], 1.1))
    M.check("alpha1 lower", M.ge(r["alpha1"], 0.6))
    M.check("alpha3 upper", M.le(r["alpha3"], 1))


@ob(P_, "lever of the horizontal force lies within the loaded height", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M)
    M.check("lever", M.le(r["MH"], r["FH"] * (kw["hacc"] + r["hstar_c"])))


@ob(P_, "a higher caisson than the run-up takes no more load", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M)
    M.assume(kw["Rc"] >= r["etastar"])
    k2 = dict(kw, Rc=M.var("Rc2", 0.2, 20.))
    M.assume(k2["Rc"] >= r["etastar"])
    r2 = M.fn(m, "calculate_pressures_and_forces")(return_dict=True, **k2)
    for k in ("FH", "MH", "FU", "MU", "p4", "hstar_c"):
        M.check(k, M.eq(r[k], r2[k]))
    M.check("p4", M.eq(r["p4"], 0))


@ob(P_, "frontal up to 15 degrees", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M, beta=(0., 14.999))
    r2 = M.fn(m, "calculate_pressures_and_forces")(return_dict=True, **dict(kw, beta=0.0))
    for k in ("FH", "MH", "FU", "MU", "p1", "pu", "etastar"):
        M.check(k, M.eq(r[k], r2[k]))


@ob(P_, "waves from either side give the same load", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M)
    r2 = M.fn(m, "calculate_pressures_and_forces")(return_dict=True, **dict(kw, beta=-kw["beta"]))
    for k in ("FH", "MH", "FU", "MU", "p1", "pu", "etastar"):
        M.check(k, M.eq(r[k], r2[k]))


@ob(P_, "loads are proportional to the specific weight of water", funcs=(m + ".calculate_pressures_and_forces",))
def _(M):
    kw, r = press(M)
    r2 = M.fn(m, "calculate_pressures_and_forces")(return_dict=True, **dict(kw, rho_water=M.var("rho2", *RW)))
    rr = M.var("rho2", *RW) / kw["rho_water"]
    for k in ("FH", "MH", "FU", "MU", "p1", "p2", "p3", "p4", "pu"):
        M.check(k, M.eq(r[k] * rr, r2[k]))


def react(M, *names):
    box = dict(FU=F_, FH=F_, Wup=W_, muf=(.2, 1.), tup=(1., 40.), MH=MO, MU=MO, Bup=(2., 50.))
    return M.vars(**{k: box[k] for k in names})


@ob(P_, "sliding: at the limit weight friction equals the horizontal force", funcs=(m + ".calculate_safety_factors",))
def _(M):
    k = react(M, "FU", "FH", "muf", "tup", "MH", "MU")
    SF = M.var("SF", 1., 3.)
    W = SF * k["FH"] / k["muf"] + k["FU"]
    s, o = M.fn(m, "calculate_safety_factors")(Wup=W, **k)
    M.check("safety factor", M.eq(s, SF))


@ob(P_, "overturning: at the limit weight the moments balance", funcs=(m + ".calculate_safety_factors",))
def _(M):
    k = react(M, "FU", "FH", "muf", "tup", "MH", "MU")
    SF = M.var("SF", 1., 3.)
    W = (SF * k["MH"] + k["MU"]) / k["tup"]
    s, o = M.fn(m, "calculate_safety_factors")(Wup=W, **k)
    M.check("safety factor", M.eq(o, SF))


@ob(P_, "safety factors grow with the weight", funcs=(m + ".calculate_safety_factors",))
def _(M):
    k = react(M, "FU", "FH", "muf", "tup", "MH", "MU", "Wup")
    W2 = M.var("Wup2", *W_)
    M.assume(W2 >= k["Wup"])
    a = M.fn(m, "calculate_safety_factors")(**k)
    b = M.fn(m, "calculate_safety_factors")(**dict(k, Wup=W2))
    M.check("sliding", M.ge(b[0], a[0]))
    M.check("overturning", M.ge(b[1], a[1]))


@ob(P_, "bearing pressure balances the vertical force and moment", funcs=(m + ".calculate_bearing_pressures",))
def _(M):
    k = react(M, "FU", "Wup", "tup", "MH", "MU", "Bup")
    M.assume(k["Wup"] > 1.01 * k["FU"])
    M.assume(k["Wup"] * k["tup"] > 1.01 * (k["MU"] + k["MH"]))
    pe, Me, We, te = M.fn(m, "calculate_bearing_pressures")(**k)
    M.check("vertical force", M.eq(We, k["Wup"] - k["FU"]))
    M.check("moment about the heel", M.eq(Me, k["Wup"] * k["tup"] - k["MU"] - k["MH"]))
    M.check("lever", M.eq(te * We, Me))
    B = k["Bup"]
    M.away((te, B / 3))
    if te <= B / 3:
        # triangle over 3 te
        M.check("triangle carries We", M.eq(pe * 3 * te / 2, We))
    else:
        # trapezium with pe at the heel and p0 at the toe
        p0 = 2 * We / B - pe
        M.check("trapezium carries Me", M.eq((pe + 2 * p0) * B * B / 6, Me))


@ob(P_, "bearing pressure vanishes at the toe when the resultant leaves the core", funcs=(m + ".calculate_bearing_pressures",))
def _(M):
    # at te = B/3 both pressure diagrams coincide
    Bup, W = M.var("Bup", 2., 50.), M.var("We", 1e4, 1e7)
    e = M.var("eps", 1e-9, 1e-6)
    def at(te):
        return M.fn(m, "calculate_bearing_pressures")(Wup=W, tup=te, MH=0.0, MU=0.0, FU=0.0, Bup=Bup)[0]
    a, b = at(Bup / 3 * (1 - e)), at(Bup / 3 * (1 + e))
    for x, y in ((a, b), (b, a), (a * Bup, 2 * W), (2 * W, a * Bup)):
        M.check("no jump", M.le(x, 1.0001 * y))


@ob(P_, "weight is the buoyant weight below and the full weight above the water line", funcs=(m + ".calculate_Wup",))
def _(M):
    kw = M.vars(hacc=(1., 40.), Rc=(.2, 20.), Bup=(2., 50.), rho_fill_below_SWL=(1500., 2600.), rho_water=RW, rho_fill_above_SWL=(1500., 2600.), g=G)
    f = M.fn(m, "calculate_Wup")
    W = f(**kw)
    M.check("buoyancy", M.eq(W + kw["g"] * kw["rho_water"] * kw["hacc"] * kw["Bup"], f(**dict(kw, rho_water=0.0))))
    M.check("positive", M.ge(W, 0))
    M.check("width", M.eq(f(**dict(kw, Bup=2 * kw["Bup"])), 2 * W))
