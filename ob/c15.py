"""C15 - iterative solutions"""
from ob._lib import *
from ob import _spec as sp

HB, TBX = (0.1, 12.0), (2.0, 25.0)
TOL = (1e-6, 2.0)


def iterate(M, step, x0, n, tol, first=None):
    """reference: fixed-point iteration with at most n steps, stopped when two iterates differ by no more than tol.
    `first`: the value the first iterate is compared with (None: nothing, so at least two steps are made)"""
    prev, x, k = first, x0, 0
    while k < n:
        x = step(x)
        k += 1
        if prev is not None:
            d = M.np.abs(x - prev)
            M.away((d, tol))
            if M.truth(d <= tol):
                return x, k
        prev = x
    return x, n


NS = ((1, "quick"), (2, "quick"), (3, "quick"), (4, "thorough"))
for n, tier in NS:
    @ob("C15", "kramer/Dn50/%d" % n, tier=tier, funcs=(RA + "kramerburcharth2004_lowcrested.calculate_nominal_rock_diameter_Dn50",), lax=True)
    def kdn(M, n=n):
        kw = M.vars(Hs=HB, Rc=(-4.0, 3.0), rho_armour=RROCK)
        ini, tol = M.var("Ns_init", 0.5, 6.0), M.var("tolerance", *TOL)
        D = kw["rho_armour"] / 1025 - 1

        def step(d):
            M.assume(d > 0.01)
            return (kw["Hs"] / D - kw["Rc"] * (0.06 * (kw["Rc"] / d) - 0.23)) / 1.36
        e, _ = iterate(M, step, kw["Hs"] / (D * ini), n, tol)
        r = M.fn(RA + "kramerburcharth2004_lowcrested", "calculate_nominal_rock_diameter_Dn50")(Ns_init=ini, max_iter=n, tolerance=tol, **kw)
        M.check("iterate", M.eq(r, e))

    @ob("C15", "kramer/Rc/%d" % n, tier=tier, funcs=(RA + "kramerburcharth2004_lowcrested.calculate_crest_freeboard_Rc",), lax=True)
    def krc(M, n=n):
        kw = M.vars(Hs=HB, Dn50=DN, rho_armour=RROCK)
        ini, tol = M.var("Rc_Dn50_init", -3.0, 1.5), M.var("tolerance", *TOL)
        D = kw["rho_armour"] / 1025 - 1

        def step(rc):
            den = 0.06 * (rc / kw["Dn50"]) - 0.23
            M.assume(den < -0.02)
            return (kw["Hs"] / D - 1.36 * kw["Dn50"]) / den
        e, _ = iterate(M, step, ini * kw["Dn50"], n, tol)
        r = M.fn(RA + "kramerburcharth2004_lowcrested", "calculate_crest_freeboard_Rc")(Rc_Dn50_init=ini, max_iter=n, tolerance=tol, **kw)
        M.check("iterate", M.eq(r, e))

    @ob("C15", "jumelet/Hs/%d" % n, tier=tier, funcs=(RA + "jumelet2024.calculate_significant_wave_height_Hs",), lax=True)
    def jhs(M, n=n):
        m = RA + "jumelet2024"
        M.stub_uf(m, "calculate_fraction_plunging_waves_Fp", iv=(0.05, 1.0))
        kw = M.vars(Tmm10=TBX, N_waves=(250., 20000.), cot_alpha=(4., 12.), rho_armour=RROCK, S=S, Dn50=DN, c_pl=(2.0, 7.0), g=G)
        ini, tol = M.var("smm10_init", 0.005, 0.08), M.var("tolerance", *TOL)
        fp = M.fn(m, "calculate_fraction_plunging_waves_Fp")
        D = kw["rho_armour"] / 1025 - 1

        def step(H):
            f = fp(ksi_mm10=sp.irib(M, H, kw["Tmm10"], kw["cot_alpha"]))
            N = M.np.round(f * kw["N_waves"])
            if not M.symbolic:
                M.assume(N >= 1)
            return (kw["c_pl"] * kw["S"] ** 0.2 * N ** -0.1 * kw["cot_alpha"] * M.np.sqrt(2 * M.pi / kw["g"]) / kw["Tmm10"] * D * kw["Dn50"]) ** 2
        H0 = ini * kw["Tmm10"] ** 2 * kw["g"] / (2 * M.pi)
        e, _ = iterate(M, step, H0, n, tol, first=H0)
        r = M.fn(m, "calculate_significant_wave_height_Hs")(smm10_init=ini, max_iter=n, tolerance=tol, **kw)
        M.check("iterate", M.eq(r, e))

    for depth in (False, True):
        @ob("C15", "etemad2020/Dn50/%d%s" % (n, "/depth" if depth else ""), tier=tier if n < 3 else "thorough",
            funcs=(RA + "etemadshahidi2020.calculate_nominal_rock_diameter_Dn50",), lax=True)
        def edn(M, n=n, depth=depth):
            m = RA + "etemadshahidi2020"
            M.stub_uf(m, "calculate_permeability_coefficient_Cp", iv=(0.5, 3.0))
            kw = M.vars(Hs=HB, Tmm10=TBX, N_waves=N, cot_alpha=COT, rho_armour=RROCK, S=S, Dn50_core=(0.01, 2.0))
            if depth:
                kw["m"] = M.var("m", 0.0, 0.2)
            ini, tol = M.var("Cp_init", 0.4, 2.0), M.var("tolerance", *TOL)
            cp = M.fn(m, "calculate_permeability_coefficient_Cp")
            ksi = sp.irib(M, kw["Hs"], kw["Tmm10"], kw["cot_alpha"])
            D = kw["rho_armour"] / 1025 - 1
            fac = kw["Hs"] / D * kw["N_waves"] ** 0.1 * kw["S"] ** (-1.0 / 6.0) / ((1 - 3 * kw["m"]) if depth else 1)
            M.away((ksi, 1.8))

            def branch(c, p):
                x, prev = None, None
                C = ini
                for k in range(n):
                    x = fac / c / C * ksi ** p
                    C = cp(Dn50=x, Dn50_core=kw["Dn50_core"])
                    if prev is not None:
                        d = M.np.abs(x - prev)
                        M.away((d, tol))
                        if M.truth(d <= tol):
                            break
                    prev = x
                return x
            r = M.fn(m, "calculate_nominal_rock_diameter_Dn50")(Cp_init=ini, max_iter=n, tolerance=tol, use_depth_limited_version=depth, **kw)
            e = branch(3.9, 1.0 / 3.0) if M.truth(ksi >= 1.8) else branch(4.5, 7.0 / 12.0)
            M.check("iterate", M.eq(r, e))

    @ob("C15", "etemad2021/Hs/%d" % n, tier=tier if n < 3 else "thorough", funcs=(TB + "etemadshahidi2021.calculate_significant_wave_height_Hs",), lax=True)
    def ths(M, n=n):
        kw = M.vars(Tmm10=TBX, h=(0.2, 30.), ht=(0.1, 20.), Bt=(0.1, 20.), Nod=(0.01, 10.), m=(0., .2), Dn50=DN, rho_rock=RROCK, rho_water=RW, g=G)
        ini = M.var("smm10_init", 0.005, 0.08)
        D = kw["rho_rock"] / kw["rho_water"] - 1
        base = 11.2 * (kw["ht"] / kw["h"]) ** 1.75 * kw["Nod"] ** 0.4 * (1 - 3.7 * kw["m"])

        def step(H):
            s = 2 * M.pi * H / (kw["g"] * kw["Tmm10"] ** 2)
            return D * kw["Dn50"] * (1.2 + base * s ** (1.0 / 6.0) * (kw["Bt"] / H) ** -0.1)
        H0 = ini * kw["Tmm10"] ** 2 * kw["g"] / (2 * M.pi)
        e, _ = iterate(M, step, H0, n, 0.001, first=H0)
        r = M.fn(TB + "etemadshahidi2021", "calculate_significant_wave_height_Hs")(smm10_init=ini, max_iter=n, **kw)
        M.check("iterate", M.eq(r, e))

    @ob("C15", "rear2007/Hs/%d" % n, tier=tier, funcs=(RR + "vangent2007.calculate_maximum_significant_wave_height_Hs",), lax=True)
    def rhs(M, n=n):
        m = RR + "vangent2007"
        M.stub_uf(m, "_invert_for_z1p", iv=(0.01, 100.0))
        M.stub_uf(RU + "vangent2001", "_invert_for_Hs", iv=(0.01, 50.0))
        kw = M.vars(cot_alpha=COT, cot_phi=(1., 5.), gamma=GF, S=S, Tmm10=TBX, Rc=(0.1, 10.), Rc2_front=(0., 5.), Rc2_rear=(0., 5.), N_waves=N, Dn50=DN)
        tol = M.var("tolerance", *TOL)
        M.assume(kw["Rc2_rear"] <= 0.99 * kw["Rc"])
        inv, invH = M.fn(m, "_invert_for_z1p"), M.fn(RU + "vangent2001", "_invert_for_Hs")

        def step(H):
            z = inv(cot_phi=kw["cot_phi"], S=kw["S"], Dn50=kw["Dn50"], Hs=H, Rc=kw["Rc"], Rc2_front=kw["Rc2_front"], Rc2_rear=kw["Rc2_rear"], N_waves=kw["N_waves"])
            return invH(Hs_i0=H, z1p=z, Tmm10=kw["Tmm10"], gamma=kw["gamma"], cot_alpha=kw["cot_alpha"])
        e, k = iterate(M, step, kw["Rc"], n, tol, first=kw["Rc"])
        r, ms = M.range_events(lambda: M.fn(m, "calculate_maximum_significant_wave_height_Hs")(tolerance=tol, max_iterations=n, **kw))
        M.check("iterate", M.eq(r, e))
        M.check("limit reported", M.implies(k < n, not ms.has_other("iterations")))
        M.check("non-convergence reported", M.implies(k == n, ms.has_other("iterations")))

    @ob("C15", "rear2004/Hs/%d" % n, tier=tier, funcs=(RR + "vangentpozueta2004.calculate_maximum_significant_wave_height_Hs",), lax=True)
    def rhs4(M, n=n):
        m = RR + "vangentpozueta2004"
        M.stub_uf(m, "_invert_for_u1p", iv=(0.01, 50.0))
        M.stub_uf(OT + "vangent2002_velocity", "_invert_for_zXp", iv=(0.01, 100.0))
        M.stub_uf(RU + "vangent2001", "_invert_for_Hs", iv=(0.01, 50.0))
        kw = M.vars(cot_alpha=COT, cot_phi=(1., 5.), gamma_f=GF, gamma_f_Crest=GF, S=S, Tmm10=TBX, Rc=(0.1, 10.), Rc_rear=(0., 20.), Bc=(0., 20.), N_waves=N,
                    Dn50=DN, rho_rock=RROCK, rho_water=RW, cs=(1e-13, 1e-12))
        tol = M.var("tolerance", *TOL)
        iu, iz, ih = M.fn(m, "_invert_for_u1p"), M.fn(OT + "vangent2002_velocity", "_invert_for_zXp"), M.fn(RU + "vangent2001", "_invert_for_Hs")
        D = kw["rho_rock"] / kw["rho_water"] - 1

        def step(H):
            u = iu(cot_phi=kw["cot_phi"], S=kw["S"], Hs=H, Tmm10=kw["Tmm10"], Rc_rear=kw["Rc_rear"], N_waves=kw["N_waves"], Dn50=kw["Dn50"], Delta=D, cs=kw["cs"])
            z = iz(Hs=H, uXp=u, Rc=kw["Rc"], Bc=kw["Bc"], gamma_f=kw["gamma_f"], gamma_f_Crest=kw["gamma_f_Crest"])
            return ih(Hs_i0=H, z1p=z, Tmm10=kw["Tmm10"], gamma=kw["gamma_f"], cot_alpha=kw["cot_alpha"])
        H0 = (kw["Rc"] + 0.5) / (2.552 * kw["gamma_f"])
        e, k = iterate(M, step, H0, n, tol, first=H0)
        r, ms = M.range_events(lambda: M.fn(m, "calculate_maximum_significant_wave_height_Hs")(tolerance=tol, max_iterations=n, **kw))
        M.check("iterate", M.eq(r, e))
        M.check("no false report", M.implies(k < n, not ms.has_other("iterations")))
        M.check("non-convergence reported", M.implies(k == n, ms.has_other("iterations")))

    for fam in ("taw2002", "eurotop2018"):
        for bf in (False, True):
            @ob("C15", "%s/z2p/%d%s" % (fam, n, "/bestfit" if bf else ""), tier=tier, funcs=(RU + fam + ".iteration_procedure_z2p",), lax=True)
            def z2(M, n=n, fam=fam, bf=bf):
                t = RU + "taw2002"
                M.stub_uf(t, "calculate_influence_berm_gamma_b", iv=(0.6, 1.0))
                M.stub_uf(t, "determine_average_slope", iv=(0.5, 10.0))
                M.stub_uf(t, "calculate_berm_length", iv=(0.1, 200.0))
                M.stub_uf(t, "calculate_wave_runup_height_z2p", num=2, iv=(0.01, 60.0))
                kw = M.vars(Hm0=H, Tmm10=T, cot_alpha_down=COT, cot_alpha_up=COT, B_berm=(0.1, 30.0), db=(-3.0, 3.0), gamma_f=GF, gamma_beta=GBETA)
                tol = M.var("tolerance", *TOL)
                M.assume(kw["db"] <= 1.4 * kw["Hm0"])
                M.assume(kw["db"] >= -1.4 * kw["Hm0"])
                gb, sl, bl, ru = [M.fn(t, f) for f in ("calculate_influence_berm_gamma_b", "determine_average_slope", "calculate_berm_length", "calculate_wave_runup_height_z2p")]
                if fam == "taw2002":
                    c = dict(c1=M.var("c1", 1.0, 3.0), c2=M.var("c2", 3.0, 6.0), c3=M.var("c3", 1.0, 2.0), c4=M.var("c4", 0.8, 1.2))
                    cc = dict(c, use_best_fit=bf)
                    own = c
                else:
                    c = dict(c1=1.65, c2=4.0, c3=1.5, c4=1.0) if bf else dict(c1=1.75, c2=4.3, c3=1.5, c4=1.07)
                    own = {}
                g = {k: kw[k] for k in ("Hm0", "cot_alpha_down", "cot_alpha_up", "B_berm")}

                def step(z):
                    L = bl(**g)
                    b = gb(Hm0=kw["Hm0"], z2p=z, db=kw["db"], B_berm=kw["B_berm"], L_berm=L)
                    a = sl(Hm0=kw["Hm0"], z2p=z, cot_alpha_down=kw["cot_alpha_down"], cot_alpha_up=kw["cot_alpha_up"], B_berm=kw["B_berm"], db=kw["db"])
                    return ru(Hm0=kw["Hm0"], Tmm10=kw["Tmm10"], cot_alpha=a, gamma_b=b, gamma_f=kw["gamma_f"], gamma_beta=kw["gamma_beta"], use_best_fit=bf, **c)[0]
                z0 = 1.5 * kw["Hm0"]
                e, _ = iterate(M, step, z0, n, tol, first=z0)
                r = M.fn(RU + fam, "iteration_procedure_z2p")(tolerance=tol, max_iter=n - 1, use_best_fit=bf, **kw, **own)
                M.check("iterate", M.eq(r, e))

    @ob("C15", "vangent2025/wind/%d" % n, tier=tier, funcs=(OT + "vangent2025.calculate_dimensionless_crest_freeboard",), lax=True)
    def wind(M, n=n):
        m = OT + "vangent2025"
        M.stub_uf(m, "calculate_influence_wind_gamma_w", iv=(1.0, 20.0))
        cap = M.var("cap", 0.5, 50.0)
        # the limiting equation is a separate property
        M.patch(m, "Rc_diml_max_equation", lambda old: (lambda *a, **k: cap))
        kw = M.vars(Hm0=(0.2, 10.0), Hm0_swell=(0.0, 2.0), Tmm10=(3.0, 20.0), q=(1e-7, 1e-3), Ac=(0.1, 10.0), cot_alpha=COT,
                    gamma_f=GF, gamma_b=GB, gamma_v=GV, gamma_beta=GBETA, g=G)
        tol = M.var("tolerance", *TOL)
        gw = M.fn(m, "calculate_influence_wind_gamma_w")
        ksi = sp.irib(M, kw["Hm0"], kw["Tmm10"], kw["cot_alpha"])
        qd = kw["q"] / M.np.sqrt(kw["g"] * kw["Hm0"] ** 3)
        fac = kw["gamma_f"] * kw["gamma_b"] * kw["gamma_v"] * kw["gamma_beta"] * ksi / 5.0

        def rc(q):
            return -fac * M.np.log(1.0 / 6.8 * kw["cot_alpha"] * q) + 0.4 * kw["Hm0_swell"] / kw["Hm0"]

        def step(x):
            M.assume(x * kw["Hm0"] >= kw["Ac"])       # domain of the wind factor
            return rc(qd / gw(Rc=x * kw["Hm0"], Ac=kw["Ac"], Hm0=kw["Hm0"], q_diml=qd))
        x0 = rc(qd)
        e, _ = iterate(M, step, x0, n, tol, first=x0)
        r = M.fn(m, "calculate_dimensionless_crest_freeboard")(design_calculation=False, include_influence_wind=True, max_iter=n, tolerance=tol, **kw)
        M.check("iterate", M.eq(r[0], M.np.minimum(e, cap)))

# two-step procedure for the berm factor
for fam in ("taw2002", "eurotop2018"):
    @ob("C15", "%s/gamma_b" % fam, funcs=(RU + fam + ".iteration_procedure_gamma_b",))
    def gb2(M, fam=fam):
        t = RU + "taw2002"
        M.stub_uf(t, "calculate_influence_berm_gamma_b", iv=(0.6, 1.0))
        M.stub_uf(t, "calculate_wave_runup_height_z2p", num=2, iv=(0.01, 60.0))
        kw = M.vars(Hm0=H, Tmm10=T, cot_alpha_average=COT, B_berm=(0.01, 30.0), L_berm=(0.1, 100.0), db=(-3.0, 3.0), gamma_f=GF, gamma_beta=GBETA)
        gb, ru = M.fn(t, "calculate_influence_berm_gamma_b"), M.fn(t, "calculate_wave_runup_height_z2p")
        c = dict(c1=M.var("c1", 1.0, 3.0), c2=M.var("c2", 3.0, 6.0), c3=M.var("c3", 1.0, 2.0), c4=M.var("c4", 0.8, 1.2))
        b = 1.0
        for i in (1, 2):
            z = ru(Hm0=kw["Hm0"], Tmm10=kw["Tmm10"], cot_alpha=kw["cot_alpha_average"], gamma_b=b, gamma_f=kw["gamma_f"], gamma_beta=kw["gamma_beta"], use_best_fit=False, **c)[0]
            b = gb(Hm0=kw["Hm0"], z2p=z, db=kw["db"], B_berm=kw["B_berm"], L_berm=kw["L_berm"])
        f = M.fn(RU + fam, "iteration_procedure_gamma_b")
        M.check("two steps", M.eq(f(**kw, **c), b))
        M.check("no berm", M.eq(f(**dict(kw, B_berm=0.0), **c), 1.0))


# table searches, with a stability number that depends on the searched quantity in a simple known way
TK = TB + "takahashi1990_caisson"


@ob("C15", "takahashi/Hs/constant-Ns", funcs=(TK + ".calculate_significant_wave_height_Hs",), lax=True,
    bounds="stability number replaced by a constant between 1.8 and 2.1, Dn50 = 0.02 m (tables up to 60 values)")
def tk_hs(M):
    n = M.var("n", 1.8, 2.1)
    M.patch(TK, "calculate_stability_number_Ns", lambda old: (lambda **k: n))
    r = M.fn(TK, "calculate_significant_wave_height_Hs")(Dn50=0.02, Tp=8.0, hacc=5.0, Bt=4.0, rho_rock=2600.0, rho_water=1000.0, beta=0.0)
    M.check("solves the equation", M.eq(r, n * 1.6 * 0.02))


@ob("C15", "takahashi/Hs/linear-Ns", tier="thorough", funcs=(TK + ".calculate_significant_wave_height_Hs",), lax=True,
    bounds="stability number n + c (0.05 - Hs) with symbolic c, Dn50 = 0.02 m")
def tk_hs2(M):
    c = M.var("c", 0.0, 4.0)
    M.patch(TK, "calculate_stability_number_Ns", lambda old: (lambda Hs=None, **k: M.np.maximum(1.8, 2.0 + c * (0.06 - Hs))))
    r = M.fn(TK, "calculate_significant_wave_height_Hs")(Dn50=0.02, Tp=8.0, hacc=5.0, Bt=4.0, rho_rock=2600.0, rho_water=1000.0, beta=0.0)
    d = r - 0.032 * M.np.maximum(1.8, 2.0 + c * (0.06 - r))
    M.check("solves the equation", M.land(M.le(d, 0.002), M.ge(d, -0.002)))


@ob("C15", "takahashi/hacc/linear-Ns", funcs=(TK + ".calculate_significant_depth_above_toe_hacc",), lax=True,
    bounds="stability number 1.8 + c hacc with symbolic c, Hs = 0.1 m")
def tk_h(M):
    c = M.var("c", 8.0, 30.0)
    M.patch(TK, "calculate_stability_number_Ns", lambda old: (lambda hacc=None, **k: 1.8 + c * hacc))
    D = 0.1 / (1.6 * 2.2)
    r = M.fn(TK, "calculate_significant_depth_above_toe_hacc")(Dn50=D, Tp=8.0, Hs=0.1, Bt=4.0, rho_rock=2600.0, rho_water=1000.0, beta=0.0)
    x = 0.4 / c
    M.assume(x > 0.005)
    M.check("within one step of the solution", M.land(M.ge(r, x - 1e-9), M.le(r, x + 0.00101)))


@ob("C15", "takahashi/hacc/none", funcs=(TK + ".calculate_significant_depth_above_toe_hacc",), lax=True)
def tk_n(M):
    M.stub_uf(TK, "calculate_stability_number_Ns", iv=(1.8, 50.0))
    D, Hs = M.var("Dn50", 0.1, 3.0), M.var("Hs", 0.1, 3.0)
    M.assume(Hs / (1.6 * D) < 1.799)
    M.check("no solution is an error", M.raises(lambda: M.fn(TK, "calculate_significant_depth_above_toe_hacc")(
        Dn50=D, Tp=8.0, Hs=Hs, Bt=4.0, rho_rock=2600.0, rho_water=1000.0, beta=0.0), ValueError))
