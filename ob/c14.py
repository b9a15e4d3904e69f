"""C14 - alternative ways of giving an input; missing input"""
from ob._mono import *
from ob._cat import VM, ev, jv, jp, sv, r7, r4, rpre, M50, HB, TBX, RH, SL, V25

P_ = "C14"
GB0 = dict(gamma_beta=GBETA, gamma_f=GF)


def first(M, r):
    """results as a tuple of scalars; flags left out"""
    r = r if isinstance(r, (tuple, list)) else (r,)
    return tuple(M.item(x) for x in r if not is_bool(M.item(x)))


def same(name, mod, fn, var, a, b, const=None, pre=None, stubs=(), lax=True, **okw):
    """the call with the arguments a(v) equals the call with b(v) (v: the symbolic values)"""
    def h(M):
        v = M.vars(**var)
        if pre:
            pre(M, **v)
        for s in stubs:
            M.stub_uf(*s)
        f = M.fn(mod, fn)
        x = first(M, f(**a(M, v), **(const or {})))
        y = first(M, f(**b(M, v), **(const or {})))
        M.check("number of results", len(x) == len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            if M.isnan(p) or M.isnan(q):
                M.check("both undefined", M.isnan(p) and M.isnan(q))
            else:
                M.check("equal result %d" % i, M.eq(p, q))
    ob(P_, name, funcs=(mod + "." + fn,), lax=lax, **okw)(h)


def error(name, mod, fn, var, a, const=None, exc=ValueError, pre=None, stubs=(), **okw):
    def h(M):
        v = M.vars(**var)
        if pre:
            pre(M, **v)
        for s in stubs:
            M.stub_uf(*s)
        M.check("is an error", M.raises(lambda: M.fn(mod, fn)(**a(M, v), **(const or {})), exc))
    ob(P_, name, funcs=(mod + "." + fn,), lax=True, **okw)(h)


def nonumber(name, mod, fn, var, a, const=None, stubs=(), **okw):
    """never a number: an error or nan"""
    def h(M):
        v = M.vars(**var)
        for s in stubs:
            M.stub_uf(*s)
        out = []
        bad = M.raises(lambda: out.append(M.fn(mod, fn)(**a(M, v), **(const or {}))), ValueError)
        if not bad and out:
            r = out[0] if isinstance(out[0], tuple) else (out[0],)
            M.check("no number", M.isnan(M.item(r[0])))
        else:
            M.check("no number", bad)
    ob(P_, name, funcs=(mod + "." + fn,), lax=True, **okw)(h)


def without(*names):
    return lambda M, v: {k: x for k, x in v.items() if k not in names}


def mass(rho="rho_armour", core=None, only=None):
    """mass instead of diameter"""
    def b(M, v):
        k = dict(v)
        if only != "core":
            d = k.pop("Dn50")
            k["M50"] = v[rho] * d * d * d
        if core:
            d = k.pop("Dn50_core")
            k["M50_core"] = v[core] * d * d * d
        return k
    return b


ident = without()
# ------------------------------------------------------------------ stone mass or diameter
DCR = dict(Dn50_core=(0.01, 2.0))
for m, tn, h2 in (("vandermeer1988", "Tm", True), ("vandermeer1988_modified", "Tmm10", True), ("vandermeer2021", "Tmm10", False)):
    base = dict(VM, Dn50=DN, **{tn: TBX})
    hh = dict(Hs=HB, H2p=(0.1, 18.0), rho_water=RW) if h2 else dict(Hs=HB)
    rat = dict(ratio_H2p_Hs=(1.0, 1.5), rho_water=RW) if h2 else {}
    for fn, x in (("calculate_damage_number_S", hh), ("calculate_significant_wave_height_Hs", dict(S=S, **rat))):
        same("mass/%s/%s" % (m, fn[10:]), RA + m, fn, dict(base, **x), ident, mass())
        error("missing/%s/%s" % (m, fn[10:]), RA + m, fn, dict(base, **x), without("Dn50"))
E_ = RA + "etemadshahidi2020"
for dl in (False, True):
    t = "/depth" if dl else ""
    e1 = dict(ev, Dn50=DN, rho_core=RROCK, **DCR)
    c = dict(use_depth_limited_version=dl)
    if dl:
        e1["m"] = (0.0, 0.2)
    for fn, x in (("calculate_damage_number_S", dict(Hs=HB, rho_water=RW)), ("calculate_significant_wave_height_Hs", dict(S=S)),
                  ("calculate_nominal_rock_diameter_Dn50", dict(Hs=HB, S=S))):
        v = dict(e1, **x)
        cc = dict(c)
        if fn.endswith("Dn50"):
            v.pop("Dn50")
            cc["max_iter"] = 1
            same("mass/etemad2020/core/%s%s" % (fn[10:], t), E_, fn, v, ident, mass(core="rho_core", only="core"), const=cc)
            error("missing/etemad2020/core/%s%s" % (fn[10:], t), E_, fn, v, without("Dn50_core"), const=cc)
        else:
            same("mass/etemad2020/%s%s" % (fn[10:], t), E_, fn, v, ident, mass(core="rho_core"), const=cc)
            same("mass/etemad2020/armour/%s%s" % (fn[10:], t), E_, fn, v, ident, mass(), const=cc)
            error("missing/etemad2020/%s%s" % (fn[10:], t), E_, fn, v, without("Dn50"), const=cc)
            error("missing/etemad2020/core/%s%s" % (fn[10:], t), E_, fn, v, without("Dn50_core"), const=cc)
        if dl:
            error("missing/etemad2020/m/%s" % fn[10:], E_, fn, v, without("m"), const=cc)
J_ = RA + "jumelet2024"
same("mass/jumelet/S", J_, "calculate_damage_number_S", dict(jv, Dn50=DN, rho_water=RW), ident, mass(), pre=jp)
error("missing/jumelet/S", J_, "calculate_damage_number_S", dict(jv, Dn50=DN, rho_water=RW), without("Dn50"), pre=jp)
jh = {k: b for k, b in jv.items() if k != "Hs"}
same("mass/jumelet/Hs", J_, "calculate_significant_wave_height_Hs", dict(jh, S=S, Dn50=DN), ident, mass(), const=dict(max_iter=1))
error("missing/jumelet/Hs", J_, "calculate_significant_wave_height_Hs", dict(jh, S=S, Dn50=DN), without("Dn50"), const=dict(max_iter=1))
K_ = RA + "kramerburcharth2004_lowcrested"
kr = dict(rho_armour=RROCK, Dn50=DN)
same("mass/kramer/Hs", K_, "calculate_significant_wave_height_Hs", dict(kr, Rc=(-8., 5.)), ident, mass())
error("missing/kramer/Hs", K_, "calculate_significant_wave_height_Hs", dict(kr, Rc=(-8., 5.)), without("Dn50"))
same("mass/kramer/Rc", K_, "calculate_crest_freeboard_Rc", dict(kr, Hs=HB), ident, mass(), const=dict(max_iter=1))
error("missing/kramer/Rc", K_, "calculate_crest_freeboard_Rc", dict(kr, Hs=HB), without("Dn50"), const=dict(max_iter=1))
SC = RA + "scaravaglione2025"
for fn, x in (("calculate_damage_number_S", dict(Hm0=HB, Dn50=DN)), ("calculate_significant_wave_height_Hm0", dict(S=S, Dn50=DN)),
              ("calculate_nominal_rock_diameter_Dn50", dict(Hm0=HB, S=S))):
    v = dict(sv, **x, **DCR)
    same("mass/scaravaglione/core/" + fn[10:], SC, fn, v, ident, mass(core="rho_core", only="core"))
    error("missing/scaravaglione/core/" + fn[10:], SC, fn, v, without("Dn50_core"))
    if "Dn50" in x:
        same("mass/scaravaglione/" + fn[10:], SC, fn, v, ident, mass(core="rho_core"))
        error("missing/scaravaglione/" + fn[10:], SC, fn, v, without("Dn50"))
r7s = dict(r7, Dn50=DN, rho_rock=RROCK)
same("mass/rear2007/S", RR + "vangent2007", "calculate_damage_number_S", r7s, ident, mass("rho_rock"), pre=rpre)
same("mass/rear2007/S/no-density", RR + "vangent2007", "calculate_damage_number_S", r7s, without("rho_rock"), mass("rho_rock"), pre=rpre)
error("missing/rear2007/S", RR + "vangent2007", "calculate_damage_number_S", r7s, without("Dn50"))
same("mass/rear2004/S", RR + "vangentpozueta2004", "calculate_damage_number_S", dict(r4, Dn50=DN, rho_water=RW), ident, mass("rho_rock"), pre=rpre)
error("missing/rear2004/S", RR + "vangentpozueta2004", "calculate_damage_number_S", dict(r4, Dn50=DN, rho_water=RW), without("Dn50"))
for m, b in (("vangent2007", r7s), ("vangentpozueta2004", dict(r4, Dn50=DN, rho_water=RW))):
    v = dict({k: x for k, x in b.items() if k != "Hs"}, S=S)
    error("missing/%s/Hs" % m, RR + m, "calculate_maximum_significant_wave_height_Hs", v, without("Dn50"))
same("mass/check_usage", CP, "check_usage_Dn50_or_M50", dict(Dn50=DN, rho_rock=RROCK),
     lambda M, v: dict(Dn50=v["Dn50"], M50=NAN, rho_rock=v["rho_rock"]), lambda M, v: dict(Dn50=NAN, M50=v["rho_rock"] * v["Dn50"] ** 3, rho_rock=v["rho_rock"]))
same("mass/check_usage/both", CP, "check_usage_Dn50_or_M50", dict(Dn50=DN, M50=M50, rho_rock=RROCK),
     ident, lambda M, v: dict(Dn50=v["Dn50"], M50=NAN, rho_rock=NAN))
same("mass/check_usage/default-density", CP, "check_usage_Dn50_or_M50", dict(M50=M50),
     lambda M, v: dict(Dn50=NAN, M50=v["M50"], rho_rock=NAN), lambda M, v: dict(Dn50=NAN, M50=v["M50"], rho_rock=2650.0))
error("missing/check_usage", CP, "check_usage_Dn50_or_M50", dict(rho_rock=RROCK), lambda M, v: dict(Dn50=NAN, M50=NAN, rho_rock=v["rho_rock"]))

# ------------------------------------------------------------------ stability number
SN = dict(Hs=HB, Dn=DN, Delta=(0.8, 2.5), Ns=(0.5, 5.0))


def sn(M):
    v = M.vars(**SN)
    f = M.fn(CP, "check_usage_stabilitynumber")
    for miss, val in (("Hs", v["Ns"] * v["Delta"] * v["Dn"]), ("Dn", v["Hs"] / (v["Ns"] * v["Delta"])),
                      ("Delta", v["Hs"] / (v["Ns"] * v["Dn"])), ("Ns", v["Hs"] / (v["Delta"] * v["Dn"]))):
        r = f(**{k: x for k, x in v.items() if k != miss})
        M.check("missing %s" % miss, M.eq(r[0], val))
        M.check("missing %s is named" % miss, r[1] == miss)
    M.check("nothing missing is an error", M.raises(lambda: f(**v), ValueError))
    for a in SN:
        for b in SN:
            if a < b:
                M.check("missing %s and %s" % (a, b), M.raises(lambda: f(**{k: x for k, x in v.items() if k not in (a, b)}), ValueError))


ob(P_, "stability-number", funcs=(CP + ".check_usage_stabilitynumber",), lax=True)(sn)

# ------------------------------------------------------------------ angle or influence factor; single or composite slope
BETA = (-90.0, 90.0)
RUN = [(RU + m, "calculate_%swave_runup_height_z2p" % d, dict(SL, gamma_b=GB, gamma_f=GF)) for m in ("taw2002", "eurotop2018") for d in ("", "dimensionless_")]
QS = [(OT + m, "calculate_%sovertopping_discharge_q" % d, dict(SL, Rc=RC, gamma_b=GB, gamma_f=GF, gamma_v=GV)) for m in ("taw2002", "eurotop2018") for d in ("", "dimensionless_")]
RS = [(OT + m, f, dict(SL, q=(1e-7, 1e-4), gamma_b=GB, gamma_f=GF, gamma_v=GV)) for m in ("taw2002", "eurotop2018") for f in ("calculate_crest_freeboard_Rc", "calculate_dimensionless_crest_freeboard")]
RB = [(OT + m, f, dict(SL, gamma_f=GF, **x)) for m in ("eurotop2007", "eurotop2018") for f, x in (
    ("calculate_overtopping_discharge_q_rubble_mound", dict(Rc=RC)), ("calculate_dimensionless_overtopping_discharge_q_rubble_mound", dict(Rc=RC)),
    ("calculate_crest_freeboard_Rc_rubble_mound", dict(q=(1e-7, 1e-4))), ("calculate_dimensionless_crest_freeboard_rubble_mound", dict(q=(1e-7, 1e-4))))]
GBF = {RU + "taw2002": (RU + "taw2002", False), RU + "eurotop2018": (RU + "eurotop2018", True), OT + "taw2002": (OT + "taw2002", False),
       OT + "eurotop2018": (OT + "eurotop2018", True), OT + "eurotop2007": (RU + "taw2002", False)}


def lowq(M, Hm0, q=None, **k):
    if q is not None:
        # a positive freeboard exists
        M.assume(q <= 0.0005 * M.np.sqrt(9.81 * Hm0 * Hm0 * Hm0))


def factor(mod):
    m, withf = GBF[mod]

    def b(M, v):
        k = dict(v)
        kw = dict(gamma_f=v["gamma_f"]) if withf else {}
        k["gamma_beta"] = M.fn(m, "calculate_influence_oblique_waves_gamma_beta")(beta=k.pop("beta"), **kw)
        return k
    return b


def composite(M, v):
    k = dict(v)
    c = k.pop("cot_alpha")
    return dict(k, cot_alpha_down=c, cot_alpha_up=c)


ZIT = tuple((RU + m, "iteration_procedure_z2p") for m in ("taw2002", "eurotop2018"))
for mod, fn, var in RUN + QS + RS + RB:
    t = "%s/%s" % (mod.split(".")[-2] + "." + mod.split(".")[-1], fn[10:])
    same("angle/" + t, mod, fn, dict(var, beta=BETA), ident, factor(mod), stubs=GBETAS + GFA, pre=lowq)
    both = dict(var, gamma_beta=GBETA, beta=BETA)
    same("factor-wins/" + t, mod, fn, both, ident, without("beta"), stubs=GBETAS + GFA, pre=lowq)
    error("missing/angle/" + t, mod, fn, var, ident)
    g1 = dict(var, gamma_beta=GBETA)
    if "eurotop2007" not in mod:
        error("missing/slope/" + t, mod, fn, g1, without("cot_alpha"))
        same("composite/" + t, mod, fn, g1, ident, composite, stubs=ZIT + GFA, pre=lowq)
        if "gamma_b" in var:
            same("no-berm/" + t, mod, fn, {k: x for k, x in g1.items() if k != "gamma_b"}, ident, lambda M, v: dict(v, gamma_b=1.0), stubs=GFA, pre=lowq)
            same("no-berm-composite/" + t, mod, fn, {k: x for k, x in g1.items() if k != "gamma_b"}, composite, lambda M, v: dict(v, gamma_b=1.0), stubs=ZIT + GFA, pre=lowq)
    else:
        nonumber("missing/slope/" + t, mod, fn, g1, without("cot_alpha"))
same("berm-length", RU + "taw2002", "calculate_berm_length", dict(Hm0=H, B_berm=(0.0, 30.0), cot_alpha=COT), ident, composite)
error("missing/berm-length", RU + "taw2002", "calculate_berm_length", dict(Hm0=H, B_berm=(0.0, 30.0)), ident)

# ------------------------------------------------------------------ Van Gent 2001: Hs or Hm0
error("both/Hs-and-Hm0/z2p", RU + "vangent2001", "calculate_wave_runup_height_z2p", dict(Tmm10=TBX, gamma=GF, cot_alpha=COT, Hs=HB, Hm0=HB), ident)
error("missing/Hs-or-Hm0/z2p", RU + "vangent2001", "calculate_wave_runup_height_z2p", dict(Tmm10=TBX, gamma=GF, cot_alpha=COT), ident)

# ------------------------------------------------------------------ Van Gent 2021 caissons
C_ = OT + "vangent2021_caisson"
for fn, x in (("calculate_overtopping_discharge_q", dict(Rc=RC)), ("calculate_dimensionless_overtopping_discharge_q", dict(Rc=RC)),
              ("calculate_crest_freeboard_Rc", dict(q=(1e-7, 1e-4))), ("calculate_dimensionless_crest_freeboard", dict(q=(1e-7, 1e-4)))):
    v = dict(Hm0=H, **x)
    error("missing/swell/" + fn[10:], C_, fn, dict(v, beta=(0.0, 60.0)), ident, const=dict(crossing_seas=True))
    nonumber("missing/caisson-angle/" + fn[10:], C_, fn, v, ident)
    same("caisson-head-on/" + fn[10:], C_, fn, v, lambda M, k: dict(k, beta=0.0), lambda M, k: dict(k, gamma_beta=1.0), pre=lowq)
    same("caisson-factor-wins/" + fn[10:], C_, fn, dict(v, beta=(0.0, 60.0), gamma_beta=GBETA), ident, without("beta"), pre=lowq)
    error("unknown-exponent/" + fn[10:], C_, fn, dict(v, c=(1.01, 1.29)), lambda M, k: dict(k, beta=0.0))
    error("long-crested-parapet/" + fn[10:], C_, fn, v, lambda M, k: dict(k, beta=0.0), const=dict(short_crested_waves=False, parapet=True))

# ------------------------------------------------------------------ Van Gent 2025
W_ = OT + "vangent2025"


def bermq(M, db, Ac, **k):
    M.assume(Ac >= db)
    lowq(M, **k)


for fn, x in (("calculate_overtopping_discharge_q", dict(Rc=RC)), ("calculate_dimensionless_overtopping_discharge_q", dict(Rc=RC)),
              ("calculate_crest_freeboard_Rc", dict(q=(1e-7, 1e-4))), ("calculate_dimensionless_crest_freeboard", dict(q=(1e-7, 1e-4)))):
    v = dict(V25, gamma_f=GF, gamma_b=GB, gamma_beta=GBETA, **x)
    t = fn[10:]
    error("missing/roughness/" + t, W_, fn, v, without("gamma_f"))
    nonumber("missing/vg25-angle/" + t, W_, fn, v, without("gamma_beta"))

    def fang(M, k):
        k = dict(k)
        k["gamma_beta"] = M.fn(W_, "calculate_influence_oblique_waves_gamma_beta")(beta=k.pop("beta"))
        return k

    def frough(M, k):
        k = dict(k)
        s = M.fn(CP, "calculate_wave_steepness_s")(H=k["Hm0"], T=k["Tmm10"])
        k["gamma_f"] = M.fn(W_, "calculate_influence_friction_gamma_f")(Dn50=k.pop("Dn50"), Hm0=k["Hm0"], smm10=s)
        return k

    def fberm(M, k):
        k = dict(k)
        s = M.fn(CP, "calculate_wave_steepness_s")(H=k["Hm0"], T=k["Tmm10"])
        b, db = k.pop("B_berm"), k.pop("db")
        k["gamma_b"] = M.fn(W_, "calculate_influence_berm_gamma_b")(Hm0=k["Hm0"], smm10=s, Ac=k["Ac"], B_berm=b, BL=k["Ac"] - db)
        return k
    VS = tuple((W_, "calculate_influence_%s" % n) for n in ("oblique_waves_gamma_beta", "friction_gamma_f", "berm_gamma_b"))
    same("vg25-angle/" + t, W_, fn, dict({k: b for k, b in v.items() if k != "gamma_beta"}, beta=(0.0, 75.0)), ident, fang, stubs=VS, pre=lowq)
    same("vg25-roughness/" + t, W_, fn, dict({k: b for k, b in v.items() if k != "gamma_f"}, Dn50=(0.05, 3.0)), ident, frough, stubs=VS, pre=lowq)
    same("vg25-berm/" + t, W_, fn, dict({k: b for k, b in v.items() if k != "gamma_b"}, B_berm=(0.0, 10.0), db=(-3.0, 3.0)), ident, fberm, stubs=VS, pre=bermq)

# ------------------------------------------------------------------ unknown types
for t in ("", "round"):
    error("unknown-rock/M50/%s" % (t or "empty"), RA + "hudson1959", "calculate_median_rock_mass_M50",
          dict(rho_water=RW, rho_armour=RROCK, KD=(1.0, 20.0), cot_alpha=COT, Hs=HB, damage_percentage=(0.0, 100.0)), ident, const=dict(rock_type=t))
    error("unknown-structure/%s" % (t or "empty"), TR + "vangent2023", "calculate_wave_transmission_Kt", dict(Hm0=H, Tmm10=T, Rc=(-20.0, 20.0), B=(0.1, 200.0)), ident, const=dict(structure_type=t))
