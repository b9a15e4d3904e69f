"""C09 - calculations judge the values actually used; results do not depend on the verdict"""
from ob._lib import *
from ob._cat import CAT, Item, FLAG
from ob._limits import T8, names, outside

ROWS = []
BIGB = (-20.0, 110.0)


def row(key, t8, given, derive=None, over=None, item=None, tag="", free=(), **k):
    """item `key` must judge every entry of table t8 whose arguments are among `given`"""
    it = item or CAT[key]
    var = dict(it.var, **(over or {}))
    for f in free:
        var.pop(f)
    const = dict(it.const, **k)
    ROWS.append((key + tag, it, var, const, t8, given.split(), derive))


def rhf(M, kw, r):
    return M.np.sqrt(2 * M.pi * kw.get("Hm0", kw.get("Hm0_HF")) / kw["smm10_HF"] / 9.81)


def d_dr(M, kw, r):
    h = kw.get("Hm0", kw.get("Hm0_HF"))
    return dict(Hm0=h, Hm0_HF=h, Tmm10_HF=rhf(M, kw, r))


SHF = (0.002, 0.08)
for eq, t, hn in (("24", "dr24", ""), ("26", "dr24", " Hm0_LF"), ("28", "dr26", " theta"), ("32", "dr26", " Hm0_LF theta")):
    row("q/deridder/eq" + eq, t, "Hm0 Hm0_HF Tmm10_HF Rc" + hn, d_dr)
for eq, hn in (("24", ""), ("26", " Hm0_LF")):
    row("Rc/deridder/eq" + eq, "dr24", "Hm0 Hm0_HF Tmm10_HF Rc" + hn, lambda M, kw, r: dict(d_dr(M, kw, r), Rc=r[0]))
row("q/rubble2018", "eu18rm", "cot_alpha")
row("Rc/rubble2018", "eu18rm", "cot_alpha", over=dict(q=(1e-6, 1e-3)))
GG = dict(gamma_beta=(0.3, 1.1), gamma_f=(0.3, 1.1), gamma_v=(0.3, 1.1))
for f in ("q", "Rc"):
    row(f + "/taw2002", "taw", "Hm0 Tmm10 cot_alpha gamma_b gamma_f gamma_beta gamma_v", over=dict(GG, cot_alpha=(0.5, 9.0)))
for t in ("", "/short_crested_waves", "/crossing_seas", "/parapet"):
    o = dict(beta=(0.0, 85.0))
    row("q/caisson2021" + t, "vg21", "Hm0 Rc q_diml beta", lambda M, kw, r: dict(q_diml=r[0] / M.np.sqrt(9.81 * kw["Hm0"] ** 3)), over=o)
    row("Rc/caisson2021" + t, "vg21", "Hm0 Rc beta", lambda M, kw, r: dict(Rc=r[0]), over=o)
row("q/vangent2025", "vg25", "Hm0 Tmm10 cot_alpha Rc Ac", over=dict(cot_alpha=(1.0, 9.0)))
row("q/vangent2025/factors", "vg25", "Hm0 Tmm10 cot_alpha Rc Ac Dn50 B_berm db beta")
row("Rc/vangent2025", "vg25", "Hm0 Tmm10 cot_alpha Rc Ac", lambda M, kw, r: dict(Rc=r[0]))
for k in ("runup/taw2002", "runup/taw2002/diml", "runup/taw2002/bestfit"):
    row(k, "tawru", "Hm0 Tmm10 cot_alpha gamma_b gamma_f gamma_beta", over=dict(gamma_b=(0.4, 1.1), gamma_f=(0.35, 1.1), gamma_beta=(0.4, 1.1), cot_alpha=(0.5, 20.0)))


def d_tr(M, kw, r):
    s = 2 * M.pi * kw["Hsi"] / (9.81 * kw["Tpi"] ** 2)
    ksi = 1 / kw["cot_alpha"] / M.np.sqrt(s)
    d = dict(s0p=s, ksi_0p=ksi, Rc_over_Hsi=kw["Rc"] / kw["Hsi"])
    if "h" in kw:
        d["Hsi_over_h"] = kw["Hsi"] / kw["h"]
    return d


row("Kt/briganti", "brig", "s0p ksi_0p", d_tr)
# the coefficient is judged before it is limited to its range
for k, c in (("permeable", 0.64), ("impermeable", 0.8)):
    row("Kt/dangremond/" + k, "dang", "s0p Hsi_over_h Rc_over_Hsi Kt", lambda M, kw, r, c=c: dict(
        d_tr(M, kw, r), Kt=-0.4 * kw["Rc"] / kw["Hsi"] + c * (kw["B"] / kw["Hsi"]) ** -0.31 * (1 - M.np.exp(-0.5 * d_tr(M, kw, r)["ksi_0p"]))))
row("Kt/vangent2023/permeable", "vg23p", "Hm0 Tmm10 Rc B")
row("Kt/vangent2023/impermeable", "vg23i", "Hm0 Tmm10 Rc B")
row("setup/impermeable", "vg24i", "Hm0 Tmm10 Rc")
row("setup/permeable", "vg24p", "Hm0 Tmm10 Rc hc")
row("crestwall/FH", "cw", "Hm0 Ac Rc")
row("crestwall/FH-oblique", "cw", "Hm0 Ac Rc beta", over=dict(beta=(0.0, 85.0)))
row("crestwall/FV", "cw", "Hm0 Fb")
row("crestwall/FV-oblique", "cw", "Hm0 Fb beta", over=dict(beta=(0.0, 85.0)))
for k, t in (("accropode2", "accr2"), ("accropode", "accr"), ("core_loc", "core")):
    row(k + "/M", t, "cot_alpha", over=dict(cot_alpha=(1.0, 3.0)))
    row(k + "/Hs", t, "cot_alpha", over=dict(cot_alpha=(1.0, 3.0)))
    row(k + "/KD", t, "seabed_slope_perc", over=dict(seabed_slope_perc=(-3.0, 15.0)))
NW = dict(N_waves=(100.0, 12000.0))


def tm_(M, H, s0m):
    return M.np.sqrt(2 * M.pi * H / (9.81 * s0m))


row("cubes1988/Dn", "cub88", "Hs Tm rho_armour N_waves cot_alpha", over=dict(NW, Tm=(0.3, 40.0)))
row("cubes1988/Hs", "cub88", "Hs rho_armour N_waves cot_alpha", lambda M, kw, r: dict(Hs=r[0], Tm=tm_(M, r[0], kw["s0m"])), over=NW)
row("cubes1988/Nod", "cub88", "Hs rho_armour N_waves cot_alpha", lambda M, kw, r: dict(Tm=tm_(M, kw["Hs"], kw["s0m"])), over=NW)
W = dict(rho_water=1025.0)
row("etemad2020/S", "et20", "Hs Tmm10 N_waves cot_alpha Dn50 Dn50_core S rho_armour rho_water", lambda M, kw, r: dict(S=r[0]), over=NW)
row("etemad2020/S/mass", "et20", "Hs Tmm10 N_waves cot_alpha Dn50 Dn50_core S rho_armour rho_water", lambda M, kw, r: dict(
    W, S=r[0], Dn50=(kw["M50"] / kw["rho_armour"]) ** (1.0 / 3.0), Dn50_core=(kw["M50_core"] / kw["rho_core"]) ** (1.0 / 3.0)), over=NW)
row("etemad2020/Hs", "et20", "Hs Tmm10 N_waves cot_alpha Dn50 Dn50_core S rho_armour rho_water", lambda M, kw, r: dict(W, Hs=r[0]), over=dict(NW, S=(0.5, 30.0)))
row("jumelet/S", "jum", "Hs Tmm10 N_waves cot_alpha", over=dict(N_waves=(100.0, 25000.0)))
row("jumelet/Dn50", "jum", "Hs Tmm10 N_waves cot_alpha", over=dict(N_waves=(100.0, 25000.0)))
row("kramer/Hs", "kb", "Rc Dn50")
SCG = "Hm0 Tmm10 N_waves cot_alpha Dn50 Dn50_core rho_armour rho_water"
row("scaravaglione/S", "sc25", SCG, over=NW)
row("scaravaglione/S/mass", "sc25", SCG, lambda M, kw, r: dict(
    Dn50=(kw["M50"] / kw["rho_armour"]) ** (1.0 / 3.0), Dn50_core=(kw["M50_core"] / kw["rho_core"]) ** (1.0 / 3.0)), over=NW)
row("scaravaglione/Dn50", "sc25", SCG, lambda M, kw, r: dict(Dn50=r[0]), over=NW)
row("scaravaglione/Hm0", "sc25", SCG, lambda M, kw, r: dict(Hm0=r[0]), over=NW)
PV = dict(NW, P=(0.05, 0.8), rho_armour=(1800.0, 3500.0), cot_alpha=(0.8, 9.0))
for k in ("S", "Dn50"):
    row("vandermeer1988/" + k, "vdm", "P Hs H2p cot_alpha rho_armour N_waves", over=PV)
row("vandermeer1988/S/mass", "vdm", "P Hs H2p cot_alpha rho_armour N_waves", over=PV)
row("vandermeer1988/Hs", "vdm", "P cot_alpha rho_armour N_waves", over=PV)
for k in ("S", "Dn50", "Hs"):
    row("vandermeer2021/" + k, "vdm", "P cot_alpha rho_armour N_waves", over=PV)
    d = None if k == "S" else (lambda M, kw, r: dict(Dn50=r[0])) if k == "Dn50" else (lambda M, kw, r: dict(Hs=r[0]))
    row("vandermeer1988_modified/" + k, "vdmm", ("Hs Tmm10 N_waves cot_alpha P Dn50 rho_armour rho_water" + (" H2p" if k != "Hs" else "")), d, over=PV)
row("vandermeer1988_modified/S/mass", "vdmm", "Hs H2p Tmm10 N_waves cot_alpha P Dn50 rho_armour rho_water",
    lambda M, kw, r: dict(Dn50=(kw["M50"] / kw["rho_armour"]) ** (1.0 / 3.0)), over=PV)


def z1(M, kw, r):
    return M.fn(RU + "vangent2001", "calculate_wave_runup_height_z1p")(Hs=kw["Hs"], Tmm10=kw["Tmm10"], gamma=kw.get("gamma", kw.get("gamma_f")), cot_alpha=kw["cot_alpha"])


for k, v in (("S", "S"), ("Dn50", "Dn50")):
    row("rear2007/" + k, "rr07", "Hs Rc z1p Rc2_front Rc2_rear N_waves Dn50 S", lambda M, kw, r, v=v: {v: r[0], "z1p": z1(M, kw, r)}, over=NW)
    row("rear2004/" + k, "rr04", "Hs Tmm10 Rc Rc_rear cot_phi gamma_f Dn50 rho_rock rho_w Bc z1p S N_waves",
        lambda M, kw, r, v=v: {v: r[0], "z1p": z1(M, kw, r), "rho_w": kw["rho_water"]}, over=NW)
row("etemad2021/Nod", "et21", "Hs ht", lambda M, kw, r: dict(rho_armour=kw["rho_rock"], Nod=r[0]))
row("etemad2021/Dn50", "et21", "Hs ht", lambda M, kw, r: dict(rho_armour=kw["rho_rock"], Dn50=r[0]))
for k, v in (("Nod", "Nod"), ("Dn50", "Dn50"), ("Hs", "Hs")):
    row("gerding1993/" + k, "gerd", "ht h Dn50", lambda M, kw, r, v=v: {v: r[0]})
    row("vandermeer1998/" + k, "vdm98", "Hs ht h Dn50 Nod Delta", lambda M, kw, r, v=v: {v: r[0], "Delta": kw["rho_rock"] / kw["rho_water"] - 1}, over=dict(Hs=(0.005, 25.0)) if v != "Hs" else {})
row("takahashi/Ns", "taka", "Ns Bt", lambda M, kw, r: dict(Ns=r[0]))
for k in ("Nod", "Dn50"):
    row("vgvdw2014/" + k, "vgvdw", "Hs tt ht cot_alpha_armour_slope", lambda M, kw, r, k=k: {"Hs": kw["Hm0"], k: r[0]})
# depth above the toe
_G = dict(Hs=HB if False else (0.1, 12.0), Dn50=DN, h=(0.2, 30.0), Nod=(0.01, 10.0), rho_rock=RROCK, rho_water=RW)
for k, t, g in (("gerding1993", "gerd", "ht h Dn50"), ("vandermeer1998", "vdm98", "Hs ht h Dn50 Nod Delta")):
    row(k + "/ht", t, g, lambda M, kw, r: dict(ht=r[0], Delta=kw["rho_rock"] / kw["rho_water"] - 1),
        item=Item(k + "/ht", TB + k, "calculate_depth_above_toe_ht", _G, 1,
                  pre=None if k == "gerding1993" else lambda M, Hs, Dn50, h, Nod, rho_rock, rho_water:
                  M.assume(Hs / ((rho_rock / rho_water - 1) * Dn50) * Nod ** -0.15 > 2.001)))


def h09(it, var, const, t8, given, derive):
    mod, fn, formula, entries, opts = T8[t8]

    def h(M):
        kw = M.vars(**var)
        if it.pre:
            it.pre(M, **kw)
        f = M.fn(it.mod, it.fn)

        def run():
            r = f(**dict(const, **kw))
            return (r,) if it.single else tuple(r)
        r, ms = M.range_events(run)
        full = dict(kw)
        if derive:
            full.update(derive(M, kw, r))
        known = set(full)
        for nm, expr, lo, hi in entries:
            ns = set(names(expr))
            if ns <= set(given):
                M.check("judges " + nm, M.iff(ms.exact(nm, formula), outside(M, expr, lo, hi, full)))
            elif ns <= known:
                M.check("no false warning " + nm, M.implies(ms.exact(nm, formula), outside(M, expr, lo, hi, full)))
        for verdict in (True, False):
            M.patch(CU, "check_variable_validity_range",
                    lambda old, verdict=verdict: (lambda name, method, value, lo, hi: [verdict] * max(1, getattr(value, "size", 1))))
            r2 = run()
            for i, (o, a, b) in enumerate(zip(it.out, r, r2)):
                M.check("result %d does not depend on the verdict (%s)" % (i, verdict),
                        M.iff(M.truth1(M.item(a)), M.truth1(M.item(b))) if o is FLAG else M.eq(a, b))
    return h


for _n, _it, _v, _c, _t, _g, _d in ROWS:
    ob("C09", _n, funcs=_it.funcs + (T8[_t][0] + "." + T8[_t][1],), lax=True)(h09(_it, _v, _c, _t, _g, _d))
