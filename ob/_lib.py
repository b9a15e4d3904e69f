"""Helpers to state obligations."""
from vt.reg import ob

NAN = float("nan")
OT = "hydraulic.wave_overtopping."
RU = "hydraulic.wave_runup."
TR = "hydraulic.wave_transmission."
RA = "structural.stability_rock_armour."
RR = "structural.stability_rock_rear."
CA = "structural.stability_concrete_armour."
TB = "structural.stability_toe_berm."
FC = "structural.forces_caisson."
CW = "structural.forces_crestwall."
CP = "core_physics"
CU = "core_utility"

# wide physical boxes
H = (0.05, 15.0)
T = (1.0, 25.0)
COT = (1.0, 8.0)
RC = (0.05, 15.0)
GF = (0.35, 1.0)
GB = (0.6, 1.0)
GBETA = (0.6, 1.0)
GV = (0.65, 1.0)
Q = (1e-7, 2.0)
G = (9.0, 10.5)
RW = (950.0, 1100.0)
RROCK = (2000.0, 3500.0)
DN = (0.05, 5.0)
P = (0.1, 0.6)
N = (100.0, 10000.0)
S = (0.5, 20.0)

Z2P = ((RU + "taw2002", "determine_average_slope"), (RU + "taw2002", "iteration_procedure_z2p"), (RU + "eurotop2018", "iteration_procedure_z2p"))
GBETAS = tuple((a, "calculate_influence_oblique_waves_gamma_beta") for a in (RU + "taw2002", RU + "eurotop2018", OT + "taw2002", OT + "eurotop2018"))
GFA = ((RU + "taw2002", "calculate_adjusted_influence_roughness_gamma_f"),)
GBI = ((RU + "taw2002", "iteration_procedure_gamma_b"), (RU + "eurotop2018", "iteration_procedure_gamma_b"))


def call(M, mod, fn, **kw):
    return M.fn(mod, fn)(**kw)


def is_bool(x):
    return isinstance(x, bool) or type(x).__name__ in ("SymBool", "Atomic", "Comp", "bool_", "bool")


def compare(M, r, e, labels=("value", "second", "third", "fourth", "fifth")):
    """r: result of the code, e: reference; tuples compared componentwise.
    A reference component of the form ("ge", a, b) is the proposition a >= b."""
    if not isinstance(e, tuple) or (len(e) == 3 and e[0] == "ge"):
        e = (e,)
        r = (r,)
    if not isinstance(r, (tuple, list)) or len(r) != len(e):
        M.check("number of results", False)
        return
    for lab, x, y in zip(labels, r, e):
        if y is None:
            continue
        if isinstance(y, tuple) and y[0] == "ge":
            M.away((y[1], y[2]))
            M.check(lab + " flag", M.iff(M.truth1(x), y[1] >= y[2]))
        elif isinstance(y, bool):
            M.check(lab + " flag", M.iff(M.truth1(x), y))
        else:
            M.check(lab, M.eq(x, y))


def eqob(prop, name, mod, fn, var, ref, const=None, stubs=(), pre=None, pick=None, **okw):
    """obligation: the public function equals the reference for every input of the box"""
    const = const or {}

    def h(M):
        for a in stubs:
            M.stub_uf(*a)
        M.gfa_stub = GFA[0] in stubs
        kw = M.vars(**var)
        if pre:
            pre(M, **kw)
        f = M.fn(mod, fn)
        r = f(**kw, **const)
        if pick:
            r = pick(r)
        compare(M, r, ref(M, **kw, **const))
    ob(prop, name, funcs=(mod + "." + fn,), **okw)(h)
