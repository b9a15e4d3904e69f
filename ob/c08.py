"""C08 - a validity warning is issued exactly when a parameter is outside its range"""
from ob._lib import *
from ob._limits import T8, ALIAS, BOX, names, outside, direct, value

OPT = ("rho_water",)


def allargs(key):
    out = []
    for e in T8[key][3]:
        for n in names(e[1]):
            if n not in out:
                out.append(n)
    return out


def judge(M, key, given, tag):
    """call the check function with the given arguments and judge every entry"""
    mod, fn, formula, entries, opts = T8[key]
    al = ALIAS.get(key, {})
    kw = {al.get(k, k): v for k, v in given.items()}
    f = M.fn(mod, fn)
    _, ms = M.range_events(lambda: f(**kw, **opts))
    full = dict(given)
    if "rho_water" not in full:
        full["rho_water"] = 1025.0
    for nm, expr, lo, hi in entries:
        if all(n in full for n in names(expr)):
            M.check("%s: %s" % (tag, nm), M.iff(ms.exact(nm), outside(M, expr, lo, hi, full)))
        else:
            M.check("%s: %s not judged" % (tag, nm), M.lnot(ms.exact(nm)))
    M.check(tag + ": only documented parameters", ms.only([e[0] for e in entries]))
    M.check(tag + ": names the method", ms.formula_ok(formula))


for _key in T8:
    def _full(M, key=_key):
        kw = {a: M.var(a, *BOX[a]) for a in allargs(key)}
        judge(M, key, kw, "all given")
    ob("C08", _key + ".all", funcs=(T8[_key][0] + "." + T8[_key][1],))(_full)

    def _subsets(M, key=_key):
        kw = {a: M.var(a, *BOX[a]) for a in allargs(key)}
        judge(M, key, {}, "nothing given")
        done = set()
        for e in T8[key][3]:
            own = frozenset(n for n in names(e[1]) if n not in OPT)
            if own not in done:
                done.add(own)
                judge(M, key, {a: kw[a] for a in own}, "only " + ",".join(sorted(own)))
        for a in allargs(key):
            rest = frozenset(b for b in kw if b != a)
            if rest not in done:
                done.add(rest)
                judge(M, key, {b: kw[b] for b in sorted(rest)}, "without " + a)
    ob("C08", _key + ".subsets", funcs=(T8[_key][0] + "." + T8[_key][1],))(_subsets)

    def _arrays(M, key=_key):
        mod, fn, formula, entries, opts = T8[key]
        al = ALIAS.get(key, {})
        k1 = {a: M.var(a + "_1", *BOX[a]) for a in allargs(key)}
        k2 = {a: M.var(a + "_2", *BOX[a]) for a in allargs(key)}
        f = M.fn(mod, fn)
        _, ms = M.range_events(lambda: f(**{al.get(a, a): M.arr(k1[a], k2[a]) for a in k1}, **opts))
        for nm, expr, lo, hi in entries:
            M.check("array: " + nm, M.iff(ms.exact(nm), M.lor(outside(M, expr, lo, hi, k1), outside(M, expr, lo, hi, k2))))
    ob("C08", _key + ".arrays", funcs=(T8[_key][0] + "." + T8[_key][1],))(_arrays)


@ob("C08", "shared.scalar", funcs=("core_utility.check_variable_validity_range",))
def shared_scalar(M):
    M.real_range_check()
    v, lo, hi = M.var("v", -5.0, 5.0), M.var("lo", -3.0, 3.0), M.var("hi", -3.0, 3.0)
    M.assume(lo <= hi)
    r, ms = M.range_events(lambda: M.fn(CU, "check_variable_validity_range")("Quantity X", "Some (1999)", v, lo, hi))
    out = M.lor(v < lo, v > hi)
    M.check("one verdict", len(r) == 1)
    M.check("valid iff inside", M.iff(M.truth1(r[0]), M.lnot(out)))
    M.check("one warning iff outside", M.iff(len(ms.texts()) == 1, out))
    M.check("no warning iff inside", M.iff(len(ms.texts()) == 0, M.lnot(out)))
    M.check("warning names parameter, limits and method",
            all("Quantity X" in t and "Some (1999)" in t and str(lo) in t and str(hi) in t for t in ms.texts()))


@ob("C08", "shared.array", funcs=("core_utility.check_variable_validity_range",))
def shared_array(M):
    M.real_range_check()
    v = [M.var("v%d" % i, -5.0, 5.0) for i in (1, 2, 3)]
    lo, hi = -1.25, 2.5
    for form in (lambda: M.arr(*v), lambda: list(v)):
        x = form()
        r, ms = M.range_events(lambda: M.fn(CU, "check_variable_validity_range")("Quantity X", "Some (1999)", x, lo, hi))
        outs = [M.lor(a < lo, a > hi) for a in v]
        M.check("one verdict per element", len(r) == 3)
        for i in range(3):
            M.check("element %d valid iff inside" % i, M.iff(M.truth1(r[i]), M.lnot(outs[i])))
        n = len(ms.texts())
        M.check("one warning per element outside", M.land(
            M.iff(n == 0, M.lnot(M.lor(*outs))), M.iff(n == 3, M.land(*outs))))
        for i in range(3):
            M.check("argument left unchanged", M.eq(x[i], v[i]))


@ob("C08", "shared.limits", funcs=("core_utility.check_variable_validity_range",))
def shared_limits(M):
    """the limits themselves are inside; a lower equal to an upper limit allows exactly that value"""
    M.real_range_check()
    lo, w = M.var("lo", -3.0, 3.0), M.var("w", 0.0, 3.0)
    hi = lo + w
    f = M.fn(CU, "check_variable_validity_range")
    for lab, v in (("lower", lo), ("upper", hi)):
        r, ms = M.range_events(lambda: f("Quantity X", "Some (1999)", v, lo, hi))
        M.check(lab + " limit is inside", M.land(M.truth1(r[0]), len(ms.texts()) == 0))
    r, ms = M.range_events(lambda: f("Quantity X", "Some (1999)", lo, lo, lo))
    M.check("degenerate range", M.land(M.truth1(r[0]), len(ms.texts()) == 0))
    e = M.var("e", 0.001, 5.0)
    for lab, v in (("below", lo - e), ("above", hi + e)):
        r, ms = M.range_events(lambda: f("Quantity X", "Some (1999)", v, lo, hi))
        M.check(lab + " is outside", M.land(M.lnot(M.truth1(r[0])), len(ms.texts()) == 1))
