"""C16 - arrays: every element gets the scalar result; inputs are not modified"""
from ob._lib import *
from ob._cat import CAT, FLAG

HEAVY = {"q/vangent2025/factors"}      # one array at a time only


def element(M, x, i):
    """element i of a result that may have been broadcast"""
    n = getattr(x, "size", 1)
    if isinstance(x, (list, tuple)):
        return x[i] if len(x) == 2 else x[0] if len(x) == 1 else None
    if n == 1 or not hasattr(x, "ravel"):
        return M.item(x)
    return x.ravel()[i] if n == 2 else None


def elementwise(M, item, ar, kws, orig):
    for a in item.stubs:
        M.stub_uf(*a)
    got = item.results(M, ar)
    for a, v in orig.items():
        M.check("%s left unchanged" % a, M.land(*[M.eq(x, y) for x, y in zip(ar[a], v)]))
    exp = [item.results(M, k) for k in kws]
    for j, (o, r) in enumerate(zip(item.out, got)):
        for i in (0, 1):
            x, y = element(M, r, i), M.item(exp[i][j])
            lab = "result %d element %d" % (j, i)
            if x is None:
                M.check(lab, False)
            elif o is FLAG:
                M.check(lab, M.iff(M.truth1(x), M.truth1(y)))
            else:
                M.check(lab, M.eq(x, y))


def hall(item):
    """all arguments arrays of two elements"""
    def h(M):
        k1, k2 = {}, {}
        for a, (lo, hi) in item.var.items():
            k1[a] = M.var(a, lo, hi)
            k2[a] = M.var(a + "_2", lo, hi)
        if item.pre:
            item.pre(M, **k1)
            item.pre(M, **k2)
        ar = {a: M.arr(k1[a], k2[a]) for a in k1}
        elementwise(M, item, ar, (k1, k2), {a: (k1[a], k2[a]) for a in k1})
    return h


def hone(item, a):
    """one argument an array, the others scalars"""
    def h(M):
        k1 = M.vars(**item.var)
        k2 = dict(k1)
        k2[a] = M.var(a + "_2", *item.var[a])
        if item.pre:
            item.pre(M, **k1)
            item.pre(M, **k2)
        ar = dict(k1)
        ar[a] = M.arr(k1[a], k2[a])
        elementwise(M, item, ar, (k1, k2), {a: (k1[a], k2[a])})
    return h


def heach(item):
    """each argument in turn an array of two equal elements, the others scalars (no product of regimes)"""
    def h(M):
        k1 = M.vars(**item.var)
        if item.pre:
            item.pre(M, **k1)
        for a in item.stubs:
            M.stub_uf(*a)
        exp = item.results(M, k1)
        for a in item.var:
            ar = dict(k1)
            ar[a] = M.arr(k1[a], k1[a])
            got = item.results(M, ar)
            M.check("%s left unchanged" % a, M.land(*[M.eq(x, k1[a]) for x in ar[a]]))
            for j, (o, r) in enumerate(zip(item.out, got)):
                xs, y = [element(M, r, i) for i in (0, 1)], M.item(exp[j])
                lab = "%s: result %d" % (a, j)
                if any(x is None for x in xs):
                    M.check(lab, False)
                elif o is FLAG:
                    M.check(lab, M.land(*[M.iff(M.truth1(x), M.truth1(y)) for x in xs]))
                else:
                    M.check(lab, M.land(*[M.eq(x, y) for x in xs]))
    return h


for _k, _it in CAT.items():
    if _it.arr:
        _v = _k.endswith("/bestfit") or _k.endswith("/mean")
        if _k not in HEAVY and not _v:
            ob("C16", "all/" + _k, funcs=_it.funcs, lax=True, weight=9 if "eurotop" in _k or "takahashi" in _k else 1)(hall(_it))
        if len(_it.var) > 1 and not _v:
            ob("C16", "each/%s" % _k, tier="thorough" if _k in HEAVY else "quick", funcs=_it.funcs, lax=True)(heach(_it))
            for _a in _it.var:
                ob("C16", "one/%s/%s" % (_k, _a), tier="thorough", funcs=_it.funcs, lax=True)(hone(_it, _a))
