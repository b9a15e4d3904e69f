"""C13 - Froude similarity: results scale with the size of the structure"""
from ob._lib import *
from ob._cat import CAT, exponent, LEN, TIME, MASS

# published forms with dimensional constants
SKIP = set()


def h13(item):
    def h(M):
        kw = M.vars(**item.var)
        r = M.var("rootlam", 0.5, 2.25)          # square root of the length scale, lambda 0.25 .. 5
        lam = r * r
        for a in item.stubs:
            M.stub_uf(*a)
        sc = {}
        for a, v in kw.items():
            e = exponent(a)
            sc[a] = v if e == 0 else v * r if e == 0.5 else v * lam if e == 1 else v * r ** 3 if e == 1.5 else v * lam ** 3
        if item.pre:
            item.pre(M, **kw)
            item.pre(M, **sc)
        x = item.results(M, kw)
        y = item.results(M, sc)
        for i, (e, a, b) in enumerate(zip(item.out, x, y)):
            if e is None:
                continue
            f = {0: 1, 0.5: r, 1: lam, 1.5: r ** 3, 2: lam ** 2, 3: lam ** 3}[e]
            M.check("result %d" % i, M.eq(b, f * a))
    return h


for _k, _it in CAT.items():
    if _it.scale and _k not in SKIP and any(exponent(a) for a in _it.var):
        ob("C13", _k, funcs=_it.funcs)(h13(_it))
