"""Monotonicity obligations over the catalogue of functions."""
from ob._lib import *
from ob._cat import CAT
from ob import _spec as sp


def steep(M, Hm0=None, Tmm10=None, **k):
    """waves that are not impossibly steep (steepness up to twice the breaking limit)"""
    H_ = Hm0 if Hm0 is not None else k.get("Hs")
    M.assume(2.0 * M.pi * H_ <= 0.14 * 9.81 * Tmm10 * Tmm10)


def mono(prop, key, spec, pre=None, comp=0, box=None, positive=False, const=None, tier="quick", name=None, lax=True, free=(), **okw):
    """spec: "arg+ arg- ..." : the result never decreases (increases) when only that argument grows"""
    item = CAT[key]
    for sg in spec.split():
        arg, up = sg[:-1], sg[-1] == "+"

        def h(M, item=item, arg=arg, up=up, pre=pre, comp=comp, positive=positive):
            var = dict(item.var, **(box or {}))
            kw = M.vars(**var)
            for fr in free:
                M.free(*fr)

            def f(x):
                k = dict(kw, **{arg: x})
                for p in (item.pre, pre):
                    if p:
                        p(M, **k)
                r = item.results(M, dict(k, **(const or {})))[comp]
                if positive:
                    M.assume(r >= 0)
                return r
            M.monotone("never decreases" if up else "never increases", f, kw[arg], up, var[arg])
        ob(prop, "%s/%s" % (name or key, arg), funcs=item.funcs, tier=tier, lax=lax, **okw)(h)
