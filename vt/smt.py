"""SMT encoding of sign conditions over Terms, with incremental linearisation.

Every positive quantity has a value variable V and, where products / powers /
exp / ln need it, a logarithm variable L.  Products and real powers are linear
in L, sums are linear in V, exp and ln move between the two.  V and L of the
same quantity are linked by sound axioms only (order equivalence, tangents and
secants of ln, interval bounds), so `unsat` is a proof for all reals in the
declared box; `sat` is only a candidate.
"""
from __future__ import annotations

import math
import time
from fractions import Fraction

import z3

from . import sym as S
from .shim import Atomic, Comp
from .sym import ALL, INF, NEG, POS, Z, Term

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "cvc5": 0, "nra": 0, "refinements": 0}


def q(fr):
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def qf(x, up):
    """rational just above / below the float x (relative 1e-12)"""
    f = Fraction(x)
    d = abs(f) * Fraction(1, 10 ** 12) + Fraction(1, 10 ** 300)
    f = f + d if up else f - d
    # shorten
    return f.limit_denominator(10 ** 24) if f.denominator > 10 ** 24 and abs(f) > Fraction(1, 10 ** 9) else f


def ln_bounds(x):
    """rational bounds on ln x, x a positive float or int"""
    l = math.log(x)
    e = abs(l) * 1e-14 + 1e-15
    return Fraction(l - e), Fraction(l + e)


class Enc:
    def __init__(self, signs):
        self.signs = signs
        self.V = {}
        self.Lv = {}
        self.duals = {}       # key -> (V, L, guard, name, iv)
        self.ax = []
        self.vm = {}
        self.fns = {}
        self.sumdone = set()
        self.n = 0

    def fresh(self, p):
        self.n += 1
        return z3.Real("%s!%d" % (p, self.n))

    def positive(self, a):
        return a.pos or S.atom_signs(a) == POS

    # ---- atoms
    def atomV(self, a):
        v = self.V.get(a)
        if v is not None:
            return v
        if a.kind == "prime":
            v = z3.RealVal(a.name)
            self.V[a] = v
            return v
        if a.kind == "sum":
            self.V[a] = v = self.val(a.args[0])
            if a.pos:
                self.ax.append(v > 0)
            return v
        if a.kind == "fn" and a.name == "ln":
            self.V[a] = v = self.fresh("ln")
            b = a.args[0]
            if b.is_const:
                lo, hi = ln_bounds(float(b.const) if b.const.denominator != 1 else b.const.numerator)
                self.ax += [v >= q(lo), v <= q(hi)]
                self.ax.append(v == self.atomL(S.mk_atom("prime", b.const.numerator, (), True, (float(b.const),) * 2)))
            else:
                self.ax.append(v == self.atomL(S._ln_base_atom(b)))
            self.ivb(v, a.iv)
            return v
        v = self.fresh(a.name if a.kind in ("var", "fn", "uf") else "v")
        self.V[a] = v
        self.ivb(v, a.iv)
        if a.pos:
            self.ax.append(v > 0)
        if a.kind == "var":
            lo, hi = a.args
            self.ax += [v >= q(Fraction(lo)), v <= q(Fraction(hi))]
        if a.kind == "fn":
            self.fn_axioms(a, v)
        elif a.kind == "uf":
            self.uf_axioms(a, v)
        if a.kind == "fn" and a.name == "exp":
            self.dual(("a", a), v, self.val(a.args[0]), None, a.iv)
        return v

    def ivb(self, v, iv):
        lo, hi = iv
        if -INF < lo and abs(lo) < 1e300:
            self.ax.append(v >= q(qf(lo, False)))
        if hi < INF and abs(hi) < 1e300:
            self.ax.append(v <= q(qf(hi, True)))

    def atomL(self, a):
        """log of |a|"""
        l = self.Lv.get(a)
        if l is not None:
            return l
        if a.kind == "fn" and a.name == "exp":
            self.Lv[a] = l = self.val(a.args[0])
            return l
        self.Lv[a] = l = self.fresh("L_" + (str(a.name)))
        if a.kind in ("prime", "pi"):
            lo, hi = ln_bounds(a.name if a.kind == "prime" else math.pi)
            self.ax += [l >= q(lo), l <= q(hi)]
            if a.kind == "pi":
                self.dual(("a", a), self.atomV(a), l, None, a.iv)
            return l
        v = self.atomV(a)
        if self.positive(a):
            self.dual(("a", a), v, l, None, a.iv)
            lo, hi = a.iv
            if lo > 0:
                self.ax.append(l >= q(ln_bounds(lo)[0]))
            if 0 < hi < INF:
                self.ax.append(l <= q(ln_bounds(hi)[1]))
        else:
            lo, hi = a.iv
            m = max(abs(lo), abs(hi))
            self.dual(("a", a), z3.If(v >= 0, v, -v), l, v != 0, (0.0, m))
        return l

    def fn_axioms(self, a, v):
        name = a.name
        lst = self.fns.setdefault(name, [])
        x = self.val(a.args[0])
        ax = self.ax
        lo, hi = a.args[0].iv
        if name in ("tanh", "sinh", "atan", "asin"):
            ax += [z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
            if name in ("tanh", "atan"):
                ax += [z3.Implies(x > 0, v < x), z3.Implies(x < 0, v > x)]
                if name == "tanh":
                    ax += [v < 1, v > -1]
            else:
                ax += [z3.Implies(x > 0, v > x), z3.Implies(x < 0, v < x)]
            for b, xb, vb in lst:
                ax += [(x < xb) == (v < vb), (x == xb) == (v == vb)]
            t = a.args[0]
            if name in ("tanh", "sinh") and len(t.mons) == 1 and t.mons[0][1] > 0 and t.mons[0][0] and all(self.positive(b) for b, _ in t.mons[0][0]):
                # the same bound in logarithmic form, for arguments that are products
                lx = self.monL(t.mons[0][0]) + self.lnc(t.mons[0][1])
                ax.append(self.atomL(a) < lx if name == "tanh" else self.atomL(a) > lx)
                ch = S._atoms.get(("fn", "cosh", a.args, True)) or S._atoms.get(("fn", "cosh", a.args, False))
                if name == "sinh" and ch is not None:
                    ax.append(self.atomL(a) < lx + self.atomL(ch))      # tanh x < x
        elif name == "cosh":
            ax += [v >= 1, z3.Implies(x != 0, v > 1)]
            for b, xb, vb in lst:
                ax.append(z3.Implies(x == xb, v == vb))
                if lo >= 0 and b.args[0].iv[0] >= 0:
                    ax += [(x < xb) == (v < vb)]
        elif name in ("sin", "cos"):
            ax += [v >= -1, v <= 1]
            if name == "sin":
                ax += [z3.Implies(x == 0, v == 0)]
                if lo >= 0:
                    ax.append(z3.Implies(x > 0, v < x))
                if lo >= 0 and hi < 3.1415926:
                    ax.append(z3.Implies(x > 0, v > 0))
            else:
                ax += [z3.Implies(x == 0, v == 1)]
            pi = self.atomV(S.PI)
            if name == "sin" and hi > 0 and hi < 6.28:
                ax.append(z3.Implies(z3.And(x >= 0, x <= pi), v >= 0))
            if name == "sin" and lo < 0 and lo > -6.28:
                ax.append(z3.Implies(z3.And(x <= 0, x >= -pi), v <= 0))
            for b, xb, vb in lst:
                ax.append(z3.Implies(x == xb, v == vb))
                if name == "cos":
                    ax.append(z3.Implies(z3.And(x >= 0, xb >= 0, x <= pi, xb <= pi), (x < xb) == (v > vb)))
                else:
                    ax.append(z3.Implies(z3.And(x >= -pi / 2, xb >= -pi / 2, x <= pi / 2, xb <= pi / 2),
                                         (x < xb) == (v < vb)))
            if name == "cos":
                ax += [z3.Implies(z3.And(x < pi / 2, x > -pi / 2), v > 0),
                       z3.Implies(z3.And(x > pi / 2, x < 3 * pi / 2), v < 0),
                       z3.Implies(z3.And(x > 0, x < 2 * pi), v < 1)]
        elif name in ("floor", "ceil", "round", "trunc"):
            i = z3.Int("i!%d" % self.n)
            ax.append(v == z3.ToReal(i))
            if name == "floor":
                ax += [v <= x, x < v + 1]
            elif name == "ceil":
                ax += [v >= x, x > v - 1]
            elif name == "trunc":
                ax += [z3.Implies(x >= 0, z3.And(v <= x, x < v + 1)), z3.Implies(x <= 0, z3.And(v >= x, x > v - 1))]
            else:
                ax += [2 * v - 2 * x <= 1, 2 * v - 2 * x >= -1]
            for b, xb, vb in lst:
                ax += [z3.Implies(x <= xb, v <= vb), z3.Implies(x >= xb, v >= vb)]
        lst.append((a, x, v))

    def uf_axioms(self, a, v):
        lst = self.fns.setdefault("uf:" + a.name, [])
        xs = [self.val(t) if isinstance(t, Term) else t for t in a.args]
        for b, xb, vb in lst:
            if len(xb) != len(xs):
                continue
            conds, ok = [], True
            for s, t in zip(xs, xb):
                if isinstance(s, z3.ExprRef) and isinstance(t, z3.ExprRef):
                    conds.append(s == t)
                elif isinstance(s, z3.ExprRef) or isinstance(t, z3.ExprRef) or s != t:
                    ok = False
            if ok:
                self.ax.append(z3.Implies(z3.And(*conds) if conds else z3.BoolVal(True), v == vb))
        if a.name == "KH":
            # mu = kh tanh(kh):  kh > mu, kh^2 > mu, strictly increasing in mu
            mu = xs[0]
            self.ax.append(v > mu)
            for b, xb, vb in lst:
                self.ax += [(mu < xb[0]) == (v < vb)]
            lmu = None
            t = a.args[0]
            if len(t.mons) == 1 and t.mons[0][1] > 0:
                lmu = self.monL(t.mons[0][0]) + self.lnc(t.mons[0][1])
            else:
                lmu = self.atomL(S.sum_atom(t, True))
            l = self.atomL(a)
            self.ax.append(2 * l > lmu)
            for b, xb, vb in lst:
                # kh/mu and kh^2/mu monotone: growth of kh between sqrt(mu) and mu
                tb = b.args[0]
                if len(tb.mons) == 1 and tb.mons[0][1] > 0:
                    lb = self.monL(tb.mons[0][0]) + self.lnc(tb.mons[0][1])
                else:
                    lb = self.atomL(S.sum_atom(tb, True))
                l2 = self.atomL(b)
                self.ax.append(z3.Implies(lmu > lb, z3.And(l - l2 < lmu - lb, 2 * (l - l2) > lmu - lb)))
                self.ax.append(z3.Implies(lmu < lb, z3.And(l2 - l < lb - lmu, 2 * (l2 - l) > lb - lmu)))
        lst.append((a, xs, v))

    def lnc(self, c):
        """ln of a positive rational as a linear expression over L_prime"""
        r = z3.RealVal(0)
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in S.factor(n).items():
                r = r + k * sg * self.atomL(S.mk_atom("prime", p, (), True, (float(p),) * 2))
        return r

    # ---- monomials
    def monL(self, mon):
        r = None
        for a, e in mon:
            x = self.atomL(a)
            x = x if e == 1 else q(e) * x
            r = x if r is None else r + x
        return z3.RealVal(0) if r is None else r

    def monV(self, mon):
        if not mon:
            return z3.RealVal(1)
        if len(mon) == 1 and mon[0][1] == 1:
            return self.atomV(mon[0][0])
        v = self.vm.get(mon)
        if v is not None:
            return v
        v = self.fresh("m")
        self.vm[mon] = v
        signed = [(a, e) for a, e in mon if not self.positive(a)]
        iv = (1.0, 1.0)
        for a, e in mon:
            iv = S.iv_mul(iv, S.iv_pow(a.iv, e))
        if iv[0] == iv[0] and iv[1] == iv[1]:
            self.ivb(v, iv)
        else:
            iv = (-INF, INF)
        if not signed:
            self.ax.append(v > 0)
            self.dual(("m", mon), v, self.monL(mon), None, (max(iv[0], 0.0), iv[1]))
        else:
            nz = z3.And(*[self.atomV(a) != 0 for a, e in signed])
            neg = None
            for a, e in signed:
                if e.numerator % 2:
                    s = self.atomV(a) < 0
                    neg = s if neg is None else z3.Xor(neg, s)
            if neg is None:
                self.ax.append(z3.Implies(nz, v > 0))
            else:
                self.ax.append(z3.Implies(nz, z3.And(z3.Implies(neg, v < 0), z3.Implies(z3.Not(neg), v > 0))))
            self.ax.append(z3.Implies(z3.Not(nz), v == 0))
            m = max(abs(iv[0]), abs(iv[1]))
            self.dual(("m", mon), z3.If(v >= 0, v, -v), self.monL(mon), nz, (0.0, m))
        return v

    def val(self, t: Term):
        r = None
        for m, c in t.mons:
            if not m:
                x = q(c)
            else:
                v = self.monV(m)
                x = v if c == 1 else q(c) * v
            r = x if r is None else r + x
        return z3.RealVal(0) if r is None else r

    # ---- linking axioms
    def dual(self, key, v, l, guard, iv):
        if key in self.duals:
            return
        self.duals[key] = d = (v, l, guard, iv)
        ax = []
        ax += [(v < 1) == (l < 0), (v == 1) == (l == 0)]
        ax.append(l <= v - 1)
        lo, hi = max(iv[0], 0.0), iv[1]
        if lo > 0 and hi < INF and hi > lo * (1 + 1e-9):
            ax += self.secant(v, l, lo, hi)
            for p in (lo, math.sqrt(lo) * math.sqrt(hi), hi):
                if 1e-300 < p < 1e300:
                    ax.append(self.tangent(v, l, p))
        if lo > 1e-300:
            ax.append(l >= q(ln_bounds(lo)[0]))
        if 1e-300 < hi < 1e300:
            ax.append(l <= q(ln_bounds(hi)[1]))
        for k2, (v2, l2, g2, _) in self.duals.items():
            if k2 == key:
                continue
            c = z3.And((v < v2) == (l < l2), (v == v2) == (l == l2))
            self.ax.append(z3.Implies(g2, c) if guard is None and g2 is not None else
                           c if guard is None else
                           z3.Implies(guard if g2 is None else z3.And(guard, g2), c))
        c = z3.And(*ax)
        self.ax.append(c if guard is None else z3.Implies(guard, c))

    def tangent(self, v, l, p):
        f = Fraction(p).limit_denominator(10 ** 6) if 1e-4 < p < 1e6 else Fraction(p)
        return l <= q(ln_bounds(f.numerator)[1] - ln_bounds(f.denominator)[0]) + (v - q(f)) / q(f)

    def secant(self, v, l, lo, hi):
        flo, fhi = Fraction(lo), Fraction(hi)
        a = ln_bounds(lo)[0]
        b = ln_bounds(hi)[0]
        s = (b - a) / (fhi - flo)
        # valid for lo <= v <= hi
        return [z3.Implies(z3.And(v >= q(flo), v <= q(fhi)), l >= q(a) + q(s) * (v - q(flo)))]

    # ---- conditions
    def atomic(self, t, allowed, withval):
        if not t.mons:
            return z3.BoolVal(0 in allowed)
        parts = []
        two = len(t.mons) == 2 and t.mons[0][1] * t.mons[1][1] < 0 and all(
            self.positive(a) for m, _ in t.mons for a, _ in m)
        if two:
            (m1, c1), (m2, c2) = t.mons
            if c1 < 0:
                (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
            e = self.monL(m1) - self.monL(m2) + self.lnc(c1 / -c2)
            parts.append(rel(e, allowed))
        if not two or withval:
            parts.append(rel(self.val(t), allowed))
        return parts[0] if len(parts) == 1 else z3.And(*parts)

    def cond(self, b, withval):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if isinstance(b, Atomic):
            return self.atomic(b.t, b.allowed, withval)
        ps = [self.cond(p, withval) for p in b.parts]
        return z3.And(*ps) if b.op == "and" else z3.Or(*ps)


def rel(e, allowed):
    a = frozenset(allowed)
    if a == ALL:
        return z3.BoolVal(True)
    if not a:
        return z3.BoolVal(False)
    return {POS: e > 0, NEG: e < 0, Z: e == 0, POS | Z: e >= 0, NEG | Z: e <= 0, POS | NEG: e != 0}[a]


def mval(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_rational_value(v):
        return v.as_fraction()
    return None


def model_point(enc, model, varatoms):
    """candidate points (value based, log based)"""
    pts = []
    for mode in (0, 1):
        env = {}
        for a in varatoms:
            lo, hi = float(a.args[0]), float(a.args[1])
            x = None
            if mode == 0 and a in enc.V:
                x = mval(model, enc.V[a])
            elif mode == 1 and a in enc.Lv and a.pos:
                l = mval(model, enc.Lv[a])
                if l is not None and abs(l) < 600:
                    x = math.exp(float(l))
            if x is None and a in enc.V:
                x = mval(model, enc.V[a])
            if x is None:
                continue
            env[a.name] = min(max(float(x), lo), hi)
        pts.append(env)
    return pts


def solve(pc, goal, signs, varatoms, timeout=4.0, rounds=6, accept=None, want="lra"):
    """pc: list of (Term, allowed); goal: SymBool/bool to satisfy in addition.
    accept(points) -> point or None decides whether a candidate is genuine.
    Returns (verdict, point, info)"""
    t0 = time.time()
    STATS["queries"] += 1
    old = S.CTX.signs
    S.CTX.signs = dict(signs)
    cands = []
    try:
        for withval in (False, True):
            enc = Enc(signs)
            cons = [enc.atomic(t, al, withval) for t, al in pc]
            cons.append(enc.cond(goal, withval))
            s = z3.SimpleSolver() if enc.fns.keys() & {"floor", "ceil", "round", "trunc"} else z3.SolverFor("QF_LRA")
            s.set("timeout", int(max(200, 1000 * (timeout - (time.time() - t0)))))
            s.add(*cons)
            done = 0
            s.add(*enc.ax)
            done = len(enc.ax)
            for rnd in range(rounds + 1):
                r = s.check()
                if r == z3.unsat:
                    STATS["unsat"] += 1
                    return "unsat", None, {"duals": len(enc.duals), "round": rnd}
                if r != z3.sat:
                    break
                m = s.model()
                pts = model_point(enc, m, varatoms)
                if accept is not None:
                    p = accept(pts)
                    if p is not None:
                        STATS["sat"] += 1
                        return "sat", p, {"round": rnd}
                cands += pts
                if time.time() - t0 > timeout:
                    break
                # refinement lemmas at the model
                new = []
                for v, l, g, iv in list(enc.duals.values()):
                    if g is not None and not z3.is_true(m.eval(g, model_completion=True)):
                        continue
                    fv, fl = mval(m, v), mval(m, l)
                    if fv is None or fl is None or fv <= 0:
                        continue
                    x = float(fv)
                    if not (1e-290 < x < 1e290):
                        continue
                    err = float(fl) - math.log(x)
                    if abs(err) < 1e-9 * max(1.0, abs(float(fl))):
                        continue
                    STATS["refinements"] += 1
                    ts = []
                    # tangent at x and at exp(fl)
                    ts.append(enc.tangent(v, l, x))
                    if abs(fl) < 300:
                        ts.append(enc.tangent(v, l, math.exp(float(fl))))
                    if err < 0:
                        lo, hi = max(iv[0], 0.0), iv[1]
                        if hi == INF or hi > 1e290:
                            hi = x * 1e6
                        if lo <= 0:
                            lo = x * 1e-6
                        pts2 = [lo, x, hi]
                        if abs(fl) < 300:
                            pts2.append(math.exp(float(fl)))
                        pts2 = sorted(p for p in pts2 if lo <= p <= hi and p > 1e-290)
                        for a, b in zip(pts2, pts2[1:]):
                            if b > a * (1 + 1e-9):
                                ts += enc.secant(v, l, a, b)
                    c = z3.And(*ts)
                    new.append(c if g is None else z3.Implies(g, c))
                if not new:
                    break
                s.add(*new)
                s.set("timeout", int(max(200, 1000 * (timeout - (time.time() - t0)))))
        STATS["unknown"] += 1
        return "unknown", (cands[-1] if cands else None), {"cands": cands[-6:]}
    finally:
        S.CTX.signs = old
        STATS["time"] += time.time() - t0


# ------------------------------------------------------------ polynomial (NRA) back end
class PEnc:
    """polynomial encoding: atom = u**d so all exponents become integers;
    exp/trig/uf atoms are free (bounded) reals.  Used as a second opinion."""

    def __init__(self, signs):
        self.signs = signs
        self.den = {}
        self.U = {}
        self.ax = []
        self.depth = 0

    def scan(self, t, seen):
        if t in seen:
            return
        seen.add(t)
        for m, _ in t.mons:
            for a, e in m:
                self.den[a] = math.lcm(self.den.get(a, 1), e.denominator)
                if a.kind in ("sum",) or (a.kind == "fn"):
                    self.scan(a.args[0], seen)

    def u(self, a):
        v = self.U.get(a)
        if v is None:
            d = self.den.get(a, 1)
            v = z3.Real("u!%d" % a.id)
            self.U[a] = v
            if d > 1 or a.pos:
                self.ax.append(v > 0)
            p = v
            for _ in range(d - 1):
                p = p * v
            lo, hi = (a.args if a.kind == "var" else a.iv)
            if a.kind == "prime":
                self.ax.append(p == a.name)
            else:
                if float(lo) > -INF and abs(float(lo)) < 1e200:
                    self.ax.append(p >= q(Fraction(lo) if a.kind == "var" else qf(lo, False)))
                if float(hi) < INF and abs(float(hi)) < 1e200:
                    self.ax.append(p <= q(Fraction(hi) if a.kind == "var" else qf(hi, True)))
            if a.kind == "sum":
                num, den = self.val(a.args[0])
                self.ax.append(p * den == num if den is not None else p == num)
            if a.kind == "fn" and a.name in ("sin", "cos"):
                other = S._atoms.get(("fn", "cos" if a.name == "sin" else "sin", a.args, True)) or S._atoms.get(
                    ("fn", "cos" if a.name == "sin" else "sin", a.args, False))
                if other is not None and other in self.U and d == 1 and self.den.get(other, 1) == 1:
                    self.ax.append(v * v + self.U[other] * self.U[other] == 1)
        return v

    def val(self, t):
        """(numerator, denominator or None) with integer powers of u"""
        mins = {}
        for m, c in t.mons:
            for a, e in m:
                if e < 0:
                    mins[a] = min(mins.get(a, 0), e)
        num = None
        for m, c in t.mons:
            ex = dict(m)
            for a, e in mins.items():
                ex[a] = ex.get(a, S.F0) - e
            p = q(c)
            for a, e in ex.items():
                n = e * self.den.get(a, 1)
                x = self.u(a)
                for _ in range(int(n)):
                    p = p * x
            num = p if num is None else num + p
        den = None
        for a, e in mins.items():
            n = -e * self.den.get(a, 1)
            x = self.u(a)
            for _ in range(int(n)):
                den = x if den is None else den * x
        return (z3.RealVal(0) if num is None else num), den

    def atomic(self, t, allowed):
        if not t.mons:
            return z3.BoolVal(0 in allowed)
        num, den = self.val(t)
        if den is None:
            return rel(num, allowed)
        return z3.Or(z3.And(den > 0, rel(num, allowed)), z3.And(den < 0, rel(num, frozenset(-x for x in allowed))))

    def cond(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if isinstance(b, Atomic):
            return self.atomic(b.t, b.allowed)
        ps = [self.cond(p) for p in b.parts]
        return z3.And(*ps) if b.op == "and" else z3.Or(*ps)

    def scan_cond(self, b, seen):
        if isinstance(b, Atomic):
            self.scan(b.t, seen)
        elif isinstance(b, Comp):
            for p in b.parts:
                self.scan_cond(p, seen)


def solve_nra(pc, goal, signs, varatoms, timeout=5.0, accept=None):
    t0 = time.time()
    STATS["queries"] += 1
    STATS["nra"] += 1
    old = S.CTX.signs
    S.CTX.signs = dict(signs)
    try:
        enc = PEnc(signs)
        seen = set()
        for t, _ in pc:
            enc.scan(t, seen)
        enc.scan_cond(goal, seen)
        if any(d > 60 for d in enc.den.values()):
            STATS["unknown"] += 1
            return "unknown", None, {}
        cons = [enc.atomic(t, al) for t, al in pc] + [enc.cond(goal)]
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", int(1000 * timeout))
        s.add(*cons)
        s.add(*enc.ax)
        r = s.check()
        if r == z3.unsat:
            STATS["unsat"] += 1
            return "unsat", None, {"nra": True}
        if r == z3.sat:
            m = s.model()
            env = {}
            for a in varatoms:
                if a in enc.U:
                    x = mval(m, enc.U[a])
                    if x is not None:
                        env[a.name] = min(max(float(x) ** enc.den.get(a, 1), float(a.args[0])), float(a.args[1]))
            p = accept([env]) if accept else env
            if p is not None:
                STATS["sat"] += 1
                return "sat", p, {"nra": True}
        STATS["unknown"] += 1
        return "unknown", None, {}
    finally:
        S.CTX.signs = old
        STATS["time"] += time.time() - t0


# ------------------------------------------------------------ linear over monomials, with monomial multipliers
def _goal_atoms(b, acc):
    if isinstance(b, Atomic):
        acc.append(b.t)
    elif isinstance(b, Comp):
        for p in b.parts:
            _goal_atoms(p, acc)
    return acc


def _norm(d):
    """{atom: exponent} -> (monomial with prime exponents in [0,1), rational coefficient)"""
    c = Fraction(1)
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
        elif a.kind == "prime":
            k = math.floor(e)
            if k:
                c *= Fraction(a.name) ** k
                if e - k:
                    d[a] = e - k
                else:
                    del d[a]
    return frozenset(d.items()), c


def _mon_ratio(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) - e
    return _norm(d)[0]


def _mon_mul(m, r):
    d = dict(m)
    for a, e in r:
        d[a] = d.get(a, 0) + e
    return _norm(d)


def solve_lin(pc, goal, signs, timeout=1.0, cap=400):
    """monomials are opaque reals; hypotheses may be multiplied by positive
    monomials that align them with the goal or with each other.  Sound: `unsat`
    is a linear certificate; anything else is `unknown`."""
    t0 = time.time()
    STATS["queries"] += 1
    STATS["lin"] = STATS.get("lin", 0) + 1
    old = S.CTX.signs
    S.CTX.signs = dict(signs)
    try:
        hyp = [(t, al) for t, al in pc if 2 <= len(t.mons) <= 60]
        tgt = _goal_atoms(goal, []) + [t for t, _ in hyp]
        V, ax = {}, []
        posc = {}

        def pos_atom(a):
            if a not in posc:
                posc[a] = S.atom_signs(a) == POS
            return posc[a]

        def var(m):
            k = frozenset(m)
            if k not in V:
                v = V[k] = z3.Real("m!%d" % len(V))
                if all(pos_atom(a) for a, _ in k):
                    ax.append(v > 0)
            return V[k]

        def lin(mons):
            return z3.Sum([var(m) * q(c) if m else q(c) for m, c in mons])

        def cond(b):
            if isinstance(b, bool):
                return z3.BoolVal(b)
            if isinstance(b, Atomic):
                return rel(lin(b.t.mons), b.allowed)
            ps = [cond(p) for p in b.parts]
            return z3.And(*ps) if b.op == "and" else z3.Or(*ps)

        cons = [rel(lin(t.mons), al) for t, al in hyp] + [cond(goal)]
        seen = set()
        for i, (t, al) in enumerate(hyp):
            for u in tgt:
                if u is t:
                    continue
                cnt = {}
                for m1, _ in u.mons:
                    for m2, _ in t.mons:
                        r = _mon_ratio(m1, m2)
                        if r:
                            cnt[r] = cnt.get(r, 0) + 1
                for r, n in sorted(cnt.items(), key=lambda kv: -kv[1])[:4]:
                    if n < 2 or (i, r) in seen or len(seen) >= cap or not all(pos_atom(a) for a, _ in r):
                        continue
                    seen.add((i, r))
                    cons.append(rel(lin([(k, c * f) for (k, f), c in ((_mon_mul(m, r), c) for m, c in t.mons)]), al))
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", int(1000 * timeout))
        s.add(*cons)
        s.add(*ax)
        if s.check() == z3.unsat:
            STATS["unsat"] += 1
            return "unsat", None, {"lin": len(seen)}
        STATS["unknown"] += 1
        return "unknown", None, None
    finally:
        S.CTX.signs = old
        STATS["time"] += time.time() - t0


# ------------------------------------------------------------ polynomial back end over few dimensionless products
def _expand(t):
    """positive integer powers of sums multiplied out"""
    for _ in range(6):
        hit = None
        for m, c in t.mons:
            for a, e in m:
                if a.kind == "sum" and e.denominator == 1 and e > 0:
                    hit = True
        if not hit:
            return t
        r = S.ZERO
        for m, c in t.mons:
            x = S.mk_term({tuple((a, e) for a, e in m if not (a.kind == "sum" and e.denominator == 1 and e > 0)): c})
            for a, e in m:
                if a.kind == "sum" and e.denominator == 1 and e > 0:
                    for _k in range(int(e)):
                        x = S.t_mul0(x, a.args[0])
            r = S.t_add(r, x)
        t = r
        if len(t.mons) > 400:
            return t
    return t


class _Span:
    """row-reduced rational span of exponent vectors, remembering generators"""

    def __init__(self):
        self.rows = []      # (pivot atom, reduced vector, combination of generators)
        self.gens = []

    def reduce(self, v):
        v = dict(v)
        comb = {}
        for piv, r, cb in self.rows:
            k = v.get(piv)
            if k:
                for a, x in r.items():
                    y = v.get(a, S.F0) - k * x
                    if y:
                        v[a] = y
                    else:
                        v.pop(a, None)
                for g, x in cb.items():
                    comb[g] = comb.get(g, S.F0) + k * x
        return v, comb

    def add(self, v):
        """returns True when v is a new direction; the generators then include v"""
        r, comb = self.reduce(v)
        if not r:
            return False
        g = len(self.gens)
        self.gens.append(dict(v))
        piv = next(iter(r))
        k = r[piv]
        row = {a: x / k for a, x in r.items()}
        cb = {h: -x / k for h, x in comb.items()}
        cb[g] = cb.get(g, S.F0) + 1 / k
        # keep the rows fully reduced
        new = []
        for p2, r2, c2 in self.rows:
            x = r2.get(piv)
            if x:
                r2 = dict(r2)
                c2 = dict(c2)
                for a, y in row.items():
                    z = r2.get(a, S.F0) - x * y
                    if z:
                        r2[a] = z
                    else:
                        r2.pop(a, None)
                for h, y in cb.items():
                    c2[h] = c2.get(h, S.F0) - x * y
            new.append((p2, r2, c2))
        new.append((piv, row, cb))
        self.rows = new
        return True

    def coords(self, v):
        r, comb = self.reduce(v)
        return None if r else {g: x for g, x in comb.items() if x}


def _ratios(t):
    """t divided by one of its monomials: list of (vector, coef); signed atoms stay as they are"""
    m0 = dict(t.mons[0][0])
    base = {a: e for a, e in m0.items() if a.pos or S.atom_signs(a) == POS}
    for m, _ in t.mons[1:]:
        pass
    out = []
    for m, c in t.mons:
        v = dict(m)
        for a, e in base.items():
            x = v.get(a, S.F0) - e
            if x:
                v[a] = x
            else:
                v.pop(a, None)
        out.append((v, c))
    return out


def solve_small(pc, goal, signs, timeout=3.0, maxdim=5):
    """unsat / unknown; the goal and the path conditions as polynomials in a few independent products of the inputs"""
    if not isinstance(goal, Atomic):
        return "unknown", None, {}
    t0 = time.time()
    STATS["queries"] += 1
    old = S.CTX.signs
    S.CTX.signs = dict(signs)
    try:
        t = _expand(goal.t)
        if not t.mons or len(t.mons) > 200:
            return "unknown", None, {}
        G = _ratios(t)
        if any(e.denominator != 1 and not (a.pos or S.atom_signs(a) == POS) for v, _ in G for a, e in v.items()):
            return "unknown", None, {}
        cand = []
        for p, al in pc:
            p = _expand(p)
            if 2 <= len(p.mons) <= 60:
                r = _ratios(p)
                if not any(e.denominator != 1 and not (a.pos or S.atom_signs(a) == POS) for v, _ in r for a, e in v.items()):
                    cand.append((r, al))
        for extra in (0, 1, 2):
            span = _Span()
            probe = _Span()
            hyp = []
            vecs = [v for v, _ in G if v]
            for v in vecs:
                probe.add(v)
            used = [False] * len(cand)
            base = len(probe.gens)
            changed = True
            while changed:
                changed = False
                for i, (r, al) in enumerate(cand):
                    if used[i]:
                        continue
                    new = [v for v, _ in r if v and probe.reduce(v)[0]]
                    if not new or len(probe.gens) + len(new) <= base + extra:
                        for v in new:
                            probe.add(v)
                        used[i] = True
                        changed = True
            hyp = [c for i, c in enumerate(cand) if used[i]]
            if len(probe.gens) > maxdim:
                break
            allv = vecs + [v for r, _ in hyp for v, _ in r if v]
            # single inputs first: their bounds are exact
            atoms = sorted({a for v in allv for a in v}, key=lambda a: a.id)
            for a in atoms:
                if not probe.reduce({a: S.F1})[0]:
                    span.add({a: S.F1})
            for v in sorted(allv, key=lambda v: (len(v), sum(abs(x) for x in v.values()))):
                span.add(v)
            co = {}
            den = {}
            for v in allv:
                k = frozenset(v.items())
                if k not in co:
                    co[k] = span.coords(v)
                    for g, x in co[k].items():
                        den[g] = math.lcm(den.get(g, 1), x.denominator)
            if any(d > 40 for d in den.values()):
                break
            Y, ax = {}, []
            for g, v in enumerate(span.gens):
                y = z3.Real("y!%d" % g)
                Y[g] = y
                iv = (1.0, 1.0)
                pos = True
                for a, e in v.items():
                    if not (a.pos or S.atom_signs(a) == POS):
                        pos = False
                    iv = S.iv_mul(iv, S.iv_pow(a.iv, e))
                d = den.get(g, 1)
                if pos:
                    ax.append(y > 0)
                    lo, hi = iv
                    if d > 1:
                        lo, hi = (lo ** (1.0 / d) if lo > 0 else 0.0), (hi ** (1.0 / d) if hi < INF else INF)
                    if lo > 0:
                        ax.append(y >= q(qf(lo * (1 - 1e-10), False)))
                    if hi < INF and hi < 1e200:
                        ax.append(y <= q(qf(hi * (1 + 1e-10), True)))
                else:
                    if d > 1:
                        break
                    if iv[0] > -1e200:
                        ax.append(y >= q(qf(iv[0], False)))
                    if iv[1] < 1e200:
                        ax.append(y <= q(qf(iv[1], True)))
            else:
                def poly(r):
                    mins = {}
                    rows = []
                    for v, c in r:
                        x = {g: int(e * den.get(g, 1)) for g, e in (co[frozenset(v.items())] if v else {}).items()}
                        rows.append((x, c))
                        for g, e in x.items():
                            if e < 0:
                                mins[g] = min(mins.get(g, 0), e)
                    s = None
                    for x, c in rows:
                        p = q(c)
                        for g in set(x) | set(mins):
                            for _ in range(x.get(g, 0) - mins.get(g, 0)):
                                p = p * Y[g]
                        s = p if s is None else s + p
                    return s
                neg_ok = all(all(a.pos or S.atom_signs(a) == POS for a in v) for v in span.gens)
                if not neg_ok and any(x < 0 for r in [G] + [h for h, _ in hyp] for v, _ in r for a, x in v.items() if not (a.pos or S.atom_signs(a) == POS)):
                    break
                sv = z3.SolverFor("QF_NRA")
                sv.set("timeout", int(1000 * timeout / 2))
                sv.add(rel(poly(G), goal.allowed), *ax)
                sv.add(*[rel(poly(r), al) for r, al in hyp])
                if sv.check() == z3.unsat:
                    STATS["unsat"] += 1
                    STATS["nra"] += 1
                    return "unsat", None, {"dims": len(span.gens)}
                if extra and len(probe.gens) == base:
                    break
                continue
            break
        STATS["unknown"] += 1
        return "unknown", None, {}
    finally:
        S.CTX.signs = old
        STATS["time"] += time.time() - t0


def split_goal(goal):
    """common factors of known weak sign taken out of the goal (a necessary condition of it)"""
    if not isinstance(goal, Atomic) or 0 in goal.allowed or len(goal.allowed) != 1:
        return goal
    t = goal.t
    if not t.mons:
        return goal
    com = dict(t.mons[0][0])
    for m, _ in t.mons[1:]:
        d = dict(m)
        com = {a: min(e, d[a]) if e > 0 else max(e, d[a]) for a, e in com.items() if a in d and (d[a] > 0) == (e > 0)}
    sg = 1
    out = {}
    for a, e in com.items():
        s = {1} if a.pos else set(S.atom_signs(a))
        if e.denominator != 1 and not a.pos:
            s &= {0, 1}
        elif e.denominator == 1 and e.numerator % 2 == 0:
            s = {1}
        if s <= {0, 1}:
            out[a] = e
        elif s <= {0, -1}:
            out[a] = e
            sg = -sg
    if not out:
        return goal
    d = {}
    for m, c in t.mons:
        ex = dict(m)
        for a, e in out.items():
            ex[a] -= e
        d[tuple((a, e) for a, e in ex.items() if e)] = c
    return Atomic(S.mk_term(d), frozenset(x * sg for x in goal.allowed))
