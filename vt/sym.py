"""Exact symbolic real arithmetic for the symbolic executor.

A Term is a sum of monomials  coef * prod(atom ** exponent)  with exact
rational coefficients and exponents.  Atoms are variables, pi, primes (with a
fractional exponent), applications of exp/ln/trig/hyperbolic functions,
uninterpreted functions, and wrapped sums (SumAtom).  Terms are hash-consed.
Rewrites are only those valid over the reals under the recorded sign facts.
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

F0, F1 = Fraction(0), Fraction(1)
INF = float("inf")
NAN = float("nan")


class Unsupported(Exception):
    """the executed code left the fragment the engine can encode"""


class Discard(BaseException):
    """path excluded by an assumption"""


class PathLimit(Exception):
    pass


# ---------------------------------------------------------------- floats
_ratcache: dict = {}


def rat(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    r = _ratcache.get(x)
    if r is None:
        if x != x or x in (INF, -INF):
            raise Unsupported("nan/inf in exact arithmetic")
        s = repr(x)
        digits = len(s.split("e")[0].replace(".", "").replace("-", "").strip("0"))
        if digits <= 12:
            r = Fraction(s)
        else:
            s15 = "%.14g" % x
            d15 = len(s15.split("e")[0].replace(".", "").replace("-", "").strip("0"))
            r = None
            if d15 <= 11:
                r = Fraction(s15)
            else:
                c = Fraction(x).limit_denominator(20000)
                if c != 0 and abs(float(c) - x) <= 4e-16 * abs(x):
                    r = c
                elif x != 0:
                    # reciprocal of a short decimal (1/0.857, ...)
                    inv = "%.14g" % (1.0 / x)
                    di = len(inv.split("e")[0].replace(".", "").replace("-", "").strip("0"))
                    if di <= 8 and abs(1.0 / float(inv) - x) <= 4e-16 * abs(x):
                        r = 1 / Fraction(inv)
            if r is None:
                r = Fraction(s)
        _ratcache[x] = r
    return r


# ---------------------------------------------------------------- intervals
def _widen(lo, hi):
    if lo > -INF:
        lo -= 1e-11 * abs(lo)
    if hi < INF:
        hi += 1e-11 * abs(hi)
    return lo, hi


def iv_mul(a, b):
    c = []
    for x in a:
        for y in b:
            p = x * y
            c.append(0.0 if p != p else p)
    return min(c), max(c)


def _fpow(x, e):
    try:
        return math.pow(x, e)
    except OverflowError:
        return INF if x > 0 or True else NAN
    except (ZeroDivisionError, ValueError):
        return INF


def iv_pow(a, e: Fraction):
    lo, hi = a
    fe = float(e)
    if e == 0:
        return (1.0, 1.0)
    if e.denominator == 1 and lo < 0:
        n = e.numerator
        if n > 0:
            c = [_fpow(lo, n) if lo > -INF else (INF if n % 2 == 0 else -INF),
                 _fpow(hi, n) if abs(hi) < INF else INF]
            if n % 2 == 0:
                return (0.0 if lo <= 0 <= hi else min(c), max(c))
            return (c[0], c[1])
        if hi < 0:
            p = iv_pow((-hi, -lo), e)
            return p if n % 2 == 0 else (-p[1], -p[0])
        return (0.0, INF) if n % 2 == 0 else (-INF, INF)
    lo = max(lo, 0.0)
    hi = max(hi, 0.0)

    def pw(x):
        if x == 0:
            return 0.0 if fe > 0 else INF
        if x == INF:
            return INF if fe > 0 else 0.0
        return _fpow(x, fe)

    x, y = pw(lo), pw(hi)
    return _widen(min(x, y), max(x, y))


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "pos", "iv", "__weakref__")
    _n = 0

    def __init__(self, kind, name, args, pos, iv):
        Atom._n += 1
        self.id = Atom._n
        self.kind = kind          # var pi prime fn sum uf
        self.name = name
        self.args = args
        self.pos = pos
        self.iv = iv

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind in ("pi", "prime"):
            return str(self.name)
        if self.kind == "sum":
            return "(%r)" % (self.args[0],)
        return "%s(%s)" % (self.name, ", ".join(map(repr, self.args)))


_atoms: dict = {}


def mk_atom(kind, name, args=(), pos=False, iv=(-INF, INF)):
    key = (kind, name, args, pos)
    a = _atoms.get(key)
    if a is None:
        a = Atom(kind, name, args, pos, iv)
        _atoms[key] = a
    return a


PI = mk_atom("pi", "pi", (), True, (3.1415926535897, 3.1415926535899))


def mk_var(name, lo, hi):
    key = ("var", name, (lo, hi))
    a = _atoms.get(key)
    if a is None:
        flo, fhi = float(lo), float(hi)
        a = Atom("var", name, (lo, hi), flo > 0, (flo, fhi))
        _atoms[key] = a
    return a


# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ("mons", "_h", "_iv", "_cd", "_prim", "__weakref__")

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    @property
    def is_const(self):
        return not self.mons or (len(self.mons) == 1 and self.mons[0][0] == ())

    @property
    def const(self):
        return self.mons[0][1] if self.mons else F0

    def __repr__(self):
        if not self.mons:
            return "0"
        out = []
        for m, c in self.mons[:12]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c) if c.denominator < 1000000 else "%.6g" % float(c))
            for a, e in m:
                fs.append("%r" % a if e == 1 else "%r^%s" % (a, e))
            out.append("*".join(fs))
        if len(self.mons) > 12:
            out.append("...")
        return " + ".join(out)

    @property
    def iv(self):
        if self._iv is None:
            lo = hi = 0.0
            for m, c in self.mons:
                r = (float(c), float(c))
                for a, e in m:
                    r = iv_mul(r, iv_pow(a.iv, e))
                lo += r[0]
                hi += r[1]
            if lo != lo:
                lo = -INF
            if hi != hi:
                hi = INF
            self._iv = _widen(lo, hi)
        return self._iv


_terms: dict = {}


def mk_term(d) -> Term:
    items = [(m, c) for m, c in d.items() if c]
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    key = tuple(items)
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.mons = key
        t._h = hash(key)
        t._iv = None
        t._cd = None
        t._prim = None
        _terms[key] = t
    return t


def const(x) -> Term:
    x = rat(x)
    return mk_term({(): x}) if x else ZERO


ZERO = mk_term({})
ONE = mk_term({(): F1})
MINUS1 = mk_term({(): Fraction(-1)})


def atom_term(a, e=F1, c=F1):
    return mk_term({((a, Fraction(e)),): c})


def t_add(a: Term, b: Term) -> Term:
    if not a.mons:
        return b
    if not b.mons:
        return a
    d = dict(a.mons)
    for m, c in b.mons:
        s = d.get(m, F0) + c
        if s:
            d[m] = s
        else:
            d.pop(m, None)
    return mk_term(d)


def t_scale(a: Term, k: Fraction) -> Term:
    if k == 1:
        return a
    if not k:
        return ZERO
    return mk_term({m: c * k for m, c in a.mons})


def t_neg(a):
    return t_scale(a, Fraction(-1))


def t_sub(a, b):
    return t_add(a, t_neg(b))


EXPANDCAP = 3000


def _combine(exps: dict, coef: Fraction):
    """normalise a product given {atom: exponent}; returns list of (mon, coef)
    (several entries when something had to be expanded)."""
    expE = None
    out = {}
    expand = []
    nat = sum(e.numerator for a, e in exps.items() if a.kind == "sum" and e > 0 and e.denominator == 1)
    for a, e in exps.items():
        if not e:
            continue
        if a.kind == "prime":
            k = math.floor(e)
            if k:
                coef *= Fraction(a.name) ** k
                e -= k
            if e:
                out[a] = e
        elif a.kind == "fn" and a.name == "exp":
            t = t_scale(a.args[0], e)
            expE = t if expE is None else t_add(expE, t)
        elif a.kind == "sum" and e == 1 and nat == 1:
            expand.append((a.args[0], 1))
        elif a.kind == "fn" and a.name == "sin" and e.denominator == 1 and e >= 2:
            cosa = mk_fn_atom("cos", a.args[0])
            base = t_sub(ONE, atom_term(cosa, Fraction(2)))
            expand.append((base, e.numerator // 2))
            if e.numerator % 2:
                out[a] = out.get(a, F0) + 1
        else:
            out[a] = out.get(a, F0) + e
    if expE is not None and expE.mons:
        # extract  c*ln(a)  parts:  exp(c ln a) = a^c
        rest = {}
        extra = {}
        for m, c in expE.mons:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].name == "ln":
                base = m[0][0].args[0]
                ba = _ln_base_atom(base)
                extra[ba] = extra.get(ba, F0) + c
            else:
                rest[m] = c
        r = mk_term(rest)
        if r.mons:
            ea = mk_fn_atom("exp", r)
            out[ea] = F1
        if extra:
            for a, e in extra.items():
                out[a] = out.get(a, F0) + e
            # may re-trigger normalisation
            sub = _combine(out, coef)
            if not expand:
                return sub
            t = mk_term(dict(_merge(sub)))
            for base, n in expand:
                for _ in range(n):
                    t = t_mul(t, base)
            return list(t.mons)
    mon = tuple(sorted(((a, e) for a, e in out.items() if e), key=lambda ae: ae[0].id))
    if not expand:
        return [(mon, coef)]
    t = mk_term({mon: coef})
    for base, n in expand:
        for _ in range(n):
            t = t_mul(t, base)
    return list(t.mons)


def _merge(lst):
    d = {}
    for m, c in lst:
        d[m] = d.get(m, F0) + c
    return d


def _ln_base_atom(t: Term):
    """argument of an ln atom is a single positive atom, or a wrapped sum"""
    if len(t.mons) == 1:
        m, c = t.mons[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
        if not m and c.denominator == 1:
            return mk_atom("prime", c.numerator, (), True, (float(c), float(c)))
    return sum_atom(t, True)


def _mono_key(mon):
    # lexicographic on atoms (primes last, they are numbers)
    return mon


def _lex_max(d):
    """leading monomial under a lexicographic order on exponent vectors"""
    it = iter(d)
    best = next(it)
    bd = {a: e for a, e in best}
    for m in it:
        md = {a: e for a, e in m}
        atoms = sorted({a for a in md} | {a for a in bd}, key=lambda a: (a.kind == "prime", a.id))
        for a in atoms:
            x, y = md.get(a, F0), bd.get(a, F0)
            if x != y:
                if x > y:
                    best, bd = m, md
                break
    return best


def poly_div(N: dict, D: Term, cap):
    """exact quotient N / D (Laurent, lexicographic division) or None"""
    Dd = dict(D.mons)
    ld = _lex_max(Dd)
    inv = {a: -e for a, e in ld}
    cd = Dd[ld]
    N = dict(N)
    Q = {}
    for _ in range(cap):
        if not N:
            return Q
        ln = _lex_max(N)
        ex = dict(ln)
        for a, e in inv.items():
            ex[a] = ex.get(a, F0) + e
        qs = _combine(ex, N[ln] / cd)
        if len(qs) != 1:
            return None
        qm, qc = qs[0]
        Q[qm] = Q.get(qm, F0) + qc
        for m, c in D.mons:
            ex = dict(m)
            for a, e in qm:
                ex[a] = ex.get(a, F0) + e
            r = _combine(ex, c * qc)
            if len(r) != 1:
                return None
            mm, cc = r[0]
            x = N.get(mm, F0) - cc
            if x:
                N[mm] = x
            else:
                N.pop(mm, None)
        if ln in N:
            return None
    return None


_redcache: dict = {}


def reduce_fractions(t: Term) -> Term:
    """cancel sums against equal denominators:  (sum m_i) * S^-k  with S | sum m_i"""
    sums = {a for m, _ in t.mons for a, e in m if a.kind == "sum" and e < 0 and e.denominator == 1}
    if not sums or len(t.mons) < 2:
        return t
    r = _redcache.get(t)
    if r is not None:
        return r
    out = t
    for a in sorted(sums, key=lambda a: a.id):
        changed = True
        while changed:
            changed = False
            ks = sorted({e for m, _ in out.mons for b, e in m if b is a and e < 0 and e.denominator == 1})
            for k in ks:
                grp, rest = {}, {}
                for m, c in out.mons:
                    md = dict(m)
                    if md.get(a) == k:
                        grp[tuple((b, e) for b, e in m if b is not a)] = c
                    else:
                        rest[m] = c
                if len(grp) < len(a.args[0].mons) or len(grp) > 400:
                    continue
                Q = poly_div(grp, a.args[0], 2 * len(grp) + 10)
                if Q is None:
                    continue
                d = dict(rest)
                for m, c in Q.items():
                    ex = dict(m)
                    ex[a] = k + 1
                    for mm, cc in _combine(ex, c):
                        x = d.get(mm, F0) + cc
                        if x:
                            d[mm] = x
                        else:
                            d.pop(mm, None)
                out = mk_term(d)
                changed = True
                break
    _redcache[t] = out
    return out


def t_mul(a: Term, b: Term) -> Term:
    return reduce_fractions(t_mul0(a, b))


def as_factor(t: Term):
    """multi-term sum as content * S  -> ({atom: exp}, coef)"""
    mins, c0, prim = content(t, True)
    ex = dict(mins)
    if len(prim.mons) == 1:
        m, c = prim.mons[0]
        for a, e in m:
            ex[a] = ex.get(a, F0) + e
        return ex, c0 * c
    ks = strong_signs(prim)
    if ks == POS:
        sa = sum_atom(prim, True)
    elif ks == NEG:
        sa = sum_atom(t_neg(prim), True)
        c0 = -c0
    else:
        if prim.mons[0][1] < 0:
            prim = t_neg(prim)
            c0 = -c0
        sa = sum_atom(prim, False)
    ex[sa] = ex.get(sa, F0) + 1
    return ex, c0


def expand1(a: Term, b: Term) -> Term:
    """fully distributed product"""
    if len(a.mons) * len(b.mons) > EXPANDCAP:
        raise Unsupported("expression too large")
    d = {}
    for m1, c1 in a.mons:
        for m2, c2 in b.mons:
            ex = dict(m1)
            for at, e in m2:
                ex[at] = ex.get(at, F0) + e
            for m, c in _combine(ex, c1 * c2):
                x = d.get(m, F0) + c
                if x:
                    d[m] = x
                else:
                    d.pop(m, None)
    return mk_term(d)


_expcache: dict = {}


def expand_all(t: Term) -> Term:
    """distribute every natural power of a wrapped sum"""
    r = _expcache.get(t)
    if r is not None:
        return r
    cur = t
    for _ in range(12):
        todo = False
        acc = ZERO
        plain = {}
        for m, c in cur.mons:
            nat = [(a, e) for a, e in m if a.kind == "sum" and e >= 1]
            if not nat:
                plain[m] = plain.get(m, F0) + c
                continue
            todo = True
            ex = dict(m)
            p = ONE
            for a, e in nat:
                n = math.floor(e)
                if e - n:
                    ex[a] = e - n
                else:
                    ex.pop(a)
                for _i in range(n):
                    p = expand1(p, a.args[0])
            base = mk_term(_merge(_combine(ex, c)))
            acc = t_add(acc, expand1(base, p))
            if len(acc.mons) > EXPANDCAP:
                raise Unsupported("expression too large")
        cur = t_add(mk_term(plain), acc)
        if not todo:
            break
    cur = reduce_fractions(cur)
    _expcache[t] = cur
    return cur


def t_mul0(a: Term, b: Term) -> Term:
    if not a.mons or not b.mons:
        return ZERO
    if a.is_const:
        return t_scale(b, a.const)
    if b.is_const:
        return t_scale(a, b.const)
    if len(a.mons) > 1 and len(b.mons) > 1:
        e1, k1 = as_factor(a)
        e2, k2 = as_factor(b)
        for at, e in e2.items():
            e1[at] = e1.get(at, F0) + e
        return mk_term(_merge(_combine(e1, k1 * k2)))
    if len(a.mons) * len(b.mons) > EXPANDCAP:
        raise Unsupported("expression too large")
    d = {}
    for m1, c1 in a.mons:
        for m2, c2 in b.mons:
            if not m1:
                lst = [(m2, c1 * c2)]
            elif not m2:
                lst = [(m1, c1 * c2)]
            else:
                ex = dict(m1)
                for at, e in m2:
                    ex[at] = ex.get(at, F0) + e
                lst = _combine(ex, c1 * c2)
            for m, c in lst:
                s = d.get(m, F0) + c
                if s:
                    d[m] = s
                else:
                    d.pop(m, None)
    return mk_term(d)


# ---------------------------------------------------------------- context (path facts)
class Ctx:
    """path-dependent sign facts: canonical term -> allowed set of signs"""

    def __init__(self):
        self.signs = {}
        self.possums = []    # sums known positive on this path
        self.fork = None     # callable(term, allowed) -> bool


CTX = Ctx()
ALL = frozenset((-1, 0, 1))


def iv_signs(t: Term):
    lo, hi = t.iv
    if t.is_const:
        c = t.const
        return frozenset((0,)) if not c else frozenset((1,)) if c > 0 else frozenset((-1,))
    s = set()
    if lo < 0:
        s.add(-1)
    if hi > 0:
        s.add(1)
    if lo <= 0 <= hi:
        s.add(0)
    return frozenset(s) or ALL


def known_signs(t: Term):
    """signs of t allowed by intervals and path facts"""
    if t.is_const:
        return iv_signs(t)
    if len(t.mons) == 1:
        m, c = t.mons[0]
        sg = {1 if c > 0 else -1}
        for a, e in m:
            sa = atom_signs(a)
            if e < 0:
                sa = sa - {0}
            if e.denominator == 1 and e.numerator % 2 == 0:
                sa = {x * x for x in sa}
            elif e.denominator != 1:
                sa = sa & {0, 1}
            sg = {x * y for x in sg for y in sa}
        return frozenset(sg) or ALL
    s = iv_signs(t)
    if len(s) > 1:
        # sign by monomials
        ps = set()
        for m, c in t.mons:
            ms = known_signs(mk_term({m: c}))
            ps |= ms
            if 1 in ps and -1 in ps:
                break
        if not (1 in ps and -1 in ps):
            if 0 in ps and any(known_signs(mk_term({m: c})) in (POS, NEG) for m, c in t.mons):
                ps = ps - {0}
            s2 = s & frozenset(ps)
            if s2:
                s = s2
    if len(s) > 1:
        k, sgn, cs = canon(t)
        f = CTX.signs.get(k)
        if f is not None:
            s = s & frozenset(x * sgn for x in f) or s
        if len(s) > 1 and cs is not None:
            s2 = iv_signs(k)
            s = s & frozenset(x * sgn for x in s2) or s
    return s


def strong_signs(t: Term):
    """known_signs, helped by the solver when the intervals are too weak"""
    s = known_signs(t)
    if CTX.prove is not None and 1 in s and -1 in s:
        r = CTX.prove(t)
        if r is not None:
            return r
    return s


def atom_signs(a: Atom):
    if a.pos:
        return frozenset((1,))
    if a.kind == "sum":
        return known_signs(a.args[0])
    lo, hi = a.iv
    s = set()
    if lo < 0:
        s.add(-1)
    if hi > 0:
        s.add(1)
    if lo <= 0 <= hi:
        s.add(0)
    s = frozenset(s) or ALL
    if len(s) > 1:
        f = CTX.signs.get(atom_term(a))
        if f is not None:
            s = (s & f) or s
        if len(s) > 1 and a.kind == "fn" and a.name == "sin":
            u = t_mul(a.args[0], atom_term(PI, -1))
            r = known_signs(u)
            if r <= {0, 1} and known_signs(t_sub(ONE, u)) <= {0, 1}:
                s = frozenset((0, 1))
            elif r <= {0, -1} and known_signs(t_add(ONE, u)) <= {0, 1}:
                s = frozenset((0, -1))
    return s


def content(t: Term, allow_signed=True):
    """t = content * prim ; content is a monomial (exps dict, coef>0);
    extracts the minimal exponent of each atom (for positive atoms any
    rational, for other atoms integers only, only when allow_signed)."""
    if not t.mons:
        return {}, F1, ZERO
    mins = None
    for m, c in t.mons:
        dm = dict(m)
        if mins is None:
            mins = dict(dm)
        else:
            for a in list(mins):
                e = dm.get(a, F0)
                if e < mins[a]:
                    mins[a] = e
            for a, e in dm.items():
                if a not in mins and e < 0:
                    mins[a] = e
    multi = len(t.mons) > 1
    # exp atoms are handled as ordinary atoms only if literally shared
    mins = {a: e for a, e in mins.items()
            if e and (a.pos or (allow_signed and e.denominator == 1)) and not (multi and a.kind == "prime")}
    if mins:
        inv = {a: -e for a, e in mins.items()}
        d = {}
        for m, c in t.mons:
            ex = dict(m)
            for a, e in inv.items():
                ex[a] = ex.get(a, F0) + e
            for mm, cc in _combine(ex, c):
                d[mm] = d.get(mm, F0) + cc
        prim = mk_term(d)
    else:
        prim = t
    if not prim.mons:
        return mins, F1, ZERO
    # expansion may have exposed more negative exponents; iterate once
    if any(e < 0 for m, _ in prim.mons for a, e in m if a.kind == "sum" and (a.pos or allow_signed)):
        m2, k2, p2 = content(prim, allow_signed)
        for a, e in m2.items():
            mins[a] = mins.get(a, F0) + e
        return {a: e for a, e in mins.items() if e}, k2, p2
    if len(prim.mons) > 1 and any(a.kind == "prime" for m, _ in prim.mons for a, _e in m):
        # irrational constants: make those of a leading monomial vanish (unique up to ties)
        lead = min((m for m, _ in prim.mons), key=lambda m: (tuple((a.id, e) for a, e in m if a.kind != "prime"),
                                                             tuple((a.id, e) for a, e in m)))
        pe = {a: e for a, e in lead if a.kind == "prime"}
        if pe:
            d = {}
            for m, c in prim.mons:
                ex = dict(m)
                for a, e in pe.items():
                    ex[a] = ex.get(a, F0) - e
                for mm, cc in _combine(ex, c):
                    d[mm] = d.get(mm, F0) + cc
            prim = mk_term(d)
            for a, e in pe.items():
                mins[a] = mins.get(a, F0) + e
    # numeric content: make first coefficient +-1
    c0 = abs(prim.mons[0][1])
    if c0 != 1:
        prim = t_scale(prim, 1 / c0)
    return mins, c0, prim


def log_form(t: Term):
    """sign-equivalent form of  c1*m1 - c2*m2  when exponentials are involved"""
    if len(t.mons) == 2 and t.mons[0][1] * t.mons[1][1] < 0 and all(a.pos for m, _ in t.mons for a, _ in m) and any(
            a.kind == "fn" and a.name == "exp" for m, _ in t.mons for a, _ in m):
        (m1, c1), (m2, c2) = t.mons
        if c1 < 0:
            (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
        d = t_sub(t_ln(mk_term({m1: c1})), t_ln(mk_term({m2: -c2})))
        _, _, d = content(norm_sum(d), allow_signed=False)
        return d
    return root_form(t)


def _has_ln(t):
    return any(a.kind == "fn" and a.name == "ln" for m, _ in t.mons for a, _e in m)


def root_form(t: Term):
    """sign-equivalent form of  c1*S^e*m1 - c2*m2  (all positive, S a sum with logarithms, e fractional)"""
    if len(t.mons) != 2 or t.mons[0][1] * t.mons[1][1] > 0 or not all(a.pos for m, _ in t.mons for a, _ in m):
        return t
    (m1, c1), (m2, c2) = t.mons
    ex = dict(m1)
    for a, e in m2:
        ex[a] = ex.get(a, F0) - e
    es = {abs(e) for a, e in ex.items() if a.kind == "sum" and e.denominator != 1 and _has_ln(a.args[0])}
    if len(es) != 1:
        return t
    r = 1 / es.pop()
    parts = []
    for m, c in ((m1, c1), (m2, c2)):
        pe, pc = const_pow(abs(c), r)
        d = dict(pe)
        for a, e in m:
            d[a] = d.get(a, F0) + e * r
        parts.append(mk_term(_merge(_combine(d, pc if c > 0 else -pc))))
    out = t_add(parts[0], parts[1])
    if not out.mons:
        return out
    _, _, out = content(norm_sum(out), allow_signed=False)
    return out


def canon(t: Term):
    """canonical form for sign questions: t = s * (positive) * k; returns (k, s, True)"""
    if t._cd is None:
        mins, c0, prim = content(t, allow_signed=False)
        prim = log_form(prim)
        p2 = norm_sum(prim)
        if p2 is not prim:
            mins, c0, prim = content(p2, allow_signed=False) if p2.mons else ({}, F1, ZERO)
            prim = log_form(prim)
        # also clear even powers of signed denominators
        neg = {}
        for m, c in prim.mons:
            for a, e in m:
                if e < 0 and e.denominator == 1 and not a.pos:
                    neg[a] = max(neg.get(a, 0), -e.numerator)
        if neg:
            fac = {}
            for a, n in neg.items():
                n2 = n if n % 2 == 0 else n + 1
                fac[a] = Fraction(n2)
            d = {}
            for m, c in prim.mons:
                ex = dict(m)
                for a, e in fac.items():
                    ex[a] = ex.get(a, F0) + e
                for mm, cc in _combine(ex, c):
                    d[mm] = d.get(mm, F0) + cc
            prim = norm_sum(mk_term(d))
            if prim.mons:
                _, _, prim = content(prim, allow_signed=False)
        s = 1
        if prim.mons and prim.mons[0][1] < 0:
            prim = t_neg(prim)
            s = -1
        t._cd = (prim, s, True)
    r = t._cd
    if CTX.possums and len(r[0].mons) > 3:
        return strip_pos(r)
    return r


_divcache: dict = {}


def strip_pos(r):
    """divide out sums known to be positive on this path"""
    prim, s, _ = r
    key = (prim, tuple(CTX.possums))
    v = _divcache.get(key)
    if v is not None:
        return v[0], v[1] * s, True
    sg = 1
    p0 = prim
    for a in CTX.possums:
        D = a.args[0]
        while len(prim.mons) > len(D.mons) and len(prim.mons) <= 600:
            have = {b for m, _ in prim.mons for b, _e in m}
            if any(b not in have for m, _ in D.mons for b, _e in m if b.kind != "prime"):
                break
            Q = poly_div(dict(prim.mons), D, len(prim.mons))
            if not Q:
                break
            prim = mk_term(Q)
            _, _, prim = content(prim, allow_signed=False)
            if prim.mons[0][1] < 0:
                prim = t_neg(prim)
                sg = -sg
    if prim is not p0:
        prim = log_form(prim)
        if prim.mons and prim.mons[0][1] < 0:
            prim = t_neg(prim)
            sg = -sg
    _divcache[key] = (prim, sg)
    return prim, sg * s, True


def sum_atom(t: Term, pos):
    lo, hi = t.iv
    if pos:
        lo, hi = max(lo, 0.0), max(hi, 0.0)
    a = mk_atom("sum", "S", (t,), pos, (lo, hi))
    if pos and CTX.possums is not None and a not in CTX.possums and 2 <= len(t.mons) <= 12 and len(CTX.possums) < 12:
        CTX.possums.append(a)
        for k in list(CTX.signs):
            if len(k.mons) > 3:
                k2, s, _ = canon(k)
                if k2 is not k:
                    al = frozenset(x * s for x in CTX.signs.pop(k))
                    if k2.is_const:
                        continue
                    CTX.signs[k2] = CTX.signs.get(k2, ALL) & al
    return a


# ---------------------------------------------------------------- powers and functions
def _factor(n: int):
    f = {}
    p = 2
    while p * p <= n and p < 20000:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


_primef: dict = {}


def factor(n):
    r = _primef.get(n)
    if r is None:
        r = _primef[n] = _factor(n)
    return r


def const_pow(c: Fraction, e: Fraction):
    """c>0 rational to a rational power, as (exps, coef)"""
    if e.denominator == 1:
        return {}, c ** e.numerator
    ex = {}
    coef = F1
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in factor(n).items():
            x = e * k * sg
            fl = math.floor(x)
            coef *= Fraction(p) ** fl
            if x - fl:
                a = mk_atom("prime", p, (), True, (float(p), float(p)))
                ex[a] = ex.get(a, F0) + (x - fl)
    return ex, coef


def require(t: Term, allowed):
    """fork (if needed) on the sign of t being in `allowed`"""
    ks = known_signs(t)
    if ks <= allowed:
        return True
    if not (ks & allowed):
        return False
    if CTX.fork is None:
        raise Unsupported("undetermined sign of %r" % t)
    return CTX.fork(t, frozenset(allowed))


POS = frozenset((1,))
NEG = frozenset((-1,))
Z = frozenset((0,))


def t_pow(t: Term, e: Fraction):
    """t ** e for rational e. May return float nan/inf on degenerate branches."""
    if e == 0:
        return ONE
    if e == 1:
        return t
    if t.is_const:
        c = t.const
        if c == 0:
            return ZERO if e > 0 else INF
        if c < 0:
            if e.denominator == 1:
                return const(c ** e.numerator)
            return NAN
        ex, k = const_pow(c, e)
        return mk_term(dict(_merge(_combine(ex, k))))
    if e.denominator == 1 and e > 0:
        if len(t.mons) > 1:
            ex, k = as_factor(t)
        else:
            m, k = t.mons[0]
            ex = dict(m)
        ex = {a: x * e for a, x in ex.items()}
        return reduce_fractions(mk_term(_merge(_combine(ex, k ** e.numerator))))
    if e.denominator == 1:
        # negative integer power
        if len(t.mons) == 1:
            m, c = t.mons[0]
            for a, _ in m:
                if not a.pos and 0 in atom_signs(a):
                    _nonzero(atom_term(a))
            ex = {a: x * e for a, x in m}
            return mk_term(_merge(_combine(ex, c ** e.numerator)))
        mins, c0, prim = content(t, True)
        prim = norm_sum(prim)
        if not prim.mons:
            return INF
        if len(prim.mons) == 1 or abs(prim.mons[0][1]) != 1:
            ex = {a: x * e for a, x in mins.items()}
            base = mk_term(_merge(_combine(ex, c0 ** e.numerator)))
            return t_mul(base, t_pow(prim, e))
        ks = strong_signs(prim)
        coef = c0 ** e.numerator
        if ks == POS:
            s = sum_atom(prim, True)
        elif ks == NEG:
            s = sum_atom(t_neg(prim), True)
            if e.numerator % 2:
                coef = -coef
        else:
            if 0 in ks:
                _nonzero(prim)
            if prim.mons[0][1] < 0:
                prim = t_neg(prim)
                if e.numerator % 2:
                    coef = -coef
            s = sum_atom(prim, False)
        ex = {a: x * e for a, x in mins.items()}
        ex[s] = ex.get(s, F0) + e
        return mk_term(_merge(_combine(ex, coef)))
    # fractional exponent: need t > 0
    if not require(t, POS):
        if require(t, Z):
            return ZERO if e > 0 else INF
        return NAN
    mins, c0, prim = content(t, False)
    p2 = norm_sum(prim)
    if p2 is not prim:
        m2, k2, prim = content(p2, False)
        c0 = c0 * k2
        for a, x in m2.items():
            mins[a] = mins.get(a, F0) + x
    if len(prim.mons) == 1:
        m, c = prim.mons[0]
        mm = dict(m)
        signed = {a: x for a, x in mm.items() if not a.pos and atom_signs(a) != POS}
        if not signed and c > 0:
            ex = {a: x * e for a, x in mins.items()}
            for a, x in mm.items():
                ex[a] = ex.get(a, F0) + x * e
            e2, k = const_pow(c0 * c, e)
            for a, x in e2.items():
                ex[a] = ex.get(a, F0) + x
            return mk_term(_merge(_combine(ex, k)))
        # product of signed atoms: fork their signs
        if all(x.denominator == 1 for x in signed.values()):
            sg = 1 if c > 0 else -1
            ex = {a: x * e for a, x in mins.items()}
            for a, x in mm.items():
                if a in signed:
                    at = atom_term(a)
                    if require(at, POS):
                        ex[a] = ex.get(a, F0) + x * e
                    else:
                        # |a| = -a : wrap
                        w = sum_atom(t_neg(at), True)
                        ex[w] = ex.get(w, F0) + x * e
                        if x.numerator % 2:
                            sg = -sg
                else:
                    ex[a] = ex.get(a, F0) + x * e
            if sg > 0:
                e2, k = const_pow(c0 * abs(c), e)
                for a, x in e2.items():
                    ex[a] = ex.get(a, F0) + x
                # a wrapped -x to an integer power is expanded by _combine
                return mk_term(_merge(_combine(ex, k)))
    if prim.mons[0][1] < 0 and len(prim.mons) == 1:
        raise Unsupported("power of negative monomial")
    s = sum_atom(prim, True)
    ex = {a: x * e for a, x in mins.items()}
    ex[s] = ex.get(s, F0) + e
    e2, k = const_pow(c0, e)
    for a, x in e2.items():
        ex[a] = ex.get(a, F0) + x
    return mk_term(_merge(_combine(ex, k)))


def norm_sum(t: Term) -> Term:
    """canonical form of a sum before it is wrapped or used as an argument"""
    try:
        return expand_all(t)
    except Unsupported:
        return t


def _nonzero(t):
    """division: record t != 0 as a domain assumption of the path"""
    k, _, _ = canon(t)
    cur = CTX.signs.get(k, ALL)
    new = cur - {0}
    if not new:
        raise ZeroDivisionError("float division by zero")
    if new != cur:
        CTX.signs[k] = new
        if CTX.on_domain is not None:
            CTX.on_domain(k, new)


Ctx.on_domain = None
Ctx.prove = None


def _turns(t):
    """exact range of t/pi for t = c*pi*(input)"""
    if len(t.mons) != 1:
        return None
    m, c = t.mons[0]
    d = dict(m)
    if d.pop(PI, None) != 1 or len(d) != 1:
        return None
    (a, e), = d.items()
    if e != 1 or a.kind != "var" or not (a.iv[0] > -INF and a.iv[1] < INF):
        return None
    x, y = Fraction(a.iv[0]) * c, Fraction(a.iv[1]) * c
    return (x, y) if x <= y else (y, x)


def fn_iv(name, t: Term):
    lo, hi = t.iv
    try:
        if name == "exp":
            return _widen(math.exp(max(min(lo, 700), -745)) if lo > -INF else 0.0,
                          math.exp(hi) if hi < 700 else INF)
        if name == "ln":
            return _widen(math.log(lo) if lo > 0 else -INF, math.log(hi) if 0 < hi < INF else INF)
        if name in ("sin", "cos"):
            if name == "cos":
                lo2, hi2 = lo + math.pi / 2, hi + math.pi / 2
            else:
                lo2, hi2 = lo, hi
            if hi2 - lo2 >= 2 * math.pi or not (abs(lo2) < 1e6 and abs(hi2) < 1e6):
                return (-1.0, 1.0)
            v = [math.sin(lo2), math.sin(hi2)]
            k = math.ceil((lo2 - math.pi / 2) / (2 * math.pi))
            mx = 1.0 if math.pi / 2 + 2 * math.pi * k <= hi2 + 1e-9 else max(v)
            k = math.ceil((lo2 + math.pi / 2) / (2 * math.pi))
            mn = -1.0 if -math.pi / 2 + 2 * math.pi * k <= hi2 + 1e-9 else min(v)
            # absolute widening: sin/cos near zero suffer absolute rounding
            mn, mx = max(-1.0, mn - 1e-12), min(1.0, mx + 1e-12)
            y = _turns(t)
            if y is not None:
                a, b = y
                if name == "sin" and a >= 0 and b <= 1 or name == "cos" and a >= Fraction(-1, 2) and b <= Fraction(1, 2):
                    mn = max(mn, 0.0)
                if name == "sin" and a >= -1 and b <= 0 or name == "cos" and a >= Fraction(1, 2) and b <= Fraction(3, 2):
                    mx = min(mx, 0.0)
            elif name == "sin" and lo >= 0 and hi < 3.1415926:
                mn = max(mn, 0.0)
            return (mn, mx)
        if name == "tanh":
            return _widen(math.tanh(lo), math.tanh(hi))
        if name == "sinh":
            return _widen(math.sinh(max(lo, -700)), math.sinh(hi) if hi < 700 else INF)
        if name == "cosh":
            m = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
            x = max(abs(lo), abs(hi))
            return _widen(math.cosh(m), math.cosh(x) if x < 700 else INF)
        if name == "atan":
            return _widen(math.atan(lo), math.atan(hi))
        if name == "asin":
            return _widen(math.asin(max(lo, -1)), math.asin(min(hi, 1)))
        if name == "acos":
            return _widen(math.acos(min(hi, 1)), math.acos(max(lo, -1)))
        if name in ("floor", "ceil", "round", "trunc"):
            return (lo - 1.0, hi + 1.0)
    except OverflowError:
        pass
    return (-INF, INF)


def mk_fn_atom(name, t: Term):
    iv = fn_iv(name, t)
    pos = name in ("exp", "cosh") or iv[0] > 0
    return mk_atom("fn", name, (t,), pos, iv)


def t_exp(t: Term) -> Term:
    t = norm_sum(t)
    if not t.mons:
        return ONE
    return mk_term(_merge(_combine({mk_fn_atom("exp", t): F1}, F1)))


def ln_atom_term(t: Term):
    return atom_term(mk_fn_atom("ln", t))


def ln_const(c: Fraction) -> Term:
    r = ZERO
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in factor(n).items():
            r = t_add(r, t_scale(ln_atom_term(const(p)), Fraction(k * sg)))
    return r


def t_ln(t: Term):
    if t.is_const:
        c = t.const
        if c < 0:
            return NAN
        if c == 0:
            return -INF
        return ln_const(c)
    if not require(t, POS):
        if require(t, Z):
            return -INF
        return NAN
    mins, c0, prim = content(t, False)
    ex = dict(mins)
    p2 = norm_sum(prim)
    if p2 is not prim:
        m2, k2, prim = content(p2, False)
        c0 = c0 * k2
        for a, x in m2.items():
            ex[a] = ex.get(a, F0) + x
    r = ln_const(c0)
    if len(prim.mons) == 1:
        m, c = prim.mons[0]
        if c > 0 and all(a.pos or atom_signs(a) == POS for a, _ in m):
            r = t_add(r, ln_const(c))
            for a, e in m:
                ex[a] = ex.get(a, F0) + e
            prim = None
    for a, e in ex.items():
        if a.kind == "fn" and a.name == "exp":
            r = t_add(r, t_scale(a.args[0], e))
        elif a.kind == "prime":
            r = t_add(r, t_scale(ln_atom_term(const(a.name)), e))
        elif a.kind == "sum":
            r = t_add(r, t_scale(ln_atom_term(a.args[0]), e))
        else:
            r = t_add(r, t_scale(ln_atom_term(atom_term(a)), e))
    if prim is not None:
        r = t_add(r, ln_atom_term(prim))
    return r


def lead_neg(t: Term):
    return bool(t.mons) and t.mons[0][1] < 0


def _pi_multiple(t: Term):
    """t = q*pi with rational q, or None"""
    if not t.mons:
        return F0
    if len(t.mons) == 1 and t.mons[0][0] == ((PI, F1),):
        return t.mons[0][1]
    return None


def t_sin(t):
    q = _pi_multiple(t)
    if q is not None:
        q = q % 2
        tab = {F0: 0, Fraction(1, 6): Fraction(1, 2), Fraction(1, 2): 1, Fraction(5, 6): Fraction(1, 2),
               F1: 0, Fraction(3, 2): -1}
        if q in tab:
            return const(tab[q])
        if q in (Fraction(1, 4), Fraction(3, 4)):
            return t_pow(const(Fraction(1, 2)), Fraction(1, 2))
        if q in (Fraction(1, 3), Fraction(2, 3)):
            return t_pow(const(Fraction(3, 4)), Fraction(1, 2))
    if lead_neg(t):
        return t_neg(t_sin(t_neg(t)))
    a = _is_fn(t, "atan")
    if a is not None:
        return t_mul(a, t_pow(t_add(ONE, t_mul(a, a)), Fraction(-1, 2)))
    return atom_term(mk_fn_atom("sin", t))


def t_cos(t):
    q = _pi_multiple(t)
    if q is not None:
        return t_sin(t_add(t, atom_term(PI, F1, Fraction(1, 2)))) if not (
            q % 2 not in (0, Fraction(1, 2), 1, Fraction(3, 2), Fraction(1, 3), Fraction(2, 3),
                          Fraction(1, 4), Fraction(3, 4), Fraction(1, 6), Fraction(5, 6))
        ) else atom_term(mk_fn_atom("cos", t))
    if lead_neg(t):
        t = t_neg(t)
    a = _is_fn(t, "atan")
    if a is not None:
        return t_pow(t_add(ONE, t_mul(a, a)), Fraction(-1, 2))
    return atom_term(mk_fn_atom("cos", t))


def _is_fn(t, name):
    if len(t.mons) == 1:
        m, c = t.mons[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].name == name:
            return m[0][0].args[0]
    return None


def t_fn(name, t: Term):
    t = norm_sum(t)
    if name == "exp":
        return t_exp(t)
    if name == "ln":
        return t_ln(t)
    if name == "sin":
        return t_sin(t)
    if name == "cos":
        return t_cos(t)
    if name == "tan":
        a = _is_fn(t, "atan")
        if a is not None:
            return a
        c = t_cos(t)
        p = t_pow(c, Fraction(-1))
        if not isinstance(p, Term):
            return p
        return t_mul(t_sin(t), p)
    if name in ("tanh", "sinh", "atan", "asin"):
        if not t.mons:
            return ZERO
        if lead_neg(t):
            return t_neg(t_fn(name, t_neg(t)))
        if name == "tanh" and len(t.mons) == 1 and t.mons[0][1] == 1 and len(t.mons[0][0]) == 1:
            a, e = t.mons[0][0][0]
            if a.kind == "uf" and a.name == "KH" and e == 1:
                # contract of the dispersion solver: kh tanh(kh) = mu
                return t_mul(a.args[0], atom_term(a, Fraction(-1)))
        if name == "asin" and t is ONE:
            return atom_term(PI, F1, Fraction(1, 2))
        if name == "atan" and t is ONE:
            return atom_term(PI, F1, Fraction(1, 4))
        if name == "atan":
            # atan(tan x) with x inside (-pi/2, pi/2)
            x = _atan_tan(t)
            if x is not None:
                return x
        return atom_term(mk_fn_atom(name, t))
    if name == "cosh":
        if lead_neg(t):
            t = t_neg(t)
        if not t.mons:
            return ONE
        return atom_term(mk_fn_atom(name, t))
    if name == "acos":
        return t_sub(atom_term(PI, F1, Fraction(1, 2)), t_fn("asin", t))
    if name in ("floor", "ceil", "round", "trunc"):
        if t.is_const:
            f = {"floor": math.floor, "ceil": math.ceil, "round": round, "trunc": math.trunc}[name]
            return const(f(t.const))
        return atom_term(mk_fn_atom(name, t))
    raise Unsupported("function " + name)


def _atan_tan(t):
    if len(t.mons) == 1:
        m, c = t.mons[0]
        d = {(a.name, a.args): (a, e) for a, e in m if a.kind == "fn"}
        if c == 1 and len(m) == 2:
            for (n, ar), (a, e) in d.items():
                if n == "sin" and e == 1 and ("cos", ar) in d and d[("cos", ar)][1] == -1:
                    lo, hi = ar[0].iv
                    if lo > -math.pi / 2 and hi < math.pi / 2:
                        return ar[0]
    return None


def t_uf(name, args, pos, iv=None):
    args = [norm_sum(a) if isinstance(a, Term) else a for a in args]
    if iv is None:
        iv = (0.0, INF) if pos else (-INF, INF)
    return atom_term(mk_atom("uf", name, tuple(args), pos, iv))


# ---------------------------------------------------------------- differentiation
def depends(t: Term, v: Atom, memo):
    r = memo.get(t)
    if r is None:
        r = any(a is v or (a.kind in ("sum", "fn", "uf") and any(isinstance(x, Term) and depends(x, v, memo) for x in a.args))
                for m, _ in t.mons for a, _e in m)
        memo[t] = r
    return r


def d_atom(a: Atom, v: Atom, memo):
    if a is v:
        return ONE
    if a.kind in ("var", "pi", "prime") or not any(isinstance(x, Term) and depends(x, v, memo) for x in a.args):
        return None
    x = a.args[0]
    if a.kind == "uf":
        if a.name != "KH":
            raise Unsupported("derivative of " + a.name)
        # kh tanh(kh) = mu
        k = atom_term(a)
        return t_mul(t_mul(k, t_pow(t_add(x, t_sub(t_mul(k, k), t_mul(x, x))), Fraction(-1))), t_diff(x, v, memo))
    d = t_diff(x, v, memo)
    if a.kind == "sum":
        return d
    f = atom_term(a)
    n = a.name
    if n == "exp":
        g = f
    elif n == "ln":
        g = t_pow(x, Fraction(-1))
    elif n == "sin":
        g = t_cos(x)
    elif n == "cos":
        g = t_neg(t_sin(x))
    elif n == "tanh":
        g = t_sub(ONE, t_mul(f, f))
    elif n == "sinh":
        g = t_fn("cosh", x)
    elif n == "cosh":
        g = t_fn("sinh", x)
    elif n == "atan":
        g = t_pow(t_add(ONE, t_mul(x, x)), Fraction(-1))
    elif n == "asin":
        g = t_pow(t_sub(ONE, t_mul(x, x)), Fraction(-1, 2))
    else:
        raise Unsupported("derivative of " + n)
    if not isinstance(g, Term):
        raise Unsupported("derivative of " + n)
    return t_mul(g, d)


def t_diff(t: Term, v: Atom, memo=None) -> Term:
    """partial derivative of t with respect to the variable v"""
    memo = {} if memo is None else memo
    r = ZERO
    for m, c in t.mons:
        for i, (a, e) in enumerate(m):
            d = d_atom(a, v, memo)
            if d is None:
                continue
            rest = ((m[:i] + ((a, e - 1),) + m[i + 1:]) if e != 1 else m[:i] + m[i + 1:])
            r = t_add(r, t_mul(mk_term({rest: c * e}), d))
    return r


def t_subst(t: Term, v: Atom, repl: Term, memo=None, dep=None) -> Term:
    """t with the variable v replaced"""
    memo = {} if memo is None else memo
    dep = {} if dep is None else dep
    if not depends(t, v, dep):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = ZERO
    for m, c in t.mons:
        keep = {}
        out = []
        for a, e in m:
            if a is v:
                b = repl
            elif a.kind in ("sum", "fn", "uf") and any(isinstance(x, Term) and depends(x, v, dep) for x in a.args):
                xs = [t_subst(x, v, repl, memo, dep) if isinstance(x, Term) else x for x in a.args]
                b = xs[0] if a.kind == "sum" else t_fn(a.name, xs[0]) if a.kind == "fn" else t_uf(a.name, xs, a.pos, a.iv)
            else:
                keep[a] = e
                continue
            if isinstance(b, Term):
                b = t_pow(b, e)
            if not isinstance(b, Term):
                raise Unsupported("degenerate substitution")
            out.append(b)
        x = mk_term(_merge(_combine(keep, c)))
        for b in out:
            x = t_mul(x, b)
        r = t_add(r, x)
    memo[t] = r
    return r


def solutions(k: Term):
    """variables the equation k = 0 between positive quantities can be solved for: [(variable, value)]"""
    out = []
    if len(k.mons) < 2:
        return out
    memo = {}
    cnt = {}
    for i, (m, c) in enumerate(k.mons):
        for a, e in m:
            if a.kind == "var":
                cnt.setdefault(a, []).append((i, e))
    inner = {}
    for a, occ in cnt.items():
        dep = {}
        if any(b.kind in ("sum", "fn", "uf") and any(isinstance(x, Term) and depends(x, a, dep) for x in b.args) for m, _ in k.mons for b, _e in m):
            continue
        two = len(k.mons) == 2
        if two:
            (m1, c1), (m2, c2) = k.mons
            two = c1 * c2 < 0 and all(atom_signs(b) == POS for m in (m1, m2) for b, _ in m)
        if two:
            e = dict(m1).get(a, F0) - dict(m2).get(a, F0)
            if e == 0:
                continue
            ex = dict(m2)
            for b, x in m1:
                ex[b] = ex.get(b, F0) - x
            ex.pop(a, None)
            val = mk_term(_merge(_combine({b: x for b, x in ex.items() if x}, -c2 / c1)))
            val = t_pow(val, 1 / e) if e != 1 else val
        elif len(occ) == 1 and occ[0][1] in (1, -1):
            i, e = occ[0]
            m, c = k.mons[i]
            rest = mk_term({mm: -cc for j, (mm, cc) in enumerate(k.mons) if j != i})
            val = t_mul(rest, t_pow(mk_term({tuple((b, x) for b, x in m if b is not a): c}), Fraction(-1)))
            if e == -1:
                val = t_pow(val, Fraction(-1))
        else:
            continue
        if isinstance(val, Term):
            out.append((a, val))
    return out


# ---------------------------------------------------------------- numeric evaluation (vectorised)
UF_NUM: dict = {}


class NumEnv:
    def __init__(self, env):
        self.env = env      # var name -> numpy vector
        self.memo = {}
        self.amemo = {}

    def atom(self, a):
        r = self.amemo.get(a)
        if r is None:
            with np.errstate(all="ignore"):
                if a.kind == "var":
                    r = self.env[a.name]
                elif a.kind == "pi":
                    r = np.float64(math.pi)
                elif a.kind == "prime":
                    r = np.float64(a.name)
                elif a.kind == "sum":
                    r = self.term(a.args[0])
                elif a.kind == "fn":
                    x = self.term(a.args[0])
                    f = {"exp": np.exp, "ln": np.log, "sin": np.sin, "cos": np.cos, "tanh": np.tanh,
                         "sinh": np.sinh, "cosh": np.cosh, "atan": np.arctan, "asin": np.arcsin,
                         "floor": np.floor, "ceil": np.ceil, "round": np.round, "trunc": np.trunc}[a.name]
                    r = f(x)
                else:
                    f = UF_NUM.get(a.name)
                    xs = [self.term(x) if isinstance(x, Term) else x for x in a.args]
                    if f is None:
                        # an arbitrary fixed interpretation
                        acc = 0.37 + 0.01 * (sum(map(ord, a.name)) % 50)
                        for i, x in enumerate(xs):
                            if isinstance(x, (str, bool)) or x is None:
                                continue
                            acc = acc + np.abs(np.sin(np.asarray(x, dtype=float) * (1.7 + i))) * 0.4
                        r = acc
                    else:
                        r = f(*xs)
            self.amemo[a] = r
        return r

    def term(self, t):
        r = self.memo.get(t)
        if r is None:
            with np.errstate(all="ignore"):
                r = 0.0
                for m, c in t.mons:
                    p = float(c)
                    for a, e in m:
                        x = self.atom(a)
                        if e == 1:
                            p = p * x
                        else:
                            p = p * np.power(x, float(e)) if e.denominator != 1 or abs(e) > 8 else p * (
                                x ** float(e) if e < 0 else x ** int(e))
                    r = r + p
            self.memo[t] = r
        return r
