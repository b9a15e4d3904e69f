"""Symbolic scalars (Sym), symbolic booleans, the numpy/math shims and the
loader that executes /repo's current source over them."""
from __future__ import annotations

import ast
import builtins
import math
import os
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from .sym import (ALL, CTX, F1, INF, NAN, NEG, ONE, POS, Z, ZERO, Term, Unsupported, canon, known_signs, rat)

REPO = os.environ.get("VT_REPO", "/repo")


# ---------------------------------------------------------------- booleans
class SymBool:
    """boolean combination of sign conditions"""
    __slots__ = ()

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else b_not(self)
        if isinstance(o, SymBool):
            return b_not(self ^ o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    __hash__ = object.__hash__

    # arithmetic use of booleans
    def __mul__(self, o):
        return (1.0 if bool(self) else 0.0) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return (1 if bool(self) else 0) + o

    __radd__ = __add__

    def __sub__(self, o):
        return (1 if bool(self) else 0) - o

    def __rsub__(self, o):
        return o - (1 if bool(self) else 0)

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def astype(self, *a):
        return self

    ndim = 0
    shape = ()


class Atomic(SymBool):
    __slots__ = ("t", "allowed")

    def __init__(self, t, allowed):
        self.t = t
        self.allowed = allowed

    def __bool__(self):
        return S.require(self.t, self.allowed)

    def __repr__(self):
        return "[%r in %s]" % (self.t, sorted(self.allowed))


class Comp(SymBool):
    __slots__ = ("op", "parts")

    def __init__(self, op, parts):
        self.op = op
        self.parts = parts

    def __bool__(self):
        if self.op == "and":
            for p in self.parts:
                if not bool(p):
                    return False
            return True
        for p in self.parts:
            if bool(p):
                return True
        return False

    def __repr__(self):
        return "(" + (" %s " % self.op).join(map(repr, self.parts)) + ")"


def as_b(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return as_b(x.item())
        raise Unsupported("array as boolean")
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def b_and(*xs):
    parts = []
    for x in xs:
        if isinstance(x, np.ndarray) and x.ndim > 0:
            r = xs[0]
            for y in xs[1:]:
                r = np.logical_and(_conc_bool(r), _conc_bool(y))
            return r
        x = as_b(x)
        if x is False:
            return False
        if x is True:
            continue
        parts.append(x)
    if not parts:
        return True
    return parts[0] if len(parts) == 1 else Comp("and", tuple(parts))


def b_or(*xs):
    parts = []
    for x in xs:
        if isinstance(x, np.ndarray) and x.ndim > 0:
            r = xs[0]
            for y in xs[1:]:
                r = np.logical_or(_conc_bool(r), _conc_bool(y))
            return r
        x = as_b(x)
        if x is True:
            return True
        if x is False:
            continue
        parts.append(x)
    if not parts:
        return False
    return parts[0] if len(parts) == 1 else Comp("or", tuple(parts))


def b_not(x):
    if isinstance(x, np.ndarray) and x.ndim > 0:
        return np.logical_not(_conc_bool(x))
    x = as_b(x)
    if isinstance(x, bool):
        return not x
    if isinstance(x, Atomic):
        return Atomic(x.t, ALL - x.allowed)
    return Comp("or" if x.op == "and" else "and", tuple(b_not(p) for p in x.parts))


def _conc_bool(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.array([bool(v) for v in x.ravel()], dtype=bool).reshape(x.shape)
        return x
    return bool(x)


# ---------------------------------------------------------------- scalars
def _num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_))


def lift(x):
    """-> Term, or float nan/inf, or None if not a scalar number"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return ONE if bool(x) else ZERO
    if _num(x):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return float(x)
        return S.const(x)
    return None


def wrap(t):
    if isinstance(t, Term):
        return Sym(t)
    return np.float64(t)


def _sgn(t):
    """concrete sign of term by forking"""
    if S.require(t, POS):
        return 1
    if S.require(t, Z):
        return 0
    return -1


def op2(name, a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        if name == "+":
            return S.t_add(a, b)
        if name == "-":
            return S.t_sub(a, b)
        if name == "*":
            return S.t_mul(a, b)
        if name == "/":
            if b.is_const:
                if not b.const:
                    s = _sgn(a)
                    return NAN if s == 0 else INF * s
                return S.t_scale(a, 1 / b.const)
            if len(b.mons) > 1 and len(a.mons) > 1:
                k1, s1, _ = canon(a)
                k2, s2, _ = canon(b)
                if k1 is k2:
                    m1, c1, p1 = S.content(a, False)
                    m2, c2, p2 = S.content(b, False)
                    if p1 is p2 or p1 is S.t_neg(p2):
                        S.t_pow(p2, Fraction(-1))   # records the domain condition
                        ex = dict(m1)
                        for at, e in m2.items():
                            ex[at] = ex.get(at, S.F0) - e
                        sg = 1 if p1 is p2 else -1
                        return S.mk_term(S._merge(S._combine(ex, c1 / c2 * sg)))
            p = S.t_pow(b, Fraction(-1))
            if not isinstance(p, Term):
                return p
            return S.t_mul(a, p)
        if name == "**":
            if b.is_const:
                return S.t_pow(a, b.const)
            if a is ONE:
                return ONE
            l = S.t_ln(a)
            if not isinstance(l, Term):
                if l == -INF:      # 0 ** b
                    s = _sgn(b)
                    return ZERO if s > 0 else ONE if s == 0 else INF
                return NAN
            return S.t_exp(S.t_mul(l, b))
    # nan / inf
    if (not isinstance(a, Term) and a != a) or (not isinstance(b, Term) and b != b):
        return NAN
    if name == "+":
        return a if isinstance(b, Term) else b if isinstance(a, Term) else a + b
    if name == "-":
        return a if isinstance(b, Term) else -b if isinstance(a, Term) else a - b
    if name == "*":
        x = _sgn(a) if isinstance(a, Term) else a
        y = _sgn(b) if isinstance(b, Term) else b
        return x * y if x and y else NAN
    if name == "/":
        if isinstance(a, Term):
            return ZERO
        if isinstance(b, Term):
            s = _sgn(b)
            return a * s if s else a
        return NAN
    if name == "**":
        if isinstance(b, Term):
            s = _sgn(b)
            return ONE if s == 0 else INF if s > 0 else ZERO
        if isinstance(a, Term):
            s = _sgn(S.t_sub(a, ONE))
            if s == 0:
                return ONE
            return INF if (s > 0) == (b > 0) else ZERO
    raise Unsupported("inf arithmetic")


def cmp2(a, b, rel):
    al = {"<": NEG, "<=": NEG | Z, ">": POS, ">=": POS | Z, "==": Z, "!=": NEG | POS}[rel]
    if isinstance(a, Term) and isinstance(b, Term):
        d = S.t_sub(a, b)
        k, s, _ = canon(d)
        al = frozenset(x * s for x in al)
        ks = known_signs(k)
        if ks <= al:
            return True
        if not (ks & al):
            return False
        return Atomic(k, al)
    fa = 0.0 if isinstance(a, Term) else a
    fb = 0.0 if isinstance(b, Term) else b
    return {"<": fa < fb, "<=": fa <= fb, ">": fa > fb, ">=": fa >= fb, "==": fa == fb, "!=": fa != fb}[rel]


def _bin(name, refl=False):
    def f(self, o):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                o = o.item()
            else:
                r = np.empty(o.shape, dtype=object)
                for i in np.ndindex(o.shape):
                    r[i] = f(self, o[i])
                return r
        b = lift(o)
        if b is None:
            return NotImplemented
        return wrap(op2(name, b, self.t) if refl else op2(name, self.t, b))
    return f


def _cmp(rel):
    def f(self, o):
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                o = o.item()
            else:
                r = np.empty(o.shape, dtype=bool)
                for i in np.ndindex(o.shape):
                    r[i] = bool(f(self, o[i]))
                return r
        b = lift(o)
        if b is None:
            if rel == "==":
                return False
            if rel == "!=":
                return True
            return NotImplemented
        return cmp2(self.t, b, rel)
    return f


class Sym:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    __add__ = _bin("+")
    __radd__ = _bin("+", True)
    __sub__ = _bin("-")
    __rsub__ = _bin("-", True)
    __mul__ = _bin("*")
    __rmul__ = _bin("*", True)
    __truediv__ = _bin("/")
    __rtruediv__ = _bin("/", True)
    __pow__ = _bin("**")
    __rpow__ = _bin("**", True)
    __lt__ = _cmp("<")
    __le__ = _cmp("<=")
    __gt__ = _cmp(">")
    __ge__ = _cmp(">=")
    __eq__ = _cmp("==")
    __ne__ = _cmp("!=")

    def __hash__(self):
        return hash(self.t)

    def __neg__(self):
        return Sym(S.t_neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if S.require(self.t, POS | Z) else Sym(S.t_neg(self.t))

    def __bool__(self):
        return not S.require(self.t, Z)

    def __floordiv__(self, o):
        return s_fn("floor", self / o)

    def __rfloordiv__(self, o):
        return s_fn("floor", o / self)

    def __mod__(self, o):
        return self - o * s_fn("floor", self / o)

    def __float__(self):
        if self.t.is_const:
            return float(self.t.const)
        v = const_float(self.t)
        if v is not None:
            return v
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.t.is_const:
            return int(self.t.const)
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.t.is_const and self.t.const.denominator == 1:
            return self.t.const.numerator
        raise Unsupported("symbolic index")

    def __round__(self, n=None):
        return s_round(self, n or 0)

    def __floor__(self):
        return s_fn("floor", self)

    def __ceil__(self):
        return s_fn("ceil", self)

    def __trunc__(self):
        return s_fn("trunc", self)

    def __repr__(self):
        return "<%r>" % self.t

    def __format__(self, spec):
        return "<sym>" if spec else repr(self)

    # methods numpy looks for on objects
    def exp(self):
        return s_fn("exp", self)

    def log(self):
        return s_fn("ln", self)

    def log10(self):
        return s_log10(self)

    def log2(self):
        return s_fn("ln", self) / s_fn("ln", 2)

    def sqrt(self):
        return wrap(op2("**", self.t, S.const(Fraction(1, 2))))

    def cbrt(self):
        return s_cbrt(self)

    def square(self):
        return self * self

    def sin(self):
        return s_fn("sin", self)

    def cos(self):
        return s_fn("cos", self)

    def tan(self):
        return s_fn("tan", self)

    def tanh(self):
        return s_fn("tanh", self)

    def sinh(self):
        return s_fn("sinh", self)

    def cosh(self):
        return s_fn("cosh", self)

    def arctan(self):
        return s_fn("atan", self)

    def arcsin(self):
        return s_fn("asin", self)

    def arccos(self):
        return s_fn("acos", self)

    def floor(self):
        return s_fn("floor", self)

    def ceil(self):
        return s_fn("ceil", self)

    def rint(self):
        return s_fn("round", self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return Sym(self.t)

    def astype(self, *a, **k):
        return self

    def is_integer(self):
        return self == s_fn("floor", self)

    def tolist(self):
        return self

    def round(self, decimals=0):
        return s_round(self, decimals)

    def max(self, *a, **k):
        return self

    min = mean = sum = max

    def any(self):
        return self != 0

    all = any

    real = property(lambda self: self)
    ndim = 0
    shape = ()
    size = 1
    T = property(lambda self: self)
    dtype = np.dtype("float64")


_num_env = None


def const_float(t):
    """numeric value of a term without variables/uf"""
    global _num_env
    if _num_env is None:
        _num_env = S.NumEnv({})
    try:
        return float(_num_env.term(t))
    except KeyError:
        return None


def s_fn(name, x):
    t = lift(x)
    if t is None:
        raise TypeError("bad operand for %s: %r" % (name, type(x)))
    if isinstance(t, Term):
        if name == "asin":
            if not S.require(S.t_sub(ONE, t), POS | Z) or not S.require(S.t_add(ONE, t), POS | Z):
                return np.float64(NAN)
        return wrap(S.t_fn(name, t))
    f = {"exp": np.exp, "ln": np.log, "sin": np.sin, "cos": np.cos, "tan": np.tan, "tanh": np.tanh, "sinh": np.sinh,
         "cosh": np.cosh, "atan": np.arctan, "asin": np.arcsin, "acos": np.arccos, "floor": np.floor, "ceil": np.ceil,
         "round": np.round, "trunc": np.trunc}[name]
    with np.errstate(all="ignore"):
        return f(np.float64(t))


def s_round(x, n=0):
    k = Fraction(10) ** int(n)
    if isinstance(x, Sym):
        r = s_fn("round", x * k)
        return r / k
    return round(x, n)


def s_log10(x):
    return s_fn("ln", x) / s_fn("ln", 10)


def s_cbrt(x):
    t = lift(x)
    if not isinstance(t, Term):
        return np.cbrt(t)
    if S.require(t, POS | Z):
        return wrap(S.t_pow(t, Fraction(1, 3)))
    return wrap(op2("*", S.const(-1), S.t_pow(S.t_neg(t), Fraction(1, 3))))


def is_nan(x):
    if isinstance(x, (Sym, SymBool)):
        return False
    if x is None or isinstance(x, str):
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return bool(np.isnan(x))


# ---------------------------------------------------------------- numpy shim
def arrlike(x):
    return isinstance(x, (list, tuple)) or (isinstance(x, np.ndarray))


def to_arr(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple)):
        a = np.array([to_arr(v) if arrlike(v) else v for v in x], dtype=object) if _has_sym(x) else np.array(x)
        return a
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def _has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def ew(f, nin, exact=True):
    """elementwise lifting of a scalar function"""

    def g(*args, **kw):
        kw.pop("dtype", None)
        kw.pop("out", None)
        where = kw.pop("where", True)
        if where is not True:
            raise Unsupported("ufunc where=")
        if kw:
            raise Unsupported("ufunc kwargs %s" % list(kw))
        if any(arrlike(a) for a in args):
            arrs = [to_arr(a) for a in args]
            bs = np.broadcast_arrays(*arrs)
            if bs[0].ndim == 0:
                return f(*[b.item() for b in bs])
            out = np.empty(bs[0].shape, dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = f(*[b[i] for b in bs])
            return tidy(out)
        return f(*args)
    return g


def tidy(a):
    if a.size and all(isinstance(v, (bool, np.bool_)) for v in a.ravel()):
        return a.astype(bool)
    if a.size and all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in a.ravel()):
        return a.astype(int)
    return a


def _mn(a, b):
    if (not isinstance(a, Sym) and a != a) or (not isinstance(b, Sym) and b != b):
        return np.float64(NAN)
    return a if bool(a <= b) else b


def _mx(a, b):
    if (not isinstance(a, Sym) and a != a) or (not isinstance(b, Sym) and b != b):
        return np.float64(NAN)
    return a if bool(a >= b) else b


def _fmn(a, b):
    if not isinstance(a, Sym) and a != a:
        return b
    if not isinstance(b, Sym) and b != b:
        return a
    return a if bool(a <= b) else b


def _fmx(a, b):
    if not isinstance(a, Sym) and a != a:
        return b
    if not isinstance(b, Sym) and b != b:
        return a
    return a if bool(a >= b) else b


def _flat_scalars(seq):
    out = []
    for v in seq:
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v.item()
        out.append(v)
    return out


def _reduce(f2, x, axis=None):
    if isinstance(x, (Sym, SymBool)) or _num(x):
        return x
    if isinstance(x, (list, tuple)):
        x = _flat_scalars(x)
        if not any(arrlike(v) for v in x):
            if not x:
                raise ValueError("zero-size array to reduction operation")
            r = x[0]
            for v in x[1:]:
                r = f2(r, v)
            return r if isinstance(r, Sym) else np.float64(r)
        bs = np.broadcast_arrays(*[to_arr(v) for v in x])
        if any(b.shape != to_arr(v).shape for b, v in zip(bs, x)):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        x = np.empty((len(bs),) + bs[0].shape, dtype=object)
        for i, b in enumerate(bs):
            x[i] = b
    if x.ndim == 0:
        return x.item()
    if axis is None:
        vals = list(x.ravel())
        r = vals[0]
        for v in vals[1:]:
            r = f2(r, v)
        return r
    x = np.moveaxis(x, axis, 0)
    r = x[0]
    for v in x[1:]:
        r = ew(f2, 2)(r, v)
    return r


def _red_wrapper(f2):
    def g(a, axis=None, out=None, keepdims=False, initial=None, where=True):
        if keepdims or where is not True:
            raise Unsupported("reduction kwargs")
        r = _reduce(f2, a, axis)
        if initial is not None:
            r = f2(r, initial)
        return r
    return g


def zerod(v):
    r = np.empty((), dtype=object)
    r[()] = v
    return r


def _where1(c, a, b):
    return a if bool(c) else b


def np_where(cond, *ab):
    if not ab:
        return np.where(_conc_bool(to_arr(cond)))
    a, b = ab
    if isinstance(cond, np.ndarray) and cond.ndim == 0:
        cond = cond.item()
    if not arrlike(cond) and not any(isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.ndim > 0) for v in (a, b)):
        v = a if bool(cond) else b
        if isinstance(v, np.ndarray):
            v = v.item()
        return zerod(v)
    return ew(_where1, 3)(cond, a, b)


def np_clip(x, lo=None, hi=None, a_min=None, a_max=None, min=None, max=None, **kw):
    lo = lo if lo is not None else a_min if a_min is not None else min
    hi = hi if hi is not None else a_max if a_max is not None else max
    r = x
    if lo is not None:
        r = NP["maximum"](r, lo)
    if hi is not None:
        r = NP["minimum"](r, hi)
    return r


def np_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = np_where(c, v, r)
    return r


def np_piecewise(x, condlist, funclist):
    if not arrlike(x):
        for c, f in zip(condlist, funclist):
            if bool(c):
                return zerod(f(x) if callable(f) else f)
        f = funclist[-1] if len(funclist) > len(condlist) else 0
        return zerod(f(x) if callable(f) else f)
    raise Unsupported("piecewise on arrays")


def _interp1(x, xp, fp, left=None, right=None):
    if not isinstance(x, Sym) and x != x:
        return np.float64(NAN)
    n = len(xp)
    if bool(x < xp[0]):
        return fp[0] if left is None else left
    if bool(x > xp[n - 1]):
        return fp[n - 1] if right is None else right
    for i in range(1, n):
        if bool(x <= xp[i]) if i < n - 1 else True:
            return fp[i - 1] + (fp[i] - fp[i - 1]) * ((x - xp[i - 1]) / (_ex(xp[i]) - _ex(xp[i - 1])))
    return fp[0]


def _ex(v):
    return Sym(S.const(v)) if not isinstance(v, Sym) else v


def np_interp(x, xp, fp, left=None, right=None, period=None):
    xp = [_ex(v) for v in (xp.tolist() if isinstance(xp, np.ndarray) else xp)]
    fp = [_ex(v) for v in (fp.tolist() if isinstance(fp, np.ndarray) else fp)]
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if arrlike(x):
        return ew(lambda v: _interp1(v, xp, fp, left, right), 1)(x)
    return _interp1(x, xp, fp, left, right)


def np_searchsorted(a, v, side="left", sorter=None):
    vals = a.tolist() if isinstance(a, np.ndarray) else list(a)

    def one(x):
        i = 0
        for y in vals:
            if bool(y < x) if side == "left" else bool(y <= x):
                i += 1
            else:
                break
        return i
    if arrlike(v) and not (isinstance(v, np.ndarray) and v.ndim == 0):
        return np.array([one(x) for x in v])
    return one(v.item() if isinstance(v, np.ndarray) else v)


def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side="left" if right else "right")


def np_arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    start, stop, step = [v.item() if isinstance(v, np.ndarray) else v for v in (start, stop, step)]
    if not any(isinstance(v, Sym) for v in (start, stop, step)):
        return np.arange(start, stop, step)
    out = []
    if not bool(step > 0):
        raise Unsupported("arange with a negative symbolic step")
    while bool(start + len(out) * step < stop):
        out.append(start + len(out) * step)
        if len(out) > 60:
            raise Unsupported("arange longer than 60")
    r = np.empty(len(out), dtype=object)
    for i, v in enumerate(out):
        r[i] = v
    return r


def np_argmin(a, axis=None):
    vals = _flat_scalars(list(a))
    j = 0
    for i in range(1, len(vals)):
        if bool(vals[i] < vals[j]):
            j = i
    return j


def np_argmax(a, axis=None):
    vals = _flat_scalars(list(a))
    j = 0
    for i in range(1, len(vals)):
        if bool(vals[i] > vals[j]):
            j = i
    return j


def np_any(x, axis=None, **kw):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    if _has_sym(x):
        return b_or(*[as_b(v) for v in to_arr(x).ravel()])
    return np.any(x, axis=axis)


def np_all(x, axis=None, **kw):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    if _has_sym(x):
        return b_and(*[as_b(v) for v in to_arr(x).ravel()])
    return np.all(x, axis=axis)


def np_array(x, dtype=None, copy=True, **kw):
    if isinstance(x, np.ndarray):
        return x.copy() if copy else x
    if _has_sym(x) or isinstance(x, (list, tuple)):
        if not isinstance(x, (list, tuple)):
            return zerod(x)
        if _has_sym(x):
            x2 = [v.item() if isinstance(v, np.ndarray) and v.ndim == 0 else v for v in x]
            return np.array(x2, dtype=object)
        r = np.array(x, dtype=dtype)
        if r.dtype.kind == "f":
            return r.astype(object)
        return r
    return np.array(x, dtype=dtype)


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, np.ndarray):
        return x
    return np_array(x, dtype)


def np_append(a, v, axis=None):
    a = to_arr(a).ravel() if arrlike(a) else np.array([a], dtype=object)
    v = to_arr(v).ravel() if arrlike(v) else np.array([v], dtype=object)
    return np.concatenate([a.astype(object), v.astype(object)])


def _creator(val):
    def f(shape, dtype=None, **kw):
        if dtype in (int, bool, np.int32, np.int64, np.bool_):
            return np.full(shape, val, dtype=dtype)
        r = np.empty(shape, dtype=object)
        r[...] = float(val)
        return r
    return f


def _creator_like(val):
    def f(x, *a, **kw):
        if not arrlike(x):
            return zerod(float(val))
        x = to_arr(x)
        r = np.empty(x.shape, dtype=object)
        r[...] = float(val)
        return r
    return f


def np_full(shape, v, dtype=None, **kw):
    r = np.empty(shape, dtype=object)
    r[...] = v
    return r


def np_full_like(x, v, **kw):
    if not arrlike(x):
        return zerod(v)
    return np_full(to_arr(x).shape, v)


class NpVectorize:
    def __init__(self, pyfunc=None, otypes=None, excluded=None, **kw):
        self.f = pyfunc
        self.excluded = excluded or set()

    def __call__(self, *args, **kw):
        if self.f is None:
            self.f = args[0]
            return self
        n = len(args)
        names = list(kw)
        vals = list(args) + [kw[k] for k in names]

        def call(*v):
            return self.f(*v[:n], **dict(zip(names, v[n:])))
        if any(isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.ndim > 0) for v in vals):
            arrs = np.broadcast_arrays(*[to_arr(v) for v in vals])
            res = [call(*[a[i] for a in arrs]) for i in np.ndindex(arrs[0].shape)]
            if res and isinstance(res[0], tuple):
                outs = []
                for j in range(len(res[0])):
                    o = np.empty(arrs[0].shape, dtype=object)
                    for i, r in zip(np.ndindex(o.shape), res):
                        o[i] = r[j]
                    outs.append(tidy(o))
                return tuple(outs)
            o = np.empty(arrs[0].shape, dtype=object)
            for i, r in zip(np.ndindex(o.shape), res):
                o[i] = r
            return tidy(o)
        r = call(*[v.item() if isinstance(v, np.ndarray) else v for v in vals])
        if isinstance(r, tuple):
            return tuple(zerod(v) for v in r)
        return zerod(r)


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return ew(lambda x, y: NP["abs"](x - y) <= atol + rtol * NP["abs"](y), 2)(a, b)


def s_sign(x):
    if isinstance(x, Sym):
        return np.float64(_sgn(x.t))
    return np.sign(x)


def s_abs(x):
    return abs(x)


def s_pow(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        la, lb = lift(a), lift(b)
        return wrap(op2("**", la, lb))
    return a ** b


def s_sqrt(x):
    return s_pow(x, Fraction(1, 2))


def s_hypot(a, b):
    return s_sqrt(a * a + b * b)


def s_atan2(a, b):
    if bool(b > 0):
        return s_fn("atan", a / b)
    raise Unsupported("arctan2")


def s_heaviside(x, h):
    s = _sgn(lift(x))
    return 0.0 if s < 0 else h if s == 0 else 1.0


SPI = Sym(S.atom_term(S.PI))


def _logic(f):
    def g(*args):
        if any(isinstance(a, np.ndarray) and a.ndim > 0 for a in args):
            return ew(lambda *v: bool(f(*v)), len(args))(*args)
        return f(*args)
    return g


def s_deg2rad(x):
    return x * SPI / 180


def s_rad2deg(x):
    return x * 180 / SPI


def np_sum(x, axis=None, **kw):
    if isinstance(x, (Sym,)):
        return x
    a = to_arr(x)
    if axis is None:
        r = 0
        for v in a.ravel():
            r = r + (int(bool(v)) if isinstance(v, SymBool) else v)
        return r
    return np.sum(a, axis=axis)


def np_prod(x, axis=None, **kw):
    a = to_arr(x)
    if axis is None:
        r = 1
        for v in a.ravel():
            r = r * v
        return r
    return np.prod(a, axis=axis)


def np_mean(x, axis=None, **kw):
    a = to_arr(x)
    if axis is not None:
        raise Unsupported("mean axis")
    return np_sum(a) / a.size


def nan_red(f2):
    def g(x, axis=None, **kw):
        return _reduce(f2, x, axis)
    return g


NP = {}


def _build_np():
    e = ew
    NP.update(
        pi=SPI, nan=NAN, inf=INF, NaN=NAN, Inf=INF,
        exp=e(lambda x: s_fn("exp", x), 1), log=e(lambda x: s_fn("ln", x), 1), log10=e(s_log10, 1),
        log2=e(lambda x: s_fn("ln", x) / s_fn("ln", 2), 1),
        log1p=e(lambda x: s_fn("ln", 1 + x), 1), expm1=e(lambda x: s_fn("exp", x) - 1, 1),
        exp2=e(lambda x: s_pow(2, x), 1),
        sqrt=e(s_sqrt, 1), cbrt=e(s_cbrt, 1), square=e(lambda x: x * x, 1), power=e(s_pow, 2), float_power=e(s_pow, 2),
        pow=e(s_pow, 2),
        reciprocal=e(lambda x: 1.0 / x, 1), sin=e(lambda x: s_fn("sin", x), 1), cos=e(lambda x: s_fn("cos", x), 1),
        tan=e(lambda x: s_fn("tan", x), 1), tanh=e(lambda x: s_fn("tanh", x), 1),
        sinh=e(lambda x: s_fn("sinh", x), 1), cosh=e(lambda x: s_fn("cosh", x), 1),
        arctan=e(lambda x: s_fn("atan", x), 1), arcsin=e(lambda x: s_fn("asin", x), 1),
        arccos=e(lambda x: s_fn("acos", x), 1), arctan2=e(s_atan2, 2), atan=e(lambda x: s_fn("atan", x), 1),
        deg2rad=e(s_deg2rad, 1), radians=e(s_deg2rad, 1), rad2deg=e(s_rad2deg, 1), degrees=e(s_rad2deg, 1),
        floor=e(lambda x: s_fn("floor", x), 1), ceil=e(lambda x: s_fn("ceil", x), 1),
        trunc=e(lambda x: s_fn("trunc", x), 1), rint=e(lambda x: s_fn("round", x), 1),
        round=lambda x, decimals=0: e(lambda v: s_round(v, decimals), 1)(x),
        around=lambda x, decimals=0: e(lambda v: s_round(v, decimals), 1)(x),
        abs=e(s_abs, 1), absolute=e(s_abs, 1), fabs=e(s_abs, 1), sign=e(s_sign, 1), negative=e(lambda x: -x, 1),
        add=e(lambda a, b: a + b, 2), subtract=e(lambda a, b: a - b, 2), multiply=e(lambda a, b: a * b, 2),
        divide=e(lambda a, b: _div(a, b), 2), true_divide=e(lambda a, b: _div(a, b), 2),
        hypot=e(s_hypot, 2), heaviside=e(s_heaviside, 2), mod=e(lambda a, b: a % b, 2),
        minimum=e(_mn, 2), maximum=e(_mx, 2), fmin=e(_fmn, 2), fmax=e(_fmx, 2),
        min=_red_wrapper(_mn), max=_red_wrapper(_mx), amin=_red_wrapper(_mn), amax=_red_wrapper(_mx),
        nanmin=nan_red(_fmn), nanmax=nan_red(_fmx),
        isnan=e(is_nan, 1), isinf=e(lambda x: False if isinstance(x, (Sym, SymBool)) else bool(np.isinf(x)), 1),
        isfinite=e(lambda x: True if isinstance(x, (Sym, SymBool)) else bool(np.isfinite(x)), 1),
        nan_to_num=e(lambda x, nan=0.0: x if isinstance(x, Sym) else (nan if x != x else x), 1),
        where=np_where, clip=np_clip, select=np_select, piecewise=np_piecewise, interp=np_interp,
        searchsorted=np_searchsorted, digitize=np_digitize, arange=np_arange, argmin=np_argmin, argmax=np_argmax, any=np_any, all=np_all,
        array=np_array, asarray=np_asarray, asanyarray=np_asarray, append=np_append,
        zeros=_creator(0), ones=_creator(1), empty=_creator(0), zeros_like=_creator_like(0),
        ones_like=_creator_like(1), empty_like=_creator_like(0), full=np_full, full_like=np_full_like,
        vectorize=NpVectorize, isclose=np_isclose,
        allclose=lambda a, b, **k: np_all(np_isclose(a, b, **k)),
        greater=e(lambda a, b: a > b, 2), greater_equal=e(lambda a, b: a >= b, 2), less=e(lambda a, b: a < b, 2),
        less_equal=e(lambda a, b: a <= b, 2), equal=e(lambda a, b: a == b, 2), not_equal=e(lambda a, b: a != b, 2),
        logical_and=_logic(b_and), logical_or=_logic(b_or), logical_not=_logic(b_not),
        logical_xor=_logic(lambda a, b: as_b(a) ^ as_b(b)),
        sum=np_sum, prod=np_prod, mean=np_mean,
        isscalar=lambda x: isinstance(x, Sym) or np.isscalar(x),
        float64=_float, float32=_float, float_=_float, double=_float,
        iterable=np.iterable,
        copy=lambda x: x.copy() if isinstance(x, np.ndarray) else zerod(x),
        squeeze=lambda x: x if isinstance(x, Sym) else np.squeeze(x),
        errstate=np.errstate,
    )


def _div(a, b):
    a, b = lift(a), lift(b)
    return wrap(op2("/", a, b))


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class _float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray):
            if x.ndim == 0 or x.size == 1:
                x = x.ravel()[0]
            else:
                raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return 1.0 if bool(x) else 0.0
        return float(x)


_build_np()


class Shim(types.ModuleType):
    def __init__(self, name, table, real):
        super().__init__(name)
        self.__dict__.update(table)
        self._real = real

    def __getattr__(self, k):
        return getattr(self._real, k)


np_shim = Shim("numpy", NP, np)
math_shim = Shim("math", dict(
    pi=SPI, exp=NP["exp"], log=lambda x, b=None: NP["log"](x) if b is None else NP["log"](x) / NP["log"](b),
    log10=NP["log10"], sqrt=NP["sqrt"], sin=NP["sin"], cos=NP["cos"], tan=NP["tan"], tanh=NP["tanh"], sinh=NP["sinh"],
    cosh=NP["cosh"], atan=NP["arctan"], asin=NP["arcsin"], radians=NP["radians"], degrees=NP["degrees"],
    pow=NP["power"], isnan=lambda x: is_nan(x), floor=NP["floor"], ceil=NP["ceil"], fabs=NP["abs"],
    isfinite=lambda x: NP["isfinite"](x), isinf=lambda x: NP["isinf"](x), expm1=NP["expm1"], log1p=NP["log1p"],
    cbrt=NP["cbrt"], hypot=NP["hypot"], atan2=NP["arctan2"],
    isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= _mx(rel_tol * _mx(abs(a), abs(b)), abs_tol),
), math)


# ---------------------------------------------------------------- builtins for executed code
def _isinstance(x, c):
    if isinstance(c, tuple):
        return any(_isinstance(x, k) for k in c)
    if isinstance(c, types.UnionType):
        return any(_isinstance(x, k) for k in c.__args__)
    if isinstance(x, Sym):
        import numbers
        return c in (float, _float, object, Sym, np.float64, np.floating, np.number, np.generic,
                     numbers.Number, numbers.Real)
    if isinstance(x, SymBool):
        return c in (bool, np.bool_, object, SymBool)
    if c is _float:
        return isinstance(x, float)
    return isinstance(x, c)


def _round(x, n=None):
    if isinstance(x, Sym):
        return s_round(x, n or 0)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return s_round(x.item(), n or 0)
    return round(x, n) if n is not None else round(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


def _int(x=0, *a):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if isinstance(x, Sym):
        if x.t.is_const:
            return int(x.t.const)
        return s_fn("trunc", x)
    return int(x, *a)


def _bool(x=False):
    if isinstance(x, (SymBool, Sym)):
        return bool(x)
    return bool(x)


# ---------------------------------------------------------------- recorders
class Events:
    def __init__(self):
        self.reset()

    def reset(self):
        self.warnings = []      # plain warnings.warn messages
        self.ranges = []        # (variable, formula, value, lo, hi)
        self.frames = []        # pandas recorder
        self.files = []


EV = Events()


class _WarnRec(types.ModuleType):
    def __init__(self):
        super().__init__("warnings")

    def warn(self, message, *a, **k):
        EV.warnings.append(str(message))

    class catch_warnings:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return []

        def __exit__(self, *a):
            return False

    def simplefilter(self, *a, **k):
        pass

    filterwarnings = simplefilter


warn_shim = _WarnRec()


class _DF:
    def __init__(self, data=None, index=None, columns=None, **kw):
        self.data = dict(data or {})
        self.index = index
        if columns is not None:
            self.data = {c: self.data.get(c) for c in columns}
        EV.frames.append(self)

    def __setitem__(self, k, v):
        self.data[k] = v

    def __getitem__(self, k):
        if isinstance(k, list):
            return _DF({c: self.data[c] for c in k}, self.index)
        return self.data[k]

    def rename(self, columns=None, **kw):
        return _DF({(columns or {}).get(k, k): v for k, v in self.data.items()}, self.index)

    def assign(self, **kw):
        d = dict(self.data)
        d.update(kw)
        return _DF(d, self.index)

    def insert(self, loc, column, value):
        items = list(self.data.items())
        items.insert(loc, (column, value))
        self.data = dict(items)

    @property
    def columns(self):
        return list(self.data)

    @columns.setter
    def columns(self, names):
        self.data = dict(zip(names, self.data.values()))

    def to_csv(self, path=None, sep=",", index=True, header=True, **kw):
        EV.files.append(dict(path=str(path), sep=sep, index=index, header=header, kw=kw, data=dict(self.data),
                             frame_index=self.index))


pandas_shim = types.ModuleType("pandas")
pandas_shim.DataFrame = _DF


def _disper(w=None, h=None, g=9.81, **kw):
    """stub with contract  k > 0,  w^2 = g k tanh(k h)  (array in, array out)"""
    def one(w, h, g):
        tw, th, tg = lift(w), lift(h), lift(g)
        if not all(isinstance(x, Term) for x in (tw, th, tg)):
            return np.float64(NAN)
        # scale-free argument: k*h is a function of w^2 h / g only
        mu = op2("/", op2("*", op2("*", tw, tw), th), tg)
        if not S.require(th, POS):
            raise Unsupported("dispersion relation for non-positive depth")
        if isinstance(mu, Term) and mu.iv[0] > 50:
            # deep water: tanh(kh) = 1 to far below double precision
            return wrap(op2("/", op2("*", tw, tw), tg))
        kh = S.t_uf("KH", (mu,), True)
        return wrap(op2("/", kh, th))
    if arrlike(w) or arrlike(h):
        r = ew(one, 3)(w, h, g)
        return r if isinstance(r, np.ndarray) else np.array([r], dtype=object)
    return np.array([one(w, h, g)], dtype=object)


def _kh_num(mu):
    """numeric solution of mu = kh tanh kh"""
    mu = np.asarray(mu, dtype=float)
    with np.errstate(all="ignore"):
        x = np.where(mu > 1, mu, np.sqrt(mu))
        for _ in range(60):
            t = np.tanh(x)
            f = x * t - mu
            d = t + x * (1 - t * t)
            x = np.maximum(x - f / d, 1e-300)
    return x


S.UF_NUM["KH"] = _kh_num

disp_mod = types.ModuleType("deltares_wave_toolbox.cores.core_dispersion")
disp_mod.disper = _disper
_dwt = types.ModuleType("deltares_wave_toolbox")
_dwtc = types.ModuleType("deltares_wave_toolbox.cores")
_dwt.cores = _dwtc
_dwtc.core_dispersion = disp_mod


# ---------------------------------------------------------------- source transformation + loader
class _Fold(ast.NodeTransformer):
    """keep constant division / powers exact:  1/3 -> exact rational"""

    def _val(self, n):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return Fraction(repr(n.value)) if isinstance(n.value, float) and math.isfinite(n.value) else (
                Fraction(n.value) if isinstance(n.value, int) else None)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = self._val(n.operand)
            return None if v is None else -v
        if isinstance(n, ast.BinOp):
            a, b = self._val(n.left), self._val(n.right)
            if a is None or b is None:
                return None
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Div) and b:
                return a / b
        return None

    def visit_BinOp(self, n):
        if isinstance(n.op, (ast.Div, ast.Add, ast.Sub, ast.Mult)):
            v = self._val(n)
            if v is not None and (v.denominator != 1 or isinstance(n.op, ast.Div)):
                return ast.copy_location(
                    ast.Call(ast.Name("__vt_c", ast.Load()),
                             [ast.Constant(v.numerator), ast.Constant(v.denominator)], []), n)
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow):
            a, b = self._val(n.left), self._val(n.right)
            if a is not None and b is not None and not (a.denominator == 1 and b.denominator == 1 and b >= 0):
                n.left = ast.copy_location(ast.Call(ast.Name("__vt_c", ast.Load()), [
                    ast.Constant(a.numerator), ast.Constant(a.denominator)], []), n.left)
        return n


def _vt_c(a, b):
    return Sym(S.const(Fraction(a, b)))


TOP = "deltares_coastal_structures_toolbox"


CALLED = set()


class _Enter(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        call = ast.Expr(ast.Call(ast.Name("__vt_enter", ast.Load()), [ast.Constant(self.mod + "." + n.name)], []))
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(i, call)
        return n


class Loader:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods = {}
        self.files = {}
        b = dict(vars(builtins))
        b.update(isinstance=_isinstance, float=_float, round=_round, __import__=self.imp, __vt_c=_vt_c, bool=_bool, __vt_enter=CALLED.add)
        b["print"] = lambda *a, **k: None
        b["int"] = _IntShim
        b["pow"] = lambda a, e, *m: s_pow(a, e) if not m else pow(a, e, *m)
        self.builtins = b

    def path_of(self, name):
        base = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path, pkg = self.path_of(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name)
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if "." in name:
            setattr(self.mods[name.rsplit(".", 1)[0]], name.rsplit(".", 1)[1], m)
        src = open(path, encoding="utf-8").read()
        self.files[name] = path
        tree = ast.parse(src, path)
        tree = _Enter(name.replace(TOP + ".functions.", "")).visit(_Fold().visit(tree))
        tree = ast.fix_missing_locations(tree)
        import __future__
        code = compile(tree, path, "exec", flags=__future__.annotations.compiler_flag, dont_inherit=True)
        exec(code, m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top == TOP:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        p, _ = self.path_of(name + "." + f)
                        if p:
                            self.load(name + "." + f)
                return m
            return self.mods[top]
        if top == "numpy":
            if name in ("numpy", "numpy.typing", "numpy.lib", "numpy.core"):
                if fromlist and name == "numpy.typing":
                    return builtins.__import__(name, globals, locals, fromlist, 0)
                if name == "numpy.typing":
                    return np_shim
                return np_shim
            raise Unsupported("import " + name)
        if top == "math":
            return math_shim
        if top == "warnings":
            return warn_shim
        if top == "pandas":
            return pandas_shim
        if top == "deltares_wave_toolbox":
            if fromlist:
                return {"deltares_wave_toolbox": _dwt, "deltares_wave_toolbox.cores": _dwtc}.get(name, disp_mod)
            return _dwt
        if top in ("typing", "os", "functools", "itertools", "dataclasses", "collections", "enum", "abc", "copy",
                   "operator", "numbers", "__future__", "types", "contextlib", "pathlib", "string", "inspect",
                   "logging", "re"):
            return builtins.__import__(name, globals, locals, fromlist, 0)
        if top == "scipy":
            raise Unsupported("import " + name)
        return builtins.__import__(name, globals, locals, fromlist, 0)


class _IntShimMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)


class _IntShim(metaclass=_IntShimMeta):
    def __new__(cls, x=0, *a):
        return _int(x, *a)


_old_isinstance = _isinstance


def _isinstance2(x, c):
    if c is _IntShim:
        return isinstance(x, int)
    if isinstance(c, tuple):
        return any(_isinstance2(x, k) for k in c)
    if c is _bool:
        return isinstance(x, (bool, SymBool))
    return _old_isinstance(x, c)


def make_loader():
    ld = Loader()
    ld.builtins["isinstance"] = _isinstance2
    return ld
