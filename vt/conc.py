"""Concrete back end: runs an obligation on the real, unpatched code of /repo.

Used in /opt/venv's python as a line-oriented server:
request  {"ob": id, "env": {...}}   reply {"checks": [...], "exc": ..., ...}
"""
import importlib
import json
import math
import os
import re
import signal
import sys
import warnings

RTOL = 1e-7


class Res(tuple):
    """(holds, values shown in the report); its truth value is whether it holds"""

    def __bool__(self):
        return bool(self[0])


class Discard(BaseException):
    pass


class Timeout(BaseException):
    pass


def _isnan(x):
    try:
        return x != x
    except Exception:
        return False


class ConM:
    symbolic = False

    def __init__(self, env):
        import numpy as np
        self.np = np
        self.env = env
        self.checks = []
        self.used = {}
        self.undo = []
        self.log = []
        self.pi = math.pi

    # inputs
    def var(self, name, lo, hi):
        x = self.env.get(name)
        if x is None:
            x = math.sqrt(lo * hi) if lo > 0 else (lo + hi) / 2.0
        x = min(max(float(x), float(lo)), float(hi))
        self.used[name] = x
        return x

    def vars(self, **kw):
        return {k: self.var(k, *v) for k, v in kw.items()}

    def mod(self, name):
        return importlib.import_module("deltares_coastal_structures_toolbox.functions" + ("." + name if name else ""))

    def fn(self, modname, attr):
        f = getattr(self.mod(modname), attr, None)
        if f is None:
            raise Discard()
        return f

    def arr(self, *xs):
        return self.np.array(list(xs), dtype=float)

    def item(self, x):
        return x.item() if hasattr(x, "item") else x

    # logic
    def assume(self, c):
        if not bool(c):
            raise Discard()

    def check(self, label, c):
        if isinstance(c, tuple):
            ok, vals = c
        else:
            ok, vals = bool(self.np.all(c)), []
        self.checks.append([label, bool(ok), [_js(v) for v in vals]])

    def _eq1(self, a, b, rtol, atol):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b or a == b
        if isinstance(a, (bool, self.np.bool_)) or isinstance(b, (bool, self.np.bool_)):
            return bool(a) == bool(b)
        if _isnan(a) or _isnan(b):
            return False
        if a == b:
            return True
        if not (math.isfinite(a) and math.isfinite(b)):
            return False
        return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol

    def _all2(self, a, b, f):
        np = self.np
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape != b_.shape:
            if a_.size == b_.size == 1:
                a_, b_ = a_.reshape(()), b_.reshape(())
            else:
                return False
        return all(f(x, y) for x, y in zip(a_.ravel().tolist(), b_.ravel().tolist()))

    def eq(self, a, b, rtol=RTOL, atol=1e-11):
        return Res((self._all2(a, b, lambda x, y: self._eq1(x, y, rtol, atol)), [a, b]))

    def le(self, a, b, rtol=RTOL, atol=1e-11):
        def f(x, y):
            if _isnan(x) or _isnan(y):
                return False
            if math.isinf(x) or math.isinf(y):
                return x <= y
            return x <= y + rtol * max(abs(x), abs(y)) + atol
        return Res((self._all2(a, b, f), [a, b]))

    def ge(self, a, b, **k):
        ok, v = self.le(b, a, **k)
        return Res((ok, [a, b]))

    def lt(self, a, b):
        return self.le(a, b)

    def implies(self, p, c):
        if isinstance(c, tuple):
            return Res(((not bool(p)) or c[0], c[1]))
        return (not bool(p)) or bool(c)

    def iff(self, p, c):
        return bool(p) == bool(c)

    def land(self, *cs):
        return Res((all(bool(c[0]) if isinstance(c, tuple) else bool(c) for c in cs), [v for c in cs if isinstance(c, tuple) for v in c[1]]))

    def lor(self, *cs):
        return Res((any(bool(c[0]) if isinstance(c, tuple) else bool(c) for c in cs), [v for c in cs if isinstance(c, tuple) for v in c[1]]))

    def lnot(self, c):
        return not (c[0] if isinstance(c, tuple) else bool(c))

    def finite(self, x):
        a = self.np.asarray(x, dtype=float)
        return Res((bool(self.np.all(self.np.isfinite(a))), [x]))

    def isnan(self, x):
        return bool(self.np.any(self.np.isnan(self.np.asarray(x, dtype=float))))

    def truth(self, x):
        return bool(self.np.all(x))

    def truth1(self, x):
        return bool(self.np.asarray(x).item())

    def away(self, *conds):
        """concrete runs skip the float-rounding neighbourhood of regime switches"""
        for a, b in conds:
            if abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1e-30):
                raise Discard()

    # exceptions
    def raises(self, fn, exc=Exception):
        try:
            fn()
        except exc:
            return True
        except Exception:
            return False
        return False

    # warnings
    def range_events(self, fn):
        """run fn, return (result, list of messages about validity ranges, other warnings)"""
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = fn()
        msgs = [str(x.message) for x in w if issubclass(x.category, UserWarning)]
        return r, Msgs(msgs)

    # stubs are only used on the symbolic side
    def stub_uf(self, *a, **k):
        pass

    def real_range_check(self):
        pass

    def patch(self, modname, attr, mk):
        m = self.mod(modname)
        if hasattr(m, attr):
            old = getattr(m, attr)
            self.undo.append((m, attr, old))
            setattr(m, attr, mk(old))

    def free(self, modname, attr, name, bounds):
        pass

    def close(self):
        for m, a, o in reversed(self.undo):
            setattr(m, a, o)
        self.undo = []

    def _try(self, f, *a, **k):
        try:
            return float(self.np.asarray(f(*a, **k)).item())
        except Discard:
            return None

    def monotone(self, label, f, x, up=True, bounds=None):
        """f evaluated around x"""
        lo, hi = bounds or (-math.inf, math.inf)
        xs = {x}
        for d in (1e-2, 1e-3, 1e-4, 1e-6, 1e-9):
            for s in (-1, 1):
                xs.add(min(max(x + s * d * max(abs(x), 1e-3), lo), hi))
        v0 = f(x)
        pts = [(y, self._try(f, y)) for y in sorted(xs)]
        pts = [p for p in pts if p[1] is not None]
        for (a, va), (b, vb) in zip(pts, pts[1:]):
            if not (va == va and vb == vb):
                self.checks.append([label, False, [_js(a), _js(va), _js(b), _js(vb)]])
                return
            d = vb - va if up else va - vb
            if d < -1e-9 * max(abs(va), abs(vb)) - 1e-14:
                self.checks.append([label, False, [_js(a), _js(va), _js(b), _js(vb)]])
                return
        self.checks.append([label, True, [_js(v0)]])

    def continuous(self, label, f, kw, box=None):
        """f evaluated around the given point"""
        v0 = float(self.np.asarray(f(**kw)).item())
        for d in (1e-9, 1e-8):
            for a, x in kw.items():
                if not isinstance(x, float):
                    continue
                for s in (-1, 1):
                    y = x + s * d * max(abs(x), 1e-3)
                    if box and a in box and not box[a][0] <= y <= box[a][1]:
                        continue
                    v = self._try(f, **dict(kw, **{a: y}))
                    if v is None:
                        continue
                    if not abs(v - v0) <= 1e-4 * max(abs(v), abs(v0), 1e-6):
                        self.checks.append([label, False, [a, _js(x), _js(v0), _js(v)]])
                        return
        self.checks.append([label, True, [_js(v0)]])

    def table_of(self, modname, fn, sep):
        """run fn(directory) that writes one text file: (file name, comment lines, column names, rows)"""
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            fn(d)
            files = [os.path.relpath(os.path.join(a, x), d) for a, _, xs in os.walk(d) for x in xs]
            if len(files) != 1:
                return None
            with open(os.path.join(d, files[0])) as fh:
                lines = fh.read().split("\n")
        comments = [x for x in lines if x[:1] in ("!", "*")]
        lines = [x.split(sep) for x in lines if x and x[:1] not in ("!", "*")]
        names = None

        def num(x):
            try:
                return float(x)
            except ValueError:
                return None
        if lines and any(num(x) is None for x in lines[0]):
            names, lines = lines[0], lines[1:]
        rows = [[num(x) for x in r] for r in lines]
        if any(x is None for r in rows for x in r):
            return None
        return files[0], comments, names, rows



class Msgs:
    def __init__(self, msgs):
        self.msgs = msgs
        self.rng = [m for m in msgs if "outside of the validity range" in m]
        self.other = [m for m in msgs if "outside of the validity range" not in m]

    def texts(self):
        return self.msgs

    def out(self, *keys):
        """condition: a range warning naming (one of) the variables was raised"""
        return any(any(_named(k, m) for k in keys) for m in self.rng)

    def exact(self, name, formula=""):
        return any(_head(m).lower() == name.lower() and formula.lower() in m.split(" for the ")[-1].lower() for m in self.rng)

    def any_out(self):
        return bool(self.rng)

    def only(self, names):
        names = [n.lower() for n in names]
        return all(_head(m).lower() in names for m in self.rng)

    def formula_ok(self, key):
        return all(key.lower() in m.split(" for the ")[-1].lower() for m in self.rng)

    def has_other(self, key=""):
        return any(key.lower() in m.lower() for m in self.other)


def _head(m):
    """name of the variable in a range warning"""
    i = m.find("Value of ")
    j = m.find(") is outside")
    return m[i + 9:j].rsplit(" (", 1)[0]


def _named(k, m):
    return k.lower() in _head(m).lower()


def _js(v):
    try:
        import numpy as np
        a = np.asarray(v)
        if a.dtype == object:
            return repr(v)[:80]
        return a.tolist()
    except Exception:
        return repr(v)[:80]


def run_one(ob, env, limit=20):
    m = ConM(env)
    out = {"discard": False, "exc": None, "timeout": False}

    def onalarm(*a):
        raise Timeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ob.fn(m)
    except Discard:
        out["discard"] = True
    except Timeout:
        out["timeout"] = True
        out["exc"] = "Timeout: no result within %s s" % limit
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, TypeError) and "/ob/" in tb[-1].filename and re.search(
                r"unexpected keyword argument|required (positional|keyword-only) argument|positional arguments? but|multiple values for argument", str(e)):
            # the harness could not call the function: changed interface, nothing observed
            out["discard"] = True
            out["checks"], out["env"] = [], m.used
            return out
        where = [f for f in tb if "/ob/" not in f.filename and "/vt/" not in f.filename]
        out["exc"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        out["where"] = ["%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in where[-3:]]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        m.close()
    out["checks"] = m.checks
    out["env"] = m.used
    return out


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    repo = os.environ.get("VT_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    proto = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import deltares_coastal_structures_toolbox as pkg
    assert os.path.realpath(pkg.__file__).startswith(os.path.realpath(repo) + os.sep), pkg.__file__
    from vt import reg
    obs = reg.load_all()
    for line in sys.stdin:
        r = json.loads(line)
        try:
            o = run_one(obs[r["ob"]], r["env"], r.get("limit", 20))
        except Exception as e:   # pragma: no cover
            o = {"error": repr(e), "checks": [], "exc": None, "discard": True}
        proto.write(json.dumps(o) + "\n")
        proto.flush()


if __name__ == "__main__":
    main()
