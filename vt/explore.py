"""Path exploration of one obligation over the symbolically executed repository."""
from __future__ import annotations

import json
import math
import os
import select
import signal
import subprocess
import time
import traceback
from fractions import Fraction

import numpy as np

from . import shim, smt
from . import sym as S
from .shim import EV, Atomic, Comp, Sym, SymBool, as_b, b_and, b_not, b_or
from .sym import ALL, CTX, NEG, POS, Z, Discard, PathLimit, Term, Unsupported

NSAMP = 600
RTOL = 1e-7


class Budget(BaseException):
    pass


class Server:
    def __init__(self):
        self.p = None
        self.calls = 0

    def start(self):
        here = os.path.dirname(os.path.abspath(__file__))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        py = "/opt/venv/bin/python"
        self.p = subprocess.Popen([py, os.path.join(here, "conc.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1, env=env)

    def run(self, ob, env, limit=20):
        for attempt in (0, 1):
            if self.p is None or self.p.poll() is not None:
                self.start()
            self.calls += 1
            try:
                self.p.stdin.write(json.dumps({"ob": ob.id, "env": env, "limit": limit}) + "\n")
                self.p.stdin.flush()
                t_end = time.time() + limit + 60
                r, _, _ = select.select([self.p.stdout], [], [], t_end - time.time())
                if not r:
                    self.p.kill()
                    self.p = None
                    return {"checks": [], "exc": "Timeout: hung", "timeout": True, "discard": False}
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, OSError):
                pass
            self.p = None
        return {"checks": [], "exc": None, "discard": True, "error": "server died"}

    def close(self):
        if self.p:
            self.p.kill()


class SMsgs:
    def __init__(self, ranges, warns):
        self.r = ranges
        self.other = warns

    def texts(self):
        """plain warnings (use after real_range_check)"""
        return self.other

    def _out(self, ev):
        _, _, v, lo, hi = ev
        vals = v.ravel().tolist() if isinstance(v, np.ndarray) else v if isinstance(v, (list, tuple)) else [v]
        return b_or(*[b_or(x < lo, x > hi) for x in vals])

    def out(self, *keys):
        return b_or(*[self._out(e) for e in self.r if any(k.lower() in e[0].lower() for k in keys)])

    def exact(self, name, formula=""):
        return b_or(*[self._out(e) for e in self.r if e[0].lower() == name.lower() and formula.lower() in e[1].lower()])

    def any_out(self):
        return b_or(*[self._out(e) for e in self.r])

    def only(self, names):
        """no warning names anything else"""
        names = [n.lower() for n in names]
        return b_not(b_or(*[self._out(e) for e in self.r if e[0].lower() not in names]))

    def formula_ok(self, key):
        return all(key.lower() in e[1].lower() for e in self.r)

    def has_other(self, key=""):
        return any(key.lower() in m.lower() for m in self.other)


class SymM:
    symbolic = True

    def __init__(self, ex):
        self.ex = ex
        self.np = shim.np_shim
        self.pi = shim.SPI
        self.undo = []

    def var(self, name, lo, hi):
        return self.ex.declare(name, lo, hi)

    def vars(self, **kw):
        return {k: self.var(k, *v) for k, v in kw.items()}

    def mod(self, name):
        return self.ex.loader.load(shim.TOP + ".functions" + ("." + name if name else ""))

    def fn(self, modname, attr):
        """a repository function a specification is stated in terms of; absent -> not decidable this way"""
        f = getattr(self.mod(modname), attr, None)
        if f is None:
            raise Unsupported("interface changed: %s.%s" % (modname, attr))
        return f

    def arr(self, *xs):
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = x
        return a

    def item(self, x):
        return x.item() if hasattr(x, "item") else x

    def assume(self, c):
        c = as_b(c)
        if c is False:
            raise Discard()
        if c is True:
            return
        self.ex.assume(c)

    def check(self, label, c):
        self.ex.check(label, c)

    def _pairs(self, a, b):
        aa = isinstance(a, (np.ndarray, list, tuple)) and not (isinstance(a, np.ndarray) and a.ndim == 0)
        bb = isinstance(b, (np.ndarray, list, tuple)) and not (isinstance(b, np.ndarray) and b.ndim == 0)
        if aa or bb:
            if not (aa and bb):
                one = a if aa else b
                if shim.to_arr(one).size == 1:
                    x = shim.to_arr(one).ravel()[0]
                    return [(x, b)] if aa else [(a, x)]
                return None
            a, b = shim.to_arr(a), shim.to_arr(b)
            if a.shape != b.shape:
                return None
            return list(zip(a.ravel().tolist(), b.ravel().tolist()))
        if isinstance(a, np.ndarray):
            a = a.item()
        if isinstance(b, np.ndarray):
            b = b.item()
        return [(a, b)]

    def _rel(self, a, b, rel, vals):
        ps = self._pairs(a, b)
        if ps is None:
            return Rec(False, [])
        out = []
        for x, y in ps:
            if isinstance(x, (SymBool, bool, np.bool_)) or isinstance(y, (SymBool, bool, np.bool_)):
                x, y = as_b(x), as_b(y)
                out.append(b_or(b_and(x, y), b_and(b_not(x), b_not(y))))
                continue
            if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                out.append(x == y)
                continue
            tx, ty = shim.lift(x), shim.lift(y)
            if tx is None or ty is None:
                out.append(False)
                continue
            out.append(shim.cmp2(tx, ty, rel))
        return Rec(b_and(*out), ps)

    def eq(self, a, b, rtol=RTOL, atol=1e-11):
        return self._rel(a, b, "==", [a, b])

    def le(self, a, b, rtol=RTOL, atol=1e-11):
        return self._rel(a, b, "<=", [a, b])

    def ge(self, a, b, **k):
        return self._rel(a, b, ">=", [a, b])

    def lt(self, a, b):
        return self._rel(a, b, "<", [a, b])

    def _c(self, c):
        return c.c if isinstance(c, Rec) else as_b(c)

    def implies(self, p, c):
        return Rec(b_or(b_not(self._c(p)), self._c(c)), c.vals if isinstance(c, Rec) else [])

    def iff(self, p, c):
        p, c = self._c(p), self._c(c)
        return b_or(b_and(p, c), b_and(b_not(p), b_not(c)))

    def land(self, *cs):
        return Rec(b_and(*[self._c(c) for c in cs]), [v for c in cs if isinstance(c, Rec) for v in c.vals])

    def lor(self, *cs):
        return Rec(b_or(*[self._c(c) for c in cs]), [v for c in cs if isinstance(c, Rec) for v in c.vals])

    def lnot(self, c):
        return b_not(self._c(c))

    def finite(self, x):
        a = shim.to_arr(x)
        ok = all(isinstance(v, Sym) or np.isfinite(v) for v in a.ravel())
        return Rec(ok, [])

    def isnan(self, x):
        a = shim.to_arr(x)
        return any((not isinstance(v, (Sym, SymBool))) and v != v for v in a.ravel())

    def truth(self, x):
        return bool(shim.np_all(x))

    def truth1(self, x):
        """truth value of a scalar flag, as a condition"""
        return as_b(x.item() if isinstance(x, np.ndarray) else x)

    def away(self, *conds):
        pass

    def raises(self, fn, exc=Exception):
        try:
            fn()
        except Unsupported:
            raise
        except exc:
            return True
        except Exception:
            return False
        return False

    def range_events(self, fn):
        n1, n2 = len(EV.ranges), len(EV.warnings)
        r = fn()
        return r, SMsgs(EV.ranges[n1:], EV.warnings[n2:])

    def real_range_check(self):
        """use the repository's own range check instead of the recording summary"""
        m = self.mod("core_utility")
        m.check_variable_validity_range = self.ex.real_crv

    def patch(self, modname, attr, mk):
        m = self.mod(modname)
        if hasattr(m, attr):
            old = getattr(m, attr)
            self.undo.append((m, attr, old))
            setattr(m, attr, mk(old))

    def free(self, modname, attr, name, bounds):
        """composition: the result of a repository function is any value of the box (replays run the function itself)"""
        g = self.var(name, *bounds)
        self.patch(modname, attr, lambda old: lambda *a, **k: g)

    def stub_uf(self, modname, attr, num=None, pos=True, outs=None, iv=None):
        """replace a repository function by an uninterpreted function of its bound arguments"""
        import inspect
        m = self.mod(modname)
        if not hasattr(m, attr):
            return
        old = getattr(m, attr)
        sig = inspect.signature(old)
        ex = self.ex

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            big = [n for n, v in b.arguments.items() if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.ndim > 0]
            if big:
                # elementwise (that the function itself is elementwise is an obligation of its own)
                bs = np.broadcast_arrays(*[shim.to_arr(b.arguments[n]) for n in big])
                rs = [f(**dict(b.arguments, **{n: x[i] for n, x in zip(big, bs)})) for i in np.ndindex(bs[0].shape)]
                def pack(vs):
                    o = np.empty(bs[0].shape, dtype=object)
                    for i, v in zip(np.ndindex(o.shape), vs):
                        o[i] = v
                    return shim.tidy(o)
                return tuple(pack(vs) for vs in zip(*rs)) if isinstance(rs[0], tuple) else pack(rs)
            ts = []
            for n, v in sorted(b.arguments.items()):
                if isinstance(v, np.ndarray) and v.ndim == 0:
                    v = v.item()
                if isinstance(v, (bool, str)) or v is None:
                    ts.append(str(v))
                    continue
                t = shim.lift(v)
                if t is None:
                    raise Unsupported("stubbed call with array argument")
                ts.append(t if isinstance(t, Term) else repr(t))
            ex.stubbed.add(modname + "." + attr)
            if outs:
                # a tuple of results: one uninterpreted function per position (None: False)
                return tuple(False if o is None else Sym(S.t_uf("%s.%s#%d" % (modname, attr, i), ts, o)) for i, o in enumerate(outs))
            r = Sym(S.t_uf(modname + "." + attr, ts, pos, iv))
            return r if num is None else (r,) + (False,) * (num - 1)
        self.undo.append((m, attr, old))
        setattr(m, attr, f)

    def monotone(self, label, f, x, up=True, bounds=None):
        """f never decreases (up) / increases in the input x: derivative sign on every path, and agreement of every two
        paths where they touch (decided after the last path)"""
        r = f(x)
        self._join(label, r, (x, up))

    def continuous(self, label, f, kw, box=None):
        """f has no jump inside the box: every two paths agree where they touch"""
        self._join(label, f(**kw), None)

    def _join(self, label, r, mono):
        if isinstance(r, np.ndarray):
            r = r.item()
        t = shim.lift(r)
        if not isinstance(t, Term):
            self.ex.check(label, False)
            return
        if mono:
            x, up = mono
            v = shim.lift(x).mons[0][0][0][0]
            d = Sym(S.t_diff(t, v))
            self.ex.check(label, (d >= 0) if up else (d <= 0))
        else:
            self.ex.check(label, True)
        self.ex.joins.setdefault((label, (v, up) if mono else None), []).append((dict(CTX.signs), t, set(self.ex.path_vars), list(self.ex.tkeys)))

    def table_of(self, modname, fn, sep):
        """run fn(directory) of a module that writes one text file: (file name, comment lines, column names, rows)"""
        EV.files.clear()
        m = self.mod(modname)
        log = []

        class File:
            def __init__(self, path, mode="r", **k):
                self.path, self.n = str(path), 0
                if mode[0] not in "wa":
                    raise Unsupported("reading a file")
                log.append((self.path, mode[0], ""))

            def write(self, text):
                log.append((self.path, "a", str(text)))
                return len(str(text))

            def writelines(self, lines):
                for x in lines:
                    self.write(x)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def flush(self):
                pass
        class L(list):
            def append(s_, f):
                log.append((f["path"], f["kw"].get("mode", "w"), f))
        old_files, EV.files = EV.files, L()
        had = "open" in m.__dict__
        if not had:
            m.open = File
        try:
            fn("OUTDIR")
        finally:
            EV.files = old_files
            if not had:
                del m.open
        paths = {os.path.relpath(p_, "OUTDIR") for p_, _, _ in log}
        if len(paths) != 1:
            return None
        comments, names, rows, seen = [], None, [], False
        for _, mode, x in log:
            if mode == "w":
                comments, names, rows, seen = [], None, [], False
            if isinstance(x, str):
                if x and seen:
                    return None
                comments += [y for y in x.split("\n") if y]
                continue
            if seen:
                return None
            seen = True
            if x["sep"] != sep or x["kw"].get("float_format") is not None:
                return None
            data = x["data"]
            if x["kw"].get("columns") is not None:
                data = {c: data[c] for c in x["kw"]["columns"]}
            big = {k: v for k, v in data.items() if isinstance(v, (np.ndarray, list, tuple))}
            n = {len(v) for v in big.values()}
            idx = x["frame_index"]
            if not n and idx is None:
                raise ValueError("If using all scalar values, you must pass an index")
            if len(n) > 1 or n and idx is not None and len(idx) not in n:
                raise ValueError("All arrays must be of the same length")
            n = n.pop() if n else len(idx)
            if x["header"]:
                names = ([""] if x["index"] else []) + list(data)
            for r in range(n):
                rows.append(([float(r)] if x["index"] else []) + [v[r] if k in big else v for k, v in data.items()])
        return paths.pop(), comments, names, rows

    def close(self):
        for m, a, o in reversed(self.undo):
            setattr(m, a, o)
        self.undo = []


class Rec:
    """condition + operand pairs (for translator validation)"""

    def __init__(self, c, vals):
        self.c = c
        self.vals = vals

    def __bool__(self):
        return bool(self.c)


class CheckRes:
    __slots__ = ("label", "verdict", "path", "detail")


class Explorer:
    def __init__(self, ob, server, seed=1, budget=60.0, qtime=4.0, tier="quick"):
        self.ob = ob
        self.server = server
        self.seed = seed
        self.deadline = time.time() + budget
        self.qtime = qtime
        self.tier = tier
        self.loader = get_loader()
        self.vars = {}
        self.samples = {}
        self.work = [[]]
        self.paths = 0
        self.forks = 0
        self.results = []
        self.witnessed = set()
        self.inconclusive = []
        self.violations = []
        self.stubbed = set()
        self.feas_queries = 0
        self.validated = 0
        self.mismatch = []
        self.seen_labels = set()
        self.qcache = {}
        self.pool_extra = []
        self.real_crv = None
        self.unsound = []
        self.samplog = []
        self.feas_cache = {}
        self.deferred = []
        self.joins = {}
        self.pairs = 0
        self.corners = 0

    # ---------------- inputs
    def declare(self, name, lo, hi):
        v = self.vars.get(name)
        if v is None:
            v = S.mk_var(name, Fraction(repr(float(lo))), Fraction(repr(float(hi))))
            self.vars[name] = v
        if name not in self.samples:
            rng = np.random.default_rng(abs(hash_str(name)) % (2 ** 32) + self.seed)
            lo, hi = float(lo), float(hi)
            u = rng.random(NSAMP)
            if lo > 0 and hi / lo > 3:
                x = np.exp(np.log(lo) + u * (np.log(hi) - np.log(lo)))
            else:
                x = lo + u * (hi - lo)
            # a few boundary values
            x[0], x[1] = lo, hi
            self.samples[name] = x
        if name not in self.path_vars:
            self.path_vars.add(name)
        self.ne.env.setdefault(name, self.samples[name])
        return Sym(S.atom_term(v))

    # ---------------- path machinery
    def start_path(self, prefix):
        CTX.signs = {}
        CTX.possums = []
        CTX.fork = self.fork
        CTX.on_domain = self.on_domain
        CTX.prove = self.prove
        EV.reset()
        self.prefix = prefix
        self.trace = []
        self.tkeys = []
        self.path_vars = set()
        self.ne = self._ne
        self.ne.env = self.samples
        self.alive = np.ones(NSAMP, dtype=bool)
        self.checks_here = []

    _ne = None

    def tval(self, t):
        v = self.ne.term(t)
        if np.ndim(v) == 0:
            v = np.full(NSAMP, float(v))
        return v

    def scale(self, t):
        """magnitude of the summands, to judge rounding noise"""
        s = 0.0
        with np.errstate(all="ignore"):
            for m, c in t.mons:
                p = abs(float(c))
                for a, e in m:
                    p = p * np.power(np.abs(self.ne.atom(a)), float(e))
                s = s + p
        return s

    def signmask(self, t, allowed):
        v = self.tval(t)
        with np.errstate(all="ignore"):
            eps = 1e-9 * self.scale(t)
            m = np.zeros(NSAMP, dtype=bool)
            if 1 in allowed:
                m |= v > eps
            if -1 in allowed:
                m |= v < -eps
            if 0 in allowed:
                m |= v == 0
        return m

    def restrict(self, k, allowed):
        cur = CTX.signs.get(k, ALL)
        CTX.signs[k] = cur & allowed
        if self.alive.any():
            with np.errstate(all="ignore"):
                # keep samples clearly on the right side
                self.alive &= self.signmask(k, allowed)

    def on_domain(self, k, new):
        if self.alive.any():
            self.alive &= self.signmask(k, new)

    def pc(self):
        return [(t, al) for t, al in CTX.signs.items() if al != ALL]

    def feasible(self, k, allowed):
        key = (frozenset(CTX.signs.items()), k, allowed)
        if key in self.feas_cache:
            return self.feas_cache[key]
        self.feas_queries += 1
        signs = dict(CTX.signs)
        cur = signs.get(k, ALL) & allowed
        if not cur:
            return False
        pcs = self.pc()
        va = list(self.vars.values())
        rel = relevant(pcs, Atomic(k, allowed))
        v, p, _ = smt.solve_lin(rel, Atomic(k, allowed), signs, timeout=0.5)
        if v == "unknown" and not self.ob.lax:
            v, p, _ = smt.solve(rel, Atomic(k, allowed), signs, va, timeout=0.5, rounds=1, accept=None)
        if v == "unknown":
            v, p, _ = smt.solve_nra(rel, Atomic(k, allowed), signs, va, timeout=0.1 if self.ob.lax else 1.0)
        r = v != "unsat"
        self.feas_cache[key] = r
        return r

    def near(self, k):
        """the path conditions over (at most) the atoms of k"""
        have = atoms_of(k)
        return [(t, al) for t, al in self.pc() if atoms_of(t) <= have]

    def prove(self, t):
        """try to establish a strict sign of t on this path with the solver"""
        k, s, _ = S.canon(t)
        if not k.mons:
            return None
        cur = CTX.signs.get(k)
        if cur is not None and len(cur) == 1:
            return frozenset(x * s for x in cur)
        for sg in (POS, NEG):
            other = (POS | NEG | Z) - sg
            key = (frozenset(CTX.signs.items()), k, "prove", sg)
            if key in self.feas_cache:
                ok = self.feas_cache[key]
            else:
                if (self.signmask(k, NEG if sg == POS else POS) & self.alive).any() or not self.alive.any():
                    ok = False
                else:
                    self.feas_queries += 1
                    signs = dict(CTX.signs)
                    hook, CTX.prove = CTX.prove, None
                    try:
                        v, _p, _i = smt.solve_nra(self.near(k), Atomic(k, other), signs, [], timeout=0.7)
                        if v == "unknown":
                            v, _p, _i = smt.solve(self.pc(), Atomic(k, other), signs, [], timeout=0.7, rounds=3)
                        if v == "unknown":
                            v, _p, _i = smt.solve_nra(self.pc(), Atomic(k, other), signs, [], timeout=1.0)
                    finally:
                        CTX.prove = hook
                    ok = v == "unsat"
                self.feas_cache[key] = ok
            if ok:
                CTX.signs[k] = sg
                return frozenset(x * s for x in sg)
        return None

    def fork(self, t, allowed):
        if time.time() > self.deadline:
            raise Budget()
        k, s, _ = S.canon(t)
        al = frozenset(x * s for x in allowed)
        cur = S.known_signs(k) & CTX.signs.get(k, ALL)
        if cur <= al:
            return True
        if not (cur & al):
            return False
        i = len(self.trace)
        if i >= 250:
            raise PathLimit("more than 250 symbolic decisions on one path")
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            tm = (self.signmask(k, al) & self.alive).any()
            fm = (self.signmask(k, ALL - al) & self.alive).any()
            ft = True if tm else self.feasible(k, al)
            ff = True if fm else (self.feasible(k, ALL - al) if ft else True)
            if ft and ff:
                self.forks += 1
                self.work.append(self.trace + [False])
                d = True
            else:
                d = ft
        self.trace.append(d)
        self.tkeys.append((k, d))
        self.restrict(k, (cur & al) if d else (cur - al))
        return d

    def assume(self, c):
        if isinstance(c, Comp) and c.op == "and":
            for p in c.parts:
                self.assume(p)
            return
        if isinstance(c, Atomic):
            ks = S.known_signs(c.t) & CTX.signs.get(c.t, ALL)
            if ks <= c.allowed:
                return
            if not (ks & c.allowed):
                raise Discard()
            self.restrict(c.t, ks & c.allowed)
            return
        if not bool(c):
            raise Discard()

    # ---------------- checks
    def check(self, label, c):
        vals = c.vals if isinstance(c, Rec) else []
        c = c.c if isinstance(c, Rec) else as_b(c)
        self.seen_labels.add(label)
        self.checks_here.append((label, vals))
        neg = b_not(c)
        key = (frozenset(CTX.signs.items()), label, repr(neg) if isinstance(neg, SymBool) else neg)
        if key in self.qcache:
            return
        self.qcache[key] = True
        res = CheckRes()
        res.label = label
        res.detail = None
        t0 = time.time()
        if neg is False:
            # decided during symbolic execution: the residual query is `false`
            res.verdict = "unsat"
            v, p, info = smt.solve(self.pc()[:0], False, CTX.signs, [], timeout=1.0)
            assert v == "unsat"
        else:
            falsified = self.alive & self.condmask(neg)
            v = "unknown"
            p = None
            seeds = [self.point(int(j)) for j in np.nonzero(falsified)[0][:4]]
            v, p, info = self.query(neg, seeds)
            if v == "unsat" and falsified.any():
                # the encoding excludes a point that numerically falsifies the condition
                j = int(np.nonzero(falsified)[0][0])
                self.unsound.append((label, self.point(j)))
            res.verdict = v
            if v != "unsat":
                pts = [p] if p else []
                pts += [self.point(int(j)) for j in np.nonzero(falsified)[0][:4]]
                if not pts and info and info.get("cands"):
                    pts += info["cands"]
                res.detail = self.confirm(label, pts, neg)
                if res.detail is None:
                    self.inconclusive.append("%s: solver %s, no reproducible counterexample" % (label, v))
        self.results.append(res)
        if os.environ.get("VT_DEBUG"):
            print("   check", label, res.verdict, "%.2fs" % (time.time() - t0), neg if res.verdict != "unsat" else "")

    def condmask(self, b):
        """samples at which b clearly holds"""
        if isinstance(b, bool):
            return np.full(NSAMP, b)
        if isinstance(b, Atomic):
            return self.signmask(b.t, b.allowed)
        ms = [self.condmask(p) for p in b.parts]
        r = ms[0]
        for m in ms[1:]:
            r = (r & m) if b.op == "and" else (r | m)
        return r

    def point(self, j):
        return {n: float(self.samples[n][j]) for n in self.path_vars}

    def accept(self, neg, seeds=()):
        pcs = self.pc()

        def f(pts):
            for env in list(pts) + list(seeds):
                full = {}
                for n in self.path_vars:
                    a = self.vars[n]
                    lo, hi = float(a.args[0]), float(a.args[1])
                    x = env.get(n)
                    full[n] = x if x is not None else (math.sqrt(lo * hi) if lo > 0 else 0.5 * (lo + hi))
                ne = S.NumEnv({n: np.float64(v) for n, v in full.items()})
                if all(point_holds(ne, Atomic(t, al), 0) for t, al in pcs) and point_holds(ne, neg, 1):
                    return full
            return None
        return f

    def query(self, neg, seeds=()):
        if time.time() > self.deadline:
            raise Budget()
        pcs = self.pc()
        signs = dict(CTX.signs)
        va = [self.vars[n] for n in self.path_vars]
        acc = self.accept(neg, seeds)
        neg = smt.split_goal(neg)
        if isinstance(neg, Atomic) and neg.t.is_const and not (S.iv_signs(neg.t) & neg.allowed):
            return ("unsat", None, {})
        rel = relevant(pcs, neg)
        q = self.qtime
        plan = [("m", rel, 1.0, 0), ("l", rel, 0.6, 1), ("s", rel, 2.0, 0), ("n", rel, 1.5, 0), ("l", rel, q, 6)]
        if len(rel) < len(pcs):
            plan += [("n", pcs, q, 0)]
        plan += [("n", pcs, 2 * q, 0), ("l", pcs, 3 * q, 25)]
        out = ("unknown", None, None)
        for kind, hyp, tmo, rounds in plan:
            if time.time() > self.deadline:
                raise Budget()
            if kind == "m":
                r = smt.solve_lin(hyp, neg, signs, timeout=tmo)
            elif kind == "l":
                r = smt.solve(hyp, neg, signs, va, timeout=tmo, rounds=rounds, accept=acc)
            elif kind == "s":
                r = smt.solve_small(hyp, neg, signs, timeout=tmo)
            else:
                r = smt.solve_nra(hyp, neg, signs, va, timeout=tmo, accept=acc)
            if r[0] != "unknown":
                return r
            if r[2] and not out[2]:
                out = r
        return out

    def confirm(self, label, pts, neg):
        """replay candidates (and perturbations of them) on the real code"""
        rng = np.random.default_rng(self.seed)
        tried = 0
        cand = list(pts)
        base = list(pts) or [{}]
        for b in base[:3]:
            for k in range(8):
                c = {}
                for n in self.path_vars:
                    a = self.vars[n]
                    lo, hi = float(a.args[0]), float(a.args[1])
                    x = b.get(n, math.sqrt(lo * hi) if lo > 0 else 0.5 * (lo + hi))
                    c[n] = float(min(max(x * (1 + rng.normal() * 0.05 * k / 4.0), lo), hi))
                cand.append(c)
        for env in cand[:28]:
            tried += 1
            r = self.server.run(self.ob, env)
            bad = [c for c in r["checks"] if not c[1]]
            if r.get("timeout") and label != "terminates":
                bad = bad or [["terminates", False, [r["exc"]]]]
            elif r["exc"] and not r.get("discard"):
                bad = bad or [["no exception", False, [r["exc"]]]]
            if bad:
                v = {"label": bad[0][0], "values": bad[0][2], "env": r.get("env", env), "exc": r["exc"],
                     "where": r.get("where")}
                self.violations.append(v)
                return v
        return None

    # ---------------- driver
    def run(self):
        self._ne = S.NumEnv(self.samples)
        self.ne = self._ne
        self.path_vars = set()
        core = self.loader.load(shim.TOP + ".functions.core_utility")
        self.real_crv = core.__dict__.get("__real_crv") or core.check_variable_validity_range
        core.__dict__["__real_crv"] = self.real_crv
        t_start = time.time()
        stopped = None
        while self.work:
            if self.paths >= self.ob.max_paths:
                stopped = "path budget %d exhausted" % self.ob.max_paths
                break
            if self.violations and len(self.violations) >= 2:
                stopped = "violation found"
                break
            prefix = self.work.pop()
            m = SymM(self)
            self.start_path(prefix)
            core.check_variable_validity_range = _record_range
            try:
                self.paths += 1
                self.ob.fn(m)
                self.finish_path()
            except Discard:
                pass
            except Budget:
                stopped = "time budget exhausted"
                break
            except (Unsupported, PathLimit) as e:
                self.note_unsupported(e)
            except RecursionError as e:
                self.note_unsupported(e)
            except Exception as e:
                self.on_exception(e)
            finally:
                m.close()
                core.check_variable_validity_range = self.real_crv
                CTX.fork = None
                CTX.on_domain = None
                CTX.prove = None
        if not stopped:
            try:
                self.late_joins()
            except Budget:
                stopped = "time budget exhausted"
        self.late_witness()
        self.stopped = stopped
        if stopped and stopped != "violation found":
            self.inconclusive.append(stopped)
        self.wall = time.time() - t_start
        return self

    def finish_path(self):
        """translator validation at one concrete point of this path + reachability witness"""
        if not self.checks_here:
            return
        labels = {l for l, _ in self.checks_here}
        if labels <= self.witnessed and self.validated >= 12:
            return
        j = np.nonzero(self.alive)[0]
        if len(j):
            j = j[min(len(j) - 1, 2)]
            env = self.point(int(j))
        else:
            # no sample on this path: look for a witness at the end, if its labels were not reached otherwise
            if not labels <= self.witnessed:
                self.deferred.append((labels, self.pc(), dict(CTX.signs), set(self.path_vars)))
            return
        self.witness(env, j)

    def late_joins(self):
        """no jump between paths: where two path conditions meet, both results agree (or step the allowed way)"""
        CTX.on_domain = CTX.prove = None
        CTX.fork = lambda t, al: True
        try:
            for (label, mono), recs in self.joins.items():
                ok = True
                for i in range(len(recs)):
                    for j in range(i + 1, len(recs)):
                        if time.time() > self.deadline:
                            raise Budget()
                        if recs[i][1] is not recs[j][1]:
                            ok = self.join(label, mono, recs[i], recs[j]) and ok
                            if self.violations:
                                return
                if ok:
                    res = CheckRes()
                    res.label, res.verdict, res.detail = label + " (no jump between regimes)", "unsat", None
                    self.results.append(res)
        finally:
            CTX.fork = None

    def join(self, label, mono, r1, r2):
        (s1, t1, v1, tr1), (s2, t2, v2, tr2) = r1, r2
        kd = next((k1 for (k1, d1), (k2, d2) in zip(tr1, tr2) if d1 != d2), None)
        if kd is None:
            return True
        self.pairs += 1
        c1, c2 = s1.get(kd), s2.get(kd)
        v = None
        if mono:
            v, up = mono
            if not S.depends(kd, v, {}):
                return True            # this boundary is not crossed when only v changes
        signs, corner = {}, []
        for k in set(s1) | set(s2):
            if k is kd:
                continue
            a = s1.get(k, ALL) & s2.get(k, ALL)
            if not a:
                corner.append(k)
                a = Z
            if not (a & S.iv_signs(k)):
                return True
            signs[k] = a
        if not (Z & S.iv_signs(kd)):
            return True
        CTX.signs = dict(signs)
        CTX.possums = []
        self.path_vars = v1 | v2
        u1, u2 = t1, t2
        sols = S.solutions(kd)
        if not sols and corner:
            self.corners += 1
            return True
        for var, val in sols[:3]:
            try:
                CTX.signs = dict(signs)
                memo, dep = {}, {}
                if any(S.norm_sum(S.t_subst(k, var, val, memo, dep)).mons for k in corner):
                    self.corners += 1
                    return True            # three or more regimes: met through their pairwise boundaries
                d = S.t_sub(S.t_subst(t1, var, val, memo, dep), S.t_subst(t2, var, val, memo, dep))
                if not d.mons or not S.norm_sum(d).mons or not S.norm_sum(S.expand_all(d)).mons:
                    return True
                for k, a in signs.items():
                    if S.depends(k, var, {}) and not (S.known_signs(S.t_subst(k, var, val, memo, dep)) & a):
                        return True            # the two paths do not touch
            except Unsupported:
                continue
        CTX.signs = dict(signs)
        CTX.signs[kd] = Z
        df = S.t_sub(t1, t2)
        if not df.mons or S.canon(df)[0] is kd:
            return True
        bad = POS | NEG
        if mono and c1 and c2 and not (1 in c1 and -1 in c1) and not (1 in c2 and -1 in c2) and c1 != Z and c2 != Z:
            try:
                dk = S.t_diff(kd, v)
                ks = S.known_signs(dk)
                for sg in (POS, NEG):
                    if len(ks) > 1 and smt.solve(self.pc(), Atomic(S.canon(dk)[0], ALL - frozenset(x * S.canon(dk)[1] for x in sg)), dict(CTX.signs), [], timeout=1.0, rounds=2)[0] == "unsat":
                        ks = sg
                if len(ks) == 1 and 0 not in ks:
                    sg = next(iter(ks))
                    first_right = (1 in c1) == (sg > 0)
                    # f_left <= f_right (up)
                    bad = (NEG if first_right else POS) if up else (POS if first_right else NEG)
            except Unsupported:
                pass
        self.alive = np.zeros(NSAMP, dtype=bool)
        vd, p, info = self.query(Atomic(df, bad))
        if vd == "unsat":
            return True
        res = CheckRes()
        res.label, res.verdict = label + " (no jump between regimes)", vd
        pts = ([p] if p else []) + list((info or {}).get("cands", []))
        res.detail = self.confirm(label, pts, True)
        if res.detail is None:
            self.inconclusive.append("%s: solver %s, no reproducible counterexample" % (res.label, vd))
        self.results.append(res)
        return False

    def late_witness(self):
        for labels, pcs, signs, pv in self.deferred:
            if labels <= self.witnessed or time.time() > self.deadline:
                continue
            CTX.signs = signs
            self.path_vars = pv
            self.checks_here = []
            v, p, info = smt.solve(pcs, True, dict(signs), [self.vars[n] for n in pv], timeout=2.0, rounds=4, accept=self.accept(True))
            if v == "sat" and p:
                self.witness(p, None)

    def witness(self, env, j):
        r = self.server.run(self.ob, env)
        if r.get("discard"):
            return
        if r["exc"]:
            self.violations.append({"label": "no exception", "values": [r["exc"]], "env": r.get("env", env),
                                    "exc": r["exc"], "where": r.get("where")})
            return
        for c in r["checks"]:
            self.witnessed.add(c[0])
            if not c[1]:
                self.violations.append({"label": c[0], "values": c[2], "env": r["env"], "exc": None, "where": None})
        if j is not None and not self.stubbed:
            # compare operands of the checks: encoding vs real code
            self.validated += 1
            if len(r["checks"]) == len(self.checks_here):
                for (lab, vals), c in zip(self.checks_here, r["checks"]):
                    if lab != c[0]:
                        continue
                    flat = []
                    for v in c[2]:
                        flat.append(v)
                    if len(vals) == 1 and len(flat) == 2:
                        for sv, cv in zip(vals[0], flat):
                            t = shim.lift(sv) if not isinstance(sv, (SymBool, bool, np.bool_, str, type(None))) else None
                            if isinstance(t, Term) and isinstance(cv, (int, float)):
                                nv = self.tval(t)[int(j)]
                                if abs(nv - cv) > 1e-6 * max(abs(nv), abs(cv)) + 1e-9 * max(1.0, float(np.max(np.abs(self.scale(t) * np.ones(NSAMP)), where=np.isfinite(self.scale(t) * np.ones(NSAMP)), initial=0)) * 1e-3):
                                    self.mismatch.append("%s at %s: encoding %.9g, real code %.9g" % (lab, env, nv, cv))

    def note_unsupported(self, e):
        msg = "%s: %s" % (type(e).__name__, e)
        if os.environ.get("VT_DEBUG"):
            traceback.print_exc()
        # use the solver's points of this path prefix as concrete probes of the real code
        pts = [self.point(int(j)) for j in np.nonzero(self.alive)[0][:6]]
        for env in pts:
            r = self.server.run(self.ob, env)
            bad = [c for c in r["checks"] if not c[1]]
            if r["exc"] and not r.get("discard"):
                bad = bad or [["no exception", False, [r["exc"]]]]
            if bad:
                self.violations.append({"label": bad[0][0], "values": bad[0][2], "env": r.get("env", env),
                                        "exc": r["exc"], "where": r.get("where")})
                return
        self.inconclusive.append("not encodable: " + msg)

    def on_exception(self, e):
        msg = "%s: %s" % (type(e).__name__, e)
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]]
        if os.environ.get("VT_DEBUG"):
            traceback.print_exc()
        res = CheckRes()
        res.label = "no exception"
        self.seen_labels.add(res.label)
        pts = [self.point(int(j)) for j in np.nonzero(self.alive)[0][:4]]
        if not pts:
            v, p, info = smt.solve(self.pc(), True, dict(CTX.signs), [self.vars[n] for n in self.path_vars],
                                   timeout=3.0, rounds=6, accept=self.accept(True))
            if v == "unsat":
                res.verdict = "unsat"
                res.detail = None
                self.results.append(res)
                return
            pts = [p] if p else (info or {}).get("cands", [])
        res.verdict = "sat"
        res.detail = self.confirm("no exception", pts, True)
        if res.detail is None:
            self.inconclusive.append("exception path not reproduced: %s at %s" % (msg, where))
        self.results.append(res)


def point_holds(ne, b, strict):
    if isinstance(b, bool):
        return b
    if isinstance(b, Atomic):
        v = float(ne.term(b.t))
        if v != v:
            return False
        s = 0.0
        for m, c in b.t.mons:
            p = abs(float(c))
            for a, e in m:
                p *= abs(float(ne.atom(a))) ** float(e) if float(ne.atom(a)) != 0 or e > 0 else float("inf")
            s += p
        eps = 1e-9 * s if s == s and s < 1e300 else 0.0
        if strict:
            # clearly violates
            return (1 in b.allowed and v > 10 * eps) or (-1 in b.allowed and v < -10 * eps) or (b.allowed == Z and abs(v) <= eps)
        return (1 in b.allowed and v > -eps) or (-1 in b.allowed and v < eps) or (0 in b.allowed and abs(v) <= eps)
    rs = [point_holds(ne, p, strict) for p in b.parts]
    return all(rs) if b.op == "and" else any(rs)


def atoms_of(t):
    return {a for m, _ in t.mons for a, _e in m if a.kind != "prime"}


def vars_of(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    for m, _ in t.mons:
        for a, _e in m:
            if a.kind == "var":
                acc.add(a)
            elif a.kind in ("sum", "fn"):
                vars_of(a.args[0], acc, seen)
            elif a.kind == "uf":
                for x in a.args:
                    if isinstance(x, Term):
                        vars_of(x, acc, seen)


def cond_vars(b, acc, seen):
    if isinstance(b, Atomic):
        vars_of(b.t, acc, seen)
    elif isinstance(b, Comp):
        for p in b.parts:
            cond_vars(p, acc, seen)


def relevant(pcs, neg):
    acc = set()
    cond_vars(neg, acc, set())
    if not acc:
        return pcs
    items = []
    for t, al in pcs:
        v = set()
        vars_of(t, v, set())
        items.append((t, al, v))
    out = []
    changed = True
    used = [False] * len(items)
    while changed:
        changed = False
        for i, (t, al, v) in enumerate(items):
            if not used[i] and v & acc:
                used[i] = True
                acc |= v
                changed = True
    return [(t, al) for i, (t, al, v) in enumerate(items) if used[i]]


def hash_str(s):
    h = 2166136261
    for ch in s:
        h = ((h ^ ord(ch)) * 16777619) & 0xFFFFFFFF
    return h


def _record_range(variable_name, formula_name, values, min_value, max_value):
    EV.ranges.append((variable_name, formula_name, values, min_value, max_value))
    vals = values.ravel().tolist() if isinstance(values, np.ndarray) else values if isinstance(values, (list, tuple)) else [values]
    return [b_and(b_not(v < min_value), b_not(v > max_value)) for v in vals]


_LOADER = None


def get_loader():
    global _LOADER
    if _LOADER is None:
        _LOADER = shim.make_loader()
        _LOADER.load(shim.TOP)
    return _LOADER
