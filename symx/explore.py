"""Path exploration, checking, counterexample replay and reporting.

A scenario is a function of an environment.  Run with SymEnv it executes the
code under test on symbolic inputs, one path at a time; run with ConcEnv it
executes the same code on the real libraries with the values of a solver model
(the replay of a counterexample, and the validation of the encoding)."""
from __future__ import annotations
import copy
import json
import logging
import math
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core, loader, stubs
from .core import (H, Ctx, EngineStop, PathAbort, SB, SF, SI, Unsupported,
                   b_and, b_not, b_or, f2q, lift, n2z, q)

logging.disable(logging.CRITICAL)
np.seterr(all="ignore")
import warnings
warnings.simplefilter("ignore")

TOL = 1e-6
_CACHE = {}


class ReplayFail(Exception):
    """a check failed in a concrete run"""

    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


class EnvBase:
    """what a scenario may use"""

    def attempt(self, f, *a, **k):
        """(ok, value, exception)"""
        try:
            return True, f(*a, **k), None
        except Exception as ex:          # engine exceptions pass through
            return False, None, ex

    def eq_arrays(self, label, a, b, tol=None):
        a, b = self.arr(a), self.arr(b)
        if a.shape != b.shape:
            self.check(label + ".shape", False)
            return
        for pos in np.ndindex(*a.shape):
            self.eq(label, a[pos], b[pos], tol=tol)

    def choice(self, name, options):
        return options[self.pick(name, len(options))]

    def flag(self, name):
        return bool(self.bool(name))

    def cleanup(self):
        d = getattr(self, "_dir", None)
        if d:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
            self._dir = None


class SymEnv(EnvBase):
    sym = True

    def __init__(self, mods, ctx, run):
        self.mods, self.ctx, self.run = mods, ctx, run
        self.np = mods.np
        self.params = run.params
        self._memo = {}
        self._kinds = {}

    # ---- inputs
    def _again(self, name, kind):
        """the same input once more; two inputs must not share a name"""
        if kind != self._kinds[name]:
            raise Unsupported(f"two inputs are named {name}")
        return self._memo[name]

    def real(self, name, lo=None, hi=None, nan=False, inf=False, py=True,
             olo=None, ohi=None):
        c = self.ctx
        if name in self._memo:
            return self._again(name, ("real", lo, hi, nan, inf, py, olo, ohi))
        self._kinds[name] = ("real", lo, hi, nan, inf, py, olo, ohi)
        v = z3.Real(name)
        nv = z3.Bool(name + "?nan") if nan else False
        pv = z3.Bool(name + "?pinf") if inf else False
        mv = z3.Bool(name + "?ninf") if inf else False
        if inf:
            c.add_pc(z3.Not(z3.And(pv, mv)))
            if nan:
                c.add_pc(z3.Not(z3.And(nv, z3.Or(pv, mv))))
        for b, f in ((lo, lambda x: v >= x), (hi, lambda x: v <= x),
                     (olo, lambda x: v > x), (ohi, lambda x: v < x)):
            if b is not None:
                c.add_pc(f(n2z(lift(b).val())))
        c.inputs[name] = ("real", v, nv, pv, mv, py)
        r = SF(v, 0, nv, pv, mv, py)
        self._memo[name] = r
        return r

    def int(self, name, lo=None, hi=None, py=True):
        c = self.ctx
        if name in self._memo:
            return self._again(name, ("int", lo, hi, py))
        self._kinds[name] = ("int", lo, hi, py)
        v = z3.Int(name)
        if lo is not None:
            c.add_pc(v >= lo)
        if hi is not None:
            c.add_pc(v <= hi)
        c.inputs[name] = ("int", v, py)
        r = SI(v, py)
        self._memo[name] = r
        return r

    def bool(self, name, py=True):
        if name in self._memo:
            return self._again(name, ("bool", py))
        self._kinds[name] = ("bool", py)
        v = z3.Bool(name)
        self.ctx.inputs[name] = ("bool", v, py)
        r = SB(v, py)
        self._memo[name] = r
        return r

    def pick(self, name, n):
        if n == 1:
            return 0
        v = self.int(name, 0, n - 1).v
        for i in range(n - 1):
            if self.ctx.decide(v == i):
                return i
        return n - 1

    def array(self, name, shape, **k):
        from .arr import fin, F8
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for pos in np.ndindex(*shape):
            out[pos] = self.real(name + str(list(pos)).replace(" ", ""), py=False, **k)
        return fin(out, F8)

    def ints(self, name, n, lo, hi):
        from .arr import fin, I8
        out = np.empty((n,), dtype=object)
        for k in range(n):
            out[k] = self.int(f"{name}[{k}]", lo, hi, py=False)
        return fin(out, I8)

    def bools(self, name, shape):
        from .arr import fin, B1
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for pos in np.ndindex(*shape):
            out[pos] = self.bool(name + str(list(pos)).replace(" ", ""), py=False)
        return fin(out, B1)

    def assume(self, cond):
        e = _cond(cond)
        if e is False:
            raise PathAbort()
        if e is True:
            return
        self.ctx.add_pc(e)
        if not self.ctx.possible(b_and(e)) and self.ctx.known(e) is None:
            raise PathAbort()

    def arr(self, x):
        from .arr import to_arr, base
        return base(to_arr(x))

    # ---- logic without branching
    def and_(self, *xs):
        return SB(b_and(*[_cond(x) for x in xs]))

    def or_(self, *xs):
        return SB(b_or(*[_cond(x) for x in xs]))

    def not_(self, x):
        return SB(b_not(_cond(x)))

    def cases(self, x):
        """the value without case distinctions: forks on their conditions"""
        x = lift(x)

        def pure(t):
            known = []
            while not isinstance(t, (bool, Fraction)):
                if known:
                    t = z3.substitute(t, *known)
                    t = z3.simplify(t) if z3.is_bool(t) else t
                e = core.first_ite(t)
                if e is None:
                    break
                c = e.arg(0)
                d = self.ctx.decide(z3.simplify(c))
                known = [(c, z3.BoolVal(d)), (e, e.arg(1 if d else 2))]
                t = z3.substitute(t, (e, e.arg(1 if d else 2)))
            n = core.n_num(t) if not isinstance(t, bool) and z3.is_real(t) else None
            return n if n is not None else t
        nan = x.nan
        if not isinstance(nan, bool):
            nan = self.ctx.decide(nan)
        return SF(pure(x.v), x.p, nan, x.pinf, x.ninf, x.py)

    def implies(self, a, b):
        return SB(b_or(b_not(_cond(a)), _cond(b)))

    def ite(self, c, a, b):
        return core.sf_ite(SB(_cond(c)), a, b)

    def same(self, a, b):
        """equal, or both nan"""
        if a is None or b is None:
            return SB(a is b)
        return SB(core.sf_same(a, b))

    def isnan(self, x):
        return SB(lift(x).nan)

    def finite(self, x):
        return SB(lift(x).fin)

    def le(self, label, a, b, tol=None):
        self.check(label, SB(core.sf_le(lift(a), lift(b))),
                   loose=lambda: lift(a) <= lift(b) + lift(1e-3) * (abs(lift(b)) + 1))

    def lt(self, label, a, b):
        self.check(label, SB(core.sf_lt(lift(a), lift(b))),
                   loose=lambda: lift(a) < lift(b) + lift(1e-3))

    def eq(self, label, a, b, tol=None):
        if a is None or b is None:
            self.check(label, a is b)
            return
        a, b = lift(a), lift(b)

        def loose():
            d = abs(a - b) <= lift(1e-3) * (abs(b) + 1)
            return SB(b_or(b_and(a.nan, b.nan), b_and(a.pinf, b.pinf),
                           b_and(a.ninf, b.ninf), b_and(d.v, a.fin, b.fin)))
        self.check(label, SB(core.sf_same(a, b)), loose=loose)

    def check(self, label, cond, loose=None, known=None):
        self.run.check(self, label, _cond(cond), loose, known)

    def cached(self, key, build):
        """result of build(), a run on concrete values only, shared by all
        paths; every path gets its own copy"""
        hit = _CACHE.get(key)
        if hit is None or hit[0] is not self.mods:
            old = self.ctx.opts.get("float_concrete")
            self.ctx.opts["float_concrete"] = True
            try:
                hit = (self.mods, build())
            finally:
                self.ctx.opts["float_concrete"] = old
            _CACHE[key] = hit
        return copy.deepcopy(hit[1])

    # ---- files
    def scratch(self, crash_at=None, order=None):
        self._dir = tempfile.mkdtemp(prefix="symx_")
        os.chdir(self._dir)
        self.ctx.fs = stubs.FS(self._dir, crash_at, order)
        return self.ctx.fs

    def axes(self):
        return stubs.Axes()

    def float(self, x):
        return loader.sx_float(x)


class ConcEnv(EnvBase):
    sym = False

    def __init__(self, values, params, fs=False, margin=False):
        self.values, self.params = values, params
        self.np = np
        self._fs = None
        self.margin = margin
        if fs:
            self._fs = stubs.FS(tempfile.gettempdir())
            self.mods = loader.load("real", self._fs)
        else:
            self.mods = real_mods()
        self.labels = []

    def _v(self, name, d=0.0):
        v = self.values.get(name, d)
        return v

    def real(self, name, lo=None, hi=None, nan=False, inf=False, py=True,
             olo=None, ohi=None):
        d = 0.0
        for b in (lo, hi):
            if b is not None:
                d = float(b)
        v = float(self._v(name, d))
        return v if py else np.float64(v)

    def int(self, name, lo=None, hi=None, py=True):
        v = int(self._v(name, lo if lo is not None else 0))
        return v if py else np.int64(v)

    def bool(self, name, py=True):
        v = bool(self._v(name, False))
        return v if py else np.bool_(v)

    def pick(self, name, n):
        return 0 if n == 1 else self.int(name, 0, n - 1)

    def array(self, name, shape, **k):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.zeros(shape)
        for pos in np.ndindex(*shape):
            out[pos] = self.real(name + str(list(pos)).replace(" ", ""), **k)
        return out

    def ints(self, name, n, lo, hi):
        return np.array([self.int(f"{name}[{k}]", lo, hi) for k in range(n)], dtype=np.int64)

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.zeros(shape, dtype=bool)
        for pos in np.ndindex(*shape):
            out[pos] = self.bool(name + str(list(pos)).replace(" ", ""))
        return out

    def assume(self, cond):
        if not bool(cond):
            raise PathAbort()

    def arr(self, x):
        return np.asarray(x)

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def _close(self, a, b, tol=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= (tol or TOL) * (1 + abs(b))

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        return self._close(a, b)

    def isnan(self, x):
        return bool(np.isnan(x))

    def finite(self, x):
        return bool(np.isfinite(x))

    def le(self, label, a, b, tol=None):
        self.check(label, float(a) <= float(b) + (tol or TOL) * (1 + abs(float(b))),
                   detail=f"{a} <= {b}")

    def lt(self, label, a, b):
        self.check(label, float(a) < float(b) + TOL * (1 + abs(float(b))),
                   detail=f"{a} < {b}")

    def eq(self, label, a, b, tol=None):
        if a is None or b is None:
            self.check(label, a is b, detail=f"{a} == {b}")
            return
        self.check(label, self._close(a, b, tol), detail=f"{a} == {b}")

    def check(self, label, cond, loose=None, known=None, detail=None):
        self.labels.append(label)
        if known is not None and bool(known[1]):
            return
        if not bool(cond) and (loose is None or not bool(loose())):
            raise ReplayFail(label, detail or "condition is false")

    def scratch(self, crash_at=None, order=None):
        self._dir = tempfile.mkdtemp(prefix="symx_")
        os.chdir(self._dir)
        fs = self._fs
        fs.__init__(self._dir, crash_at, order)
        return fs

    def axes(self):
        import matplotlib
        matplotlib.use("Agg")
        from matplotlib.figure import Figure
        return Figure().add_subplot(111)

    def float(self, x):
        return float(x)

    def cached(self, key, build):
        return build()

    def cases(self, x):
        return x


def _cond(c):
    if type(c) is SB:
        return c.v
    if isinstance(c, (bool, np.bool_)):
        return bool(c)
    if type(c) is SF or type(c) is SI:
        return core.to_sb(c).v
    if isinstance(c, np.ndarray):
        from .arr import IMPL, to_arr
        a = to_arr(c)
        if a.size == 1:
            return _cond(a.view(np.ndarray).flat[0])
        raise ValueError("condition is an array")
    if z3.is_bool(c):
        return c
    return bool(c)


_REAL = None
_SYM = None


def real_mods():
    global _REAL
    if _REAL is None:
        _REAL = loader.load("real")
    return _REAL


def sym_mods():
    global _SYM
    if _SYM is None:
        old = H.ctx
        H.ctx = Ctx()
        _SYM = loader.load("sym")
        H.ctx = old
    return _SYM


# --------------------------------------------------------------------------
# functions of the code under test that were executed symbolically

class Coverage:
    def __init__(self):
        self.seen = set()
        self.tool = None

    def start(self):
        m = sys.monitoring
        self.tool = 3
        try:
            m.use_tool_id(self.tool, "symx")
        except ValueError:
            return
        import atexit
        atexit.register(lambda: m.set_events(self.tool, 0))

        def on_start(code, off):
            if code.co_filename.startswith(loader.REPO + "/"):
                self.seen.add((os.path.basename(code.co_filename), code.co_qualname))
            return m.DISABLE
        m.register_callback(self.tool, m.events.PY_START, on_start)
        m.set_events(self.tool, m.events.PY_START)


COV = Coverage()


# --------------------------------------------------------------------------

class Found(EngineStop):
    def __init__(self, rec):
        self.rec = rec


def z3_num(v):
    if z3.is_algebraic_value(v):
        v = v.approx(25)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def model_values(ctx, model):
    out = {}
    for name, d in ctx.inputs.items():
        out[name] = _mv(d, model)
    return out


def _mv(d, model):
    ev = lambda e: model.eval(e, model_completion=True)
    if d[0] == "real":
        _, v, nv, pv, mv, py = d
        if nv is not False and z3.is_true(ev(nv)):
            return math.nan
        if pv is not False and z3.is_true(ev(pv)):
            return math.inf
        if mv is not False and z3.is_true(ev(mv)):
            return -math.inf
        try:
            return float(z3_num(ev(v)))
        except OverflowError:
            return 1e300
    if d[0] == "int":
        return ev(d[1]).as_long()
    return z3.is_true(ev(d[1]))


class Run:
    """exploration of one scenario from one trace prefix"""

    def __init__(self, sc, tier, seed, deadline):
        self.sc, self.params = sc, sc.get("params", {})
        self.tier, self.seed = tier, seed
        self.deadline = deadline
        self.stats = {}
        self.labels = {}
        self.fails = []
        self.reduced = {}
        self.undecided = {}
        self.unsupported = {}
        self.known = {}
        self.paths = 0
        self.witnesses = 0
        self.notes = []
        self.maxvars = 0
        self.prove_s = sc.get("prove_s", 20 if tier == "quick" else 120)

    # ---- solving
    def all_constraints(self, ctx, extra):
        """pc, extra and every axiom they depend on."""
        exprs = list(ctx.pc) + list(extra)
        names = set()
        for e in exprs:
            names |= core.term_vars(e)
        work = list(names)
        seen, out = set(), []
        while work:
            for ax in ctx.axioms.get(work.pop(), ()):
                if ax.get_id() in seen:
                    continue
                seen.add(ax.get_id())
                out.append(ax)
                new = core.term_vars(ax) - names
                names |= new
                work.extend(new)
        return out + exprs

    def find_model(self, ctx, extra, ms=4000):
        cons = self.all_constraints(ctx, extra)
        for kind, t in (("def", ms), ("old", ms / 2), ("nra", ms)):
            t0 = time.time()
            s = core._mk_solver(kind, t)
            s.add(*cons)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            core._bump(self.stats, t0, str(r))
            if r == z3.sat:
                return s.model(), cons
            if r == z3.unsat:
                return None, cons
        return False, cons

    def polish(self, ctx, model, cons, ms=1500, budget=6.0, generic=False):
        """move the inputs of a model to simple values where that stays sat;
        generic: to values no shorter format holds exactly."""
        s = z3.Solver()
        s.set("timeout", 600)
        s.add(*cons)
        t_end = time.time() + budget
        cur = model
        for name, d in ctx.inputs.items():
            if time.time() > t_end:
                break
            if d[0] != "real":
                s.add(d[1] == cur.eval(d[1], model_completion=True))
                continue
            x = z3_num(cur.eval(d[1], model_completion=True))
            cands = []
            if generic:
                d0 = Fraction(1234567891 + 1010101 * len(name), 10 ** 11)
                cands = [x + d0, x - d0, x + d0 / 1000]
            elif x.denominator in (1, 2, 4, 8) and abs(x) <= 64:
                cands = [x]
            else:
                for den in (1, 2, 4, 8, 16):
                    c = Fraction(round(x * den), den)
                    if c not in cands:
                        cands.append(c)
                cands = [c for c in cands if abs(c) <= 1000] or \
                    [Fraction(1), Fraction(2), Fraction(8), Fraction(-2)]
                cands = cands[:4]
            done = False
            for c in cands:
                t0 = time.time()
                r = s.check(d[1] == q(c))
                core._bump(self.stats, t0, str(r))
                if r == z3.sat:
                    cur = s.model()
                    s.add(d[1] == q(c))
                    done = True
                    break
            if not done:
                v = cur.eval(d[1], model_completion=True)
                if z3.is_rational_value(v):
                    s.add(d[1] == v)
            for f in d[2:5]:
                if f is not False:
                    s.add(f == cur.eval(f, model_completion=True))
        return cur

    # ---- a claim
    def check(self, env, label, cond, loose, known):
        ctx = env.ctx
        self.labels[label] = self.labels.get(label, 0) + 1
        if cond is True:
            self.stats["trivial"] = self.stats.get("trivial", 0) + 1
            return
        if known is not None:
            kid, region = known
            region = _cond(region)
            if region is not False:
                bad = b_and(region, b_not(cond))
                if bad is not False:
                    bad = z3.BoolVal(True) if bad is True else bad
                    m, _ = self.find_model(ctx, [bad])
                    if m:
                        self.known.setdefault(kid, json_values(model_values(ctx, m)))
                cond = b_or(region, cond)
                if cond is True:
                    return
        cz = z3.BoolVal(cond) if isinstance(cond, bool) else cond
        simp = z3.simplify(cz)
        if z3.is_true(simp):
            self.stats["trivial"] = self.stats.get("trivial", 0) + 1
            return
        if ctx.pos < len(ctx.trace):
            # already settled on the path this one was forked from
            ctx._logged(None)
            return
        self.settle(ctx, label, cond, cz, loose)
        ctx._logged(lambda: "checked")

    def settle(self, ctx, label, cond, cz, loose):
        if cond is False:
            sl = list(ctx.pc)
        else:
            sl = ctx.slice([cz])
        self.maxvars = max(self.maxvars, len(core.term_vars(cz)))
        key = None
        left = self.deadline - time.time()
        res, model = core.prove(sl, cz, max(1.0, min(self.prove_s, left)), self.stats)
        if res == "unsat":
            self.stats["proved"] = self.stats.get("proved", 0) + 1
            return
        neg = b_not(cz)
        tried = 0
        if res == "sat":
            lz = None
            if loose is not None:
                try:
                    lz = _cond(loose())
                except EngineStop:
                    lz = None
            goals = []
            if lz is not None and not isinstance(lz, bool):
                goals.append([neg, b_not(lz)])
            goals.append([neg])
            for g in goals:
                m, cons = self.find_model(ctx, g)
                if m is None and len(g) == 1:
                    return          # infeasible path
                if not m:
                    continue
                for mm in (lambda: self.polish(ctx, m, cons), lambda: m,
                           lambda: self.polish(ctx, m, cons, generic=True)):
                    vals = model_values(ctx, mm())
                    tried += 1
                    f = self.replay(vals)
                    if f is not None:
                        raise Found({"label": label, "values": vals, "replay": f,
                                     "by": "solver"})
            f = self.hunt(ctx, label, neg, 6) or self.simple(ctx, label, neg)
            if f:
                raise Found(f)
            self.undecided[label] = self.undecided.get(label, 0) + 1
            self.notes.append(f"{label}: solver model did not replay on the real code")
            self.fails.append({"label": label, "unreplayed": True,
                               "values": json_values(model_values(ctx, model))})
            return
        # unknown: look for counterexamples and prove on reduced bounds
        f = self.hunt(ctx, label, neg, 8, record=True)
        if f:
            raise Found(f)

    def hunt(self, ctx, label, neg, n, record=False):
        """pin all inputs but a few and decide the claim there."""
        rnd = random.Random(self.seed * 7919 + len(self.labels))
        names = list(ctx.inputs)
        decided = 0
        for i in range(n):
            if time.time() > self.deadline:
                break
            cons = self.all_constraints(ctx, [neg])
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*cons)
            rnd.shuffle(names)
            pins = []
            base_m, base_c = self.find_model(ctx, self.rand_pins(ctx, rnd, names), 800)
            if not base_m:
                base_m, base_c = self.find_model(ctx, [], 2000)
                if not base_m:
                    continue
            keep = names[: max(0, len(names) - (i % 3))]
            for nme in keep:
                d = ctx.inputs[nme]
                v = base_m.eval(d[1], model_completion=True)
                pins.append(d[1] == v)
                for fl in d[2:5] if d[0] == "real" else ():
                    if fl is not False:
                        pins.append(fl == base_m.eval(fl, model_completion=True))
            t0 = time.time()
            s.add(*pins)
            r = s.check()
            core._bump(self.stats, t0, str(r))
            if r == z3.sat:
                vals = model_values(ctx, s.model())
                f = self.replay(vals)
                if f is not None:
                    return {"label": label, "values": vals, "replay": f, "by": "solver"}
            elif r == z3.unsat:
                decided += 1
        if record:
            if decided:
                self.reduced[label] = self.reduced.get(label, 0) + 1
            else:
                self.undecided[label] = self.undecided.get(label, 0) + 1
        return None

    def simple(self, ctx, label, neg, budget=15.0):
        """counterexamples at values a computation is exact for, one after another"""
        names = [n for n, d in ctx.inputs.items() if d[0] == "real"]
        rnd = random.Random(self.seed)
        t_end = min(time.time() + budget, self.deadline)
        s = z3.Solver()
        s.set("timeout", 600)
        s.add(*self.all_constraints(ctx, [neg]))
        halves = [Fraction(k, 2) for k in (1, 2, 3, 4, -1, -2, -3, -4, 0)]
        if len(names) > 1:
            tries = [[rnd.choice(halves) for _ in names] for _ in range(40)]
        else:
            tries = [[h] for h in halves + [Fraction(k, 4) for k in range(-11, 12, 2)]]
        for vs in tries:
            if time.time() > t_end:
                break
            s.push()
            for n, v in zip(names, vs):
                s.add(ctx.inputs[n][1] == q(v))
            t0 = time.time()
            r = s.check()
            core._bump(self.stats, t0, str(r))
            m = s.model() if r == z3.sat else None
            s.pop()
            if m is not None:
                vals = model_values(ctx, m)
                f = self.replay(vals)
                if f is not None:
                    return {"label": label, "values": vals, "replay": f, "by": "solver"}
        return None

    def rand_pins(self, ctx, rnd, names):
        pins = []
        for n in names:
            d = ctx.inputs[n]
            if d[0] == "real" and rnd.random() < 0.5:
                c = rnd.choice([-2, -1, 0, 1, 2, 3]) + Fraction(rnd.randrange(4), 4)
                pins.append(z3.And(d[1] >= q(c - 1), d[1] <= q(c + 1)))
        return pins

    # ---- concrete run of the same scenario
    def replay(self, values):
        """None if every check passes, else a description of the failure."""
        return replay_scenario(self.sc, values)

    # ---- exploration
    def explore(self, traces, slice_s):
        work = [list(t) for t in traces]
        t_end = time.time() + slice_s
        while work and time.time() < t_end and time.time() < self.deadline:
            tr = work.pop()
            pend = self.one_path(tr)
            work.extend(pend)
            if self.fails and any(not f.get("unreplayed") for f in self.fails):
                return []
        return work

    def one_path(self, trace):
        sc = self.sc
        ctx = Ctx(trace, self.stats, dict(sc.get("opts", {})))
        ctx.opts.setdefault("feas_ms", 1000 if self.tier == "quick" else 4000)
        H.ctx = ctx
        env = SymEnv(sym_mods(), ctx, self)
        status = "ok"
        try:
            sc["fn"](env)
        except PathAbort:
            status = "abort"
        except Found as f:
            f.rec["scenario"] = sc["name"]
            self.fails.append(f.rec)
            status = "found"
        except Unsupported as ex:
            status = "unsupported"
            k = f"{ex} @ {_where()}"
            self.unsupported[k] = self.unsupported.get(k, 0) + 1
        except EngineStop as ex:
            status = "unsupported"
            k = f"{type(ex).__name__}: {ex} @ {_where()}"
            self.unsupported[k] = self.unsupported.get(k, 0) + 1
        except RecursionError:
            status = "unsupported"
            self.unsupported["recursion"] = 1
        except Exception as ex:
            status = "raised"
            tb = traceback.format_exc()
            m, cons = self.find_model(ctx, [])
            if m is None:
                status = "abort"
            else:
                f = None
                vals = {}
                if m:
                    for mm in (self.polish(ctx, m, cons), m):
                        vals = model_values(ctx, mm)
                        f = self.replay(vals)
                        if f is not None:
                            break
                if f is not None:
                    self.fails.append({"label": "no-exception", "values": vals,
                                       "replay": f, "by": "solver",
                                       "scenario": sc["name"]})
                else:
                    k = f"engine: {type(ex).__name__}: {ex} {_lastframes(tb)}"
                    self.unsupported[k] = self.unsupported.get(k, 0) + 1
        finally:
            env.cleanup()
            H.ctx = ctx
        if status != "abort":
            self.paths += 1
            if ctx.reduced:
                k = "concretised"
                self.reduced[k] = self.reduced.get(k, 0) + 1
        every = sc.get("witness_every", 1 if self.paths <= 30 else 25)
        if status in ("ok", "unsupported") and sc.get("witness", True) and \
                self.paths % every == 0 and time.time() < self.deadline:
            self.witness(ctx)
        H.ctx = None
        return ctx.pending

    def witness(self, ctx):
        m, cons = self.find_model(ctx, [], 2000)
        if not m:
            return
        first = None
        for k in range(2):
            vals = model_values(ctx, self.polish(ctx, m, cons, budget=2.0) if k == 0 else m)
            f = self.replay(vals)
            if f is None:
                self.witnesses += 1
                return
            first = first or (vals, f)
        # every witness of this path fails on the real code
        rnd = random.Random(self.seed)
        for _ in range(3):
            m2, c2 = self.find_model(ctx, self.rand_pins(ctx, rnd, list(ctx.inputs)), 1000)
            if m2:
                f = self.replay(model_values(ctx, m2))
                if f is None:
                    self.notes.append(f"rounding-sensitive witness: {first[1]}")
                    self.witnesses += 1
                    return
        self.fails.append({"label": first[1].split(":")[0], "values": first[0],
                           "replay": first[1], "by": "path witness",
                           "scenario": self.sc["name"]})


def replay_scenario(sc, values):
    old, H.ctx = H.ctx, None
    cwd = os.getcwd()
    env = None
    try:
        env = ConcEnv(values, sc.get("params", {}), fs=sc.get("fs", False))
        sc["fn"](env)
        return None
    except ReplayFail as f:
        return str(f)
    except PathAbort:
        return None
    except EngineStop as ex:
        return f"{type(ex).__name__}: {ex}"
    except Exception as ex:
        return f"raised {type(ex).__name__}: {ex} {_lastframes(traceback.format_exc())}"
    finally:
        if env is not None:
            env.cleanup()
        os.chdir(cwd)
        H.ctx = old


def _where():
    tb = sys.exc_info()[2]
    out = []
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(loader.REPO) or "/checks/" in fr.filename:
            out.append(f"{os.path.basename(fr.filename)}:{fr.lineno}")
    return ">".join(out[-3:])


def _lastframes(tb):
    ls = [l.strip() for l in tb.splitlines() if l.strip().startswith("File")]
    return " <- ".join(f"{os.path.basename(l.split(chr(34))[1])}:{l.split('line ')[1].split(',')[0]}"
                       for l in reversed(ls[-4:]))


def json_values(vals):
    return {k: (v if isinstance(v, (bool, int)) else repr(float(v)))
            for k, v in vals.items()}


def unjson_values(vals):
    return {k: (v if isinstance(v, (bool, int)) else float(v))
            for k, v in vals.items()}


# --------------------------------------------------------------------------
# process pool over (scenario, trace) tasks

def _task(a):
    scs, i, traces, tier, seed, deadline, slice_s = a
    sc = _SCS[i]
    run = Run(sc, tier, seed, deadline)
    try:
        left = run.explore(traces, slice_s)
    except MemoryError:
        left = []
        run.unsupported["memory"] = 1
    for f in run.fails:
        f["values"] = f["values"] if f.get("unreplayed") else json_values(f["values"])
    return {"i": i, "left": left, "stats": run.stats, "labels": run.labels,
            "fails": run.fails, "reduced": run.reduced, "undecided": run.undecided,
            "unsupported": run.unsupported, "known": run.known, "paths": run.paths,
            "witnesses": run.witnesses, "notes": run.notes, "cov": sorted(COV.seen),
            "maxvars": run.maxvars}


_SCS = []


def merge(dst, src):
    for k, v in src.items():
        if isinstance(v, dict):
            merge(dst.setdefault(k, {}), v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            dst[k] = dst.get(k, 0) + v
        else:
            dst[k] = v


def run_scenarios(scs, tier, seed, budget_s, procs=None, verbose=False):
    global _SCS
    _SCS = scs
    t0 = time.time()
    deadline = t0 + budget_s
    tot = {"stats": {}, "labels": {}, "reduced": {}, "undecided": {}, "unsupported": {},
           "known": {}, "fails": [], "notes": [], "paths": 0, "witnesses": 0,
           "cov": set(), "left": 0, "maxvars": 0, "per": {}}
    procs = procs or min(8, os.cpu_count() or 1)
    sym_mods()
    real_mods()

    def absorb(r):
        name = scs[r["i"]]["name"]
        for k in ("stats", "reduced", "undecided", "unsupported"):
            merge(tot[k], r[k])
        tot["labels"].setdefault(name, {})
        merge(tot["labels"][name], r["labels"])
        tot["known"].update(r["known"])
        tot["fails"].extend(r["fails"])
        tot["notes"].extend(r["notes"])
        tot["paths"] += r["paths"]
        tot["witnesses"] += r["witnesses"]
        tot["maxvars"] = max(tot["maxvars"], r["maxvars"])
        tot["cov"] |= set(map(tuple, r["cov"]))
        tot["per"][name] = tot["per"].get(name, 0) + r["paths"]

    queue = [(i, [[]]) for i in range(len(scs))]
    if procs == 1:
        COV.start()
        while queue:
            i, tr = queue.pop(0)
            r = _task((None, i, tr, tier, seed, deadline, 1e9))
            absorb(r)
            tot["left"] += len(r["left"])
            if any(not f.get("unreplayed") for f in tot["fails"]):
                break
        tot["wall"] = time.time() - t0
        return tot
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, initializer=COV.start) as pool:
        live = []
        stop = False
        while queue or live:
            while queue and len(live) < procs * 2 and not stop:
                i, tr = queue.pop(0)
                sl = 3.0 if len(queue) + len(live) > procs else 1.0
                live.append(pool.apply_async(_task, ((None, i, tr, tier, seed, deadline, sl),)))
            if stop and not live:
                break
            nxt = []
            got = False
            for h in live:
                if h.ready():
                    got = True
                    r = h.get()
                    absorb(r)
                    if any(not f.get("unreplayed") for f in r["fails"]):
                        stop = True
                    left = r["left"]
                    if time.time() >= deadline:
                        tot["left"] += len(left)
                    elif left:
                        n = max(1, min(len(left), procs))
                        for k in range(n):
                            queue.append((r["i"], left[k::n]))
                else:
                    nxt.append(h)
            live = nxt
            if stop:
                pool.terminate()
                break
            if time.time() >= deadline:
                for i, tr in queue:
                    tot["left"] += len(tr)
                queue = []
                if time.time() >= deadline + 40:
                    tot["notes"].append("deadline: workers stopped")
                    tot["left"] += len(live)
                    pool.terminate()
                    break
            if not got:
                time.sleep(0.02)
    tot["wall"] = time.time() - t0
    return tot
