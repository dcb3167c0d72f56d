"""Symbolic scalars, path context and solver access.

The real source of the code under test is executed by CPython; its numbers are
the proxies defined here.  A proxy holds either a concrete value or an SMT term.
Every test of a symbolic truth value (``SB.__bool__``) is a branch decision of
the path explorer (see explore.py)."""
from __future__ import annotations
import math
import os
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import numpy as np
import z3

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


class EngineStop(BaseException):
    """Engine control flow: never caught by `except Exception` in the code."""


class PathAbort(EngineStop):
    """The current path is infeasible (an assumption failed)."""


class Budget(EngineStop):
    """Exploration budget exhausted."""


class Unsupported(EngineStop):
    """An operation the encoding does not cover."""


# --------------------------------------------------------------------------
# bool helpers over (python bool | z3 BoolRef)

def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def _flat(xs, unit, isop):
    """arguments of a conjunction (unit True) or disjunction (unit False)
    without repetitions; None when the result is `not unit`"""
    out, ids = [], set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is unit:
            continue
        if isinstance(x, bool):
            return None
        i = x.get_id()
        if i in ids:
            continue
        ids.add(i)
        if isop(x) and x.num_args() + len(out) + len(stack) <= 16:
            stack.extend(reversed(x.children()))
            continue
        out.append(x)
    for x in out:
        if z3.is_not(x) and x.arg(0).get_id() in ids:
            return None
    return out


def b_and(*xs):
    out = _flat(xs, True, z3.is_and)
    if out is None:
        return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = _flat(xs, False, z3.is_or)
    if out is None:
        return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    if isinstance(a, bool):
        return b_or(c, b) if a else b_and(b_not(c), b)
    if isinstance(b, bool):
        return b_or(b_not(c), a) if b else b_and(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def b_eq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else b_not(b)
    if isinstance(b, bool):
        return a if b else b_not(a)
    if a.eq(b):
        return True
    return a == b


def norm_bool(e):
    """z3 BoolRef -> python bool when it simplifies to a constant."""
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


# --------------------------------------------------------------------------
# numeric helpers over (Fraction | z3 Real)

def q(x):
    return z3.RealVal(f"{x.numerator}/{x.denominator}" if x.denominator != 1
                      else str(x.numerator))


def n2z(v):
    return q(v) if isinstance(v, Fraction) else v


def n_num(v):
    """Fraction if v is a numeral else None."""
    if isinstance(v, Fraction):
        return v
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


def first_ite(e):
    """an innermost case distinction of a term"""
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_ITE:
            for c in t.children():
                r = first_ite(c)
                if r is not None:
                    return r
            return t
        stack.extend(t.children())
    return None


_size_cache: dict = {}


def small_poly(e, limit=40):
    """number of nodes of a polynomial term without division or branches,
    None when it is larger or something else"""
    key = e.get_id()
    hit = _size_cache.get(key)
    if hit is not None:
        return hit[1]
    n, ok = 0, True
    stack = [e]
    while stack and ok:
        t = stack.pop()
        n += 1
        k = t.decl().kind()
        if n > limit or k not in _POLY or (k == z3.Z3_OP_UNINTERPRETED and t.num_args()):
            ok = False
        stack.extend(t.children())
    r = n if ok else None
    _size_cache[key] = (e, r)
    return r


_POLY = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_ANUM,
         z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_POWER}


def cancel(e):
    """normal form of a small polynomial when that is smaller: (1+4x)-4x -> 1"""
    n = small_poly(e)
    if n is None or n < 5:
        return e
    s = z3.simplify(e, som=True)
    v = n_num(s)
    if v is not None:
        return v
    m = small_poly(s)
    return s if m is not None and m < n - 2 else e


def n_add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    if isinstance(a, Fraction) and a == 0:
        return b
    if isinstance(b, Fraction) and b == 0:
        return a
    return cancel(n2z(a) + n2z(b))


def n_neg(a):
    if isinstance(a, Fraction):
        return -a
    if z3.is_app_of(a, z3.Z3_OP_UMINUS):
        return a.arg(0)
    return -a


def n_sub(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a - b
    if isinstance(b, Fraction) and b == 0:
        return a
    if isinstance(a, Fraction) and a == 0:
        return n_neg(b)
    if not isinstance(a, Fraction) and not isinstance(b, Fraction) and a.eq(b):
        return Fraction(0)
    return cancel(n2z(a) - n2z(b))


def n_mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    if isinstance(a, Fraction):
        if a == 0:
            return Fraction(0)
        if a == 1:
            return b
        if a == -1:
            return n_neg(b)
    if isinstance(b, Fraction):
        if b == 0:
            return Fraction(0)
        if b == 1:
            return a
        if b == -1:
            return n_neg(a)
        a, b = b, a
    return n2z(a) * n2z(b)


def n_same(a, b):
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        return isinstance(a, Fraction) and isinstance(b, Fraction) and a == b
    return a.eq(b)


def n_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if n_same(a, b):
        return a
    return z3.If(c, n2z(a), n2z(b))


def radicand(v, depth=0):
    """v**2 of a root whose radicand is a sum of squares"""
    if not isinstance(v, Fraction) and z3.is_rational_value(v):
        v = n_num(v)
    if isinstance(v, Fraction):
        return v * v if v >= 0 else None
    if z3.is_const(v):
        hit = C().roots.get(v.get_id())
        return hit[1] if hit is not None else None
    if depth < 6 and z3.is_app_of(v, z3.Z3_OP_ITE):
        x = radicand(v.arg(1), depth + 1)
        y = radicand(v.arg(2), depth + 1) if x is not None else None
        return z3.If(v.arg(0), n2z(x), n2z(y)) if y is not None else None
    return None


def sum_of_squares(v):
    if z3.is_add(v):
        return all(sum_of_squares(x) for x in v.children())
    if z3.is_mul(v) and v.num_args() == 2:
        return v.arg(0).eq(v.arg(1))
    c = n_num(v)
    return c is not None and c >= 0


def unroot(a, b):
    """roots compare like their radicands"""
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a, b
    x = radicand(a)
    if x is None:
        return a, b
    y = radicand(b)
    return (a, b) if y is None else (x, y)


def n_lt(a, b):
    a, b = unroot(a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a < b
    if n_same(a, b):
        return False
    return n2z(a) < n2z(b)


def n_le(a, b):
    a, b = unroot(a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a <= b
    if n_same(a, b):
        return True
    return n2z(a) <= n2z(b)


def n_eq(a, b):
    a, b = unroot(a, b)
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    if n_same(a, b):
        return True
    for x, y in ((a, b), (b, a)):        # If(c, 1, 0) == 0
        if isinstance(x, Fraction) and not isinstance(y, Fraction) and z3.is_app_of(y, z3.Z3_OP_ITE):
            u, v = n_num(y.arg(1)), n_num(y.arg(2))
            if u is not None and v is not None:
                return (u == x) if u == v else y.arg(0) if u == x else \
                    b_not(y.arg(0)) if v == x else False
    return n2z(a) == n2z(b)


def f2q(x: float) -> Fraction:
    return Fraction(repr(float(x)))


# --------------------------------------------------------------------------
# variable collection (cached)

_vars_cache: dict = {}
_EMPTY = frozenset()


def term_size(e, limit):
    """number of nodes of a term, at most limit + 1"""
    n, stack = 0, [e]
    while stack and n <= limit:
        stack.extend(stack.pop().children())
        n += 1
    return n


def term_vars(e):
    """frozenset of names of the uninterpreted constants of a z3 term."""
    key = e.get_id()
    hit = _vars_cache.get(key)
    if hit is not None:
        return hit[1]
    stack = [(e, False)]
    while stack:
        t, done = stack.pop()
        k = t.get_id()
        if k in _vars_cache:
            continue
        if t.num_args() == 0:
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                _vars_cache[k] = (t, frozenset((t.decl().name(),)))
            else:
                _vars_cache[k] = (t, _EMPTY)
            continue
        ch = t.children()
        if done:
            s = set()
            for c in ch:
                s |= _vars_cache[c.get_id()][1]
            _vars_cache[k] = (t, frozenset(s))
        else:
            stack.append((t, True))
            for c in ch:
                if c.get_id() not in _vars_cache:
                    stack.append((c, False))
    return _vars_cache[key][1]


# --------------------------------------------------------------------------
# context of one path

class Ctx:
    def __init__(self, trace=None, stats=None, opts=None):
        self.trace = list(trace or [])      # replayed solver answers
        self.pos = 0
        self.pending = []                   # alternative traces discovered
        self.pc = []                        # path condition (z3)
        self.pc_ids = {}
        self.axioms = {}                    # var name -> list of axioms
        self.inputs = {}                    # name -> descriptor
        self.nfresh = 0
        self.memo = {}
        self.roots = {}
        self.angles = {}
        self.reduced = []                   # concretisations performed
        self.stats = stats if stats is not None else {}
        self.opts = opts or {}
        self.fs = None
        self.keep = []
        self.guards = []                    # conditions the current value is only needed under
        self.fmt = {}

    # ---- fresh symbols and definitional axioms
    def fresh(self, prefix="k", sort="real"):
        self.nfresh += 1
        n = f"{prefix}!{self.nfresh}"
        if sort == "real":
            return z3.Real(n)
        if sort == "int":
            return z3.Int(n)
        return z3.Bool(n)

    def axiom(self, defined, expr):
        """expr constrains the variables `defined` (z3 consts)."""
        if isinstance(expr, bool):
            return
        for d in defined:
            self.axioms.setdefault(d.decl().name(), []).append(expr)

    def forget(self, names, size=40, kept=()):
        """Drop what the path has learnt, except short facts about the inputs
        named: what is shown afterwards holds whatever came before."""
        kept = {p.get_id() for p in kept}
        keep = []
        for p in self.pc:
            if p.get_id() in kept or term_vars(p) <= names and term_size(p, size) <= size:
                keep.append(p)
        self.pc = keep
        self.pc_ids = {p.get_id(): p for p in keep}

    def depending(self, root):
        """what the path has learnt about unknowns defined from those named root!N"""
        hit = {}

        def depends(v):
            if v not in hit:
                hit[v] = v.startswith(root + "!") or False
                if not hit[v] and "!" in v:
                    age = int(v.rpartition("!")[2])
                    hit[v] = any(depends(w) for ax in self.axioms.get(v, ()) for w in term_vars(ax)
                                 if w.startswith(root + "!") or
                                 "!" in w and int(w.rpartition("!")[2]) < age)
            return hit[v]
        return [p for p in self.pc if any(depends(v) for v in term_vars(p))]

    # ---- slicing
    def slice(self, exprs):
        """Axioms relevant to exprs, and the connected part of the pc."""
        names = set()
        for e in exprs:
            names |= term_vars(e)
        work = list(names)
        seen_ax = set()
        out = []
        rest = [(p, term_vars(p)) for p in self.pc]
        while True:
            while work:
                for ax in self.axioms.get(work.pop(), ()):
                    k = ax.get_id()
                    if k in seen_ax:
                        continue
                    seen_ax.add(k)
                    out.append(ax)
                    new = term_vars(ax) - names
                    names |= new
                    work.extend(new)
            nxt = []
            for p, vs in rest:
                if vs & names:
                    out.append(p)
                    new = vs - names
                    names |= new
                    work.extend(new)
                else:
                    nxt.append((p, vs))
            if len(nxt) == len(rest):
                return out
            rest = nxt

    # ---- solver-backed questions, logged for deterministic re-execution
    def _logged(self, compute):
        if self.pos < len(self.trace):
            r = self.trace[self.pos]
            self.pos += 1
            return r[1] if r[0] == "q" else r
        r = compute()
        self.trace.append(("q", r))
        self.pos += 1
        return r

    def feasible(self, e, timeout=None, guarded=False, branch=False):
        """may `pc and e` hold?  unknown counts as yes."""
        if isinstance(e, bool):
            return e
        es = [e] + [g for g in self.guards if guarded and not isinstance(g, bool)]
        sl = self.slice(es)
        r = quick_check(sl + es, timeout or self.opts.get("feas_ms", 1000),
                        self.stats)
        if r == "unknown" and (self.opts.get("reduce") or branch and self.opts.get("settle")):
            g = z3.Not(z3.And(*es)) if len(es) > 1 else z3.Not(e)
            if prove_reduced(sl, g, 15, self.stats):
                return False
        return r != "unsat"

    def possible(self, e):
        """feasibility as a logged query (used to simplify terms)."""
        if isinstance(e, bool):
            return e
        for g in self.guards:
            if not isinstance(g, bool) and z3.is_not(g) and g.arg(0).eq(e):
                return False
        if self.known(e) is not None:
            return self.known(e)
        r = self._logged(lambda: self.feasible(e, guarded=True))
        if not r and self.opts.get("reduce"):
            # what was shown is kept as a fact about the newest unknown in it
            es = [e] + [g for g in self.guards if not isinstance(g, bool)]
            fact = z3.Not(z3.And(*es))
            newest = max(term_vars(e), key=lambda n: int("0" + n.rpartition("!")[2]) if "!" in n else 0)
            self.axioms.setdefault(newest, []).append(fact)
        return r

    def known(self, e):
        if isinstance(e, bool):
            return e
        if e.get_id() in self.pc_ids:
            return True
        ne = b_not(e)
        if not isinstance(ne, bool) and ne.get_id() in self.pc_ids:
            return False
        return None

    def add_pc(self, e):
        if isinstance(e, bool):
            if not e:
                raise PathAbort()
            return
        if e.get_id() in self.pc_ids:
            return
        if z3.is_and(e):
            for c in e.children():
                self.add_pc(c)
            self.pc_ids[e.get_id()] = e
            return
        if z3.is_not(e) and z3.is_or(e.arg(0)):
            for c in e.arg(0).children():
                self.add_pc(b_not(c))
            self.pc_ids[e.get_id()] = e
            return
        self.pc_ids[e.get_id()] = e
        self.pc.append(e)

    def decide(self, e):
        """Branch on a z3 boolean."""
        e = norm_bool(e)
        if isinstance(e, bool):
            return e
        k = self.known(e)
        if k is not None:
            return k
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        self.stats["decisions"] = self.stats.get("decisions", 0) + 1
        if self.pos < len(self.trace):
            d = self.trace[self.pos][1]
            self.pos += 1
        else:
            t = self.feasible(e, branch=True)
            if not t:
                d = False
            else:
                f = self.feasible(b_not(e), branch=True)
                if not f:
                    d = True
                else:
                    d = True
                    self.pending.append(self.trace[:self.pos] + [("d", False)])
                    self.stats["forks"] = self.stats.get("forks", 0) + 1
            self.trace.append(("d", d))
            self.pos += 1
        self.add_pc(e if d else b_not(e))
        return d

    def pick_int(self, t):
        """Enumerate the values of an integer term by forking."""
        while True:
            def compute():
                sl = self.slice([t == t + 0, t >= t])
                m = get_model(sl + [t == t], 2000, self.stats)
                if m is None:
                    raise Unsupported("cannot enumerate integer term")
                return m.eval(t, model_completion=True).as_long()
            v = self._logged(compute)
            if self.decide(t == v):
                return v

    def concretise(self, t):
        """Pin a real term to one value: reduces the bounds of the claim."""
        def compute():
            sl = self.slice([t == t + 0])
            m = get_model(sl, 2000, self.stats)
            if m is None:
                raise Unsupported("cannot concretise term")
            val = m.eval(t, model_completion=True)
            if z3.is_algebraic_value(val):
                val = val.approx(20)
            return Fraction(val.numerator_as_long(), val.denominator_as_long())
        v = self._logged(compute)
        self.reduced.append(str(t)[:80])
        self.add_pc(n2z(t) == q(v))
        return v


class _Holder:
    ctx: Ctx | None = None


H = _Holder()


def C() -> Ctx:
    return H.ctx


# --------------------------------------------------------------------------
# solver access

def _bump(stats, t0, res):
    if stats is not None:
        stats["queries"] = stats.get("queries", 0) + 1
        stats["solver_s"] = stats.get("solver_s", 0.0) + time.time() - t0
        stats[res] = stats.get(res, 0) + 1


def quick_check(asserts, timeout, stats=None):
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(*asserts)
    r = str(s.check())
    _bump(stats, t0, r)
    return r


def get_model(asserts, timeout, stats=None):
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(*asserts)
    r = s.check()
    _bump(stats, t0, str(r))
    if r == z3.sat:
        return s.model()
    return None


def _mk_solver(kind, timeout):
    if kind == "old":
        s = z3.SimpleSolver()
        s.set("arith.solver", 2)
    elif kind == "nra":
        s = z3.SolverFor("QF_NRA")
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout))
    return s


def linearised(cons):
    """the constraints with every monomial an unknown of its own, or None when
    nothing is nonlinear: unsat of these implies unsat of the original"""
    memo, names = {}, {}

    def walk(t):
        k = t.get_id()
        hit = memo.get(k)
        if hit is not None:
            return hit[1]
        if not z3.is_app(t):
            raise Unsupported("quantifier")
        if z3.is_mul(t):
            ch = t.children()
            num = [c for c in ch if n_num(c) is not None]
            rest = [c for c in ch if n_num(c) is None]
            if len(rest) > 1 or any(not z3.is_const(c) and not z3.is_app_of(c, z3.Z3_OP_ITE)
                                    and not z3.is_mul(c) and not z3.is_add(c) for c in rest):
                key = tuple(sorted(c.get_id() for c in rest))
                if key not in names:
                    names[key] = (z3.Real(f"mono!{len(names)}"), rest)
                r = names[key][0]
                for c in num:
                    r = c * r
                memo[k] = (t, r)
                return r
        if z3.is_app_of(t, z3.Z3_OP_POWER) or z3.is_app_of(t, z3.Z3_OP_DIV):
            key = ("t", t.get_id())
            if key not in names:
                names[key] = (z3.Real(f"mono!{len(names)}"), [t])
            r = names[key][0]
        elif t.num_args():
            ch = [walk(c) for c in t.children()]
            r = t.decl()(*ch) if not z3.is_and(t) and not z3.is_or(t) and not z3.is_add(t) \
                and not z3.is_mul(t) and not z3.is_distinct(t) else \
                {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum,
                 z3.Z3_OP_MUL: z3.Product, z3.Z3_OP_DISTINCT: z3.Distinct}[t.decl().kind()](*ch)
        else:
            r = t
        memo[k] = (t, r)
        return r
    facts, seen, stack = [], set(), list(cons)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_arith(t) and (z3.is_add(t) or z3.is_mul(t)) and sum_of_squares(t):
            facts.append(t >= 0)
        stack.extend(t.children())
    out = [walk(z3.simplify(c, som=True)) for c in list(cons) + facts]
    return out if names else None


def prove_linear(cons, ms, stats):
    if len(cons) > 400:
        return False
    try:
        lin = linearised(cons)
    except (Unsupported, z3.Z3Exception):
        return False
    if lin is None:
        return False
    t0 = time.time()
    s = z3.SimpleSolver()
    s.set("timeout", ms)
    s.add(*lin)
    r = s.check()
    _bump(stats, t0, str(r) if r == z3.unsat else "unknown")
    return r == z3.unsat


def prove(asserts, goal, budget_s, stats=None):
    """Is (asserts => goal)?  Returns ('unsat'|'sat'|'unknown', model|None)."""
    neg = z3.Not(goal) if not isinstance(goal, bool) else z3.BoolVal(not goal)
    cons = list(asserts) + [neg]
    simp = z3.simplify(z3.And(*cons)) if len(cons) < 40 else None
    if simp is not None and z3.is_false(simp):
        _bump(stats, time.time(), "unsat")
        return "unsat", None
    t_end = time.time() + budget_s
    if prove_linear(cons, int(min(2000, budget_s * 500)), stats):
        return "unsat", None
    if C() is not None and C().opts.get("reduce") and prove_reduced(asserts, goal, budget_s * 0.7, stats):
        return "unsat", None
    ms = 1500
    while True:
        for kind in ("def", "old", "nra"):
            left = t_end - time.time()
            if left <= 0.05:
                return "unknown", None
            t0 = time.time()
            s = _mk_solver(kind, min(ms, left * 1000))
            try:
                s.add(*cons)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            _bump(stats, t0, str(r))
            if r == z3.unsat:
                return "unsat", None
            if r == z3.sat:
                return "sat", s.model()
        if ms >= 6000 and t_end - time.time() > 2:
            r, m = external(cons, t_end - time.time(), stats)
            return r, m
        ms *= 4


def prove_reduced(asserts, goal, budget_s, stats=None):
    """a proof found in a process of its own, see reduce.py (its answer depends
    on the text of the goal only, not on what this process built before)"""
    if isinstance(goal, bool):
        return False
    u = z3.Solver()
    u.add(*asserts)
    u.add(z3.Not(goal))
    t0 = time.time()
    try:
        r = subprocess.run([sys.executable, "-B", os.path.join(os.path.dirname(__file__), "reduce.py"),
                            str(budget_s)], input=u.to_smt2().replace("(check-sat)", ""),
                           capture_output=True, text=True, timeout=budget_s + 5).stdout.split()
    except subprocess.TimeoutExpired:
        r = []
    res = r[0] if r else "unknown"
    _bump(stats, t0, "unsat" if res == "unsat" else "unknown")
    if stats is not None and len(r) > 1:
        stats["queries"] += int(r[1])
    return res == "unsat"


def external(cons, budget_s, stats=None):
    """Race command-line solvers; only unsat verdicts are used directly."""
    s = z3.Solver()
    s.add(*cons)
    txt = s.to_smt2()
    cv = txt.replace("(check-sat)", "")
    head = "(set-logic ALL)\n"
    fd, p1 = tempfile.mkstemp(suffix=".smt2")
    with os.fdopen(fd, "w") as f:
        f.write(head + cv + "(check-sat)\n")
    t0 = time.time()
    procs = []
    try:
        for cmd in (["z3-new", p1], ["cvc5", "--nl-ext-tplanes", p1],
                    ["z3-new", "tactic.default_tactic=qfnra-nlsat", p1]):
            try:
                procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True))
            except OSError:
                pass
        live = list(procs)
        while live and time.time() - t0 < budget_s:
            time.sleep(0.05)
            for pr in list(live):
                if pr.poll() is not None:
                    live.remove(pr)
                    out = pr.stdout.read()
                    if "(error" in out:
                        continue
                    if out.strip().startswith("unsat"):
                        _bump(stats, t0, "unsat")
                        return "unsat", None
        _bump(stats, t0, "unknown")
        return "unknown", None
    finally:
        for pr in procs:
            if pr.poll() is None:
                pr.kill()
            pr.wait()
        os.unlink(p1)


# --------------------------------------------------------------------------
# scalars

PI = z3.Real("pi")
_PI_LO = Fraction(31415926535897932, 10**16)
_PI_HI = Fraction(31415926535897933, 10**16)


def _pi_axiom():
    c = C()
    if "pi" not in c.axioms:
        c.axioms["pi"] = [z3.And(PI > q(_PI_LO), PI < q(_PI_HI))]


def _is_scalar(x):
    return isinstance(x, (SF, SI, SB, bool, int, float, np.generic))


class _Num:
    __slots__ = ()
    __array_ufunc__ = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def _defer(other):
    """Arrays (and unknown types) handle the operation themselves."""
    return not _is_scalar(other)


class SB(_Num):
    __slots__ = ("v", "py")

    def __init__(self, v, py=False):
        self.v = norm_bool(v)
        self.py = py

    @property
    def __class__(self):
        return bool if self.py else np.bool_

    def __bool__(self):
        if isinstance(self.v, bool):
            return self.v
        return C().decide(self.v)

    def _co(self, o):
        if type(o) is SB:
            return o
        if isinstance(o, (bool, np.bool_)):
            return SB(bool(o))
        return None

    def __and__(self, o):
        b = self._co(o)
        if b is None:
            return arr_binop("bitwise_and", self, o)
        return SB(b_and(self.v, b.v))
    __rand__ = __and__

    def __or__(self, o):
        b = self._co(o)
        if b is None:
            return arr_binop("bitwise_or", self, o)
        return SB(b_or(self.v, b.v))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._co(o)
        if b is None:
            return arr_binop("bitwise_xor", self, o)
        return SB(b_not(b_eq(self.v, b.v)))
    __rxor__ = __xor__

    def __invert__(self):
        return SB(b_not(self.v))

    def __eq__(self, o):
        b = self._co(o)
        if b is not None:
            return SB(b_eq(self.v, b.v))
        if o is None or isinstance(o, str):
            return False
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if type(r) is SB else not r

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        if isinstance(self.v, bool):
            return SI(int(self.v), py=self.py)
        return SI(z3.If(self.v, z3.IntVal(1), z3.IntVal(0)), py=self.py)

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def astype(self, t):
        return cast_scalar(self, t)

    def __format__(self, spec):
        return format(bool(self), spec) if isinstance(self.v, bool) else "<?>"

    def __repr__(self):
        return f"SB({self.v})"

    def item(self):
        return SB(self.v, py=True)

    def any(self):
        return self

    all = any

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0


def _arith(name, rname):
    def f(self, o):
        if _defer(o):
            return arr_binop(name, self, o)
        return scalar_binop(name, self, o)

    def r(self, o):
        if _defer(o):
            return arr_binop(name, o, self)
        return scalar_binop(name, o, self)
    return f, r


class SI(_Num):
    __slots__ = ("v", "py")

    def __init__(self, v, py=False):
        if not isinstance(v, int) and z3.is_int_value(v):
            v = v.as_long()
        self.v = v
        self.py = py

    @property
    def __class__(self):
        return int if self.py else np.int64

    def __index__(self):
        if isinstance(self.v, int):
            return self.v
        return C().pick_int(self.v)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __bool__(self):
        if isinstance(self.v, int):
            return self.v != 0
        return C().decide(self.v != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __str__(self):
        return str(self.__index__())

    def __repr__(self):
        return str(self.__index__()) if isinstance(self.v, int) else f"SI({self.v})"

    def __neg__(self):
        return SI(-self.v, self.py)

    def __pos__(self):
        return self

    def __abs__(self):
        if isinstance(self.v, int):
            return SI(abs(self.v), self.py)
        return SI(z3.If(self.v >= 0, self.v, -self.v), self.py)

    def __invert__(self):
        return SI(-self.v - 1, self.py)

    def astype(self, t):
        return cast_scalar(self, t)

    def item(self):
        return SI(self.v, py=True)

    def to_sf(self):
        if isinstance(self.v, int):
            return SF(Fraction(self.v), py=self.py)
        return SF(z3.ToReal(self.v), py=self.py)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        return np.dtype("int64")


class SF(_Num):
    __slots__ = ("v", "p", "nan", "pinf", "ninf", "py")

    def __init__(self, v, p=0, nan=False, pinf=False, ninf=False, py=False):
        if not isinstance(v, Fraction):
            if isinstance(v, int):
                v = Fraction(v)
            elif z3.is_rational_value(v):
                v = Fraction(v.numerator_as_long(), v.denominator_as_long())
        self.v = v
        self.p = p
        self.nan = norm_bool(nan)
        self.pinf = norm_bool(pinf)
        self.ninf = norm_bool(ninf)
        self.py = py

    @property
    def __class__(self):
        return float if self.py else np.float64

    # -- structure
    @property
    def special(self):
        return not (self.nan is False and self.pinf is False
                    and self.ninf is False)

    @property
    def inf(self):
        return b_or(self.pinf, self.ninf)

    @property
    def fin(self):
        return b_not(b_or(self.nan, self.pinf, self.ninf))

    def is_conc(self):
        return (isinstance(self.v, Fraction) and isinstance(self.nan, bool)
                and isinstance(self.pinf, bool) and isinstance(self.ninf, bool))

    def conc(self):
        """python float of a concrete value."""
        if self.nan:
            return math.nan
        if self.pinf:
            return math.inf
        if self.ninf:
            return -math.inf
        x = self.v
        try:
            f = float(x)
        except OverflowError:
            f = math.inf if x > 0 else -math.inf
        return f * math.pi ** self.p if self.p else f

    def val(self):
        """numeric term with powers of pi expanded."""
        if self.p == 0 or (isinstance(self.v, Fraction) and self.v == 0):
            return self.v
        if isinstance(self.v, Fraction) and C().opts.get("float_concrete"):
            return f2q(float(self.v) * math.pi ** self.p)
        _pi_axiom()
        v = n2z(self.v)
        if self.p > 0:
            for _ in range(self.p):
                v = v * PI
            return v
        d = PI
        for _ in range(-self.p - 1):
            d = d * PI
        return sf_div(SF(self.v), SF(d)).v

    def __float__(self):
        if self.is_conc():
            return self.conc()
        if self.nan is not False and C().decide(z3.BoolVal(self.nan) if isinstance(self.nan, bool) else self.nan):
            return math.nan
        if self.pinf is not False and SB(self.pinf):
            return math.inf
        if self.ninf is not False and SB(self.ninf):
            return -math.inf
        v = self.val()
        return float(v if isinstance(v, Fraction) else C().concretise(v))

    def __int__(self):
        return int(sf_trunc(self))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(float(self)) if self.is_conc() else id(self)

    def __format__(self, spec):
        if self.is_conc():
            return format(self.conc(), spec)
        return fmt_token(self, spec)

    def __str__(self):
        return self.__format__("")

    def __repr__(self):
        if self.is_conc():
            return repr(self.conc())
        return f"SF({self.v}{'' if not self.p else f'*pi^{self.p}'}" + \
            (f"|nan:{self.nan}" if self.nan is not False else "") + ")"

    def __neg__(self):
        return SF(n_neg(self.v), self.p, self.nan, self.ninf, self.pinf, self.py)

    def __pos__(self):
        return self

    def __abs__(self):
        return SF(n_ite(n_lt(self.v, Fraction(0)), n_neg(self.v), self.v),
                  self.p, self.nan, self.inf, False, self.py)

    def __round__(self, nd=None):
        if self.is_conc():
            r = round(self.conc(), nd) if nd is not None else round(self.conc())
            return lift(r) if nd is not None else r
        raise Unsupported("round of symbolic")

    def __trunc__(self):
        return sf_trunc(self)

    def __floor__(self):
        return sf_floor(self)

    def __ceil__(self):
        return -sf_floor(-self)

    def is_integer(self):
        f = sf_floor(self)
        return f == self

    def astype(self, t):
        return cast_scalar(self, t)

    def item(self):
        return SF(self.v, self.p, self.nan, self.pinf, self.ninf, True)

    def copy(self):
        return self

    def flatten(self):
        raise Unsupported("flatten scalar")

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        return np.dtype("float64")

    @property
    def real(self):
        return self

    def any(self):
        return self

    def all(self):
        return self


for _n, _d in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"),
               ("truediv", "true_divide"), ("pow", "power"),
               ("floordiv", "floor_divide"), ("mod", "remainder")):
    _f, _r = _arith(_d, None)
    for _c in (SF, SI, SB):
        setattr(_c, f"__{_n}__", _f)
        setattr(_c, f"__r{_n}__", _r)


def _cmp(name):
    def f(self, o):
        if o is None or isinstance(o, str):
            if name == "equal":
                return False
            if name == "not_equal":
                return True
            return NotImplemented
        if _defer(o):
            if not isinstance(o, (np.ndarray, list, tuple)) and not hasattr(o, "_scomp"):
                return NotImplemented
            return arr_binop(name, self, o)
        return scalar_binop(name, self, o)
    return f


for _n, _d in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"),
               ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")):
    for _c in (SF, SI):
        setattr(_c, f"__{_n}__", _cmp(_d))
SF.__hash__ = lambda self: hash(self.conc()) if self.is_conc() else id(self)
SI.__hash__ = lambda self: hash(self.__index__())
for _n, _d in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"),
               ("ge", "greater_equal")):
    setattr(SB, f"__{_n}__", _cmp(_d))


def arr_binop(name, a, b):
    from . import arr
    return arr.ufunc_call(name, (a, b), {})


def lift(x, py=None):
    """any scalar -> SF"""
    if type(x) is SF:
        return x
    if type(x) is SI:
        return x.to_sf()
    if type(x) is SB:
        if isinstance(x.v, bool):
            return SF(Fraction(int(x.v)), py=x.py)
        return SF(z3.If(x.v, q(Fraction(1)), q(Fraction(0))), py=x.py)
    if isinstance(x, (bool, np.bool_)):
        return SF(Fraction(int(x)), py=isinstance(x, bool))
    if isinstance(x, (int, np.integer)):
        return SF(Fraction(int(x)), py=isinstance(x, int))
    if isinstance(x, (float, np.floating)):
        pyf = type(x) is float
        x = float(x)
        if x != x:
            return SF(Fraction(0), nan=True, py=pyf)
        if x == math.inf:
            return SF(Fraction(0), pinf=True, py=pyf)
        if x == -math.inf:
            return SF(Fraction(0), ninf=True, py=pyf)
        r = x / math.pi
        if x and abs(r) < 1000:
            fr = Fraction(r).limit_denominator(720)
            if fr and float(fr) * math.pi == x and fr.denominator <= 720 and \
                    abs(float(fr) - r) < 1e-15 * max(1, abs(r)) and _irr(x):
                return SF(fr, p=1, py=pyf)
        r = x * math.pi
        return SF(f2q(x), py=pyf)
    if isinstance(x, Fraction):
        return SF(x)
    raise Unsupported(f"cannot lift {type(x)}")


def _irr(x):
    # decimal literals with few digits are rationals, not multiples of pi
    return len(repr(x).replace("-", "").replace(".", "").strip("0")) >= 12


def kind(x):
    if type(x) is SF or isinstance(x, (float, np.floating)):
        return "f"
    if type(x) is SB or isinstance(x, (bool, np.bool_)):
        return "b"
    if type(x) is SI or isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, Fraction):
        return "f"
    return "o"


def to_si(x):
    if type(x) is SI:
        return x
    if type(x) is SB or isinstance(x, np.bool_):
        return (x if type(x) is SB else SB(bool(x))).as_int()
    if isinstance(x, bool):
        return SI(int(x), py=True)
    return SI(int(x), py=type(x) is int)


def to_sb(x):
    """truth value of a scalar, as SB (no fork)."""
    if type(x) is SB:
        return x
    if type(x) is SF:
        # nonzero or nan or inf
        return SB(b_or(x.nan, x.pinf, x.ninf, b_not(n_eq(x.v, Fraction(0)))))
    if type(x) is SI:
        return SB(x.v != 0)
    return SB(bool(x))


def cast_scalar(x, t):
    t = np.dtype(t)
    k = t.kind
    if k == "f":
        r = lift(x)
        return SF(r.v, r.p, r.nan, r.pinf, r.ninf)
    if k == "b":
        return to_sb(x)
    if k in "iu":
        if type(x) is SF or isinstance(x, (float, np.floating)):
            r = sf_trunc(lift(x))
            return SI(r.v)
        r = to_si(x)
        return SI(r.v)
    return x


# -- arithmetic on SF

def _align(a, b):
    """values of a, b in a common power of pi."""
    if a.p == b.p:
        return a.v, b.v, a.p
    if isinstance(a.v, Fraction) and a.v == 0:
        return a.v, b.v, b.p
    if isinstance(b.v, Fraction) and b.v == 0:
        return a.v, b.v, a.p
    return a.val(), b.val(), 0


def sf_add(a, b):
    py = a.py and b.py
    av, bv, p = _align(a, b)
    v = n_add(av, bv)
    if not a.special and not b.special:
        return SF(v, p, py=py)
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.ninf), b_and(a.ninf, b.pinf))
    pinf = b_and(b_or(a.pinf, b.pinf), b_not(nan))
    ninf = b_and(b_or(a.ninf, b.ninf), b_not(nan))
    if a.inf is False and b.inf is False:
        pinf = ninf = False
    return SF(v, p, nan, pinf, ninf, py)


def sf_sub(a, b):
    py = a.py and b.py
    av, bv, p = _align(a, b)
    v = n_sub(av, bv)
    if not a.special and not b.special:
        return SF(v, p, py=py)
    nan = b_or(a.nan, b.nan, b_and(a.pinf, b.pinf), b_and(a.ninf, b.ninf))
    if a.inf is False and b.inf is False:
        return SF(v, p, nan, False, False, py)
    pinf = b_and(b_or(a.pinf, b.ninf), b_not(nan))
    ninf = b_and(b_or(a.ninf, b.pinf), b_not(nan))
    return SF(v, p, nan, pinf, ninf, py)


def _sgn(a):
    """(pos, neg, zero) of the extended real a (assuming not nan)."""
    z = Fraction(0)
    f = b_not(a.inf)
    pos = b_or(a.pinf, b_and(f, n_lt(z, a.v)))
    neg = b_or(a.ninf, b_and(f, n_lt(a.v, z)))
    zero = b_and(f, n_eq(a.v, z))
    return pos, neg, zero


def sf_mul(a, b):
    py = a.py and b.py
    v = n_mul(a.v, b.v)
    p = a.p + b.p
    if not a.special and not b.special:
        return SF(v, p, py=py)
    if a.inf is False and b.inf is False:
        return SF(v, p, b_or(a.nan, b.nan), py=py)
    ap, an, az = _sgn(a)
    bp, bn, bz = _sgn(b)
    anyinf = b_or(a.inf, b.inf)
    nan = b_or(a.nan, b.nan, b_and(a.inf, bz), b_and(az, b.inf))
    ok = b_and(anyinf, b_not(nan))
    pinf = b_and(ok, b_or(b_and(ap, bp), b_and(an, bn)))
    ninf = b_and(ok, b_or(b_and(ap, bn), b_and(an, bp)))
    return SF(v, p, nan, pinf, ninf, py)


def same_poly(a, b):
    a, b = n2z(a), n2z(b)
    if small_poly(a) is None or small_poly(b) is None or term_vars(a) != term_vars(b):
        return False
    return z3.simplify(a, som=True).eq(z3.simplify(b, som=True))


def n_div(av, bv):
    """quotient term where bv != 0 (value irrelevant where bv == 0)."""
    bn = n_num(bv)
    if bn is not None:
        if bn == 0:
            return Fraction(0)
        return n_mul(Fraction(1) / bn, av)
    if n_same(av, bv) or same_poly(av, bv):
        return Fraction(1)
    if isinstance(av, Fraction) and av == 0:
        return Fraction(0)
    # strip a common numeric factor / sign from the denominator
    c = C()
    az = n2z(av)
    if z3.is_app_of(az, z3.Z3_OP_UMINUS) and z3.is_app_of(bv, z3.Z3_OP_UMINUS):
        return n_div(az.arg(0), bv.arg(0))
    if z3.is_app_of(az, z3.Z3_OP_UMINUS):
        return n_neg(n_div(az.arg(0), bv))
    if z3.is_app_of(bv, z3.Z3_OP_UMINUS):
        return n_neg(n_div(av, bv.arg(0)))
    key = ("div", az.get_id(), bv.get_id())
    hit = c.memo.get(key)
    if hit is None:
        t = c.fresh("q")
        c.axiom([t], z3.Implies(bv != 0, t * bv == az))
        c.memo[key] = hit = (t, az, bv)
    return hit[0]


def sf_div(a, b):
    py = a.py and b.py
    zero = n_eq(b.v, Fraction(0))
    if not isinstance(zero, bool):
        zero = b_and(zero, b_not(b.inf), b_not(b.nan))
        if not isinstance(zero, bool) and not C().possible(zero):
            zero = False
    if py and zero is not False:
        if SB(zero):
            raise ZeroDivisionError("float division by zero")
        zero = False
    if b.special and not isinstance(b.v, Fraction) and b.inf is not False:
        pass
    v = n_div(a.v, b.v)
    p = a.p - b.p
    if zero is False and not a.special and not b.special:
        return SF(v, p, py=py)
    z = Fraction(0)
    nan = b_or(a.nan, b.nan, b_and(a.inf, b.inf))
    if zero is not False:
        nan = b_or(nan, b_and(zero, b_not(a.inf), n_eq(a.v, z)))
    if b.inf is not False:
        v = n_ite(b.inf, Fraction(0), v)
    pinf = ninf = False
    if a.inf is not False:
        bneg = b_or(b.ninf, b_and(b_not(b.inf), n_lt(b.v, z)))
        pinf = b_or(b_and(a.pinf, b_not(bneg)), b_and(a.ninf, bneg))
        ninf = b_or(b_and(a.pinf, bneg), b_and(a.ninf, b_not(bneg)))
    if zero is not False:
        pinf = b_or(pinf, b_and(zero, b_not(a.inf), n_lt(z, a.v)))
        ninf = b_or(ninf, b_and(zero, b_not(a.inf), n_lt(a.v, z)))
    if pinf is not False or ninf is not False:
        ok = b_not(nan)
        pinf, ninf = b_and(ok, pinf), b_and(ok, ninf)
    return SF(v, p, nan, pinf, ninf, py)


def sf_pow(a, b):
    bn = n_num(b.v) if not b.special and b.p == 0 else None
    if bn is not None and bn.denominator == 1 and abs(bn) <= 16:
        n = int(bn)
        if n == 0:
            return SF(Fraction(1), py=a.py)
        r = a
        for _ in range(abs(n) - 1):
            r = sf_mul(r, a)
        if n < 0:
            r = sf_div(SF(Fraction(1), py=a.py), r)
        return r
    if bn == Fraction(1, 2):
        return sf_sqrt(a)
    if a.is_conc() and b.is_conc():
        return lift(float(np.float64(a.conc()) ** np.float64(b.conc())))
    return lift(float(a) ** float(b))


def sf_lt(a, b):
    av, bv, _ = _align(a, b)
    r = n_lt(av, bv)
    if not a.special and not b.special:
        return r
    ok = b_not(b_or(a.nan, b.nan))
    if a.inf is False and b.inf is False:
        return b_and(ok, r)
    fin = b_not(b_or(a.inf, b.inf))
    return b_and(ok, b_or(b_and(fin, r), b_and(a.ninf, b_not(b.ninf)),
                          b_and(b.pinf, b_not(a.pinf))))


def sf_le(a, b):
    return b_and(b_not(sf_lt(b, a)), b_not(b_or(a.nan, b.nan)))


def sf_eq(a, b):
    av, bv, _ = _align(a, b)
    r = n_eq(av, bv)
    if not a.special and not b.special:
        return r
    ok = b_not(b_or(a.nan, b.nan))
    if a.inf is False and b.inf is False:
        return b_and(ok, r)
    fin = b_not(b_or(a.inf, b.inf))
    return b_and(ok, b_or(b_and(fin, r), b_and(a.pinf, b.pinf),
                          b_and(a.ninf, b.ninf)))


def sf_same(a, b):
    """equal, counting nan as equal to nan (as a z3/py bool)."""
    a, b = lift(a), lift(b)
    if not a.special and not b.special:
        return sf_eq(a, b)
    return b_or(b_and(a.nan, b.nan), sf_eq(a, b))


def sf_ite(c, a, b):
    """c ? a : b for scalars; a nan branch keeps the other branch's value."""
    if isinstance(c, SB):
        c = c.v
    if c is True:
        return a
    if c is False:
        return b
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        return SB(b_ite(c, to_sb(a).v, to_sb(b).v))
    if ka in "ib" and kb in "ib":
        x, y = to_si(a).v, to_si(b).v
        if isinstance(x, int) and isinstance(y, int) and x == y:
            return SI(x)
        return SI(z3.If(c, z3.IntVal(x) if isinstance(x, int) else x,
                        z3.IntVal(y) if isinstance(y, int) else y))
    if ka == "o" or kb == "o":
        return a if C().decide(c) else b
    a, b = lift(a), lift(b)
    if a.nan is True or (a.pinf is True or a.ninf is True):
        v, p = b.v, b.p
    elif b.nan is True or (b.pinf is True or b.ninf is True):
        v, p = a.v, a.p
    else:
        av, bv, p = _align(a, b)
        v = n_ite(c, av, bv)
    return SF(v, p, b_ite(c, a.nan, b.nan), b_ite(c, a.pinf, b.pinf),
              b_ite(c, a.ninf, b.ninf), a.py and b.py)


def scalar_binop(name, a, b):
    ka, kb = kind(a), kind(b)
    if ka == "o" or kb == "o":
        raise TypeError(f"unsupported operand for {name}")
    if name == "true_divide":
        return sf_div(lift(a), lift(b))
    if ka in "ib" and kb in "ib":
        return int_binop(name, a, b)
    x, y = lift(a), lift(b)
    if name == "add":
        return sf_add(x, y)
    if name == "subtract":
        return sf_sub(x, y)
    if name == "multiply":
        return sf_mul(x, y)
    if name == "power":
        return sf_pow(x, y)
    if name == "less":
        return SB(sf_lt(x, y))
    if name == "greater":
        return SB(sf_lt(y, x))
    if name == "less_equal":
        return SB(sf_le(x, y))
    if name == "greater_equal":
        return SB(sf_le(y, x))
    if name == "equal":
        return SB(sf_eq(x, y))
    if name == "not_equal":
        return SB(b_not(sf_eq(x, y)))
    if name == "floor_divide":
        return sf_floor(sf_div(x, y)).to_sf()
    if name == "remainder":
        return sf_sub(x, sf_mul(y, sf_floor(sf_div(x, y)).to_sf()))
    raise Unsupported(name)


def _iv(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def int_binop(name, a, b):
    x, y = to_si(a), to_si(b)
    py = x.py and y.py
    u, w = x.v, y.v
    conc = isinstance(u, int) and isinstance(w, int)
    if name == "add":
        return SI(u + w, py)
    if name == "subtract":
        return SI(u - w, py)
    if name == "multiply":
        return SI(u * w, py)
    if name in ("less", "greater", "less_equal", "greater_equal", "equal", "not_equal"):
        if conc:
            r = {"less": u < w, "greater": u > w, "less_equal": u <= w,
                 "greater_equal": u >= w, "equal": u == w, "not_equal": u != w}[name]
            return SB(r)
        u, w = _iv(u), _iv(w)
        if name in ("equal", "not_equal") and u.eq(w):
            return SB(name == "equal")
        r = {"less": lambda: u < w, "greater": lambda: u > w,
             "less_equal": lambda: u <= w, "greater_equal": lambda: u >= w,
             "equal": lambda: u == w, "not_equal": lambda: u != w}[name]()
        return SB(r)
    if name in ("floor_divide", "remainder"):
        if isinstance(w, int) and w == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if conc:
            return SI(u // w if name == "floor_divide" else u % w, py)
        if isinstance(w, int) and w > 0:
            d = _iv(u) / z3.IntVal(w)
            return SI(d if name == "floor_divide" else _iv(u) - d * w, py)
        w2 = y.__index__()
        return int_binop(name, x, SI(w2, y.py))
    if name == "power":
        e = y.__index__()
        if isinstance(u, int):
            r = u ** e
            return SI(r, py) if isinstance(r, int) else lift(r)
        r = SI(1, py)
        for _ in range(e):
            r = int_binop("multiply", r, x)
        return r
    raise Unsupported(name)


# -- unary functions

def sf_floor(a):
    a = lift(a)
    v = a.val()
    if isinstance(v, Fraction):
        if a.nan is True or a.inf is True:
            raise ValueError("cannot convert float NaN/inf to integer")
        return SI(math.floor(v) if not a.p else math.floor(a.conc()))
    return SI(z3.ToInt(v))


def sf_trunc(a):
    a = lift(a)
    if a.is_conc():
        if a.nan:
            raise ValueError("cannot convert float NaN to integer")
        if a.pinf or a.ninf:
            raise OverflowError("cannot convert float infinity to integer")
        return SI(int(a.conc()), py=a.py)
    if a.nan is not False and SB(a.nan):
        raise ValueError("cannot convert float NaN to integer")
    if a.inf is not False and SB(a.inf):
        raise OverflowError("cannot convert float infinity to integer")
    v = n2z(a.val())
    return SI(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)), py=a.py)


def _isqrt_frac(x: Fraction):
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator:
        return Fraction(n, d)
    return None


def n_root(v):
    """nonnegative root term of v (meaningful where v >= 0)."""
    if isinstance(v, Fraction):
        if v < 0:
            return Fraction(0)
        r = _isqrt_frac(v)
        if r is not None:
            return r
        if C().opts.get("float_concrete"):
            return f2q(math.sqrt(v))
        v = q(v)
    c = C()
    # syntactic square
    if z3.is_mul(v) and v.num_args() == 2 and v.arg(0).eq(v.arg(1)):
        t = v.arg(0)
        return z3.If(t >= 0, t, -t)
    key = ("sqrt", v.get_id())
    hit = c.memo.get(key)
    if hit is None:
        r = c.fresh("r")
        c.axiom([r], r >= 0)
        c.axiom([r], z3.Implies(v >= 0, r * r == v))
        c.memo[key] = hit = (r, v)
        if sum_of_squares(v):
            c.roots[r.get_id()] = (r, v)
    return hit[0]


def sf_sqrt(a):
    a = lift(a)
    if a.p % 2:
        if a.is_conc():
            return lift(math.sqrt(a.conc())) if a.conc() >= 0 else SF(Fraction(0), nan=True)
        a = SF(a.val(), 0, a.nan, a.pinf, a.ninf)
    neg = b_and(n_lt(a.v, Fraction(0)), b_not(a.pinf), b_not(a.ninf))
    if not isinstance(neg, bool) and not C().possible(neg):
        neg = False
    return SF(n_root(a.v), a.p // 2, b_or(a.nan, neg, a.ninf), a.pinf, False)


def sf_hypot(a, b):
    a, b = lift(a), lift(b)
    if a.p or b.p:
        a = SF(a.val(), 0, a.nan, a.pinf, a.ninf)
        b = SF(b.val(), 0, b.nan, b.pinf, b.ninf)
    x, y = a.v, b.v
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        r = n_root(x * x + y * y)
    elif isinstance(x, Fraction) and x == 0:
        r = n_ite(n_lt(y, Fraction(0)), n_neg(y), y)
    elif isinstance(y, Fraction) and y == 0:
        r = n_ite(n_lt(x, Fraction(0)), n_neg(x), x)
    else:
        r = root_sumsq(x, y)
    inf = b_or(a.inf, b.inf)
    return SF(r, 0, b_and(b_or(a.nan, b.nan), b_not(inf)), inf, False)


def root_sumsq(x, y):
    c = C()
    x, y = n2z(x), n2z(y)
    key = ("hyp", x.get_id(), y.get_id())
    hit = c.memo.get(key)
    if hit is None:
        r = c.fresh("h")
        c.axiom([r], z3.And(r >= 0, r * r == x * x + y * y))
        c.axiom([r], z3.And(r >= x, r >= -x, r >= y, r >= -y))
        c.memo[key] = hit = (r, x, y)
        c.roots[r.get_id()] = (r, x * x + y * y)
    return hit[0]


# -- angles.  An angle is measured in half turns h (radians = h * pi).

class Ang:
    __slots__ = ("t", "c", "s", "lo", "hi", "unit", "half")

    def __init__(self, t, c, s, lo, hi, unit):
        self.t, self.c, self.s = t, c, s
        self.lo, self.hi = lo, hi       # range of unit*t in half turns, or None
        self.unit = unit
        self.half = None


def _new_angle(t, c, s, lo, hi, unit=Fraction(1)):
    a = Ang(t, c, s, lo, hi, unit)
    C().angles[t.get_id()] = a
    return a


def sf_arctan2(y, x):
    y, x = lift(y), lift(x)
    nan = b_or(y.nan, x.nan)
    if y.inf is not False or x.inf is not False:
        if y.is_conc() and x.is_conc():
            return lift(math.atan2(y.conc(), x.conc()))
        # infinite second/first argument: fork it away
        if SB(b_or(y.inf, x.inf)):
            if y.inf is not False and SB(y.inf):
                if x.inf is not False and SB(x.inf):
                    raise Unsupported("arctan2(inf, inf)")
                s = Fraction(1, 2) if SB(y.pinf) else Fraction(-1, 2)
                return SF(s, 1, nan)
            raise Unsupported("arctan2(y, inf)")
        y = SF(y.v, y.p, y.nan)
        x = SF(x.v, x.p, x.nan)
    yv, xv, _ = _align(y, x)
    if isinstance(yv, Fraction) and isinstance(xv, Fraction):
        if yv == 0:
            return SF(Fraction(1) if xv < 0 else Fraction(0), 1, nan)
        if xv == 0:
            return SF(Fraction(1, 2) if yv > 0 else Fraction(-1, 2), 1, nan)
        if abs(xv) == abs(yv):
            h = Fraction(1, 4) if xv > 0 else Fraction(3, 4)
            return SF(h if yv > 0 else -h, 1, nan)
        if C().opts.get("float_concrete"):
            f = lift(math.atan2(yv, xv))
            return SF(f.v, f.p, nan)
    c = C()
    Y, X = n2z(yv), n2z(xv)
    key = ("atan2", Y.get_id(), X.get_id())
    hit = c.memo.get(key)
    if hit is None:
        t, cc, ss, r = c.fresh("t"), c.fresh("c"), c.fresh("s"), None
        r = root_sumsq(X, Y)
        r = n2z(r)
        d = [t, cc, ss]
        c.axiom([cc, ss], z3.And(cc * cc + ss * ss == 1, X == r * cc, Y == r * ss,
                                 ss * X == cc * Y))
        c.axiom([cc, ss], z3.And(cc <= 1, cc >= -1, ss <= 1, ss >= -1))
        c.axiom([cc, ss], z3.Implies(z3.And(X == 0, Y == 0), z3.And(cc == 1, ss == 0)))
        c.axiom([t], z3.And(t > -1, t <= 1,
                            (ss > 0) == z3.And(t > 0, t < 1),
                            (ss < 0) == (t < 0),
                            z3.And(ss == 0, cc > 0) == (t == 0),
                            z3.And(ss == 0, cc < 0) == (t == 1),
                            (cc > 0) == z3.And(t > -H2, t < H2),
                            (cc == 0) == z3.Or(t == H2, t == -H2)))
        _new_angle(t, cc, ss, Fraction(-1), Fraction(1))
        c.memo[key] = hit = (t, Y, X)
    return SF(hit[0], 1, nan)


H2 = q(Fraction(1, 2))


def sf_arccos(a):
    a = lift(a)
    v = a.val()
    if isinstance(v, Fraction):
        if not -1 <= v <= 1 or a.inf is True:
            return SF(Fraction(0), 1, True)
        ex = {Fraction(0): Fraction(1, 2), Fraction(1): Fraction(0),
              Fraction(-1): Fraction(1), Fraction(1, 2): Fraction(1, 3),
              Fraction(-1, 2): Fraction(2, 3)}.get(v)
        if ex is not None:
            return SF(ex, 1, a.nan)
        if C().opts.get("float_concrete"):
            f = lift(math.acos(v))
            return SF(f.v, f.p, a.nan)
        v = q(v)
    c = C()
    bad = b_or(b_and(b_or(v > 1, v < -1), b_not(a.inf)), a.inf)
    bad = norm_bool(bad)
    if not isinstance(bad, bool) and not c.possible(bad):
        bad = False
    key = ("acos", v.get_id())
    hit = c.memo.get(key)
    if hit is None:
        t, ss = c.fresh("t"), c.fresh("s")
        cc = c.fresh("c")
        ok = z3.And(v >= -1, v <= 1)
        c.axiom([cc], z3.Implies(ok, cc == v))
        c.axiom([ss, cc], z3.And(ss >= 0, cc * cc + ss * ss == 1, ss <= 1))
        c.axiom([t], z3.And(t >= 0, t <= 1, (cc == 1) == (t == 0),
                            (cc == -1) == (t == 1), (cc > 0) == (t < H2),
                            (cc == 0) == (t == H2)))
        _new_angle(t, cc, ss, Fraction(0), Fraction(1))
        c.memo[key] = hit = (t, v)
    return SF(hit[0], 1, b_or(a.nan, bad))


def sf_arcsin(a):
    r = sf_arccos(a)
    return sf_sub(SF(Fraction(1, 2), 1), r)


def sf_arctan(a):
    a = lift(a)
    if a.inf is not False:
        if SB(a.inf):
            return SF(Fraction(1, 2) if SB(a.pinf) else Fraction(-1, 2), 1, a.nan)
        a = SF(a.v, a.p, a.nan)
    return sf_arctan2(a, SF(Fraction(1)))


def _decomp(t):
    """z3 real term -> (const, {atom id: (atom, coef)}, ite or None)"""
    const = Fraction(0)
    lin = {}

    def add(atom, k):
        i = atom.get_id()
        if i in lin:
            lin[i] = (atom, lin[i][1] + k)
            if lin[i][1] == 0:
                del lin[i]
        else:
            lin[i] = (atom, k)

    def go(e, k):
        nonlocal const
        n = n_num(e)
        if n is not None:
            const += k * n
            return
        if z3.is_add(e):
            for c in e.children():
                go(c, k)
            return
        if z3.is_sub(e):
            ch = e.children()
            go(ch[0], k)
            for c in ch[1:]:
                go(c, -k)
            return
        if z3.is_app_of(e, z3.Z3_OP_UMINUS):
            go(e.arg(0), -k)
            return
        if z3.is_mul(e):
            ch = e.children()
            nums = [n_num(c) for c in ch]
            rest = [c for c, m in zip(ch, nums) if m is None]
            if len(rest) == 1:
                kk = k
                for m in nums:
                    if m is not None:
                        kk *= m
                go(rest[0], kk)
                return
        if z3.is_div(e):
            m = n_num(e.arg(1))
            if m:
                go(e.arg(0), k / m)
                return
        add(e, k)
    go(t, Fraction(1))
    return const, lin


def _const_trig(h):
    """exact (cos, sin) of h half turns, as z3/Fraction."""
    h = h % 2
    tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0),
           Fraction(3, 2): (0, -1)}
    if h in tab:
        c, s = tab[h]
        return Fraction(c), Fraction(s)
    if C().opts.get("float_concrete"):
        return f2q(math.cos(math.pi * h)), f2q(math.sin(math.pi * h))
    if h.denominator == 4:
        r = n_root(Fraction(1, 2))
        sc = 1 if h < Fraction(1, 2) or h > Fraction(3, 2) else -1
        ss = 1 if h < 1 else -1
        return n_mul(Fraction(sc), r), n_mul(Fraction(ss), r)
    ctx = C()
    key = ("ctrig", h)
    hit = ctx.memo.get(key)
    if hit is None:
        cc, ss = ctx.fresh("c"), ctx.fresh("s")
        eps = Fraction(1, 10**12)
        x, y = f2q(math.cos(math.pi * h)), f2q(math.sin(math.pi * h))
        ctx.axiom([cc, ss], z3.And(cc * cc + ss * ss == 1, cc > q(x - eps),
                  cc < q(x + eps), ss > q(y - eps), ss < q(y + eps)))
        ctx.memo[key] = hit = (cc, ss)
    return hit


def _base_trig(ang):
    return ang.c, ang.s


def _half(ang):
    """angle of half the size (unit/2)."""
    if ang.half is not None:
        return ang.half
    ctx = C()
    cc, ss = ctx.fresh("c"), ctx.fresh("s")
    base = [cc * cc + ss * ss == 1, 2 * cc * ss == ang.s,
            cc * cc - ss * ss == ang.c, cc <= 1, cc >= -1, ss <= 1, ss >= -1]
    ctx.axiom([cc, ss], z3.And(*base))
    # the defining pair also pulls in the parent's axioms through ang.c/ang.s
    if ang.lo is not None:
        lo, hi = ang.lo / 2, ang.hi / 2
        if lo >= Fraction(-1, 2) and hi <= Fraction(1, 2):
            ctx.axiom([cc, ss], cc >= 0)
            if ang.lo > -1 or True:
                # t in (-1, 1]: the half angle is never -1/2
                ctx.axiom([cc, ss], z3.Implies(cc == 0, ss == 1))
        if lo >= 0 and hi <= 1:
            ctx.axiom([cc, ss], ss >= 0)
    h = Ang(None, cc, ss, None if ang.lo is None else ang.lo / 2,
            None if ang.hi is None else ang.hi / 2, ang.unit / 2)
    ang.half = h
    return h


def _atom_angle(atom, coef):
    """registered Ang for the atom; unregistered atoms get unit |coef|."""
    ctx = C()
    a = ctx.angles.get(atom.get_id())
    if a is not None:
        return a
    unit = abs(coef)
    cc, ss = ctx.fresh("c"), ctx.fresh("s")
    h = q(unit) * atom
    ctx.axiom([cc, ss], z3.And(cc * cc + ss * ss == 1, cc <= 1, cc >= -1,
                               ss <= 1, ss >= -1))
    half = H2
    ctx.axiom([cc, ss], z3.And(
        z3.Implies(z3.And(h > -half, h < half), cc > 0),
        z3.Implies(z3.Or(h == half, h == -half), cc == 0),
        z3.Implies(z3.And(h > half, h <= 1), cc < 0),
        z3.Implies(z3.And(h < -half, h >= -1), cc < 0),
        z3.Implies(z3.And(h > 0, h < 1), ss > 0),
        z3.Implies(z3.And(h < 0, h > -1), ss < 0),
        z3.Implies(z3.Or(h == 0, h == 1, h == -1), ss == 0),
        z3.Implies(h == 0, cc == 1)))
    a = _new_angle(atom, cc, ss, None, None, unit)
    ctx.keep.append(atom)
    return a


def _rot(c1, s1, c2, s2):
    """(cos, sin) of the sum."""
    return (n_sub(n_mul(c1, c2), n_mul(s1, s2)),
            n_add(n_mul(s1, c2), n_mul(c1, s2)))


def n_cossin(h):
    """(cos, sin) of h half turns for a numeric term."""
    if isinstance(h, Fraction):
        return _const_trig(h)
    ctx = C()
    key = ("trig", h.get_id())
    hit = ctx.memo.get(key)
    if hit is not None:
        return hit[0]
    const, lin = _decomp(h)
    # resolve conditionals
    for i, (atom, k) in lin.items():
        if z3.is_app_of(atom, z3.Z3_OP_ITE):
            cond, a, b = atom.children()
            rest = h
            base = q(const)
            for j, (at2, k2) in lin.items():
                if j != i:
                    base = base + q(k2) * at2
            c1, s1 = n_cossin(z3.simplify(base + q(k) * a))
            c2, s2 = n_cossin(z3.simplify(base + q(k) * b))
            r = (n_ite(cond, c1, c2), n_ite(cond, s1, s2))
            ctx.memo[key] = (r, h)
            return r
    c, s = _const_trig(const)
    for atom, k in lin.values():
        a = _atom_angle(atom, k)
        ratio = k / a.unit
        depth = 0
        while ratio.denominator % 2 == 0 and depth < 4:
            a = _half(a)
            ratio = k / a.unit
            depth += 1
        if ratio.denominator != 1 or abs(ratio) > 8:
            # unrelated multiple: an unconstrained unit vector
            k2 = ("unit", atom.get_id(), k)
            hh = ctx.memo.get(k2)
            if hh is None:
                cc, ss = ctx.fresh("c"), ctx.fresh("s")
                ctx.axiom([cc, ss], cc * cc + ss * ss == 1)
                ctx.memo[k2] = hh = (cc, ss)
            c, s = _rot(c, s, *hh)
            continue
        n = int(ratio)
        bc, bs = a.c, a.s
        if n < 0:
            bs = n_neg(bs)
            n = -n
        for _ in range(n):
            c, s = _rot(c, s, bc, bs)
    ctx.memo[key] = ((c, s), h)
    return c, s


def _half_turns(a):
    if a.p == 1:
        return a.v
    if isinstance(a.v, Fraction) and a.v == 0:
        return Fraction(0)
    if a.p == 0:
        # a radian measure that is not a multiple of pi
        return None
    raise Unsupported("trigonometric function of a power of pi")


def _trig_parts(a):
    a = lift(a)
    nan = b_or(a.nan, a.inf)
    h = _half_turns(a)
    if h is None:
        if isinstance(a.v, Fraction):
            if C().opts.get("float_concrete") or True:
                return f2q(math.cos(a.v)), f2q(math.sin(a.v)), nan
        # radians atom: one half turn is pi of these units; treat as own unit
        ctx = C()
        key = ("radtrig", a.v.get_id())
        hit = ctx.memo.get(key)
        if hit is None:
            cc, ss = ctx.fresh("c"), ctx.fresh("s")
            _pi_axiom()
            v = a.v
            ctx.axiom([cc, ss], z3.And(cc * cc + ss * ss == 1,
                      z3.Implies(v == 0, z3.And(cc == 1, ss == 0)),
                      z3.Implies(z3.And(v > 0, v < PI), ss > 0),
                      z3.Implies(z3.And(v < 0, v > -PI), ss < 0),
                      z3.Implies(z3.And(2 * v < PI, 2 * v > -PI), cc > 0)))
            ctx.memo[key] = hit = (cc, ss, v)
        return hit[0], hit[1], nan
    c, s = n_cossin(h)
    return c, s, nan


def sf_cos(a):
    c, _, nan = _trig_parts(a)
    return SF(c, 0, nan)


def sf_sin(a):
    _, s, nan = _trig_parts(a)
    return SF(s, 0, nan)


def sf_tan(a):
    c, s, nan = _trig_parts(a)
    r = sf_div(SF(s), SF(c))
    return SF(r.v, 0, b_or(r.nan, nan), r.pinf, r.ninf)


def sf_deg2rad(a):
    a = lift(a)
    return SF(n_mul(Fraction(1, 180), a.v), a.p + 1, a.nan, a.pinf, a.ninf)


def sf_rad2deg(a):
    a = lift(a)
    return SF(n_mul(Fraction(180), a.v), a.p - 1, a.nan, a.pinf, a.ninf)


def _forked(c):
    """paths of their own for the cases of a minimum, where that is asked for"""
    if C().opts.get("fork_minmax") and not isinstance(getattr(c, "v", c), bool):
        return C().decide(getattr(c, "v", c))
    return c


def sf_min(a, b):
    """np.minimum: nan propagates."""
    if kind(a) in "ib" and kind(b) in "ib":
        return sf_ite(int_binop("less_equal", a, b).v, a, b)
    a, b = lift(a), lift(b)
    r = sf_ite(_forked(sf_lt(b, a)), b, a)
    if a.special or b.special:
        return SF(r.v, r.p, b_or(a.nan, b.nan), b_and(r.pinf, b_not(b_or(a.nan, b.nan))),
                  b_and(r.ninf, b_not(b_or(a.nan, b.nan))))
    return r


def sf_max(a, b):
    if kind(a) in "ib" and kind(b) in "ib":
        return sf_ite(int_binop("less_equal", b, a).v, a, b)
    a, b = lift(a), lift(b)
    r = sf_ite(_forked(sf_lt(b, a)), a, b) if C().opts.get("fork_minmax") \
        else sf_ite(sf_lt(a, b), b, a)
    if a.special or b.special:
        return SF(r.v, r.p, b_or(a.nan, b.nan), b_and(r.pinf, b_not(b_or(a.nan, b.nan))),
                  b_and(r.ninf, b_not(b_or(a.nan, b.nan))))
    return r


def sf_fmin(a, b):
    a, b = lift(a), lift(b)
    return sf_ite(a.nan, b, sf_ite(b.nan, a, sf_ite(sf_lt(b, a), b, a)))


def sf_fmax(a, b):
    a, b = lift(a), lift(b)
    return sf_ite(a.nan, b, sf_ite(b.nan, a, sf_ite(sf_lt(a, b), b, a)))


def sf_sign(a):
    if kind(a) in "ib":
        x = to_si(a)
        return sf_ite(int_binop("less", x, 0).v, SI(-1),
                      sf_ite(int_binop("equal", x, 0).v, SI(0), SI(1)))
    a = lift(a)
    pos, neg, zero = _sgn(a)
    r = sf_ite(pos, SF(Fraction(1)), sf_ite(neg, SF(Fraction(-1)), SF(Fraction(0))))
    return SF(r.v, 0, a.nan)


# -- formatting: a token stands for the text of a symbolic number

def fmt_token(sf, spec):
    c = C()
    key = (n2z(sf.v).get_id(), sf.p, spec)
    hit = c.fmt.get(key)
    if hit is None:
        n = len(c.fmt) + 1
        frac = ""
        if spec.endswith("f") and "." in spec:
            frac = "." + "0" * int(spec.split(".")[1][:-1])
        hit = (f"\u27e6{n}\u27e7{frac}", sf, spec)
        c.fmt[key] = hit
    return hit[0]
