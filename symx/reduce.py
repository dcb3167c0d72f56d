"""Proof of one goal of nonlinear arithmetic, in a process of its own.

What the literal facts settle is propagated into the other constraints and the
goal; hypotheses that do not bear on the goal are dropped, most of them at
first and fewer later.  Dropping hypotheses keeps `unsat` right, so that is the
only answer given; everything else is `unknown`."""
import os
import random
import sys
import threading
import time
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from symx.core import z3, n_num, term_vars, term_size, quick_check, prove_linear  # noqa: E402

_CMP = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_UNINTERPRETED)


def _is_lit(c):
    a = c.arg(0) if z3.is_not(c) else c
    return a.decl().kind() in _CMP or (z3.is_eq(a) and not z3.is_bool(a.arg(0)))


def _flatten(cs):
    out, ids, st = [], set(), list(reversed(cs))
    while st:
        c = st.pop()
        if z3.is_and(c):
            st.extend(reversed(c.children()))
        elif z3.is_not(c) and z3.is_or(c.arg(0)):
            st.extend(z3.simplify(z3.Not(x)) for x in c.arg(0).children())
        elif not z3.is_true(c) and c.get_id() not in ids:
            ids.add(c.get_id())
            out.append(c)
    return out


def propagate(cs, goal):
    cs, goal = _flatten([z3.simplify(c) for c in cs]), z3.simplify(goal)
    for _ in range(8):
        pairs = []
        for c in cs:
            if _is_lit(c):
                pairs.append((c.arg(0), z3.BoolVal(False)) if z3.is_not(c) else (c, z3.BoolVal(True)))
        if not pairs:
            break
        own = {p[0].get_id() for p in pairs}
        changed, new = False, []
        for c in cs:
            a = c.arg(0) if z3.is_not(c) else c
            k = a.get_id()
            ps = [p for p in pairs if p[0].get_id() != k] if k in own else pairs
            d = z3.simplify(z3.substitute(c, *ps)) if ps else c
            changed |= not d.eq(c)
            new.append(d)
        g = z3.simplify(z3.substitute(goal, *pairs))
        cs = _flatten(new)
        if g.eq(goal) and not changed:
            break
        goal = g
    return cs, goal


def _has_ite(e):
    st, seen = [e], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return True
        st.extend(t.children())
    return False


def _age(name):
    head, _, n = name.rpartition("!")
    return int(n) if head and n.isdigit() else -1


def cone(cs, goal, wide):
    """the constraints that define what the goal is about, each taken to define
    its newest unknown"""
    goal_vars = term_vars(goal)
    names = set(goal_vars)
    top = max([_age(v) for v in names], default=-1)
    by = {}
    for c in cs:
        vs = [v for v in term_vars(c) if _age(v) >= 0]
        if wide and vs and goal_vars & term_vars(c) and max(map(_age, vs)) <= top + 4:
            names |= term_vars(c)           # defined together with the goal's
        if vs:
            by.setdefault(max(vs, key=_age), []).append(c)
    keep, work = [], list(names)
    while work:
        for c in by.get(work.pop(), ()):
            if term_size(c, 2000) > 1000 and _has_ite(c):
                continue
            keep.append(c)
            new = term_vars(c) - names
            names |= new
            work.extend(new)
    ids = {c.get_id() for c in keep}
    keep += [c for c in cs if c.get_id() not in ids and term_vars(c) <= names and _is_lit(c)]
    return keep


def saturate(cs, stats, t_end):
    """clauses of which one case is left become facts"""
    for _ in range(3):
        lits = [c for c in cs if _is_lit(c)]
        out, changed = [], False
        for c in cs:
            if z3.is_or(c) and c.num_args() <= 6 and time.time() < t_end:
                left = [d for d in c.children()
                        if quick_check(lits + [d], 300, stats) != "unsat"]
                if len(left) < c.num_args():
                    changed = True
                    c = z3.BoolVal(False) if not left else left[0] if len(left) == 1 else z3.Or(*left)
            out.append(c)
        cs = _flatten([z3.simplify(c) for c in out])
        if not changed:
            break
    return cs


def _conditions(cs):
    """atoms of the conditions of the if-then-elses left"""
    out, st, seen = [], list(cs), set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            w = [t.arg(0)]
            while w:
                a = w.pop()
                if z3.is_and(a) or z3.is_or(a) or z3.is_not(a):
                    w.extend(a.children())
                elif a.get_id() not in {x.get_id() for x in out}:
                    out.append(a)
        st.extend(t.children())
    return out


def settle_conditions(cs, goal, stats):
    """atoms of conditions which the facts decide, as facts"""
    lits = [c for c in cs if _is_lit(c)]
    new = []
    for a in _conditions(cs + [goal])[:40]:
        for v in (a, z3.simplify(z3.Not(a))):
            near = [c for c in lits if term_vars(c) & term_vars(v)]
            if prove_linear(near + [v], 500, stats) or \
                    quick_check(near + [v], 300, stats) == "unsat":
                new.append(z3.simplify(z3.Not(v)))
                break
    return new


def constants(cs, stats):
    """unknowns the facts give one value"""
    one = {}
    for c in cs:
        vs = term_vars(c)
        if len(vs) == 1 and _is_lit(c):
            one.setdefault(next(iter(vs)), []).append(c)
    subst = []
    for name, fs in one.items():
        if not any(z3.is_eq(f) for f in fs):
            continue
        v = z3.Real(name)
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(*fs)
        if s.check() != z3.sat:
            continue
        val = s.model()[v]
        if val is None or not z3.is_rational_value(val):
            continue
        if quick_check(fs + [v != val], 300, stats) == "unsat":
            subst.append((v, val))
    return subst


def aliases(cs):
    """pairs of unknowns which are equal"""
    subst, done = [], set()
    for c in cs:
        if z3.is_eq(c) and all(z3.is_const(a) and z3.is_app_of(a, z3.Z3_OP_UNINTERPRETED)
                               and z3.is_real(a) for a in c.children()):
            a, b = c.children()
            if {a.get_id(), b.get_id()} & done:
                continue
            if _age(str(a)) < _age(str(b)):
                a, b = b, a
            done |= {a.get_id(), b.get_id()}
            subst.append((a, b))
    return subst


def reduce_goal(asserts, goal, stats, t_end, wide=False):
    cs, g = propagate(asserts, goal)
    new = settle_conditions(cs, g, stats)
    if new:
        cs, g = propagate(cs + new, g)
    for _ in range(4):
        if z3.is_true(g) or any(z3.is_false(c) for c in cs):
            break
        cs = saturate(cone(cs, g, wide), stats, t_end)
        sub = constants(cs, stats) or aliases(cs)
        if sub:
            cs = [z3.substitute(c, *sub) for c in cs]
            g = z3.substitute(g, *sub)
        n = len(cs)
        cs, g = propagate(cs, g)
        if not sub and len(cs) == n:
            break
    return cs, g


def poly(e, limit=4000):
    """{monomial: coefficient} of a term, None where it is no polynomial"""
    c = n_num(e)
    if c is not None:
        return {(): Fraction(c)} if c else {}
    if z3.is_const(e):
        return {(e.decl().name(),): Fraction(1)}
    ch, neg = e.children(), z3.is_app_of(e, z3.Z3_OP_UMINUS)
    if z3.is_app_of(e, z3.Z3_OP_POWER):
        k = n_num(ch[1])
        if k is None or k != int(k) or not 0 < k < 8:
            return None
        ch, mul = [ch[0]] * int(k), True
    elif z3.is_mul(e):
        mul = True
    elif z3.is_add(e) or z3.is_sub(e) or neg:
        mul = False
    else:
        return None
    ps = [poly(c, limit) for c in ch]
    if None in ps:
        return None
    if mul:
        out = {(): Fraction(1)}
        for p in ps:
            new = {}
            for m, c in out.items():
                for n, d in p.items():
                    k = tuple(sorted(m + n))
                    new[k] = new.get(k, 0) + c * d
            out = {k: v for k, v in new.items() if v}
            if len(out) > limit:
                return None
        return out
    out = {}
    for n, p in enumerate(ps):
        sign = -1 if neg or z3.is_sub(e) and n else 1
        for k, v in p.items():
            out[k] = out.get(k, 0) + sign * v
    return {k: v for k, v in out.items() if v}


def quotients(cs):
    """{z: {a: r}} of the facts a * z == r, that is a = r / z where z is not 0"""
    by = {}
    for c in cs:
        if not z3.is_eq(c):
            continue
        for l, r in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if z3.is_mul(l) and l.num_args() == 2 and l.arg(0).get_id() != l.arg(1).get_id() and \
                    all(z3.is_const(x) and n_num(x) is None for x in l.children()):
                a, z = sorted(l.children(), key=lambda v: -_age(str(v)))
                if str(a) not in term_vars(r):
                    by.setdefault(z, {})[a] = r
    return by


def scaled(cs, g, stats, t_end):
    """a goal free of the quotients r / z which implies the goal: multiplied by
    a power of z, which is not 0"""
    if not z3.is_eq(g) or not z3.is_arith(g.arg(0)):
        return None
    for z, d in quotients(cs).items():
        names = term_vars(g)
        m = {a: r for a, r in d.items() if str(a) in names}
        p = poly(g.arg(0) - g.arg(1)) if m else None
        if p is None:
            continue
        ids = {str(a) for a in m}
        if len({sum(v in ids for v in k) for k in p}) != 1:
            continue
        nz = z3.simplify(z != 0)
        if prove_levels(saturate(cone(cs, nz, False), stats, t_end), nz,
                        min(t_end, time.time() + 4), stats):
            return z3.simplify(z3.substitute(g, *m.items()))
    return None


def text_of(cs, seed):
    """the constraints, in another order and with other names for each seed:
    which proof a solver finds first depends on both"""
    rnd = random.Random(seed)
    cs = list(cs)
    if seed:
        rnd.shuffle(cs)
        vs = sorted({v for c in cs for v in term_vars(c)})
        new = [f"v{n}" for n in range(len(vs))]
        rnd.shuffle(new)
        pairs = [(z3.Real(a), z3.Real(b)) for a, b in zip(vs, new)]
        cs = [z3.substitute(c, *pairs) for c in cs]
    u = z3.Solver()
    u.add(*cs)
    return u.to_smt2().replace("(check-sat)", "")


def check_text(kind, text, ms):
    ctx = z3.Context()
    if kind == "old":
        s = z3.SimpleSolver(ctx)
        s.set("arith.solver", 2)
    else:
        s = z3.Solver(ctx=ctx)
    s.set("timeout", int(ms))
    try:
        s.from_string(text)
        return str(s.check())
    except z3.Z3Exception:
        return "unknown"


def prove(cons, budget_s, stats):
    """are the constraints, of which the last denies the goal, unsatisfiable?"""
    t_end = time.time() + budget_s
    asserts, goal = cons[:-1], z3.simplify(z3.Not(cons[-1]))
    for wide in (False, True):
        cs, g = reduce_goal(asserts, goal, stats, time.time() + budget_s / 3, wide)
        if z3.is_true(g) or any(z3.is_false(c) for c in cs):
            return True
        for _ in range(2):
            h = scaled(cs, g, stats, t_end)
            if h is None:
                break
            if z3.is_true(h):
                return True
            g, cs = h, cone(cs, h, wide)
        r = prove_levels(cs, g, time.time() + (t_end - time.time()) * (1 if wide else 0.7), stats)
        if r:
            return True
    return False


def prove_levels(cs, g, t_end, stats):
    lits = [c for c in cs if _is_lit(c)]
    eqs = [c for c in lits if z3.is_eq(c)]
    sign = eqs + [c for c in lits if not z3.is_eq(c) and term_size(c, 8) <= 8]
    levels = [eqs, sign, lits, cs]
    plan = [(0, "old", 0), (3, "old", 0)]
    for seed in range(0, 40, 2):
        plan += [(3, "def", seed), (0, "def", seed), (3, "def", seed + 1), (2, "def", seed), (0, "def", seed + 1)]
        if seed % 4 == 0:
            plan.append((1, "def", seed))
    weak, found, lock = [-1], [], threading.Lock()
    plan = iter(plan)

    def worker():
        while not found and weak[0] < 3 and time.time() < t_end - 0.05:
            with lock:
                job = next(plan, None)
                if job is None:
                    return
                n, kind, seed = job
                if kind == "def" and (n <= weak[0] or n < 3 and len(levels[n]) == len(levels[n + 1])):
                    continue
                text = text_of(levels[n] + [z3.Not(g)], seed)
            ms = 1500 if kind == "old" else 8000 if seed < 20 else 30000
            r = check_text(kind, text, min(ms, max(100, (t_end - time.time()) * 1000)))
            with lock:
                stats["queries"] = stats.get("queries", 0) + 1
                if r == "unsat":
                    found.append(job)
                elif r == "sat":
                    weak[0] = max(weak[0], n)   # what is left does not entail the goal
                    if n == 3:
                        return
    threads = [threading.Thread(target=worker, daemon=True) for _ in range(4)]
    for t in threads:
        t.start()
    while any(t.is_alive() for t in threads) and not found:
        time.sleep(0.02)
        if weak[0] == 3 or time.time() > t_end + 1:
            break
    return bool(found)


def main():
    budget = float(sys.argv[1])
    s = z3.Solver()
    s.from_string(sys.stdin.read())
    stats = {}
    ok = prove(list(s.assertions()), budget, stats)
    print("unsat" if ok else "unknown", stats.get("queries", 0), flush=True)
    os._exit(0)                                 # threads may still be searching


if __name__ == "__main__":
    main()
