"""A ring is always physically valid, whatever sequence of edits it saw."""
BOUNDS = ("all real, nan and infinite values of the five ring parameters; "
          "construction followed by every sequence of 2 (quick) or 3 (thorough) attribute edits")
OUTSIDE = "longer edit sequences; rounding of floating point"

ATTRS = ["inner_radius", "outer_radius", "transmission", "inclination", "tilt"]


def valid(env, v):
    ir, outer, t, inc, tilt = v
    return env.and_(ir > 0, ir < outer, env.finite(outer), t >= 0, t <= 1, inc >= 0, inc <= 90,
                    tilt >= -180, tilt <= 180)


def state(r):
    return [r.inner_radius, r.outer_radius, r.transmission, r.inclination, r.tilt]


def eff_inner(env, v):
    """a hole of radius zero is stored as a negligible one"""
    return env.ite(v == 0, 1e-16, v)


def scenario(env):
    n = env.params["n"]
    Ring = env.mods.Ring.Ring
    args = [env.real(a, nan=True, inf=True) for a in ATTRS]
    want = [eff_inner(env, args[0])] + args[1:]
    ok, ring, ex = env.attempt(Ring, *args)
    good = valid(env, want)
    env.check("constructor accepts exactly the valid rings", good if ok else env.not_(good))
    if not ok:
        env.check("rejection is a ValueError", isinstance(ex, ValueError))
        return
    for a, b in zip(state(ring), want):
        env.eq("constructor stores its arguments", a, b)
    cur = want
    for k in range(n):
        i = env.pick(f"edit{k}", 5)
        v = env.real(f"value{k}", nan=True, inf=True)
        new = list(cur)
        new[i] = eff_inner(env, v) if i == 0 else v
        ok, _, ex = env.attempt(setattr, ring, ATTRS[i], v)
        good = valid(env, new)
        env.check("an edit is accepted exactly when the result is valid",
                  good if ok else env.not_(good))
        if ok:
            cur = new
        now = state(ring)
        for a, b in zip(now, cur):
            env.eq("an edit changes its attribute or nothing", a, b)
        env.check("the ring is valid after every edit", valid(env, now))


def types(env):
    Ring = env.mods.Ring.Ring
    bad = env.choice("bad", ["x", None, [1.0], (2.0,), 1j])
    i = env.pick("where", 5)
    args = [0.5, 2.0, 0.5, 10.0, 20.0]
    r = Ring(*args)
    ok, _, ex = env.attempt(setattr, r, ATTRS[i], bad)
    env.check("a value that is no number is refused", not ok and isinstance(ex, TypeError))
    for a, b in zip(state(r), args):
        env.eq("a refused edit changes nothing", a, b)
    args[i] = bad
    ok, _, ex = env.attempt(Ring, *args)
    env.check("a ring is not built from something that is no number", not ok)


def scenarios(tier):
    return [
        {"name": "history", "fn": scenario, "params": {"n": 2 if tier == "quick" else 3},
         "labels": ["an edit is accepted exactly when the result is valid",
                    "the ring is valid after every edit"]},
        {"name": "types", "fn": types},
    ]
