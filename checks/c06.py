"""A measured gradient masks exactly the disks too shallow to explain it."""
from . import grids

BOUNDS = ("one gradient with every real or undefined content of 3 (measured directly) or 2 (through the grid) points, up to 2 "
          "gradients added or rescaled together, every measured gradient, error, velocity, limb darkening, "
          "transmission change, duration and time")
OUTSIDE = "transmission changes, velocities and durations of zero; more gradients at once; rounding"


def check_mask(env, gr):
    scaled = gr.get_scaled_gradient()        # checked on its own
    d, m = env.arr(gr.data), env.arr(gr.mask)
    env.check("the mask has the shape of the data", d.shape == m.shape)
    for p in grids.cells(d):
        env.check("a point is masked exactly when its gradient is undefined or too small",
                  grids.iff(env, m[p], env.or_(env.isnan(d[p]), d[p] < scaled)))


def direct(env):
    """measuring one gradient"""
    g = grids.base(env, *env.params["shape"])
    gr = grids.gradient(env, g, 0)
    env.check("an unmeasured gradient has no scaled gradient", gr.get_scaled_gradient() is None)
    if env.flag("again"):
        grids.measured(env, gr, 9)
    v = [env.real(n, nan=True, inf=n != "transmission") for n in
         ("measured", "orbital", "transmission", "error")]
    m, o, t, e = v
    env.assume(env.not_(t == 0))
    k = env.pick("given", 3)
    if k == 0:
        ok, _, ex = env.attempt(gr.determine_mask, m, o)
        t, e = 1, 1
    elif k == 1:
        ok, _, ex = env.attempt(gr.determine_mask, m, o, t)
        e = 1
    else:
        ok, _, ex = env.attempt(gr.determine_mask, m, o, t, e)
    valid = env.and_(m >= 0, o >= 0, t > 0, t <= 1, e >= 0)
    # an infinite value times zero is no scaled gradient at all
    env.assume(env.implies(valid, env.and_(env.finite(m), env.finite(o))))
    fine = env.and_(valid, m * o <= t)
    env.check("a measured gradient is accepted exactly when its values are valid and it scales to at most one",
              fine if ok else env.not_(fine))
    if not ok:
        env.check("a refused gradient is a ValueError", isinstance(ex, ValueError))
        return
    env.eq("the scaled gradient", gr.get_scaled_gradient(), m * o / t)
    for a, b in ((gr.measured_gradient, m), (gr.orbital_scale, o), (gr.transmission_change, t),
                 (gr.measured_error, e)):
        env.eq("the measured values are stored", a, b)
    check_mask(env, gr)


def orbital(env, v, u):
    pi = env.np.pi
    return (pi / v) * ((6 - 2 * u) / (12 - 12 * u + 3 * pi * u))


def parameters(env):
    D = env.real("duration", olo=0, hi=1000)
    v = env.real("velocity", olo=0, hi=1000)
    u = env.real("limb", lo=0, hi=1)
    return D, v, u


def added(env):
    """measuring through the grid"""
    g = grids.base(env, 2, 1)
    n = env.params["gradients"]
    D, v, u = parameters(env)
    g.set_eclipse_parameters(D, v, u)
    times = env.array("time", n)
    lc = env.array("lc", n)
    er = env.array("error", n)
    tr = env.array("transmission", n)
    T, L, E, R = [grids.snapshot(env, a) for a in (times, lc, er, tr)]
    for k in range(n):
        env.assume(env.not_(R[k] == 0))
        env.assume(env.and_(T[k] >= -1000, T[k] <= 1000))
    given = env.pick("given", 3)
    a = [times, lc] + [er, tr][:given]
    ok, _, ex = env.attempt(g.add_gradients, *a)
    if given < 2:
        R = [1.0] * n
    if given < 1:
        E = [1.0] * n
    c = []
    for k in range(n):
        c += [L[k] >= 0, E[k] >= 0, R[k] > 0, R[k] <= 1, L[k] * orbital(env, v, u) <= R[k]]
    fine = env.and_(*c)
    env.check("gradients are accepted exactly when their values are valid and they scale to at most one",
              fine if ok else env.not_(fine))
    if not ok:
        return
    env.check("there is one gradient per time", len(g.gradients) == n)
    for k, gr in enumerate(g.gradients):
        env.eq("times convert to positions", gr.position * D, -T[k])
        env.eq("the measured gradient is that of the light curve", gr.measured_gradient, L[k])
        env.eq("the measured error is that of the light curve", gr.measured_error, E[k])
        env.eq("the transmission change is the one given", gr.transmission_change, R[k])
        env.eq("the orbital scale", gr.orbital_scale, orbital(env, v, u))
        env.eq("the scaled gradient", gr.get_scaled_gradient(), L[k] * orbital(env, v, u) / R[k])
        check_mask(env, gr)


def rescaled(env):
    """every gradient content, scaled through the grid"""
    g = grids.base(env, 2, 1)
    n = env.params["gradients"]
    D, v, u = parameters(env)
    g.set_eclipse_parameters(1.0, 1.0, 0.5)
    g.gradients = [grids.gradient(env, g, k) for k in range(n)]
    vals = [grids.measured(env, x, k) for k, x in enumerate(g.gradients)]
    tr = env.array("changes", n)
    R = grids.snapshot(env, tr)
    for k in range(n):
        env.assume(env.and_(R[k] > 0, R[k] <= 1))
    what = {"transverse_velocity": v, "limb_darkening": u, "transmission_changes": tr}
    sel = env.pick("what", 8)
    kw = {name: x for i, (name, x) in enumerate(what.items()) if sel >> i & 1}
    ok, _, ex = env.attempt(g.update_gradient_scaling, **kw)
    new = []
    for k, (m, o, t, e) in enumerate(vals):
        if sel & 3:
            o = orbital(env, v if sel & 1 else 1.0, u if sel & 2 else 0.5)
        if sel & 4:
            t = R[k]
        new.append((m, o, t, e))
    fine = env.and_(*[m * o <= t for m, o, t, e in new])
    env.check("scaling factors are accepted exactly when every gradient scales to at most one",
              fine if ok else env.not_(fine))
    if not ok:
        return
    for gr, (m, o, t, e) in zip(g.gradients, new):
        env.eq("the measured gradient is kept", gr.measured_gradient, m)
        env.eq("the measured error is kept", gr.measured_error, e)
        env.eq("the orbital scale", gr.orbital_scale, o)
        env.eq("the transmission change is the one given", gr.transmission_change, t)
        env.eq("the scaled gradient", gr.get_scaled_gradient(), m * o / t)
        check_mask(env, gr)


def scenarios(tier):
    out = [{"name": "direct", "fn": direct, "params": {"shape": (3, 1, 1) if tier == "quick" else (2, 2, 1)},
            "labels": ["a point is masked exactly when its gradient is undefined or too small",
                       "a refused gradient is a ValueError"]}]
    for n in (1,) if tier == "quick" else (1, 2):
        out.append({"name": f"added-{n}", "fn": added, "params": {"gradients": n},
                    "labels": ["times convert to positions", "the orbital scale"]})
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        out.append({"name": f"rescaled-{n}", "fn": rescaled, "params": {"gradients": n},
                    "labels": ["the orbital scale", "the transmission change is the one given"]})
    return out
