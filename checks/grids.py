"""common parts of the grid checks"""

CUBES = ["disk_radius", "inclination", "tilt", "fx_map", "fy_map", "diagnostic_map"]


def base(env, ny, nx, nr=1, diagnostics=False, x=(0.5, 1.5), y=(0.5, 1.5)):
    """a small grid built by the real constructor, with concrete contents"""
    def build():
        m = env.mods
        p = m.GridParameters.GridParameters(x[0], x[1], nx, y[0], y[1], ny, 2.0, nr)
        return m.Shallot.ShallotGrid(p, 3, 50, diagnostics)
    return env.cached(("grid", ny, nx, nr, diagnostics, x, y), build)


def fill(env, g, names=CUBES, nan=True, prefix=""):
    """any content in the cubes named; returns a copy of it"""
    out = {}
    for n in names:
        a = env.array(prefix + n, g.parameters.grid_shape, nan=nan)
        getattr(g, n).data = a
        out[n] = snapshot(env, a)
    return out


def snapshot(env, a):
    if a is None:
        return None
    return env.arr(a).copy()


def cells(a):
    import itertools
    return itertools.product(*[range(k) for k in a.shape])


def gradient(env, g, k, nan=True, position=None):
    """a gradient with any content"""
    data = env.array(f"gradient{k}", g.parameters.grid_shape, nan=nan)
    pos = env.real(f"position{k}") if position is None else position
    return env.mods.GridProperty.GridGradient(data, g.parameters, pos)


def measured(env, gr, k):
    """measure it with any admissible values; returns them"""
    m = env.real(f"measured{k}", lo=0, hi=100)
    o = env.real(f"orbital{k}", lo=0, hi=100)
    t = env.real(f"transmission{k}", olo=0, hi=1)
    e = env.real(f"error{k}", olo=0, hi=100)
    env.assume(m * o <= t)
    gr.determine_mask(m, o, t, e)
    return m, o, t, e


# tolerance of replays for values that are only moved, not computed with
MOVED = 1e-13


def same_array(env, label, a, b, tol=None):
    """equal shape, elements equal or both undefined"""
    if a is None or b is None:
        env.check(label, a is None and b is None)
        return
    a, b = env.arr(a), env.arr(b)
    env.check(label + " (shape)", tuple(a.shape) == tuple(b.shape))
    if tuple(a.shape) != tuple(b.shape):
        return
    for p in cells(a):
        env.eq(label, a[p], b[p], tol=tol)


def same_mask(env, label, a, b):
    if a is None or b is None:
        env.check(label, a is None and b is None)
        return
    a, b = env.arr(a), env.arr(b)
    env.check(label + " (shape)", tuple(a.shape) == tuple(b.shape))
    if tuple(a.shape) != tuple(b.shape):
        return
    for p in cells(a):
        env.check(label, iff(env, a[p], b[p]))


def iff(env, a, b):
    return env.and_(env.implies(a, b), env.implies(b, a))


def state(env, g):
    """everything observable of a grid through its public attributes"""
    s = {"num_fxfy": g.num_fxfy}
    for n in CUBES + ["gradient_fit"]:
        p = getattr(g, n)
        s[n] = None if p is None else (snapshot(env, p.data), snapshot(env, p.mask))
    s["gradients"] = None if g.gradients is None else [gradient_state(env, x) for x in g.gradients]
    s["vectors"] = [snapshot(env, v) for v in g.parameters.get_vectors()]
    s["scales"] = (g._eclipse_duration, g._transverse_velocity, g._limb_darkening) \
        if hasattr(g, "_eclipse_duration") else None
    return s


def gradient_state(env, x):
    return [snapshot(env, x.data), snapshot(env, x.mask), x.position, x.measured_gradient,
            x.measured_error, x.orbital_scale, x.transmission_change]


def same_gradient(env, label, a, b, tol=None):
    same_array(env, label + " (data)", a[0], b[0], tol)
    same_mask(env, label + " (mask)", a[1], b[1])
    for x, y in zip(a[2:], b[2:]):
        env.eq(label + " (values)", x, y, tol=tol)


def same_state(env, label, a, b, tol=None):
    env.check(label + " (resolution)", a["num_fxfy"] == b["num_fxfy"])
    for n in CUBES + ["gradient_fit"]:
        if a[n] is None or b[n] is None:
            env.check(f"{label} ({n})", a[n] is None and b[n] is None)
            continue
        same_array(env, f"{label} ({n})", a[n][0], b[n][0], tol)
        same_mask(env, f"{label} ({n} mask)", a[n][1], b[n][1])
    for x, y in zip(a["vectors"], b["vectors"]):
        same_array(env, label + " (axes)", x, y, tol)
    u, v = a["gradients"], b["gradients"]
    if u is None or v is None:
        env.check(label + " (gradients)", u is None and v is None)
    else:
        env.check(label + " (number of gradients)", len(u) == len(v))
        for x, y in zip(u, v):
            same_gradient(env, label + " (gradient)", x, y, tol)
    if a["scales"] is not None and b["scales"] is not None:
        for x, y in zip(a["scales"], b["scales"]):
            env.eq(label + " (eclipse parameters)", x, y)
