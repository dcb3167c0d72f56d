"""grid points with any centre and any stretch

A grid is built by its real constructor with symbolic extents, so that its first
grid point has any centre.  The interpolation of the stretches (np.interp, over
samples which are symbolic as well) is over-approximated by arbitrary positive
stretches, and what the path has learnt before is dropped: what is shown after
it holds for any stretch the interpolation may give, whatever the samples were."""

FIXED = [(0.0, 0.0), (0.0, 0.3), (-0.7, 0.4), (0.9, -0.8), (-1.3, -0.2), (0.4, 1.7), (0.6, 0.0),
         (0.1, 0.05)]

# (grid points in x and y, sign of dx, sign of dy): a grid has to reach beyond
# the origin, or it is refused
QUADRANTS = [((2, 2), 0, 1), ((2, 2), 0, -1), ((1, 1), 1, 1)] + [((2, 2), sx, sy) for sx in (1, -1) for sy in (1, -1)]
AXES = [((2, 2), sx, 0) for sx in (1, -1, 0)]

CALLS = 2           # interpolations per grid point


def any_stretch(x, xp, fp):
    """np.interp over-approximated: any positive stretches"""
    from symx import core
    from symx.arr import fin, F8
    import numpy as np
    forget()
    out = np.empty(x.shape, dtype=object)
    for p in np.ndindex(*x.shape):
        v = core.C().fresh("stretch")
        core.C().axiom([v], v > 0)
        out[p] = core.SF(v)
    return fin(out, F8)


def hull_stretch(x, xp, fp):
    """np.interp over-approximated: numbers between the smallest and the
    largest sample, undefined only if a sample is"""
    from symx import core
    from symx.arr import fin, F8
    import numpy as np
    forget()
    flat = [core.lift(v) for a in (xp, fp) for v in np.asarray(a, dtype=object).ravel()]
    nan, s = core.b_or(*[v.nan for v in flat]), flat[xp.size:]
    out = np.empty(x.shape, dtype=object)
    for p in np.ndindex(*x.shape):
        v = core.C().fresh("stretch")
        vals = [core.n2z(w.val()) for w in s]
        core.C().axiom([v], core.z3.And(core.z3.Or(*[w <= v for w in vals]),
                                        core.z3.Or(*[w >= v for w in vals])))
        out[p] = core.SF(v, nan=nan)
    return fin(out, F8)


def first_stretch(x, xp, fp):
    """the same; what follows for the first grid point is kept, with cases of
    their own for its minima and maxima"""
    from symx import core
    c = core.C()
    n = c.memo["interpolations"] = c.memo.get("interpolations", 0) + 1
    if n == CALLS + 1:
        c.memo["kept"] = c.depending("stretch")
        c.opts = dict(c.opts, fork_minmax=False, reduce=False)
    out = any_stretch(x, xp, fp)
    if n == 1:
        c.opts = dict(c.opts, fork_minmax=True, reduce=True)
    return out


def forget():
    from symx import core
    core.C().forget({"dx", "dy"}, kept=core.C().memo.get("kept", ()))


def grids(env):
    """(grid, dx, dy) of grids whose first centre is (dx, dy)"""
    m = env.mods
    x, y = env.real("dx"), env.real("dy")
    nx, ny = env.params["n"]
    one = (x, x + 1 if nx == 1 else 2, nx, y, y + 1 if ny == 1 else 2, ny, 1, 2, 1)
    if env.sym:
        for v, sign in ((x, env.params["signs"][0]), (y, env.params["signs"][1])):
            env.assume(v > 0 if sign > 0 else v < 0 if sign < 0 else v == 0)
        if nx == 2:
            env.assume(x < 2)
        if ny == 2:
            env.assume(y < 2)
        todo = [one]
    else:
        todo = [one] + [(a, abs(a) + 1.5, 2, b, abs(b) + 1.5, 2, 3, 3, 20) for a, b in [(x, y)] + FIXED]
    for q in todo:
        p = m.GridParameters.GridParameters(*q[:8])
        ok, g, ex = env.attempt(m.Shallot.ShallotGrid, p, q[8], 50)
        if not ok:
            # the range of the axes is too small to reach the radius factors asked
            env.check("a grid that is not built is refused", isinstance(ex, AttributeError))
            continue
        if env.sym:
            from symx import core
            forget()
            core.C().opts = dict(core.C().opts, reduce=bool(env.params.get("reduce")))
        dy, dx, _ = g.parameters.get_vectors()
        yield g, env.arr(dx)[0], env.arr(dy)[0]


def points(env):
    """((dx, dy), cubes there) at the first centre of grids"""
    for g, x, y in grids(env):
        cubes = [env.arr(getattr(g, n).data) for n in
                 ("disk_radius", "inclination", "tilt", "fx_map", "fy_map")]
        for k in range(cubes[0].shape[2]):
            if not env.sym or k == env.params["point"]:
                yield (x, y), [a[0, 0, k] for a in cubes]


def matrix(x, y, fx, fy):
    """M = S S^T of the map S that stretches and shears the unit circle into
    the disk: p lies on the edge of the disk when p^T M^-1 p = 1; as
    (M11, M12, M22, circular radius squared, shear)"""
    s = -x / y if y != 0 else 0.0
    rho2 = 0.25 + y * y
    return rho2 * (fx * fx + s * s * fy * fy), -rho2 * s * fy * fy, rho2 * fy * fy, rho2, s


RADIUS = "the disk radius is positive"
RANGE = "the inclination lies between 0 and 90 degrees"
AXES_SQUARED = "the squared axes add up to the trace of the ellipse"
MAJOR_X = "the major axis is a principal axis of the ellipse with the disk radius (x)"
MAJOR_Y = "the major axis is a principal axis of the ellipse with the disk radius (y)"


def same_ellipse(env, x, y, cube):
    """claims that radius, inclination and tilt describe the ellipse of the stretches"""
    R, inc, tilt, fx, fy = [env.cases(v) for v in cube]
    M11, M12, M22, rho2, s = matrix(x, y, fx, fy)
    t = env.np.deg2rad(tilt)
    ct, st, b = env.np.cos(t), env.np.sin(t), R * env.np.cos(env.np.deg2rad(inc))
    env.lt(RADIUS, 0, R)
    env.le(RANGE, 0, inc)
    env.le(RANGE, inc, 90)
    env.eq(AXES_SQUARED, R * R + b * b, M11 + M22)
    env.eq(MAJOR_X, M11 * ct + M12 * st, R * R * ct)
    env.eq(MAJOR_Y, M12 * ct + M22 * st, R * R * st)
    return R, b, ct, st, fx, fy


def abstract(env, names):
    """numbers of which nothing is known but what is assumed next: a claim shown
    for them holds for any"""
    from symx import core
    return [core.SF(core.C().fresh(n)) for n in names.split()]


LABELS = [RANGE, AXES_SQUARED, MAJOR_X, MAJOR_Y]


def scenarios(fn, labels, where):
    return [{"name": f"{n[0]}x{n[1]} {sx:+d} {sy:+d} rf{k}", "fn": fn, "labels": labels, "prove_s": 90,
             "params": {"n": n, "signs": (sx, sy), "point": k, "reduce": True},
             "opts": {"interp_stub": first_stretch}}
            for n, sx, sy in where for k in (0, 1, 2)]
