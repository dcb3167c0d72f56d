"""The closest grid point is the closest."""
from . import grids

BOUNDS = ("grids of 3x1x1, 2x2x1 (thorough) and 1x1x3 points with every real or undefined content of disk radius, "
          "inclination and tilt, on both sides of the axis, every mask, every target disk and impact "
          "parameter of magnitude up to 100")
OUTSIDE = ("larger grids; grid points further from the target than 10^6; grids without an available point "
           "on the side of the impact parameter; rounding")


def scenario(env):
    ny, nx, nrf = env.params["shape"]
    g = grids.base(env, ny, nx, nrf, y=env.params["y"])
    shape = tuple(g.parameters.grid_shape)
    data = grids.fill(env, g, ["disk_radius", "inclination", "tilt"], nan=env.params["nan"])
    for name in data:
        for p in grids.cells(data[name]):
            v = data[name][p]
            env.assume(env.or_(env.isnan(v), env.and_(v >= -200, v <= 200)))
    m = env.bools("mask", shape)
    own = env.params["own"]
    if own:
        g.inclination.set_mask(m)
    else:
        gradient = env.mods.GridProperty.GridGradient(env.np.zeros(shape), g.parameters, 0.25)
        gradient.set_mask(m)
        g.gradients = [gradient]
    hidden = grids.snapshot(env, m)
    R = env.real("disk", lo=0, hi=100)
    i = env.real("inc", lo=0, hi=90)
    t = env.real("tilt", lo=-180, hi=180)
    b = env.real("impact", lo=-100, hi=100)
    masked = env.pick("masked", 3)
    if masked == 0 and not own:         # only the properties' own masks apply
        hidden = {p: False for p in grids.cells(hidden)}
    vy, vx, vr = [env.arr(v) for v in g.parameters.get_vectors()]
    points = list(hidden) if isinstance(hidden, dict) else list(grids.cells(hidden))
    ok_at, dist = {}, {}
    for p in points:
        side = env.not_(env.or_(env.and_(b < 0, vy[p[0]] > 0), env.and_(b > 0, vy[p[0]] < 0)))
        defined = env.not_(env.or_(*[env.isnan(data[n][p]) for n in data]))
        free = env.not_(hidden[p])
        ok_at[p] = env.and_(side, defined, free)
        d = 0
        for v, w in ((data["disk_radius"][p], R), (data["inclination"][p], i), (data["tilt"][p], t),
                     (vy[p[0]], b)):
            d = d + (v - w) * (v - w)
        dist[p] = d
    env.assume(env.or_(*ok_at.values()))
    a = [] if masked == 2 else [bool(masked)]
    ok, res, ex = env.attempt(g.determine_closest_grid_point, R, i, t, b, *a)
    env.check("a closest grid point is found", ok)
    if not ok:
        return
    coords, idx, d = res
    q = tuple(int(k) for k in idx)
    env.check("the closest grid point is available", ok_at.get(q, False))
    if q not in ok_at:
        return
    for p in points:
        env.check("no available grid point is closer", env.implies(ok_at[p], dist[q] <= dist[p]))
    env.eq("the coordinates are those of the point", coords[0], vy[q[0]])
    env.eq("the coordinates are those of the point", coords[1], vx[q[1]])
    env.eq("the coordinates are those of the point", coords[2], vr[q[2]])
    env.eq("the distance is that of the point", d, env.np.sqrt(dist[q]))


def invalid(env):
    g = grids.base(env, 2, 1)
    R, i, t, b = [env.real(n, nan=True) for n in ("disk", "inc", "tilt", "impact")]
    good = env.and_(*[env.not_(env.isnan(v)) for v in (R, i, t)], R >= 0, i >= 0, i <= 90, t >= -180, t <= 180)
    env.assume(env.not_(good))
    ok, _, ex = env.attempt(g.determine_closest_grid_point, R, i, t, b)
    env.check("an impossible disk is refused", not ok and isinstance(ex, ValueError))


def scenarios(tier):
    out = [{"name": "invalid", "fn": invalid}]
    both = (-0.5, 0.5)
    L = ["no available grid point is closer", "the distance is that of the point"]
    out.append({"name": "3x1x1", "fn": scenario, "labels": L,
                "params": {"shape": (3, 1, 1), "y": both, "own": True, "nan": tier != "quick"}})
    out.append({"name": "1x1x3", "fn": scenario, "labels": L,
                "params": {"shape": (1, 1, 2), "own": True, "y": (0.5, 1.5), "nan": False}})
    out.append({"name": "1x2x1", "fn": scenario, "labels": L,
                "params": {"shape": (1, 2, 1), "own": False, "y": (0.5, 1.5), "nan": True}})
    if tier != "quick":
        out.append({"name": "2x2x1", "fn": scenario, "labels": L,
                    "params": {"shape": (2, 2, 1), "own": False, "y": both, "nan": False}})
    return out
