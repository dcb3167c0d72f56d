"""Extending a grid mirrors it into all four quadrants."""
from . import grids

BOUNDS = ("first quadrants of 2x2x1, 3x2x1 and 2x2x3 (thorough: also 2x3x1, 3x3x1) points with every real content of the "
          "cubes, undefined on the x axis or with any undefined points, loaded from a folder or held in "
          "a grid; constructed grids of 2x2x3 points with their real content; extents that do not start "
          "at the origin in either direction or both")
OUTSIDE = ("larger grids; masks set before extension (a grid is extended when it is made); tilts on the axes, "
           "where a reflection maps the point to itself, are compared modulo 180 degrees")

CUBES = ["disk_radius", "inclination", "tilt", "fx_map", "fy_map"]
PLACE = "./quadrant"


def quadrant(env, x0, y0, nx, ny, nrf, nan):
    """a folder holding a first quadrant with any content, written by the parts' own save methods"""
    m = env.mods
    base = grids.base(env, ny, nx, nrf)
    x1, y1 = x0 + (nx - 1) * 0.5, y0 + (ny - 1) * 0.5
    p = m.GridParameters.GridParameters(x0, x1, nx, y0, y1, ny, 2.0, nrf)
    data = {}
    shape = tuple(p.grid_shape)
    base.parameters = p
    for n in CUBES:
        old = getattr(base, n)
        a = env.array(n, shape, nan=nan)
        data[n] = grids.snapshot(env, a)
        for c in grids.cells(data[n]):
            if n == "disk_radius":
                env.assume(env.or_(env.isnan(a[c]), a[c] > 0))
            if n == "tilt" and (c[0] == 0 or c[1] == 0) and x0 == 0 and y0 == 0:
                # the axes: an ellipse that is its own mirror image
                env.assume(env.or_(env.isnan(a[c]), a[c] == 0, a[c] == 90, a[c] == 180))
        setattr(base, n, m.GridProperty.GridProperty(old.name, old.unit, a, p))
    base.save(PLACE)
    return data


def check_quadrants(env, g, data, dys, dxs):
    """g holds the four quadrants of data, whose axes were dys and dxs"""
    ny, nx, nr = data["tilt"].shape
    vy, vx, vr = [env.arr(v) for v in g.parameters.get_vectors()]
    env.check("the axes are mirrored", len(vy) == 2 * ny - 1 and len(vx) == 2 * nx - 1 and len(vr) == nr)
    if len(vy) != 2 * ny - 1 or len(vx) != 2 * nx - 1:
        return
    for v, w, n in ((vy, dys, ny), (vx, dxs, nx)):
        for i in range(n):
            env.eq("the original quadrant keeps its coordinates", v[n - 1 + i], w[i])
            env.eq("the coordinates are mirrored", v[n - 1 - i], -w[i])
    for name in CUBES:
        got = env.arr(getattr(g, name).data)
        env.check("the cubes cover all quadrants", tuple(got.shape) == (2 * ny - 1, 2 * nx - 1, nr))
        if tuple(got.shape) != (2 * ny - 1, 2 * nx - 1, nr):
            continue
        shown = env.arr(getattr(g, "get_" + name)(False, False))
        for i, j, k in grids.cells(got):
            a, b = abs(i - (ny - 1)), abs(j - (nx - 1))
            src = data[name][a, b, k]
            env.eq("the getters show the extended cubes", shown[i, j, k], got[i, j, k])
            if name != "tilt":
                env.eq("every quadrant has the values of the first", got[i, j, k], src)
            elif a and b:
                once = (i < ny - 1) != (j < nx - 1)
                env.eq("the tilt is mirrored by one reflection and kept by two", got[i, j, k],
                       180 - src if once else src)
            else:
                env.check("the tilt on the axes is kept up to half a turn",
                          env.or_(env.and_(env.isnan(src), env.isnan(got[i, j, k])),
                                  *[got[i, j, k] == src + h for h in (0, 180, -180)]))


def loaded(env):
    env.scratch()
    ny, nx, nrf = env.params["size"]
    data = quadrant(env, 0.0, 0.0, nx, ny, nrf, env.params["nan"])
    g = env.mods.Shallot.ShallotGrid.load(PLACE, 50)
    check_quadrants(env, g, data, [0.5 * i for i in range(ny)], [0.5 * i for i in range(nx)])


def left_alone(env):
    """grids that do not start at the origin"""
    env.scratch()
    ny, nx, nrf = 2, 2, 1
    x0, y0 = env.choice("start", [(0.0, 0.5), (0.5, 0.0), (0.5, 0.5), (-0.5, 0.0), (-0.5, -0.5)])
    data = quadrant(env, x0, y0, nx, ny, nrf, False)
    g = env.mods.Shallot.ShallotGrid.load(PLACE, 50)
    for n in CUBES:
        grids.same_array(env, "a grid that does not start at the origin is left alone",
                         getattr(g, n).data, data[n])
    vy, vx, vr = g.parameters.get_vectors()
    for v, o in ((vy, y0), (vx, x0)):
        env.check("its axes are left alone", len(v) == 2)
        for i in range(2):
            env.eq("its axes are left alone", env.arr(v)[i], o + 0.5 * i)


def close(env, a, b):
    """the content is that of floating point numbers"""
    env.check("constructed grids are mirrored", env.and_(a - b <= 1e-9, b - a <= 1e-9))


def constructed(env):
    """construction extends its own content"""
    diag = env.flag("diagnostics")
    g = grids.base(env, 2, 2, 2, diag, x=(0.0, 1.0), y=(0.0, 1.0))
    vy, vx, vr = [env.arr(v) for v in g.parameters.get_vectors()]
    env.check("a constructed grid is extended", tuple(g.parameters.grid_shape) == (3, 3, 3))
    for v in (vy, vx):
        for i in range(3):
            env.eq("the axes of a constructed grid are mirrored", v[i], i - 1)
    for name in CUBES:
        a = env.arr(getattr(g, name).data)
        for k in range(3):
            env.check("a constructed grid has content", env.not_(env.isnan(a[2, 2, k])))
            for i, j in ((0, 0), (0, 2), (2, 0)):
                once = (i == 0) != (j == 0)
                close(env, a[i, j, k], 180 - a[2, 2, k] if name == "tilt" and once else a[2, 2, k])
            if name != "tilt":
                close(env, a[0, 1, k], a[2, 1, k])
    if diag:
        ok, _, ex = env.attempt(g.diagnostics.save_diagnostic, 0, 0, env.np.ones(2), env.np.ones(2))
        env.check("the diagnostics are extended with the grid", not ok)


def scenarios(tier):
    L = ["every quadrant has the values of the first", "the tilt is mirrored by one reflection and kept by two"]
    sizes = [((2, 2, 1), True), ((3, 2, 1), False), ((2, 2, 2), False)]
    if tier != "quick":
        sizes += [((2, 3, 1), True), ((3, 3, 1), False), ((2, 2, 2), True)]
    out = [{"name": f"loaded-{'x'.join(map(str, s))}{'-nan' if n else ''}", "fn": loaded, "fs": True,
            "opts": {"float_concrete": True}, "params": {"size": s, "nan": n}, "labels": L} for s, n in sizes]
    out.append({"name": "elsewhere", "fn": left_alone, "fs": True, "opts": {"float_concrete": True},
                "labels": ["a grid that does not start at the origin is left alone"]})
    out.append({"name": "constructed", "fn": constructed, "labels": ["constructed grids are mirrored"]})
    return out
