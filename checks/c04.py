"""The diagnostic map is the error of the radius factor axis."""
from . import grids
from . import c03

BOUNDS = ("grids of 2x1x1, 1x2x3 and (thorough) 1x1x5 points with every positive, real or undefined disk radius and every "
          "largest radius factor, after construction (its content replaced), after earlier diagnoses and "
          "masks, after loading and after extension by loading")
OUTSIDE = "disk radii of zero at the middle of the axis (a disk has a positive radius); larger grids; rounding"


def check_map(env, g, R, rf):
    got = env.arr(g.diagnostic_map.data)
    shown = env.arr(g.get_diagnostic_map(False, False))
    env.check("the map covers the grid", tuple(got.shape) == tuple(R.shape))
    if tuple(got.shape) != tuple(R.shape):
        return
    mid = R.shape[2] // 2
    for i, j, k in grids.cells(R):
        want = R[i, j, k] / R[i, j, mid] - rf[k]
        env.eq("the map is the relative radius less the radius factor", got[i, j, k], want)
        env.eq("the getter shows the map", shown[i, j, k], want)


def fill(env, g, tag="", lo=None):
    a = env.array("R" + tag, g.parameters.grid_shape, nan=True)
    mid = g.parameters.grid_shape[2] // 2
    for c in grids.cells(grids.snapshot(env, a)):
        if c[2] == mid:
            env.assume(env.or_(env.isnan(a[c]), a[c] > 0))
    g.disk_radius.data = a
    return grids.snapshot(env, a)


def held(env):
    ny, nx, nrf = env.params["shape"]
    top = env.real("rf", olo=1, hi=1000)
    m = env.mods
    g = grids.base(env, ny, nx, nrf)
    g.parameters = m.GridParameters.GridParameters(0.5, 1.5, nx, 0.5, 1.5, ny, top, nrf)
    if env.flag("before"):
        fill(env, g, "-before")
        g.diagnose_fxfy_resolution()
    R = fill(env, g)
    if env.flag("masked"):
        g.disk_radius.set_mask(env.bools("mask", g.parameters.grid_shape))
    g.diagnose_fxfy_resolution()
    step = (top - 1) / (nrf - 1) if nrf > 1 else 0
    rf = [1 + step * abs(k - (nrf - 1)) for k in range(2 * nrf - 1)]
    check_map(env, g, R, rf)
    grids.same_array(env, "the diagnosis leaves the disk radii unchanged", g.disk_radius.data, R)


def loaded(env):
    env.scratch()
    ny, nx, nrf = env.params["shape"]
    start = env.params["start"]
    data = c03.quadrant(env, start, start, nx, ny, nrf, False)
    g = env.mods.Shallot.ShallotGrid.load(c03.PLACE, 50)
    rf = [1 + abs(k - (nrf - 1)) for k in range(2 * nrf - 1)] if nrf > 1 else [1]
    R = grids.snapshot(env, g.disk_radius.data)
    env.check("the grid is extended from the origin only",
              (R.shape[0] == 2 * ny - 1) == (start == 0))
    check_map(env, g, R, rf)


def built(env):
    """a grid as constructed, with its real content"""
    x = env.choice("start", [(0.5, 1.5), (0.0, 1.0)])
    g = grids.base(env, 2, 2, 2, x=x, y=x)
    check_map(env, g, grids.snapshot(env, g.disk_radius.data), [2, 1, 2])


def scenarios(tier):
    L = ["the map is the relative radius less the radius factor"]
    out = [{"name": "held-" + "x".join(map(str, s)), "fn": held, "params": {"shape": s}, "labels": L}
           for s in ([(2, 1, 1), (1, 2, 2)] if tier == "quick" else [(2, 1, 1), (1, 2, 2), (1, 1, 3)])]
    for start in (0.0, 0.5):
        out.append({"name": f"loaded-{start}", "fn": loaded, "fs": True, "opts": {"float_concrete": True},
                    "params": {"shape": (2, 2, 2), "start": start}, "labels": L})
    out.append({"name": "built", "fn": built, "labels": L})
    return out
