"""Grid point data belong to the requested grid point."""
from . import grids

BOUNDS = ("grids of 2x2x1, 1x2x3 and 3x1x1 points with every real or undefined content of all cubes, none "
          "or two gradients, every content of the masks, masked or not, every integer index in each "
          "direction and every other kind of index")
OUTSIDE = "larger grids"


def scenario(env):
    ny, nx, nrf = env.params["shape"]
    g = grids.base(env, ny, nx, nrf)
    shape = tuple(g.parameters.grid_shape)
    data = grids.fill(env, g)
    masks, own = [], {}
    for name in env.params["masks"]:
        m = env.bools("mask_" + name, shape)
        getattr(g, name).set_mask(m)
        own[name] = grids.snapshot(env, m)
        if name in ("disk_radius", "inclination", "tilt"):
            masks.append(own[name])
    n = env.params["gradients"]
    gm, gd = [], []
    if n:
        g.gradients = []
        for k in range(n):
            gr = grids.gradient(env, g, k)
            gd.append(grids.snapshot(env, gr.data))
            gr.determine_mask(0.25, 1.0, 0.5, 2.0)
            m = env.bools(f"mask_gradient{k}", shape)
            gr.set_mask(m)
            gm.append(grids.snapshot(env, m))
            g.gradients.append(gr)
    vy, vx, vr = [grids.snapshot(env, v) for v in g.parameters.get_vectors()]
    idx = [env.int(n, -2, k + 1) for n, k in zip(("y", "x", "rf"), shape)]
    masked = env.pick("masked", 3)
    a = [] if masked == 2 else [bool(masked)]
    ok, res, ex = env.attempt(g.get_grid_point_data, *idx, *a)
    inside = env.and_(*[env.and_(i >= 0, i < k) for i, k in zip(idx, shape)])
    env.check("indices are accepted exactly when they lie in the grid",
              inside if ok else env.not_(inside))
    if not ok:
        env.check("an index outside the grid is a ValueError", isinstance(ex, ValueError))
        return
    p = y, x, r = tuple(int(i) for i in idx)
    hide = []
    if masked:
        hide = [m[p] for m in masks] + [m[p] for m in gm]

    def want(name):
        h = list(hide)
        if name in own:              # the getters apply the mask of the property in any case
            h.append(own[name][p])
        return env.ite(env.or_(False, *h), float("nan"), data[name][p])
    disk, grid, grad = res
    for got, name in zip(disk, ("disk_radius", "inclination", "tilt")):
        env.eq("the disk belongs to the grid point", got, want(name))
    env.eq("the coordinates belong to the grid point", disk[3], vx[x])
    env.eq("the coordinates belong to the grid point", disk[4], vy[y])
    env.eq("the coordinates belong to the grid point", grid[0], vr[r])
    for got, name in zip(grid[1:], ("fx_map", "fy_map", "diagnostic_map")):
        env.eq("the grid values belong to the grid point", got, want(name))
    if not n:
        env.check("without gradients there are no gradient data", grad[0] is None and grad[1] is None)
        return
    pos, gv = env.arr(grad[0]), env.arr(grad[1])
    env.check("there is a value for every gradient", len(pos) == n and len(gv) == n)
    for k in range(n):
        env.eq("the gradients belong to the grid point", pos[k], g.gradients[k].position)
        env.eq("the gradients belong to the grid point", gv[k],
               env.ite(gm[k][p], float("nan"), gd[k][p]) if masked else gd[k][p])


def invalid(env):
    g = grids.base(env, 2, 2)
    bad = env.choice("bad", [0.5, "0", None])
    at = env.pick("at", 3)
    idx = [0, 0, 0]
    idx[at] = bad
    ok, _, ex = env.attempt(g.get_grid_point_data, *idx)
    env.check("an index that is no integer is refused", not ok and isinstance(ex, TypeError))


def scenarios(tier):
    out = [{"name": "invalid", "fn": invalid}]
    for sh in [(2, 2, 1), (1, 2, 2), (3, 1, 1)]:
        for n, masks in ((0, ["disk_radius", "fx_map"]), (2, ["inclination", "tilt", "fy_map"])):
            if tier == "quick" and n and sh == (2, 2, 1):
                continue
            s = "x".join(map(str, sh))
            out.append({"name": f"point-{s}-{n}", "fn": scenario,
                        "params": {"shape": sh, "gradients": n, "masks": masks},
                        "labels": ["the disk belongs to the grid point",
                                   "an index outside the grid is a ValueError"]})
    return out
