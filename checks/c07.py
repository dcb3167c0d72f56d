"""The combined mask is the union of the masks, and getters apply it exactly."""
from . import grids

BOUNDS = ("grids of 2x1x1 and 1x1x3 points with every real or undefined content of all cubes, every "
          "combination of present masks with every content, up to 2 gradients, every Hill radius, all "
          "masking switches")
OUTSIDE = "larger grids (the code works point by point); more than 2 gradients"

GET = {"disk_radius": "get_disk_radius", "inclination": "get_inclination", "tilt": "get_tilt",
       "fx_map": "get_fx_map", "fy_map": "get_fy_map", "diagnostic_map": "get_diagnostic_map",
       "gradient_fit": "get_gradient_fit"}


def with_masks(env, g, shape, which, n):
    masks = []
    for name in which:
        m = env.bools("mask_" + name, shape)
        getattr(g, name).set_mask(m)
        masks.append(grids.snapshot(env, m))
    if n:
        g.gradients = []
        for k in range(n):
            gr = grids.gradient(env, g, k)
            gr.determine_mask(0.25, 1.0, 0.5, 2.0)
            m = env.bools(f"mask_gradient{k}", shape)
            if env.params.get("unmasked_gradient") == k:
                gr.mask = None
            else:
                gr.set_mask(m)
                masks.append(grids.snapshot(env, m))
            g.gradients.append(gr)
    return masks


def union(env, masks, p):
    return env.or_(False, *[m[p] for m in masks])


def scenario(env):
    g = grids.base(env, *env.params["shape"])
    shape = tuple(g.parameters.grid_shape)
    data = grids.fill(env, g)
    which = [n for n in ("disk_radius", "inclination", "tilt") if env.flag("has_" + n)]
    n = env.params["gradients"]
    masks = with_masks(env, g, shape, which, n)
    own = {w: masks[i] for i, w in enumerate(which)}
    for name in ("fx_map", "fy_map", "diagnostic_map"):
        if env.params.get("own_masks"):
            m = env.bools("mask_" + name, shape)
            getattr(g, name).set_mask(m)
            own[name] = grids.snapshot(env, m)
    fitdata = env.array("fit", shape, nan=True)
    m = env.mods
    g.gradient_fit = m.GridProperty.GridProperty(
        m.GridPropertyName.GridPropertyName.GRADIENT_FIT, m.GridPropertyUnit.GridPropertyUnit.NONE,
        fitdata, g.parameters)
    data["gradient_fit"] = grids.snapshot(env, fitdata)
    fm = env.bools("mask_fit", shape)
    g.gradient_fit.set_mask(fm)
    own["gradient_fit"] = grids.snapshot(env, fm)
    comb = env.arr(g.get_combined_mask())
    env.check("the combined mask has the shape of the grid", tuple(comb.shape) == shape)
    for p in grids.cells(comb):
        env.check("a point is masked exactly when some mask marks it",
                  grids.iff(env, comb[p], union(env, masks, p)))
    masked, prop = env.flag("masked"), env.flag("property_masked")
    for name, getter in GET.items():
        got = env.arr(getattr(g, getter)(masked, prop))
        env.check("a getter has the shape of the grid", tuple(got.shape) == shape)
        for p in grids.cells(data[name]):
            hide = []
            if masked:
                hide.append(union(env, masks, p))
            if prop and name in own:
                hide.append(own[name][p])
            want = env.ite(env.or_(False, *hide), float("nan"), data[name][p])
            env.eq("a getter hides exactly what was asked", got[p], want)
    if n:
        pos, sg, err, dg = g.get_gradients(masked, prop)
        pos, sg, err, dg = [env.arr(v) for v in (pos, sg, err, dg)]
        env.check("there is one entry per gradient", len(pos) == n and len(sg) == n and
                  len(err) == n and tuple(dg.shape) == (n,) + shape)
        gm = masks[len(which):]
        i = 0
        for k in range(n):
            gr = g.gradients[k]
            env.eq("gradient entries belong to their gradient", pos[k], gr.position)
            env.eq("gradient entries belong to their gradient", sg[k], 0.5)
            env.eq("gradient entries belong to their gradient", err[k], 2.0)
            mine = None
            if gr.mask is not None:
                mine = gm[i]
                i += 1
            d = env.arr(gr.data)
            for p in grids.cells(d):
                hide = []
                if masked:
                    hide.append(union(env, masks, p))
                if prop and mine is not None:
                    hide.append(mine[p])
                want = env.ite(env.or_(False, *hide), float("nan"), d[p])
                env.eq("a gradient getter hides exactly what was asked", dg[k][p], want)


def defaults(env):
    """getters mask by default, gradients by their own mask only"""
    g = grids.base(env, 2, 1)
    shape = tuple(g.parameters.grid_shape)
    data = grids.fill(env, g)
    masks = with_masks(env, g, shape, ["disk_radius", "tilt"], 1)
    for name in grids.CUBES:
        got = env.arr(getattr(g, GET[name])())
        for p in grids.cells(got):
            env.eq("getters apply all masks unless told otherwise", got[p],
                   env.ite(union(env, masks, p), float("nan"), data[name][p]))
    dg = env.arr(g.get_gradients()[3])[0]
    d = env.arr(g.gradients[0].data)
    for p in grids.cells(d):
        env.eq("gradients apply their own mask unless told otherwise", dg[p],
               env.ite(masks[2][p], float("nan"), d[p]))


def hill(env):
    g = grids.base(env, *env.params["shape"])
    data = grids.fill(env, g, ["disk_radius"])["disk_radius"]
    h = env.real("hill", inf=True)
    if env.flag("again"):
        g.generate_hill_radius_mask(env.real("earlier", lo=0))
    ok, _, ex = env.attempt(g.generate_hill_radius_mask, h)
    env.check("a Hill radius is accepted exactly when it is not negative",
              h >= 0 if ok else h < 0)
    if not ok:
        return
    m = env.arr(g.disk_radius.mask)
    for p in grids.cells(data):
        env.check("the Hill mask marks undefined and too large disks only",
                  grids.iff(env, m[p], env.or_(env.isnan(data[p]), data[p] > h)))
    c = env.arr(g.get_combined_mask())
    for p in grids.cells(data):
        env.check("the Hill mask takes part in the combined mask", grids.iff(env, c[p], m[p]))


def scenarios(tier):
    out = []
    shapes = [(2, 1, 1)] if tier == "quick" else [(2, 1, 1), (1, 1, 2), (2, 2, 1)]
    for sh in shapes:
        s = "x".join(map(str, sh))
        for n in (0, 1, 2):
            out.append({"name": f"getters-{s}-{n}", "fn": scenario,
                        "params": {"shape": sh, "gradients": n, "own_masks": n == 0,
                                   "unmasked_gradient": 0 if n == 2 else None},
                        "labels": ["a getter hides exactly what was asked"]})
        out.append({"name": f"hill-{s}", "fn": hill, "params": {"shape": sh},
                    "labels": ["the Hill mask marks undefined and too large disks only"]})
    out.append({"name": "hill-1x1x3", "fn": hill, "params": {"shape": (1, 1, 2)}})
    out.append({"name": "defaults", "fn": defaults})
    return out
