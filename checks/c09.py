"""The gradient fit is the weighted sum of squared residuals."""
from . import grids

BOUNDS = ("grids of 2x1x1 (quick) / 2x2x1 and 1x1x3 (thorough) points, 1 to 3 (quick) / 4 gradients with "
          "every real or undefined content, every measured value, error and scale in "
          "[0, 100] (errors and transmission changes not zero), with masks and an earlier fit present")
OUTSIDE = "measurement errors of zero when weighting; larger grids; more gradients; rounding"


def scenario(env):
    g = grids.base(env, *env.params["shape"])
    shape = tuple(g.parameters.grid_shape)
    n = env.params["gradients"]
    grids.fill(env, g, ["disk_radius"])
    if env.params["masks"]:
        for name in ("disk_radius", "tilt"):
            getattr(g, name).set_mask(env.bools("mask_" + name, shape))
    data, values = [], []
    g.gradients = []
    for k in range(n):
        gr = grids.gradient(env, g, k)
        data.append(grids.snapshot(env, gr.data))
        values.append(grids.measured(env, gr, k))
        g.gradients.append(gr)
    if env.params["again"]:
        g.determine_gradient_fit(env.flag("earlier"))
    w = env.pick("weighting", 3)
    if w == 2:
        g.determine_gradient_fit()
    else:
        g.determine_gradient_fit(bool(w))
    fit = env.arr(g.gradient_fit.data)
    read = env.arr(g.get_gradient_fit(False, False))
    shown = env.arr(g.get_gradient_fit(False, True))
    mask = env.arr(g.gradient_fit.mask)
    env.check("the fit has the shape of the grid", tuple(fit.shape) == shape)
    for p in grids.cells(fit):
        want = 0
        for d, (m, o, t, e) in zip(data, values):
            r = (d[p] - m * o / t) * (d[p] - m * o / t)
            want = want + (r / (e * e) if w else r)
        env.eq("the fit is the sum of squared residuals", fit[p], want)
        env.eq("the fit is the sum of squared residuals", read[p], want)
        env.eq("the fit is the sum of squared residuals", shown[p], want)
        undefined = env.or_(*[env.isnan(d[p]) for d in data])
        env.check("the fit is undefined exactly where a disk gradient is",
                  grids.iff(env, env.isnan(fit[p]), undefined))
        env.check("undefined fits are masked", grids.iff(env, mask[p], undefined))
    for k, gr in enumerate(g.gradients):
        grids.same_array(env, "the fit leaves the gradients unchanged", gr.data, data[k])


def none(env):
    g = grids.base(env, 2, 1)
    env.attempt(g.determine_gradient_fit)
    env.check("there is no fit without gradients", g.get_gradient_fit() is None)


def scenarios(tier):
    shapes = [(2, 1, 1)] if tier == "quick" else [(2, 1, 1), (2, 2, 1), (1, 1, 2)]
    out = [{"name": "none", "fn": none}]
    for sh in shapes:
        s = "x".join(map(str, sh))
        for n in range(1, 4 if tier == "quick" or sh != (2, 1, 1) else 5):
            out.append({"name": f"fit-{s}-{n}", "fn": scenario,
                        "params": {"shape": sh, "gradients": n, "masks": n == 1, "again": n == 2},
                        "labels": ["the fit is the sum of squared residuals",
                                   "undefined fits are masked"]})
    return out
