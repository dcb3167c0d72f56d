"""Extracted solutions are the best distinct grid points in order."""
import itertools
from . import grids

BOUNDS = ("grids of 2x2x1, 3x1x1 (thorough) and 1x1x3 points with every real content of the cubes, every fit, every "
          "mask (fits undefined wherever masked points may have them), every integer number of solutions; "
          "fits set directly and fits determined from gradients")
OUTSIDE = "larger grids; fits that are undefined at unmasked points (the masks exclude them, C06 and C09)"


def scenario(env):
    g = grids.base(env, *env.params["shape"])
    shape = tuple(g.parameters.grid_shape)
    data = grids.fill(env, g, nan=False)
    m = env.bools("mask_tilt", shape)
    g.tilt.set_mask(m)
    hidden = grids.snapshot(env, m)
    if env.params.get("fitted"):
        gr = grids.gradient(env, g, 0)
        g.gradients = [gr]
        grids.measured(env, gr, 0)
        g.determine_gradient_fit(False)
        fit = grids.snapshot(env, g.gradient_fit.data)
        gm = grids.snapshot(env, gr.mask)
        masked = {p: env.or_(hidden[p], gm[p]) for p in grids.cells(fit)}
    else:
        m = env.mods
        raw = env.array("fit", shape, nan=True)
        for p in grids.cells(raw):
            env.assume(env.or_(hidden[p], env.not_(env.isnan(raw[p]))))
        g.gradient_fit = m.GridProperty.GridProperty(
            m.GridPropertyName.GridPropertyName.GRADIENT_FIT, m.GridPropertyUnit.GridPropertyUnit.NONE,
            raw, g.parameters)
        fit = grids.snapshot(env, raw)
        masked = {p: hidden[p] for p in grids.cells(fit)}
    points = list(grids.cells(fit))
    count = 0
    for p in points:
        count = count + env.ite(masked[p], 0, 1)
    if env.flag("all"):
        args, n = [], count
    else:
        n = env.int("n", -2, len(points) + 1)
        args = [n]
    before = grids.state(env, g)
    ok, res, ex = env.attempt(g.extract_solutions, *args)
    fine = env.and_(n >= 0, n <= count)
    env.check("a number of solutions is accepted exactly when there are as many",
              fine if ok else env.not_(fine))
    grids.same_state(env, "extraction leaves the grid unchanged", before, grids.state(env, g))
    if not ok:
        env.check("too many solutions are a ValueError", isinstance(ex, ValueError))
        return
    res = [env.arr(a) for a in res]
    k = len(res[0])
    env.check("there is one entry per solution", env.and_(n == k, *[len(a) == k for a in res]))
    vy, vx, vr = g.parameters.get_vectors()
    vy, vx = env.arr(vy), env.arr(vx)
    options = []
    for perm in itertools.permutations(points, k):
        c = [env.not_(masked[p]) for p in perm]
        c += [fit[a] <= fit[b] for a, b in zip(perm, perm[1:])]
        for p in points:
            if p not in perm and k:
                c.append(env.or_(masked[p], fit[perm[-1]] <= fit[p]))
        for i, p in enumerate(perm):
            c.append(env.same(res[0][i], fit[p]))
            for a, name in zip(res[1:4], ("disk_radius", "inclination", "tilt")):
                c.append(env.same(a[i], data[name][p]))
            c.append(env.same(res[4][i], vx[p[1]]))
            c.append(env.same(res[5][i], vy[p[0]]))
        options.append(env.and_(*c))
    env.check("the solutions are the best distinct grid points in order", env.or_(*options))


def invalid(env):
    g = grids.base(env, 2, 1)
    grids.fill(env, g, nan=False)
    g.gradients = [grids.gradient(env, g, 0, nan=False)]
    grids.measured(env, g.gradients[0], 0)
    g.determine_gradient_fit()
    ok, _, ex = env.attempt(g.extract_solutions, env.choice("bad", [0.5, "1"]))
    env.check("a number of solutions that is no integer is refused", not ok and isinstance(ex, TypeError))


def scenarios(tier):
    out = [{"name": "invalid", "fn": invalid}]
    for sh in ([(3, 1, 1), (1, 1, 2)] if tier == "quick" else [(2, 2, 1), (3, 1, 1), (1, 3, 1), (1, 1, 2)]):
        s = "x".join(map(str, sh))
        out.append({"name": f"extract-{s}", "fn": scenario, "params": {"shape": sh},
                    "labels": ["the solutions are the best distinct grid points in order",
                               "too many solutions are a ValueError"]})
    out.append({"name": "fitted-2x1x1", "fn": scenario, "params": {"shape": (2, 1, 1), "fitted": True},
                "labels": ["the solutions are the best distinct grid points in order"]})
    return out
