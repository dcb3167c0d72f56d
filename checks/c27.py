"""Grid parameters are evenly spaced axes of the requested extent."""
BOUNDS = ("every real extent; 1 to 4 (quick) / 6 (thorough) points per axis; "
          "every refused number of points; extension once and twice")
OUTSIDE = "nan and infinite extents; more points per axis; rounding of the axis values"


def axis(env, label, v, lo, hi, n):
    env.check(label + " (length)", len(v) == n)
    if len(v) != n:
        return
    for i in range(n):
        want = lo if n == 1 else lo + (hi - lo) * i / (n - 1)
        env.eq(label, v[i], want)


def shapes(env, g, ny, nx, nr):
    env.check("the shapes agree with the axes", tuple(g.grid_shape) == (ny, nx, nr)
              and tuple(g.slice_shape) == (ny, nx))
    env.check("the axes are broadcastable",
              g.dy.shape == (ny, 1, 1) and g.dx.shape == (1, nx, 1) and len(g.rf_array) == nr)


def vectors(env, g):
    dy, dx, rf = g.get_vectors()
    return env.arr(dy), env.arr(dx), env.arr(rf)


def check_rf(env, g, top, n):
    rf = vectors(env, g)[2]
    env.check("the radius factor axis has 2n-1 points", len(rf) == 2 * n - 1)
    axis(env, "radius factors", env.arr(g.rf), 1, top, n)
    for i in range(min(n, len(rf))):
        env.eq("the radius factor axis is symmetric around its minimum", rf[i], rf[len(rf) - 1 - i])
        env.eq("the radius factor axis is symmetric around its minimum", rf[len(rf) - 1 - i],
               env.arr(g.rf)[n - 1 - i])


def build(env):
    N = env.params["max"]
    a = {}
    for k in ("min_x", "max_x", "min_y", "max_y", "max_rf"):
        a[k] = env.real(k)
    nums = {}
    which = env.params["sizes"]
    for k in ("num_x", "num_y", "num_rf"):
        nums[k] = env.choice(k, list(range(1, N + 1))) if which == k else (2 if which else
                                                                         env.int(k, -3, 3))
    ok, g, ex = env.attempt(env.mods.GridParameters.GridParameters, a["min_x"], a["max_x"],
                            nums["num_x"], a["min_y"], a["max_y"], nums["num_y"], a["max_rf"],
                            nums["num_rf"])
    good = env.and_(a["min_x"] < a["max_x"], a["min_y"] < a["max_y"], a["max_rf"] >= 1,
                    *[nums[k] >= 1 for k in nums])
    env.check("parameters are accepted exactly when they describe a grid",
              good if ok else env.not_(good))
    if not ok:
        env.check("a refusal is a ValueError", isinstance(ex, ValueError))
        return
    for k in nums:
        nums[k] = int(nums[k])
    dy, dx, rf = vectors(env, g)
    axis(env, "dx runs evenly over its extent", dx, a["min_x"], a["max_x"], nums["num_x"])
    axis(env, "dy runs evenly over its extent", dy, a["min_y"], a["max_y"], nums["num_y"])
    check_rf(env, g, a["max_rf"], nums["num_rf"])
    shapes(env, g, nums["num_y"], nums["num_x"], 2 * nums["num_rf"] - 1)
    start0 = env.and_(a["min_x"] == 0, a["min_y"] == 0)
    env.check("a grid is extendable exactly when it starts at the origin",
              env.and_(env.implies(start0, g.extendable), env.implies(g.extendable, start0)))


def extend(env):
    N = env.params["max"]
    x0 = env.real("min_x")
    y0 = env.real("min_y")
    x1, y1 = env.real("max_x"), env.real("max_y")
    top = env.real("max_rf", lo=1)
    env.assume(env.and_(x0 < x1, y0 < y1))
    nx = env.choice("num_x", list(range(1, N + 1)))
    ny = env.choice("num_y", list(range(1, N + 1)))
    g = env.mods.GridParameters.GridParameters(x0, x1, nx, y0, y1, ny, top, 2)
    dy, dx, rf = [[v for v in w] for w in vectors(env, g)]
    ok, _, ex = env.attempt(g.extend_grid)
    can = env.and_(x0 == 0, y0 == 0)
    if nx > 1 and ny > 1:
        env.check("extension is possible exactly from the origin", can if ok else env.not_(can))
    if not ok:
        now = vectors(env, g)
        for label, a, b in (("dy", dy, now[0]), ("dx", dx, now[1]), ("rf", rf, now[2])):
            env.check("a refused extension changes nothing", len(a) == len(b))
            if len(a) == len(b):
                for u, v in zip(a, b):
                    env.eq("a refused extension changes nothing", u, v)
        shapes(env, g, ny, nx, 3)
        return
    if nx == 1 or ny == 1:
        return
    dy2, dx2, rf2 = vectors(env, g)
    shapes(env, g, 2 * ny - 1, 2 * nx - 1, 3)
    for old, new, n in ((dy, dy2, ny), (dx, dx2, nx)):
        if len(new) == 2 * n - 1:
            for i in range(n):
                env.eq("extension keeps the original half", new[n - 1 + i], old[i])
                env.eq("extension mirrors the original half", new[n - 1 - i], -old[i])
    for u, v in zip(rf, rf2):
        env.eq("extension keeps the radius factors", u, v)
    ok, _, ex = env.attempt(g.extend_grid)
    env.check("a grid is extended once only", not ok and isinstance(ex, AttributeError))
    now = vectors(env, g)
    for a, b in ((dy2, now[0]), (dx2, now[1])):
        for u, v in zip(a, b):
            env.eq("a refused extension changes nothing", u, v)


def scenarios(tier):
    N = 4 if tier == "quick" else 6
    out = [{"name": f"axes-{k}", "fn": build, "params": {"max": N, "sizes": k},
            "labels": ["the shapes agree with the axes",
                       "parameters are accepted exactly when they describe a grid"]}
           for k in ("num_x", "num_y", "num_rf")]
    out.append({"name": "sizes", "fn": build, "params": {"max": N, "sizes": None}})
    out.append({"name": "extend", "fn": extend, "params": {"max": 3 if tier == "quick" else 4},
                "labels": ["extension mirrors the original half",
                           "a refused extension changes nothing"]})
    return out
