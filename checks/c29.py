"""The radius factor axis is interpolated between samples that span it."""
BOUNDS = ("single centres, eight (quick) or twelve (thorough) of them with dx from 0.05 to 3 and dy from 0.1 to 2, with "
          "2 to 4 (thorough: up to 6) samples per step of the search for the ends of the axis; every maximum radius "
          "factor from 1 to 3, that is every number of steps and every position between the samples; axes of 3 and "
          "5 points")
OUTSIDE = ("other centres (each is a constant of the encoding, the nested roots of symbolic ones are beyond the "
           "solvers); how close the radius of an interpolated disk comes to the requested one (C28)")
BUDGET = {"quick": 400, "thorough": 800}
ASSUMPTIONS = ["constants are computed in double precision, comparisons allow 1e-9"]

ASCEND = "the stretch samples ascend"
SPAN_X = "the samples reach the maximum radius factor on the horizontal side"
SPAN_Y = "the samples reach the maximum radius factor on the vertical side"
MIDDLE = "the middle disk has the stretch of the smallest sample"
SIDES = "the stretches of the horizontal half are at most, of the vertical half at least the middle one"
MARGIN = 1e-3
BETWEEN = "a stretch lies between the neighbouring samples around its radius factor"


def scenario(env):
    m = env.mods
    rf = env.real("rf")
    x, y = [float(v) for v in env.params["at"]]
    env.assume(env.and_(rf >= 1, rf < 3))
    todo = [(x, x + 1, 1, y, y + 1, 1, rf, env.params["rf"], env.params["num"])]
    if not env.sym:
        todo += [(x, x + 1, 1, y, y + 1, 1, rf, r, n) for r in (2, 3) for n in (1, 2, 20)]
        todo += [(a, X, 2, b, Y, 2, 3, 3, 20) for a, b, X, Y in
                 ((0.3, 0.0, 1.0, 1.0), (0.0, 0.2, 2.0, 1.5), (0.1, 0.2, 0.5, 0.5), (-0.2, 0.1, 3.0, 0.5),
                  (-0.1, 0.0, 0.5, 3.0), (-0.4, -0.3, 0.7, 0.6))]
    tol = 1e-9
    for q in todo:
        p = m.GridParameters.GridParameters(*q[:8])
        ok, g, ex = env.attempt(m.Shallot.ShallotGrid, p, q[8], 50, True)
        if not ok:
            env.check("a grid that is not built is refused", isinstance(ex, AttributeError))
            continue
        rf = env.arr(g.parameters.rf_array)
        half = len(rf) // 2
        cube = env.arr(g.fy_map.data)
        ny, nx, _ = cube.shape
        for j in range(ny):
            for i in range(nx):
                ok, got, ex = env.attempt(g.diagnostics.get_diagnostic, j, i)
                if not ok:
                    continue
                one_point(env, [env.arr(v) for v in got], cube[j, i], rf, half, tol)


def one_point(env, got, axis, rf, half, tol):
    fy, R = got
    for v in fy:
        env.check("the samples are defined", env.not_(env.isnan(v)))
    for a, b in zip(fy, fy[1:]):
        env.check(ASCEND, a <= b + tol)
    least = R[0]
    for r in R[1:]:
        least = env.ite(r < least, r, least)
    env.check(SPAN_X, R[0] * (1 + tol) >= rf[0] * least)
    env.check(SPAN_Y, R[-1] * (1 + tol) >= rf[-1] * least)
    mid = axis[half]
    env.check(MIDDLE, env.or_(*[env.and_(v == mid, r == least) for v, r in zip(fy, R)]))
    for k, v in enumerate(axis):
        env.check(SIDES, v <= mid + tol if k <= half else v >= mid - tol)
        pairs = [env.and_(rf[k] <= 1 + tol, mid - tol <= v, v <= mid + tol)]
        for a, b, r, s in zip(fy, fy[1:], R, R[1:]):
            inside = env.and_(a <= v + tol, v <= b + tol)
            side = b <= mid + tol if k <= half else a >= mid - tol
            if k > half:
                r, s = s, r
            well_inside = env.and_(s + MARGIN < rf[k] * least, r - MARGIN > rf[k] * least, b - a > MARGIN)
            inside = env.and_(inside, env.implies(well_inside, env.and_(a < v, v < b)))
            around = env.and_(s <= rf[k] * least * (1 + tol), r * (1 + tol) >= rf[k] * least)
            pairs.append(env.and_(inside, side, around))
        env.check(BETWEEN, env.or_(*pairs))


def scenarios(tier):
    cases = [((0.5, 0.25), 2, 2), ((0.25, 0.5), 2, 2), ((1.5, 0.5), 2, 2), ((0.5, 2), 2, 2), ((0.1, 0.2), 2, 3),
             ((0.7, 1.25), 3, 3), ((3, 1.5), 2, 2), ((0.3, 0.3), 2, 4)]
    if tier != "quick":
        cases += [((0.3, 0.1), 3, 4), ((1, 1), 3, 5), ((2, 0.2), 2, 6), ((0.05, 0.6), 3, 3)]
    return [{"name": f"{at} rf{n} samples{k}", "fn": scenario, "prove_s": 60,
             "labels": [ASCEND, SPAN_X, SPAN_Y, MIDDLE, SIDES, BETWEEN], "params": {"rf": n, "num": k, "at": at},
             "opts": {"float_concrete": True, "feas_ms": 500}} for at, n, k in cases]
