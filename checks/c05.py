"""The disk gradient is the projected slope of the concentric ellipse."""
from . import geometry as geo
from . import grids

BOUNDS = ("grids of 1x1x3 and 2x2x3 points, one centre anywhere in the four quadrants or on an axis; every "
          "positive or undefined stretch in each of its points; one gradient at any time, every eclipse duration")
OUTSIDE = ("larger grids; the other centres of the grid, which are multiples of the same code; what the stretches "
           "of a built grid are (C01, C02), which are replaced by any; rounding")
BUDGET = {"quick": 600, "thorough": 800}

SLOPE = "the gradient is that of the tangent of the concentric ellipse through the position"
UNIT = "the gradient lies between 0 and 1"
UNDEFINED = "where the disk is undefined the gradient is"
VERTICAL = "a vertical tangent has gradient 1"


def scenario(env):
    for g, x, y in geo.grids(env):
        shape = g.parameters.grid_shape
        fx, fy = env.np.ones(shape), env.np.ones(shape)
        which = [env.params["point"]]
        for k in which:
            fx[0, 0, k] = env.real(f"fx{k}", olo=0, nan=True)
            fy[0, 0, k] = env.real(f"fy{k}", olo=0, nan=True)
        g.fx_map.data, g.fy_map.data = fx, fy
        FX, FY = grids.snapshot(env, fx), grids.snapshot(env, fy)
        duration = env.real("duration", olo=0, hi=100)
        time = env.real("time")
        g.set_eclipse_parameters(duration, 1000.0, 0.5)
        g.add_gradients(env.np.array([time]), env.np.array([0.0]))
        got = env.arr(g.gradients[-1].data)
        env.check("the gradient covers the grid", tuple(got.shape) == tuple(shape))
        if tuple(got.shape) != tuple(shape):
            continue
        pos = -time / duration
        for k in which:
            a, b, G = FX[0, 0, k], FY[0, 0, k], got[0, 0, k]
            if env.isnan(a) or env.isnan(b):
                env.check(UNDEFINED, env.isnan(G))
                continue
            X, Y = pos - x, -y
            if y == 0:
                if x != 0:
                    continue                    # no ellipse through both points
                s = 0
            else:
                s = -x / y
            N = b * b * (X + s * Y)
            D = s * N + a * a * Y
            if N == 0 and D == 0:
                continue                        # at the centre there is no slope
            env.check("where the disk is defined the gradient is", env.not_(env.isnan(G)))
            env.le(UNIT, 0, G)
            env.le(UNIT, G, 1)
            env.eq(SLOPE, G * G * (N * N + D * D), N * N)
            if D == 0:
                env.eq(VERTICAL, G, 1)


def scenarios(tier):
    out = []
    for n, sx, sy in geo.QUADRANTS + geo.AXES:
        out.append({"name": f"{n[0]}x{n[1]} {sx:+d} {sy:+d}", "params": {"n": n, "point": 1, "signs": (sx, sy)},
                    "fn": scenario, "opts": {"interp_stub": geo.any_stretch}, "prove_s": 60,
                    "labels": [UNDEFINED] if sy == 0 and sx else [UNDEFINED, UNIT, SLOPE] +
                    ([VERTICAL] if sx or not sy else [])})
    return out
