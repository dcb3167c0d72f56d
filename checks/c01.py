"""Every disk of a grid explains the observed eclipse duration."""
from . import geometry as geo

BOUNDS = ("the first centre of grids of 1x1x3 and 2x2x3 points: any centre beyond 0.01 in both directions, and any "
          "centre below 2 in both, on the axes too; any stretch between any samples; the horizontal, the middle "
          "and the vertical branch; one stretch sample per step of the search for the ends of the axis")
OUTSIDE = ("the other centres of larger grids, built by the same loop; rounding")
BUDGET = {"quick": 500, "thorough": 800}
ASSUMPTIONS = ["np.interp is replaced by any positive numbers, and where definedness is claimed by any numbers "
               "between its samples that are undefined only if one of them is: supersets of what it returns"]

STRETCH = "the ellipse of the stretches passes through both ends of the eclipse"
EDGE = "the edge of the disk passes through the end of the eclipse"
DEFINED = "off the x axis every grid point is defined"
NO_STRETCH = "a grid point is undefined only where no ellipse has its vertical stretch"
AXIS = "on the x axis no grid point away from the origin is defined"


def edge(env):
    for (x, y), cube in geo.points(env):
        if env.isnan(cube[0]):
            undefined(env, x, y, cube[4])
            continue
        R, b, ct, st, fx, fy = geo.same_ellipse(env, x, y, cube)
        rho2 = 0.25 + y * y
        env.eq(STRETCH, 0.25 * fy * fy + fx * fx * y * y, rho2 * fx * fx * fy * fy)
        if not env.sym:
            for side in (0.5, -0.5):
                px, py = side - x, -y
                u, v = ct * px + st * py, ct * py - st * px
                env.eq(EDGE, b * b * u * u + R * R * v * v, R * R * b * b)


def undefined(env, x, y, fy):
    """a point off the x axis is undefined only if no horizontal stretch goes with the vertical one"""
    if not env.sym:
        env.check(DEFINED, abs(y) < 0.01)
    elif y != 0:
        env.le(NO_STRETCH, fy * fy * (1 + 4 * y * y), 4 * y * y)


def by_steps(env):
    """the edge follows from the claims on the ellipse and on the stretches, whatever the numbers"""
    if not env.sym:
        return
    ct, st, A, B, M11, M12, M22 = geo.abstract(env, "ct st A B M11 M12 M22")      # A = R^2, B = b^2
    for l, r in ((ct * ct + st * st, 1), (A + B, M11 + M22),
                 (M11 * ct + M12 * st, A * ct), (M12 * ct + M22 * st, A * st)):
        env.assume(l == r)
    env.eq(EDGE, M11 * (ct * ct) + M12 * (st * ct), A * (ct * ct))
    env.eq(EDGE, M12 * (st * ct) + M22 * (st * st), A * (st * st))
    env.eq(EDGE, M11 * (ct * st) + M12 * (st * st), A * (ct * st))
    env.eq(EDGE, M12 * (ct * ct) + M22 * (ct * st), A * (ct * st))
    # M = A e e^T + B n n^T with e = (ct, st) and n = (-st, ct)
    c2, s2, cs, A, B, M11, M12, M22 = geo.abstract(env, "c2 s2 cs A B M11 M12 M22")
    for l, r in ((c2 + s2, 1), (A + B, M11 + M22), (M11 * c2 + M12 * cs, A * c2),
                 (M12 * cs + M22 * s2, A * s2), (M11 * cs + M12 * s2, A * cs),
                 (M12 * c2 + M22 * cs, A * cs)):
        env.assume(l == r)
    env.eq(EDGE, M11, A * c2 + B * s2)
    env.eq(EDGE, M22, A * s2 + B * c2)
    env.eq(EDGE, M12, (A - B) * cs)
    # p^T adj(M) p is the left hand side of the edge, and det(M) its right hand side
    ct, st, A, B, px, py = geo.abstract(env, "ct st A B px py")
    M11, M22, M12 = A * ct * ct + B * st * st, A * st * st + B * ct * ct, (A - B) * ct * st
    u, v = ct * px + st * py, ct * py - st * px
    env.eq(EDGE, B * u * u + A * v * v, M22 * px * px - 2 * M12 * px * py + M11 * py * py)
    c2, s2, A, B = geo.abstract(env, "c2 s2 A B")
    env.assume(c2 + s2 == 1)
    env.eq(EDGE, (A * c2 + B * s2) * (A * s2 + B * c2) - (A - B) * (A - B) * c2 * s2, A * B)
    # which are the same by the claim on the stretches; the origin, with no shear, included
    for side in (0.5, -0.5):
        x, y, s, F, G, r = geo.abstract(env, "x y s F G r")      # F = fx^2, G = fy^2, r = rho^2
        env.assume(s * y == -x)
        env.assume(r == 0.25 + y * y)
        env.assume(0.25 * G + F * y * y == r * F * G)
        px, py = side - x, -y
        env.eq(EDGE, px + s * py, side)
        q, w = geo.abstract(env, "q w")                          # q = px + s py, w = py^2
        env.assume(q * q == 0.25)
        env.assume(w == y * y)
        env.eq(EDGE, r * (G * (q * q) + F * w), r * r * F * G)
        M11, M12, M22 = r * (F + s * s * G), -r * s * G, r * G
        env.eq(EDGE, M22 * px * px - 2 * M12 * px * py + M11 * py * py,
               r * (G * (px + s * py) * (px + s * py) + F * py * py))
        env.eq(EDGE, M11 * M22 - M12 * M12, r * r * F * G)


def defined(env):
    for g, x, y in geo.grids(env):
        cubes = [env.arr(getattr(g, n).data)[0, 0] for n in
                 ("disk_radius", "inclination", "tilt", "fx_map", "fy_map")]
        for a in cubes:
            for v in a:
                if y != 0:
                    env.check(DEFINED, env.not_(env.isnan(v)))
                elif x != 0:
                    env.check(AXIS, env.isnan(v))


def scenarios(tier):
    out = geo.scenarios(edge, geo.LABELS + [STRETCH], geo.QUADRANTS + [((2, 2), 0, 0)])
    out.append({"name": "edge from the ellipse", "fn": by_steps, "labels": [EDGE], "prove_s": 90})
    where = geo.AXES + [((1, 1), 1, 1), ((2, 1), 0, 1)]
    if tier != "quick":
        where += [((2, 1), -1, 1), ((1, 2), 1, -1)]
    for n, sx, sy in where:
        if sx or sy:
            out.append({"name": f"defined {n[0]}x{n[1]} {sx:+d} {sy:+d}", "fn": defined,
                        "labels": [DEFINED if sy else AXIS], "prove_s": 120,
                        "params": {"n": n, "signs": (sx, sy), "reduce": True},
                        "opts": {"interp_stub": geo.hull_stretch, "settle": True}})
    return out
