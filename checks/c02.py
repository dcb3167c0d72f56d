"""Disk radius, inclination and tilt describe the same ellipse as the stretches."""
from . import geometry as geo

BOUNDS = ("the first centre of grids of 1x1x3 and 2x2x3 points: any centre beyond 0.01 in both directions, and any "
          "centre below 2 in both off the x axis, and the origin; any stretch between any samples; the horizontal, the middle "
          "and the vertical branch")
OUTSIDE = ("the other centres of larger grids, built by the same loop; undefined points (C01); the "
           "samples of the interpolation themselves; rounding")
BUDGET = {"quick": 600, "thorough": 800}
ASSUMPTIONS = ["np.interp is replaced by any positive numbers, a superset of what it returns"]


def scenario(env):
    for (x, y), cube in geo.points(env):
        if env.isnan(cube[0]):
            # one undefined value comes with the others
            env.check("undefined points are undefined throughout", env.and_(*[env.isnan(v) for v in cube[:3]]))
            continue
        geo.same_ellipse(env, x, y, cube)


def scenarios(tier):
    return geo.scenarios(scenario, geo.LABELS, geo.QUADRANTS + [((2, 2), 0, 0)])
