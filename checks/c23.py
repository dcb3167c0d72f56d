"""A plot of a ring system shows all of it."""
from . import rings

BOUNDS = ("systems of 1 to 2 (quick) / 4 (thorough) rings with all real radii, transmissions and "
          "angles, a planet no larger than the outermost ring; every centre")
OUTSIDE = "the empty system; rendering by matplotlib; a planet larger than its rings"


def scenario(env):
    n = env.params["n"]
    rs, model, geo = rings.system(env, n)
    planet, inc, tilt = geo
    last = model[-1][1]
    env.assume(planet <= last)
    x, y = env.real("x"), env.real("y")
    if env.params["shift"]:
        ax = rs.plot(env.axes(), x, y)
    else:
        x = y = 0
        ax = rs.plot(env.axes())
    ps = list(ax.patches)
    env.check("the planet and every ring are drawn once", len(ps) == n + 1)
    if len(ps) != n + 1:
        return
    cx, cy = ps[0].get_center()
    env.eq("the planet is drawn at the centre", cx, x)
    env.eq("the planet is drawn at the centre", cy, y)
    env.eq("the planet is drawn with its radius", ps[0].get_radius(), planet)
    for (a, b, t), p in zip(model, ps[1:]):
        want = env.mods.Ring.Ring(a, b, t, inc, tilt).get_patch(x, y)
        v, w = env.arr(p.get_path().vertices), env.arr(want.get_path().vertices)
        env.check("every ring is drawn with its geometry (size)", v.shape == w.shape)
        if v.shape != w.shape:
            return
        for i in range(v.shape[0]):
            for j in (0, 1):
                env.eq("every ring is drawn with its geometry", v[i][j], w[i][j])
        env.eq("every ring is drawn with its opacity", p.get_alpha(), 1 - t)
    for c, lim in ((x, ax.get_xlim()), (y, ax.get_ylim())):
        env.le("the limits contain the whole system", lim[0], c - last)
        env.le("the limits contain the whole system", c + last, lim[1])


def scenarios(tier):
    return [{"name": f"plot-{n}-{s}", "fn": scenario, "params": {"n": n, "shift": s},
             "labels": ["the limits contain the whole system"]}
            for n in range(1, 3 if tier == "quick" else 5) for s in (False, True)]
