"""A grid survives saving and loading."""
from . import grids

BOUNDS = ("grids of 2x1x1 points with every real or undefined content of the cubes, masks on any of them, up to "
          "2 (quick) / 3 (thorough) gradients at every position, equal ones included, measured or not, "
          "with diagnostics or none, saved to a new place; grids loaded twice in a row; "
          "grids of 2x2 centres at and away from the origin with two gradients of every measured value and "
          "error added after loading")
OUTSIDE = ("saving over an existing folder (the code refuses); eclipse parameters, the gradient fit and "
           "contrast settings (not saved by design); larger grids")

PLACE = "./saved"


def diagnostics_of(env, g):
    if g.diagnostics is None:
        return None
    out = {}
    for y in range(2):
        ok, v, ex = env.attempt(g.diagnostics.get_diagnostic, y, 0)
        out[y] = [grids.snapshot(env, a) for a in v] if ok else None
    return out


def prepare(env):
    g = grids.base(env, 2, 1, diagnostics=env.params["diagnostics"])
    names = ["disk_radius", "inclination", "tilt", "fx_map", "fy_map"]
    grids.fill(env, g, names, nan=False)
    shape = tuple(g.parameters.grid_shape)
    for p in grids.cells(env.arr(g.disk_radius.data)):
        env.assume(g.disk_radius.data[p] > 0)
    for name in env.params["masks"]:
        getattr(g, name).set_mask(env.bools("mask_" + name, shape))
    n = env.params["gradients"]
    if n:
        g.gradients = []
        for k in range(n):
            pos = env.params["positions"][k] if env.params["positions"] else None
            x = grids.gradient(env, g, k, position=pos)
            if k != env.params.get("unmeasured"):
                grids.measured(env, x, k)
            if env.params.get("own masks"):
                x.set_mask(env.bools(f"mask{k}", shape))
            g.gradients.append(x)
    if env.params["diagnostics"]:
        g.diagnostics.save_diagnostic(0, 0, env.array("fy", 2), env.array("r", 2))
    g.diagnose_fxfy_resolution()
    return g


def scenario(env):
    env.scratch()
    g = prepare(env)
    was, d = grids.state(env, g), diagnostics_of(env, g)
    was["gradient_fit"] = None
    was["scales"] = None
    g.save(PLACE)
    now = grids.state(env, g)
    now["gradient_fit"] = None
    grids.same_state(env, "saving leaves the grid unchanged", was, now, grids.MOVED)
    ok, _, ex = env.attempt(g.save, PLACE)
    h = env.mods.Shallot.ShallotGrid.load(PLACE, 50)
    if env.params.get("twice"):
        h.save(PLACE + "2")
        h = env.mods.Shallot.ShallotGrid.load(PLACE + "2", 50)
    now = grids.state(env, h)
    now["scales"] = None
    grids.same_state(env, "the grid survives", was, now, grids.MOVED)
    for a, b in zip(g.get_disk_radius(False, False), h.get_disk_radius(False, False)):
        grids.same_array(env, "the grid survives (read)", a, b, grids.MOVED)
    e = diagnostics_of(env, h)
    if d is None or e is None:
        env.check("the diagnostics survive", d is None and e is None)
    else:
        for y in d:
            env.check("the same points have a diagnostic", (d[y] is None) == (e[y] is None))
            for u, v in zip(d[y] or [], e[y] or []):
                grids.same_array(env, "the diagnostics survive", u, v, grids.MOVED)


def continues(env):
    """what is determined after loading"""
    env.scratch()
    x, y, nr = env.params["extent"]
    g = grids.base(env, 2, 2, nr, x=x, y=y)
    g.save(PLACE)
    h = env.mods.Shallot.ShallotGrid.load(PLACE, 50)
    u = env.real("limb_darkening", lo=0, hi=1)
    lc, er = [env.real(f"{n}{k}", olo=0, hi=0.1) for n in ("gradient", "error") for k in (0, 1)], None
    lc, er = lc[:2], lc[2:]
    done = []
    for one in (g, h):
        ok, _, ex = env.attempt(one.set_eclipse_parameters, 2.0, 5.0, u)
        env.check("eclipse parameters can be set", ok)
        ok, _, ex = env.attempt(one.add_gradients, env.np.array([0.6, -0.4]), env.np.array(lc), env.np.array(er))
        if ok:
            one.determine_gradient_fit()
        done.append(ok)
    env.check("the same gradients are accepted", done[0] == done[1])
    grids.same_state(env, "what follows is the same", grids.state(env, g), grids.state(env, h))
    grids.same_array(env, "what follows is the same (mask)", g.get_combined_mask(), h.get_combined_mask())


def scenarios(tier):
    base = {"masks": [], "gradients": 0, "positions": None, "diagnostics": False}
    L = ["the grid survives (disk_radius)"]
    out = []

    def add(name, **k):
        out.append({"name": name, "fn": scenario, "fs": True, "opts": {"float_concrete": True}, "params": dict(base, **k), "labels": L})
    add("cubes")
    add("masks", masks=["disk_radius", "tilt"])
    add("more masks", masks=["inclination", "fx_map", "fy_map"])
    add("gradient", gradients=1)
    add("near gradients", gradients=2, positions=[0.12341, 0.12342])
    add("equal gradients", gradients=2, positions=[0.5, 0.5])
    add("unordered gradients", gradients=2, positions=[0.5, -0.5])
    add("unmeasured gradient", gradients=2, positions=[0.25, 0.25], unmeasured=1)
    add("masked gradients", gradients=1, **{"own masks": True})
    add("diagnostics", diagnostics=True)
    add("twice", gradients=1, masks=["tilt"], diagnostics=True, twice=True)
    extents = {"beyond": ((0.5, 1.5), (0.25, 1.0), 2), "origin": ((0, 1.5), (0, 1.0), 1)}
    if tier != "quick":
        extents["across"] = ((-0.5, 1.0), (-0.25, 1.5), 2)
    for name, e in extents.items():
        out.append({"name": "continued " + name, "fn": continues, "fs": True, "opts": {"float_concrete": True},
                    "params": {"extent": e}, "labels": ["what follows is the same (gradient_fit)"]})
    if tier != "quick":
        add("any gradients", gradients=2)
        add("three gradients", gradients=3, positions=[0.5, 0.5, -0.5])
        add("all", gradients=2, masks=["disk_radius", "inclination", "tilt", "fx_map", "fy_map"],
            positions=[0.1, 0.2], diagnostics=True, **{"own masks": True})
    return out
