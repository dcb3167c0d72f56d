"""Reading a grid never changes it."""
from . import grids

BOUNDS = ("grids of 2x1x1 points with every real or undefined content of all cubes and masks, none, one or "
          "two gradients, a fit, diagnostics; every reading operation with every combination of its "
          "switches, alone (quick) and every pair of them in sequence (thorough); every element of "
          "the arrays returned overwritten with any value")
OUTSIDE = "larger grids; arrays the caller still holds from building the grid; plots (C26)"

READS = ["get_disk_radius", "get_inclination", "get_tilt", "get_fx_map", "get_fy_map",
         "get_diagnostic_map", "get_gradient_fit", "get_gradients", "get_grid_point_data",
         "get_combined_mask", "property", "gradient", "print", "print property", "get_vectors",
         "extract_solutions", "determine_closest_grid_point", "diagnostics", "viewer"]


def prepare(env, nan=True):
    n = env.params["gradients"]
    g = grids.base(env, 2, 1, diagnostics=True)
    grids.fill(env, g, nan=nan)
    shape = tuple(g.parameters.grid_shape)
    for name in env.params["masks"]:
        getattr(g, name).set_mask(env.bools("mask_" + name, shape))
    g.set_eclipse_parameters(2.0, 10.0, 0.5)
    if n:
        g.gradients = [grids.gradient(env, g, k, nan=nan) for k in range(n)]
        for x in g.gradients:
            grids.measured(env, x, x is g.gradients[0])
        g.determine_gradient_fit()
    return g


def numbers(x):
    """all arrays in a result"""
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in numbers(y)]
    return [x] if hasattr(x, "shape") and getattr(x, "shape", ()) != () else []


def read(env, g, op, tag=""):
    sw = (env.flag("masked" + tag), env.flag("property_masked" + tag))
    if op in ("print", "print property"):
        x = g if op == "print" else env.choice("which" + tag, [
            g.disk_radius, g.tilt, g.parameters, g.diagnostics] + (g.gradients or []))
        env.attempt(str, x)
        env.attempt(repr, x)
        return None
    if op == "property":
        return g.disk_radius.get_data(sw[0])
    if op == "gradient":
        if not g.gradients:
            return None
        g.gradients[0].get_scaled_gradient()
        return g.gradients[0].get_data(sw[0])
    if op == "get_vectors":
        return g.parameters.get_vectors()
    if op == "get_combined_mask":
        return g.get_combined_mask()
    if op == "get_grid_point_data":
        return g.get_grid_point_data(env.choice("y" + tag, [0, 1]), 0, 0, sw[0])
    if op == "get_gradients" and g.gradients is None:
        return None
    if op == "extract_solutions":
        if g.gradients is None:
            return None
        ok, r, ex = env.attempt(g.extract_solutions)
        return r
    if op == "determine_closest_grid_point":
        ok, r, ex = env.attempt(g.determine_closest_grid_point, 1.0, 45.0, 30.0, 0.75, sw[0])
        return r
    if op == "diagnostics":
        return g.diagnostics.get_diagnostic(0, 0)
    if op == "viewer":
        v = env.mods.GridProperty.GridPropertyViewer(env.axes(), 0, g.disk_radius, sw[0])
        return v.data
    return getattr(g, op)(*sw)


def overwrite(env, result, tag=""):
    v = env.real("scribble" + tag, nan=True)
    for a in numbers(result):
        boolean = str(a.dtype) == "bool"
        for p in grids.cells(a):
            a[p] = env.not_(a[p]) if boolean else v


def plain(env, result):
    return [grids.snapshot(env, a) for a in numbers(result)]


def scenario(env):
    g = prepare(env, nan=env.params.get("nan", True))
    before = grids.state(env, g)
    fy, r = [grids.snapshot(env, a) for a in g.diagnostics.get_diagnostic(0, 0)]
    op = env.params["op"]
    result = read(env, g, op)
    if env.params.get("then"):
        read(env, g, env.choice("next", env.params["then"]), "2")
    grids.same_state(env, "reading leaves the grid unchanged", before, grids.state(env, g))
    was = plain(env, result)
    overwrite(env, result)
    grids.same_state(env, "writing into a returned array leaves the grid unchanged", before,
                     grids.state(env, g))
    for a, b in zip((fy, r), g.diagnostics.get_diagnostic(0, 0)):
        grids.same_array(env, "writing into a returned array leaves the diagnostics unchanged", a, b)
    now = plain(env, read(env, g, op))
    env.check("reading again gives as many arrays", len(was) == len(now))
    for a, b in zip(was, now):
        if str(a.dtype) == "bool":
            grids.same_mask(env, "reading again gives the same", a, b)
        else:
            grids.same_array(env, "reading again gives the same", a, b)


def scenarios(tier):
    out = []
    heavy = ("extract_solutions", "determine_closest_grid_point", "print", "print property", "viewer")
    for op in READS:
        for n in ((0, 1) if tier == "quick" else (0, 1, 2)):
            if n == 0 and op not in ("print", "get_grid_point_data", "get_disk_radius"):
                continue
            p = {"op": op, "gradients": n,
                 "masks": ["disk_radius"] if op in heavy else ["disk_radius", "tilt", "fx_map"],
                 "nan": op not in heavy}
            if tier != "quick" and op not in heavy:
                p["then"] = [x for x in READS if x not in heavy]
            out.append({"name": f"{op}-{n}", "fn": scenario, "params": p,
                        "labels": ["reading leaves the grid unchanged (disk_radius)",
                                   "writing into a returned array leaves the grid unchanged (disk_radius)"]})
    return out
