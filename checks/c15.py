"""Grid parts survive saving and loading."""
import os
from . import grids

BOUNDS = ("grid parameters of every extent with up to 3 points per axis, extended or not; properties and "
          "gradients of 2x1x1 points with every real or undefined content, with every mask or none, "
          "measured or not, at every position; diagnostics of up to two points; nothing or any other "
          "version of the part saved to the same place before; every file saved missing or damaged in turn")
OUTSIDE = "the bytes of the .npy format (numpy's own); infinite contents; concurrent writers; full disks"

PLACE = "./saved"


def modules(env):
    m = env.mods
    return m.GridProperty, m.GridPropertyName.GridPropertyName, m.GridPropertyUnit.GridPropertyUnit


def required(path):
    """files a part can not be loaded without, see the property"""
    out = []
    for d, _, names in os.walk(path):
        out += [os.path.join(d, n) for n in sorted(names)
                if "mask" not in n and n != "extended.npy"]
    return out


def same_vectors(env, label, a, b):
    for u, v in zip(a, b):
        grids.same_array(env, label, u, v, grids.MOVED)


def vectors(env, p):
    return [grids.snapshot(env, v) for v in p.get_vectors()]


# ------------------------------------------------------------- parameters

def make_parameters(env, tag, sizes=(1, 2, 3)):
    nx, ny = env.choice("size" + tag, [(a, b) for a in sizes for b in sizes])
    x0, y0 = env.real("x0" + tag), env.real("y0" + tag)
    x1, y1 = env.real("x1" + tag), env.real("y1" + tag)
    top = env.real("rf" + tag, lo=1)
    env.assume(env.and_(x0 < x1, y0 < y1))
    p = env.mods.GridParameters.GridParameters(x0, x1, nx, y0, y1, ny, top, env.choice("nrf" + tag, [1, 2]))
    if env.flag("extended" + tag):
        env.attempt(p.extend_grid)
    return p


def parameters(env):
    env.scratch()
    G = env.mods.GridParameters.GridParameters
    if env.flag("earlier"):
        make_parameters(env, "-earlier", (1, 2)).save(PLACE)
    p = make_parameters(env, "")
    p.save(PLACE)
    was = vectors(env, p)
    q = G.load(PLACE)
    same_vectors(env, "the axes survive", was, vectors(env, q))
    same_vectors(env, "saving leaves the original unchanged", was, vectors(env, p))
    env.check("the shapes survive", tuple(p.grid_shape) == tuple(q.grid_shape)
              and tuple(p.slice_shape) == tuple(q.slice_shape))
    env.check("what can be extended survives", grids.iff(env, p.extendable, q.extendable))
    grids.same_array(env, "the radius factors survive", p.rf, q.rf, grids.MOVED)


# --------------------------------------------------------------- property

def make_property(env, tag, ny=2, position=None):
    P, N, U = modules(env)
    g = grids.base(env, ny, 1)
    shape = tuple(g.parameters.grid_shape)
    data = env.array("data" + tag, shape, nan=True)
    if env.params["part"] == "property":
        x = P.GridProperty(N.TILT, U.DEGREE, data, g.parameters)
    else:
        x = P.GridGradient(data, g.parameters,
                           env.real("position" + tag) if position is None else position)
        kind = env.pick("with measurement" + tag, 2)
        if kind:
            grids.measured(env, x, tag)
    if env.flag("masked" + tag):
        x.set_mask(env.bools("mask" + tag, shape))
    return x


def store(env, x):
    """saves the part; returns where it can be loaded from"""
    if env.params["part"] == "property":
        x.save(PLACE)
        return PLACE
    if not os.path.exists(PLACE):
        env.mods.GridProperty.os.mkdir(PLACE)
    x.save_gradient(PLACE)
    dirs = [d for d in os.listdir(PLACE) if d.startswith("gradient")]
    env.check("a gradient is saved once", len(dirs) == 1)
    return f"{PLACE}/{dirs[0]}"


def load(env, place, other=False):
    P, N, U = modules(env)
    if env.params["part"] == "property":
        name, unit = (N.INCLINATION, U.DEGREE) if other else (N.TILT, U.DEGREE)
        return P.GridProperty.load(place, name, unit)
    return P.GridGradient.load(place)


def part_state(env, x):
    s = [grids.snapshot(env, x.data), grids.snapshot(env, x.mask), vectors(env, x.grid_parameters)]
    if env.params["part"] == "gradient":
        s.append([x.position, x.measured_gradient, x.measured_error, x.orbital_scale,
                  x.transmission_change])
    return s


def same_part(env, label, a, b):
    grids.same_array(env, label + " (values)", a[0], b[0], grids.MOVED)
    grids.same_mask(env, label + " (mask)", a[1], b[1])
    same_vectors(env, label + " (coordinates)", a[2], b[2])
    if len(a) > 3:
        for u, v in zip(a[3], b[3]):
            if u is None or v is None:
                env.check(label + " (measured values)", u is None and v is None)
            else:
                env.eq(label + " (measured values)", u, v, tol=grids.MOVED)


def roundtrip(env):
    env.scratch()
    pos = 0.25 if env.params["part"] == "gradient" and env.params["earlier"] else None
    if env.params["earlier"]:
        store(env, make_property(env, "-earlier", env.choice("rows", [1, 2]), pos))
    x = make_property(env, "", position=pos)
    was = part_state(env, x)
    place = store(env, x)
    same_part(env, "saving leaves the original unchanged", was, part_state(env, x))
    y = load(env, place)
    same_part(env, "the part survives", was, part_state(env, y))
    if env.params["part"] == "property":
        ok, _, ex = env.attempt(load, env, place, True)
        env.check("another property is not found in its place",
                  not ok and isinstance(ex, env.mods.errors.LoadError))


def missing(env):
    """a missing or damaged file"""
    env.scratch()
    x = make_property(env, "", position=0.25)
    place = store(env, x)
    files = required(place)
    f = env.choice("file", files)
    if env.flag("damaged"):
        with open(f, "wb") as fh:
            fh.write(b"no array")
    else:
        os.remove(f)
    ok, _, ex = env.attempt(load, env, place)
    env.check("a missing or damaged file is a LoadError", not ok and
              isinstance(ex, env.mods.errors.LoadError))
    ok, _, ex = env.attempt(load, env, "./nowhere")
    env.check("a missing folder is a LoadError", not ok and isinstance(ex, env.mods.errors.LoadError))


def mismatch(env):
    """coordinates of another size"""
    env.scratch()
    x = make_property(env, "", position=0.25)
    place = store(env, x)
    grids.base(env, 3, 1).parameters.save(place)
    ok, _, ex = env.attempt(load, env, place)
    env.check("values that do not fit the coordinates are a LoadError",
              not ok and isinstance(ex, env.mods.errors.LoadError))


# ------------------------------------------------------------ diagnostics

def make_diagnostics(env, tag):
    D = env.mods.GridDiagnostics.GridDiagnostics
    d = D(env.mods.GridParameters.GridParameters(0, 1, 2, 0, 1, 2, 2, 2))
    stored = {}
    for k in range(env.choice("stored" + tag, [0, 1, 2])):
        fy = env.array(f"fy{k}{tag}", 2, nan=True)
        r = env.array(f"r{k}{tag}", 2, nan=True)
        d.save_diagnostic(k, 1, fy, r)
        stored[k, 1] = (grids.snapshot(env, fy), grids.snapshot(env, r))
    if env.flag("extended" + tag):
        d.extend()
    return d, stored


def diagnostics(env):
    env.scratch()
    D = env.mods.GridDiagnostics.GridDiagnostics
    if env.flag("earlier"):
        make_diagnostics(env, "-earlier")[0].save(PLACE)
    d, stored = make_diagnostics(env, "")
    d.save(PLACE)
    e = D.load(PLACE)
    for y in range(-1, 4):
        for x in range(-1, 4):
            a, b = env.attempt(d.get_diagnostic, y, x), env.attempt(e.get_diagnostic, y, x)
            env.check("the same points have a diagnostic",
                      a[0] == b[0] and (a[0] or type(a[2]) is type(b[2])))
            if a[0] and b[0]:
                for u, v in zip(a[1], b[1]):
                    grids.same_array(env, "the diagnostics survive", u, v, grids.MOVED)
    one = env.np.array([1.0])
    a, b = env.attempt(d.save_diagnostic, 0, 0, one, one), env.attempt(e.save_diagnostic, 0, 0, one, one)
    env.check("whether anything can be stored survives", a[0] == b[0])


def no_diagnostics(env):
    env.scratch()
    d, stored = make_diagnostics(env, "")
    d.save(PLACE)
    f = env.choice("file", required(PLACE))
    if env.flag("damaged"):
        with open(f, "wb") as fh:
            fh.write(b"no array")
    else:
        os.remove(f)
    ok, _, ex = env.attempt(env.mods.GridDiagnostics.GridDiagnostics.load, PLACE)
    env.check("missing or damaged diagnostics are a LoadError",
              not ok and isinstance(ex, env.mods.errors.LoadError))


def no_parameters(env):
    env.scratch()
    make_parameters(env, "", (2,)).save(PLACE)
    f = env.choice("file", required(PLACE))
    if env.flag("damaged"):
        with open(f, "wb") as fh:
            fh.write(b"no array")
    else:
        os.remove(f)
    ok, _, ex = env.attempt(env.mods.GridParameters.GridParameters.load, PLACE)
    env.check("missing or damaged parameters are a LoadError",
              not ok and isinstance(ex, env.mods.errors.LoadError))


def scenarios(tier):
    out = [{"name": "parameters", "fn": parameters, "fs": True, "witness_every": 8,
            "labels": ["the axes survive"]},
           {"name": "parameters-missing", "fn": no_parameters, "fs": True,
            "labels": ["missing or damaged parameters are a LoadError"]},
           {"name": "diagnostics", "fn": diagnostics, "fs": True,
            "labels": ["the diagnostics survive"]},
           {"name": "diagnostics-missing", "fn": no_diagnostics, "fs": True,
            "labels": ["missing or damaged diagnostics are a LoadError"]}]
    for part in ("property", "gradient"):
        for earlier in (False, True):
            out.append({"name": f"{part}{'-again' if earlier else ''}", "fn": roundtrip, "fs": True,
                        "params": {"part": part, "earlier": earlier},
                        "labels": ["the part survives (values)", "the part survives (mask)"]})
        out.append({"name": f"{part}-missing", "fn": missing, "fs": True, "params": {"part": part},
                    "labels": ["a missing or damaged file is a LoadError"]})
        out.append({"name": f"{part}-mismatch", "fn": mismatch, "fs": True, "params": {"part": part},
                    "labels": ["values that do not fit the coordinates are a LoadError"]})
    return out
