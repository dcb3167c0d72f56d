"""A ring is drawn as its projected annulus."""
BOUNDS = "every ring (all radii, transmissions, inclinations, tilts) and every centre"
OUTSIDE = ("matplotlib's rendering of the path (the control points of its unit circle are taken as "
           "given); line width and colours")

SIGNS = [(1, 1), (-1, 1), (1, -1), (-1, -1)]


def subpaths(env, patch):
    path = patch.get_path()
    v = env.arr(path.vertices)
    codes = [int(c) for c in env.arr(path.codes)]
    start = [i for i, c in enumerate(codes) if c == 1]
    out = []
    for a, b in zip(start, start[1:] + [len(codes)]):
        out.append(([(v[i][0], v[i][1]) for i in range(a, b)], codes[a:b]))
    return out, v.shape[0] == len(codes) and bool(codes) and codes[0] == 1


def unit(env):
    """control points of matplotlib's circle, as drawn by matplotlib itself"""
    from matplotlib.path import Path
    p = Path.unit_circle()
    return [(float(x), float(y)) for x, y in p.vertices], [int(c) for c in p.codes]


def scenario(env):
    Ring = env.mods.Ring.Ring
    U, C = unit(env)
    # which circle comes first, and in which sense each is traversed
    probe, ok = subpaths(env, Ring(1.0, 2.0, 0.25).get_patch())
    env.check("the patch is one path of two closed curves", ok and len(probe) == 2
              and all(c == C for _, c in probe))
    if len(probe) != 2 or any(c != C for _, c in probe):
        return
    sense, radius = [], []
    for pts, _ in probe:
        hit = [(r, s) for r in (2.0, 1.0) for s in SIGNS
               if all(abs(float(p[0]) - r * s[0] * u[0]) < 1e-9 and
                      abs(float(p[1]) - r * s[1] * u[1]) < 1e-9 for p, u in zip(pts, U))]
        env.check("each boundary of a face-on ring is a circle", len(hit) == 1)
        if not hit:
            return
        radius.append(hit[0][0])
        sense.append(hit[0][1])
    env.check("one boundary is the outer, one the inner circle", sorted(radius) == [1.0, 2.0])
    env.check("the boundaries are traversed in opposite senses",
              sense[0][0] * sense[0][1] == -sense[1][0] * sense[1][1])
    a = env.real("inner", olo=0)
    b = env.real("outer")
    env.assume(a < b)
    t = env.real("transmission", lo=0, hi=1)
    inc = env.real("inclination", lo=0, hi=90)
    tilt = env.real("tilt", lo=-180, hi=180)
    x, y = env.real("x"), env.real("y")
    patch = Ring(a, b, t, inc, tilt).get_patch(x, y)
    env.eq("the opacity is one minus the transmission", patch.get_alpha(), 1 - t)
    subs, ok = subpaths(env, patch)
    env.check("the patch is one path of two closed curves", ok and len(subs) == 2
              and all(c == C for _, c in subs))
    if len(subs) != 2:
        return
    np = env.np
    rad = lambda d: d * (np.pi / 180)
    ci = np.cos(rad(inc))
    ct, st = np.cos(rad(tilt)), np.sin(rad(tilt))
    for k, (pts, _) in enumerate(subs):
        r = b if radius[k] == 2.0 else a
        for (px, py), (ux, uy) in list(zip(pts, U)):
            p, q = r * sense[k][0] * ux, r * ci * (sense[k][1] * uy)
            env.eq("a boundary is the projected and rotated circle", px, x + p * ct - q * st)
            env.eq("a boundary is the projected and rotated circle", py, y + p * st + q * ct)


def scenarios(tier):
    return [{"name": "patch", "fn": scenario,
             "labels": ["a boundary is the projected and rotated circle",
                        "the boundaries are traversed in opposite senses"]}]
