"""The cube viewer shows the slice its index names."""
BOUNDS = ("cubes of 2 to 4 points per axis with every real or undefined content and every mask, all "
          "three axes, every start index, every sequence of 2 (quick) / 4 (thorough) scroll events, "
          "one (quick) or two marked coordinates anywhere")
OUTSIDE = "rendering; contrast and tick labels; marked positions along the non-linear radius factor axis"

SIZES = [(3, 2, 2), (2, 3, 2), (2, 2, 2)]


class Event:
    def __init__(self, button):
        self.button = button


def make(env, shape, mask):
    m = env.mods
    GP = m.GridParameters.GridParameters
    ny, nx, nr = shape
    params = GP(-1.0, 2.0, nx, -2.0, 3.0, ny, 4.0, nr)
    full = (ny, nx, 2 * nr - 1)
    data = env.array("d", full, nan=True)
    prop = m.GridProperty.GridProperty(m.GridPropertyName.GridPropertyName.TILT,
                                       m.GridPropertyUnit.GridPropertyUnit.DEGREE, data, params)
    if mask:
        prop.set_mask(env.bools("m", full))
    return prop, params, full


def shown(env, viewer, prop, masked, axis, i, label):
    got = env.arr(viewer.image.get_array() if env.sym else
                  viewer.image.get_array().filled(float("nan")))
    d = env.arr(prop.data)
    ny, nx, nr = d.shape
    mk = env.arr(prop.mask) if masked and prop.mask is not None else None
    pos = {0: lambda a, b: (i, a, b), 1: lambda a, b: (a, i, b), 2: lambda a, b: (a, b, i)}[axis]
    want = [s for k, s in enumerate(d.shape) if k != axis]
    env.check(label + " (shape)", tuple(got.shape) == tuple(want))
    if tuple(got.shape) != tuple(want):
        return
    for a in range(want[0]):
        for b in range(want[1]):
            p = pos(a, b)
            v = d[p]
            if mk is not None:
                v = env.ite(mk[p], float("nan"), v)
            env.eq(label, got[a][b], v)


def view(env):
    axis = env.params["axis"]
    shape = SIZES[axis]
    masked = env.flag("masked")
    prop, params, full = make(env, shape, env.flag("has_mask"))
    n = full[axis]
    index = env.int("index", -1, n)
    frozen = env.flag("frozen")
    start = env.flag("given")
    ax = env.axes()
    V = env.mods.GridProperty.GridPropertyViewer
    ok, v, ex = env.attempt(V, ax, axis, prop, masked, index=index if start else None,
                            frozen=frozen)
    if start:
        good = env.and_(index >= 0, index < n)
        env.check("a start index is accepted exactly within the cube", good if ok else env.not_(good))
        if not ok:
            return
        i = int(index)
    else:
        env.check("the default start is within the cube", ok)
        i = n // 2
    values = [float(x) for x in env.arr(params.get_vectors()[axis])]
    shown(env, v, prop, masked, axis, i, "the picture is the named slice at first")
    for k in range(env.params["events"]):
        up = env.flag(f"up{k}")
        v.onscroll(Event("up" if up else "down"))
        if not frozen:
            i = min(i + 1, n - 1) if up else max(i - 1, 0)
        env.check("scrolling moves the index by one within the cube", v.index == i)
        env.check("the title names the coordinate of the slice",
                  f"= {values[i]:.4f}" in ax.get_title())
        side = "" if axis != 2 or i == n // 2 else ("horizontal" if i < n // 2 else "vertical")
        env.check("the title names the branch of the slice",
                  [w for w in ("horizontal", "vertical") if w in ax.get_title()] == [w for w in (side,) if w])
    shown(env, v, prop, masked, axis, i, "the picture is the named slice after scrolling")


def marks(env):
    axis = env.params["axis"]
    shape = SIZES[axis]
    prop, params, full = make(env, shape, False)
    values = [float(x) for x in env.arr(params.get_vectors()[axis])]
    third = abs(values[1] - values[0]) / 3
    cs = []
    for k in range(env.params["points"]):
        c = tuple(env.real(f"c{k}{j}", lo=-5, hi=5) for j in "yxr")
        for w in values:                 # not exactly on the edge
            env.assume(abs(abs(c[axis] - w) - third) > 1e-6)
        cs.append(c)
    ax = env.axes()
    V = env.mods.GridProperty.GridPropertyViewer
    n = full[axis]
    i = env.choice("index", list(range(n)))
    v = V(ax, axis, prop, False, index=i, coordinates=cs)
    for k in range(env.params["events"] + 1):
        if k:
            up = env.flag(f"up{k}")
            v.onscroll(Event("up" if up else "down"))
            i = min(i + 1, n - 1) if up else max(i - 1, 0)
        near = [c for c in cs if bool(abs(c[axis] - values[i]) < third)]
        lines = list(ax.lines)
        env.check("coordinates are marked exactly on their slice", len(lines) == len(near))
        if axis == 2 and len(lines) == len(near):
            for c, ln in zip(near, lines):
                env.eq("a mark is at its coordinate", env.arr(ln.get_xdata())[0], c[1])
                env.eq("a mark is at its coordinate", env.arr(ln.get_ydata())[0], c[0])


def scenarios(tier):
    q = tier == "quick"
    out = []
    for axis in (0, 1, 2):
        out.append({"name": f"scroll-{axis}", "fn": view, "witness_every": 8,
                    "params": {"axis": axis, "events": 2 if q else 4},
                    "labels": ["the picture is the named slice after scrolling"]})
        out.append({"name": f"marks-{axis}", "fn": marks, "witness_every": 8,
                    "params": {"axis": axis, "events": 1 if q else 2, "points": 1 if q else 2},
                    "labels": ["coordinates are marked exactly on their slice"]})
    return out
