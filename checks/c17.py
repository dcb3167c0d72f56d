"""An interrupted grid build resumes to the uninterrupted result."""
from symx.stubs import Crash
from . import grids

BOUNDS = ("builds of 2x1x1 to 3x2x3 grids with 4 stretch samples per direction, starting at the origin or not, with "
          "diagnostics or without; every interruption before any file operation and half way through any "
          "written file, folders removed in either order; followed by other builds, saves and loads, by a second "
          "interruption during the resumed build, or starting over a temporary folder left by another build")
OUTSIDE = ("larger grids; interruptions inside one operating system call; files reordered by the disk; "
           "two builds at the same time; changes of the temporary folder by others")
BUDGET = {"quick": 500, "thorough": 800}

STEPS = 700


def build(env, case, saving):
    x, nx, y, ny, nr, diagnostics = case
    m = env.mods
    p = m.GridParameters.GridParameters(x, x + 1.5, nx, y, y + 1.5, ny, 2.0, nr)
    return m.Shallot.ShallotGrid(p, 4, 50, diagnostics, saving)


def diagnostics_of(env, g):
    """everything retrievable, by grid point"""
    if g.diagnostics is None:
        return None
    out = {}
    ny, nx = g.parameters.slice_shape
    for y in range(ny):
        for x in range(nx):
            ok, v, ex = env.attempt(g.diagnostics.get_diagnostic, y, x)
            out[y, x] = [grids.snapshot(env, a) for a in v] if ok else None
    return out


def value(env, g):
    s = grids.state(env, g)
    s["diagnostics"] = diagnostics_of(env, g)
    return s


def differs(env, a, b):
    """whether two concrete grids are observably different"""
    import numpy as np

    def flat(v):
        if v is None or isinstance(v, (int, float, str, bool)):
            return v
        if isinstance(v, dict):
            return {str(k): flat(w) for k, w in v.items()}
        if isinstance(v, (list, tuple)):
            return [flat(w) for w in v]
        v = np.asarray(v)
        if v.ndim == 0:
            return float(v)
        return [list(v.shape), ["nan" if w != w else round(float(w), 9) for w in v.ravel()]]
    a, b = dict(a), dict(b)
    return flat(a) != flat(b)


def same(env, label, a, b):
    grids.same_state(env, label, a, b)
    u, v = a["diagnostics"], b["diagnostics"]
    env.check(label + " (diagnostics kept)", (u is None) == (v is None))
    for k in u or ():
        env.check(label + " (diagnostics of a point)", (u[k] is None) == (v[k] is None))
        for p, q in zip(u[k] or (), v[k] or ()):
            grids.same_array(env, label + " (diagnostics)", p, q)


def interrupted(env, fs, run):
    """runs until it ends (True) or dies"""
    fs.armed = True
    try:
        run()
    except Crash as ex:
        env.check("files are changed in the working directory only", "outside" not in str(ex))
        return False
    finally:
        fs.armed = False
    return True


def scenario(env):
    case, other = env.params["case"], env.params["other"]
    temp = env.mods.Shallot.TEMP_SAVE_DIR
    Grid = env.mods.Shallot.ShallotGrid
    lo, hi = env.params["steps"]
    at = env.int("crash_at", lo, hi - 1)
    again = env.int("crash_again", 0, STEPS) if env.params["second"] else None
    order = (lambda r: r[::-1]) if env.params["reverse"] else None
    want = env.cached(("reference", case), lambda: build(env, case, False))
    want = value(env, want)
    allowed = [want]
    fs = env.scratch(None, order)
    if other is not None:
        ref = env.cached(("reference", other), lambda: build(env, other, False))
        allowed.append(value(env, ref))
        fs.crash_at = env.params["other_at"]
        if interrupted(env, fs, lambda: build(env, other, True)):
            return
        fs.count = 0
    fs.crash_at = at
    made = []
    done = interrupted(env, fs, lambda: made.append(build(env, case, True)))
    fs.count = 0
    if done:
        same(env, "a saving build gives the same grid", want, value(env, made[0]))
        env.check("a complete build leaves no temporary folder", not env.mods.Shallot.os.path.exists(temp))
        return
    if env.params["between"]:
        fs.crash_at = None
        g = build(env, env.params["between"], False)
        g.save("./elsewhere")
        Grid.load("./elsewhere", 50)
    if again is not None:
        fs.crash_at = again
        if interrupted(env, fs, lambda: env.attempt(Grid.load, temp, 50)):
            return
        fs.count = 0
    fs.crash_at = None
    ok, g, ex = env.attempt(Grid.load, temp, 50)
    env.check("an interrupted build was resumed or refused", True)
    if ok:
        got = value(env, g)
        i = 0
        if len(allowed) == 2 and differs(env, got, allowed[0]):
            i = 1                       # the build before is still the one in the folder
        same(env, "a resumed build gives the same grid", allowed[i], got)


def between_rows(env):
    """dies when it starts on a row: the rows before are saved"""
    case = env.params["case"]
    S = env.mods.Shallot
    temp = S.TEMP_SAVE_DIR
    row = env.int("row", 1, case[3] - 1)
    want = value(env, env.cached(("reference", case), lambda: build(env, case, False)))
    fs = env.scratch(None, None)
    old, seen = S.tqdm, []

    def progress(it, *a, **k):
        seen.append(len(seen))
        if row == seen[-1]:
            raise Crash("row")
        return it
    S.tqdm = progress
    try:
        if interrupted(env, fs, lambda: build(env, case, True)):
            return
    finally:
        S.tqdm = old
    if env.params["between"]:
        g = build(env, env.params["between"], False)
        g.save("./elsewhere")
        S.ShallotGrid.load("./elsewhere", 50)
    ok, g, ex = env.attempt(S.ShallotGrid.load, temp, 50)
    env.check("a build interrupted between rows is resumed", ok)
    if ok:
        same(env, "a resumed build gives the same grid", want, value(env, g))


A = (0.5, 1, 0.5, 3, 1, False)
O = (0.0, 2, 0.0, 2, 2, False)
D = (0.0, 2, 0.0, 2, 1, True)
E = (0.3, 1, 0.2, 2, 1, True)
BIG = (0.0, 2, 0.0, 3, 2, True)


def scenarios(tier):
    out = []

    def add(name, case, other=None, other_at=None, between=None, second=False, reverse=False, spans=None):
        spans = spans or [(k, k + 25) for k in range(0, 200, 25)] + [(200, STEPS)]
        for lo, hi in spans:
            out.append({"name": f"{name} {lo}", "fn": scenario, "fs": True,
                        "opts": {"float_concrete": True}, "witness_every": 8,
                        "params": {"case": case, "other": other, "other_at": other_at, "between": between,
                                   "second": second, "reverse": reverse, "steps": (lo, hi)},
                        "labels": ["an interrupted build was resumed or refused"] if lo == spans[0][0] else []})
    thorough = tier != "quick"
    for name, case, other in (("rows", A, None), ("rows, other builds between", BIG, E)):
        out.append({"name": name, "fn": between_rows, "fs": True, "opts": {"float_concrete": True},
                    "params": {"case": case, "between": other}, "labels": []})
    add("away from the origin", A)
    add("origin", O, reverse=True)
    add("diagnostics", D)
    add("other builds between", E, between=O)
    add("over another build", E, other=A, other_at=90)
    add("interrupted twice", D, second=True, spans=[(66, 68)])
    if thorough:
        add("removed in reverse", E, reverse=True)
        add("large", BIG)
        add("other builds between, diagnostics", D, between=BIG)
        add("over another build, reverse", O, other=E, other_at=120, reverse=True)
        add("interrupted twice, later", A, second=True, spans=[(k, k + 1) for k in (60, 64, 90, 120, 126)])
        add("interrupted twice, reverse", E, second=True, reverse=True, spans=[(k, k + 1) for k in (50, 75, 100)])
    return out
