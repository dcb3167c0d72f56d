"""Diagnostics give back what was stored for a grid point."""
BOUNDS = ("grids of up to 2x2 (quick) / 3x3 (thorough) points, a store at every point of the grid or "
          "next to it and one at every point of the grid with every real content, lookup at every integer index, before "
          "and after extension and after saving and loading")
OUTSIDE = "more than two stored diagnostics; larger grids"


def entry(env, k):
    return env.array(f"fy{k}", 2), env.array(f"radius{k}", 2)


def same_entry(env, got, want):
    a, b = [env.arr(w) for w in got]
    if a.shape != (2,) or b.shape != (2,):
        return False
    return env.and_(*[env.same(a[i], want[0][i]) for i in (0, 1)],
                    *[env.same(b[i], want[1][i]) for i in (0, 1)])


def lookup(env, d, store, y, x, label, known=None):
    ok, got, ex = env.attempt(d.get_diagnostic, y, x)

    def agrees(key):
        if key not in store:
            return not ok
        return same_entry(env, got, store[key]) if ok else False
    return ok, ex, agrees


def scenario(env):
    ny, nx = env.choice("size", env.params["sizes"])
    ext = env.params["extended"]
    GP = env.mods.GridParameters.GridParameters(0, 1, nx, 0, 1, ny, 2, 2)
    d = env.mods.GridDiagnostics.GridDiagnostics(GP)
    store = {}
    for k in range(2):
        o = 0 if k else 1
        y = env.choice(f"y{k}", list(range(-o, ny + o)))
        x = env.choice(f"x{k}", list(range(-o, nx + o)))
        fy, r = entry(env, k)
        ok, _, ex = env.attempt(d.save_diagnostic, y, x, fy, r)
        env.check("a diagnostic is stored exactly for points of the grid",
                  ok == (0 <= y < ny and 0 <= x < nx))
        if ok:
            store[y, x] = (fy, r)
        else:
            env.check("a point outside the grid is a ValueError", isinstance(ex, ValueError))
    if ext:
        d.extend()
        ok, _, ex = env.attempt(d.save_diagnostic, 0, 0, *entry(env, 9))
        env.check("nothing can be stored once extended", not ok)
    if env.params["saved"]:
        env.scratch()
        d.save("./diagnostics")
        d = env.mods.GridDiagnostics.GridDiagnostics.load("./diagnostics")
    my, mx = (2 * ny - 1, 2 * nx - 1) if ext else (ny, nx)
    y = env.choice("y", list(range(-1, my + 1)))
    x = env.choice("x", list(range(-1, mx + 1)))
    ok, ex, agrees = lookup(env, d, store, y, x, "")
    if not (0 <= y < my and 0 <= x < mx):
        env.check("a lookup outside the grid is a ValueError", not ok and isinstance(ex, ValueError))
    elif ext:
        # K1: the mirror index is taken about the size instead of the last index
        env.check("the lookup of a mirror image gives the diagnostic of its original",
                  agrees((abs(y - (ny - 1)), abs(x - (nx - 1)))),
                  known=("K1", agrees((abs(y - ny), abs(x - nx)))))
    else:
        env.check("the lookup gives what was last stored for the point", agrees((y, x)))
        if not ok:
            env.check("a point without diagnostic is a KeyError", isinstance(ex, KeyError))


def invalid(env):
    GP = env.mods.GridParameters.GridParameters(0, 1, 2, 0, 1, 2, 2, 2)
    np = env.np
    d = env.mods.GridDiagnostics.GridDiagnostics(GP)
    fy, r = env.choice("content", [
        (np.ones(2), np.ones(3)), (np.ones((1, 2)), np.ones((1, 2))), ([1.0], [1.0]),
        (np.array([1, 2]), np.array([1.0, 2.0])), (np.array([1.0, 2.0]), np.array([1, 2])),
        (None, None)])
    ok, _, ex = env.attempt(d.save_diagnostic, 0, 0, fy, r)
    env.check("contents of unequal shape or wrong type are refused", not ok)
    ok, _, ex = env.attempt(d.get_diagnostic, 0, 0)
    env.check("refused contents are not stored", not ok and isinstance(ex, KeyError))
    ok, _, ex = env.attempt(d.get_diagnostic, env.choice("bad", [0.5, "0", None]), 0)
    env.check("an index that is no integer is refused", not ok and isinstance(ex, TypeError))


def scenarios(tier):
    sizes = [(1, 2), (2, 2)] if tier == "quick" else [(1, 1), (2, 1), (2, 2), (3, 2), (3, 3)]
    out = [{"name": "invalid", "fn": invalid}]
    for ext in (False, True):
        for saved in (False, True):
            out.append({"name": f"lookup-{'extended' if ext else 'plain'}{'-saved' if saved else ''}",
                        "fn": scenario, "fs": saved, "witness_every": 4,
                        "params": {"extended": ext, "saved": saved,
                                   "sizes": sizes if not saved else sizes[:1] + sizes[3:4]}})
    return out
