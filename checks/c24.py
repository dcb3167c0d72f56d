"""Input validation accepts exactly what its rule allows."""
BOUNDS = ("numbers: every real, nan and infinity, every pair of bounds, inclusive and exclusive, "
          "with and without the integer requirement; arrays: up to 4 elements of the same kind, "
          "of 1 to 3 (thorough: 4) dimensions; a list of other Python types")
OUTSIDE = "types not listed; bounds that are nan; larger arrays"


def rule(env, x, lo, hi, ex):
    inside = env.and_(lo < x, x < hi) if ex else env.and_(lo <= x, x <= hi)
    # with no finite bound there is nothing to compare nan with
    free = env.and_(env.isnan(x), env.not_(env.or_(env.finite(lo), env.finite(hi))))
    return env.or_(inside, free) if not ex else env.or_(env.and_(inside), free)


def bounds(env):
    return env.real("lower", inf=True), env.real("upper", inf=True), env.flag("exclusive")


def number(env):
    V = env.mods.validate
    lo, hi, ex = bounds(env)
    k = env.choice("kind", ["float", "np", "int"])
    if k == "int":
        x = env.int("x")
        chk = env.flag("integer_only")
    else:
        x = env.real("x", nan=True, inf=True, py=k == "float")
        chk = False
    ok, r, exn = env.attempt(V.number, x, "x", check_integer=chk, lower_bound=lo,
                             upper_bound=hi, exclusive=ex)
    good = env.and_(lo <= hi, rule(env, env.float(x), lo, hi, ex))
    env.check("a number is accepted exactly when it is within bounds",
              good if ok else env.not_(good))
    if ok:
        env.eq("the number is returned unchanged", r, x)
    else:
        env.check("a number out of bounds is a ValueError", isinstance(exn, ValueError))


def integer_only(env):
    V = env.mods.validate
    x = env.real("x", nan=True, inf=True)
    ok, r, exn = env.attempt(V.number, x, "x", check_integer=True)
    env.check("a float is no integer", not ok and isinstance(exn, TypeError))


def array(env):
    V = env.mods.validate
    shape = env.choice("shape", [1, 2, (1, 2), (2, 1, 1), 3, (2, 2), (1, 1, 1, 1)] if env.params["big"]
                       else [1, 2, (1, 2), (2, 1, 1)])
    a = env.array("a", shape, nan=True, inf=True)
    lo, hi, ex = bounds(env)
    which = env.choice("given", ["both", "lower", "upper", "none"])
    kw = {}
    if which in ("both", "lower"):
        kw["lower_bound"] = lo
    if which in ("both", "upper"):
        kw["upper_bound"] = hi
    dims = env.choice("dims", [None, 1, 2, 3])
    typ = env.choice("dtype", [None, "float64", "int64"])
    flat = [x for x in env.arr(a).flat]
    ok, r, exn = env.attempt(V.array, a, "a", exclusive=ex, dtype=typ, num_dimensions=dims, **kw)
    good = env.and_(dims is None or dims == len(a.shape), typ in (None, "float64"))
    if which != "none":
        inf = float("inf")
        l2 = kw.get("lower_bound", -inf)
        h2 = kw.get("upper_bound", inf)
        good = env.and_(good, l2 <= h2, *[rule(env, x, l2, h2, ex) for x in flat])
    env.check("an array is accepted exactly when every element is within bounds",
              good if ok else env.not_(good))
    if ok:
        env.check("the array is returned itself", r is a)
        for x, y in zip(env.arr(r).flat, flat):
            env.eq("validation does not modify the array", x, y)


def int_array(env):
    V = env.mods.validate
    lo, hi, ex = bounds(env)
    n = [env.int(f"n{i}", -50, 50) for i in range(2)]
    a = env.np.array(n)
    ok, r, exn = env.attempt(V.array, a, "a", lower_bound=lo, upper_bound=hi, exclusive=ex,
                             dtype="int64")
    good = env.and_(lo <= hi, *[rule(env, env.float(x), lo, hi, ex) for x in n])
    env.check("an integer array is accepted exactly when within bounds",
              good if ok else env.not_(good))


def others(env):
    V = env.mods.validate
    np = env.np
    objs = ["s", "", None, [1, 2], (1,), {}, 1j, True, False, 3, 2.5, np.zeros(2), np.zeros((2, 2)),
            set(), object]
    i = env.pick("object", len(objs))
    x = objs[i]
    isnum = isinstance(x, (int, float))
    ok, r, exn = env.attempt(V.number, x, "x")
    env.check("only numbers are numbers", ok == isnum and (ok or isinstance(exn, TypeError)))
    ok, r, exn = env.attempt(V.string, x, "x")
    env.check("only strings are strings", ok == isinstance(x, str) and
              (ok and r is x or not ok and isinstance(exn, TypeError)))
    ok, r, exn = env.attempt(V.boolean, x, "x")
    env.check("only booleans are booleans", ok == isinstance(x, bool) and
              (ok and r is x or not ok and isinstance(exn, TypeError)))
    ok, r, exn = env.attempt(V.array, x, "x")
    env.check("only arrays are arrays", ok == (i in (11, 12)) and
              (ok or isinstance(exn, TypeError)))
    ok, r, exn = env.attempt(V.class_object, x, "x", dict, "dict")
    env.check("only instances of a class are accepted for it", ok == isinstance(x, dict) and
              (ok or isinstance(exn, TypeError)))


def shapes(env):
    V = env.mods.validate
    np = env.np
    opts = [(1,), (2,), (3,), (1, 2), (2, 1), (2, 2), ()]
    n = env.choice("count", [0, 1, 2, 3])
    sh = [env.choice(f"shape{i}", opts) for i in range(n)]
    m = env.choice("names", [n, n + 1])
    arrs = [np.ones(s) for s in sh]
    ok, r, exn = env.attempt(V.same_shape_arrays, arrs, ["n"] * m)
    good = n >= 2 and m == n and all(s == sh[0] for s in sh)
    env.check("arrays are accepted together exactly when all shapes agree", ok == good)


def scenarios(tier):
    return [{"name": "number", "fn": number,
             "labels": ["a number is accepted exactly when it is within bounds"]},
            {"name": "integer_only", "fn": integer_only},
            {"name": "array", "fn": array, "params": {"big": tier != "quick"},
             "labels": ["validation does not modify the array"]},
            {"name": "int_array", "fn": int_array},
            {"name": "others", "fn": others},
            {"name": "shapes", "fn": shapes}]
