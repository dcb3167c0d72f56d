"""A refused gradient operation leaves the grid as it was."""
from . import grids

BOUNDS = ("a grid of 2x1x1 (1x1x1 when adding) points with none, one or two gradients and a fit, every refused call of each operation with "
          "arguments of every real value, nan included, in arrays of 1 to 3 elements, of every wrong shape "
          "and of several wrong types; two calls in a row (thorough)")
OUTSIDE = "transmission changes of zero; infinite arguments; more gradients; objects numpy can not convert"


def probe(env, g):
    """the eclipse parameters, as gradients added from now on show them"""
    keep = g.gradients, g.gradient_fit
    g.gradients = None
    ok, _, ex = env.attempt(g.add_gradients, env.np.array([1.0]), env.np.array([0.0]))
    out = [ok]
    if ok and g.gradients:
        out += [g.gradients[0].position, g.gradients[0].orbital_scale]
        v = env.attempt(g.update_gradient_scaling, limb_darkening=0.25)
        out.append(g.gradients[0].orbital_scale)
        g.gradients = None
        g.gradients, g.gradient_fit = keep
        return out
    g.gradients, g.gradient_fit = keep
    return out


def prepare(env):
    n = env.params["gradients"]
    g = grids.base(env, env.params.get("ny", 2), 1)
    # the parameters set are read back at the end only: the probe changes them
    pars = env.params.get("parameters", True)
    if pars:
        g.set_eclipse_parameters(2.0, 10.0, 0.5)
    if n:
        g.gradients = [grids.gradient(env, g, k) for k in range(n)]
        for k, x in enumerate(g.gradients):
            grids.measured(env, x, k)
        if env.params.get("fit", True):
            g.determine_gradient_fit()
    return g


def wrong_arrays(env, name, n):
    """arguments of a wrong type or shape"""
    np = env.np
    return env.choice(name, [[0.5] * n, "half", 0.5, np.array([1] * n), np.array([[0.5] * n])])


def add(env, g, tag):
    np = env.np
    kind = env.params["kind"]
    n = env.params.get("count", 2)
    names = ["times", "lc", "errors", "changes"]
    args = [env.array(a + tag, n, nan=True) for a in names]
    env.assume(env.and_(*[env.not_(grids.snapshot(env, args[3])[k] == 0) for k in range(n)]))
    given = 4
    if kind == "values":
        given = env.pick("given" + tag, 3) + 2
    elif kind == "shape":
        k = env.pick("which" + tag, 4)
        args[k] = env.array("short" + tag, env.choice("length" + tag, [n - 1, n + 1]))
        if k == 3:
            s = grids.snapshot(env, args[3])
            env.assume(env.and_(*[env.not_(v == 0) for v in s]))
    else:
        k = env.pick("which" + tag, 4)
        args[k] = wrong_arrays(env, "wrong" + tag, n)
    return env.attempt(g.add_gradients, *args[:given])


def remove(env, g, tag):
    n = len(g.gradients or [])
    kind = env.params["kind"]
    if kind == "values":
        idx = env.ints("index" + tag, env.choice("count" + tag, [1, 2]), -3, n + 1)
    else:
        np = env.np
        idx = env.choice("wrong" + tag, [[0], 0, "0", np.array([0.0]), np.array([[0]]), None])
    return env.attempt(g.remove_gradients, idx)


def rescale(env, g, tag):
    n = len(g.gradients or [])
    kind = env.params["kind"]
    kw = {}
    what = env.pick("what" + tag, 7) + 1
    if kind == "values":
        if what & 1:
            kw["transverse_velocity"] = env.real("v" + tag, nan=True)
            env.assume(env.not_(kw["transverse_velocity"] == 0))
        if what & 2:
            kw["limb_darkening"] = env.real("u" + tag, nan=True)
        if what & 4:
            kw["transmission_changes"] = tr = env.array("tr" + tag, max(n, 1), nan=True)
            env.assume(env.and_(*[env.not_(v == 0) for v in grids.snapshot(env, tr)]))
    else:
        v = env.choice("velocity" + tag, [None, 5.0, "fast", [5.0]])
        if v is not None:
            kw["transverse_velocity"] = v
        u = env.choice("limb" + tag, [None, 0.25, "dark"])
        if u is not None:
            kw["limb_darkening"] = u
        np = env.np
        t = env.choice("changes" + tag, [None, np.array([0.5] * (n + 1)), [0.5] * n, np.array([1] * max(n, 1)),
                                         np.array([[0.5] * n])])
        if t is not None:
            kw["transmission_changes"] = t
    return env.attempt(g.update_gradient_scaling, **kw)


def parameters(env, g, tag):
    if env.params["kind"] == "values":
        a = [env.real(x + tag, nan=True) for x in ("D", "v", "u")]
    else:
        a = [3.0, 5.0, 0.25]
        a[env.pick("which" + tag, 3)] = env.choice("wrong" + tag, ["a", None, [1.0]])
    return env.attempt(g.set_eclipse_parameters, *a)


OPS = {"add": add, "remove": remove, "rescale": rescale, "parameters": parameters}


def scenario(env):
    g = prepare(env)
    before = grids.state(env, g)
    refused = 0
    for i in range(env.params.get("calls", 1)):
        ok, _, ex = OPS[env.params["op"]](env, g, str(i))
        if ok:
            return
        refused += 1
        grids.same_state(env, "a refused operation changes nothing", before, grids.state(env, g))
    now = probe(env, g)
    if not env.params.get("parameters", True):
        env.check("refused eclipse parameters are not set", len(now) == 1)
        return
    env.check("the eclipse parameters are kept", len(now) == 4)
    if len(now) == 4:
        pi = env.np.pi
        env.eq("the eclipse parameters are kept", now[1], -0.5)
        env.eq("the eclipse parameters are kept", now[2], pi / 10.0 * 5.0 / (6.0 + 1.5 * pi))
        env.eq("the eclipse parameters are kept", now[3], pi / 10.0 * 5.5 / (9.0 + 0.75 * pi))


def single(env):
    """measuring a single gradient"""
    g = grids.base(env, 2, 1)
    x = grids.gradient(env, g, 0)
    if env.flag("measured before"):
        grids.measured(env, x, 9)
    before = grids.gradient_state(env, x)
    if env.params["kind"] == "values":
        a = [env.real(n, nan=True, inf=True) for n in ("measured", "orbital", "transmission", "error")]
        env.assume(env.not_(a[2] == 0))
        a = a[:env.pick("given", 3) + 2]
    else:
        a = [0.5, 0.5, 1.0, 1.0]
        a[env.pick("which", 4)] = env.choice("wrong", ["a", [1.0], env.np.array([1.0, 2.0])])
    ok, _, ex = env.attempt(x.determine_mask, *a)
    if not ok:
        grids.same_gradient(env, "a refused measurement changes nothing", before,
                            grids.gradient_state(env, x))


def scenarios(tier):
    L = ["a refused operation changes nothing (gradients)", "the eclipse parameters are kept"]
    out = []
    for kind in ("values", "types"):
        out.append({"name": f"single-{kind}", "fn": single, "params": {"kind": kind},
                    "labels": ["a refused measurement changes nothing (values)"]})
        for op in OPS:
            for n in (0, 1, 2):
                if op == "remove" and n == 0 or op == "rescale" and n == 0 and kind == "values":
                    continue
                if tier == "quick" and (n == 2 and op in ("parameters", "add")
                                        or n == 0 and op == "add" and kind == "types"):
                    continue
                lab = list(L)
                if n:
                    lab[0] = "a refused operation changes nothing (gradient) (data)"
                p = {"op": op, "kind": kind, "gradients": n}
                if op == "add":
                    p["ny"] = 1
                    p["count"] = 2
                    p["fit"] = n > 0
                if n == 0 and op == "parameters":
                    p["parameters"] = False
                    lab[1] = "refused eclipse parameters are not set"
                out.append({"name": f"{op}-{kind}-{n}", "fn": scenario, "params": p, "labels": lab,
                            "witness_every": 4 if op == "add" else 1})
                if tier != "quick" and n and op in ("rescale", "remove"):
                    out.append({"name": f"{op}-{kind}-{n}-twice", "fn": scenario,
                                "params": dict(p, calls=2), "labels": lab})
    for n in (0, 1):
        out.append({"name": f"add-shape-{n}", "fn": scenario, "labels": L[1:],
                    "params": {"op": "add", "kind": "shape", "gradients": n, "ny": 1, "count": 2}})
    return out
