"""Splitting rings covers exactly what the rings covered."""
from . import rings

BOUNDS = ("systems of 0 to 3 rings (all real radii); one division count 2..4 for all rings, or one "
          "count of 1..3 per ring; also after a previous add or removal")
OUTSIDE = "more rings, more divisions; ringlets narrower than floating point resolution"


def scenario(env):
    n = env.params["n"]
    rs, model, geo = rings.system(env, n)
    if env.params.get("removed") and n:
        rs.remove_ring(0)
        model = model[1:]
        n -= 1
    if env.params["each"]:
        d = [env.choice(f"d{i}", [1, 2, 3]) for i in range(n)]
        arg = env.np.array(d, dtype="int64") if n else env.np.zeros(0, dtype="int64")
    else:
        arg = env.choice("d", [2, 3, 4])
        d = [arg] * n
    rs.split_rings(arg)
    env.check("each ring yields its number of ringlets", rs.get_num_rings() == sum(d))
    want = []
    for (x, y, t), k in zip(model, d):
        w = (y - x) / k
        for j in range(k):
            want.append((x + j * w, y if j == k - 1 else x + (j + 1) * w, t))
    rings.check_matches(env, rs, want, geo, "ringlets tile their ring with equal widths")
    rings.check_ordered(env, rs, "ringlets stay ordered and disjoint")
    a, b, c = rs.get_rings_data()
    r = env.real("radius", lo=0)
    rings.same_profile(env, "transmission at every radius is unchanged",
                       list(zip(a, b, c)), model, r)


def invalid(env):
    rs, model, geo = rings.system(env, 2)
    np = env.np
    arg = env.choice("arg", [1, 0, -3, 2.5, "2", None, np.array([0, 2]), np.array([2, 2, 2]),
                             np.array([2.0, 3.0]), np.array([[2, 2]])])
    ok, _, ex = env.attempt(rs.split_rings, arg)
    env.check("invalid divisions are refused", not ok)
    rings.check_matches(env, rs, model, geo, "a refused split changes nothing")


def scenarios(tier):
    out = [{"name": "invalid", "fn": invalid}]
    for n in range(0, 4):
        if n:
            out.append({"name": f"same-{n}", "fn": scenario, "params": {"n": n, "each": False}})
            out.append({"name": f"each-{n}", "fn": scenario, "params": {"n": n, "each": True}})
    out.append({"name": "removed", "fn": scenario, "params": {"n": 2, "each": False, "removed": 1}})
    return out
