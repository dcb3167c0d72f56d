"""Merging rings keeps the transmission profile."""
from . import rings

BOUNDS = ("systems of 1 to 4 rings with every ordered set of real radii and transmissions, every "
          "positive tolerance, every radius")
OUTSIDE = "more than 4 rings; the empty system; tolerances that are not positive"


def scenario(env):
    n = env.params["n"]
    rs, model, geo = rings.system(env, n)
    if env.params["tol"]:
        tol = env.real("tolerance", olo=0, hi=10)
        rs.merge_rings(tol)
    else:
        tol = 1e-6
        rs.merge_rings()
    a, b, c = rs.get_rings_data()
    m = len(a)
    planet, inc, tilt = geo
    for r in rs.rings:
        env.eq("geometry of merged rings", r.inclination, inc)
        env.eq("geometry of merged rings", r.tilt, tilt)
    env.check("never more rings than before", m <= n)
    # expected grouping, written as the definition of a maximal run
    groups = [[0]]
    for i in range(1, n):
        close = env.and_(model[i][0] - model[i - 1][1] < tol, model[i][2] == model[i - 1][2])
        if bool(close):
            groups[-1].append(i)
        else:
            groups.append([i])
    env.check("exactly the touching rings of equal transmission are joined", m == len(groups))
    if m != len(groups):
        return
    for k, g in enumerate(groups):
        env.eq("a merged ring spans its parts", a[k], model[g[0]][0])
        env.eq("a merged ring spans its parts", b[k], model[g[-1]][1])
        env.eq("a merged ring has the transmission of its parts", c[k], model[g[0]][2])
    rings.check_ordered(env, rs, "merged rings stay ordered and disjoint")
    x = env.real("radius", lo=0)
    gap = []
    for i in range(1, n):
        gap.append(env.and_(model[i - 1][1] <= x, x < model[i][0],
                            model[i][0] - model[i - 1][1] < tol))
    env.assume(env.not_(env.or_(*gap)))
    rings.same_profile(env, "transmission away from closed gaps is unchanged",
                       list(zip(a, b, c)), model, x)


def split_merge(env):
    n = env.params["n"]
    rs, model, geo = rings.system(env, n)
    for i in range(1, n):
        env.assume(model[i][2] != model[i - 1][2])
    k = env.choice("d", [2, 3])
    rs.split_rings(k)
    rs.merge_rings()
    rings.check_matches(env, rs, model, geo, "merging undoes splitting")


def scenarios(tier):
    out = []
    for n in range(1, 4 if tier == "quick" else 5):
        out.append({"name": f"merge-{n}", "fn": scenario, "params": {"n": n, "tol": True}})
        if n < 4:
            out.append({"name": f"default-{n}", "fn": scenario, "params": {"n": n, "tol": False}})
    for n in (1, 2):
        out.append({"name": f"split-merge-{n}", "fn": split_merge, "params": {"n": n}})
    return out
