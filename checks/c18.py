"""Rings of a system never overlap, whatever sequence of edits it saw."""
from . import rings

BOUNDS = ("systems of 0 to 2 (quick) / 3 (thorough) rings with every ordered, non-overlapping "
          "set of real radii; every sequence of 2 edits (add, replace, remove) with every integer "
          "index and every valid ring")
OUTSIDE = "more rings; longer sequences; ring objects modified directly by the caller"


def fits(env, model, i, r, replace):
    cs = []
    if i > 0:
        cs.append(model[i - 1][1] <= r[0])
    j = i + 1 if replace else i
    if j < len(model):
        cs.append(r[1] <= model[j][0])
    return env.and_(*cs)


def edit(env, rs, model, geo, k, ops):
    op = env.choice(f"op{k}", ops)
    i = env.int(f"index{k}", -2, 6)
    if op == "remove":
        ok, _, ex = env.attempt(rs.remove_ring, i)
        good = env.and_(i >= 0, i < len(model))
        r = before = None
    else:
        ring, r = rings.ring(env, k)
        before = list(r)
        f = rs.add_ring if op == "add" else rs.replace_ring
        ok, _, ex = env.attempt(f, i, ring)
        top = len(model) if op == "add" else len(model) - 1
        good = env.and_(i >= 0, i <= top)
        if bool(good):
            i = int(i)
            good = fits(env, model, i, r, op == "replace")
    env.check("an edit is accepted exactly when no rings would overlap",
              good if ok else env.not_(good))
    if not ok:
        env.check("a refused edit is a ValueError", isinstance(ex, ValueError))
        rings.check_matches(env, rs, model, geo, "a refused edit changes nothing")
        if r is not None:
            now = [ring.inner_radius, ring.outer_radius, ring.transmission,
                   ring.inclination, ring.tilt]
            for a, b in zip(now, before):
                env.eq("a refused ring is not modified", a, b)
        return model
    i = int(i)
    model = list(model)
    if op == "remove":
        del model[i]
    elif op == "add":
        model.insert(i, tuple(r[:3]))
    else:
        model[i] = tuple(r[:3])
    rings.check_matches(env, rs, model, geo, "an accepted edit changes the named ring only")
    rings.check_ordered(env, rs, "rings stay ordered and disjoint")
    return model


def scenario(env):
    n = env.params["n"]
    rs, model, geo = rings.system(env, n)
    rings.check_matches(env, rs, model, geo, "construction stores the rings")
    for k in range(env.params["edits"]):
        model = edit(env, rs, model, geo, k, ["add", "replace", "remove"])


def scenarios(tier):
    out = []
    for n in range(0, 3 if tier == "quick" else 4):
        out.append({"name": f"edits-{n}", "fn": scenario,
                    "params": {"n": n, "edits": 2},
                    "labels": ["an edit is accepted exactly when no rings would overlap"]})
    return out
