"""common parts of the ring-system checks"""


def assume_ordered(env, inner, outer, trans):
    n = len(inner)
    for i in range(n):
        env.assume(env.and_(inner[i] > 0, inner[i] < outer[i], trans[i] >= 0, trans[i] <= 1))
        if i:
            env.assume(outer[i - 1] <= inner[i])


def system(env, n, prefix=""):
    """a ring system of n ordered, non-overlapping rings (all of them)"""
    inner = env.array(prefix + "inner", n)
    outer = env.array(prefix + "outer", n)
    trans = env.array(prefix + "trans", n)
    inc = env.real(prefix + "inc", lo=0, hi=90)
    tilt = env.real(prefix + "tilt", lo=-180, hi=180)
    planet = env.real(prefix + "planet", lo=0)
    assume_ordered(env, inner, outer, trans)
    rs = env.mods.RingSystem.RingSystem(planet, inner, outer, trans, inc, tilt, 50)
    model = [(inner[i], outer[i], trans[i]) for i in range(n)]
    return rs, model, (planet, inc, tilt)


def check_matches(env, rs, model, geo, label):
    """the system is exactly the list of rings `model`"""
    planet, inc, tilt = geo
    env.check(label + " (count)", rs.get_num_rings() == len(model))
    a, b, c = rs.get_rings_data()
    if len(model) != len(a):
        return
    for i, (x, y, t) in enumerate(model):
        env.eq(label, a[i], x)
        env.eq(label, b[i], y)
        env.eq(label, c[i], t)
        r = rs.rings[i]
        env.eq(label + " (geometry)", r.inclination, inc)
        env.eq(label + " (geometry)", r.tilt, tilt)
    env.eq(label + " (system)", rs.planet_radius, planet)
    env.eq(label + " (system)", rs.inclination, inc)
    env.eq(label + " (system)", rs.tilt, tilt)


def check_ordered(env, rs, label):
    a, b, c = rs.get_rings_data()
    for i in range(len(a)):
        env.lt(label, a[i], b[i])
        if i:
            env.le(label, b[i - 1], a[i])


def ring(env, k):
    r = [env.real(f"ri{k}"), env.real(f"ro{k}"), env.real(f"rt{k}", lo=0, hi=1),
         env.real(f"rinc{k}", lo=0, hi=90), env.real(f"rtilt{k}", lo=-180, hi=180)]
    env.assume(env.and_(r[0] > 0, r[0] < r[1]))
    return env.mods.Ring.Ring(*r), r


def coverage(env, lst, r):
    """transmission at radius r (1 outside every ring); half-open rings"""
    t = 1.0
    for x, y, tr in reversed(lst):
        t = env.ite(env.and_(x <= r, r < y), tr, t)
    return t


def same_profile(env, label, lst1, lst2, r):
    """both lists transmit the same at radius r (edges up to rounding)"""
    a, b = coverage(env, lst1, r), coverage(env, lst2, r)

    def loose():
        near = [abs(r - e) < 1e-6 for x, y, t in lst1 + lst2 for e in (x, y)]
        return env.or_(env.same(a, b), *near)
    env.check(label, env.same(a, b), loose=loose)
