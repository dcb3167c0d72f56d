"""small helpers shared by the checks"""


def ge(env, a, b):
    return a >= b


def within(env, x, lo, hi):
    return env.and_(x >= lo, x <= hi)


def all_of(env, xs):
    return env.and_(*xs)


def iff(env, a, b):
    return env.and_(env.implies(a, b), env.implies(b, a))
