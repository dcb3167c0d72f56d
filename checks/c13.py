"""Gradients form a list that edits change exactly as asked."""
import itertools
from . import grids

BOUNDS = ("every sequence of 2 (quick) / 3 (thorough) operations (add one or two gradients, remove, set the "
          "eclipse parameters, rescale, fit) on a grid of 1x1x1 points, starting from no or two gradients "
          "with a fit, with every light curve gradient, error, transmission change, velocity and limb "
          "darkening the operation accepts; every array of up to 3 indices, repeated ones included; "
          "rescaling of up to two gradients with every content (2 points)")
OUTSIDE = "more gradients; longer histories; refused operations (C14); fixed times"


def orbital(env, v, u):
    pi = env.np.pi
    return (pi / v) * ((6 - 2 * u) / (12 - 12 * u + 3 * pi * u))


class Model:
    """what the list should hold: one entry per gradient, and the parameters"""

    def __init__(self, env, g):
        self.env, self.g, self.items, self.fit, self.pars, self.n = env, g, [], False, None, 0

    def add(self, count, tag):
        env = self.env
        times = [round(0.5 + 0.25 * (self.n + k), 3) for k in range(count)]
        lc = env.array("lc" + tag, count)
        er = env.array("er" + tag, count)
        L, E = grids.snapshot(env, lc), grids.snapshot(env, er)
        kind = env.pick("given" + tag, 3)
        tr = env.array("tr" + tag, count)
        T = grids.snapshot(env, tr)
        for k in range(count):
            env.assume(env.and_(E[k] > 0, L[k] >= 0, T[k] > 0, T[k] <= 1))
        if kind < 2:
            T = [1.0] * count
        if kind < 1:
            E = [1.0] * count
        if self.pars is not None:
            for k in range(count):
                env.assume(L[k] * orbital(env, *self.pars[1:]) <= T[k])
        ok, _, ex = env.attempt(self.g.add_gradients, env.np.array(times), lc, *[er, tr][:kind])
        env.check("gradients are added", ok)
        if self.pars is None:
            return
        for k in range(count):
            self.items.append([-times[k] / self.pars[0], L[k], orbital(env, *self.pars[1:]), T[k], E[k]])
        self.n += count
        self.fit = False

    def remove(self, tag):
        env, n = self.env, len(self.items)
        if not n:
            env.attempt(self.g.remove_gradients, env.np.array([0]))
            return
        sel = [[i] for i in range(n)]
        sel += [list(c) for c in itertools.combinations(range(n), 2)]
        sel += [[n - 1, 0], [0, 0], [0, n - 1, 0], list(range(n))]
        idx = env.choice("remove" + tag, [s for i, s in enumerate(sel) if s not in sel[:i]])
        ok, _, ex = env.attempt(self.g.remove_gradients, env.np.array(idx))
        env.check("gradients are removed", ok)
        self.items = [x for i, x in enumerate(self.items) if i not in idx]
        self.fit = False

    def parameters(self, tag):
        env = self.env
        D = env.choice("D" + tag, [2.0, 4.0])
        v = env.real("v" + tag, olo=0, hi=1000)
        u = env.real("u" + tag, lo=0, hi=1)
        ok, _, ex = env.attempt(self.g.set_eclipse_parameters, D, v, u)
        env.check("eclipse parameters are set", ok)
        self.pars, self.items, self.fit = (D, v, u), [], False

    def rescale(self, tag):
        env, n = self.env, len(self.items)
        what = env.pick("scale" + tag, 7) + 1
        kw, (D, v, u) = {}, self.pars
        if what & 1:
            kw["transverse_velocity"] = v = env.real("v" + tag, olo=0, hi=1000)
        if what & 2:
            kw["limb_darkening"] = u = env.real("u" + tag, lo=0, hi=1)
        T = [x[3] for x in self.items]
        if what & 4:
            if not n:
                return
            tr = env.array("tr" + tag, n)
            T = grids.snapshot(env, tr)
            for k in range(n):
                env.assume(env.and_(T[k] > 0, T[k] <= 1))
            kw["transmission_changes"] = tr
        new = []
        for k, x in enumerate(self.items):
            o = orbital(env, v, u) if what & 3 else x[2]
            new.append([x[0], x[1], o, T[k], x[4]])
            env.assume(x[1] * o <= T[k])
        ok, _, ex = env.attempt(self.g.update_gradient_scaling, **kw)
        env.check("gradients are rescaled", ok)
        self.pars, self.items = (D, v, u), new
        self.fit = False

    def do_fit(self):
        self.env.attempt(self.g.determine_gradient_fit)
        self.fit = bool(self.items)

    def compare(self, what):
        env, g = self.env, self.g
        got = g.gradients or []
        env.check(f"the gradients are those expected after {what}", len(got) == len(self.items))
        union = None
        for gr, x in zip(got, self.items):
            env.eq(f"the gradients keep their order after {what}", gr.position, x[0])
            for a, b in zip((gr.measured_gradient, gr.orbital_scale, gr.transmission_change,
                             gr.measured_error), x[1:]):
                env.eq(f"the gradients keep their values after {what}", a, b)
            s = gr.get_scaled_gradient()
            d, m = env.arr(gr.data), env.arr(gr.mask)
            for p in grids.cells(d):
                env.check(f"the masks are those of the values after {what}",
                          grids.iff(env, m[p], env.or_(env.isnan(d[p]), d[p] < s)))
            union = m if union is None else union | m
        c = env.arr(g.get_combined_mask())
        for p in grids.cells(c):
            env.check(f"the combined mask is that of the gradients after {what}",
                      grids.iff(env, c[p], union[p] if union is not None else False))
        if not self.fit:
            env.check("no fit of earlier gradients can be read", g.get_gradient_fit() is None)


OPS = ["add", "add two", "remove", "parameters", "rescale"]


def history(env):
    g = grids.base(env, 1, 1)
    m = Model(env, g)
    start = env.params["start"]
    if start != "fresh":
        g.set_eclipse_parameters(2.0, 10.0, 0.5)
        m.pars = (2.0, 10.0, 0.5)
    if start == "two":
        g.add_gradients(env.np.array([0.25, 0.375]), env.np.array([0.5, 1.0]), env.np.array([2.0, 1.0]))
        for t, l, e in ((0.25, 0.5, 2.0), (0.375, 1.0, 1.0)):
            m.items.append([-t / 2.0, l, orbital(env, 10.0, 0.5), 1.0, e])
    for i, op in enumerate(env.params["ops"]):
        tag = str(i)
        if env.params["fits"] and m.items:
            m.do_fit()
        if op == "add":
            m.add(1, tag)
        elif op == "add two":
            m.add(2, tag)
        elif op == "remove":
            m.remove(tag)
        elif op == "parameters":
            m.parameters(tag)
        elif op == "rescale":
            if m.pars is None:
                continue
            m.rescale(tag)
        m.compare(op)


def contents(env):
    """any content: removing and rescaling keeps each gradient's own data"""
    g = grids.base(env, 2, 1)
    n = env.params["gradients"]
    g.set_eclipse_parameters(1.0, 1.0, 0.5)
    g.gradients = [grids.gradient(env, g, k) for k in range(n)]
    for k, x in enumerate(g.gradients):
        grids.measured(env, x, k)
    was = [grids.gradient_state(env, x) for x in g.gradients]
    g.determine_gradient_fit()
    idx = env.ints("index", 2, 0, n - 1)
    I = [int(i) for i in grids.snapshot(env, idx)]
    g.remove_gradients(idx)
    want = [s for k, s in enumerate(was) if k not in I]
    now = [grids.gradient_state(env, x) for x in g.gradients or []]
    env.check("exactly the gradients asked for are removed", len(now) == len(want))
    for a, b in zip(now, want):
        grids.same_gradient(env, "the other gradients are kept", a, b)
    env.check("no fit of earlier gradients can be read", g.get_gradient_fit() is None)
    env.check("without gradients there is no list", (g.gradients is None) == (not want))


def scenarios(tier):
    out = [{"name": f"contents-{n}", "fn": contents, "params": {"gradients": n}}
           for n in ((2, 3) if tier == "quick" else (1, 2, 3, 4))]
    depth = 2 if tier == "quick" else 3
    for start in ("fresh", "set", "two"):
        for ops in itertools.product(OPS, repeat=depth):
            if start != "two" and ops[0] in ("remove", "rescale"):
                continue
            if tier == "quick" and ops[0] == "parameters" and start == "set":
                continue
            if depth == 3 and ops.count("add two") > 1:
                continue
            out.append({"name": f"{start}:{','.join(ops)}", "fn": history,
                        "params": {"start": start, "ops": list(ops), "fits": True}})
    return out
