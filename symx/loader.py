"""Loads the modules of the code under test from /repo's working tree, either
with symbolic stand-ins for their libraries or with the real ones."""
from __future__ import annotations
import ast
import builtins
import os
import sys
import types

import numpy as np

from . import core, stubs
from .core import SF, SI, SB

REPO = os.environ.get("SYMX_REPO", "/repo")

MODULES = ["errors", "validate", "Ring", "RingSystem", "GridParameters",
           "GridPropertyName", "GridPropertyUnit", "GridProperty",
           "GridDiagnostics", "Shallot"]


class _Calls(ast.NodeTransformer):
    NAMES = {"float": "__sx_float__", "int": "__sx_int__",
             "bool": "__sx_bool__", "type": "__sx_type__",
             "round": "__sx_round__", "print": "__sx_print__",
             "min": "__sx_min__", "max": "__sx_max__", "sum": "__sx_sum__"}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in self.NAMES:
            if node.func.id in self.shadowed:
                return node
            node.func = ast.copy_location(
                ast.Name(self.NAMES[node.func.id], ast.Load()), node.func)
        return node

    def __init__(self, tree):
        self.shadowed = {n.name for n in ast.walk(tree)
                         if isinstance(n, (ast.FunctionDef, ast.ClassDef))}


def sx_float(x=0.0):
    if type(x) in (SF, SI, SB):
        r = core.lift(x)
        return SF(r.v, r.p, r.nan, r.pinf, r.ninf, True)
    if isinstance(x, np.ndarray):
        from .arr import SArr, base
        if type(x) is SArr:
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return sx_float(base(x).flat[0])
    return float(x)


def sx_int(x=0, *a):
    if a:
        return int(x, *a)
    if type(x) is SF:
        r = core.sf_trunc(x)
        return SI(r.v, py=True)
    if type(x) is SI:
        return SI(x.v, py=True)
    if type(x) is SB:
        return SI(x.as_int().v, py=True)
    from .arr import SArr, base
    if type(x) is SArr and x.size == 1:
        return sx_int(base(x).flat[0])
    return int(x)


def sx_bool(x=False):
    if type(x) in (SF, SI, SB):
        return SB(core.to_sb(x).v, py=True)
    return bool(x)


def sx_type(*a):
    if len(a) == 1 and type(a[0]) in (SF, SI, SB):
        return a[0].__class__
    return type(*a)


def sx_round(x, nd=None):
    if type(x) is SF and not x.is_conc():
        from .arr import IMPL
        if nd is None:
            return core.sf_floor(x + core.lift(0.5))
        r = IMPL["round"](x, nd)
        return r
    return round(x, nd) if nd is not None else round(x)


def _fold(args, pick):
    xs = list(args[0]) if len(args) == 1 else list(args)
    return xs, any(type(x) in (SF, SI, SB) for x in xs)


def sx_min(*a, **k):
    if not k:
        xs, s = _fold(a, None)
        if s and all(core.kind(x) in "fib" for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = core.sf_ite(core.to_sb(core.scalar_binop("less", x, r)).v, x, r)
            return r
        return min(xs) if len(a) == 1 else min(*a)
    return min(*a, **k)


def sx_max(*a, **k):
    if not k:
        xs, s = _fold(a, None)
        if s and all(core.kind(x) in "fib" for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = core.sf_ite(core.to_sb(core.scalar_binop("greater", x, r)).v, x, r)
            return r
        return max(xs) if len(a) == 1 else max(*a)
    return max(*a, **k)


def sx_sum(xs, start=0):
    r = start
    for x in xs:
        if type(x) is SB:
            x = x.as_int()
        r = r + x
    return r


HELPERS = {"__sx_float__": sx_float, "__sx_int__": sx_int, "__sx_bool__": sx_bool,
           "__sx_type__": sx_type, "__sx_round__": sx_round,
           "__sx_print__": lambda *a, **k: None, "__sx_min__": sx_min,
           "__sx_max__": sx_max, "__sx_sum__": sx_sum}


class Mods(types.SimpleNamespace):
    pass


def repo_modules():
    return sorted(f[:-3] for f in os.listdir(REPO)
                  if f.endswith(".py") and not f.startswith("test_"))


def load(mode, fsproxy=None):
    """mode 'sym' or 'real'.  Returns a namespace of loaded modules."""
    from . import arr
    names = repo_modules()
    loaded = {}
    lib = {}
    if mode == "sym":
        lib["numpy"] = arr.NPShim()
        lib["math"] = arr.MathShim()
        lib.update(stubs.matplotlib_stubs())
    elif fsproxy is not None:
        lib["numpy"] = stubs.RealNumpyFS(fsproxy)
    lib["tqdm"] = stubs.tqdm_stub()
    if mode == "sym" or fsproxy is not None:
        osp = stubs.OSProxy(mode, fsproxy)
        lib["os"] = osp
        lib["os.path"] = osp.path
        lib["shutil"] = stubs.ShutilProxy(osp)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name in names:
            return get(name)
        if name in lib:
            if "." in name and not fromlist:
                return lib[name.split(".")[0]]
            return lib[name]
        top = name.split(".")[0]
        if top in lib and top in ("matplotlib", "numpy"):
            if top == "numpy" and mode == "sym":
                if name == "numpy.linalg":
                    return lib["numpy"].linalg if fromlist else lib["numpy"]
                return builtins.__import__(name, globals, locals, fromlist, level)
            if top == "matplotlib":
                return stubs.generic_module(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    b = dict(vars(builtins))
    b["__import__"] = imp
    if mode == "sym":
        b.update(HELPERS)
    b["print"] = lambda *a, **k: None

    def get(name):
        if name in loaded:
            return loaded[name]
        path = os.path.join(REPO, name + ".py")
        with open(path) as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = b
        loaded[name] = m
        tree = ast.parse(src, path)
        if mode == "sym":
            tree = ast.fix_missing_locations(_Calls(tree).visit(tree))
        code = compile(tree, path, "exec", dont_inherit=True)
        try:
            exec(code, m.__dict__)
        except BaseException:
            del loaded[name]
            raise
        return m

    ns = Mods()
    for n in MODULES:
        setattr(ns, n, get(n))
    ns.mode = mode
    ns.np = lib.get("numpy", np)
    ns.lib = lib
    return ns
