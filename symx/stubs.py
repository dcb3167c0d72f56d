"""Stand-ins for libraries the code under test calls: matplotlib records what
it is given, tqdm iterates, and os/shutil go to a scratch directory with a
counted step before every mutation (a place where a crash may happen)."""
from __future__ import annotations
import math
import os
import shutil
import types

import numpy as np

from . import core
from .core import EngineStop


class Crash(EngineStop):
    """the process dies here"""


def tqdm_stub():
    m = types.ModuleType("tqdm")

    def tqdm(it=None, *a, **k):
        return it
    m.tqdm = tqdm
    m.trange = lambda n, **k: range(n)
    m.auto = m
    m.notebook = m
    return m


# -------------------------------------------------------------- matplotlib

class _Rec:
    def __init__(self, *a, **k):
        self.args, self.kw = a, k

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Rec()

    def __call__(self, *a, **k):
        return _Rec()


class Patch:
    def __init__(self, **k):
        self.kw = k

    def get_alpha(self):
        return self.kw.get("alpha")

    def get_facecolor(self):
        return self.kw.get("facecolor", self.kw.get("fc"))


class Circle(Patch):
    def __init__(self, xy, radius=5, **k):
        super().__init__(**k)
        self.center = xy
        self.radius = radius

    def get_center(self):
        return self.center

    def get_radius(self):
        return self.radius


class Path:
    MOVETO, LINETO, CURVE3, CURVE4, CLOSEPOLY, STOP = 1, 2, 3, 4, 79, 0

    def __init__(self, vertices, codes=None, *a, **k):
        self.vertices = vertices
        self.codes = codes

    @staticmethod
    def unit_circle():
        from matplotlib.path import Path as P
        p = P.unit_circle()
        return Path(np.array(p.vertices), np.array(p.codes))


class Ellipse(Patch):
    def __init__(self, xy, width, height, angle=0, **k):
        super().__init__(**k)
        self.center, self.width, self.height, self.angle = xy, width, height, angle

    def get_path(self):
        return Path.unit_circle()


class PathPatch(Patch):
    def __init__(self, path, **k):
        super().__init__(**k)
        self._path = path

    def get_path(self):
        return self._path


class Image:
    def __init__(self, ax, data, kw):
        self.axes = ax
        self.data = data
        self.kw = kw

    def set_data(self, d):
        self.data = d

    def get_array(self):
        return self.data

    def get_extent(self):
        return self.kw.get("extent")

    def get_clim(self):
        return self.kw.get("vmin"), self.kw.get("vmax")


class Line:
    def __init__(self, ax, x, y):
        self.ax, self.x, self.y = ax, x, y

    def remove(self):
        self.ax.lines.remove(self)

    def get_xdata(self, *a):
        return np.array([self.x], dtype=object)

    def get_ydata(self, *a):
        return np.array([self.y], dtype=object)


class Axes:
    def __init__(self):
        self.patches = []
        self.lines = []
        self.images = []
        self._xlim = self._ylim = None
        self._title = ""
        self.figure = _Rec()

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def set_xlim(self, *a, **k):
        self._xlim = tuple(a[0]) if len(a) == 1 else tuple(a)

    def set_ylim(self, *a, **k):
        self._ylim = tuple(a[0]) if len(a) == 1 else tuple(a)

    def get_xlim(self):
        return self._xlim

    def get_ylim(self):
        return self._ylim

    def set_title(self, t):
        self._title = t

    def get_title(self):
        return self._title

    def imshow(self, data, **k):
        im = Image(self, data, k)
        self.images.append(im)
        return im

    def get_xticks(self):
        return np.array([0.0, 1.0])

    def plot(self, x, y, *a, **k):
        line = Line(self, x, y)
        self.lines.append(line)
        return [line]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def matplotlib_stubs():
    root = types.ModuleType("matplotlib")
    path = types.ModuleType("matplotlib.path")
    path.Path = Path
    patches = types.ModuleType("matplotlib.patches")
    patches.Ellipse, patches.PathPatch = Ellipse, PathPatch
    patches.Circle, patches.Patch = Circle, Patch
    plt = types.ModuleType("matplotlib.pyplot")
    plt.Axes = Axes
    plt.gca = lambda: Axes()
    plt.subplots = lambda *a, **k: (_Rec(), Axes())
    plt.colorbar = lambda *a, **k: None
    plt.show = lambda *a, **k: None
    plt.figure = lambda *a, **k: _Rec()
    plt.cm = types.SimpleNamespace(get_cmap=lambda *a, **k: None)
    plt.get_cmap = lambda *a, **k: None
    image = types.ModuleType("matplotlib.image")
    image.AxesImage = Image
    bb = types.ModuleType("matplotlib.backend_bases")
    bb.MouseEvent = object
    axes = types.ModuleType("matplotlib.axes")
    axes.Axes = Axes
    root.path, root.patches, root.pyplot = path, patches, plt
    root.image, root.backend_bases, root.axes = image, bb, axes
    return {"matplotlib": root, "matplotlib.path": path,
            "matplotlib.patches": patches, "matplotlib.pyplot": plt,
            "matplotlib.image": image, "matplotlib.backend_bases": bb,
            "matplotlib.axes": axes}


def generic_module(name):
    m = types.ModuleType(name)
    m.__getattr__ = lambda a: _Rec
    return m


# -------------------------------------------------------------------- files

class FS:
    """scratch directory, crash point and directory order of one run."""

    def __init__(self, root, crash_at=None, order=None):
        self.root = os.path.realpath(root)
        self.store = []
        self.count = 0
        self.crash_at = crash_at      # int, SI or None
        self.log = []
        self.armed = False
        self.order = order

    def check(self, p):
        rp = os.path.realpath(os.path.dirname(os.path.abspath(p)) or ".")
        full = os.path.join(rp, os.path.basename(os.path.abspath(p)))
        if full != self.root and not full.startswith(self.root + os.sep):
            raise Crash(f"write outside the scratch directory: {p}")

    def step(self, op, p):
        self.check(p)
        if not self.armed:
            return
        self.log.append((op, os.path.basename(p)))
        here = self.count
        self.count += 1
        if self.crash_at is not None and bool(self.crash_at == here):
            self.armed = False
            raise Crash(op)


class _PathProxy:
    def __init__(self, owner):
        self._o = owner

    def __getattr__(self, n):
        f = getattr(os.path, n)
        if n in ("exists", "isdir", "isfile", "islink", "getsize", "getmtime",
                 "realpath", "abspath", "lexists"):
            return lambda p, *a, **k: f(self._o.rp(p), *a, **k)
        return f


class OSProxy:
    def __init__(self, mode, fs=None):
        self._mode = mode
        self._fs = fs
        self.path = _PathProxy(self)
        self.sep = os.sep
        self.__name__ = "os"

    @property
    def fs(self):
        return self._fs if self._fs is not None else core.C().fs

    def rp(self, p):
        if self._mode == "sym" and isinstance(p, str):
            from . import arr
            return arr.resolve_path(p)
        return p

    def _mut(self, name, p, *a, **k):
        p = self.rp(p)
        if self.fs is None:
            raise Crash(f"file operation {name} outside a file scenario")
        self.fs.step("os." + name, os.fspath(p))
        return getattr(os, name)(p, *a, **k)

    def mkdir(self, p, *a, **k):
        return self._mut("mkdir", p, *a, **k)

    def makedirs(self, p, *a, **k):
        return self._mut("makedirs", p, *a, **k)

    def remove(self, p, *a, **k):
        return self._mut("remove", p, *a, **k)

    unlink = remove

    def rmdir(self, p, *a, **k):
        return self._mut("rmdir", p, *a, **k)

    def rename(self, a, b):
        self.fs.check(self.rp(b))
        return self._mut("rename", a, self.rp(b))

    def replace(self, a, b):
        self.fs.check(self.rp(b))
        return self._mut("replace", a, self.rp(b))

    def listdir(self, p="."):
        r = sorted(os.listdir(self.rp(p)))
        fs = self.fs
        if fs is not None and fs.order is not None:
            r = fs.order(r)
        return r

    def scandir(self, p="."):
        return os.scandir(self.rp(p))

    def walk(self, p, *a, **k):
        return os.walk(self.rp(p), *a, **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(os, n)


class ShutilProxy:
    def __init__(self, osp):
        self._os = osp

    def rmtree(self, p, ignore_errors=False, *a, **k):
        p = self._os.rp(p)
        fs = self._os.fs
        fs.check(os.path.join(p, "x"))
        if not os.path.isdir(p):
            if ignore_errors:
                return
            raise FileNotFoundError(p)
        names = sorted(os.listdir(p))
        if fs.order is not None:
            names = fs.order(names)
        for n in names:
            q = os.path.join(p, n)
            if os.path.isdir(q) and not os.path.islink(q):
                self.rmtree(q)
            else:
                fs.step("rmtree:unlink", q)
                os.unlink(q)
        fs.step("rmtree:rmdir", p)
        os.rmdir(p)

    def move(self, a, b, *x, **k):
        a, b = self._os.rp(a), self._os.rp(b)
        self._os.fs.check(b)
        self._os.fs.step("shutil.move", a)
        return shutil.move(a, b)

    def copytree(self, a, b, *x, **k):
        a, b = self._os.rp(a), self._os.rp(b)
        self._os.fs.step("shutil.copytree", b)
        return shutil.copytree(a, b, *x, **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(shutil, n)


class RealNumpyFS:
    """real numpy whose save is a crash point too (for replays)."""

    def __init__(self, fs):
        self.__dict__["_fs"] = fs

    def save(self, file, arr, *a, **k):
        p = os.fspath(file)
        if not p.endswith(".npy"):
            p += ".npy"
        self._fs.step("np.save", p)
        try:
            self._fs.step("np.save:torn", p)
        except Crash:
            import io
            buf = io.BytesIO()
            np.save(buf, arr, *a, **k)
            with open(p, "wb") as f:
                f.write(buf.getvalue()[:40])
            raise
        np.save(p, arr, *a, **k)

    def __getattr__(self, n):
        return getattr(np, n)
