"""Symbolic arrays: an ndarray subclass holding scalar proxies, and the numpy
stand-in given to the code under test."""
from __future__ import annotations
import math
import os
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import (C, SB, SF, SI, Unsupported, b_and, b_not, b_or, lift, kind,
                   sf_ite, to_sb, to_si, n_eq)

F8 = np.dtype("float64")
I8 = np.dtype("int64")
B1 = np.dtype("bool")
OB = np.dtype("object")


def base(a):
    return a.view(np.ndarray)


def coerce(x, ld):
    k = ld.kind
    if k == "f":
        r = lift(x)
        if r.py:
            r = SF(r.v, r.p, r.nan, r.pinf, r.ninf)
        if ld.itemsize < 8 and r.is_conc() and not r.special:
            r = lift(float(ld.type(r.conc())))
        elif ld.itemsize < 8 and not r.is_conc():
            r = narrowed(r, 24 if ld.itemsize == 4 else 11)
        return r
    if k == "b":
        r = to_sb(x)
        return SB(r.v) if r.py else r
    if k in "iu":
        r = core.cast_scalar(x, I8)
        return SI(r.v)
    if type(x) in (SF, SI, SB):
        return x
    return x


def narrowed(x, bits):
    """rounded to a shorter format: any value within its relative precision
    (overflow and underflow are left out)"""
    z = C().fresh("narrow")
    a, b = SF(z, x.p), SF(x.v, x.p)
    C().axiom([z], (abs(a - b) * SF(Fraction(2) ** bits) <= abs(b)).v)
    r = SF(z, x.p, x.nan, x.pinf, x.ninf)
    return r


def is_sym_obj(x):
    return type(x) in (SF, SI, SB)


def guess_ld(objs):
    ks = set()
    for o in objs:
        k = kind(o)
        if k == "o":
            return OB
        ks.add(k)
    if "f" in ks:
        return F8
    if "i" in ks:
        return I8
    if "b" in ks:
        return B1
    return F8


class SArr(np.ndarray):
    __array_priority__ = 1000

    def __new__(cls, *a, **k):
        raise Unsupported("direct SArr construction")

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, "_ld", OB)

    @property
    def dtype(self):
        return self._ld

    # ---- element access
    def __getitem__(self, idx):
        idx = norm_index(idx)
        if isinstance(idx, MaskIdx):
            if idx.mask.shape == self.shape:
                return SComp([x for x in base(self).flat],
                             [SB(m.v) for m in base(idx.mask).flat], self._ld)
            idx = idx.fork()
        elif isinstance(idx, tuple) and any(isinstance(i, MaskIdx) for i in idx):
            idx = tuple(i.fork() if isinstance(i, MaskIdx) else i for i in idx)
        r = base(self)[idx]
        if isinstance(r, np.ndarray):
            return wrap(r, self._ld)
        return r

    def __setitem__(self, idx, val):
        idx = norm_index(idx)
        if isinstance(idx, MaskIdx):
            m = idx.mask
            if isinstance(val, SComp):
                if m.shape == self.shape and val.same_mask([x for x in base(m).flat]):
                    bs = base(self)
                    for k, pos in enumerate(np.ndindex(*self.shape)):
                        bs[pos] = coerce(sf_ite(val.mask[k], coerce(val.elems[k], self._ld)
                                                if self._ld.kind != "O" else val.elems[k],
                                                bs[pos]), self._ld)
                    return
                val = val.materialise()
            elif m.shape == self.shape and (np.ndim(val) == 0 if not is_sym_obj(val) else True):
                v = scalar_of(val)
                bs = base(self)
                v = coerce(v, self._ld)
                bm = base(m)
                for pos in np.ndindex(*self.shape):
                    bs[pos] = coerce(sf_ite(bm[pos], v, bs[pos]), self._ld)
                return
            idx = idx.fork()
        elif isinstance(idx, tuple) and any(isinstance(i, MaskIdx) for i in idx):
            idx = tuple(i.fork() if isinstance(i, MaskIdx) else i for i in idx)
        if isinstance(val, SComp):
            val = val.materialise()
        bs = base(self)
        if self._ld.kind == "O":
            if isinstance(val, np.ndarray):
                bs[idx] = base(val)
            else:
                bs[idx] = val
            return
        if is_sym_obj(val) or np.isscalar(val) or val is None:
            if val is None:
                raise TypeError("float() argument must be a string or a real "
                                "number, not 'NoneType'")
            if isinstance(val, str):
                raise ValueError("could not convert string to float")
            v = coerce(val, self._ld)
            tgt = bs[idx]
            if isinstance(tgt, np.ndarray):
                w = np.empty((), dtype=object)
                w[()] = v
                bs[idx] = w
            else:
                bs[idx] = v
            return
        a = to_arr(val)
        w = np.empty(a.shape, dtype=object)
        ab = base(a)
        for pos in np.ndindex(*a.shape):
            w[pos] = coerce(ab[pos], self._ld)
        if w.ndim == 0 and not isinstance(bs[idx], np.ndarray):
            bs[idx] = w[()]
        elif w.size == 1 and not isinstance(bs[idx], np.ndarray):
            bs[idx] = w.flat[0]
        else:
            bs[idx] = w

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return iter([self[i] for i in range(self.shape[0])])

    def __contains__(self, x):
        return bool(IMPL["any"](self == x))

    def item(self, *a):
        r = base(self).item(*a)
        return r.item() if is_sym_obj(r) else r

    def tolist(self):
        def go(a):
            if a.ndim == 0:
                x = a[()]
                return x.item() if is_sym_obj(x) else x
            return [go(a[i]) if a.ndim > 1 else
                    (a[i].item() if is_sym_obj(a[i]) else a[i])
                    for i in range(a.shape[0])]
        return go(base(self))

    def __bool__(self):
        if self.size == 1:
            return bool(base(self).flat[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element"
                         " is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(base(self).flat[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(base(self).flat[0])

    def __index__(self):
        if self.size != 1 or self._ld.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return base(self).flat[0].__index__()

    def __copy__(self):
        return wrap(base(self).copy(), self._ld)

    def __deepcopy__(self, memo):
        b = np.empty(self.shape, dtype=object)
        import copy
        for pos in np.ndindex(*self.shape):
            b[pos] = copy.deepcopy(base(self)[pos], memo)
        return wrap(b, self._ld)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    # ---- methods
    def astype(self, dtype, *a, **k):
        return astype(self, dtype)

    def copy(self, order="C"):
        return wrap(base(self).copy(), self._ld)

    def view(self, *a, **k):
        if a and a[0] is np.ndarray:
            return np.ndarray.view(self, np.ndarray)
        return np.ndarray.view(self)

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return IMPL["sum"](self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return IMPL["prod"](self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return IMPL["mean"](self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, ddof=0, **k):
        return IMPL["std"](self, axis=axis, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return IMPL["var"](self, axis=axis, ddof=ddof)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return IMPL["min"](self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return IMPL["max"](self, axis=axis, keepdims=keepdims)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return IMPL["any"](self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return IMPL["all"](self, axis=axis, keepdims=keepdims)

    def argmin(self, axis=None, **k):
        return IMPL["argmin"](self, axis=axis)

    def argmax(self, axis=None, **k):
        return IMPL["argmax"](self, axis=axis)

    def argsort(self, axis=-1, **k):
        return IMPL["argsort"](self, axis=axis)

    def sort(self, axis=-1, **k):
        base(self)[...] = base(IMPL["sort"](self, axis=axis))

    def cumsum(self, axis=None, **k):
        return IMPL["cumsum"](self, axis=axis)

    def nonzero(self):
        return IMPL["nonzero"](self)

    def clip(self, lo=None, hi=None, **k):
        return IMPL["clip"](self, lo, hi)

    def dot(self, o):
        return IMPL["dot"](self, o)

    def __matmul__(self, o):
        return IMPL["matmul"](self, o)

    def __rmatmul__(self, o):
        return IMPL["matmul"](o, self)

    def round(self, decimals=0, out=None):
        return IMPL["round"](self, decimals)

    def take(self, indices, axis=None, **k):
        return IMPL["take"](self, indices, axis=axis)

    def repeat(self, repeats, axis=None):
        return wrap(base(self).repeat(conc_index(repeats), axis), self._ld)

    def conj(self):
        return self

    @property
    def real(self):
        return self

    @property
    def itemsize(self):
        return self._ld.itemsize

    @property
    def nbytes(self):
        return self._ld.itemsize * self.size

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    @property
    def flat(self):
        return iter([x for x in base(self).flat])

    def __repr__(self):
        return f"SArr({base(self).tolist()!r}, {self._ld})"

    __str__ = __repr__

    def __format__(self, spec):
        if self.ndim == 0:
            return format(base(self)[()], spec)
        return repr(self)

    # ---- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__":
            return ufunc_call(ufunc.__name__, inputs, kw)
        if method == "reduce":
            return ufunc_reduce(ufunc.__name__, inputs[0], kw)
        if method == "accumulate":
            if ufunc.__name__ == "add":
                return IMPL["cumsum"](inputs[0], axis=kw.get("axis", 0))
        if method == "outer":
            a, b = to_arr(inputs[0]), to_arr(inputs[1])
            return ufunc_call(ufunc.__name__, (a.reshape(a.shape + (1,) * b.ndim), b), {})
        raise Unsupported(f"ufunc method {ufunc.__name__}.{method}")

    def __array_function__(self, func, types, args, kw):
        f = IMPL.get(func.__name__)
        if f is not None:
            return f(*args, **kw)
        return fallback(func, args, kw)


class SComp:
    """values selected by a symbolic mask: a 1-d array of unknown length."""
    _scomp = True
    __array_priority__ = 2000

    def __init__(self, elems, mask, ld):
        self.elems = list(elems)
        self.mask = list(mask)
        self._ld = ld

    @property
    def __class__(self):
        return SArr

    @property
    def dtype(self):
        return self._ld

    @property
    def ndim(self):
        return 1

    def same_mask(self, other):
        if len(other) != len(self.mask):
            return False
        for a, b in zip(self.mask, other):
            r = core.b_eq(a.v, b.v)
            if r is not True:
                return False
        return True

    def materialise(self):
        sel = [e for e, m in zip(self.elems, self.mask) if bool(m)]
        return from_list(sel, self._ld)

    def like(self, elems, ld):
        return SComp(elems, self.mask, ld)

    def astype(self, dt, **k):
        dt = np.dtype(dt)
        return self.like([coerce(e, dt) for e in self.elems], dt)

    def copy(self):
        return self.like(self.elems, self._ld)

    def any(self, axis=None, **k):
        return SB(b_or(*[b_and(m.v, to_sb(e).v) for e, m in zip(self.elems, self.mask)]))

    def all(self, axis=None, **k):
        return SB(b_and(*[b_or(b_not(m.v), to_sb(e).v) for e, m in zip(self.elems, self.mask)]))

    def sum(self, axis=None, **k):
        r = SI(0) if self._ld.kind in "ib" else SF(Fraction(0))
        for e, m in zip(self.elems, self.mask):
            e2 = e.as_int() if type(e) is SB else e
            z = SI(0) if kind(e2) == "i" else SF(Fraction(0))
            r = r + sf_ite(m.v, e2, z)
        return r

    @property
    def size(self):
        r = SI(0)
        for m in self.mask:
            r = r + m.as_int()
        return r

    @property
    def shape(self):
        return (self.size.__index__(),)

    def __len__(self):
        return self.size.__index__()

    def __iter__(self):
        return iter(self.materialise())

    def __getitem__(self, i):
        return self.materialise()[i]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__":
            return ufunc_call(ufunc.__name__, inputs, kw)
        if method == "reduce":
            return ufunc_reduce(ufunc.__name__, inputs[0], kw)
        raise Unsupported("SComp ufunc method")

    def __array_function__(self, func, types, args, kw):
        f = IMPL.get(func.__name__)
        if f is not None:
            return f(*args, **kw)
        return fallback(func, args, kw)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.materialise(), name)

    def __bool__(self):
        return bool(self.materialise())


def _scomp_op(name, rev=False):
    if rev:
        return lambda self, o: ufunc_call(name, (o, self), {})
    return lambda self, o: ufunc_call(name, (self, o), {})


for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"),
               ("truediv", "true_divide"), ("pow", "power"), ("and", "bitwise_and"),
               ("or", "bitwise_or"), ("xor", "bitwise_xor"),
               ("floordiv", "floor_divide"), ("mod", "remainder")):
    setattr(SComp, f"__{_n}__", _scomp_op(_u))
    setattr(SComp, f"__r{_n}__", _scomp_op(_u, True))
for _n, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"),
               ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")):
    setattr(SComp, f"__{_n}__", _scomp_op(_u))
SComp.__neg__ = lambda s: ufunc_call("negative", (s,), {})
SComp.__abs__ = lambda s: ufunc_call("absolute", (s,), {})
SComp.__invert__ = lambda s: ufunc_call("invert", (s,), {})


class MaskIdx:
    def __init__(self, mask):
        self.mask = mask

    def fork(self):
        out = np.zeros(self.mask.shape, dtype=bool)
        for pos in np.ndindex(*self.mask.shape):
            out[pos] = bool(base(self.mask)[pos])
        return out


def norm_index(idx):
    if isinstance(idx, tuple) and type(idx) is tuple:
        return tuple(norm_index(i) for i in idx)
    if type(idx) is SI:
        return idx.__index__()
    if type(idx) is SB:
        return bool(idx)
    if type(idx) is SF:
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                         "numpy.newaxis (`None`) and integer or boolean arrays "
                         "are valid indices")
    if type(idx) is SComp:
        idx = idx.materialise()
    if type(idx) is SArr:
        k = idx._ld.kind
        if k == "b":
            vals = [m.v for m in base(idx).flat]
            if all(isinstance(v, bool) for v in vals):
                return np.array(vals, dtype=bool).reshape(idx.shape)
            return MaskIdx(idx)
        if k in "iu":
            return np.array([x.__index__() for x in base(idx).flat],
                            dtype=int).reshape(idx.shape)
        if idx.size == 0:
            return np.zeros(idx.shape, dtype=int)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if type(idx) is slice:
        f = lambda x: x.__index__() if type(x) is SI else x
        return slice(f(idx.start), f(idx.stop), f(idx.step))
    if isinstance(idx, list):
        if any(is_sym_obj(x) for x in idx):
            return norm_index(to_arr(idx))
    return idx


def conc_index(x):
    if type(x) is SI:
        return x.__index__()
    if type(x) is SArr:
        if x.ndim == 0:
            return int(x)
        return np.array([e.__index__() for e in base(x).flat], dtype=int).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return type(x)(conc_index(e) for e in x)
    return x


def wrap(b, ld):
    r = np.ndarray.view(b, SArr)
    r._ld = ld
    return r


def from_list(lst, ld):
    b = np.empty(len(lst), dtype=object)
    for i, x in enumerate(lst):
        b[i] = coerce(x, ld)
    return wrap(b, ld)


def scalar_of(x):
    if is_sym_obj(x) or np.isscalar(x):
        return x
    if type(x) is SArr and x.ndim == 0:
        return base(x)[()]
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x[()]
    return x


def lift_real(a):
    """plain ndarray -> SArr"""
    k = a.dtype.kind
    b = np.empty(a.shape, dtype=object)
    if k == "O":
        b[...] = a
        return wrap(b, OB)
    if k in "SU":
        raise Unsupported("string array")
    ld = F8 if k == "f" else I8 if k in "iu" else B1
    if k == "f" and a.dtype.itemsize < 8:
        ld = a.dtype
    for pos in np.ndindex(*a.shape):
        b[pos] = coerce(a[pos], ld)
    return wrap(b, ld)


def to_arr(x, dtype=None, copy=False):
    """np.array semantics"""
    if type(x) is SComp:
        x = x.materialise()
    if type(x) is SArr:
        r = x
        if dtype is not None and np.dtype(dtype) != x._ld:
            return astype(x, dtype)
        return r.copy() if copy else r
    if isinstance(x, np.ndarray):
        r = lift_real(x)
        return r if dtype is None else astype(r, dtype)
    if is_sym_obj(x) or np.isscalar(x):
        b = np.empty((), dtype=object)
        if isinstance(x, (str, bytes)):
            return np.array(x)
        ld = np.dtype(dtype) if dtype is not None else guess_ld([x])
        b[()] = coerce(x, ld)
        return wrap(b, ld)
    if isinstance(x, (list, tuple, range)) or (hasattr(x, "__len__") and
                                                hasattr(x, "__getitem__")
                                                and not isinstance(x, dict)):
        items = list(x)
        if not items:
            ld = F8 if dtype is None else np.dtype(dtype) if dtype_ok(dtype) else OB
            return wrap(np.empty((0,), dtype=object), ld)
        if all(is_sym_obj(i) or np.isscalar(i) for i in items):
            if any(isinstance(i, (str, bytes)) for i in items):
                return np.array(items)
            ld = np.dtype(dtype) if dtype is not None else guess_ld(items)
            return from_list(items, ld)
        if all(isinstance(i, (list, tuple, np.ndarray)) or is_sym_obj(i)
               or np.isscalar(i) or type(i) is SComp for i in items):
            sub = [to_arr(i) for i in items]
            if any(s.shape != sub[0].shape for s in sub):
                raise ValueError("setting an array element with a sequence. The "
                                 "requested array has an inhomogeneous shape")
            ld = promote([s._ld for s in sub]) if dtype is None else np.dtype(dtype)
            b = np.empty((len(sub),) + sub[0].shape, dtype=object)
            for i, s in enumerate(sub):
                for pos in np.ndindex(*s.shape):
                    b[(i,) + pos] = coerce(base(s)[pos], ld)
            return wrap(b, ld)
        b = np.empty(len(items), dtype=object)
        for i, it in enumerate(items):
            b[i] = it
        return wrap(b, OB)
    b = np.empty((), dtype=object)
    b[()] = x
    return wrap(b, OB)


def dtype_ok(dt):
    try:
        np.dtype(dt)
        return True
    except TypeError:
        return False


def promote(lds):
    ks = {l.kind for l in lds}
    if "O" in ks:
        return OB
    if "f" in ks:
        return F8
    if ks & set("iu"):
        return I8
    return B1


def astype(a, dtype):
    if dtype is float or dtype is None:
        ld = F8
    elif dtype is int:
        ld = I8
    elif dtype is bool:
        ld = B1
    else:
        ld = np.dtype(dtype)
    if ld.kind in "SU":
        raise Unsupported("string dtype")
    b = np.empty(a.shape, dtype=object)
    src = base(a)
    for pos in np.ndindex(*a.shape):
        x = src[pos]
        if a._ld.kind == "O" and ld.kind == "f" and not is_sym_obj(x):
            x = float(x)
        b[pos] = coerce(x, ld)
    return wrap(b, ld)


# --------------------------------------------------------------------------
# ufuncs

def _bool2(f):
    def g(a, b):
        return SB(f(to_sb(a).v, to_sb(b).v))
    return g


def _isnan(x):
    if type(x) is SF:
        return SB(x.nan)
    if kind(x) == "f":
        return SB(x != x)
    if kind(x) in "ib":
        return SB(False)
    raise TypeError("ufunc 'isnan' not supported for the input types")


def _isinf(x):
    return SB(lift(x).inf)


def _isfinite(x):
    return SB(lift(x).fin)


def _neg(x):
    return -lift(x) if kind(x) == "f" else int_neg(x)


def int_neg(x):
    return -to_si(x)


def _bw(f, fi):
    def g(a, b):
        if kind(a) == "b" and kind(b) == "b":
            return SB(f(to_sb(a).v, to_sb(b).v))
        if kind(a) in "ib" and kind(b) in "ib":
            return SI(fi(to_si(a).__index__(), to_si(b).__index__()))
        raise TypeError("ufunc 'bitwise' not supported for the input types")
    return g


def _opaque(name):
    f = getattr(np, name)

    def g(*xs):
        return lift(f(*[np.float64(float(x)) for x in xs]))
    return g


def _add(a, b):
    if kind(a) == "b" and kind(b) == "b":
        return SB(b_or(to_sb(a).v, to_sb(b).v))
    return core.scalar_binop("add", a, b)


def _mul(a, b):
    if kind(a) == "b" and kind(b) == "b":
        return SB(b_and(to_sb(a).v, to_sb(b).v))
    return core.scalar_binop("multiply", a, b)


def _subtract(a, b):
    if kind(a) == "b" and kind(b) == "b":
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    return core.scalar_binop("subtract", a, b)


def _sb(name):
    return lambda a, b: core.scalar_binop(name, a, b)


def _eq(a, b):
    if kind(a) == "o" or kind(b) == "o":
        return SB(bool(a == b))
    if kind(a) == "b" and kind(b) == "b":
        return SB(core.b_eq(to_sb(a).v, to_sb(b).v))
    return core.scalar_binop("equal", a, b)


def _ne(a, b):
    return ~_eq(a, b)


def _abs(x):
    return abs(lift(x)) if kind(x) == "f" else abs(to_si(x))


def _invert(x):
    if kind(x) == "b":
        return ~to_sb(x)
    return ~to_si(x)


def _minmax(f):
    def g(a, b):
        if kind(a) == "b" and kind(b) == "b":
            a, b = to_sb(a), to_sb(b)
            return SB(b_and(a.v, b.v) if f is core.sf_min else b_or(a.v, b.v))
        return f(a, b)
    return g


def _floor_f(x):
    return core.sf_floor(lift(x)).to_sf()


# name -> (function, result kind: 'p' promote, 'f' float, 'b' bool)
UF = {
    "add": (_add, "p"), "subtract": (_subtract, "p"), "multiply": (_mul, "p"),
    "true_divide": (_sb("true_divide"), "f"), "divide": (_sb("true_divide"), "f"),
    "power": (_sb("power"), "p"), "float_power": (_sb("power"), "f"),
    "floor_divide": (_sb("floor_divide"), "p"),
    "remainder": (_sb("remainder"), "p"), "mod": (_sb("remainder"), "p"),
    "less": (_sb("less"), "b"), "greater": (_sb("greater"), "b"),
    "less_equal": (_sb("less_equal"), "b"),
    "greater_equal": (_sb("greater_equal"), "b"),
    "equal": (_eq, "b"), "not_equal": (_ne, "b"),
    "logical_and": (_bool2(b_and), "b"), "logical_or": (_bool2(b_or), "b"),
    "logical_xor": (_bool2(lambda a, b: b_not(core.b_eq(a, b))), "b"),
    "logical_not": (lambda x: ~to_sb(x), "b"),
    "bitwise_and": (_bw(b_and, lambda a, b: a & b), "p"),
    "bitwise_or": (_bw(b_or, lambda a, b: a | b), "p"),
    "bitwise_xor": (_bw(lambda a, b: b_not(core.b_eq(a, b)), lambda a, b: a ^ b), "p"),
    "invert": (_invert, "p"), "bitwise_not": (_invert, "p"),
    "negative": (_neg, "p"), "positive": (lambda x: x, "p"),
    "absolute": (_abs, "p"), "fabs": (lambda x: abs(lift(x)), "f"),
    "sqrt": (core.sf_sqrt, "f"), "square": (lambda x: _mul(x, x), "p"),
    "reciprocal": (lambda x: core.scalar_binop("true_divide", SF(Fraction(1)), lift(x)), "f"),
    "hypot": (core.sf_hypot, "f"), "arctan2": (core.sf_arctan2, "f"),
    "arctan": (core.sf_arctan, "f"), "arccos": (core.sf_arccos, "f"),
    "arcsin": (core.sf_arcsin, "f"), "cos": (core.sf_cos, "f"),
    "sin": (core.sf_sin, "f"), "tan": (core.sf_tan, "f"),
    "deg2rad": (core.sf_deg2rad, "f"), "radians": (core.sf_deg2rad, "f"),
    "rad2deg": (core.sf_rad2deg, "f"), "degrees": (core.sf_rad2deg, "f"),
    "minimum": (_minmax(core.sf_min), "p"), "maximum": (_minmax(core.sf_max), "p"),
    "fmin": (core.sf_fmin, "p"), "fmax": (core.sf_fmax, "p"),
    "isnan": (_isnan, "b"), "isinf": (_isinf, "b"), "isfinite": (_isfinite, "b"),
    "sign": (core.sf_sign, "p"), "signbit": (lambda x: core.scalar_binop("less", x, SF(Fraction(0))), "b"),
    "floor": (_floor_f, "f"), "ceil": (lambda x: -_floor_f(-lift(x)), "f"),
    "trunc": (lambda x: core.sf_trunc(lift(x)).to_sf(), "f"),
    "rint": (lambda x: core.sf_floor(lift(x) + SF(Fraction(1, 2))).to_sf(), "f"),
    "conjugate": (lambda x: x, "p"),
    "copysign": (lambda a, b: sf_ite(core.sf_lt(lift(b), SF(Fraction(0))), -abs(lift(a)), abs(lift(a))), "f"),
}
for _n in ("exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "sinh",
           "cosh", "tanh", "cbrt", "arcsinh", "arccosh", "arctanh",
           "logaddexp", "nextafter", "spacing", "fmod"):
    UF[_n] = (_opaque(_n), "f")


def out_ld(rule, lds):
    if rule == "b":
        return B1
    if rule == "f":
        return F8
    return promote(lds)


def ufunc_call(name, inputs, kw):
    if name == "matmul":
        return IMPL["matmul"](*inputs)
    if name == "divmod":
        return (ufunc_call("floor_divide", inputs, {}), ufunc_call("remainder", inputs, {}))
    ent = UF.get(name)
    if ent is None:
        raise Unsupported(f"ufunc {name}")
    f, rule = ent
    out = kw.get("out")
    if isinstance(out, tuple):
        out = out[0]
    where = kw.get("where", True)
    comps = [x for x in inputs if type(x) is SComp]
    if comps:
        c0 = comps[0]
        ok = all(c.same_mask(c0.mask) for c in comps) and all(
            type(x) is SComp or is_sym_obj(x) or np.isscalar(x) or
            (isinstance(x, np.ndarray) and np.ndim(x) == 0) for x in inputs)
        if ok and out is None and where is True:
            els = []
            g = C().guards
            for i in range(len(c0.mask)):
                # the element only matters where its mask holds
                g.append(core.to_sb(c0.mask[i]).v)
                try:
                    els.append(f(*[x.elems[i] if type(x) is SComp else scalar_of(x)
                                   for x in inputs]))
                finally:
                    g.pop()
            ld = out_ld(rule, [guess_ld([e]) for e in els]) if els else F8
            if rule == "p":
                ld = promote([x._ld if type(x) is SComp else guess_ld([scalar_of(x)])
                              for x in inputs])
            return c0.like([coerce(e, ld) for e in els], ld)
        inputs = [x.materialise() if type(x) is SComp else x for x in inputs]
    arrs = []
    for x in inputs:
        a = to_arr(x)
        if not isinstance(a, SArr):
            # string arrays and the like
            if name in ("equal", "not_equal"):
                return np.bool_(name == "not_equal")
            raise TypeError(f"ufunc '{name}' not supported for the input types")
        arrs.append(a)
    bs = np.broadcast_arrays(*[base(a) for a in arrs]) if len(arrs) > 1 else [base(arrs[0])]
    shape = bs[0].shape
    ld = out_ld(rule, [a._ld for a in arrs])
    if where is not True:
        wh = np.broadcast_to(base(to_arr(where)), shape)
        if out is None:
            raise Unsupported("ufunc where= without out=")
    memo = None
    if out is None and where is True and ld.kind != "O" and bs[0].size > 8 and \
            C().opts.get("float_concrete"):
        memo = _concrete_key(bs)
        if memo is not None:
            memo = (name, shape, str(ld), memo)
            hit = _MEMO.get(memo)
            if hit is not None:
                return wrap(hit.copy(), ld)
    res = np.empty(shape, dtype=object)
    ob = base(out) if out is not None and isinstance(out, np.ndarray) else None
    for pos in np.ndindex(*shape):
        xs = [b[pos] for b in bs]
        if where is not True:
            w = to_sb(wh[pos])
            old = ob[pos]
            if w.v is False:
                res[pos] = old
                continue
            r = f(*xs)
            res[pos] = sf_ite(w.v, r, old)
        elif ld.kind == "O" and rule != "b":
            res[pos] = obj_op(name, xs)
        else:
            res[pos] = f(*xs)
    if out is not None:
        if not isinstance(out, SArr):
            raise Unsupported("out= is not symbolic")
        if out._ld.kind in "iu" and ld.kind == "f":
            raise TypeError(f"Cannot cast ufunc '{name}' output from "
                            "dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        if out._ld.kind == "b" and ld.kind in "if":
            raise TypeError(f"Cannot cast ufunc '{name}' output to dtype('bool') "
                            "with casting rule 'same_kind'")
        for pos in np.ndindex(*shape):
            ob[pos] = coerce(res[pos], out._ld)
        return out
    if ld.kind != "O":
        for pos in np.ndindex(*shape):
            res[pos] = coerce(res[pos], ld)
    if memo is not None and _concrete_key([res]) is not None:
        if len(_MEMO) > 20000:
            _MEMO.clear()
        _MEMO[memo] = res.copy()
    if shape == ():
        return res[()]
    return wrap(res, ld)


_MEMO = {}      # ufuncs of concrete arrays (float_concrete only)


def _concrete_key(bs):
    """the contents of arrays without symbolic elements, else None"""
    out = []
    for b in bs:
        for e in b.flat:
            t = type(e)
            if t is SF:
                v = e.v
                if type(v) is not Fraction or type(e.nan) is not bool or type(e.pinf) is not bool \
                        or type(e.ninf) is not bool:
                    return None
                out.append((v._numerator, v._denominator, e.p, e.nan, e.pinf, e.ninf))
            elif t is SI or t is SB:
                if type(e.v) is not int and type(e.v) is not bool:
                    return None
                out.append(e.v)
            else:
                return None
        out.append(b.shape)
    return tuple(out)


def obj_op(name, xs):
    import operator
    ops = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul,
           "true_divide": operator.truediv, "divide": operator.truediv,
           "negative": operator.neg, "absolute": operator.abs,
           "power": operator.pow}
    if name in ops:
        return ops[name](*xs)
    if all(kind(x) != "o" for x in xs):
        return UF[name][0](*xs)
    raise TypeError(f"loop of ufunc {name} does not support object arguments")


def reduce_arr(a, f, axis, keepdims=False, initial=None):
    """fold f over axis of the SArr a (elements are scalars)."""
    b = base(a)
    if axis is None:
        axes = tuple(range(b.ndim))
    else:
        axis = conc_index(axis)
        axes = (axis,) if not isinstance(axis, tuple) else axis
        axes = tuple(x % b.ndim for x in axes)
    keep = [i for i in range(b.ndim) if i not in axes]
    t = b.transpose(keep + list(axes)) if b.ndim else b
    kshape = tuple(b.shape[i] for i in keep)
    n = 1
    for i in axes:
        n *= b.shape[i]
    t = t.reshape(kshape + (n,))
    out = np.empty(kshape, dtype=object)
    for pos in np.ndindex(*kshape):
        vals = list(t[pos])
        if initial is not None:
            acc = initial
        elif vals:
            acc, vals = vals[0], vals[1:]
        else:
            raise ValueError("zero-size array to reduction operation which has no identity")
        for v in vals:
            acc = f(acc, v)
        out[pos] = acc
    if keepdims:
        out2 = np.empty(tuple(1 if i in axes else b.shape[i] for i in range(b.ndim)), dtype=object)
        out2[...] = out.reshape(out2.shape)
        out = out2
    return out


def fin(out, ld):
    for pos in np.ndindex(*out.shape):
        out[pos] = coerce(out[pos], ld)
    return out[()] if out.shape == () else wrap(out, ld)


def ufunc_reduce(name, a, kw):
    m = {"add": "sum", "multiply": "prod", "minimum": "min", "maximum": "max",
         "logical_and": "all", "logical_or": "any"}
    if type(a) is SComp:
        if name == "add":
            return a.sum()
        if name == "logical_or":
            return a.any()
        if name == "logical_and":
            return a.all()
        a = a.materialise()
    a = to_arr(a)
    axis = kw.get("axis", 0)
    kd = kw.get("keepdims", False)
    if name in m:
        r = IMPL[m[name]](a, axis=axis, keepdims=kd)
        if "initial" in kw and kw["initial"] is not None and kw["initial"] is not np._NoValue:
            r = ufunc_call(name, (r, kw["initial"]), {})
        return r
    f, rule = UF[name]
    out = reduce_arr(a, f, axis, kd)
    return fin(out, out_ld(rule, [a._ld]))


# --------------------------------------------------------------------------
# functions

IMPL = {}


def impl(*names):
    def d(f):
        for n in names or (f.__name__.strip("_"),):
            IMPL[n] = f
        return f
    return d


def shp(s):
    if type(s) is SI or isinstance(s, (int, np.integer)):
        return (int(s),)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s)
    return tuple(int(x) for x in s)


def _dt(dtype, default=F8):
    if dtype is None:
        return default
    if dtype is float:
        return F8
    if dtype is int:
        return I8
    if dtype is bool:
        return B1
    try:
        return np.dtype(dtype)
    except TypeError:
        return OB


def filled(shape, val, ld):
    b = np.empty(shape, dtype=object)
    v = coerce(val, ld) if ld.kind != "O" else val
    for pos in np.ndindex(*shape):
        b[pos] = v
    return wrap(b, ld)


@impl("zeros")
def _zeros(shape, dtype=None, order="C"):
    return filled(shp(shape), 0, _dt(dtype))


@impl("ones")
def _ones(shape, dtype=None, order="C"):
    return filled(shp(shape), 1, _dt(dtype))


@impl("empty")
def _empty(shape, dtype=None, order="C"):
    ld = _dt(dtype)
    return filled(shp(shape), None if ld.kind == "O" else 0, ld)


@impl("full")
def _full(shape, fill_value, dtype=None, order="C"):
    if isinstance(fill_value, np.ndarray) and fill_value.ndim:
        r = _empty(shape, dtype or to_arr(fill_value)._ld)
        r[...] = fill_value
        return r
    ld = _dt(dtype, guess_ld([scalar_of(fill_value)]))
    return filled(shp(shape), scalar_of(fill_value), ld)


def _like(f):
    def g(a, dtype=None, order="K", subok=True, shape=None):
        a = to_arr(a)
        return f(a.shape if shape is None else shape, dtype=_dt(dtype, a._ld))
    return g


IMPL["zeros_like"] = _like(_zeros)
IMPL["ones_like"] = _like(_ones)
IMPL["empty_like"] = _like(_empty)


@impl("full_like")
def _full_like(a, fill_value, dtype=None, **k):
    a = to_arr(a)
    return _full(a.shape, fill_value, _dt(dtype, a._ld))


@impl("array")
def _array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0):
    if dtype is not None and not dtype_ok(dtype):
        dtype = object
    r = to_arr(x, dtype, copy=bool(copy))
    if dtype is not None and isinstance(r, SArr) and r._ld.kind == "O" and r.size == 0:
        r = wrap(base(r), _dt(dtype))
    while r.ndim < ndmin:
        r = r[None]
    return r


@impl("asarray", "asanyarray", "ascontiguousarray", "asfarray")
def _asarray(x, dtype=None, **k):
    return to_arr(x, dtype)


@impl("copy")
def _copy(a, **k):
    return to_arr(a).copy()


@impl("arange")
def _arange(*a, dtype=None):
    a = [scalar_of(x) for x in a]
    if all(kind(x) in "ib" for x in a):
        return lift_real(np.arange(*[int(x) for x in a]))
    return lift_real(np.arange(*[float(x) for x in a]))


@impl("linspace")
def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if num < 0:
        raise ValueError("Number of samples must be non-negative")
    s, e = lift(scalar_of(start)), lift(scalar_of(stop))
    d = core.sf_sub(e, s)
    div = (num - 1) if endpoint else num
    out = []
    for i in range(num):
        if div <= 0 or i == 0:
            out.append(s)
        elif endpoint and i == num - 1:
            out.append(e)
        else:
            out.append(core.sf_add(s, core.sf_mul(d, SF(Fraction(i, div)))))
    r = from_list(out, F8)
    if dtype is not None:
        r = astype(r, dtype)
    if retstep:
        return r, core.sf_mul(d, SF(Fraction(1, div) if div > 0 else Fraction(0)))
    return r


@impl("eye", "identity")
def _eye(n, *a, **k):
    return lift_real(np.eye(int(n)))


@impl("meshgrid")
def _meshgrid(*xs, indexing="xy", **k):
    xs = [to_arr(x).ravel() for x in xs]
    r = np.meshgrid(*[np.arange(len(x)) for x in xs], indexing=indexing)
    return [wrap(base(x)[i], x._ld) for x, i in zip(xs, r)]


class _MGrid:
    def __getitem__(self, k):
        if isinstance(k, tuple):
            k = tuple(slice(conc_index(s.start), conc_index(s.stop), conc_index(s.step))
                      for s in k)
        return lift_real(np.mgrid[k])


def structural(name):
    """functions that only move elements around."""
    f = getattr(np, name)

    def g(a, *args, **kw):
        if type(a) is SComp:
            a = a.materialise()
        if isinstance(a, (list, tuple)) and name in SEQ:
            a2 = [to_arr(x) for x in a]
            ld = promote([x._ld for x in a2])
            args = [conc_index(x) for x in args]
            kw = {k: conc_index(v) for k, v in kw.items() if k not in ("dtype", "casting")}
            lst = [base(x if x._ld == ld or ld.kind == "O" else astype(x, ld)) for x in a2]
            return wrap(f(lst, *args, **kw), ld)
        a = to_arr(a)
        args = [conc_index(x) for x in args]
        kw = {k: conc_index(v) for k, v in kw.items()}
        r = f(base(a), *args, **kw)
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(x, a._ld) for x in r)
        if isinstance(r, np.ndarray):
            return wrap(r, a._ld)
        return r
    return g


SEQ = ("concatenate", "hstack", "vstack", "stack", "dstack", "column_stack", "row_stack")
for _n in SEQ + ("repeat", "tile", "flip", "fliplr", "flipud", "rot90", "roll",
                 "reshape", "ravel", "transpose", "squeeze", "expand_dims",
                 "moveaxis", "swapaxes", "broadcast_to", "atleast_1d",
                 "atleast_2d", "atleast_3d", "split", "array_split", "take",
                 "diag", "diagonal", "rollaxis", "trim_zeros", "resize"):
    if hasattr(np, _n):
        IMPL[_n] = structural(_n)


@impl("take")
def _take(a, indices, axis=None, out=None, mode="raise"):
    a = to_arr(a)
    r = np.take(base(a), conc_index(indices), axis=conc_index(axis), mode=mode)
    return wrap(r, a._ld) if isinstance(r, np.ndarray) else r


@impl("delete")
def _delete(a, obj, axis=None):
    if isinstance(a, (list, tuple)):
        a = to_arr(a)
    a = to_arr(a)
    o = norm_index(obj)
    if isinstance(o, MaskIdx):
        o = o.fork()
    if type(o) is list:
        o = conc_index(o)
    return wrap(np.delete(base(a), o, axis), a._ld)


@impl("insert")
def _insert(a, obj, values, axis=None):
    a = to_arr(a)
    if a._ld.kind == "O":
        w = np.empty((1,), dtype=object)
        if isinstance(values, (list, tuple, np.ndarray)):
            vs = list(values)
            w = np.empty((len(vs),), dtype=object)
            for i, v in enumerate(vs):
                w[i] = v
        else:
            w[0] = values
        return wrap(np.insert(base(a), conc_index(obj), w if w.size != 1 else w[0:1], axis), a._ld)
    v = astype(to_arr(values), a._ld)
    return wrap(np.insert(base(a), conc_index(obj), base(v), axis), a._ld)


@impl("append")
def _append(a, values, axis=None):
    a = to_arr(a)
    v = to_arr(values)
    if not isinstance(v, SArr):
        raise Unsupported("append of strings")
    if axis is None:
        a, v = a.ravel(), v.ravel()
        axis = 0
    ld = promote([a._ld, v._ld]) if a.size or a._ld.kind == "O" or v._ld.kind != "O" else OB
    x = base(a) if ld.kind == "O" else base(astype(a, ld))
    y = base(v) if ld.kind == "O" else base(astype(v, ld))
    return wrap(np.concatenate((x, y), axis), ld)


@impl("where")
def _where(cond, x=None, y=None):
    if x is None and y is None:
        return IMPL["nonzero"](cond)
    c, x, y = to_arr(cond), to_arr(x), to_arr(y)
    ld = promote([x._ld, y._ld])
    cb, xb, yb = np.broadcast_arrays(base(c), base(x), base(y))
    out = np.empty(cb.shape, dtype=object)
    for pos in np.ndindex(*cb.shape):
        out[pos] = coerce(sf_ite(to_sb(cb[pos]).v, xb[pos], yb[pos]), ld)
    return wrap(out, ld)


@impl("select")
def _select(condlist, choicelist, default=0):
    r = to_arr(default)
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = _where(c, v, r)
    return r


def _i(x):
    """numeric value of bools for sums."""
    return x.as_int() if type(x) is SB else x


@impl("sum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if type(a) is SComp:
        return a.sum()
    a = to_arr(a)
    if keepdims is np._NoValue:
        keepdims = False
    ld = I8 if a._ld.kind in "bi" else a._ld
    init = SI(0) if ld is I8 else SF(Fraction(0))
    if ld.kind == "O":
        init = 0
    if where is not True:
        a = _where(where, a, init)
    if ld.kind == "O":
        out = reduce_arr(a, lambda x, y: x + y, axis, keepdims, None if a.size else 0)
    else:
        out = reduce_arr(a, lambda x, y: core.scalar_binop("add", _i(x), _i(y)), axis, keepdims, init)
    if dtype is not None:
        ld = _dt(dtype)
    return fin(out, ld)


@impl("prod", "product")
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = to_arr(a)
    ld = I8 if a._ld.kind in "bi" else F8
    init = SI(1) if ld is I8 else SF(Fraction(1))
    return fin(reduce_arr(a, lambda x, y: core.scalar_binop("multiply", _i(x), _i(y)),
                          axis, keepdims, init), ld)


def _count(a, axis):
    if axis is None:
        return a.size
    axes = axis if isinstance(axis, tuple) else (axis,)
    n = 1
    for x in axes:
        n *= a.shape[x]
    return n


@impl("mean", "average")
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = to_arr(a)
    return _sum(astype(a, F8), axis, keepdims=keepdims) / np.float64(_count(a, axis))


@impl("var")
def _var(a, axis=None, ddof=0, **k):
    a = astype(to_arr(a), F8)
    d = a - _mean(a, axis, keepdims=True)
    return _sum(d * d, axis) / np.float64(_count(a, axis) - ddof)


@impl("std")
def _std(a, axis=None, ddof=0, **k):
    return ufunc_call("sqrt", (_var(a, axis, ddof),), {})


@impl("min", "amin")
def _min(a, axis=None, out=None, keepdims=False, **k):
    a = to_arr(a)
    return fin(reduce_arr(a, UF["minimum"][0], axis, bool(keepdims) if keepdims is not np._NoValue else False), a._ld)


@impl("max", "amax")
def _max(a, axis=None, out=None, keepdims=False, **k):
    a = to_arr(a)
    return fin(reduce_arr(a, UF["maximum"][0], axis, bool(keepdims) if keepdims is not np._NoValue else False), a._ld)


@impl("ptp")
def _ptp(a, axis=None, **k):
    return _max(a, axis) - _min(a, axis)


@impl("nanmin")
def _nanmin(a, axis=None, **k):
    a = to_arr(a)
    return fin(reduce_arr(a, UF["fmin"][0], axis), a._ld)


@impl("nanmax")
def _nanmax(a, axis=None, **k):
    a = to_arr(a)
    return fin(reduce_arr(a, UF["fmax"][0], axis), a._ld)


@impl("nansum")
def _nansum(a, axis=None, **k):
    a = to_arr(a)
    return _sum(_where(ufunc_call("isnan", (a,), {}), SF(Fraction(0)), a), axis)


@impl("nanmean")
def _nanmean(a, axis=None, **k):
    a = to_arr(a)
    n = _sum(ufunc_call("isnan", (a,), {}) == False, axis)
    return _nansum(a, axis) / n


@impl("nanstd")
def _nanstd(a, **k):
    return lift(float(np.nanstd(conc_arr(a))))


@impl("nanmedian", "median")
def _median(a, axis=None, **k):
    a = to_arr(a)
    if axis is None and all(x.is_conc() for x in base(a).flat):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return lift(np.nanmedian(conc_arr(a)))
    # an unconstrained value: only used in printed text
    return SF(C().fresh("med"))


@impl("any")
def _any(a, axis=None, out=None, keepdims=False, **k):
    if type(a) is SComp:
        return a.any()
    a = to_arr(a)
    return fin(reduce_arr(a, lambda x, y: SB(b_or(to_sb(x).v, to_sb(y).v)), axis,
                          bool(keepdims) if keepdims is not np._NoValue else False, SB(False)), B1)


@impl("all", "alltrue")
def _all(a, axis=None, out=None, keepdims=False, **k):
    if type(a) is SComp:
        return a.all()
    a = to_arr(a)
    return fin(reduce_arr(a, lambda x, y: SB(b_and(to_sb(x).v, to_sb(y).v)), axis,
                          bool(keepdims) if keepdims is not np._NoValue else False, SB(True)), B1)


IMPL["sometrue"] = _any


@impl("count_nonzero")
def _cnz(a, axis=None, **k):
    if type(a) is SComp:
        return a.astype(bool).sum()
    return _sum(astype(to_arr(a), B1), axis)


@impl("nonzero")
def _nonzero(a):
    a = astype(to_arr(a), B1)
    m = MaskIdx(a).fork()
    return tuple(lift_real(x) for x in np.nonzero(m))


@impl("flatnonzero")
def _fnz(a):
    return _nonzero(to_arr(a).ravel())[0]


@impl("argwhere")
def _argwhere(a):
    m = MaskIdx(astype(to_arr(a), B1)).fork()
    return lift_real(np.argwhere(m))


def _first(vals, better, skip_nan):
    """index of the first optimum, decided by forking on n conditions."""
    n = len(vals)
    vals = [lift(v) if kind(v) != "i" else v.to_sf() if type(v) is SI else lift(v) for v in vals]
    if n == 0:
        raise ValueError("attempt to get argmin of an empty sequence")
    if all(type(v.v) is Fraction and v.p == 0 and v.pinf is False and v.ninf is False
           and isinstance(v.nan, bool) for v in vals):
        if not skip_nan and any(v.nan for v in vals):
            return [v.nan for v in vals].index(True)
        at = [i for i in range(n) if not vals[i].nan]
        if not at:
            raise ValueError("All-NaN slice encountered")
        nums = [vals[i].v for i in at]
        return at[nums.index(max(nums) if better is _greatb else min(nums))]
    if skip_nan:
        if SB(b_and(*[v.nan for v in vals])):
            raise ValueError("All-NaN slice encountered")
    for i in range(n - 1):
        conds = []
        a = vals[i]
        if skip_nan:
            conds.append(b_not(a.nan))
            for j, b in enumerate(vals):
                if j < i:
                    conds.append(b_or(b.nan, better(a, b, True)))
                elif j > i:
                    conds.append(b_or(b.nan, better(a, b, False)))
            c = b_and(*conds)
        else:
            prev_nan = b_or(*[b.nan for b in vals[:i]])
            is_first_nan = b_and(a.nan, b_not(prev_nan))
            for j, b in enumerate(vals):
                if j != i:
                    conds.append(better(a, b, j < i))
            anynan = b_or(*[b.nan for b in vals])
            c = b_or(is_first_nan, b_and(b_not(anynan), *conds))
        if SB(c):
            return i
    return n - 1


def _lessb(a, b, strict):
    return core.sf_lt(a, b) if strict else core.sf_le(a, b)


def _greatb(a, b, strict):
    return core.sf_lt(b, a) if strict else core.sf_le(b, a)


def _argopt(better, skip):
    def g(a, axis=None, out=None, keepdims=False, **k):
        a = to_arr(a)
        if axis is None:
            return SI(_first([x for x in base(a).flat], better, skip))
        axis = conc_index(axis) % a.ndim
        t = np.moveaxis(base(a), axis, -1)
        out = np.empty(t.shape[:-1], dtype=object)
        for pos in np.ndindex(*out.shape):
            out[pos] = SI(_first(list(t[pos]), better, skip))
        return fin(out, I8)
    return g


IMPL["argmin"] = _argopt(_lessb, False)
IMPL["argmax"] = _argopt(_greatb, False)
IMPL["nanargmin"] = _argopt(_lessb, True)
IMPL["nanargmax"] = _argopt(_greatb, True)


def _sorted_idx(vals):
    """stable order with nan last, by forking."""
    idx = []
    for i, v in enumerate(vals):
        lv = lift(v)
        k = len(idx)
        while k > 0:
            w = lift(vals[idx[k - 1]])
            # v before w ?
            before = b_or(b_and(w.nan, b_not(lv.nan)), core.sf_lt(lv, w))
            if SB(before):
                k -= 1
            else:
                break
        idx.insert(k, i)
    return idx


@impl("argsort")
def _argsort(a, axis=-1, kind=None, order=None, **k):
    a = to_arr(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    t = np.moveaxis(base(a), axis, -1)
    out = np.empty(t.shape, dtype=object)
    for pos in np.ndindex(*t.shape[:-1]):
        for i, x in enumerate(_sorted_idx(list(t[pos]))):
            out[pos + (i,)] = SI(x)
    return wrap(np.moveaxis(out, -1, axis), I8)


@impl("sort")
def _sort(a, axis=-1, kind=None, order=None):
    a = to_arr(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    t = np.moveaxis(base(a), axis, -1)
    out = np.empty(t.shape, dtype=object)
    for pos in np.ndindex(*t.shape[:-1]):
        vs = list(t[pos])
        if a._ld.kind == "O" and any(not is_sym_obj(v) for v in vs):
            vs2 = sorted(vs)
            for i, v in enumerate(vs2):
                out[pos + (i,)] = v
            continue
        for i, x in enumerate(_sorted_idx(vs)):
            out[pos + (i,)] = vs[x]
    return wrap(np.moveaxis(out, -1, axis), a._ld)


@impl("unique")
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = to_arr(a).ravel()
    vs = list(base(a))
    order = _sorted_idx(vs)
    out, first, counts = [], [], []
    inv = [0] * len(vs)
    for i in order:
        if out and bool(core.scalar_binop("equal", vs[i], out[-1])):
            counts[-1] += 1
        else:
            out.append(vs[i])
            first.append(i)
            counts.append(1)
        inv[i] = len(out) - 1
    r = [from_list(out, a._ld)]
    if return_index:
        r.append(lift_real(np.array(first, dtype=int)))
    if return_inverse:
        r.append(lift_real(np.array(inv, dtype=int)))
    if return_counts:
        r.append(lift_real(np.array(counts, dtype=int)))
    return r[0] if len(r) == 1 else tuple(r)


@impl("isin", "in1d")
def _isin(a, test, invert=False, **k):
    a, t = to_arr(a), to_arr(test).ravel()
    out = np.empty(a.shape, dtype=object)
    for pos in np.ndindex(*a.shape):
        r = SB(b_or(*[_eq(base(a)[pos], x).v for x in base(t)]))
        out[pos] = ~r if invert else r
    return wrap(out, B1)


@impl("setdiff1d")
def _setdiff1d(a, b, **k):
    a = _unique(a)
    keep = _isin(a, b, invert=True)
    return a[MaskIdx(keep).fork()]


@impl("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    x, y = to_arr(a), to_arr(b)
    r = ufunc_call("less_equal", (ufunc_call("absolute", (x - y,), {}),
                   atol + rtol * ufunc_call("absolute", (y,), {})), {})
    r = r | ufunc_call("equal", (x, y), {})
    if equal_nan:
        r = r | (ufunc_call("isnan", (x,), {}) & ufunc_call("isnan", (y,), {}))
    return r


@impl("allclose")
def _allclose(a, b, **k):
    return _all(_isclose(a, b, **k))


@impl("array_equal")
def _array_equal(a, b, equal_nan=False):
    x, y = to_arr(a), to_arr(b)
    if x.shape != y.shape:
        return SB(False)
    if equal_nan:
        return SB(b_and(*[core.sf_same(p, q) for p, q in zip(base(x).flat, base(y).flat)]))
    return _all(ufunc_call("equal", (x, y), {}))


@impl("clip")
def _clip(a, a_min=None, a_max=None, **k):
    r = a
    if a_min is not None:
        r = ufunc_call("maximum", (r, a_min), {})
    if a_max is not None:
        r = ufunc_call("minimum", (r, a_max), {})
    return r


@impl("nan_to_num")
def _nan_to_num(a, copy=True, nan=0.0, **k):
    a = to_arr(a)
    return _where(ufunc_call("isnan", (a,), {}), nan, a)


@impl("round", "around", "round_")
def _round(a, decimals=0, **k):
    a = to_arr(a)
    s = Fraction(10) ** int(decimals)
    r = core.SF(s)
    out = np.empty(a.shape, dtype=object)
    for pos in np.ndindex(*a.shape):
        out[pos] = core.sf_div(core.sf_floor(lift(base(a)[pos]) * r + SF(Fraction(1, 2))).to_sf(), r)
    return fin(out, a._ld)


@impl("dot", "matmul", "inner")
def _dot(a, b, out=None):
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    A, B = base(a), base(b)
    A2 = A if A.ndim > 1 else A[None, :]
    B2 = B if B.ndim > 1 else B[:, None]
    if A2.ndim != 2 or B2.ndim != 2:
        raise Unsupported("dot of >2-d arrays")
    if A2.shape[1] != B2.shape[0]:
        raise ValueError("shapes not aligned")
    out = np.empty((A2.shape[0], B2.shape[1]), dtype=object)
    for i in range(A2.shape[0]):
        for j in range(B2.shape[1]):
            acc = SF(Fraction(0))
            for k in range(A2.shape[1]):
                acc = core.scalar_binop("add", acc, core.scalar_binop("multiply", A2[i, k], B2[k, j]))
            out[i, j] = acc
    if A.ndim == 1 and B.ndim == 1:
        return out[0, 0]
    if A.ndim == 1:
        out = out[0]
    elif B.ndim == 1:
        out = out[:, 0]
    return fin(out, F8)


@impl("outer")
def _outer(a, b, out=None):
    a, b = to_arr(a).ravel(), to_arr(b).ravel()
    return a[:, None] * b[None, :]


@impl("cumsum")
def _cumsum(a, axis=None, dtype=None, out=None):
    a = to_arr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    t = np.moveaxis(base(a), axis, 0)
    out = np.empty(t.shape, dtype=object)
    for i in range(t.shape[0]):
        for pos in np.ndindex(*t.shape[1:]):
            x = _i(t[(i,) + pos])
            out[(i,) + pos] = x if i == 0 else core.scalar_binop("add", out[(i - 1,) + pos], x)
    return wrap(np.moveaxis(out, 0, axis), I8 if a._ld.kind in "ib" else F8)


@impl("diff")
def _diff(a, n=1, axis=-1, **k):
    a = to_arr(a)
    for _ in range(n):
        t = np.moveaxis(base(a), axis, 0)
        r = wrap(t[1:], a._ld) - wrap(t[:-1], a._ld)
        a = wrap(np.moveaxis(base(r), 0, axis), r._ld)
    return a


@impl("unravel_index")
def _unravel_index(i, shape, order="C"):
    r = np.unravel_index(conc_index(i), shp(shape), order)
    return tuple(SI(int(x)) if np.ndim(x) == 0 else lift_real(x) for x in r)


@impl("ravel_multi_index")
def _rmi(mi, dims, **k):
    return SI(int(np.ravel_multi_index(conc_index(mi), shp(dims))))


@impl("interp")
def _interp(x, xp, fp, left=None, right=None, period=None):
    hook = C().opts.get("interp_stub")
    x, xp, fp = to_arr(x), to_arr(xp), to_arr(fp)
    if hook:
        return hook(x, xp, fp)
    memo = None
    if C().opts.get("float_concrete") and left is None and right is None:
        memo = _concrete_key([base(x), base(xp), base(fp)])
        if memo is not None and ("interp", memo) in _MEMO:
            return wrap(_MEMO["interp", memo].copy(), F8)
    xs, ys = list(base(xp)), list(base(fp))
    n = len(xs)
    if n == 0:
        raise ValueError("array of sample points is empty")
    out = np.empty(x.shape, dtype=object)
    lf = ys[0] if left is None else lift(left)
    rt = ys[-1] if right is None else lift(right)
    for pos in np.ndindex(*x.shape):
        t = base(x)[pos]
        r = sf_ite(core.sf_eq(t, xs[-1]), ys[-1], rt)
        for j in range(n - 2, -1, -1):
            # xs[j] <= t < xs[j+1]
            seg = core.sf_add(core.sf_mul(core.sf_div(core.sf_sub(ys[j + 1], ys[j]),
                              core.sf_sub(xs[j + 1], xs[j])), core.sf_sub(t, xs[j])), ys[j])
            r = sf_ite(core.sf_lt(t, xs[j + 1]), seg, r)
        r = sf_ite(core.sf_lt(t, xs[0]), lf, r)
        out[pos] = SF(r.v, r.p, b_or(r.nan, lift(t).nan), r.pinf, r.ninf)
    if memo is not None and _concrete_key([out]) is not None:
        _MEMO["interp", memo] = out.copy()
    return fin(out, F8)


@impl("searchsorted")
def _searchsorted(a, v, side="left", sorter=None):
    a, v = to_arr(a), to_arr(v)
    out = np.empty(v.shape, dtype=object)
    for pos in np.ndindex(*v.shape):
        t = base(v)[pos]
        n = SI(0)
        for x in base(a):
            c = core.scalar_binop("less" if side == "left" else "less_equal", x, t)
            n = n + c.as_int()
        out[pos] = n
    return fin(out, I8)


@impl("ndim")
def _ndim(a):
    return to_arr(a).ndim


@impl("shape")
def _shape(a):
    return to_arr(a).shape


@impl("size")
def _size(a, axis=None):
    a = to_arr(a)
    return a.size if axis is None else a.shape[axis]


@impl("isscalar")
def _isscalar(x):
    return is_sym_obj(x) or np.isscalar(x)


@impl("putmask")
def _putmask(a, mask, values):
    a[mask] = values


@impl("place")
def _place(a, mask, vals):
    v = to_arr(vals)
    if v.size == 1:
        a[mask] = base(v).flat[0]
    else:
        raise Unsupported("place")


@impl("copyto")
def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = _where(where, src, dst)


@impl("broadcast_arrays")
def _ba(*xs, **k):
    xs = [to_arr(x) for x in xs]
    r = np.broadcast_arrays(*[base(x) for x in xs])
    return [wrap(np.array(b), x._ld) for b, x in zip(r, xs)]


@impl("apply_along_axis")
def _aaa(f, axis, arr, *a, **k):
    raise Unsupported("apply_along_axis")


@impl("vectorize")
def _vectorize(f, *a, **k):
    def g(*xs):
        xs = [to_arr(x) for x in xs]
        bs = np.broadcast_arrays(*[base(x) for x in xs])
        out = np.empty(bs[0].shape, dtype=object)
        for pos in np.ndindex(*bs[0].shape):
            out[pos] = f(*[b[pos] for b in bs])
        return fin(out, guess_ld(list(out.flat)))
    return g


@impl("may_share_memory", "shares_memory")
def _share(a, b, **k):
    return np.shares_memory(base(a), base(b))


def conc_arr(a):
    """concrete float/int/bool ndarray of a (concretising what is symbolic)."""
    if type(a) is SComp:
        a = a.materialise()
    if type(a) is not SArr:
        return a
    if a._ld.kind == "O":
        return base(a)
    f = {"f": float, "i": int, "u": int, "b": bool}[a._ld.kind]
    return np.array([f(x) for x in base(a).flat], dtype=a._ld).reshape(a.shape)


def fallback(func, args, kw):
    """an uncovered numpy function: pin its arguments to one value."""
    def cv(x):
        if type(x) in (SArr, SComp):
            return conc_arr(x)
        if type(x) is SF:
            return np.float64(float(x))
        if type(x) is SI:
            return int(x)
        if type(x) is SB:
            return bool(x)
        if isinstance(x, tuple):
            return tuple(cv(e) for e in x)
        if isinstance(x, list):
            return [cv(e) for e in x]
        return x
    C().stats.setdefault("fallback_functions", {})
    fb = C().stats["fallback_functions"]
    nm = getattr(func, "__name__", str(func))
    fb[nm] = fb.get(nm, 0) + 1
    r = func(*[cv(a) for a in args], **{k: cv(v) for k, v in kw.items()})

    def up(x):
        if isinstance(x, np.ndarray) and x.dtype.kind in "fiub":
            return lift_real(x)
        if isinstance(x, np.ndarray) and x.dtype.kind == "O":
            return lift_real(x)
        if isinstance(x, np.bool_):
            return SB(bool(x))
        if isinstance(x, np.integer):
            return SI(int(x))
        if isinstance(x, np.floating):
            return lift(x)
        if isinstance(x, tuple):
            return tuple(up(e) for e in x)
        if isinstance(x, list):
            return [up(e) for e in x]
        return x
    return up(r)


# --------------------------------------------------------------------------
# files: the scratch directory holds tokens, contents live in the context

def _np_path(p):
    p = os.fspath(p)
    return p


@impl("save")
def _save(file, arr, allow_pickle=True, fix_imports=True):
    import copy
    if hasattr(file, "write"):
        raise Unsupported("np.save to file object")
    p = resolve_path(_np_path(file))
    if not p.endswith(".npy"):
        p += ".npy"
    c = C()
    if isinstance(arr, dict) or not isinstance(arr, (np.ndarray, SComp)):
        val = to_arr(arr)
    else:
        val = to_arr(arr)
    val = copy.deepcopy(val)
    store = c.fs.store
    store.append(val)
    c.fs.step("np.save", p)
    with open(p, "wb") as f:
        f.write(b"SYMX")
        c.fs.step("np.save:torn", p)
        f.write(b":%d" % (len(store) - 1))


@impl("load")
def _load(file, mmap_mode=None, allow_pickle=False, **k):
    import copy
    p = resolve_path(_np_path(file))
    with open(p, "rb") as f:
        data = f.read()
    if not data.startswith(b"SYMX:"):
        raise ValueError("cannot reshape / truncated file")
    val = C().fs.store[int(data[5:])]
    if val._ld.kind == "O" and not allow_pickle:
        raise ValueError("Object arrays cannot be loaded when allow_pickle=False")
    return copy.deepcopy(val)


def resolve_path(p):
    """Canonical spelling of a path holding number tokens: two numbers with
    the same printed text share a file."""
    c = C()
    if "\u27e6" not in p:
        return p
    for (tid, pw, spec), (tok, sf, sp) in list(c.fmt.items()):
        if tok not in p:
            continue
        canon = getattr(c, "fmt_canon", None)
        if canon is None:
            canon = c.fmt_canon = {}
        if tok not in canon:
            canon[tok] = tok
            for tok2, sf2, sp2 in [h for h in c.fmt.values() if h[0] in canon and h[0] != tok]:
                if canon[tok2] != tok2 or sp2 != sp:
                    continue
                if same_text(sf, sf2, sp):
                    canon[tok] = tok2
                    break
        p = p.replace(tok, canon[tok])
    return p


def same_text(a, b, spec):
    dec = 6
    if spec.endswith("f"):
        dec = int(spec.split(".")[1][:-1]) if "." in spec else 6
    s = SF(Fraction(10) ** dec)
    ra = core.sf_floor(a * s + SF(Fraction(1, 2)))
    rb = core.sf_floor(b * s + SF(Fraction(1, 2)))
    return bool(ra == rb)


# --------------------------------------------------------------------------
# the module object handed to the code under test

class _Char:
    def mod(self, fmt, a):
        a = to_arr(a)
        return np.array([fmt.replace("%.2f", format(x, ".2f")) for x in base(a).flat],
                        dtype=object).reshape(a.shape)

    def __getattr__(self, n):
        return getattr(np.char, n)


class _UfuncProxy:
    def __init__(self, name):
        self.__name__ = name
        self.name = name

    def __call__(self, *a, **k):
        n = {"abs": "absolute"}.get(self.name, self.name)
        return ufunc_call(n, a, k)

    def reduce(self, a, axis=0, **k):
        return ufunc_reduce(self.name, a, dict(axis=axis, **k))

    def accumulate(self, a, axis=0, **k):
        if self.name == "add":
            return IMPL["cumsum"](a, axis=axis)
        raise Unsupported("accumulate")

    def outer(self, a, b, **k):
        a, b = to_arr(a), to_arr(b)
        return ufunc_call(self.name, (a.reshape(a.shape + (1,) * b.ndim), b), {})


class NPShim:
    __name__ = "numpy"

    def __init__(self):
        self._cache = {}
        self.pi = SF(Fraction(1), p=1, py=True)
        self.nan = self.NaN = self.NAN = SF(Fraction(0), nan=True, py=True)
        self.inf = self.Inf = self.infty = SF(Fraction(0), pinf=True, py=True)
        self.NINF = SF(Fraction(0), ninf=True, py=True)
        self.PINF = self.inf
        self.mgrid = _MGrid()
        self.char = _Char()
        self.newaxis = None
        self.ma = _Forbidden("numpy.ma")
        self.random = np.random
        self.ndarray = np.ndarray
        self.abs = _UfuncProxy("absolute")
        for n in ("errstate", "seterr", "dtype", "ndindex", "s_", "index_exp",
                  "printoptions", "set_printoptions", "typing", "testing"):
            setattr(self, n, getattr(np, n, None))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self._cache:
            return self._cache[name]
        if name in IMPL:
            r = IMPL[name]
        else:
            real = getattr(np, name)
            if isinstance(real, np.ufunc):
                r = _UfuncProxy(real.__name__)
            elif isinstance(real, type):
                r = real
            elif callable(real):
                def r(*a, _f=real, **k):
                    return fallback(_f, a, k)
                r.__name__ = name
            elif isinstance(real, float):
                r = lift(real)
            else:
                r = real
                if name == "linalg":
                    r = _Linalg()
        self._cache[name] = r
        return r


class _Linalg:
    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = to_arr(x)
        if ord not in (None, 2):
            raise Unsupported("norm ord")
        if axis is None and x.size == 2:
            a, b = [e for e in base(x).flat]
            return core.sf_hypot(a, b)
        return ufunc_call("sqrt", (_sum(x * x, axis, keepdims=keepdims),), {})

    def __getattr__(self, n):
        real = getattr(np.linalg, n)
        return lambda *a, **k: fallback(real, a, k)


class _Forbidden:
    def __init__(self, n):
        self._n = n

    def __getattr__(self, a):
        raise Unsupported(f"{self._n}.{a}")


def _m(name):
    def f(*a):
        return UF[name][0](*[scalar_of(x) for x in a])
    return f


class MathShim:
    """stand-in for the math module"""

    def __init__(self):
        self.pi = SF(Fraction(1), p=1, py=True)
        self.tau = SF(Fraction(2), p=1, py=True)
        self.nan = SF(Fraction(0), nan=True, py=True)
        self.inf = SF(Fraction(0), pinf=True, py=True)
        self.e = math.e

    sqrt = staticmethod(lambda x: _msqrt(x))
    cos = staticmethod(_m("cos"))
    sin = staticmethod(_m("sin"))
    tan = staticmethod(_m("tan"))
    atan2 = staticmethod(_m("arctan2"))
    atan = staticmethod(_m("arctan"))
    acos = staticmethod(_m("arccos"))
    asin = staticmethod(_m("arcsin"))
    hypot = staticmethod(_m("hypot"))
    radians = staticmethod(_m("deg2rad"))
    degrees = staticmethod(_m("rad2deg"))
    fabs = staticmethod(_m("fabs"))

    def isnan(self, x):
        return SB(lift(x).nan, py=True)

    def isinf(self, x):
        return SB(lift(x).inf, py=True)

    def isfinite(self, x):
        return SB(lift(x).fin, py=True)

    def floor(self, x):
        return core.sf_floor(lift(x))

    def ceil(self, x):
        return -core.sf_floor(-lift(x))

    def trunc(self, x):
        return core.sf_trunc(lift(x))

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = lift(a), lift(b)
        return abs(a - b) <= core.sf_max(lift(rel_tol) * core.sf_max(abs(a), abs(b)), lift(abs_tol))

    def prod(self, xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r

    def fsum(self, xs):
        r = SF(Fraction(0))
        for x in xs:
            r = r + x
        return r

    def __getattr__(self, n):
        f = getattr(math, n)
        if callable(f):
            return lambda *a: lift(f(*[float(x) if is_sym_obj(x) else x for x in a]))
        return f


def _msqrt(x):
    x = lift(x)
    if bool(SB(core.sf_lt(x, SF(Fraction(0))))):
        raise ValueError("math domain error")
    return core.sf_sqrt(x)
