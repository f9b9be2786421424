"""
numpy and math for symbolic runs.

During a symbolic run the module globals of the code under analysis that refer
to numpy, math or one of their functions are replaced by the stand-ins below.
Arrays of floating point numbers become object arrays holding terms; everything
that is not replaced falls through to the real numpy.
"""
import builtins
import contextlib
import math as _math
import sys

import numpy as _np

from . import term
from .term import EncodingError, Sym, SymInt

_FLOATS = (float, "float", "float64", "d", _np.float64, _np.double)


def is_sym(x):
    return isinstance(x, (Sym, SymInt))


def _flat(x):
    if isinstance(x, _np.ndarray):
        for v in x.reshape(-1):
            yield v
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _flat(y)
    else:
        yield x


def _shape(x):
    if isinstance(x, _np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        s = [_shape(y) for y in x]
        if any(t != s[0] for t in s):
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        return (len(x),) + s[0]
    return ()


def _isfloatdt(dtype):
    return dtype is not None and (dtype in _FLOATS or dtype is float_ or getattr(dtype, "kind", "") == "f")


def _isintdt(dtype):
    return dtype is not None and (dtype in (int, "int", _np.int64, "int64", "i", "l", _np.int_) or dtype is int_)


class SArr(_np.ndarray):
    """Array of numbers which may be terms."""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and (_isfloatdt(dtype) or dtype is object):
            return self.copy()
        if self.dtype == object and _isintdt(dtype):
            return array([int(v) for v in self.reshape(-1)], int).reshape(self.shape)
        return _np.asarray(self).astype(_real_dtype(dtype), *a, **k)

    def round(self, n=0, *a, **k):
        return around(self, n)

    def argmax(self, axis=None, **k):
        return argmax(self, axis)

    def argmin(self, axis=None, **k):
        return argmin(self, axis)


def array(obj, dtype=None, copy=True, **kw):
    """Floats become object arrays."""
    out = _array(obj, dtype, copy, **kw)
    return out.view(SArr) if out.dtype == object and out.ndim else out


def _array(obj, dtype=None, copy=True, **kw):
    kw = {k: v for k, v in kw.items() if k in ("ndmin",)}
    if isinstance(obj, range):
        obj = list(obj)
    if hasattr(obj, "__iter__") and not isinstance(obj, (list, tuple, _np.ndarray, str, bytes, dict)):
        try:
            obj = list(obj)
        except TypeError:
            pass
    vals = list(_flat(obj))
    if _isintdt(dtype):
        vals = [int(v) for v in vals]
        return _np.array(vals, dtype=int).reshape(_shape(obj))
    numeric = all(isinstance(v, (int, float, _np.number)) and not isinstance(v, (bool, _np.bool_)) for v in vals)
    anyf = any(isinstance(v, (float, _np.floating)) or is_sym(v) for v in vals)
    if _isfloatdt(dtype) or (dtype is None and numeric and (anyf or not vals)):
        if _isfloatdt(dtype):
            if any(v is None for v in vals):
                vals = [float("nan") if v is None else v for v in vals]
            vals = [float_(v) for v in vals]
        out = _np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            out[i] = v if is_sym(v) or not isinstance(v, _np.generic) else v.item()
        out = out.reshape(_shape(obj))
        if kw.get("ndmin", 0) > out.ndim:
            out = out.reshape((1,) * (kw["ndmin"] - out.ndim) + out.shape)
        return out
    if dtype is object or dtype is None and any(is_sym(v) for v in vals) and not any(isinstance(v, (str, bytes)) for v in vals):
        out = _np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            out[i] = v
        return out.reshape(_shape(obj))
    if any(is_sym(v) for v in vals):
        raise EncodingError(f"array of dtype {dtype} from symbolic values")
    return _np.array(obj, dtype=_real_dtype(dtype), **kw)


def _real_dtype(d):
    return float if d is float_ else int if d is int_ else d


def asarray(obj, dtype=None, **kw):
    if isinstance(obj, _np.ndarray) and (dtype is None or obj.dtype == object and _isfloatdt(dtype)):
        return obj
    return array(obj, dtype)


def _filled(shape, dtype, v):
    if dtype is None or _isfloatdt(dtype):
        a = _np.empty(shape, dtype=object).view(SArr)
        a[...] = v
        return a
    return _np.full(shape, v, dtype=_real_dtype(dtype))


def _cshape(shape):
    if isinstance(shape, SymInt):
        return int(shape)
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    return shape


def zeros(shape, dtype=None, order="C", **kw):
    return _filled(_cshape(shape), dtype, 0.0 if dtype is None or _isfloatdt(dtype) else 0)


def ones(shape, dtype=None, order="C", **kw):
    return _filled(_cshape(shape), dtype, 1.0 if dtype is None or _isfloatdt(dtype) else 1)


_STALE = [0]


def empty(shape, dtype=None, order="C", **kw):
    """Unspecified content: fresh variables."""
    a = zeros(shape, dtype)
    if a.dtype == object:
        for i in _np.ndindex(*a.shape):
            _STALE[0] += 1
            a[i] = Sym(term.var(f"stale!{_STALE[0]}"))
        return a
    raise EncodingError("np.empty of integers")


def full(shape, v, dtype=None, **kw):
    if dtype is None and isinstance(v, int) and not is_sym(v):
        return _np.full(_cshape(shape), v)
    return _filled(_cshape(shape), dtype, v)


def zeros_like(a, dtype=None, **kw):
    a = asarray(a)
    return zeros(a.shape, dtype) if a.dtype == object or dtype is not None else _np.zeros_like(a)


def ones_like(a, dtype=None, **kw):
    a = asarray(a)
    return ones(a.shape, dtype) if a.dtype == object or dtype is not None else _np.ones_like(a)


def empty_like(a, dtype=None, **kw):
    return empty(asarray(a).shape, dtype)


def eye(n, *a, **k):
    r = zeros((n, n))
    for i in range(n):
        r[i, i] = 1.0
    return r


def _unary(fsym, ffloat):
    def g(x, *a, **k):
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, _np.ndarray):
            if x.dtype != object:
                return array(ffloat(x).tolist()) if x.ndim else ffloat(x)
            out = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(*x.shape):
                out[i] = g(x[i])
            return out if x.ndim else out[()]
        if isinstance(x, SymInt):
            x = Sym(x.n)
        if isinstance(x, Sym):
            return fsym(x)
        return ffloat(x)
    return g


def _exact(fnode, ffloat):
    """Elementary function: symbolic for terms, but also for plain floats, so that
    constants keep their exact meaning (cos(pi/2) is 0)."""
    def s(x):
        return Sym(fnode(x.n))

    def f(x):
        r = fnode(term.from_float(float(x)))
        return float(r.args[0]) if r.op == "c" else Sym(r)
    return _unary(s, f if True else ffloat)


def _each(f):
    def g(x, *a, **k):
        if not isinstance(x, (list, tuple, _np.ndarray)):
            return f(x)
        x = asarray(x)
        return array([f(v) for v in x.reshape(-1)]).reshape(x.shape)
    return g


sqrt = _exact(term.sqrt, _np.sqrt)
sin = _exact(term.sin, _np.sin)
cos = _exact(term.cos, _np.cos)
tan = _exact(term.tan, _np.tan)
deg2rad = radians = _exact(lambda n: term.mul(n, term.mul(term.const(term.Fraction(1, 180)), term.PI)), _np.deg2rad)
rad2deg = degrees = _exact(lambda n: term.mul(n, term.div(term.const(180), term.PI)), _np.rad2deg)
absolute = abs_ = fabs = _unary(lambda x: builtins.abs(x), _np.abs)
ceil = _unary(lambda x: _tofloat(x.__ceil__()), _np.ceil)
floor = _unary(lambda x: _tofloat(x.__floor__()), _np.floor)
square = _unary(lambda x: x * x, _np.square)


def _tofloat(k):
    return Sym(k.n) if isinstance(k, SymInt) else float(k)


ceil = _unary(lambda x: _tofloat(x.__ceil__()), _np.ceil)


def _uf(name, ff):
    def s(*xs):
        return Sym(term.fun(name, *[term.node(x) for x in xs]))

    def g(*xs, **k):
        if any(isinstance(x, _np.ndarray) and x.ndim for x in xs):
            b = _np.broadcast_arrays(*[asarray(x) for x in xs])
            out = _np.empty(b[0].shape, dtype=object)
            for i in _np.ndindex(*out.shape):
                out[i] = g(*[y[i] for y in b])
            return out
        return s(*xs) if any(is_sym(x) for x in xs) else ff(*xs)
    return g


UFS = {"arcsin": _math.asin, "arccos": _math.acos, "arctan": _math.atan, "arctan2": _math.atan2, "exp": _math.exp,
       "log": _math.log}
arcsin, arccos, arctan = _uf("arcsin", _np.arcsin), _uf("arccos", _np.arccos), _uf("arctan", _np.arctan)
arctan2, exp, log = _uf("arctan2", _np.arctan2), _uf("exp", _np.exp), _uf("log", _np.log)


def sign(x):
    if isinstance(x, _np.ndarray) and x.ndim:
        return array([sign(v) for v in x])
    return 1.0 if x > 0 else (-1.0 if x < 0 else 0.0)


def hypot(a, b):
    return sqrt(a * a + b * b)


def norm(x, ord=None, axis=None, keepdims=False):
    x = asarray(x)
    if x.dtype != object:
        r = _np.linalg.norm(x, ord, axis, keepdims)
        return r
    if ord not in (None, 2):
        raise EncodingError("norm of order " + str(ord))
    if axis is None:
        s = 0.0
        for v in x.reshape(-1):
            s = s + v * v
        return sqrt(s)
    sq = x * x
    return sqrt(_np.sum(sq, axis=axis, keepdims=keepdims))


def cross(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape == (3,) and b.shape == (3,):
        return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    return _np.cross(a.astype(object), b.astype(object), **k)


def dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    return _np.dot(a.astype(object), b.astype(object)) if object in (a.dtype, b.dtype) else _np.dot(a, b)


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    div = (num - 1) if endpoint else num
    step = (b - a) / div if div > 0 else None
    out = [a + (b - a) * i / div if div else a for i in range(num)]
    r = array(out) if out else zeros(0)
    if r.dtype != object and r.dtype.kind != "O":
        r = array([float(v) for v in out])
    return (r, step) if retstep else r


def arange(*a, **k):
    if any(is_sym(x) for x in a):
        raise EncodingError("arange with symbolic bounds")
    r = _np.arange(*a, **{x: y for x, y in k.items()})
    return array(r.tolist()) if r.dtype.kind == "f" else r


def mean(x, axis=None, **k):
    x = asarray(x)
    if axis is None:
        v = list(x.reshape(-1))
        s = v[0]
        for y in v[1:]:
            s = s + y
        return s / len(v)
    return _np.sum(x, axis=axis) / x.shape[axis]


def average(x, axis=None, weights=None, **k):
    if k:
        raise EncodingError("numpy.average with options")
    if weights is None:
        return mean(x, axis=axis)
    x, w = asarray(x), asarray(weights)
    if w.ndim == 1 and x.ndim > 1:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        return _np.sum(_np.moveaxis(x, axis, -1) * w, axis=-1) / sum_(w)
    return sum_(x * w, axis=axis) / sum_(w, axis=axis)


def sum_(x, axis=None, **k):
    x = asarray(x) if not hasattr(x, "__next__") else array(list(x))
    if x.dtype == object and axis is None:
        s = 0.0
        for y in x.reshape(-1):
            s = s + y
        return s
    return _np.sum(x, axis=axis, **k)


def _red(pick, real):
    def g(x, axis=None, **k):
        x = asarray(x)
        if x.dtype != object:
            return real(x, axis=axis, **k)
        if axis is None:
            v = list(x.reshape(-1))
            if not v:
                raise ValueError("zero-size array to reduction operation")
            b = v[0]
            for y in v[1:]:
                b = pick(b, y)
            return b
        x = _np.moveaxis(x, axis, -1)
        if k.get("keepdims") or x.ndim == 1:
            return g(x) if x.ndim == 1 and not k.get("keepdims") else _np.expand_dims(_reduced(g, x), axis)
        return _reduced(g, x)
    return g


def _reduced(f, x):
    """f of the rows of the last axis."""
    out = _np.empty(x.shape[:-1], dtype=object)
    for i in _np.ndindex(*out.shape):
        out[i] = f(x[i])
    return out


def _mx(a, b):
    return b if b > a else a


def _mn(a, b):
    return b if b < a else a


def _ufunc_methods(f, reduce):
    f.reduce = lambda x, axis=0, **k: reduce(x, axis=axis, **k)
    return f


max_ = amax = nanmax = _red(_mx, _np.max)
min_ = amin = nanmin = _red(_mn, _np.min)


def _pair(f):
    def g(a, b):
        if _np.ndim(_noconv(a)) or _np.ndim(_noconv(b)):
            a, b = _np.broadcast_arrays(asarray(a).astype(object), asarray(b).astype(object))
            out = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(*a.shape):
                out[i] = f(a[i], b[i])
            return out
        return f(a, b)
    return g


def _noconv(x):
    return x if isinstance(x, (_np.ndarray, list, tuple)) else 0


maximum, minimum = _ufunc_methods(_pair(_mx), amax), _ufunc_methods(_pair(_mn), amin)


def argmax(x, axis=None):
    x = list(asarray(x).reshape(-1))
    k = 0
    for i in range(1, len(x)):
        if x[i] > x[k]:
            k = i
    return k


def argmin(x, axis=None):
    x = list(asarray(x).reshape(-1))
    k = 0
    for i in range(1, len(x)):
        if x[i] < x[k]:
            k = i
    return k


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        a, b = _np.broadcast_arrays(asarray(a), asarray(b))
        return _np.array([bool(isclose(x, y, rtol, atol)) for x, y in zip(a.reshape(-1), b.reshape(-1))]).reshape(a.shape)
    return bool(builtins.abs(a - b) <= atol + rtol * builtins.abs(b))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(_np.all(isclose(asarray(a), asarray(b), rtol, atol)))


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def isnan(x):
    if isinstance(x, _np.ndarray) and x.ndim:
        return _np.array([isnan(v) for v in x.reshape(-1)]).reshape(x.shape)
    return False if is_sym(x) else bool(_np.isnan(x))


def isfinite(x):
    if isinstance(x, _np.ndarray) and x.ndim:
        return _np.array([isfinite(v) for v in x.reshape(-1)]).reshape(x.shape)
    return True if is_sym(x) else bool(_np.isfinite(x))


def clip(x, lo, hi, **k):
    return minimum(maximum(x, lo), hi)


def interp(x, xp, fp, **k):
    if isinstance(x, _np.ndarray) and x.ndim:
        return array([interp(v, xp, fp) for v in x])
    n = len(xp)
    if x <= xp[0]:
        return fp[0]
    for i in range(1, n):
        if x <= xp[i]:
            return fp[i - 1] + (fp[i] - fp[i - 1]) * (x - xp[i - 1]) / (xp[i] - xp[i - 1])
    return fp[n - 1]


def loadtxt(*a, **k):
    r = _np.loadtxt(*a, **k)
    return array(r.tolist())


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class float_(metaclass=_Meta):
    _real = float
    fromhex = float.fromhex

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymInt):
            return Sym(x.n)
        if isinstance(x, _np.ndarray) and x.size == 1:
            return cls(x.reshape(-1)[0])
        return float(x)


class int_(metaclass=_Meta):
    _real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return x.__floor__() if x >= 0 else x.__ceil__()
        if isinstance(x, SymInt):
            return x
        return int(x, *a)


def round_(x, n=None):
    if isinstance(x, SymInt):
        return x
    if is_sym(x):
        if n:
            return (x * 10 ** n + term_half()).__floor__() / 10 ** n
        k = (x + term_half()).__floor__()
        if k - x == term_half():        # half way: the even one
            k = int(k)
            k = SymInt(term.const(k - k % 2))
        return k if n is None else float_(k)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def term_half():
    return Sym(term.const(term.Fraction(1, 2)))


def savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    """numpy.savetxt with symbolic numbers as tokens (written in full where the format keeps seven digits)."""
    X = _np.asarray(X)
    if X.dtype != object:
        return _np.savetxt(fname, X, fmt, delimiter, newline, header, footer, comments, encoding)
    from . import sjson
    if X.ndim == 1:
        X = X.reshape((-1, 1))
    fmts = [fmt] * X.shape[1] if isinstance(fmt, str) else list(fmt)
    if len(fmts) != X.shape[1]:
        raise AttributeError("fmt has wrong shape")
    with open(fname, "w") as fp:
        if header:
            fp.write(comments + header.replace("\n", "\n" + comments) + newline)
        for row in X:
            out = []
            for f, v in zip(fmts, row):
                t = sjson.token(v) if isinstance(v, (Sym, term.SymInt)) else float(v)
                exact = builtins.all(builtins.abs(float(f % x) - x) <= 1e-6 * builtins.abs(x)
                                     for x in (1.2345678e-7, -2.3456789e11, 1.9999999))
                out.append(repr(t) if exact else f % t)
            fp.write(delimiter.join(out) + newline)
        if footer:
            fp.write(comments + footer.replace("\n", "\n" + comments) + newline)


class _Linalg:
    norm = staticmethod(norm)

    @staticmethod
    def cond(a, p=None):
        """Condition number: an unknown non-negative number (the code only logs it)."""
        if isinstance(a, _np.ndarray) and a.dtype != object:
            return _np.linalg.cond(a, p)
        return Sym(term.fun("cond", *[term.node(v) for v in asarray(a).reshape(-1)]))

    @staticmethod
    def solve(a, b):
        from . import linsys
        return linsys.solve(_np.asarray(a), _np.asarray(b))

    @staticmethod
    def det(a):
        from . import linsys
        return linsys.det([list(r) for r in asarray(a)])

    @staticmethod
    def inv(a):
        from . import linsys
        a = asarray(a)
        cols = [linsys.solve(_np.asarray(a), _np.asarray(eye(len(a))[:, j])) for j in range(len(a))]
        return array([[c[i] for c in cols] for i in range(len(a))])

    def __getattr__(self, k):
        f = getattr(_np.linalg, k)

        def g(*a, **kw):
            if any(isinstance(x, _np.ndarray) and x.dtype == object for x in a):
                raise EncodingError("numpy.linalg." + k)
            return f(*a, **kw)
        return g


class _Proxy:
    linalg = _Linalg()
    float64 = float_
    ndarray = _np.ndarray
    pi = _np.pi

    def __getattr__(self, k):
        if k in _MORE:
            return _MORE[k]
        f = getattr(_np, k)
        if isinstance(f, _np.ufunc):
            return _Ufunc(f)
        if callable(f) and not isinstance(f, type):
            return _converted(f)
        return f


def _objects(x):
    """Floating point arrays become object arrays."""
    if isinstance(x, _np.ndarray) and x.dtype.kind == "f":
        return array(x, float)
    if isinstance(x, (tuple, list)):
        return type(x)(_objects(y) for y in x) if type(x) in (tuple, list) else x
    return x


class _Ufunc:
    """A numpy function of numbers which may be terms."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        boxed = []
        for x in a:
            if is_sym(x):
                b = _np.empty((), dtype=object)
                b[()] = x
                x = b
            elif isinstance(x, (list, tuple)):
                x = asarray(x)
            boxed.append(x)
        return _objects(self.f(*boxed, **k))

    def __getattr__(self, k):
        f = getattr(self.f, k)
        return _converted(f) if callable(f) else f


def _converted(f):
    def g(*a, **k):
        return _objects(f(*a, **k))
    g.__name__ = getattr(f, "__name__", "f")
    return g


def around(x, decimals=0, out=None):
    return _each(lambda v: round_(v, decimals) if is_sym(v) else float_(round(v, decimals)))(x)


def ndim(x):
    return 0 if is_sym(x) else _np.ndim(x)


def fromiter(it, dtype=float, count=-1, **k):
    return array(list(it), dtype)


def append(a, v, axis=None):
    return _np.append(asarray(a), array(v if isinstance(v, (list, tuple, _np.ndarray)) else [v]) if axis is None else asarray(v), axis)


def apply_along_axis(f, axis, x, *a, **k):
    x = _np.moveaxis(asarray(x), axis, -1)
    rows = {i: f(x[i], *a, **k) for i in _np.ndindex(*x.shape[:-1])}
    first = next(iter(rows.values()))
    out = array([rows[i] for i in rows]).reshape(x.shape[:-1] + _np.shape(_noconv(first) if _noconv(first) is first else 0))
    return _np.moveaxis(out, -1, axis) if isinstance(first, _np.ndarray) and first.ndim else out


def vectorize(f, *a, **k):
    def g(*xs):
        xs = _np.broadcast_arrays(*[asarray(x) if isinstance(x, (list, tuple, _np.ndarray)) else array([x]) for x in xs])
        return array([f(*v) for v in zip(*[list(x.reshape(-1)) for x in xs])]).reshape(xs[0].shape)
    return g


def gradient(*a, **k):
    if any(is_sym(v) for x in a for v in _flat(x)):
        raise EncodingError("numpy.gradient")
    return _objects(_np.gradient(*[_np.asarray(x, dtype=float) for x in a], **k))


def ptp(x, axis=None, **k):
    return max_(x, axis=axis, **k) - min_(x, axis=axis, **k)


def copysign(a, b):
    def f(a, b):
        m = abs(a)
        return -m if b < 0 else m
    return _pair(f)(a, b)


def where(c, *xy):
    if not xy:
        return _np.nonzero(_np.asarray(c))
    x, y = xy
    c, x, y = _np.broadcast_arrays(_np.asarray(c), asarray(x) if isinstance(x, (list, tuple, _np.ndarray)) else array([x], object),
                                   asarray(y) if isinstance(y, (list, tuple, _np.ndarray)) else array([y], object))
    vals = [a if b else d for b, a, d in zip(c.reshape(-1), x.reshape(-1), y.reshape(-1))]
    return array([v.item() if isinstance(v, _np.generic) else v for v in vals]).reshape(c.shape)


def compare(op):
    def g(a, b, **k):
        return op(asarray(a) if isinstance(a, (list, tuple)) else a, asarray(b) if isinstance(b, (list, tuple)) else b)
    return g


def trapezoid(y, x=None, dx=1.0, **k):
    n = len(y)
    return sum_([(y[i] + y[i + 1]) / 2 * ((x[i + 1] - x[i]) if x is not None else dx) for i in range(n - 1)])


import operator as _op      # noqa

_MORE = dict(around=around, round=around, round_=around, ndim=ndim, fromiter=fromiter, append=append, apply_along_axis=apply_along_axis,
             vectorize=vectorize, gradient=gradient, ptp=ptp, copysign=copysign, where=where, greater=compare(_op.gt), less=compare(_op.lt),
             greater_equal=compare(_op.ge), less_equal=compare(_op.le), equal=compare(_op.eq), not_equal=compare(_op.ne),
             trapezoid=trapezoid, trapz=trapezoid, fmax=maximum, fmin=minimum, rint=lambda x: _each(lambda v: float_(round_(v)))(x),
             trunc=lambda x: _each(lambda v: float_(int_(v)))(x), fix=lambda x: _each(lambda v: float_(int_(v)))(x),
             float32=float_, double=float_, float_=float_)

numpy_proxy = _Proxy()
for _k in ("array asarray zeros ones empty full zeros_like ones_like empty_like eye sqrt sin cos tan deg2rad radians rad2deg "
           "degrees absolute fabs ceil floor square arcsin arccos arctan arctan2 exp log sign hypot cross dot linspace arange "
           "mean average amax amin nanmax nanmin maximum minimum argmax argmin isclose allclose array_equal isnan isfinite "
           "clip interp loadtxt savetxt").split():
    setattr(numpy_proxy, _k, globals()[_k])
numpy_proxy.identity = eye
numpy_proxy.asfarray = lambda a, dtype=None: array(a, float)
numpy_proxy.ascontiguousarray = lambda a, dtype=None: _np.ascontiguousarray(asarray(a, dtype))
numpy_proxy.abs = abs_
numpy_proxy.sum = sum_
numpy_proxy.max, numpy_proxy.min = max_, min_
numpy_proxy.inner = dot


def _mfun(f):
    def g(x, *a):
        r = f(x, *a)
        return r
    return g


def _mceil(x):
    return x.__ceil__() if isinstance(x, Sym) else (x if isinstance(x, SymInt) else _math.ceil(x))


def _mfloor(x):
    return x.__floor__() if isinstance(x, Sym) else (x if isinstance(x, SymInt) else _math.floor(x))


class _MathProxy:
    def __getattr__(self, k):
        return getattr(_math, k)


math_proxy = _MathProxy()
for _k, _f in dict(sqrt=sqrt, sin=sin, cos=cos, tan=tan, asin=arcsin, acos=arccos, atan=arctan, atan2=arctan2, exp=exp,
                   log=log, radians=radians, degrees=degrees, fabs=fabs, ceil=_mceil, floor=_mfloor,
                   hypot=lambda *a: sqrt(sum_(array([x * x for x in a]))), isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0:
                   bool(builtins.abs(a - b) <= max_(array([rel_tol * max_(array([builtins.abs(a), builtins.abs(b)])), abs_tol]))),
                   isnan=isnan, isfinite=isfinite, pow=lambda a, b: a ** b,
                   fsum=lambda xs: sum_(array(list(xs)))).items():
    setattr(math_proxy, _k, _f)

_BY_ID = {}
for _k in dir(_np):
    if hasattr(numpy_proxy, _k) and _k in vars(numpy_proxy):
        _BY_ID.setdefault(id(getattr(_np, _k)), vars(numpy_proxy)[_k])
for _k in vars(math_proxy):
    _BY_ID.setdefault(id(getattr(_math, _k)), vars(math_proxy)[_k])
_BY_ID[id(_np.linalg.norm)] = norm
_BY_ID[id(_np.linalg)] = numpy_proxy.linalg
_BY_ID[id(_np)] = numpy_proxy
_BY_ID[id(_math)] = math_proxy

PREFIXES = ("pytornado", "commonlibs.math", "airfoils", "aeroframe")


def range_(*a):
    """Symbolic bounds become concrete (case split)."""
    return range(*(x.concrete() if isinstance(x, SymInt) else x for x in a))


@contextlib.contextmanager
def patched(extra=()):
    """Replace numpy/math (and float/int) in the globals of the code under analysis.
    extra: (module, name, value) replacements (stubs)."""
    saved = []
    absent = object()

    def put(m, k, v):
        d = vars(m) if not isinstance(m, type) else None
        old = d.get(k, absent) if d is not None else m.__dict__.get(k, absent)
        saved.append((m, k, old))
        setattr(m, k, v)
    try:
        for name, m in list(sys.modules.items()):
            if m is None or not (name.split(".")[0] in ("pytornado", "airfoils", "aeroframe")
                                 or name.startswith("commonlibs.math")):
                continue
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                r = _BY_ID.get(id(v))
                if r is not None:
                    put(m, k, r)
            put(m, "float", float_)
            put(m, "int", int_)
            put(m, "round", round_)
            put(m, "range", range_)
        for m, k, v in extra:
            put(m, k, v)
        yield
    finally:
        for m, k, old in reversed(saved):
            if old is absent:
                delattr(m, k)
            else:
                setattr(m, k, old)
