"""Model of the dense linear solvers (the libraries are trusted): Cramer's rule, singular systems flagged."""
import numpy as np

from . import term
from .term import EncodingError, Sym


def det(a):
    n = len(a)
    if n == 1:
        return a[0][0]
    s = 0
    for j in range(n):
        c = a[0][j] * det([r[:j] + r[j + 1:] for r in a[1:]])
        s = s + c if j % 2 == 0 else s - c
    return s


MEMO = {}


def cramer(a, b):
    """Solution of a x = b, or None if a is singular."""
    a = [[v if isinstance(v, Sym) else Sym(term.node(v)) for v in r] for r in np.asarray(a, dtype=object).tolist()]
    b = [v if isinstance(v, Sym) else Sym(term.node(v)) for v in np.asarray(b, dtype=object).tolist()]
    n = len(b)
    if n > 4:
        raise EncodingError(f"linear system of {n} equations")
    if np.asarray(a, dtype=object).shape != (n, n):
        raise ValueError("shapes of the linear system do not match")
    d = det(a)
    if d == 0:
        return None
    out = []
    for j in range(n):
        m = [[b[i] if k == j else a[i][k] for k in range(n)] for i in range(n)]
        out.append(det(m) / d)
    return np.array(out, dtype=object)


def symbolic(*arrays):
    return any(isinstance(x, np.ndarray) and x.dtype == object for x in arrays)


class Lapack:
    """scipy.linalg.lapack with dgesv for symbolic systems."""

    @staticmethod
    def dgesv(a, b, overwrite_a=0, overwrite_b=0):
        from scipy.linalg import lapack
        if not symbolic(a, b):
            return lapack.dgesv(a, b, overwrite_a=overwrite_a, overwrite_b=overwrite_b)
        x = cramer(a, b if b.ndim == 1 else b[:, 0])
        n = len(a)
        info = 0 if x is not None else n
        if x is None:       # LAPACK leaves the right-hand side as it was modified so far
            x = np.array([Sym(term.fun(f"undefined{i}", *[term.node(v) for v in b.reshape(-1)])) for i in range(n)], dtype=object)
        if b.ndim == 2:
            x = x.reshape((n, 1))
        if overwrite_b:
            b[...] = x
        lu = np.array([[Sym(term.fun(f"lu{i},{j}", *[term.node(v) for v in a.reshape(-1)])) for j in range(n)] for i in range(n)], dtype=object)
        if overwrite_a and a.flags.f_contiguous:
            a[...] = lu
        return lu, np.arange(n), x, info

    def __getattr__(self, k):
        from scipy.linalg import lapack
        f = getattr(lapack, k)

        def g(*a, **kw):
            if symbolic(*a):
                raise EncodingError("lapack." + k)
            return f(*a, **kw)
        return g


def solve(a, b):
    if not symbolic(a, b):
        return np.linalg.solve(a, b)
    x = cramer(a, b if b.ndim == 1 else b[:, 0])
    if x is None:
        raise np.linalg.LinAlgError("Singular matrix")
    return x if b.ndim == 1 else x.reshape(b.shape)


def stubs():
    from pytornado.aero import vlm
    return [(vlm, "lapack", Lapack())]
