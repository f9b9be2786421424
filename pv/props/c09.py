import numpy as np

from ..check import H, THOROUGH
from .. import kernel as K, linsys

FUNCTIONS = ["aero/vlm.py: solver, calc_downwash, calc_boundary, calc_results",
             "aero/c_vlm.cpp: py2c_downwash, py2c_boundary, py2c_results and everything they call (LLVM IR)"]
BOUNDS = ("linear systems of 1 to " + ("4" if THOROUGH else "3") + " equations with arbitrary entries; whole systems of 1 or 2 panels with arbitrary lattice, "
          "flight state and regularisation; one system after another")
OUTSIDE = "floating point rounding and ill-conditioned systems; larger systems; LAPACK itself (taken to solve regular systems and to flag singular ones)"


def mats(h, n, tag=""):
    return h.array(tag + "A", (n, n)), h.array(tag + "b", (n,))


def solve(h, data):
    """Exception of the solver or None."""
    vlm, _, _ = K.mods()
    return h.raised(vlm.solver, data)


def exactly_singular(A):
    """The elimination meets a zero pivot whatever the rounding."""
    A = np.array(A, dtype=float)
    return len(A) == 1 and A[0, 0] == 0 or not A.any(axis=0).all() or not A.any(axis=1).all()


def satisfied(h, data, A, b, label, ex):
    d = linsys.det([list(r) for r in A])
    n = len(b)
    if not h.symbolic and abs(float(d)) < 1e-6 and not exactly_singular(A):
        return False                # rounding decides
    if d == 0:
        h.holds(label + " error", ex is not None)
        return False
    h.holds(label + " solved", ex is None, info=repr(ex))
    g = data.panelwise["gamma"]
    h.holds(label + " shape", len(g) == n)
    for i in range(n):
        s = 0
        for j in range(n):
            s = s + A[i, j] * g[j]
        h.eq(f"{label} row {i}", s, b[i])
    h.eq(label + " matrix", data.matrix_downwash, A)
    h.eq(label + " rhs", data.array_rhs, b)
    return True


def system(h):
    vlm, _, VLMData = K.mods()
    n = h.choose("panels", [1, 2, 3] + ([4] if THOROUGH else []))
    data = VLMData()
    A, b = mats(h, n)
    data.matrix_downwash, data.array_rhs = A.copy(), b.copy()
    satisfied(h, data, A, b, "system", solve(h, data))
    h.observe("n", n)


def again(h):
    """A second state uses its own system, also after a first one."""
    vlm, _, VLMData = K.mods()
    n, m = h.choose("sizes", [(1, 1), (2, 2), (1, 2), (2, 1)])
    data = VLMData()
    A, b = mats(h, n)
    data.matrix_downwash, data.array_rhs = A.copy(), b.copy()
    ex = solve(h, data)
    A2, b2 = mats(h, m, "2")
    kept = h.choose("changed", ["both", "right-hand side", "matrix"]) if n == m else "both"
    if kept == "right-hand side":
        A2 = A
    if kept == "matrix":
        b2 = b
    data.matrix_downwash, data.array_rhs = A2.copy(), b2.copy()
    satisfied(h, data, A2, b2, "second", solve(h, data))


def singular(h):
    """Linearly dependent rows: no unique solution."""
    vlm, _, VLMData = K.mods()
    data = VLMData()
    n = h.choose("panels", [1, 2, 3])
    A, b = mats(h, n)
    A[n - 1] = A[0] * h.choose("factor", [0.0, 1.0, 2.0]) if n > 1 else A[0] * 0.0
    if n == 3:
        A[1] = A[0] * 0.0
    data.matrix_downwash, data.array_rhs = A.copy(), b.copy()
    h.holds("error", solve(h, data) is not None)


def tangency(h):
    """Whole chain: the total velocity has no component normal to the panel."""
    vlm, _, VLMData = K.mods()
    n = h.choose("panels", [1, 2])
    lat, st = K.lattice(h, n), K.state(h)
    data = VLMData()
    vlm.calc_downwash(lat, data)
    vlm.calc_boundary(lat, st, data)
    A, b = data.matrix_downwash.copy(), data.array_rhs.copy()
    if n == 1:      # for more panels the system may be any, see above
        if not satisfied(h, data, A, b, "system", solve(h, data)):
            return
        g = list(data.panelwise["gamma"])
    for i in range(n):
        nrm = list(lat.n[i])
        onset = K.dot(K.onset(h, st, lat.c[i]), nrm)
        h.eq(f"onset {i}", -b[i], onset)
        for j in range(n):
            h.eq(f"influence {i},{j}", A[i, j], K.dot(K.horseshoe(h, list(lat.c[i]), [list(lat.v[j, k]) for k in range(4)], lat.epsilon), nrm))
    if n > 1:
        return
    vlm.calc_results(lat, st, data)
    h.eq("kept", list(data.panelwise["gamma"]), g)


HARNESSES = [H("system", system, stubs=linsys.stubs), H("again", again, stubs=linsys.stubs), H("singular", singular, stubs=linsys.stubs),
             H("tangency", tangency, stubs=linsys.stubs, linear=True)]
