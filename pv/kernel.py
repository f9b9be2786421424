"""Inputs and reference formulas for the native kernels."""
from types import SimpleNamespace as NS

from . import term
from .term import Sym


def mods():
    from pytornado.aero import vlm
    from pytornado.objects.vlm_struct import VLMData, VLMLattice
    return vlm, VLMLattice, VLMData


def state(h, rates=True, tag="", speed=(0, 10)):
    """A flight state as the kernels see it: all values free."""
    aero = {}
    aero["airspeed"] = h.real(tag + "airspeed", *speed)
    aero["density"] = h.real(tag + "density", 0, 10)
    aero["alpha"] = h.real(tag + "alpha", -90, 90)
    aero["beta"] = h.real(tag + "beta", -90, 90)
    for r in "PQR":
        aero["rate_" + r] = h.real(tag + "rate_" + r, -10, 10)
    refs = dict(gcenter=h.array(tag + "cg", (3,)), rcenter=h.array(tag + "rp", (3,)), area=h.real(tag + "area", 0.01, 10),
                span=h.real(tag + "span", 0.01, 10), chord=h.real(tag + "chord", 0.01, 10))
    return NS(aero=aero, refs=refs)


def lattice(h, n, tag="", eps=True):
    vlm, VLMLattice, VLMData = mods()
    lat = VLMLattice()
    lat.info["num_panels"] = n
    lat.info["num_segments"] = n
    lat.p = h.array(tag + "p", (n, 4, 3))
    lat.v = h.array(tag + "v", (n, 4, 3))
    lat.c = h.array(tag + "c", (n, 3))
    lat.n = h.array(tag + "n", (n, 3))
    lat.a = h.array(tag + "a", (n,), 0.01, 10)
    lat.bound_leg_midpoints = h.array(tag + "m", (n, 3))
    lat.epsilon = h.real(tag + "eps", 1e-9, 0.5)
    return lat


def copies(lat):
    return {k: getattr(lat, k).copy() for k in ("p", "v", "c", "n", "a", "bound_leg_midpoints")}


# ----- vector algebra and elementary functions for specifications -----

def _is(h):
    return h.symbolic


def sin_deg(h, x):
    import math
    return Sym(term.sin(_rad(x))) if h.symbolic else math.sin(math.radians(x))


def cos_deg(h, x):
    import math
    return Sym(term.cos(_rad(x))) if h.symbolic else math.cos(math.radians(x))


def _rad(x):
    return term.mul(term.node(x), term.mul(term.const(term.Fraction(1, 180)), term.PI))


def pi(h):
    import math
    return Sym(term.PI) if h.symbolic else math.pi


def root(h, x):
    import math
    return Sym(term.sqrt(term.node(x))) if h.symbolic else math.sqrt(x)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def vsub(a, b):
    return [a[i] - b[i] for i in range(3)]


def vadd(a, b):
    return [a[i] + b[i] for i in range(3)]


def scale(k, a):
    return [k * x for x in a]


def lin(*terms):
    """Linear combination of (coefficient, vector)."""
    out = [0, 0, 0]
    for k, v in terms:
        out = [out[i] + k * v[i] for i in range(3)]
    return out


def freestream(h, st):
    a, b = st.aero["alpha"], st.aero["beta"]
    return [cos_deg(h, a) * cos_deg(h, b), -sin_deg(h, b), sin_deg(h, a) * cos_deg(h, b)]


def rates(st):
    return [st.aero["rate_P"], st.aero["rate_Q"], st.aero["rate_R"]]


def onset(h, st, pt):
    """Air velocity relative to the point pt of the aircraft, without induced velocity:
    free stream minus the velocity of the point due to rotation about the centre of gravity."""
    u = scale(st.aero["airspeed"], freestream(h, st))
    w = cross(rates(st), vsub(pt, st.refs["gcenter"]))
    return vsub(u, w)


def leg(h, p, a, b, eps):
    """Velocity induced at p by a straight vortex segment a -> b of unit strength,
    Biot-Savart law in the form of Katz & Plotkin with the regularisation of the code."""
    r1, r2 = vsub(p, a), vsub(p, b)
    m1, m2 = root(h, dot(r1, r1)), root(h, dot(r2, r2))
    k = (m1 + m2) / (4 * pi(h) * m1 * m2 * (m1 * m2 * (1 + eps) + dot(r1, r2)))
    return scale(k, cross(r1, r2))


def horseshoe(h, p, v, eps):
    out = [0, 0, 0]
    for k in range(3):
        out = vadd(out, leg(h, p, v[k], v[k + 1], eps))
    return out


def unchanged(h, lat, before, label="inputs"):
    for k, v in before.items():
        h.eq(f"{label}.{k}", getattr(lat, k), v)


# ----- lattice generation -----

def patch_lattice(h, counts, q=None):
    """Lattice with arrays as gen_lattice allocates them (but with arbitrary old contents)."""
    import numpy as np
    vlm, VLMLattice, _ = mods()
    n = sum(a * b for a, b in counts)
    lat = VLMLattice()
    lat.info["num_segments"] = len(counts)
    lat.info["num_panels"] = n
    lat.p = h.empty((n, 4, 3), "stale.p")
    lat.v = h.empty((n, 4, 3), "stale.v")
    lat.c = h.empty((n, 3), "stale.c")
    lat.bound_leg_midpoints = h.empty((n, 3), "stale.m")
    lat.n = h.empty((n, 3), "stale.n")
    lat.a = h.empty((n,), "stale.a")
    lat.epsilon = h.real("eps", 1e-9, 0.5)
    patches = h.array("q", (len(counts), 4, 3)) if q is None else q
    return lat, patches, state(h)


def run_lattice(lat, st, patches, counts):
    import numpy as np
    vlm, _, _ = mods()
    n = lat.info["num_panels"]
    vlm.c_vlm.py2c_lattice(lat, st, patches, np.zeros((n,), dtype=int), np.array(counts, dtype=int))


def results(h, lat, st, data=None, gamma=None):
    vlm, _, VLMData = mods()
    data = data or VLMData()
    n = lat.info["num_panels"]
    gamma = h.array("gamma", (n,)) if gamma is None else gamma
    data.panelwise["gamma"] = gamma.copy()
    vlm.calc_results(lat, st, data)
    return data, gamma
