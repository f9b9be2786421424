from ..check import H, THOROUGH
from .. import kernel as K
from ..term import land

FUNCTIONS = ["aero/vlm.py:calc_results", "aero/c_results.cpp (vlm_results, vlm_coeffs), aero/c_vlm.cpp: py2c_results (LLVM IR)"]
BOUNDS = "1, 2, 3 and 5 panels on all paths; 9, 17, 41 and 70 panels (thorough: 129) on the path of one inner point of the input space; lattice, circulations, flight state, reference values real and free"
OUTSIDE = "floating point rounding; more panels"


def small(h):
    totals(h, [1, 2, 3, 5])


def large(h):
    totals(h, [9, 17, 41, 70] + ([129] if THOROUGH else []))


def totals(h, sizes):
    n = h.choose("panels", sizes)
    lat, st = K.lattice(h, n), K.state(h)
    d, gamma = K.results(h, lat, st)
    pw, fo, co = d.panelwise, d.forces, d.coeffs
    F, M = [0, 0, 0], [0, 0, 0]
    for i in range(n):
        f = [pw[k][i] for k in ("fx", "fy", "fz")]
        F = K.vadd(F, f)
        M = K.vadd(M, K.cross(K.vsub(list(lat.bound_leg_midpoints[i]), list(st.refs["rcenter"])), f))
    h.holds("names", sorted(fo) == sorted(co) == sorted("xyzDCLlmn"))
    h.eq("forces", [fo[k] for k in "xyz"], F)
    h.eq("moments", [fo[k] for k in "lmn"], M)
    axes(h, st, fo, co)
    h.observe("totals", [dict(fo), dict(co)])


def axes(h, st, fo, co):
    a, b = st.aero["alpha"], st.aero["beta"]
    ca, sa, cb, sb = K.cos_deg(h, a), K.sin_deg(h, a), K.cos_deg(h, b), K.sin_deg(h, b)
    F = [fo[k] for k in "xyz"]
    h.eq("drag", fo["D"], K.dot(F, K.freestream(h, st)))
    # side force and lift: the two directions that complete the free stream to a right-handed system
    # with lift in the plane of symmetry
    h.eq("side force", fo["C"], K.dot(F, [ca * sb, cb, sa * sb]))
    h.eq("lift", fo["L"], K.dot(F, [-sa, 0, ca]))
    V, rho = st.aero["airspeed"], st.aero["density"]
    q = rho * V * V * h.frac(1, 2)
    if q == 0:
        q = 1
    S, l, s = st.refs["area"], st.refs["chord"], st.refs["span"]
    for k in "xyzDCL":
        h.eq("C" + k, co[k] * (q * S), fo[k])
    for k, ref in (("l", s), ("m", l), ("n", s)):
        h.eq("C" + k, co[k] * (q * S * ref), fo[k])


def wind_axes(h):
    """The three directions of `axes` are orthonormal, so the wind-axes loads have the length of the force."""
    st = K.state(h)
    a, b = st.aero["alpha"], st.aero["beta"]
    ca, sa, cb, sb = K.cos_deg(h, a), K.sin_deg(h, a), K.cos_deg(h, b), K.sin_deg(h, b)
    t = [K.freestream(h, st), [ca * sb, cb, sa * sb], [-sa, 0, ca]]
    for i in range(3):
        for j in range(3):
            h.eq(f"{i}.{j}", K.dot(t[i], t[j]), int(i == j))


def stale(h):
    """Whatever numbers the result dictionaries held before."""
    lat, st = K.lattice(h, 1), K.state(h)
    vlm, _, VLMData = K.mods()
    d0, gamma = K.results(h, lat, st)
    data = VLMData()
    for k in data.forces:
        data.forces[k] = h.real("old" + k)
        data.coeffs[k] = h.real("oldc" + k)
    d1, _ = K.results(h, lat, st, data=data)
    h.eq("forces", d1.forces, d0.forces)
    h.eq("coeffs", d1.coeffs, d0.coeffs)


HARNESSES = [H("large", large, follow=1), H("totals", small), H("wind_axes", wind_axes), H("stale", stale)]
