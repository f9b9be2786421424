from ..check import H, THOROUGH
from .. import kernel as K

FUNCTIONS = ["aero/vlm.py:calc_boundary", "aero/c_vlm.cpp: py2c_boundary and everything it calls (LLVM IR)"]
BOUNDS = "1 to 3 and 8 panels on all paths; 17, 65, 130 and 257 panels (thorough: 600) on the path of one inner point of the input space; all coordinates, normals, angles, rates, airspeed real and free"
OUTSIDE = "floating point rounding; more panels"


def rhs(h, st, lat):
    vlm, _, VLMData = K.mods()
    data = VLMData()
    vlm.calc_boundary(lat, st, data)
    return data.array_rhs


def small(h):
    formula(h, [1, 2, 3, 8])


def large(h):
    formula(h, [17, 65, 130, 257] + ([600] if THOROUGH else []))


def formula(h, sizes):
    n = h.choose("panels", sizes)
    lat, st = K.lattice(h, n), K.state(h)
    r = rhs(h, st, lat)
    h.holds("shape", len(r) == n)
    for i in range(n):
        h.eq(f"rhs[{i}]", r[i], -K.dot(K.onset(h, st, lat.c[i]), lat.n[i]))
    h.observe("rhs", list(r))


def linear(h):
    """Linear in airspeed and rates; independent of the moment reference point."""
    lat = K.lattice(h, 1)
    s1, s2 = K.state(h, tag="1"), K.state(h, tag="2")
    k1, k2 = h.real("k1"), h.real("k2")
    s3 = K.state(h, tag="3")
    for s in (s2, s3):
        for k in ("alpha", "beta"):
            s.aero[k] = s1.aero[k]
        s.refs["gcenter"] = s1.refs["gcenter"]
    for k in ("airspeed", "rate_P", "rate_Q", "rate_R"):
        s3.aero[k] = k1 * s1.aero[k] + k2 * s2.aero[k]
    h.eq("linear", rhs(h, s3, lat)[0], k1 * rhs(h, s1, lat)[0] + k2 * rhs(h, s2, lat)[0])


def axis(h):
    """A point on the rotation axis sees no rotation."""
    lat, st = K.lattice(h, 1), K.state(h)
    t = h.real("t")
    w = K.rates(st)
    for k in range(3):
        lat.c[0, k] = st.refs["gcenter"][k] + t * w[k]
    st.aero["airspeed"] = st.aero["airspeed"] * 0
    h.eq("axis", rhs(h, st, lat)[0], 0)


HARNESSES = [H("large", large, follow=1), H("formula", small), H("linear", linear), H("axis", axis)]
