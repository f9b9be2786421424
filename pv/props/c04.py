from ..check import H, THOROUGH
from .. import kernel as K

FUNCTIONS = ["aero/vlm.py:calc_downwash", "aero/c_downwash.cpp, aero/c_vlm.cpp: py2c_downwash and everything it calls (LLVM IR)"]
BOUNDS = "1 to 3 panels against the formula (thorough: 4), 5, 8, 17, 41 and 70 panels (thorough: 129) against pairs alone on the path of one inner point of the input space; collocation points, normals, horseshoe corners and regularisation real and free"
OUTSIDE = "floating point rounding; more panels; points on a vortex line (division by zero)"


def matrix(lat):
    vlm, _, VLMData = K.mods()
    data = VLMData()
    vlm.calc_downwash(lat, data)
    return data.matrix_downwash


def formula(h):
    n = h.choose("panels", [1, 2, 3] + ([4] if THOROUGH else []))
    lat = K.lattice(h, n)
    m = matrix(lat)
    h.holds("shape", m.shape == (n, n))
    for i in range(n):
        for j in range(n):
            vel = K.horseshoe(h, list(lat.c[i]), [list(lat.v[j, k]) for k in range(4)], lat.epsilon)
            h.eq(f"entry {i},{j}", m[i, j], K.dot(vel, lat.n[i]))
    h.observe("matrix", m)


def alone(h):
    """Entry (i, j) of a larger aircraft is the entry of the two panels alone."""
    n = h.choose("panels", [2, 3])
    i = h.choose("i", list(range(n)))
    j = h.choose("j", list(range(n)))
    lat = K.lattice(h, n)
    m = matrix(lat)
    one = K.lattice(h, 1, tag="alone")
    one.c[0], one.n[0], one.v[0], one.epsilon = lat.c[i], lat.n[i], lat.v[j], lat.epsilon
    h.eq(f"entry {i},{j}", m[i, j], matrix(one)[0, 0])


def large(h):
    """No entry of a large matrix depends on the number of panels."""
    n = h.choose("panels", [5, 8, 17, 41, 70] + ([129] if THOROUGH else []))
    lat = K.lattice(h, n)
    m = matrix(lat)
    h.holds("shape", m.shape == (n, n))
    one = K.lattice(h, 1, tag="alone")
    for i in range(n):
        for j in range(n):
            one.c[0], one.n[0], one.v[0], one.epsilon = lat.c[i], lat.n[i], lat.v[j], lat.epsilon
            h.eq(f"entry {i},{j}", m[i, j], matrix(one)[0, 0])


HARNESSES = [H("formula", formula), H("alone", alone), H("large", large, follow=1)]
