from ..check import H, THOROUGH
from .. import kernel as K

FUNCTIONS = ["aero/vlm.py:calc_results", "aero/c_results.cpp, aero/c_vlm.cpp: py2c_results and everything it calls (LLVM IR)"]
BOUNDS = "1 to 3 panels on all paths; 5, 9, 17 and 41 panels (thorough: 70) on the path of one inner point of the input space; lattice, circulations, flight state, reference values real and free"
OUTSIDE = "floating point rounding; more panels; points on a vortex line; dynamic pressure zero (pressure coefficient undefined)"


def panels(h):
    n = h.choose("panels", [1, 2, 3])
    lat, st = K.lattice(h, n), K.state(h)
    d, gamma = K.results(h, lat, st)
    pw = d.panelwise
    for i in range(n):
        mid = list(lat.bound_leg_midpoints[i])
        w = [0, 0, 0]
        for j in range(n):
            w = K.vadd(w, K.scale(gamma[j], K.horseshoe(h, mid, [list(lat.v[j, k]) for k in range(4)], lat.epsilon)))
        got = [pw[k][i] for k in ("vx", "vy", "vz")]
        h.eq(f"induced velocity {i}", got, w)
        h.eq(f"velocity magnitude {i}", pw["vmag"][i], K.root(h, K.dot(got, got)))
        u = K.vadd(K.onset(h, st, mid), got)
        leg = K.vsub(list(lat.v[i, 2]), list(lat.v[i, 1]))
        f = K.scale(st.aero["density"] * gamma[i], K.cross(u, leg))
        F = [pw[k][i] for k in ("fx", "fy", "fz")]
        h.eq(f"force {i}", F, f)
        h.eq(f"force magnitude {i}", pw["fmag"][i], K.root(h, K.dot(F, F)))
    h.observe("pw", {k: list(pw[k]) for k in ("vx", "vy", "vz", "fx", "fy", "fz", "vmag", "fmag")})


def pressure(h):
    n = h.choose("panels", [1, 2, 3])
    lat, st = K.lattice(h, n), K.state(h)
    h.assume(st.aero["airspeed"] > 0.1)
    h.assume(st.aero["density"] > 0.1)
    d, gamma = K.results(h, lat, st)
    pw = d.panelwise
    V, rho = st.aero["airspeed"], st.aero["density"]
    for i in range(n):
        F = [pw[k][i] for k in ("fx", "fy", "fz")]
        h.eq(f"cp {i}", pw["cp"][i] * (rho * V * V) * lat.a[i], 2 * K.dot(F, list(lat.n[i])))
    h.eq("gamma unchanged", list(pw["gamma"]), list(gamma))


def large(h):
    """No panel's velocity and force depend on the number of panels in any other way than through the sum."""
    n = h.choose("panels", [5, 9, 17, 41] + ([70] if THOROUGH else []))
    lat, st = K.lattice(h, n), K.state(h)
    d, gamma = K.results(h, lat, st)
    pw = d.panelwise
    for i in range(n):
        mid = list(lat.bound_leg_midpoints[i])
        w = [0, 0, 0]
        for j in range(n):
            w = K.vadd(w, K.scale(gamma[j], K.horseshoe(h, mid, [list(lat.v[j, k]) for k in range(4)], lat.epsilon)))
        got = [pw[k][i] for k in ("vx", "vy", "vz")]
        h.eq(f"induced velocity {i}", got, w)
        h.eq(f"velocity magnitude {i}", pw["vmag"][i], K.root(h, K.dot(got, got)))
        u = K.vadd(K.onset(h, st, mid), got)
        leg = K.vsub(list(lat.v[i, 2]), list(lat.v[i, 1]))
        F = [pw[k][i] for k in ("fx", "fy", "fz")]
        h.eq(f"force {i}", F, K.scale(st.aero["density"] * gamma[i], K.cross(u, leg)))
        h.eq(f"force magnitude {i}", pw["fmag"][i], K.root(h, K.dot(F, F)))
        q = st.aero["density"] * st.aero["airspeed"] * st.aero["airspeed"]
        h.eq(f"cp {i}", pw["cp"][i] * q * lat.a[i], 2 * K.dot(F, list(lat.n[i])))


HARNESSES = [H("large", large, follow=1), H("panels", panels, max_paths=20), H("pressure", pressure)]
