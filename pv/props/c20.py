from ..check import H, THOROUGH
from .. import kernel as K
from . import c19

FUNCTIONS = ["objects/state.py: FlightState.iter_states, free_stream_velocity_vector, update_from_dict", "aero/vlm.py: calc_boundary, calc_results",
             "aero/c_vlm.cpp: py2c_lattice, py2c_boundary, py2c_results and everything they call (LLVM IR)"]
BOUNDS = "maps of 1 to " + ("4" if THOROUGH else "3") + " entries (10 and 25 entries on the paths of random points) given by airspeed and density, airspeed and altitude or Mach number and altitude, all values real and free; kernels on one panel"
OUTSIDE = "floating point rounding; more entries or panels"

PRIMARY = ("airspeed", "alpha", "beta", "density", "rate_P", "rate_Q", "rate_R")


def flight(h, pair, n):
    from pytornado.objects.state import FlightState
    aero = {}
    for k in list(pair) + list(PRIMARY):
        if k not in c19.AIRFLOW or k in pair:
            lo, hi = (-90, 90) if k in ("alpha", "beta") else c19.RANGE[k]
            aero[k] = [h.real(f"{k}{i}", lo, hi) for i in range(n)]
    st = FlightState()
    st.update_from_dict(aero)
    return st, aero


def vector(h, v, a, b):
    return [v * K.cos_deg(h, a) * K.cos_deg(h, b), v * -K.sin_deg(h, b), v * K.sin_deg(h, a) * K.cos_deg(h, b)]


def entries(h, sizes=None):
    n = h.choose("entries", sizes or [1, 2, 3] + ([4] if THOROUGH else []))
    pair = h.choose("pair", [sorted(p) for p in c19.PAIRS])
    st, aero = flight(h, pair, n)
    whole = {k: list(st.aero[k]) for k in PRIMARY}
    how = h.choose("iteration", ["one by one", "all first", "twice"])
    if how == "twice":
        for _ in st.iter_states():
            pass
    seen = []
    src = st.iter_states() if how != "all first" else list(st.iter_states())
    for i, cur in enumerate(src):
        seen.append(cur)
        one(h, cur, i, aero, whole, pair)
        if how == "one by one":       # what an analysis does to its own state is its own business
            for k in PRIMARY:
                cur.aero[k] = 0.0
            cur.free_stream_velocity_vector = None
    h.holds("count", len(seen) == n, info=len(seen))
    if how != "one by one":
        for i, cur in enumerate(seen):
            one(h, cur, i, aero, whole, pair)
    for k in PRIMARY:
        h.eq("map." + k, list(st.aero[k]), whole[k])


def one(h, cur, i, aero, whole, pair):
    h.holds("quantities", set(cur.aero) == set(PRIMARY), info=sorted(cur.aero))
    for k in PRIMARY:
        h.eq(f"{k} of {i}", cur.aero[k], whole[k][i])
        if k in aero:
            h.eq(f"{k} given {i}", cur.aero[k], aero[k][i])
        h.holds("number", not hasattr(cur.aero[k], "__len__"))
    # derived quantities
    if "altitude" in pair:
        d, a = c19.atmosphere(h, aero["altitude"][i])
        h.eq(f"density from altitude {i}", cur.aero["density"], d)
        if "mach" in pair:
            h.eq(f"airspeed from mach {i}", cur.aero["airspeed"], aero["mach"][i] * a)
    h.eq(f"vector {i}", list(cur.free_stream_velocity_vector), vector(h, cur.aero["airspeed"], cur.aero["alpha"], cur.aero["beta"]))


def kernels(h):
    """The vector of the state is what the native kernels use."""
    st, aero = flight(h, ["airspeed", "density"], 2)
    which = h.choose("entry", [0, 1])
    cur = list(st.iter_states())[which]
    u = list(cur.free_stream_velocity_vector)
    base = K.state(h)
    cur.refs = base.refs
    lat = K.lattice(h, 1)
    vlm, _, VLMData = K.mods()
    data = VLMData()
    vlm.calc_boundary(lat, cur, data)
    r = K.vsub(list(lat.c[0]), list(cur.refs["gcenter"]))
    w = K.cross(K.rates(cur), r)
    h.eq("boundary", data.array_rhs[0], -K.dot(K.vsub(u, w), list(lat.n[0])))
    d, gamma = K.results(h, lat, cur)
    F = [d.forces[k] for k in "xyz"]
    h.eq("drag", d.forces["D"] * cur.aero["airspeed"], K.dot(F, u))


def wake(h):
    st, aero = flight(h, ["airspeed", "density"], 2)
    which = h.choose("entry", [0, 1])
    cur = list(st.iter_states())[which]
    u = list(cur.free_stream_velocity_vector)
    lat, q, base = K.patch_lattice(h, [(1, 1)])
    cur.refs = base.refs
    h.assume(cur.aero["airspeed"] > 0)
    K.run_lattice(lat, cur, q, [(1, 1)])
    v = lat.v[0]
    for a, b in ((1, 0), (2, 3)):
        d = K.vsub(list(v[b]), list(v[a]))
        h.eq("parallel", K.cross(d, u), [0, 0, 0])
        h.holds("downstream", K.dot(d, u) >= 0)


HARNESSES = [H("entries", entries, stubs=c19.stubs, validate=1, linear=True, max_paths=5000),
             H("many", lambda h: entries(h, [10, 25]), stubs=c19.stubs, linear=True, follow=1), H("kernels", kernels), H("wake", wake)]
