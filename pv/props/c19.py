import os
import shutil
import tempfile
from types import SimpleNamespace as NS

from ..check import H, THOROUGH
from .. import npx, sjson, term
from ..term import Sym

FUNCTIONS = ["objects/state.py: FlightState.update_from_dict, check_values", "fileio/native/state.py: load"]
BOUNDS = ("every combination of given, null and omitted airflow quantities, 1 to " + ("3" if THOROUGH else "2") + " states per quantity (lists of different lengths, "
          "plain numbers), all values real and free; the atmosphere is an arbitrary function of altitude")
OUTSIDE = "lists in which only some entries are null; entries that are no numbers; altitudes outside the range of the atmosphere library; floating point rounding"

AIRFLOW = ("airspeed", "density", "mach", "altitude")
PAIRS = ({"airspeed", "density"}, {"airspeed", "altitude"}, {"mach", "altitude"})
RANGE = dict(airspeed=(0, 300), density=(0, 2), mach=(0, 3), altitude=(0, 20000), alpha=(-400, 400), beta=(-400, 400),
             rate_P=(-10, 10), rate_Q=(-10, 10), rate_R=(-10, 10))


class Atmosphere:
    """Arbitrary atmosphere: the values depend on altitude and on nothing else."""

    def __init__(self, altitude):
        self.z = list(altitude) if hasattr(altitude, "__len__") else [altitude]

    def _all(self, name):
        return npx.array([Sym(term.fun(name, term.node(z))) for z in self.z])

    density = property(lambda s: s._all("density"))
    speed_of_sound = property(lambda s: s._all("speed_of_sound"))


def stubs():
    from pytornado.objects import state
    return [(state, "Atmosphere", Atmosphere)]


def atmosphere(h, z):
    if h.symbolic:
        return Sym(term.fun("density", term.node(z))), Sym(term.fun("speed_of_sound", term.node(z)))
    from ambiance import Atmosphere as A
    a = A(z)
    return float(a.density[0]), float(a.speed_of_sound[0])


def given(h, key, n):
    v = [h.real(f"{key}{i}", *RANGE[key]) for i in range(n)]
    return v


def check(h, aero, update):
    """update() takes the values; the outcome must be the documented one."""
    have = {k for k in AIRFLOW if aero.get(k) is not None}
    n = {len(v) if isinstance(v, list) else 1 for v in aero.values() if v is not None}
    angles = [x for k in ("alpha", "beta") for x in (aero[k] if isinstance(aero[k], list) else [aero[k]])]
    ok = have in PAIRS and len(n) == 1
    ok = ok and all(bool(x >= -90) and bool(x <= 90) for x in angles)
    st, ex = update()
    h.holds("accepted" if ok else "refused", (ex is None) == ok, info=f"{sorted(have)} {sorted(n)} {ex!r}")
    if not ok:
        return
    n = n.pop()
    h.holds("entries", st.num_apm_entries == n, info=st.num_apm_entries)
    val = {k: v if isinstance(v, list) else [v] for k, v in aero.items() if v is not None}
    for k, v in val.items():
        h.eq(k, list(st.aero[k]), v)
    atm = [atmosphere(h, z) for z in val["altitude"]] if "altitude" in val else None
    if "density" not in val:
        h.eq("density", list(st.aero["density"]), [a[0] for a in atm])
    if "mach" in val:
        h.eq("airspeed", list(st.aero["airspeed"]), [m * a[1] for m, a in zip(val["mach"], atm)])
    h.observe("aero", [list(st.aero[k]) for k in sorted(val)])


def direct(h, aero):
    from pytornado.objects.state import FlightState
    before = {k: list(v) if isinstance(v, list) else v for k, v in aero.items()}

    def go():
        st = FlightState()
        return st, h.raised(st.update_from_dict, aero)

    def done():
        r = go()
        for k, v in before.items():
            h.eq("given." + k, aero[k], v)
        return r
    return done


def file(h, aero):
    from pytornado.fileio.native import state

    def go():
        d = tempfile.mkdtemp(prefix="c19")
        out = []
        try:
            path = os.path.join(d, "state.json")
            sjson.write(h, path, {"aero": aero})
            ex = h.raised(lambda: out.append(state.load(NS(paths=lambda uid, *a: path))))
        finally:
            shutil.rmtree(d)
        return (out or [None])[0], ex
    return go


def inputs(h, how):
    """Which quantities are given; all lists of the same length."""
    n = h.choose("states", ["number", 1, 2] + ([3] if THOROUGH else []))
    aero = {}
    for k in AIRFLOW:
        c = h.choose(k, ["given", "null", "omitted"])
        if c == "null":
            aero[k] = None
        elif c == "given":
            aero[k] = given(h, k, 1)[0] if n == "number" else given(h, k, n)
    for k in ("alpha", "beta", "rate_P", "rate_Q", "rate_R"):
        aero[k] = given(h, k, 1)[0] if n == "number" else given(h, k, n)
    check(h, aero, how(h, aero))


def lengths(h):
    pair = h.choose("pair", [sorted(p) for p in PAIRS])
    aero = {}
    for k in pair + ["alpha", "beta", "rate_P", "rate_Q", "rate_R"]:
        n = h.choose(k, ["number", 1, 2] if k in ("beta", "rate_P", "rate_Q") else [1, 2] + ([3] if THOROUGH else []))
        aero[k] = given(h, k, 1)[0] if n == "number" else given(h, k, n)
        for x in aero[k] if isinstance(aero[k], list) else [aero[k]]:
            h.assume(x >= -90)
            h.assume(x <= 90)
    check(h, aero, direct(h, aero))


def complete(h):
    """Angles are required."""
    from pytornado.objects.state import FlightState
    aero = {k: given(h, k, 1) for k in ("airspeed", "density", "rate_P", "rate_Q", "rate_R")}
    missing = h.choose("missing", ["alpha", "beta"])
    how = h.choose("how", ["null", "omitted"])
    other = "beta" if missing == "alpha" else "alpha"
    aero[other] = given(h, other, 1)
    if how == "null":
        aero[missing] = None
    h.holds("refused", h.raised(FlightState().update_from_dict, aero) is not None)


def jstubs():
    from pytornado.fileio.native import state
    return stubs() + [(state, "json", sjson.Json)]


HARNESSES = [H("inputs", lambda h: inputs(h, direct), stubs=stubs, max_paths=20000, linear=True, validate=1),
             H("file", lambda h: inputs(h, file), stubs=jstubs, max_paths=20000, linear=True, validate=1),
             H("lengths", lengths, stubs=stubs, max_paths=20000, linear=True, validate=1), H("complete", complete, stubs=stubs)]
