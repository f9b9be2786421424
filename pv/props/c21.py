import os

from ..check import H, THOROUGH
from .. import project as P
from . import c19

FUNCTIONS = ["stdfun/run.py: standard_run, get_settings", "fileio/native/{settings,state,aircraft,results}.py", "aero/vlm.py (all)",
             "aero/c_vlm.cpp and the kernels (LLVM IR)", "objects/state.py, objects/settings.py (paths)"]
BOUNDS = ("runs over 1 to " + ("4" if THOROUGH else "3") + " states with arbitrary airspeed, density, angles, rates and reference values, one wing with 1 or 2 panels "
          "(with a flap or a mirror image); 11 states with one panel on the path of a random point; regular systems, their solution is an arbitrary function of matrix and right-hand side")
OUTSIDE = "more states; other geometries (the kernels themselves are decided elsewhere); runs on CPACS files; deformed wings"

NAMES = {"Fx": ("forces", "x"), "Fy": ("forces", "y"), "Fz": ("forces", "z"), "FD": ("forces", "D"), "FC": ("forces", "C"), "FL": ("forces", "L"),
         "Mx": ("forces", "l"), "My": ("forces", "m"), "Mz": ("forces", "n"),
         "Cx": ("coeffs", "x"), "Cy": ("coeffs", "y"), "Cz": ("coeffs", "z"), "CD": ("coeffs", "D"), "CC": ("coeffs", "C"), "CL": ("coeffs", "L"),
         "Cl": ("coeffs", "l"), "Cm": ("coeffs", "m"), "Cn": ("coeffs", "n")}
PRIMARY = ("airspeed", "alpha", "beta", "density", "rate_P", "rate_Q", "rate_R")
PLOTS = []


class Plots:
    @staticmethod
    def make_all(settings, aircraft, cur_state, vlmdata, lattice):
        PLOTS.append(dict(dir=str(settings.paths("d_plots")), aero=dict(cur_state.aero), forces=dict(vlmdata.forces),
                          gamma=list(vlmdata.panelwise["gamma"]), wake=lattice.v.copy(), aircraft=aircraft))


def plots():
    from pytornado.stdfun import run
    return P.quiet() + [(run, "makeplots", Plots)]


def stubs():
    return plots() + P.sections() + P.abstract_solver() + P.json_stubs(
        "fileio.native.settings", "fileio.native.state", "fileio.native.aircraft", "fileio.native.results")


def references(h):
    return {"area": h.real("area", 0.5, 10), "chord": h.real("chord", 0.5, 10), "span": h.real("span", 0.5, 10),
            "gcenter": h.reals("cg", 3), "rcenter": h.reals("rc", 3)}


def values(h, n, free=PRIMARY):
    aero = {}
    for k in PRIMARY:
        lo, hi = (-90, 90) if k in ("alpha", "beta") else (1, 200) if k == "airspeed" else (0.1, 2) if k == "density" else (-1, 1)
        aero[k] = [h.real(f"{k}{i}", lo, hi) for i in range(n)] if k in free else [0.5 * (i + 1) for i in range(n)]
        if k in ("airspeed", "density"):
            for x in aero[k]:
                h.assume(x > 0)
    return aero


def alone(settings_file, aero, i):
    """The analysis of one state by itself, on a fresh model."""
    from types import SimpleNamespace as NS
    import pytornado.fileio as io
    from pytornado.aero import vlm
    from pytornado.objects.state import FlightState
    from pytornado.objects.vlm_struct import VLMData
    settings = io.native.settings.load(settings_file)
    ac = io.native.aircraft.load(settings)
    vlm.set_autopanels(ac, settings)
    st = FlightState()
    st.update_from_dict({k: [v[i]] for k, v in aero.items()})
    cur = next(st.iter_states())
    cur.refs = ac.refs
    lat = vlm.gen_lattice(ac, cur, settings)
    data = VLMData()
    vlm.calc_downwash(lat, data)
    vlm.calc_boundary(lat, cur, data)
    vlm.solver(data)
    vlm.calc_results(lat, cur, data)
    return NS(cur=cur, lat=lat, data=data)


def run(h, shapes, entries, free=PRIMARY):
    from pytornado.stdfun import run as sr
    n = h.choose("states", entries)
    panels, sym, flap = h.choose("aircraft", shapes)
    aero = values(h, n, free)
    refs = references(h)
    del PLOTS[:]
    with P.Scratch("c21") as d:
        f = P.build(h, d, P.aircraft(refs, panels, sym, flap), aero,
                    {"save_results": {"global": True, "panelwise": True, "matrix_system": True, "aeroperformance": True}})
        with P.Scratch("c21ref") as d2:
            f2 = P.build(h, d2, P.aircraft(refs, panels, sym, flap), aero, {})
            ref = [alone(f2, aero, i) for i in range(n)]
        out = sr.standard_run(sr.StdRunArgs(run=f))
        paths = out["settings"].paths
        places = []
        for i in range(n):
            paths.counter = i
            places.append({k: str(paths("f_results_" + k)) for k in ("global", "panelwise", "matrix", "apm_global")})
        used = [p[k] for p in places for k in ("global", "panelwise", "matrix")] + [places[0]["apm_global"]]
        h.holds("files", all(os.path.isfile(p) and p.startswith(os.path.join(d, "_results")) for p in used) and len(set(used)) == 3 * n + 1)
        glob = [P.sjson.read(h, p["global"]) for p in places]
        tables = [P.table(p["panelwise"])[1] for p in places]
        systems = [P.table(p["matrix"])[1] for p in places]
        apm = P.sjson.read(h, places[0]["apm_global"])
    st = out["state"]
    h.holds("names", set(st.results) == set(NAMES), info=sorted(st.results))
    for k, (kind, q) in NAMES.items():
        h.holds(k + ".entries", len(st.results[k]) == n, info=len(st.results[k]))
        for i in range(n):
            want = getattr(ref[i].data, kind)[q]
            h.eq(f"{k} of {i}", st.results[k][i], want)
            h.eq(f"map file: {k} of {i}", apm[k][i], want)
    h.holds("plots", len(PLOTS) == n and len({p["dir"] for p in PLOTS}) == n, info=[p["dir"][-12:] for p in PLOTS])
    for i in range(n):
        g, r = glob[i], ref[i]
        for k in PRIMARY:
            h.eq(f"file: {k} of {i}", g["aero"][k], aero[k][i])
        for k in refs:
            h.eq(f"file: {k} of {i}", g["refs"][k], refs[k])
        h.eq(f"file: forces of {i}", g["global_forces"], dict(r.data.forces))
        h.eq(f"file: coefficients of {i}", g["global_coeffs"], dict(r.data.coeffs))
        tol = None if h.symbolic else 2e-6
        pw = r.data.panelwise
        h.eq(f"file: circulation of {i}", [row[0] for row in tables[i]], list(pw["gamma"]), tol)
        h.eq(f"file: system of {i}", systems[i], [list(row) + [b] for row, b in zip(r.data.matrix_downwash, r.data.array_rhs)], tol)
        h.eq(f"plot: state of {i}", PLOTS[i]["aero"], {k: aero[k][i] for k in PRIMARY})
        h.eq(f"plot: forces of {i}", PLOTS[i]["forces"], dict(r.data.forces))
        h.eq(f"plot: circulation of {i}", PLOTS[i]["gamma"], list(pw["gamma"]))
        h.eq(f"plot: lattice of {i}", PLOTS[i]["wake"], r.lat.v)
    h.eq("returned", dict(out["vlmdata"].forces), dict(ref[-1].data.forces))
    h.observe("rhs", list(out["vlmdata"].array_rhs))


ONE = [((1, 1), 0, False)]
TWO = [((1, 1), 2, False), ((1, 1), 0, True), ((1, 2), 0, False)]
HARNESSES = [
    H("one_panel", lambda h: run(h, ONE, [1, 2, 3] + ([4] if THOROUGH else [])), stubs=stubs, concrete_stubs=plots, linear=True, validate=1),
    H("many", lambda h: run(h, ONE, [11]), stubs=stubs, concrete_stubs=plots, linear=True, follow=1),
    H("two_panels", lambda h: run(h, TWO, [2], PRIMARY if THOROUGH else ("airspeed", "alpha", "density", "rate_P")), stubs=stubs, concrete_stubs=plots, linear=True, validate=1),
]
