import os
import re
from types import SimpleNamespace as NS

from ..check import H, THOROUGH
from .. import kernel as K, project as P

FUNCTIONS = ["fileio/native/results.py: save_all, save_aeroperformance_map and everything they call", "fileio/utils.py: dump_pretty_json, NDArrayEncoder",
             "objects/settings.py: Settings (paths)"]
BOUNDS = "1 to " + ("6" if THOROUGH else "4") + " panels, maps of 1 to 3 entries; in addition 11 and 33 panels and entries; all numbers real and free, every combination of switches, several runs of the counter"
OUTSIDE = "more panels; text files are compared to the seven digits they keep"

PANEL = ("gamma", "vx", "vy", "vz", "vmag", "fx", "fy", "fz", "fmag", "cp")
AERO = ("airspeed", "alpha", "beta", "density", "rate_P", "rate_Q", "rate_R")
TOL = 2e-6


def stubs():
    return P.json_stubs("fileio.native.results")


def settings(d, switches):
    from pytornado.objects.settings import Settings
    s = Settings("case.json", d, settings_dict={"aircraft": "a.json", "state": "s.json", "save_results": dict(switches)})
    s.paths("d_results", make_dirs=True, is_dir=True)
    return s


def files(d):
    out = []
    for root, _, names in os.walk(d):
        out += [os.path.join(root, n) for n in names]
    return sorted(out)


def snapshot(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    return x


def world(h, n):
    _, _, VLMData = K.mods()
    data = VLMData()
    for k in PANEL:
        data.panelwise[k] = h.array(k, (n,))
    data.matrix_downwash = h.array("A", (n, n))
    data.array_rhs = h.array("b", (n,))
    data.forces = {k: h.real("F" + k) for k in "xyzDCLlmn"}
    data.coeffs = {k: h.real("C" + k) for k in "xyzDCLlmn"}
    st = NS(aero={k: h.real(k) for k in AERO}, refs={"area": h.real("area"), "chord": h.real("chord"), "span": h.real("span"),
                                                     "gcenter": h.array("cg", (3,)), "rcenter": h.array("rc", (3,))})
    return data, st


def results(h, sizes=None):
    from pytornado.fileio.native import results as R
    n = h.choose("panels", sizes or [1, 2, 3, 4] + ([5, 6] if THOROUGH else []))
    switches = {k: bool(sizes) or h.choose(k, [True, False]) for k in ("global", "panelwise", "matrix_system", "aeroperformance")}
    counter = h.choose("counter", [9, 10, 99, 100, 1000] if sizes else [0, 7])
    data, st = world(h, n)
    memory = [vars(data), vars(st)]
    before = snapshot(memory)
    with P.Scratch("c22") as d:
        s = settings(d, switches)
        s.paths.counter = counter
        s.paths("d_results", make_dirs=True, is_dir=True)
        old = files(d)
        R.save_all(s, None, st, data)
        new = [f for f in files(d) if f not in old]
        want = {}
        for k, uid in (("global", "f_results_global"), ("panelwise", "f_results_panelwise"), ("matrix_system", "f_results_matrix")):
            if switches[k]:
                want[k] = str(s.paths(uid))
        h.holds("files", new == sorted(want.values()), info=f"{new} {want}")
        h.holds("place", all(f.startswith(str(s.paths("d_results"))) for f in new))
        for k in want:
            {"global": globals_, "panelwise": panels, "matrix_system": matrix}[k](h, want[k], data, st)
    h.eq("memory", memory, before)


def globals_(h, path, data, st):
    g = P.sjson.read(h, path)
    h.eq("global.aero", g["aero"], st.aero)
    h.eq("global.refs", g["refs"], {k: list(v) if hasattr(v, "__len__") else v for k, v in st.refs.items()})
    h.eq("global.forces", g["global_forces"], data.forces)
    h.eq("global.coeffs", g["global_coeffs"], data.coeffs)


def panels(h, path, data, st):
    head, rows = P.table(path)
    names = re.findall(r"(\w+) \[", " ".join(head))
    h.holds("panelwise.columns", sorted(names) == sorted(PANEL), info=names)
    h.holds("panelwise.rows", len(rows) == len(data.panelwise["gamma"]) and all(len(r) == len(names) for r in rows))
    for j, k in enumerate(names):
        h.eq("panelwise." + k, [r[j] for r in rows], list(data.panelwise[k]), None if h.symbolic else TOL)


def matrix(h, path, data, st):
    head, rows = P.table(path)
    h.eq("matrix", rows, [list(r) + [b] for r, b in zip(data.matrix_downwash, data.array_rhs)], None if h.symbolic else TOL)


def aeromap(h, sizes=(1, 2, 3)):
    from pytornado.fileio.native import results as R
    from pytornado.objects.state import FlightState
    from . import c19, c20
    n = h.choose("entries", sizes)
    pair = h.choose("pair", [sorted(p) for p in c19.PAIRS])
    st, aero = c20.flight(h, pair, n)
    for k in st.results:
        st.results[k] = [h.real(f"{k}.{i}") for i in range(n)]
    before = snapshot([vars(st)])
    with P.Scratch("c22") as d:
        s = settings(d, {"global": False, "panelwise": False, "matrix_system": False, "aeroperformance": True})
        old = files(d)
        R.save_aeroperformance_map(st, s)
        h.holds("map.file", [f for f in files(d) if f not in old] == [str(s.paths("f_results_apm_global"))])
        m = P.sjson.read(h, str(s.paths("f_results_apm_global")))
    for k in c19.AIRFLOW + AERO:
        v = st.aero[k]
        h.eq("map." + k, m[k], list(v) if v is not None else [])
    for k, v in st.results.items():
        h.eq("map." + k, m[k], v)
    h.eq("memory", [vars(st)], before)


def mapstubs():
    from . import c19
    return stubs() + c19.stubs()


HARNESSES = [H("results", results, stubs=stubs, validate=1), H("map", aeromap, stubs=mapstubs, validate=1, linear=True),
             H("large", lambda h: results(h, [11, 33] + ([101] if THOROUGH else [])), stubs=stubs, validate=1),
             H("long map", lambda h: aeromap(h, [11, 33]), stubs=mapstubs, validate=1, linear=True, follow=1)]
