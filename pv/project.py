"""Scratch projects: real settings, state and aircraft files (possibly with symbolic numbers)."""
import functools
import os
import shutil
import tempfile
from types import SimpleNamespace as NS

from . import linsys, sjson, term
from .term import Sym


class Scratch:
    def __init__(self, tag="pv"):
        self.tag = tag

    def __enter__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix=self.tag))
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir)


class Flat:
    """Stand-in for the external aerofoil classes: a profile without camber."""

    def __init__(self, *a, **k):
        pass

    NACA4 = staticmethod(lambda digits: Flat())

    def at_eta(self, eta):
        return self

    def camber_line_angle(self, xsi):
        return 0.0


def quiet():
    """Logging to files is left out, in every mode."""
    from pytornado.stdfun import run
    return [(run, "hlogger", NS(init=lambda *a, **k: None, decorate=str))]


def sections():
    from pytornado.objects import aircraft
    return [(aircraft, "Airfoil", Flat), (aircraft, "MorphAirfoil", Flat)]


def json_stubs(*modules):
    """Symbolic numbers in the JSON files of the code."""
    import importlib
    import json
    out = []
    for name in modules + ("fileio.utils",):
        m = importlib.import_module("pytornado." + name)
        for k, v in list(vars(m).items()):
            if v is json:
                out.append((m, k, sjson.Json))
            elif isinstance(v, functools.partial) and v.func is json.dump:
                out.append((m, k, functools.partial(sjson.Json.dump, *v.args, **v.keywords)))
            elif isinstance(v, functools.partial) and v.func is json.dumps:
                out.append((m, k, functools.partial(sjson.Json.dumps, *v.args, **v.keywords)))
            elif v is json.dump or v is json.dumps or v is json.load or v is json.loads:
                out.append((m, k, getattr(sjson.Json, v.__name__)))
    return out


class AbstractLapack(linsys.Lapack):
    """A regular system of any kind: its solution depends on matrix and right-hand side and on nothing else."""

    @staticmethod
    def dgesv(a, b, overwrite_a=0, overwrite_b=0):
        import numpy as np
        from scipy.linalg import lapack
        if not linsys.symbolic(a, b):
            return lapack.dgesv(a, b, overwrite_a=overwrite_a, overwrite_b=overwrite_b)
        key = [term.node(v) for v in list(a.reshape(-1)) + list(b.reshape(-1))]
        x = np.array([Sym(term.fun(f"solution{i}", *key)) for i in range(len(b))], dtype=object).reshape(b.shape)
        return a.copy(), np.arange(len(b)), x, 0


def abstract_solver():
    from pytornado.aero import vlm
    return [(vlm, "lapack", AbstractLapack())]


def table(path):
    """Header lines and rows of a text result file."""
    head, rows = [], []
    with open(path) as fp:
        for line in fp:
            if line.startswith("#"):
                head.append(line[1:].strip())
            elif line.strip():
                rows.append([sjson.back(float(x)) for x in line.split(",")])
    return head, rows


AIRCRAFT = {"uid": "plane", "refs": None, "wings": [
    {"uid": "main", "symmetry": 2, "segments": [
        {"uid": "s", "vertices": {"a": [0, 0, 0], "b": [0.5, 2, 0.25], "c": [1.5, 2, 0.25], "d": [1, 0, 0]},
         "airfoils": {"inner": "NACA0000", "outer": "NACA0000"}, "panels": {"num_c": 1, "num_s": 1}}], "controls": []}]}


def aircraft(refs, panels=(1, 1), symmetry=0, flap=False):
    import copy
    a = copy.deepcopy(AIRCRAFT)
    a["refs"] = refs
    w = a["wings"][0]
    w["symmetry"] = symmetry
    w["segments"][0]["panels"] = {"num_c": panels[0], "num_s": panels[1]}
    if flap:
        w["controls"].append({"uid": "flap", "device_type": "flap", "deflection": 5.0, "deflection_mirror": 0.0,
                              "segment_uid": {"inner": "s", "outer": "s"},
                              "rel_vertices": {"eta_inner": 0.0, "eta_outer": 1.0, "xsi_inner": 0.75, "xsi_outer": 0.75},
                              "rel_hinge_vertices": {"xsi_inner": 0.75, "xsi_outer": 0.75}, "panels": {"num_c": 1}})
    return a


def build(h, d, ac, aero, settings, name="case"):
    for sub in ("settings", "state", "aircraft"):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    sjson.write(h, os.path.join(d, "aircraft", "plane.json"), ac)
    sjson.write(h, os.path.join(d, "state", "flight.json"), {"aero": aero})
    s = {"aircraft": "plane.json", "state": "flight.json"}
    s.update(settings)
    p = os.path.join(d, "settings", name + ".json")
    sjson.write(h, p, s)
    return p
