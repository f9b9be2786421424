import os
from types import SimpleNamespace as NS

from ..check import H, THOROUGH
from .. import kernel as K, project as P, sjson

FUNCTIONS = ["fileio/native/aircraft.py: load, save", "fileio/utils.py: dump_pretty_json, NDArrayEncoder",
             "objects/aircraft.py: Aircraft, Wing, WingSegment, WingControl (construction, generate, check)"]
BOUNDS = ("models of two wings (one with arbitrary corners, one with two joined segments), up to " + ("two" if THOROUGH else "one") + " control surface per wing; reference values, "
          "corners, relative positions, deflections, axis positions and panel numbers real or whole and free; every combination of missing optional entries; "
          "a model of four wings with 17 segments and 15 control surfaces on the path of a random point")
OUTSIDE = "segments given by angles and lengths; chords pointing upstream; models used for an analysis before they are saved; profile files in other folders"

CORNERS = [[0.0, 0.0, 0.0], [0.5, 2.0, 0.25], [1.5, 2.0, 0.25], [1.0, 0.0, 0.0]]
CORNERS2 = [[0.5, 2.0, 0.25], [1.0, 5.0, 0.5], [1.5, 5.0, 0.5], [1.5, 2.0, 0.25]]
AXES = ("inner_axis", "outer_axis")


def stubs():
    return P.json_stubs("fileio.native.aircraft") + profiles()


def profiles():
    from pytornado.objects import aircraft
    return P.sections() + [(aircraft, "import_airfoil_data", lambda path: (None, None))]


def settings(d, name="plane.json"):
    paths = {"f_aircraft": os.path.join(d, "aircraft", name), "root": d}
    os.makedirs(os.path.join(d, "aircraft"), exist_ok=True)
    os.makedirs(os.path.join(d, "airfoils"), exist_ok=True)
    open(os.path.join(d, "airfoils", "blade.wing"), "w").close()
    return NS(paths=lambda uid, *a, **k: paths[uid])


def same(h, label, a, b):
    """Like eq, also for None, strings and whole numbers."""
    h.eq(label, a, b)


def model(ac):
    """Everything a native file describes."""
    out = {"uid": ac.uid, "refs": {k: v for k, v in ac.refs.items()}, "wings": []}
    for wuid, w in ac.wings.items():
        x = {"key": wuid, "uid": w.uid, "symmetry": w.symmetry, "segments": [], "controls": []}
        for suid, s in w.segments.items():
            x["segments"].append({"key": suid, "uid": s.uid, "vertices": {k: list(s.vertices[k]) for k in "abcd"},
                                  "airfoils": dict(s.airfoils), "panels": dict(s.panels), "axis": {k: s.geometry[k] for k in AXES}})
        for cuid, c in w.controls.items():
            x["controls"].append({"key": cuid, "uid": c.uid, "type": c.device_type, "deflection": c.deflection, "mirror": c.deflection_mirror,
                                  "segments": dict(c.segment_uid), "vertices": dict(c.rel_vertices), "hinge": dict(c.rel_hinge_vertices),
                                  "panels": dict(c.panels)})
        out["wings"].append(x)
    return out


def wanted(f, d):
    """The model that a file describes."""
    refs = {"comment": None}
    refs.update(f["refs"])
    out = {"uid": f["uid"], "refs": refs, "wings": []}
    for w in f["wings"]:
        x = {"key": w["uid"], "uid": w["uid"], "symmetry": w["symmetry"], "segments": [], "controls": []}
        for s in w["segments"]:
            air = {k: os.path.join(d, v) if v.startswith("airfoils") else v for k, v in s["airfoils"].items()}
            pan = {"num_c": None, "num_s": None}
            pan.update(s.get("panels") or {})
            ax = {k: (s.get("geometry") or {}).get(k) for k in AXES}
            ax = {k: 0.25 if v is None else v for k, v in ax.items()}
            x["segments"].append({"key": s["uid"], "uid": s["uid"], "vertices": s["vertices"], "airfoils": air, "panels": pan, "axis": ax})
        for c in w.get("controls") or []:
            m = c.get("deflection_mirror")
            pan = {"num_c": None}
            pan.update(c.get("panels") or {})
            x["controls"].append({"key": c["uid"], "uid": c["uid"], "type": c["device_type"], "deflection": c["deflection"],
                                  "mirror": c["deflection"] if m is None and w["symmetry"] else m, "segments": c["segment_uid"],
                                  "vertices": c["rel_vertices"], "hinge": c["rel_hinge_vertices"], "panels": pan})
        out["wings"].append(x)
    return out


def segment(h, uid, corners, free=False, **more):
    v = {k: list(p) for k, p in zip("abcd", corners)}
    if free:
        v = {k: h.reals(uid + "." + k, 3) for k in "abcd"}
        for p, q in ("ad", "bc"):
            h.assume(v[q][0] - v[p][0] > h.frac(1, 10))
        e = K.vsub(v["b"], v["a"])
        h.assume(e[1] * e[1] + e[2] * e[2] > h.frac(1, 100))
    s = {"uid": uid, "vertices": v, "airfoils": {"inner": "NACA2412", "outer": "NACA0008"}}
    s.update(more)
    return s


def control(h, uid, seg, kind="flap", half=False, **more):
    r = {k: h.real(uid + "." + k, 0.5 if half and k == "eta_outer" else 0, 0.5 if half and k == "eta_inner" else 1) for k in ("eta_inner", "eta_outer", "xsi_inner", "xsi_outer")}
    h.assume(r["eta_inner"] < r["eta_outer"])
    c = {"uid": uid, "device_type": kind, "deflection": h.real(uid + ".deflection", -90, 90), "segment_uid": {"inner": seg, "outer": seg},
         "rel_vertices": r, "rel_hinge_vertices": {k: h.real(uid + ".hinge." + k, 0, 1) for k in ("xsi_inner", "xsi_outer")}}
    for x in [c["deflection"]]:
        h.assume(x >= -90)
        h.assume(x <= 90)
    for x in list(r.values()) + list(c["rel_hinge_vertices"].values()):
        h.assume(x >= 0)
        h.assume(x <= 1)
    c.update(more)
    return c


def refs(h):
    out = {k: h.real(k, 0.1, 50) for k in ("area", "chord", "span")}
    for x in out.values():
        h.assume(x > 0)
    out.update(gcenter=h.reals("cg", 3), rcenter=h.reals("rc", 3))
    return out


def plain_refs(h):
    return {"area": 2.0, "chord": 1.5, "span": 4, "gcenter": [0.25, 0, 0], "rcenter": [0, 1, 0.5]}


def trip(h, f):
    from pytornado.fileio.native import aircraft as io
    h.soft_abs = True
    with P.Scratch("c23") as d:
        s = settings(d)
        sjson.write(h, s.paths("f_aircraft"), f)
        ac = io.load(s)
        first = model(ac)
        h.eq("loaded", first, wanted(f, d))
        out = settings(d, "copy.json")
        geo = [dict(seg.geometry) for w in ac.wings.values() for seg in w.segments.values()]
        io.save(ac, out)
        h.eq("memory", model(ac), first)
        h.eq("memory.geometry", [dict(seg.geometry) for w in ac.wings.values() for seg in w.segments.values()], geo)
        with open(out.paths("f_aircraft")) as fp:
            text = fp.read()
        again = io.load(out)
        h.eq("reloaded", model(again), first)
        with P.Scratch("c23") as d2:        # the same project somewhere else
            moved = settings(d2)
            with open(moved.paths("f_aircraft"), "w") as fp:
                fp.write(text)
            h.eq("moved", model(io.load(moved)), wanted(f, d2))
        h.holds("order", [w.uid for w in again.wings.values()] == [w.uid for w in ac.wings.values()])
        io.save(again, out)
        h.observe("deflections", [c["deflection"] for w in model(again)["wings"] for c in w["controls"]])


def some(h, key, values):
    i = h.choose(key, ["left out"] + list(range(len(values))))
    return {} if i == "left out" else {key.split(".")[-1]: values[i]}


def numbers(h):
    """All numbers arbitrary."""
    f = {"uid": "plane", "refs": refs(h), "wings": []}
    sym = h.choose("symmetry", [0, 1, 2, 3])
    seg = segment(h, "s", CORNERS, True, panels={"num_c": h.integer("num_c", 1, 9), "num_s": h.integer("num_s", 1, 9)},
                  geometry={k: h.real(k, 0, 1) for k in AXES})
    for x in seg["geometry"].values():
        h.assume(x > 0)
        h.assume(x <= 1)
    ctl = [control(h, "c", "s", h.choose("kind", ["flap", "slat"]), deflection_mirror=h.real("mirror", -90, 90), panels={"num_c": h.integer("num_cc", 1, 9)})]
    h.assume(ctl[0]["deflection_mirror"] >= -90)
    h.assume(ctl[0]["deflection_mirror"] <= 90)
    f["wings"].append({"uid": "main", "symmetry": sym, "segments": [seg], "controls": ctl})
    trip(h, f)


def optional(h):
    """Optional entries may be missing, empty or null."""
    f = {"uid": "plane", "refs": dict(plain_refs(h)), "wings": []}
    sym = h.choose("symmetry", [0, 2])
    f["refs"].update(some(h, "comment", ["text"]))
    seg = segment(h, "s", CORNERS)
    seg.update(some(h, "segment.panels", [{}, None, {"num_c": 3}, {"num_s": None, "num_c": None}]))
    seg.update(some(h, "geometry", [{}, None, {"inner_axis": None}, {"outer_axis": 0.5}]))
    f["wings"].append({"uid": "main", "symmetry": sym, "segments": [seg]})
    trip(h, f)


def optional_controls(h):
    f = {"uid": "plane", "refs": dict(plain_refs(h)), "wings": []}
    sym = h.choose("symmetry", [0, 2])
    seg = segment(h, "s", CORNERS, panels={"num_c": 2, "num_s": 3})
    w = {"uid": "main", "symmetry": sym, "segments": [seg]}
    n = h.choose("controls", ["left out", 0, 1, 2])
    if n != "left out":
        w["controls"] = []
        for i in range(n):
            m = h.real(f"mirror{i}", -90, 90)
            h.assume(m >= -90)
            h.assume(m <= 90)
            c = control(h, f"c{i}", "s", "flap" if i == 0 else "slat")
            if i == 0:
                c.update(some(h, "deflection_mirror", [None, m]))
                c.update(some(h, "control.panels", [{}, None, {"num_c": 4}, {"num_c": None}]))
            else:
                c["deflection_mirror"] = m
            w["controls"].append(c)
    f["wings"].append(w)
    trip(h, f)


def several(h):
    """Several wings and segments, profiles from files."""
    prof = h.choose("profiles", [("NACA2412", "NACA0008"), ("airfoils/blade.wing", "NACA0008"), ("NACA1410", "airfoils/blade.wing")])
    f = {"uid": "plane", "refs": dict(plain_refs(h)), "wings": []}
    s1, s2 = segment(h, "s1", CORNERS), segment(h, "s2", CORNERS2)
    s2["airfoils"] = dict(zip(("inner", "outer"), prof))
    c = control(h, "c", "s1")
    c["segment_uid"]["outer"] = h.choose("outer", ["s1", "s2"])
    f["wings"].append({"uid": "main", "symmetry": 2, "segments": [s1, s2], "controls": [c]})
    f["wings"].append({"uid": "fin", "symmetry": 0, "segments": [segment(h, "s1", CORNERS2)], "controls": [control(h, "c", "s1", "slat")]})
    trip(h, f)


def many(h):
    """Larger models, names in no order."""
    f = {"uid": "plane", "refs": refs(h), "wings": []}
    for w, n, m in (("z", 11, 12), ("b", 1, 0), ("a", 3, 1), ("b2", 2, 2)):
        names = [f"s{12 - i}" for i in range(n)]
        segs = []
        for i, u in enumerate(names):
            c = [[x, y + 2 * i, z] for x, y, z in CORNERS]
            y = [h.real(f"{w}.y{i + j}", i + j, i + j + 0.5) for j in range(2)]
            for k in range(4):
                c[k][1] = y[k in (1, 2)]
                c[k][0], c[k][2] = float(k >= 2), 0.0
            segs.append(segment(h, u, c, panels={"num_c": h.integer(f"{w}.{u}.c", 1, 9), "num_s": h.integer(f"{w}.{u}.n", 1, 9)},
                                airfoils={"inner": f"NACA24{10 + i}", "outer": f"NACA14{11 + i}"}))
        ctl = [control(h, f"{w}.c{20 - i}", names[i % n], "slat" if i % 3 == 0 else "flap", True, deflection_mirror=h.real(f"{w}.m{i}", -90, 90)) for i in range(m)]
        for c in ctl:
            h.assume(c["deflection_mirror"] >= -90)
            h.assume(c["deflection_mirror"] <= 90)
        f["wings"].append({"uid": w, "symmetry": len(f["wings"]), "segments": segs, "controls": ctl})
    trip(h, f)


def missing(h):
    from pytornado.fileio.native import aircraft as io
    with P.Scratch("c23") as d:
        ex = h.raised(io.load, settings(d))
    h.holds("no file", isinstance(ex, IOError), info=repr(ex))


HARNESSES = [H(n, f, stubs=stubs, concrete_stubs=profiles, linear=True, validate=1, max_paths=20000) for n, f in
             (("numbers", numbers), ("optional", optional), ("optional_controls", optional_controls), ("several", several), ("missing", missing))]
HARNESSES.append(H("many", many, stubs=stubs, concrete_stubs=profiles, linear=True, follow=1))
