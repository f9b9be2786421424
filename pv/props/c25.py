import os

from ..check import H, THOROUGH
from .. import project as P, sjson
from . import c23
from .c23 import CORNERS, CORNERS2, plain_refs, settings

FUNCTIONS = ["fileio/native/aircraft.py: load", "objects/aircraft.py: Aircraft.generate, add_wing, Wing.symmetry, add_segment, add_control, generate, "
             "WingSegment.check_*, WingControl.device_type, check"]
BOUNDS = ("models of one or two wings with one or two segments and up to two control surfaces; all deflections, relative positions, hinge positions, reference values, axis "
          "positions, panel numbers and the symmetry number free; names and device types from a list; every entry once of each other JSON type")
OUTSIDE = "truth values in place of numbers; missing entries other than panel numbers and mirror deflections; not-a-number and infinite values; names of segments that do not exist"

stubs, profiles = c23.stubs, c23.profiles


def seg(uid="s", corners=CORNERS, **more):
    s = {"uid": uid, "vertices": {k: list(p) for k, p in zip("abcd", corners)}, "airfoils": {"inner": "NACA2412", "outer": "NACA0008"}}
    s.update(more)
    return s


def ctl(uid="c", **more):
    c = {"uid": uid, "device_type": "flap", "deflection": 5, "segment_uid": {"inner": "s", "outer": "s"},
         "rel_vertices": {"eta_inner": 0.25, "eta_outer": 0.75, "xsi_inner": 0.5, "xsi_outer": 0.75}, "rel_hinge_vertices": {"xsi_inner": 0.5, "xsi_outer": 0.75}}
    c.update(more)
    return c


def wing(uid="main", sym=2, segments=None, controls=None):
    return {"uid": uid, "symmetry": sym, "segments": [seg()] if segments is None else segments, "controls": controls or []}


def plane(h, *wings, refs=None):
    return {"uid": "plane", "refs": refs or plain_refs(h), "wings": list(wings)}


def load(h, f):
    from pytornado.fileio.native import aircraft as io
    h.soft_abs = True
    out = []
    with P.Scratch("c25") as d:
        s = settings(d)
        sjson.write(h, s.paths("f_aircraft"), f)
        ex = h.raised(lambda: out.append(io.load(s)))
    return (out[0] if out else None), ex


def decide(h, f, conditions, what=""):
    """Accepted exactly if all conditions hold."""
    bad = [n for n, c in conditions if not bool(c)][:1]
    ac, ex = load(h, f)
    if bad:
        h.holds(f"refused {bad[0]}{what}", ex is not None)
        return None
    h.holds(f"accepted{what}", ex is None, info=repr(ex)[:300])
    return ac


def within(n, x, lo, hi):
    return [(n + " low", x >= lo), (n + " high", x <= hi)]


def control(h):
    """Deflections and positions of a control surface."""
    sym = h.choose("symmetry", [0, 1, 2, 3])
    two = h.choose("segments", [1, 2])
    kind = h.choose("kind", ["flap", "slat"])
    part = h.choose("free", ["deflections", "spanwise", "chordwise", "hinge"])
    c = ctl(device_type=kind)
    cond = []
    d = c["deflection"]
    if part == "deflections":
        d = c["deflection"] = h.real("deflection", -200, 200)
        cond += within("deflection", d, -90, 90)
        m = h.choose("mirror", ["left out", "null", "given"])
        if m == "given":
            c["deflection_mirror"] = h.real("mirror", -200, 200)
            if sym:
                cond += within("mirror deflection", c["deflection_mirror"], -90, 90)
        elif m == "null":
            c["deflection_mirror"] = None
    elif part == "spanwise":
        for k in ("eta_inner", "eta_outer"):
            c["rel_vertices"][k] = h.real(k, -1, 2)
            cond += within(k, c["rel_vertices"][k], 0, 1)
    elif part == "chordwise":
        for k in ("xsi_inner", "xsi_outer"):
            c["rel_vertices"][k] = h.real(k, -1, 2)
            cond += within(k, c["rel_vertices"][k], 0, 1)
    else:
        for k in ("xsi_inner", "xsi_outer"):
            c["rel_hinge_vertices"][k] = h.real("hinge." + k, -1, 2)
            cond += within("hinge " + k, c["rel_hinge_vertices"][k], 0, 1)
    segs = [seg()]
    if two == 2:
        segs.append(seg("s2", CORNERS2))
        c["segment_uid"]["outer"] = "s2"
    elif part == "spanwise":
        cond.append(("order", c["rel_vertices"]["eta_inner"] < c["rel_vertices"]["eta_outer"]))
    ac = decide(h, plane(h, wing(sym=sym, segments=segs, controls=[c])), cond, f" {part}")
    if ac is None:
        return
    got = ac.wings["main"].controls["c"]
    h.eq("deflection kept", got.deflection, d)
    if sym:
        m = c.get("deflection_mirror")
        h.eq("mirror deflection", got.deflection_mirror, d if m is None else m)
    h.eq("positions kept", [got.rel_vertices[k] for k in sorted(c["rel_vertices"])], [c["rel_vertices"][k] for k in sorted(c["rel_vertices"])])
    h.eq("hinge kept", [got.rel_hinge_vertices[k] for k in sorted(c["rel_hinge_vertices"])], [c["rel_hinge_vertices"][k] for k in sorted(c["rel_hinge_vertices"])])


def second(h):
    """The limits hold for every control surface of every wing."""
    i = h.choose("which", [0, 1, 2])
    cs = [ctl("c0"), ctl("c1", device_type="slat"), ctl("c0")]
    k = h.choose("entry", ["deflection", "eta_outer", "xsi_inner", "hinge"])
    x = h.real("value", -200, 200)
    if k == "deflection":
        cs[i][k] = x
        cond = within(k, x, -90, 90)
    elif k == "hinge":
        cs[i]["rel_hinge_vertices"]["xsi_outer"] = x
        cond = within(k, x, 0, 1)
    else:
        cs[i]["rel_vertices"][k] = x
        cond = within(k, x, 0, 1) + ([("order", x > h.frac(1, 4))] if k == "eta_outer" else [])
    decide(h, plane(h, wing("w1", 2, controls=cs[:2]), wing("w2", 0, controls=cs[2:])), cond)


def references(h):
    refs = dict(plain_refs(h))
    cond = []
    for k in ("area", "chord", "span"):
        refs[k] = h.real(k, -5, 10)
        cond.append((k, refs[k] > 0))
    ac = decide(h, plane(h, wing(), refs=refs), cond)
    if ac is not None:
        h.eq("kept", [ac.refs[k] for k in ("area", "chord", "span")], [refs[k] for k in ("area", "chord", "span")])


def points(h):
    """Reference points and corners have three coordinates."""
    f = plane(h, wing())
    k = h.choose("point", ["gcenter", "rcenter", "a", "b", "c", "d"])
    at = f["refs"] if len(k) > 1 else f["wings"][0]["segments"][0]["vertices"]
    n = h.choose("length", [0, 1, 2, 3, 4])
    at[k] = (list(at[k]) + [7.0])[:n]
    decide(h, f, [("length", n == 3)])


def panels(h):
    """Panel numbers are positive or not given."""
    where = h.choose("where", ["segment", "control"])
    p, cond = {}, []
    for k in ("num_c", "num_s") if where == "segment" else ("num_c",):
        i = h.choose(k, ["left out", "null", "given"])
        if i == "null":
            p[k] = None
        elif i == "given":
            p[k] = h.integer(k, -9, 9)
            cond.append((k, p[k] > 0))
    f = plane(h, wing("w1"), wing("w2", segments=[seg(panels=p if where == "segment" else {})], controls=[ctl(panels=p if where == "control" else {})]))
    ac = decide(h, f, cond)
    if ac is not None:
        w = ac.wings["w2"]
        got = (w.segments["s"] if where == "segment" else w.controls["c"]).panels
        h.eq("kept", [got[k] for k in got], [p.get(k) for k in got])


def axes(h):
    g, cond = {}, []
    for k in ("inner_axis", "outer_axis"):
        g[k] = h.real(k, -1, 2)
        cond += within(k, g[k], 0, 1)
    decide(h, plane(h, wing(segments=[seg(geometry=g)])), cond)


def symmetry(h):
    s = h.real("symmetry", -2, 6)
    ok = any(bool(s == v) for v in (0, 1, 2, 3))
    ac = decide(h, plane(h, wing(), wing("w2", s)), [("symmetry", ok)])
    if ac is not None:
        h.eq("kept", ac.wings["w2"].symmetry, s)


def names(h):
    what = h.choose("what", ["wing", "segment", "control", "device"])
    name = h.choose("name", ["", "c", "s", "main", "flap", "slat", "Flap", "spoiler", " flap"])
    if what == "wing":
        f = plane(h, wing(), wing(name))
        ok = name not in ("", "main")
    elif what == "segment":
        f = plane(h, wing(segments=[seg(), seg(name, CORNERS2)]), wing("w2"))
        ok = name not in ("", "s")
    elif what == "control":
        f = plane(h, wing(controls=[ctl(), ctl(name, device_type="slat")]), wing("w2", controls=[ctl()]))
        ok = name not in ("", "c")
    else:
        f = plane(h, wing(controls=[ctl(device_type=name)]))
        ok = name in ("flap", "slat")
    decide(h, f, [("name", ok)], " " + what)


VALUES = {"text": "x", "number": 0.5, "list": [1], "object": {"x": 1}}
ENTRIES = {("uid",): ("text",), ("refs", "area"): ("number",), ("refs", "chord"): ("number",), ("refs", "span"): ("number",), ("refs", "gcenter"): (),
           ("refs", "rcenter"): (), ("wing", "symmetry"): (), ("segment", "uid"): ("text",), ("segment", "airfoils", "inner"): ("text",),
           ("segment", "airfoils", "outer"): ("text",), ("segment", "panels", "num_c"): ("null",), ("segment", "panels", "num_s"): ("null",),
           ("control", "uid"): ("text",), ("control", "device_type"): (), ("control", "deflection"): ("number",), ("control", "panels", "num_c"): ("null",),
           ("control", "segment_uid", "inner"): ("text",), ("control", "segment_uid", "outer"): ("text",)}
ENTRIES.update({("segment", "vertices", k): ("null",) for k in "abcd"})
ENTRIES.update({("segment", "geometry", k): ("null", "number") for k in ("inner_axis", "outer_axis")})
ENTRIES.update({("control", "rel_vertices", k): ("number",) for k in ("eta_outer", "xsi_inner", "xsi_outer")})
ENTRIES.update({("control", "rel_vertices", "eta_inner"): ("number",)})
ENTRIES.update({("control", "rel_hinge_vertices", k): ("number",) for k in ("xsi_inner", "xsi_outer")})


def types(h):
    key = h.choose("entry", sorted(ENTRIES))
    t = h.choose("type", sorted(VALUES))
    f = plane(h, wing(segments=[seg(panels={"num_c": 2, "num_s": 3}, geometry={"inner_axis": 0.5, "outer_axis": 0.5})], controls=[ctl(panels={"num_c": 2})]))
    at = {"uid": f, "refs": f["refs"], "wing": f["wings"][0], "segment": f["wings"][0]["segments"][0], "control": f["wings"][0]["controls"][0]}[key[0]]
    for k in key[1:-1]:
        at = at[k]
    if t in ENTRIES[key]:
        return                  # decided above
    at[key[-1]] = VALUES[t]
    ac, ex = load(h, f)
    h.holds(f"refused {'.'.join(key)}", ex is not None)


HARNESSES = [H(n, f, stubs=stubs, concrete_stubs=profiles, linear=True, validate=1, max_paths=20000) for n, f in
             (("control", control), ("second", second), ("references", references), ("points", points), ("panels", panels), ("axes", axes), ("symmetry", symmetry),
              ("names", names), ("types", types))]
