import os
from pathlib import Path
from types import SimpleNamespace as NS

from ..check import H, THOROUGH
from .. import cpacs, kernel as K, project as P
from ..cpacs import Node, leaf
from . import c19, c23

FUNCTIONS = ["fileio/cpacs/aircraft.py: load and everything below", "fileio/cpacs/state.py: load", "fileio/cpacs/results.py: save_aeroperformance_map",
             "fileio/cpacs/utils.py: XPATHS, get_segment_mid_point, add_vector, modify_cpacs, open_tixi, open_tigl, close_tixi",
             "fileio/cpacs/__patch.py", "objects/aircraft.py: generate and checks"]
BOUNDS = ("one segment with arbitrary corners; two wings, two segments each and up to three trailing-edge devices in two component segments with free border positions, deflections and "
          "reference values; 16 devices with free deflections; maps of 1 to " + ("3" if THOROUGH else "2") + " and of 11 states with free values; TiXI and TiGL are replaced by stand-ins, TiGL answering with a fixed "
          "invertible map per component segment")
OUTSIDE = "leading-edge devices; what TiXI and TiGL themselves do (rounding of written numbers included); corners whose leading and trailing edge run in opposite directions"


def stubs():
    from pytornado.fileio import cpacs as io    # (before numpy is replaced)
    from pytornado.objects import state
    return c23.profiles() + [(state, "Atmosphere", c19.Atmosphere)]


def concrete_stubs():
    return c23.profiles()


class Geometry:
    """Answers of TiGL: mid points of wing surfaces, and positions on component segments."""

    def __init__(self, wings):
        self.wings = wings          # list of dicts(symmetry, segments=[corners by (eta, xsi)], profiles, components=[(name, map)])

    def wingGetSymmetry(self, w):
        return self.wings[w - 1]["symmetry"]

    def _point(self, w, s, eta, xsi):
        return self.wings[w - 1]["segments"][s - 1]["corners"][(eta, xsi)]

    def wingGetLowerPoint(self, w, s, eta, xsi):
        p, t = self._point(w, s, eta, xsi)
        return tuple(x - y for x, y in zip(p, t))

    def wingGetUpperPoint(self, w, s, eta, xsi):
        p, t = self._point(w, s, eta, xsi)
        return tuple(x + y for x, y in zip(p, t))

    def wingGetInnerSectionAndElementIndex(self, w, s):
        return s, 1

    def wingGetOuterSectionAndElementIndex(self, w, s):
        return s + 1, 1

    def wingGetProfileName(self, w, section, element):
        return self.wings[w - 1]["profiles"][section - 1]

    def wingGetComponentSegmentCount(self, w):
        return len(self.wings[w - 1]["components"])

    def wingGetComponentSegmentUID(self, w, i):
        return self.wings[w - 1]["components"][i - 1]["uid"]

    def wingComponentSegmentPointGetSegmentEtaXsi(self, uid, eta, xsi):
        for w in self.wings:
            for c in w["components"]:
                if c["uid"] == uid:
                    return ("wing",) + c["map"](eta, xsi)
        raise cpacs.TixiException(uid)


def shape(d):
    """Border definitions of a device."""
    def border(name, b):
        return Node(name, *[Node(k, leaf(k[:3], b[k])) for k in ("etaLE", "etaTE", "xsiLE", "xsiTE") if k in b])
    return (Node("outerShape", border("innerBorder", d["inner"]), border("outerBorder", d["outer"])),
            Node("path", Node("innerHingePoint", leaf("hingeXsi", d["inner"]["hinge"])), Node("outerHingePoint", leaf("hingeXsi", d["outer"]["hinge"]))))


def document(wings, refs, devices=None, profiles=(), name="plane", maps=None, tool=()):
    """A CPACS document."""
    ws = []
    for w in wings:
        segs = Node("segments", *[Node("segment", uID=s.get("uid")) for s in w["segments"]])
        comps = Node("componentSegments", *[Node("componentSegment", Node("controlSurfaces", Node("trailingEdgeDevices", *[
            Node("trailingEdgeDevice", *shape(d), uID=d["uid"]) for d in c["devices"]])) if c["devices"] else None, uID=c["uid"]) for c in w["components"]])
        ws.append(Node("wing", segs, comps, uID=w.get("uid")))
    ref = Node("reference", leaf("area", refs["area"]), leaf("length", refs["length"]), Node("point", *[leaf(k, v) for k, v in zip("xyz", refs["point"])]))
    model = Node("model", ref, Node("wings", *ws), uID=name)
    if maps is not None:
        model.children.append(Node("analyses", Node("aeroPerformance", *maps)))
    air = Node("wingAirfoils", *[Node("wingAirfoil", leaf("name", n), Node("pointList", leaf("x", x), leaf("z", z))) for n, x, z in profiles])
    tools = list(tool)
    if devices is not None:
        tools.append(Node("controlDevices", *[Node("controlDevice", *[leaf(k, v) for k, v in d.items() if k != "uid"], uID=d["uid"]) for d in devices]))
    return Node("cpacs", Node("vehicles", Node("aircraft", model), Node("profiles", air)), Node("toolspecific", Node("pytornado", *tools)))


def settings(d):
    paths = {"f_aircraft": Path(d) / "plane.xml", "root": Path(d)}
    (Path(d) / "airfoils").mkdir(exist_ok=True)
    paths["f_aircraft"].touch()
    return NS(paths=lambda uid, *a, **k: paths[uid])


def load(doc, geometry):
    from pytornado.fileio.cpacs import aircraft as io
    with P.Scratch("c26") as d, cpacs.Session() as lib:
        s = settings(d)
        lib.tixi.store[str(s.paths("f_aircraft"))] = doc
        lib.tigl.geometry = geometry
        before = [(p, n.value, dict(n.attrs)) for p, n in doc.walk()]
        ac = io.load(s)
        files = {}
        for name in sorted(os.listdir(os.path.join(d, "airfoils"))):
            with open(os.path.join(d, "airfoils", name)) as fp:
                files[name] = [[float(x) for x in line.split()] for line in fp if not line.startswith("#")]
        air = {(w.uid, s2.uid): {k: os.path.relpath(v, d) for k, v in s2.airfoils.items()} for w in ac.wings.values() for s2 in w.segments.values()}
    return ac, air, files


REFS = {"area": 2.0, "length": 1.5, "point": [0.25, 0.0, 0.5]}
PROFILES = [("NACA0008", "1;0.5;0", "0;0.25;0"), ("cambered", "1.0;0.25;0;1", "0.5;0.125;0;-0.5"), ("thick", "1;0;1", "0;0;0.25")]


def lexless(a, b):
    """a inboard of b, or at the same span position and below."""
    return bool(a[1] < b[1]) or (bool(a[1] == b[1]) and bool(a[2] < b[2]))


def corners(h):
    """One segment, described in any direction."""
    part = h.choose("thickness", ["none", "some"])
    P4 = {k: h.reals(f"p{k[0]}{k[1]}", 3, -4, 4) for k in ((0, 0), (1, 0), (1, 1), (0, 1))}
    zero = [0, 0, 0]
    T = {k: (h.reals(f"t{k[0]}{k[1]}", 3, 0, 1) if part == "some" and k == (1, 0) else zero) for k in P4}
    out = [lexless(P4[(0, x)], P4[(1, x)]) for x in (0, 1)]
    back = [lexless(P4[(1, x)], P4[(0, x)]) for x in (0, 1)]
    h.assume(all(out) or all(back))
    root = 0 if all(out) else 1
    for e in (0, 1):
        h.assume(P4[(e, 0)][0] != P4[(e, 1)][0])
    span = [P4[(1, 0)][i] - P4[(0, 0)][i] for i in (0, 1, 2)]
    g = [{"symmetry": 0, "segments": [{"corners": {k: (P4[k], T[k]) for k in P4}}], "profiles": ["NACA0008", "cambered"], "components": []}]
    doc = document([{"uid": "w", "segments": [{"uid": "s"}], "components": []}], REFS, profiles=PROFILES)
    h.soft_abs = True
    ac, air, files = load(doc, Geometry(g))
    v = ac.wings["w"].segments["s"].vertices
    # both chords point downstream
    h.holds("inner chord", v["d"][0] >= v["a"][0])
    h.holds("outer chord", v["c"][0] >= v["b"][0])

    def sorted_(e):
        p, q = P4[(e, 0)], P4[(e, 1)]
        return (p, q) if bool(p[0] <= q[0]) else (q, p)
    a, d = sorted_(root)
    b, c = sorted_(1 - root)
    for k, p in zip("abcd", (a, b, c, d)):
        h.eq("corner " + k, list(v[k]), p)
    name = ["airfoils/blade.NACA0008", "airfoils/blade.cambered"]
    h.eq("profiles", [air["w", "s"]["inner"], air["w", "s"]["outer"]], [name[root], name[1 - root]])
    h.observe("a", list(v["a"]))


BOX = {(0, 0): [0.0, 0.0, 0.0], (1, 0): [0.5, 2.0, 0.25], (1, 1): [1.5, 2.0, 0.25], (0, 1): [1.0, 0.0, 0.0]}
BOX2 = {(0, 0): [0.5, 2.0, 0.25], (1, 0): [1.0, 5.0, 0.5], (1, 1): [1.75, 5.0, 0.5], (0, 1): [1.5, 2.0, 0.25]}
LEFT = {(0, 0): [0.0, 0.0, 0.0], (1, 0): [0.5, -2.0, 0.25], (1, 1): [1.5, -2.0, 0.25], (0, 1): [1.0, 0.0, 0.0]}
ZERO = {"corners": None}


def fixed(box):
    return {"corners": {k: (v, [0.0, 0.0, 0.125 * k[0]]) for k, v in box.items()}}


def on_segment(h, n, s1, s2, halves=True):
    """A map from positions on a component segment to positions on segments.  The inner half lies on the first segment."""
    q, r = h.frac(1, 4 + n), h.frac(1, 3 + n)

    def f(eta, xsi):
        if halves and bool(eta > h.frac(1, 2)):
            return s2, 2 * eta - 1, xsi * (1 - q) + q * eta
        return s1, (2 * eta if halves else eta), xsi * (1 - r) + r * eta * h.frac(1, 2)
    return f


def device(h, uid, symbolic=True, lo=10, hi=40):
    """Borders of a device between two positions (hundredths)."""
    d = {"uid": uid}
    mid = (lo + hi) // 2
    for side, (x, y) in (("inner", (lo, mid)), ("outer", (mid + 1, hi))):
        b = {}
        for k in ("etaLE", "etaTE", "xsiLE", "hinge"):
            if symbolic:
                u, w = (x, y) if k.startswith("eta") else (50, 90)
                b[k] = h.real(f"{uid}.{side}.{k}", u / 100, w / 100)
                h.assume(b[k] >= h.frac(u, 100))
                h.assume(b[k] <= h.frac(w, 100))
            else:
                b[k] = {"etaLE": x / 128, "etaTE": y / 128, "xsiLE": 0.5 + x / 512, "hinge": 0.75 + x / 512}[k]
        d[side] = b
    return d


def controls(h):
    """Trailing-edge devices and their deflections."""
    case = h.choose("case", ["one", "two segments", "second wing", "second component", "three", "twelve"])
    sym = h.choose("symmetry", [0, 2])
    h.soft_abs = True
    devs = {"m": [], "n": [], "t": []}
    where = {}
    if case == "one":
        devs["m"] = [device(h, "c1")]
    elif case == "two segments":
        d = device(h, "c1")
        for k in ("etaLE", "etaTE"):
            d["outer"][k] = h.real("far." + k, 0.6, 0.9)
            h.assume(d["outer"][k] > h.frac(1, 2))
            h.assume(d["outer"][k] < 1)
        devs["m"] = [d]
    elif case == "second wing":
        devs["m"], devs["t"] = [device(h, "c1", symbolic=False)], [device(h, "c2")]
    elif case == "second component":
        devs["m"], devs["n"] = [device(h, "c1", symbolic=False)], [device(h, "c2")]
    elif case == "twelve":
        devs["m"] = [device(h, f"c{i}", symbolic=False, lo=i, hi=i + 1) for i in (9, 1, 10, 11)]
        devs["t"] = [device(h, f"c{32 - i}", symbolic=False, lo=6 * i, hi=6 * i + 6) for i in range(12)]
    else:
        devs["m"], devs["n"], devs["t"] = [device(h, "c1", symbolic=False, hi=30), device(h, "c2", lo=30, hi=45)], [device(h, "c3", symbolic=False)], [device(h, "c4", symbolic=False)]
    maps = {"m": on_segment(h, 0, "s1", "s2"), "n": on_segment(h, 1, "s2", "s2", False), "t": on_segment(h, 2, "t1", "t1", False)}
    g = [{"symmetry": sym, "segments": [fixed(BOX), fixed(BOX2)], "profiles": ["NACA0008", "cambered", "thick"],
          "components": [{"uid": "comp.m", "map": maps["m"]}, {"uid": "comp.n", "map": maps["n"]}]},
         {"symmetry": 0, "segments": [fixed(BOX2)], "profiles": ["thick", "NACA0008"], "components": [{"uid": "comp.t", "map": maps["t"]}]}]
    doc_wings = [{"uid": "main", "segments": [{"uid": "s1"}, {"uid": "s2"}], "components": [{"uid": "comp.m", "devices": devs["m"]}, {"uid": "comp.n", "devices": devs["n"]}]},
                 {"uid": "tail", "segments": [{"uid": "t1"}], "components": [{"uid": "comp.t", "devices": devs["t"]}]}]
    uids = [d["uid"] for k in "mnt" for d in devs[k]]
    tool, want = [], {}
    which = h.choose("deflections", ["none", "all", "last", "mirror", "reverse", "zero"])
    for u in uids:
        want[u] = (0, None)
        if which == "none" or (which == "last" and u != uids[-1]):
            continue
        x = h.real("deflection." + u, -90, 90)
        h.assume(x >= -90)
        h.assume(x <= 90)
        e = {"uid": u, "deflection": x}
        want[u] = (x, None)
        if which in ("mirror", "zero"):
            m = 0.0 if which == "zero" else h.real("mirror." + u, -90, 90)
            h.assume(m >= -90)
            h.assume(m <= 90)
            e["deflectionMirror"] = m
            want[u] = (x, m)
        tool.append(e)
    if which == "reverse":
        tool.reverse()
    ac, air, files = load(document(doc_wings, REFS, None if which == "none" else tool, PROFILES), Geometry(g))
    h.eq("wings", list(ac.wings), ["main", "tail"])
    h.eq("names main", list(ac.wings["main"].controls), [d["uid"] for d in devs["m"] + devs["n"]])
    h.eq("names tail", list(ac.wings["tail"].controls), [d["uid"] for d in devs["t"]])
    for k, w in (("m", "main"), ("n", "main"), ("t", "tail")):
        for d in devs[k]:
            c = ac.wings[w].controls[d["uid"]]
            h.eq("type", c.device_type, "flap")
            for side in ("inner", "outer"):
                b = d[side]
                seg, eta, xsi = maps[k](b["etaLE"], b["xsiLE"])
                hxsi = maps[k](b["etaLE"], b["hinge"])[2]
                h.eq(f"segment {side}", c.segment_uid[side], seg)
                h.eq(f"eta {side}", c.rel_vertices["eta_" + side], eta)
                h.eq(f"xsi {side}", c.rel_vertices["xsi_" + side], xsi)
                h.eq(f"hinge {side}", c.rel_hinge_vertices["xsi_" + side], hxsi)
            x, m = want[d["uid"]]
            h.eq("deflection", c.deflection, x)
            if w == "main" and sym:
                h.eq("mirror deflection", c.deflection_mirror, x if m is None else m)


def reversed_control(h):
    """A device on a segment that is described from tip to root (here: on the left-hand side)."""
    h.soft_abs = True
    d = device(h, "c1")
    f = on_segment(h, 2, "s1", "s1", False)
    g = [{"symmetry": 0, "segments": [fixed(LEFT)], "profiles": ["NACA0008", "cambered"], "components": [{"uid": "comp", "map": f}]}]
    ac, air, files = load(document([{"uid": "w", "segments": [{"uid": "s1"}], "components": [{"uid": "comp", "devices": [d]}]}], REFS, None, PROFILES), Geometry(g))
    c = ac.wings["w"].controls["c1"]
    eta = [f(d[k]["etaLE"], d[k]["xsiLE"])[1] for k in ("inner", "outer")]
    h.eq("ends", [c.rel_vertices["eta_inner"], c.rel_vertices["eta_outer"]], [1 - eta[1], 1 - eta[0]])


def unknown_device(h):
    """Deflections of devices that do not exist are refused."""
    g = [{"symmetry": 2, "segments": [fixed(BOX)], "profiles": ["NACA0008", "cambered"], "components": []}]
    doc = document([{"uid": "w", "segments": [{"uid": "s"}], "components": []}], REFS, [{"uid": "c9", "deflection": h.real("x", -50, 50)}], PROFILES)
    ex = h.raised(load, doc, Geometry(g))
    h.holds("refused", ex is not None)


def model(h):
    """Names, symmetry, reference values, segments, profiles."""
    h.soft_abs = True
    named = h.choose("named", [True, False])
    s1, s2 = h.choose("symmetry", [(0, 1), (2, 0), (3, 2)])
    refs = {"area": h.real("area", 0.1, 9), "length": h.real("length", 0.1, 9), "point": h.reals("point", 3)}
    h.assume(refs["area"] > 0)
    h.assume(refs["length"] > 0)
    g = [{"symmetry": s1, "segments": [fixed(BOX), fixed(BOX2)], "profiles": ["NACA0008", "cambered", "thick"], "components": []},
         {"symmetry": s2, "segments": [fixed(BOX2)], "profiles": ["thick", "NACA0008"], "components": []}]
    n = (lambda x: x) if named else (lambda x: None)
    doc = document([{"uid": n("main"), "segments": [{"uid": n("s1")}, {"uid": n("s2")}], "components": []},
                    {"uid": n("tail"), "segments": [{"uid": n("s1")}], "components": []}], refs, None, PROFILES)
    ac, air, files = load(doc, Geometry(g))
    h.eq("name", ac.uid, "plane")
    ws = list(ac.wings.values())
    h.eq("wings", len(ws), 2)
    if named:
        h.eq("names", [(k, w.uid, list(w.segments)) for k, w in ac.wings.items()], [("main", "main", ["s1", "s2"]), ("tail", "tail", ["s1"])])
    h.eq("symmetries", [w.symmetry for w in ws], [s1, s2])
    h.eq("area", ac.refs["area"], refs["area"])
    h.eq("lengths", [ac.refs["span"], ac.refs["chord"]], [refs["length"], refs["length"]])
    h.eq("centres", [list(ac.refs["gcenter"]), list(ac.refs["rcenter"])], [refs["point"], refs["point"]])
    segs = [s for w in ws for s in w.segments.values()]
    h.eq("segments", len(segs), 3)
    for s, box in zip(segs, (BOX, BOX2, BOX2)):
        h.eq("corners", {k: list(s.vertices[k]) for k in "abcd"}, dict(a=box[0, 0], b=box[1, 0], c=box[1, 1], d=box[0, 1]))
    got = [(air[w.uid, s.uid]["inner"], air[w.uid, s.uid]["outer"]) for w in ws for s in w.segments.values()]
    f = "airfoils/blade."
    h.eq("profiles", got, [(f + "NACA0008", f + "cambered"), (f + "cambered", f + "thick"), (f + "thick", f + "NACA0008")])
    want = {}
    for name, x, z in PROFILES:
        want["blade." + name] = [[float(p), float(q)] for p, q in zip(x.split(";"), z.split(";"))]
    h.eq("profile files", files, want)


CPACS_STATE = {"altitude": "altitude", "machNumber": "mach", "angleOfAttack": "alpha", "angleOfSideslip": "beta"}


def aeromap(uid, values, results=None):
    n = Node("aeroPerformanceMap", *[leaf(k, list(v)) for k, v in values.items()])
    return Node("aeroMap", n, uID=uid)


def some_maps(h, values, extra=()):
    """The map to be used is the only one, or the named one."""
    which = h.choose("maps", ["only", "first", "second"])
    mine = aeromap("mine", dict(values, **dict(extra)))
    other = aeromap("other", dict({k: [7.0] * 2 for k in CPACS_STATE.values()}, altitude=[7.0, 7.0], machNumber=[0.25, 0.75], angleOfAttack=[1.0, 2.0],
                                  angleOfSideslip=[1.0, 3.0], cl=[9.0, 9.0], cml=[8.0, 8.0]))
    if which == "only":
        return [mine], []
    return ([mine, other] if which == "first" else [other, mine]), [leaf("aeroMapUID", "mine")]


def state(h):
    """Flight states of the map."""
    from pytornado.fileio.cpacs import state as io
    n = h.choose("states", [1, 2, 11] + ([3] if THOROUGH else []))
    odd = h.choose("odd", ["none"] + (list(CPACS_STATE) if n == 2 else []))
    v = {}
    for k, q in CPACS_STATE.items():
        v[k] = [h.real(f"{q}{i}", *({"altitude": (0, 20000), "mach": (0, 3)}.get(q, (-90, 90)))) for i in range(n - (k == odd))]
        for x in v[k]:
            if q in ("alpha", "beta"):
                h.assume(x >= -90)
                h.assume(x <= 90)
    maps, tool = some_maps(h, v)
    with P.Scratch("c26") as d, cpacs.Session() as lib:
        s = settings(d)
        lib.tixi.store[str(s.paths("f_aircraft"))] = document([], REFS, maps=maps, tool=tool)
        out = []
        ex = h.raised(lambda: out.append(io.load(s)))
    if odd != "none":
        h.holds("refused", ex is not None)
        return
    h.holds("accepted", ex is None, info=repr(ex))
    st = out[0]
    h.eq("number", st.num_apm_entries, n)
    for k, q in CPACS_STATE.items():
        h.eq(k, list(st.aero[q]), v[k])
    atm = [c19.atmosphere(h, z) for z in v["altitude"]]
    h.eq("density", list(st.aero["density"]), [a[0] for a in atm])
    h.eq("airspeed", list(st.aero["airspeed"]), [m * a[1] for m, a in zip(v["machNumber"], atm)])
    for k in ("rate_P", "rate_Q", "rate_R"):
        h.eq(k, list(st.aero[k]), [0] * n)


FIELDS = {"cl": "CL", "cd": "CD", "cs": "CC", "cmd": "Cl", "cms": "Cm", "cml": "Cn"}


def export(h):
    """Results go to their own fields of the map, and nothing else changes."""
    from pytornado.fileio.cpacs import results as io
    n = h.choose("states", [1, 2, 11] + ([3] if THOROUGH else []))
    old = h.choose("existing", ["none", "some", "all"])
    names = {"none": [], "some": ["cd", "cml"], "all": list(FIELDS)}[old]
    v = {k: [0.25] * n for k in CPACS_STATE}
    maps, tool = some_maps(h, v, [(k, [11.0] * n) for k in names])
    doc = document([], REFS, maps=maps, tool=tool)
    res = {k: [h.real(f"{k}{i}", -5, 5) for i in range(n)] for k in ("CL", "CD", "CC", "Cl", "Cm", "Cn", "CD0", "Fx", "L", "D", "C", "l", "m", "n")}
    st = NS(results={k: list(x) for k, x in res.items()})
    with P.Scratch("c26") as d, cpacs.Session() as lib:
        s = settings(d)
        path = str(s.paths("f_aircraft"))
        lib.tixi.store[path] = doc
        old = [(p, list(x.value) if isinstance(x.value, list) else x.value, dict(x.attrs)) for p, x in doc.walk()]
        io.save_aeroperformance_map(st, s)
        h.eq("files", sorted(lib.tixi.store), [path])
        new = lib.tixi.store[path]
        h.holds("closed", lib.tixi.log[-1][0] == "close", info=lib.tixi.log)
    got = {}
    rest = []
    mine = [x for p, x in new.walk() if x.attrs.get("uID") == "mine"][0].children[0]
    for x in mine.children:
        if x.tag in FIELDS:
            h.holds("one field", x.tag not in got, info=x.tag)
            got[x.tag] = list(x.value)
    h.eq("fields", sorted(got), sorted(FIELDS))
    for k, q in FIELDS.items():
        h.eq(k, got[k], res[q])
    mine.children = [x for x in mine.children if x.tag not in FIELDS]
    rest = [(p, x.value, dict(x.attrs)) for p, x in new.walk()]
    before = doc.copy()
    b = [x for p, x in before.walk() if x.attrs.get("uID") == "mine"][0].children[0]
    b.children = [x for x in b.children if x.tag not in FIELDS]
    h.eq("rest", rest, [(p, x.value, dict(x.attrs)) for p, x in before.walk()])
    h.eq("results", st.results, res)


def no_file(h):
    from pytornado.fileio.cpacs import aircraft, state
    m = h.choose("what", [aircraft, state])
    with P.Scratch("c26") as d, cpacs.Session():
        paths = {"f_aircraft": Path(d) / "no.xml", "root": Path(d)}
        ex = h.raised(m.load, NS(paths=lambda uid, *a, **k: paths[uid]))
    h.holds("refused", isinstance(ex, FileNotFoundError), info=repr(ex))


HARNESSES = [H(n, f, stubs=stubs, concrete_stubs=concrete_stubs, linear=True, validate=0 if n == "reversed_control" else 1, max_paths=20000) for n, f in
             (("corners", corners), ("controls", controls), ("reversed_control", reversed_control), ("unknown_device", unknown_device), ("model", model),
              ("state", state), ("export", export), ("no_file", no_file))]
