from types import SimpleNamespace as NS

import numpy as np

from ..check import H, THOROUGH
from .. import kernel as K, npx, term
from ..term import Sym, SymInt

FUNCTIONS = ["plot/plottools.py: plot2d3d, _scale_plots, _get_limits, _scale_fig, add_wings, add_controls, add_CG, add_lattice, add_results, add_freestream_vector, "
             "add_deformation_field_points, interpolate_quad, _plot_XYZ_points, show_and_save", "plot/makeplots.py: make_all and all plots", "plot/downwash.py: view_downwash",
             "objects/aircraft.py: WingControl.abs_vertices, abs_hinge_vertices"]
BOUNDS = ("two wings of one or two segments, all symmetry planes; for the limits: the corners' coordinates along one axis free, two of one wing and one (thorough: two) of the other; outlines: all corners "
          "free; " + ("4" if THOROUGH else "3") + " panels with free corners and values (14 on the paths of random points); panels much smaller than the aircraft")
OUTSIDE = "what the plotting library draws from the data it is given; line widths, colours of outlines, texts; panels so large that they are drawn with more than three points a side"


class Axes:
    """Records what is drawn."""

    def __init__(self, kind):
        self.kind, self.calls, self.lims, self.labels = kind, [], {}, {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            if name in ("set_xlim", "set_ylim", "set_zlim"):
                self.lims[name[4]] = a[0] if len(a) == 1 else a
            elif name in ("set_xlabel", "set_ylabel", "set_zlabel"):
                self.labels[name[4]] = a[0][0].lower()
            else:
                self.calls.append((name, a, k))
        return f

    def of(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]

    def view(self):
        return "".join(self.labels[k] for k in "xyz" if k in self.labels)


class Figure:
    def __init__(self, plt):
        self.plt, self.axes_, self.saved = plt, [], []

    def gca(self, **k):
        return self._new("3d" if k.get("projection") == "3d" else "2d")

    def add_subplot(self, *a, **k):
        return self._new("3d" if k.get("projection") == "3d" else "2d")

    def _new(self, kind):
        self.axes_.append(Axes(kind))
        return self.axes_[-1]

    def savefig(self, name, **k):
        self.saved.append(str(name))
        self.plt.saved.append(str(name))

    def colorbar(self, m, *a, **k):
        self.bar = m
        return NS(set_label=lambda *a, **k: None, ax=Axes("bar"))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Plt:
    def __init__(self):
        self.figures, self.saved, self.shown = [], [], 0

    def figure(self, *a, **k):
        self.figures.append(Figure(self))
        return self.figures[-1]

    def show(self, *a, **k):
        self.shown += 1

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Mappable:
    def __init__(self, *a, **k):
        self.array = None

    def set_array(self, a):
        self.array = a

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class Colour:
    """The colour that belongs to a position between 0 and 1."""

    def __init__(self, pos):
        self.pos = pos


class Session:
    """The plotting library replaced by the recorder."""

    def __init__(self, size=None):
        self.size = size

    def __enter__(self):
        from pytornado.objects import aircraft
        from pytornado.plot import downwash, plottools as pt
        self.plt = Plt()
        self.saved = []
        new = [(pt, "plt", self.plt), (downwash, "plt", self.plt), (pt, "cm", NS(ScalarMappable=Mappable)), (pt.C, "COLORMAP", Colour)]
        if self.size is not None:
            new.append((aircraft.Aircraft, "size", self.size))
        for m, k, v in new:
            self.saved.append((m, k, m.__dict__.get(k, self)))
            setattr(m, k, v)
        return self.plt

    def __exit__(self, *a):
        for m, k, v in reversed(self.saved):
            delattr(m, k) if v is self else setattr(m, k, v)


def stubs():
    from pytornado.plot import makeplots, plottools     # noqa (before numpy is replaced)
    return []


def arr(h, x):
    return npx.array(x) if h.symbolic else np.array(x, dtype=float)


def is_same(h, a, b):
    """Equal whatever the values of the inputs are."""
    if h.symbolic:
        d = a - b
        return all(not m and abs(c) < 1e-9 for m, c in term.nf(term.node(d)).items()) if isinstance(d, (Sym, SymInt)) else abs(d) < 1e-9
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(a)))


def points_same(h, p, q):
    return all(is_same(h, a, b) for a, b in zip(p, q))


VIEWS = {"xyz": (0, 1, 2), "yz": (1, 2), "xz": (0, 2), "xy": (0, 1)}
MIRROR = {1: 2, 2: 1, 3: 0}


def mirrored(p, sym):
    return [-x if MIRROR.get(sym) == i else x for i, x in enumerate(p)]


def views(fig3, fig2):
    out = {}
    for a in fig3.axes_ + fig2.axes_:
        out[a.view()] = a
    return out


def all_views(plt):
    out = {}
    for f in plt.figures:
        for a in f.axes_:
            if a.labels and a.view() in VIEWS:
                out[a.view()] = a
    return out


def lines(ax):
    """All straight lines drawn."""
    out = []
    for a, k in ax.of("plot"):
        n = 3 if ax.kind == "3d" else 2
        pts = list(zip(*[list(x) for x in a[:n]]))
        out += list(zip(pts, pts[1:]))
    return out


def check_lines(h, label, plt, want):
    """Exactly the wanted lines are drawn in every view (coinciding lines count once)."""
    vs = all_views(plt)
    h.eq("views", sorted(vs), sorted(VIEWS))
    for v, idx in VIEWS.items():
        have = lines(vs[v])
        need = [tuple([p[i] for i in idx] for p in e) for e in want]

        def match(e, f):
            return (points_same(h, e[0], f[0]) and points_same(h, e[1], f[1])) or (points_same(h, e[0], f[1]) and points_same(h, e[1], f[0]))
        miss = [i for i, e in enumerate(need) if not any(match(e, f) for f in have)]
        more = [f for f in have if not any(match(e, f) for e in need)]
        h.holds(f"{label} {v}", not miss and not more, info=f"missing {miss} of {len(need)}, not wanted {more[:2]}")


def closed(ps):
    return list(zip(ps, ps[1:] + ps[:1]))


def open_(ps):
    return list(zip(ps, ps[1:]))


def aircraft(h, wings):
    """wings: (uid, symmetry, [corners], [controls])"""
    from pytornado.objects.aircraft import Aircraft
    ac = Aircraft()
    ac.uid = "plane"
    ac.refs["gcenter"] = arr(h, [0.25, 0.5, 0.75])
    for uid, sym, segs, ctls in wings:
        w = ac.add_wing(uid)
        w.symmetry = sym
        for i, c in enumerate(segs):
            s = w.add_segment(f"s{i}")
            for k, p in zip("abcd", c):
                s.vertices[k] = arr(h, p)
        for c in ctls:
            x = w.add_control(c["uid"])
            x.device_type = c["type"]
            x.segment_uid.update(inner=c["seg"][0], outer=c["seg"][1])
            x.rel_vertices.update(c["rel"])
            x.rel_hinge_vertices.update(c["hinge"])
    return ac


BOX = [[0.0, 0.0, 0.0], [0.5, 2.0, 0.25], [1.5, 2.0, 0.25], [1.0, 0.0, 0.0]]
BOX2 = [[0.5, 2.0, 0.25], [1.0, 5.0, 0.5], [1.75, 5.0, 0.5], [1.5, 2.0, 0.25]]


def limits(h):
    from pytornado.plot import plottools as pt
    axis = h.choose("axis", [0, 1, 2])
    s1, s2 = h.choose("symmetries", [(1, 2), (2, 0), (0, 3)] + ([(0, 0), (2, 3), (3, 1), (2, 2)] if THOROUGH else []))
    free = h.choose("free", [((0, 2), ()), ((1,), (3,))] + ([((0, 2), (1,))] if THOROUGH else []))
    segs = []
    for w in range(2):
        c = [list(p) for p in (BOX, BOX2)[w]]
        for i in free[w]:
            c[i][axis] = h.real(f"w{w}.{i}", -9, 9)
        segs.append(c)
    ac = aircraft(h, [("w1", s1, [segs[0]], []), ("w2", s2, [segs[1]], [])])
    with Session(7.0) as plt:
        with pt.plot2d3d(ac, "name", {"save": False, "show": False}):
            pass
    vs = all_views(plt)
    h.eq("views", sorted(vs), sorted(VIEWS))
    pts = []
    for c, s in zip(segs, (s1, s2)):
        pts += c
        if s:
            pts += [mirrored(p, s) for p in c]
    box = [tuple(vs["xyz"].lims[k]) for k in "xyz"]
    for i, (lo, hi) in enumerate(box):
        for p in {term.node(q[i]) if isinstance(q[i], Sym) else q[i]: q[i] for q in pts}.values():
            h.holds("contains", lo <= p + 1e-9)
            h.holds("contains", p - 1e-9 <= hi)
        d = (hi - lo) - (box[0][1] - box[0][0])
        h.holds("scale", d <= 1e-9)
        h.holds("scale", d >= -1e-9)
    for v, idx in VIEWS.items():
        lims = [vs[v].lims[k] for k in "xyz"[:len(idx)]]
        h.holds(f"{v} limits", all(is_same(h, a, b) for q, i in zip(lims, idx) for a, b in zip(q, box[i])))
        if v != "xyz":
            h.holds(f"{v} aspect", any(a and a[0] in ("equal", 1, 1.0) for a, k in vs[v].of("set_aspect")))
    h.observe("lims", [list(vs["xyz"].lims[k]) for k in "xyz"])


def free_corners(h, tag):
    return [h.reals(f"{tag}{k}", 3, -5, 5) for k in "abcd"]


def outline(h):
    """Wings and control surfaces are drawn where they are, with their mirror images."""
    from pytornado.plot import makeplots, plottools as pt
    s1, s2 = h.choose("symmetries", [(0, 1), (1, 2), (2, 3), (3, 0)])
    what = h.choose("what", ["geometry", "wings", "controls"])
    segs = [free_corners(h, "p"), free_corners(h, "q"), free_corners(h, "r")]
    ctl = []
    for i, (t, seg) in enumerate((("flap", ("s0", "s1")), ("slat", ("s0", "s0")))):
        ctl.append({"uid": f"c{i}", "type": t, "seg": seg, "rel": {k: h.real(f"c{i}.{k}", 0, 1) for k in ("eta_inner", "eta_outer", "xsi_inner", "xsi_outer")},
                    "hinge": {k: h.real(f"c{i}.h.{k}", 0, 1) for k in ("xsi_inner", "xsi_outer")}})
    wings = [("w1", s1, segs[:2], ctl[:1]), ("w2", s2, segs[2:], ctl[1:])]
    ac = aircraft(h, wings)
    want = []

    def at(c, eta, xsi):
        a, b, cc, d = c
        return [(1 - xsi) * ((1 - eta) * a[i] + eta * b[i]) + xsi * ((1 - eta) * d[i] + eta * cc[i]) for i in range(3)]
    for uid, sym, sg, cs in wings:
        mine = []
        if what != "controls":
            for c in sg:
                mine += closed(c)
        if what != "wings":
            for c in cs:
                i, o = [sg[int(x[1])] for x in c["seg"]]
                r, z = c["rel"], c["hinge"]
                e1, e2 = r["eta_inner"], r["eta_outer"]
                if c["type"] == "flap":
                    mine += open_([at(i, e1, 1), at(i, e1, r["xsi_inner"]), at(o, e2, r["xsi_outer"]), at(o, e2, 1)])
                else:
                    mine += open_([at(o, e2, 0), at(o, e2, r["xsi_outer"]), at(i, e1, r["xsi_inner"]), at(i, e1, 0)])
                mine += open_([at(i, e1, z["xsi_inner"]), at(o, e2, z["xsi_outer"])])
        want += mine + ([tuple(mirrored(p, sym) for p in e) for e in mine] if sym else [])
    with Session(7.0) as plt:
        if what == "geometry":
            keep, pt._scale_plots = pt._scale_plots, lambda *a, **k: None
            try:
                makeplots.plot_geometry_aircraft(ac, {"save": False, "show": False, "opt": []})
            finally:
                pt._scale_plots = keep
        else:
            f3, a3 = pt._init_plot3d("")
            f2, a2 = pt._init_plot2d("")
            (pt.add_wings if what == "wings" else pt.add_controls)(a2, a3, ac)
    check_lines(h, what, plt, want)
    if what == "geometry":
        for v, idx in VIEWS.items():
            a = all_views(plt)[v].of("scatter")
            h.eq("centre of gravity " + v, [list(x[0][:len(idx)]) for x in a], [[ac.refs["gcenter"][i] for i in idx]])


def lattice(h, n=3):
    """Panels, and the points of the deformation field."""
    from pytornado.plot import makeplots, plottools as pt
    panels = [free_corners(h, f"p{i}") for i in range(n)]
    dummy = arr(h, [[0.0] * 3] * n)
    lat = NS(p=arr(h, panels), c=dummy, v=arr(h, [[[0.0] * 3] * 4] * n), n=dummy, bound_leg_midpoints=dummy)
    deformed = h.choose("deformed", [False, True])
    opt = h.choose("opt", [[], ["deformation"]])
    side = h.choose("fields", ["main", "mirror", "both"]) if deformed else "none"
    sym = 2
    c = {"uid": "c", "type": "flap", "seg": ("s0", "s0"), "rel": {"eta_inner": 0.25, "eta_outer": 0.75, "xsi_inner": 0.5, "xsi_outer": 0.75},
         "hinge": {"xsi_inner": 0.5, "xsi_outer": 0.625}}
    ac = aircraft(h, [("w1", sym, [BOX], [c]), ("w2", 0, [BOX2], [])])
    want = [e for p in panels for e in closed(p)]
    if deformed:
        w = ac.wings["w1"]
        for name, key in (("main", "def_field"), ("mirror", "def_field_mirror")):
            if side in (name, "both"):
                f = [h.reals(f"{name}{i}", 6, -3, 3) for i in range(2)]
                setattr(w, key, arr(h, f))
                if opt:
                    want += open_([p[:3] for p in f])
    else:
        def at(eta, xsi):
            return [(1 - xsi) * ((1 - eta) * BOX[0][i] + eta * BOX[1][i]) + xsi * ((1 - eta) * BOX[3][i] + eta * BOX[2][i]) for i in range(3)]
        mine = open_([at(0.25, 1), at(0.25, 0.5), at(0.75, 0.75), at(0.75, 1)]) + open_([at(0.25, 0.5), at(0.75, 0.625)])
        want += mine + [tuple(mirrored(p, 2) for p in e) for e in mine]
    with Session(7.0) as plt:
        makeplots.plot_lattice_aircraft(ac, lat, {"save": False, "show": False, "opt": opt})
    check_lines(h, "lattice", plt, want)


def small(h, p, size):
    """The panel is small compared to the aircraft."""
    a, b, c, d = p
    half = h.frac(1, 2)

    def dist(x, y):
        v = K.vsub(x, y)
        return K.root(h, v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    for x, y in (((b, a), (c, d)), ((d, a), (c, b))):
        f = half * dist(*x) + half * dist(*y)
        h.assume(f > 0)
        h.assume(100 * f <= size)


def bilinear(h, label, p, xyz):
    """Points of a surface: a grid with the four corners, every other point in between."""
    a, b, c, d = p
    X, Y, Z = [[list(r) for r in np.asarray(q)] for q in xyz]
    ns, nr = len(X), len(X[0])
    h.holds(label + " size", ns >= 2 and nr >= 2)
    for i in range(ns):
        for j in range(nr):
            s, r = h.frac(i, ns - 1), h.frac(j, nr - 1)
            for k, Q in enumerate((X, Y, Z)):
                h.eq(label, Q[i][j], (1 - r) * (1 - s) * a[k] + r * (1 - s) * b[k] + r * s * c[k] + (1 - r) * s * d[k])


def patch(h):
    from pytornado.plot import plottools as pt
    p = [arr(h, q) for q in free_corners(h, "p")]
    small(h, p, 500)
    bilinear(h, "patch", p, pt.interpolate_quad(*p, 500))


def results(h, n=4 if THOROUGH else 3):
    """Panel colours and patches."""
    from pytornado.plot import makeplots, plottools as pt
    keys = h.choose("keys", [["cp"], ["cz", "cp"]])
    flat = h.choose("flat", [False, True])
    panels = [[[float(i), 0.0, 0.25], [float(i) + 0.125, 2.0, 0.5], [float(i) + 1.5, 2.0, 0.5 * i], [float(i) + 1.0, 0.0, 0.0]] for i in range(n)]
    panels[1] = free_corners(h, "p")
    panels = arr(h, panels)
    small(h, list(panels[1]), 1000)
    val = {k: arr(h, [h.real(f"{k}{i}", -2, 2) for i in range(n)] if not flat else [h.real(f"{k}0", -2, 2)] * n) for k in ("cp", "cz", "mag")}
    if len(keys) > 1:
        val["cz"] = arr(h, ([0.5, -0.25, 2.0, 1.0]*n)[:n])
    st = K.state(h, rates=False)
    st.aero["airspeed"] = h.real("speed", 0.5, 90)
    h.assume(st.aero["airspeed"] > 0)
    ac = aircraft(h, [("w1", 2, [BOX], [])])
    data = NS(panelwise=val)
    with Session(1000.0) as plt:
        keep, pt.add_freestream_vector = pt.add_freestream_vector, lambda *a, **k: None
        try:
            makeplots.plot_results_aircraft(ac, NS(p=panels), st, data, {"save": False, "show": False, "opt": keys})
        finally:
            pt.add_freestream_vector = keep
    h.eq("figures", len(plt.figures), 2 * len(keys))
    for i, key in enumerate(keys):
        figs = plt.figures[2 * i:2 * i + 2]
        vs = {a.view(): a for f in figs for a in f.axes_ if a.labels}
        surf = vs["xyz"].of("plot_surface")
        h.eq(f"patches {key}", len(surf), n)
        v = list(val[key])
        lo = hi = v[0]
        for x in v[1:]:
            lo = x if bool(x < lo) else lo
            hi = x if bool(x > hi) else hi
        same = bool(lo == hi)
        for j, (a, k) in enumerate(surf):
            bilinear(h, f"patch {key}", list(panels[j]), a[:3])
            pos = k["color"].pos
            if same:
                h.eq(f"same colour {key}", pos, surf[0][1]["color"].pos)
            else:
                h.eq(f"colour {key}", pos * (hi - lo), v[j] - lo)
        for view, idx in VIEWS.items():
            if view == "xyz":
                continue
            fills = vs[view].of("fill")
            h.eq(f"fills {view}", len(fills), n)
            for j, (a, k) in enumerate(fills):
                h.holds(f"fill colour {view}", all(is_same(h, k[q].pos, surf[j][1]["color"].pos) for q in ("color", "facecolor") if q in k))
                for x, q in zip(a, idx):
                    h.eq(f"fill {view}", [list(r) for r in np.asarray(x)], [list(r) for r in np.asarray(surf[j][0][q])])
        bar = [f.bar for f in figs if getattr(f, "bar", None) is not None]
        h.eq("scale of colours", [list(b.array) for b in bar if isinstance(b, Mappable)], [v])


def arrow(h):
    """The flow arrow points along the free stream, to the origin."""
    from pytornado.plot import plottools as pt
    st = flow(h)
    tip = h.choose("tip", [None, 1])
    U = K.freestream(h, st)
    kw = {} if tip is None else {"tip_pos": arr(h, h.reals("tip", 3))}
    h.assume(st.aero["airspeed"] > 0)
    with Session() as plt:
        f3, a3 = pt._init_plot3d("")
        f2, a2 = pt._init_plot2d("")
        pt.add_freestream_vector(a2, a3, Shown(st), **kw)
    q = all_views(plt)["xyz"].of("quiver")
    h.eq("one arrow", len(q), 1)
    a = q[0][0]
    o, v = list(a[:3]), list(a[3:6])
    h.eq("tip", [x + y for x, y in zip(o, v)], [0, 0, 0] if tip is None else list(kw["tip_pos"]))
    speed = K.root(h, K.dot(U, U))
    h.eq("direction", [x * speed for x in v], [3 * x for x in U])


def flow(h):
    from pytornado.objects.state import FlightState
    k = K.state(h, rates=False)
    st = FlightState()
    st.aero = {q: arr(h, [v]) for q, v in k.aero.items()}
    st.idx_current_state = 0
    return NS(st=st, aero=k.aero, free=st.free_stream_velocity_vector)


class Shown:
    """State whose speed is printed only."""

    def __init__(self, st):
        self.st = st

    aero = {"airspeed": 1.0}

    @property
    def free_stream_velocity_vector(self):
        return self.st.free


def plots(h):
    """Exactly the requested plots are made, saved and shown."""
    from pytornado.plot import makeplots
    names = ("geometry", "lattice", "matrix_downwash", "results")
    S = {}
    for i, n in enumerate(names):
        S[n] = {"save": h.choose(f"save {n}", [False, True]), "show": h.choose(f"show {n}", [False, True]), "opt": ["cp", "cz"] if n == "results" else []}
    made = []
    D = {"matrix": arr(h, [[h.real("d00", -1, 1), h.real("d01", -1, 1)], [0.25, 0.5]])}
    ac = aircraft(h, [("w1", 2, [BOX], [])])
    dummy = arr(h, [[0.0] * 3])
    lat = NS(p=arr(h, [BOX]), c=dummy, v=arr(h, [BOX]), n=dummy, bound_leg_midpoints=dummy)
    st = NS(aero={"airspeed": 1.0}, free_stream_velocity_vector=arr(h, [1.0, 0.0, 0.0]))
    data = NS(panelwise={"cp": arr(h, [1.0]), "cz": arr(h, [2.0])}, matrix_downwash=D["matrix"])
    settings = NS(settings={"plot": S}, paths=lambda uid, *a, **k: {"d_plots": "/plots"}[uid])
    with Session(1000.0) as plt:
        makeplots.make_all(settings, ac, st, data, lat)
    groups = {"geometry": 2, "lattice": 2, "matrix_downwash": 1, "results": 4}
    want = sum(groups[n] for n in names if S[n]["save"])
    h.eq("files", len(plt.saved), want)
    h.eq("different files", len(set(plt.saved)), want)
    h.holds("folder", all(f.startswith("/plots/") and f.endswith(".png") for f in plt.saved), info=plt.saved)
    for n, (key, num) in {"geometry": ("geometry", 2), "lattice": ("lattice", 2), "matrix_downwash": ("downwash", 1), "results": ("results", 4)}.items():
        h.eq("files of " + n, len([f for f in plt.saved if key in f]), num if S[n]["save"] else 0)
    h.eq("shown", plt.shown > 0, any(S[n]["show"] for n in names))
    mat = [a[0] for f in plt.figures for x in f.axes_ for a, k in x.of("matshow")]
    made = S["matrix_downwash"]["save"] or S["matrix_downwash"]["show"]
    h.eq("matrix", [[list(r) for r in m] for m in mat], [[list(r) for r in D["matrix"]]] if made else [])


HARNESSES = [H("limits", limits, stubs=stubs, linear=True, validate=1, max_paths=60000), H("outline", outline, stubs=stubs, linear=True, validate=1),
             H("lattice", lattice, stubs=stubs, linear=True, validate=1), H("patch", patch, stubs=stubs, validate=1), H("results", results, stubs=stubs, linear=True, validate=1),
             H("arrow", arrow, stubs=stubs, validate=1), H("plots", plots, stubs=stubs, validate=1, max_paths=3000)]
HARNESSES += [H("many_panels", lambda h: lattice(h, 14), stubs=stubs, linear=True, follow=1),
              H("many_results", lambda h: results(h, 14), stubs=stubs, linear=True, follow=1)]
