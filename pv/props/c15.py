from ..check import H, THOROUGH
from .. import kernel as K, model as M, solve, term
from . import c14, c17

FUNCTIONS = ["aero/vlm.py: gen_lattice (normal rotations)", "objects/aircraft.py: StripSubdivision.abs_hinge_axis, abs_hinge_vertices, "
             "abs_camber_line_rot_axis, abs_camber_line_rot_axis_vertices, get_xsi_for_collocation_points, abs_vertices",
             "commonlibs axis_rot_matrix"]
BOUNDS = ("one or two strips of two given skew quadrilaterals with flap and/or slat at arbitrary chord and hinge positions, arbitrary normals, deflections and camber angles, "
          "1.." + ("3" if THOROUGH else "2") + " panels per part, also 14 and more panels on a device and 9 and 16 (thorough: 40) on a part without one, deformed wings (an arbitrary place for every corner), no symmetry or mirrored in the xy- or xz-plane; axis and rotation matrix for arbitrary vectors")
OUTSIDE = "camber on wings with yz symmetry; profile interpolation at a span position (answered arbitrarily)"
ASSUMPTIONS = ["the profile returns an arbitrary camber-line angle for every question"]

SHAPES = [[[0, 0, 0], [1, 4, 1], [2.5, 4, 0.5], [2, 0, 0]], [[1, 1, 0], [0, 3, -0.5], [2, 3.5, 0.25], [3, 1, 0.5]]]


class Rec(M.Recorder):
    """Hands out arbitrary geometry."""

    def py2c_lattice(self, lattice, state, subareas, symmetry, panels):
        M.Recorder.py2c_lattice(self, lattice, state, subareas, symmetry, panels)
        self.arrays = {}
        for k in ("p", "v", "c", "bound_leg_midpoints", "a"):
            a = getattr(lattice, k)
            a[...] = self.h.array(k, a.shape)
            self.arrays[k] = a.copy()


def matrix(axis, angle):
    from commonlibs.math.vectors import axis_rot_matrix
    return axis_rot_matrix(axis, angle)


class Turns:
    """Abstract rotation matrices: one arbitrary matrix for every direction and angle."""

    def __init__(self, h):
        import random
        self.h, self.known, self.rng, self.env = h, [], random.Random(5), {}

    def value(self, t):
        t = term.node(t)
        for x in term.walk([t]):
            if x.op == "v":
                lo, hi = (self.h.vars.get(x.args[0]) or (0, 1))[:2]
                self.env.setdefault(x.args[0], self.rng.uniform(float(lo), float(hi)))
        return term.evalf(t, self.env)

    def zero(self, t):
        p = solve.clear_denominators(term.nf(term.node(t)))
        return not p

    def matrix(self, axis, angle):
        import numpy as np
        axis = list(axis)
        for ax, an, m in self.known:
            if self.zero(angle - an) and all(self.zero(c) for c in K.cross(axis, ax)) and self.value(K.dot(axis, ax)) > 0:
                return m
        m = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                m[i, j] = self.h.real(f"turn{len(self.known)}.{i}{j}", -1, 1)
        self.known.append((axis, angle, m))
        return m


def abstract():
    from pytornado.aero import vlm
    return c14.stubs() + [(vlm, "axis_rot_matrix", lambda axis, angle: TURNS[0].matrix(axis, angle))]


TURNS = [None]


def turn(h, n, axis, degrees):
    """n turned about the axis by an angle in degrees."""
    import numpy as np
    ax = np.array(axis, dtype=object if h.symbolic else float)
    ang = degrees * K.pi(h) / 180
    m = TURNS[0].matrix(ax, ang) if h.symbolic and TURNS[0] else matrix(ax, ang)
    return list(m @ np.array(list(n), dtype=object if h.symbolic else float))


def turning(h):
    """The rotation matrix used as reference is the right-handed rotation."""
    axis = [h.real("axis" + c) for c in "xyz"]
    n = [h.real("n" + c) for c in "xyz"]
    ang = h.real("angle", -90, 90)
    ln = K.root(h, K.dot(axis, axis))
    h.assume(ln > h.frac(1, 1000))
    TURNS[0] = None
    got = turn(h, n, axis, ang)
    # the half angle: cos a = 1 - 2 s^2, sin a = 2 s c
    s, c = K.sin_deg(h, ang / 2), K.cos_deg(h, ang / 2)
    cr = K.cross(axis, n)
    d = K.dot(axis, n)
    # times |axis|^2
    for i in range(3):
        want = n[i] * (1 - 2 * s * s) * ln * ln + cr[i] * 2 * s * c * ln + axis[i] * d * 2 * s * s
        h.eq(f"turned{i}", got[i] * ln * ln, want)
    h.eq("length", K.dot(got, got), K.dot(n, n))


def edge_and_chord(v, swapped):
    """Leading edge and inner chord (the second one on a side whose corners are exchanged)."""
    p, q = "bc" if swapped else "ad"
    return K.vsub(list(v["b"]), list(v["a"])), K.vsub(list(v[q]), list(v[p]))


def axis(h):
    """The axis of camber rotations: a unit vector in the plane, at a right angle to the inner chord."""
    ac = M.aircraft()
    sym = h.choose("symmetry", [0, 1, 2])
    w = M.wing(ac, symmetry=sym)
    s = M.segment(h, w)
    mirror = bool(sym) and h.flag("mirror")
    part = M.strips(s)[0].subarea["segment"]
    v = part.abs_vertices(mirror)
    got = list(part.abs_camber_line_rot_axis(mirror))
    ab, ad = edge_and_chord(v, mirror and sym == 2)
    n = K.cross(ab, ad)
    r = K.cross(n, ad)
    h.assume(K.dot(r, r) > h.frac(1, 1000))
    h.eq("unit", K.dot(got, got), 1)
    h.eq("in the plane", K.dot(got, n), 0)
    h.eq("right angle", K.dot(got, ad), 0)
    ln = K.root(h, K.dot(r, r))
    h.eq("direction", [x * ln for x in got], r)


def nonzero(h, a):
    h.assume(a != 0)
    h.assume(a * K.pi(h) != 0)


class Profile(M.Profile):
    """One arbitrary camber-line angle for every position."""

    def same(self, x, y):
        if self.h.symbolic:
            return not solve.clear_denominators(term.nf(term.sub(term.node(x), term.node(y))))
        return abs(x - y) < 1e-9

    def _ask(self, eta, xsi):
        for e, x, a in self.log:
            if self.same(e, eta) and self.same(x, xsi):
                return a
        if self.flat:
            self.log.append((eta, xsi, 0.0))
            return 0.0
        a = M.Profile._ask(self, eta, xsi)
        nonzero(self.h, a)
        return a


def camber_axis(v, swapped):
    ab, ad = edge_and_chord(v, swapped)
    return K.cross(K.cross(ab, ad), ad)


def deformed_corners(h, strip, sym, mirror, field):
    """Corners of a strip on one side of a deformed wing."""
    v, e = strip.parent_segment.vertices, strip.rel_vertices
    q = dict(a=M.point(v, e["eta_a"], 0), b=M.point(v, e["eta_b"], 0), c=M.point(v, e["eta_b"], 1), d=M.point(v, e["eta_a"], 1))
    if mirror:
        q = {n: M.reflect(q[o], sym) for n, o in zip("abcd", {1: "abcd", 2: "badc"}[sym])}
    return {k: c17.deformed(h, p, field) if field is not None else p for k, p in q.items()}


def normals(h, devices, syms, top, cut=False, panels=None, num=1, warp=False, flat=None):
    from pytornado.aero import vlm
    c14.REC[0] = rec = Rec(h, normals=True)
    TURNS[0] = Turns(h)
    ac = M.aircraft()
    sym = h.choose("symmetry", syms)
    w = M.wing(ac, symmetry=sym)
    prof = Profile(h)
    prof.flat = h.flag("no camber") if flat is None else flat
    n = h.choose("panels", panels or range(1, top + 1))
    fields = {False: None, True: None}
    c17.MOVES[0] = c17.Moves(h)
    if warp:
        side = h.choose("deformed", ["both", "original", "mirror"] if sym else ["original"])
        if side != "mirror":
            fields[False] = w.def_field = c17.field(h, "field", 1)
        if side != "original":
            fields[True] = w.def_field_mirror = c17.field(h, "fieldm", 1)
    s = M.segment(h, w, vertices=M.plain(h, SHAPES[h.choose("shape", [0, 1])]), num_c=n, profile=prof)
    kinds = h.choose("devices", devices)
    strip = M.strips(s)[0]
    x, g = {}, {}
    for k in kinds:
        x[k] = [h.real(f"{k}{i}", 0.6, 0.9) if k == "flap" else h.real(f"{k}{i}", 0.1, 0.3) for i in range(2)]
        g[k] = [h.real(f"{k}.hinge{i}", 0, 1) for i in range(2)]
    if cut:
        # ends of the strip are free
        e = [h.real("eta0", 0, 0.4), h.real("eta1", 0.5, 1)]
        strip.rel_vertices.update(eta_a=e[0], eta_b=e[1], eta_c=e[1], eta_d=e[0])
    for k in kinds:
        zero = h.choose(k + " zero", ["none", "original", "mirror"] if sym else ["none", "original"])
        d, m = h.real(k + ".deflection", -90, 90), h.real(k + ".mirror", -90, 90)
        nonzero(h, d)
        nonzero(h, m)
        d, m = 0.0 if zero == "original" else d, 0.0 if zero == "mirror" else m
        c = M.control(h, w, k, k, xsi=x[k], hinge=g[k], num_c=num, deflection=d, mirror=m if sym else None)
        strip._add_subarea(c, *x[k], *g[k])
    rotate = not kinds or h.flag("rotations")
    lat = vlm.gen_lattice(ac, None, M.settings(rotate), make_new_subareas=False)
    for k, a in rec.arrays.items():
        h.eq(f"geometry.{k}", getattr(lat, k), a)
    if not rotate:
        h.eq("off", lat.n, rec.n0)
        return
    e = strip.rel_vertices
    mid = (e["eta_a"] + e["eta_b"]) / 2
    for entry in lat.panel_bookkeeping:
        part, mirror = entry.subarea, bool(entry.mirror)
        name = f"{part.type}{'.mirror' if mirror else ''}"
        idx = list(entry.pan_idx)
        v, r = strip.abs_vertices(False), part.rel_vertices
        reg = M.part_region(strip, part)
        if warp:
            z = deformed_corners(h, strip, sym, mirror, fields[mirror])
            xs = {k: r["xsi_" + k] for k in "abcd"}
            if mirror and sym == 2:
                xs = {n: xs[o] for n, o in zip("abcd", "badc")}
            q = dict(a=M.lerp(xs["a"], z["a"], z["d"]), b=M.lerp(xs["b"], z["b"], z["c"]), c=M.lerp(xs["c"], z["b"], z["c"]), d=M.lerp(xs["d"], z["a"], z["d"]))
        elif mirror:
            q = {a: M.reflect(reg[b], sym) for a, b in zip("abcd", {1: "abcd", 2: "badc"}[sym])}
        else:
            q = reg
        for j, i in enumerate(idx):
            want = list(rec.n0[i])
            if part.type != "segment":
                c = part.parent_control
                d = c.deflection_mirror if mirror else c.deflection
                pts = [M.lerp(g[part.type][0], v["a"], v["d"]), M.lerp(g[part.type][1], v["b"], v["c"])]
                if warp:
                    hx = g[part.type][::-1] if mirror and sym == 2 else g[part.type]
                    pts = [M.lerp(hx[0], z["a"], z["d"]), M.lerp(hx[1], z["b"], z["c"])]
                elif mirror:
                    pts = [M.reflect(p, sym) for p in pts]
                    if sym == 2:
                        pts.reverse()
                if not (isinstance(d, float) and d == 0.0):
                    want = turn(h, want, K.vsub(pts[1], pts[0]), d)
            # the answer of the profile at the collocation point
            xm = (r["xsi_a"] + r["xsi_b"]) / 2
            xc = xm + ((r["xsi_c"] + r["xsi_d"]) / 2 - xm) * ((h.frac(4 * j + 3, 4)) / len(idx))
            ang = prof.at_eta(mid).camber_line_angle(xc)
            if not prof.flat:
                want = turn(h, want, camber_axis(q, mirror and sym == 2), ang)
            h.eq(f"{name}.normal{j}", list(lat.n[i]), want)


NAT = dict(stubs=abstract, concrete_stubs=c14.stubs, validate=1, linear=True)
DEF = dict(NAT, stubs=lambda: abstract() + c17.abstract())
HARNESSES = [
    H("turning", turning), H("axis", axis),
    H("camber", lambda h: normals(h, [[]], [0, 1, 2], 3 if THOROUGH else 2, cut=True), **NAT),
    H("devices", lambda h: normals(h, [["flap"], ["slat"], ["slat", "flap"]], [0, 1, 2], 2 if THOROUGH else 1), **NAT),
    H("many", lambda h: normals(h, [["flap"]] + ([["slat", "flap"]] if THOROUGH else []), [0, 2], 0, panels=[9], num=14, flat=True), **NAT),
    H("long", lambda h: normals(h, [[]], [0, 2], 0, panels=[9, 16] + ([40] if THOROUGH else [])), follow=1, **NAT),
    H("deformed", lambda h: normals(h, [["flap"], ["slat"]], [0, 1, 2], 0, panels=[1], warp=True, flat=True), **DEF),
    H("deformed_camber", lambda h: normals(h, [[]], [0, 1, 2], 0, panels=[1], warp=True), **DEF),
]
