from ..check import H, THOROUGH
from .. import explore, kernel as K, model as M, term

FUNCTIONS = ["objects/aircraft.py: xsi_interpol, get_abs_segment_point_coords, WingSegment.add_subdivision, "
             "add_subdivision_for_control, _get_outer_neighbour_subdiv, SegmentStrip._add_subarea, _update_subarea",
             "commonlibs get_plane_line_intersect"]
BOUNDS = ("exact chord position on a cut: every trapezoid (chords and span 0.001 to 100, any sweep, taper, dihedral), any strip, any chord and hinge positions; "
          "general quadrilaterals and tilted planes at fixed shapes with free positions; ownership: up to two cuts before and one after an insertion; a flap and a slat with different edges and hinges on the same strips with up to two further cuts")
OUTSIDE = "non-planar segments; lines within 1e-6 rad of the chord direction; longer histories"


def weight(v, e1, e2, e):
    """Straight line over a trapezoid from the chord at e1 to the chord at e2: the chord
    fraction at e is the mean of the end fractions, weighted with these two numbers."""
    def chord(t):
        return v["d"][0] * (1 - t) + (v["c"][0] - v["b"][0]) * t
    return (e2 - e) * chord(e1), (e - e1) * chord(e2)


def line(v, e1, x1, e2, x2, e):
    p, q = weight(v, e1, e2, e)
    return (p * x1 + q * x2) / (p + q)


def lemma(h, label, v, e1, x1, e2, x2, e):
    """The chord position computed by the code on the line from (e1, x1) to (e2, x2) at e is the exact one.
    Returned is the value of the code; that it lies between the ends is then known to the path."""
    A = M.objs()
    f = getattr(A, "xsi_interpol", None)
    if f is None:
        return None
    not_along_chord(h, v, e1, x1, e2, x2, e)
    got = f(v, (e1, x1), (e2, x2), e)
    want = line(v, e1, x1, e2, x2, e)
    h.eq(label + ".square", got * got, want * want)
    h.holds(label + ".sign", got >= 0)
    # the weights are positive, so the line lies between its ends
    p, q = weight(v, e1, e2, e)
    h.holds(label + ".p", p > 0)
    h.holds(label + ".q", q > 0)
    h.assume(got > 0)
    h.assume(got < 1)
    return got


def not_along_chord(h, v, e1, x1, e2, x2, e):
    """Documented tolerance: a line (nearly) along the chord direction has no intersection."""
    import numpy as np
    pt = lambda e, x: np.array(M.point(v, e, x), dtype=object if h.symbolic else float)
    d = pt(e1, x1) - pt(e2, x2)
    chord = pt(e, 1) - pt(e, 0)
    normal = K.cross(list(v["b"] - v["a"]), list(v["d"] - v["a"]))
    n = K.cross(normal, list(chord))
    ln, ld = K.root(h, K.dot(n, n)), K.root(h, K.dot(d, d))
    h.assume(abs(K.dot(n, d)) >= 1e-6 * ln * ld)


def one_cut(h):
    """A device on any strip of a trapezoid; the strip is cut."""
    w = M.wing(M.aircraft())
    v = M.trapezoid(h, "s")
    seg = M.segment(h, w, vertices=v)
    x = [h.real(f"xsi{i}", 0.02, 0.98) for i in range(2)]
    g = [h.real(f"hinge{i}", 0.001, 0.999) for i in range(2)]
    kind = h.choose("kind", ["flap", "slat"])
    e1, e2 = (h.real("eta0", 0.1, 0.9), h.real("eta1", 0.1, 0.9)) if h.flag("partial") else (0.0, 1.0)
    h.assume(e1 + h.frac(1, 20) < e2)
    eta = h.real("cut", 0.02, 0.98)
    h.assume(eta > e1 + h.frac(1, 50))
    h.assume(eta < e2 - h.frac(1, 50))
    lx = lemma(h, "edge", v, e1, x[0], e2, x[1], eta)
    lg = lemma(h, "hinge", v, e1, g[0], e2, g[1], eta)
    c = M.control(h, w, "c", kind, xsi=x, hinge=g)
    strip = M.strips(seg)[0]
    strip.rel_vertices.update(eta_a=e1, eta_b=e2, eta_c=e2, eta_d=e1)
    strip._add_subarea(c, *x, *g)
    seg.add_subdivision(eta, eta)
    a, b = M.strips(seg)
    h.holds("owner", all(s.subarea[kind].parent_control is c for s in (a, b)))
    xa, xb, ga, gb = edges(a, kind)[0], edges(b, kind)[0], edges(a, kind)[1], edges(b, kind)[1]
    h.eq("ends", [xa[0], xb[1], ga[0], gb[1]], [x[0], x[1], g[0], g[1]])
    h.eq("joint", [xa[1], ga[1]], [xb[0], gb[0]])
    if lx is not None:
        h.eq("edge", xa[1], lx)
        h.eq("hinge", ga[1], lg)
    else:
        for q, got, (u1, u2) in (("edge", xa[1], x), ("hinge", ga[1], g)):
            want = line(v, e1, u1, e2, u2, eta)
            h.eq(q + ".square", got * got, want * want)
            h.holds(q + ".sign", got >= 0)
    h.observe("xsi", [xa[1], ga[1]])


def edges(strip, kind):
    p = strip.subarea[kind]
    k = ("xsi_a", "xsi_b") if kind == "flap" else ("xsi_d", "xsi_c")
    return [p.rel_vertices[i] for i in k], [p.rel_hinge_vertices[i] for i in ("xsi_h1", "xsi_h2")]


SHAPES = [[[0, 0, 0], [1, 4, 1], [2.5, 3.5, 0.875], [2, 0, 0]],           # chords not parallel
          [[0, 0, 0], [0.5, 0, 3], [2, 0.25, 2.5], [3, 0, 0]],             # fin, twisted in its plane
          [[1, 2, 0], [0, 5, -1], [0.25, 5.25, -1.125], [2, 2, -0.125]]]


def planar(P):
    """The fourth corner is moved into the plane of the first three."""
    a, b, c, d = P
    n = K.cross([b[i] - a[i] for i in range(3)], [d[i] - a[i] for i in range(3)])
    k = K.dot([c[i] - a[i] for i in range(3)], n) / K.dot(n, n)
    return [a, b, [c[i] - k * n[i] for i in range(3)], d]


def shapes(h):
    """General planar quadrilaterals: the new point lies on the straight line."""
    P = h.choose("shape", [0, 1, 2] if THOROUGH else [0, 1])
    w = M.wing(M.aircraft())
    a, b, c, d = SHAPES[P]
    v = M.plain(h, [a, b, c, d])
    # c in the plane of a, b, d:  a + m (b - a) + k (d - a) with the projection coefficients of the shape
    m, k = [(h.frac(4, 5), h.frac(9, 10)), (h.frac(5, 6), h.frac(1, 2)), (h.frac(11, 10), h.frac(1, 3))][P]
    for i in range(3):
        v["c"][i] = v["a"][i] + m * (v["b"][i] - v["a"][i]) + k * (v["d"][i] - v["a"][i])
    seg = M.segment(h, w, vertices=v)
    x = [h.real(f"xsi{i}", 0.02, 0.98) for i in range(2)]
    e1, e2 = (h.real("eta0", 0.1, 0.9), h.real("eta1", 0.1, 0.9)) if THOROUGH and h.flag("partial") else (0.0, 1.0)
    h.assume(e1 + h.frac(1, 20) < e2)
    eta = h.real("cut", 0.02, 0.98)
    h.assume(eta > e1 + h.frac(1, 50))
    h.assume(eta < e2 - h.frac(1, 50))
    not_along_chord(h, v, e1, x[0], e2, x[1], eta)
    got = M.objs().xsi_interpol(v, (e1, x[0]), (e2, x[1]), eta)
    pin, pout = M.point(v, e1, x[0]), M.point(v, e2, x[1])
    pu, pl = M.point(v, eta, 0), M.point(v, eta, 1)
    dd, cc = K.vsub(pout, pin), K.vsub(pl, pu)
    n = K.cross(K.vsub(v["b"], v["a"]), K.vsub(v["d"], v["a"]))
    num, den = K.dot(K.cross(K.vsub(pin, pu), dd), n), K.dot(K.cross(cc, dd), n)
    h.eq("square", got * got * den * den, num * num)
    h.holds("sign", got >= 0)
    h.observe("xsi", got)


class Lines:
    """Straight lines on a segment: two points determine a line, a line has one chord position at
    every span position (an arbitrary number; its exact value is decided by one_cut)."""

    def __init__(self, h):
        self.h, self.point, self.value, self.reps = h, {}, {}, []

    def plain(self, x):
        return term.node(x).id if self.h.symbolic else float(x)

    def key(self, x):
        """Equal numbers have equal keys."""
        k = term.node(x).id if self.h.symbolic else float(x)
        for r, kr in self.reps:
            if k == kr:
                return kr
        for r, kr in self.reps:
            if bool(x == r):
                return kr
        self.reps.append((x, k))
        return k

    def through(self, p, q):
        kp, kq = (self.key(p[0]), self.plain(p[1])), (self.key(q[0]), self.plain(q[1]))
        common = self.point.get(kp, set()) & self.point.get(kq, set())
        ln = min(common) if common else len({x for s in self.point.values() for x in s})
        for k in (kp, kq):
            self.point.setdefault(k, set()).add(ln)
        return ln

    def at(self, ln, e, p, q):
        for u in (p, q):
            if self.key(u[0]) == self.key(e):
                return u[1]
        k = (ln, self.key(e))
        if k not in self.value:
            self.value[k] = self.h.real(f"line{len(self.value)}", 0.02, 0.98)
            self.point.setdefault((self.key(e), self.plain(self.value[k])), set()).add(ln)
        return self.value[k]

    def xsi(self, p, q, e):
        return self.at(self.through(p, q), e, p, q)


def abstract():
    from pytornado.objects import aircraft
    return [(aircraft, "xsi_interpol", lambda v, inner, outer, eta: LINES[0].xsi(inner, outer, eta))]


LINES = [None]


def ownership(h):
    """A device is placed on a segment with cuts, and the segment is cut again."""
    w = M.wing(M.aircraft())
    LINES[0] = L = Lines(h)
    seg = M.segment(h, w, vertices=M.plain(h, M.UNIT))
    for i in range(h.choose("cuts", [0, 1, 2])):
        e = h.real(f"before{i}", 0.02, 0.98)
        seg.add_subdivision(e, e)
    kind = h.choose("kind", ["flap", "slat"])
    x = [h.real(f"xsi{i}", 0.02, 0.98) for i in range(2)]
    g = [h.real(f"hinge{i}", 0.02, 0.98) for i in range(2)] if h.flag("own hinge") else x
    e1 = h.choose("from root", [True, False])
    e1 = 0.0 if e1 else h.real("eta0", 0.02, 0.98)
    e2 = 1.0 if h.choose("to tip", [True, False]) else h.real("eta1", 0.02, 0.98)
    h.assume(e1 + h.frac(1, 25) < e2)
    old = [s.rel_vertices["eta_a"] for s in M.ordered(seg)] + [1]

    def eff(e):
        """Positions less than one percent outboard of a line count as that line."""
        for q in reversed(old):
            d = e - q
            if d >= 0 and d < h.frac(1, 100):
                return q
        return e
    c = M.control(h, w, "c", kind, xsi=x, hinge=g)
    seg.add_subdivision_for_control(e1, e2, c, x[0], x[1], g[0], g[1])
    s1, s2 = eff(e1), eff(e2)
    snapped = s1 is not e1 and not (s1 == e1) or s2 is not e2 and not (s2 == e2)

    def check(tag):
        own = [s for s in M.ordered(seg) if kind in s.subarea]
        for s in M.ordered(seg):
            o = s.rel_vertices
            inside = o["eta_a"] >= s1 and o["eta_b"] <= s2
            h.holds(tag + ".exactly between", (kind in s.subarea) == bool(inside))
            if kind in s.subarea:
                h.holds(tag + ".owner", s.subarea[kind].parent_control is c)
        h.eq(tag + ".start", own[0].rel_vertices["eta_a"], s1)
        h.eq(tag + ".end", own[-1].rel_vertices["eta_b"], s2)
        for name, k, u in (("edge", 0, x), ("hinge", 1, g)):
            h.eq(f"{tag}.{name}.inner", edges(own[0], kind)[k][0], u[0])
            h.eq(f"{tag}.{name}.outer", edges(own[-1], kind)[k][1], u[1])
            for p, q in zip(own, own[1:]):
                m = edges(p, kind)[k][1]
                h.eq(f"{tag}.{name}.joint", m, edges(q, kind)[k][0])
                if not snapped:
                    h.eq(f"{tag}.{name}.line", m, L.xsi((e1, u[0]), (e2, u[1]), p.rel_vertices["eta_b"]))
    check("placed")
    if not snapped:
        e = h.real("after", 0.02, 0.98)
        seg.add_subdivision(e, e)
        check("cut")


def rectangle():
    """On a rectangle chord fractions vary linearly over the span (decided in general by one_cut and shapes)."""
    from pytornado.objects import aircraft
    return [(aircraft, "xsi_interpol", lambda v, p, q, e: p[1] + (q[1] - p[1]) * ((e - p[0]) / (q[0] - p[0])))]


def both(h):
    """A flap and a slat on the same strips, each with its own edge and hinge; then further cuts."""
    w = M.wing(M.aircraft())
    seg = M.segment(h, w, vertices=M.plain(h, M.UNIT))
    order = h.choose("order", [("flap", "slat"), ("slat", "flap")])
    e1, e2 = h.choose("ends", [(0.0, 1.0), (0.25, 0.75)])
    bounds = dict(flap=(0.6, 0.95), slat=(0.05, 0.4))
    x = {k: [h.real(f"{k}.xsi{i}", *bounds[k]) for i in range(2)] for k in order}
    g = {k: [h.real(f"{k}.hinge{i}", 0.02, 0.98) for i in range(2)] for k in order}
    c = {}
    first = h.choose("cuts before the second", [0, 1])
    cuts = []

    def cut():
        e = h.real(f"cut{len(cuts)}", e1 + 0.02, e2 - 0.02)
        for q in cuts:
            h.assume((e - q) * (e - q) > h.frac(1, 2500))
        seg.add_subdivision(e, e)
        cuts.append(e)
    for n, k in enumerate(order):
        c[k] = M.control(h, w, k, k, xsi=x[k], hinge=g[k])
        seg.add_subdivision_for_control(e1, e2, c[k], *x[k], *g[k])
        if n < first:
            cut()
    cut()
    if THOROUGH:
        cut()
    for k in order:
        own = [s for s in M.ordered(seg) if k in s.subarea]
        h.eq(k + ".strips", len(own), len(cuts) + 1)
        h.holds(k + ".owner", all(s.subarea[k].parent_control is c[k] for s in own))
        for s in own:
            o = s.rel_vertices
            for name, got, u in zip(("edge", "hinge"), edges(s, k), (x[k], g[k])):
                want = [u[0] + (u[1] - u[0]) * ((e - e1) / (e2 - e1)) for e in (o["eta_a"], o["eta_b"])]
                h.eq(f"{k}.{name}", list(got), want)


HARNESSES = [H("one_cut", one_cut), H("shapes", shapes), H("ownership", ownership, stubs=abstract, concrete_stubs=abstract, max_paths=20000, validate=1),
             H("both", both, stubs=rectangle, concrete_stubs=rectangle, validate=1)]
