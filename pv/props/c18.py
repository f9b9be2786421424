from ..check import H, THOROUGH
from .. import kernel as K, model as M

FUNCTIONS = ["objects/aircraft.py: WingSegment.generate, check_vertices, check_geometry, area, Wing.generate (positions), Wing.span, Wing.area, "
             "Aircraft.generate, Aircraft.area, Aircraft.size"]
BOUNDS = ("segments with four arbitrary corners (chords not along z), wings of up to " + ("3" if THOROUGH else "2") + " segments and two wings; "
          "bounding box: one segment with arbitrary coordinates on any one axis next to a given one, every symmetry; on the paths of random points wings of six segments, and boxes of up to "
          "four wings with every coordinate arbitrary")
OUTSIDE = "segments defined by angles and lengths instead of corners; sweep, dihedral and twist angles; continuity warnings"


def length(h, v):
    return K.root(h, K.dot(v, v))


def described(h, name, num=None):
    """Corners as a user gives them."""
    if num is None:
        return {k: h.reals(f"{name}.{k}", 3) for k in "abcd"}
    return {k: [float(x) for x in p] for k, p in zip("abcd", num)}


def add(h, w, uid, v):
    s = w.add_segment(uid)
    for k, p in v.items():
        s.vertices[k] = list(p)
    s.airfoils["inner"] = s.airfoils["outer"] = "NACA0000"
    # chords are not parallel to the z-axis
    for p, q in (("a", "d"), ("b", "c")):
        h.assume((v[q][0] - v[p][0]) * (v[q][0] - v[p][0]) > h.frac(1, 100))
    e = K.vsub(v["b"], v["a"])
    h.assume(e[1] * e[1] + e[2] * e[2] > h.frac(1, 100))
    return s


def expected(h, v):
    ab = K.vsub(v["b"], v["a"])
    span = K.root(h, ab[1] * ab[1] + ab[2] * ab[2])
    ci, co = length(h, K.vsub(v["d"], v["a"])), length(h, K.vsub(v["c"], v["b"]))
    return span, ci, co, span * (ci + co) / 2


def refs(ac, h):
    ac.uid = "x"
    ac.refs.update(area=1.0, chord=1.0, span=1.0, gcenter=[0.0, 0.0, 0.0], rcenter=[0.0, 0.0, 0.0])


UNIT = [[0, 0, 0], [0.5, 2, 0.25], [1.5, 2, 0.25], [1, 0, 0]]


def measures(h, first, joined=False):
    h.soft_abs = True       # the continuity warnings take many absolute values
    ac = M.aircraft()
    refs(ac, h)
    w = M.wing(ac, "w", h.choose("symmetry", [0, 2]))
    vs = [described(h, f"s{i}") for i in range(first)]
    if joined:
        for v, u in zip(vs, vs[1:]):
            u["a"], u["d"] = v["b"], v["c"]
    else:
        for v, u in zip(vs, vs[1:]):        # the two segments have no corner in common
            for p in "abcd":
                for q in "cd":
                    h.assume(length(h, K.vsub(u[q], v[p])) > 0)
    if joined:
        for v, u in zip(vs, vs[1:]):
            for p, q in ("ac", "ad", "bc", "dc"):
                h.assume(length(h, K.vsub(u[q], v[p])) > 0)
    segs = [add(h, w, f"s{i}", v) for i, v in enumerate(vs)]
    w2 = M.wing(ac, "w2")
    vs2 = [described(h, f"t{i}", UNIT) for i in range(1)]
    segs2 = [add(h, w2, f"t{i}", v) for i, v in enumerate(vs2)]
    ac.generate()
    total, spans = 0, 0
    for s, v in zip(segs + segs2, vs + vs2):
        span, ci, co, area = expected(h, v)
        g = s.geometry
        h.eq(s.uid + ".span", g["span"], span)
        h.eq(s.uid + ".chords", [g["inner_chord"], g["outer_chord"]], [ci, co])
        h.eq(s.uid + ".area", s.area, area)
        h.eq(s.uid + ".corners", [list(s.vertices[k]) for k in "abcd"], [v[k] for k in "abcd"])
    for wing, part, pv in ((w, segs, vs), (w2, segs2, vs2)):
        want = [expected(h, v) for v in pv]
        sp = sum((x[0] for x in want[1:]), want[0][0])
        h.eq(wing.uid + ".span", wing.span, sp)
        h.eq(wing.uid + ".area", wing.area, sum((x[3] for x in want[1:]), want[0][3]))
        at = 0
        for s, x in zip(part, want):
            h.eq(s.uid + ".inner", s.position["inner"], at / sp)
            at = at + x[0]
            h.eq(s.uid + ".outer", s.position["outer"], at / sp)
        h.eq(wing.uid + ".root", part[0].position["inner"], 0)
        h.eq(wing.uid + ".tip", part[-1].position["outer"], 1)
        for p, q in zip(part, part[1:]):
            h.eq(wing.uid + ".gapless", p.position["outer"], q.position["inner"])
    h.eq("aircraft.area", ac.area, w.area + w2.area)
    h.observe("span", w.span)


def size(h, free):
    """One axis has arbitrary coordinates, the others given ones."""
    ac = M.aircraft()
    axis = h.choose("axis", [0, 1, 2])
    other = h.choose("other", [None, [[1, -2, 0.5], [1.5, 2, -1], [2.5, 2, -1], [2, -2, 0.5]], [[-3, 1, 2], [-3, 4, 2], [-1, 4, 3], [-1, 1, 3]]])
    sym2 = 0 if other is None else h.choose("other symmetry", [0, 1, 2, 3])
    sym = h.choose("symmetry", [0, 1, 2, 3])
    base = [[2, 1, -1.5], [3, 5, -0.5], [4, 5.5, -0.25], [3.5, 1, -1]]
    w = M.wing(ac, "w", sym)
    v = {k: h.const_array(p) for k, p in zip("abcd", base)}
    for k in "abcd"[:free]:
        v[k][axis] = h.real(k)
    M.segment(h, w, "s", vertices=v)
    pts = [(sym, list(v[k])) for k in "abcd"]
    if other is not None:
        w2 = M.wing(ac, "w2", sym2)
        M.segment(h, w2, "t", vertices=M.plain(h, other))
        pts += [(sym2, [float(x) for x in p]) for p in other]
    check(h, ac, pts)
    h.eq("corners", [list(v[k]) for k in "abcd"], [p for _, p in pts[:4]])


def size_many(h):
    """Three wings of several segments, every coordinate arbitrary."""
    ac = M.aircraft()
    pts = []
    shift = h.choose("shift", [[0, 0, 0], [-20, 0, 20], [20, 20, -20], [0, -20, 0]])
    for w, (sym, n) in enumerate(h.choose("wings", [((2, 3), (0, 2), (1, 1)), ((0, 5), (3, 1)), ((1, 2), (2, 2), (3, 1), (0, 1))])):
        wing = M.wing(ac, f"w{w}", sym)
        for i in range(n):
            v = {k: h.const_array([0, 0, 0]) for k in "abcd"}
            for k in "abcd":
                for j in range(3):
                    v[k][j] = h.real(f"w{w}.{i}.{k}{j}", -10, 10) + shift[j]
            M.segment(h, wing, f"s{i}", vertices=v)
            pts += [(sym, list(v[k])) for k in "abcd"]
    check(h, ac, pts)


def check(h, ac, pts):
    box = [[0.0, 0.0, 0.0], [0.0, 0.0, 0.0]]
    for sy, p in pts:
        for q in [p] + ([M.reflect(p, sy)] if sy else []):
            for i in range(3):
                if q[i] < box[0][i]:
                    box[0][i] = q[i]
                if q[i] > box[1][i]:
                    box[1][i] = q[i]
    d = [box[1][i] - box[0][i] for i in range(3)]
    got = ac.size
    h.eq("square", got * got, K.dot(d, d))
    h.holds("sign", got >= 0)


class Section:
    """Stand-in for the external aerofoil classes (profiles play no part in the measures)."""

    def __init__(self, *a, **k):
        pass

    NACA4 = staticmethod(lambda digits: Section())


def sections():
    from pytornado.objects import aircraft
    return [(aircraft, "Airfoil", Section), (aircraft, "MorphAirfoil", Section)]


HARNESSES = [
    H("joined6", lambda h: measures(h, 6, True), linear=True, stubs=sections, follow=2), H("size_many", size_many, linear=True, follow=3),
    H("measures1", lambda h: measures(h, 1), linear=True, stubs=sections), H("measures2", lambda h: measures(h, 2), linear=True, stubs=sections, validate=1),
    H("joined2", lambda h: measures(h, 2, True), linear=True, stubs=sections, validate=1),
    H("joined3", lambda h: measures(h, 3, True), linear=True, stubs=sections, validate=1, only="thorough"),
    H("measures3", lambda h: measures(h, 3), linear=True, stubs=sections, validate=1, only="thorough"),
    H("size", lambda h: size(h, 4 if THOROUGH else 2), linear=True, validate=1, max_paths=100000),
]
