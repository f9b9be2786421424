from ..check import H, THOROUGH
from .. import kernel as K
from ..term import land, lor

FUNCTIONS = ["aero/c_lattice.cpp, aero/c_vlm.cpp: py2c_lattice (LLVM IR)"]
BOUNDS = ("single panels with free corners; statistics over up to 4 panels (thorough: 6) in up to 3 patches on all paths, up to 36 (thorough: 72) on the path of "
          "one inner point of the input space; angles free")
OUTSIDE = "floating point rounding; degenerate panels; statistics over more panels"


def mids(h, q):
    """Mid-line vectors of a quadrilateral A, B, C, D: chordwise, spanwise, spanwise at 3/4 chord."""
    a, b, c, d = q
    f = h.frac
    chord = K.lin((f(1, 2), d), (f(1, 2), c), (f(-1, 2), a), (f(-1, 2), b))
    span = K.lin((f(1, 2), b), (f(1, 2), c), (f(-1, 2), a), (f(-1, 2), d))
    s34 = K.lin((f(1, 4), b), (f(3, 4), c), (f(-1, 4), a), (f(-3, 4), d))
    return chord, span, s34


def one(h, q=None, counts=(1, 1)):
    lat, patches, st = K.patch_lattice(h, [counts], q)
    K.run_lattice(lat, st, patches, [counts])
    return lat, patches


def normal(h):
    lat, q = one(h)
    chord, span, s34 = mids(h, q[0])
    n = list(lat.n[0])
    z = K.cross(chord, s34)
    h.assume(K.dot(z, z) > 1e-6)
    m = K.root(h, K.dot(z, z))
    h.eq("unit length", K.dot(n, n), 1)
    h.eq("perpendicular to chordwise mid-line", K.dot(n, chord), 0)
    h.eq("perpendicular to spanwise line", K.dot(n, s34), 0)
    # right-hand rule for the corners as they are numbered: A (leading edge, inner), B, C, D
    h.eq("side", K.scale(m, n), K.scale(-1, z))
    h.observe("n", lat.n)


def flat_wing(h):
    """Wing in the x-y-plane, leading edge first, span towards positive y: normal points down."""
    q = h.const_array([[[0.0] * 3] * 4]) if not h.symbolic else h.array("q", (1, 4, 3)) * 0
    x = [h.real(f"x{i}") for i in range(4)]
    y = [h.real(f"y{i}") for i in range(4)]
    for i in range(4):
        q[0, i, 0], q[0, i, 1], q[0, i, 2] = x[i], y[i], 0.0
    h.assume(land(x[3] - x[0] > 0.1, x[2] - x[1] > 0.1, y[0] == y[3], y[1] == y[2], y[1] - y[0] > 0.1))
    lat, _ = one(h, q)
    h.eq("x", lat.n[0, 0], 0)
    h.eq("y", lat.n[0, 1], 0)
    h.holds("down", lat.n[0, 2] < 0)


def area(h):
    lat, q = one(h)
    chord, span, _ = mids(h, q[0])
    z = K.cross(chord, span)
    h.assume(K.dot(z, z) > 1e-6)
    h.eq("area squared", lat.a[0] * lat.a[0], K.dot(z, z))
    h.holds("positive", lat.a[0] >= 0)
    h.eq("aspect ratio squared", lat.info["aspect_avg"] * lat.info["aspect_avg"] * K.dot(chord, chord), K.dot(span, span))
    h.eq("average of one", lat.info["area_avg"], lat.a[0])
    h.observe("a", [lat.a[0], lat.info["aspect_avg"]])


def flat_area(h):
    """For a flat panel the area is the sum of its two triangles (given in a plane with free orientation)."""
    o, u, v = h.point("o"), h.point("u"), h.point("v")
    c = [[h.real(f"c{i}.{k}") for k in range(2)] for i in range(4)]
    h.assume(K.dot(K.cross(u, v), K.cross(u, v)) > 1e-3)

    def tri(i, j, k):
        return (c[j][0] - c[i][0]) * (c[k][1] - c[i][1]) - (c[j][1] - c[i][1]) * (c[k][0] - c[i][0])
    t1, t2 = tri(0, 1, 2), tri(0, 2, 3)
    h.assume(land(t1 > 0.01, t2 > 0.01))
    q = h.array("q", (1, 4, 3)) * 0
    for i in range(4):
        for k in range(3):
            q[0, i, k] = o[k] + c[i][0] * u[k] + c[i][1] * v[k]
    lat, _ = one(h, q)
    w = K.cross(u, v)
    true2 = K.dot(w, w) * (t1 + t2) * (t1 + t2) * h.frac(1, 4)
    h.eq("true area", lat.a[0] * lat.a[0], true2)


def small(h):
    statistics(h, [[(1, 1), (1, 1), (1, 1)], [(1, 2), (1, 1)], [(2, 2)]] + ([[(2, 3)], [(1, 3), (1, 2)]] if THOROUGH else []))


def large(h):
    statistics(h, [[(1, 12)], [(5, 2), (1, 1)], [(6, 6)]] + ([[(8, 9)]] if THOROUGH else []))


def statistics(h, choices):
    counts = h.choose("counts", choices)
    lat, patches, st = K.patch_lattice(h, counts)
    K.run_lattice(lat, st, patches, counts)
    n = lat.info["num_panels"]
    asp = []
    for k in range(n):
        chord, span, _ = mids(h, [list(lat.p[k, m]) for m in range(4)])
        h.assume(K.dot(chord, chord) > 1e-4)
        asp.append(K.root(h, K.dot(span, span)) / K.root(h, K.dot(chord, chord)))
        z = K.cross(chord, span)
        h.eq(f"area{k}", lat.a[k] * lat.a[k], K.dot(z, z))
    for key, vals in (("area", list(lat.a)), ("aspect", asp)):
        lo, hi, avg = (lat.info[f"{key}_{w}"] for w in ("min", "max", "avg"))
        eps = 0 if h.symbolic else 1e-9 * (1 + abs(hi))
        for k, v in enumerate(vals):
            h.holds(f"{key}_min <= panel {k}", lo <= v + eps)
            h.holds(f"{key}_max >= panel {k}", hi >= v - eps)
        h.holds(f"{key}_min is attained", lor(*[lo >= v - eps for v in vals]))
        h.holds(f"{key}_max is attained", lor(*[hi <= v + eps for v in vals]))
        h.eq(f"{key}_avg", avg * n, sum(vals[1:], vals[0]))
    h.observe("info", [lat.info[k] for k in ("area_min", "area_max", "area_avg", "aspect_min", "aspect_max", "aspect_avg")])


HARNESSES = [H("normal", normal), H("flat_wing", flat_wing), H("area", area), H("flat_area", flat_area), H("statistics", small), H("large", large, follow=1)]
