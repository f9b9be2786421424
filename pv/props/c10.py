from ..check import H
from .. import model as M

FUNCTIONS = ["objects/aircraft.py: SegmentStrip.abs_vertices, StripSubdivision.abs_vertices, abs_hinge_vertices, abs_hinge_axis, "
             "mirror_point, mirror_vertices, order_mirrored_vertex_points, add_subdivision_for_control, _add_subarea"]
BOUNDS = "one segment with arbitrary (non-planar) corners; strips and devices with arbitrary relative positions; all three symmetry planes; flap, slat, both or none"
OUTSIDE = "floating point rounding; deformed wings (decided under C17)"

# corner of the original side that becomes corner a, b, c, d of the mirrored side
ORDER = {1: "abcd", 2: "badc", 3: "dcba"}


def build(h, sym, kinds):
    ac = M.aircraft()
    w = M.wing(ac, symmetry=sym)
    s = M.segment(h, w)
    strip = M.strips(s)[0]
    x = {}
    for k in kinds:
        q = [h.real(f"{k}.{i}", 0.01, 0.99) for i in range(2)]
        g = [h.real(f"{k}.h{i}", 0, 1) for i in range(2)]
        x[k] = (q, g)
    if len(kinds) == 2:
        for i in range(2):
            h.assume(x["slat"][0][i] + h.frac(1, 50) <= x["flap"][0][i])
    for k in kinds:
        q, g = x[k]
        c = M.control(h, w, k, k, xsi=q, hinge=g)
        strip._add_subarea(c, q[0], q[1], g[0], g[1])
    # any strip of the segment
    for k in "abcd":
        strip.rel_vertices["eta_" + k] = h.real("eta_" + k, 0, 1)
    return s, strip, x


def mirror(h):
    sym = h.choose("plane", [1, 2, 3])
    kinds = h.choose("devices", [[], ["flap"], ["slat"], ["slat", "flap"]])
    s, strip, x = build(h, sym, kinds)
    parts = strip.subarea
    before = {k: {q: list(v) for q, v in p.abs_vertices(False).items()} for k, p in parts.items()}
    corners0 = {k: list(v) for k, v in s.vertices.items()}
    # whole strip
    o, m = strip.abs_vertices(False), strip.abs_vertices(True)
    for new, old in zip("abcd", ORDER[sym]):
        h.eq(f"strip.{new}", list(m[new]), M.reflect(o[old], sym))
    # parts: original side where it is said to be, mirrored side its reflection
    for k, p in parts.items():
        h.eq(f"{k}.original", before[k], M.part_region(strip, p))
        m = p.abs_vertices(True)
        for new, old in zip("abcd", ORDER[sym]):
            h.eq(f"{k}.{new}", list(m[new]), M.reflect(before[k][old], sym))
        h.observe(k, [list(m[c]) for c in "abcd"])
    for k in kinds:
        p = parts[k]
        v = strip.abs_vertices(False)
        g = x[k][1]
        hin, hout = M.lerp(g[0], v["a"], v["d"]), M.lerp(g[1], v["b"], v["c"])
        ho, hm = p.abs_hinge_vertices(False), p.abs_hinge_vertices(True)
        h.eq(f"{k}.hinge", [list(ho["p_inner"]), list(ho["p_outer"])], [hin, hout])
        pts = [M.reflect(hin, sym), M.reflect(hout, sym)]
        if sym == 2:
            pts.reverse()
        h.eq(f"{k}.hinge.mirror", [list(hm["p_inner"]), list(hm["p_outer"])], pts)
        h.eq(f"{k}.hinge.axis", list(p.abs_hinge_axis(True)), [pts[1][i] - pts[0][i] for i in range(3)])
    # asking for the mirror changes nothing
    for k, p in parts.items():
        h.eq(f"{k}.again", {q: list(v) for q, v in p.abs_vertices(False).items()}, before[k])
    h.eq("segment", {k: list(v) for k, v in s.vertices.items()}, corners0)


HARNESSES = [H("mirror", mirror)]
