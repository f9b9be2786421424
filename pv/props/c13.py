from ..check import H, THOROUGH
from .. import kernel as K, model as M
from . import c12

FUNCTIONS = ["aero/vlm.py: pre_panelling", "objects/aircraft.py: get_abs_segment_point_coords, WingSegment.add_subdivision_for_control, "
             "add_subdivision, SegmentStrip._add_subarea, _update_subarea", "commonlibs lin_interpol"]
BOUNDS = ("wings of up to " + ("4" if THOROUGH else "3") + " segments with arbitrary corners, one control surface from any segment to any later one (and on a single "
          "segment) with arbitrary end positions, chord fractions and hinge; one additional spanwise cut per segment, a second wing; "
          "the paths of random points for a control surface on seven of nine segments and on a segment with up to 40 strips")
OUTSIDE = "control surfaces naming segments which do not exist or in the order tip to root; chord position at spanwise cuts (C12)"
ASSUMPTIONS = ["xsi_interpol: a line has one (arbitrary) chord position at every span position (C12 decides the exact value)"]


def expected(h, segs, k1, k2, eta, x, g):
    """Chord fractions of edge and hinge at the ends of every segment's share of the control surface."""
    mid = (x[0] + x[1]) / 2
    ends = []
    for k in range(k1, k2 + 1):
        v = segs[k].vertices
        p = M.point(v, eta[0], x[0]) if k == k1 else M.point(v, 0, mid)
        q = M.point(v, eta[1], x[1]) if k == k2 else M.point(v, 1, mid)
        d = K.vsub(q, p)
        ends.append(K.root(h, K.dot(d, d)))
    total = sum(ends[1:], ends[0])
    out, run = [], 0
    for d in ends:
        a = run
        run = run + d
        out.append([(u[0] + (u[1] - u[0]) * (a / total), u[0] + (u[1] - u[0]) * (run / total)) for u in (x, g)])
    out[0] = [(u[0], out[0][i][1]) for i, u in enumerate((x, g))]
    out[-1] = [(out[-1][i][0], u[1]) for i, u in enumerate((x, g))]
    return out


def span(h, kinds, shape, cuts):
    c12.LINES[0] = c12.Lines(h)
    from pytornado.aero import vlm
    ac = M.aircraft()
    other = M.wing(ac, "other")
    so = M.segment(h, other, "s0", vertices=M.plain(h, M.UNIT))
    w = M.wing(ac)
    n, k1, k2 = shape
    cut = cuts if cuts == 1 else h.choose("cut", range(1, cuts + 1))
    segs = [M.segment(h, w, f"s{i}", num_s=cut) for i in range(n)]
    kind = h.choose("kind", kinds)
    x = [h.real(f"xsi{i}", 0.02, 0.98) for i in range(2)]
    hinge = h.choose("hinge", ["own", "edge", "straight"])
    if hinge == "straight":
        x[1] = x[0]
    g = [h.real(f"hinge{i}", 0.02, 0.98) for i in range(2)] if hinge != "edge" else x
    eta = (h.real("eta0", 0.02, 0.98) if h.flag("inner inside") else 0.0, h.real("eta1", 0.02, 0.98) if h.flag("outer inside") else 1.0)
    if k1 == k2:
        h.assume(eta[0] + h.frac(1, 25) < eta[1])
    c = M.control(h, w, "c", kind, seg=(f"s{k1}", f"s{k2}"), eta=eta, xsi=x, hinge=g)
    want = expected(h, segs, k1, k2, eta, x, g)
    for k in range(k1, k2 + 1):
        # weighted means of the ends (the solver need not rediscover it)
        for a in want[k - k1]:
            for q in a:
                h.assume(q > 0)
                h.assume(q < 1)
    vlm.pre_panelling(ac)
    h.holds("other wing", all(set(s.subarea) == {"segment"} for s in M.strips(so)))
    for k, s in enumerate(segs):
        lo = eta[0] if k == k1 else 0
        hi = eta[1] if k == k2 else 1
        own = [q for q in M.ordered(s) if kind in q.subarea]
        if not k1 <= k <= k2:
            h.holds(f"s{k}.untouched", not own)
            continue
        h.holds(f"s{k}.placed", bool(own))
        for q in M.ordered(s):
            o = q.rel_vertices
            inside = o["eta_a"] >= lo and o["eta_b"] <= hi
            h.holds(f"s{k}.between", (kind in q.subarea) == bool(inside))
            h.holds(f"s{k}.kinds", set(q.subarea) <= {"segment", kind})
            if kind in q.subarea:
                h.holds(f"s{k}.owner", q.subarea[kind].parent_control is c)
        h.eq(f"s{k}.from", own[0].rel_vertices["eta_a"], lo)
        h.eq(f"s{k}.to", own[-1].rel_vertices["eta_b"], hi)
        for j, name in enumerate(("edge", "hinge")):
            h.eq(f"s{k}.{name}.inner", c12.edges(own[0], kind)[j][0], want[k - k1][j][0])
            h.eq(f"s{k}.{name}.outer", c12.edges(own[-1], kind)[j][1], want[k - k1][j][1])
            for p, q in zip(own, own[1:]):
                h.eq(f"s{k}.{name}.joint", c12.edges(p, kind)[j][1], c12.edges(q, kind)[j][0])
    for k in range(k2 - k1):
        # both sides of a border agree: the same number is required of both
        h.eq(f"border{k}", [want[k][0][1], want[k][1][1]], [want[k + 1][0][0], want[k + 1][1][0]])


def make(shape, cuts=1, kinds=("flap", "slat")):
    return lambda h: span(h, list(kinds), shape, cuts)


SHAPES = [(1, 0, 0), (2, 0, 1), (3, 0, 1), (3, 0, 2), (3, 1, 2)] + ([(4, 0, 3), (4, 1, 2), (4, 1, 3)] if THOROUGH else [])
HARNESSES = [H(f"span{n}_{a}{b}", make((n, a, b)), stubs=c12.abstract, concrete_stubs=c12.abstract, validate=1, linear=True) for n, a, b in SHAPES]
HARNESSES += [H("many", make((9, 1, 7), 1), stubs=c12.abstract, concrete_stubs=c12.abstract, linear=True, follow=4 if THOROUGH else 2),
              H("strips", make((1, 0, 0), 40, ("flap",)), stubs=c12.abstract, concrete_stubs=c12.abstract, linear=True, follow=10 if THOROUGH else 3)]
HARNESSES += [H("cuts", make((2, 0, 1), 2, ("flap",)), stubs=c12.abstract, concrete_stubs=c12.abstract, validate=1, linear=True, max_paths=5000)]
