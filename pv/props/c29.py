from ..check import H, THOROUGH
from .. import model as M
from . import c14

FUNCTIONS = ["aero/vlm.py: pre_panelling, gen_lattice", "objects/aircraft.py: WingSegment.add_subdivision, add_subdivision_for_control, "
             "_get_subdiv_at_eta", "objects/objecttools.py: all_segments, all_controls"]
BOUNDS = ("every number of strips from 1 to 99 on a segment without control surfaces; 1 to " + ("11" if THOROUGH else "6") + " (" + ("4" if THOROUGH else "2") + ") strips on a segment with one (two) "
          "control surfaces at arbitrary span positions, " + ("12, 33 and 64" if THOROUGH else "12 and 33") + " strips with one control surface ending in a "
          "given tenth of the span; two wings with different numbers, given in any order; meshing prepared again")
OUTSIDE = "rounding (ends of control surfaces within 1e-9 of a cut); more than 99 strips (closer than the one percent within which a cut is taken to exist); control surfaces narrower than four percent of the span"


def lines(seg):
    return [s.rel_vertices["eta_a"] for s in M.ordered(seg)]


def same(h, label, got, want):
    h.holds(label + ".number", len(got) == len(want), info=f"{len(got)} cuts instead of {len(want)}")
    tol = h.frac(1, 10 ** 9)
    for i, (a, b) in enumerate(zip(got, want)):
        h.holds(f"{label}.cut{i}", abs(a - b) <= tol)


def joined(h, cuts, x):
    """The cuts with one more, unless it is less than a percent outboard of one of them."""
    if x <= 0 or x >= 1:
        return cuts
    k = 0
    for i, c in enumerate(cuts):
        if not h.symbolic and i and (abs(x - c) < 1e-9 or abs(x - c - 0.01) < 1e-9):
            h.assume(False)         # rounding decides
        if c <= x:
            k = i + 1
            if x - c < h.frac(1, 100):
                return cuts
    return cuts[:k] + [x] + cuts[k:]


def expected(h, ends, n):
    cuts = [0]
    for x in ends:
        cuts = joined(h, cuts, x)
    for k in range(1, n):
        cuts = joined(h, cuts, h.frac(k, n))
    return cuts


def strips_are_cells(h, label, seg):
    """Straight cuts, one strip between two neighbouring ones."""
    s = M.ordered(seg)
    e = [q.rel_vertices for q in s]
    same(h, label + ".lower", [q["eta_d"] for q in e], [q["eta_a"] for q in e])
    same(h, label + ".outer", [q["eta_b"] for q in e], [q["eta_a"] for q in e[1:]] + [1])
    same(h, label + ".corner", [q["eta_c"] for q in e], [q["eta_b"] for q in e])


def plain(h, numbers):
    from pytornado.aero import vlm
    ac = M.aircraft()
    n = h.choose("strips", numbers)
    w = M.wing(ac, symmetry=h.choose("symmetry", [0, 2]))
    s = M.segment(h, w, vertices=M.plain(h, M.UNIT), num_s=n)
    for again in range(2):      # preparing the mesh again changes nothing
        vlm.pre_panelling(ac)
        same(h, f"cuts{again}", lines(s), [h.frac(k, n) for k in range(n)])
        strips_are_cells(h, f"strips{again}", s)
    h.observe("cuts", [float(x) for x in lines(s)])
    h.real("unused", 0, 1)


def devices(h, numbers, count, spread=None):
    from pytornado.aero import vlm
    ac = M.aircraft()
    n = h.choose("strips", numbers)
    w = M.wing(ac)
    s = M.segment(h, w, vertices=M.plain(h, M.UNIT), num_s=n)
    ends = []
    for i, kind in enumerate(("flap", "slat")[:count]):
        lo, hi = spread or (0, 1)
        a = h.real(f"inner{i}", lo, hi)
        b = h.real(f"outer{i}", 0, 1) if spread is None else 1.0
        if spread is None:
            h.assume(a + h.frac(1, 25) <= b)
        x = [0.75, 0.75] if kind == "flap" else [0.25, 0.25]
        M.control(h, w, f"c{i}", kind, eta=(a, b), xsi=x, num_c=1)
        ends += [a, b]
    vlm.pre_panelling(ac)
    same(h, "cuts", lines(s), expected(h, ends, n))
    strips_are_cells(h, "strips", s)


def several(h):
    """Every segment has its own number."""
    from pytornado.aero import vlm
    c14.REC[0] = rec = M.Recorder(h)
    ac = M.aircraft()
    nums = h.choose("strips", [(1, 3, 2), (5, 1, 4), (2, 2, 7), (31, 3, 1), (1, 1, 12)])
    w, v = M.wing(ac, "w"), M.wing(ac, "v", symmetry=2)
    segs = [M.segment(h, q, f"s{i}", num_s=n) for i, (q, n) in enumerate(zip((w, w, v), nums))]
    lat = vlm.gen_lattice(ac, None, M.settings(False))
    for i, (s, n) in enumerate(zip(segs, nums)):
        same(h, f"s{i}.cuts", lines(s), [h.frac(k, n) for k in range(n)])
        strips_are_cells(h, f"s{i}", s)
        h.eq(f"s{i}.entries", sum(e.subarea.parent_segment is s for e in lat.panel_bookkeeping), n * (2 if s is segs[2] else 1))


def constant():
    """On a rectangle a line at a constant chord fraction stays there."""
    from pytornado.objects import aircraft
    return [(aircraft, "xsi_interpol", lambda v, inner, outer, eta: inner[1] + (outer[1] - inner[1]) / 2)]


ABS = dict(stubs=constant, concrete_stubs=constant, linear=True)
HARNESSES = [
    H("plain", lambda h: plain(h, range(1, 100))),
    H("one", lambda h: devices(h, range(1, 12 if THOROUGH else 7), 1), validate=1, **ABS),
    H("two", lambda h: devices(h, range(1, 5 if THOROUGH else 3), 2), validate=1, max_paths=20000, **ABS),
    H("fine", lambda h: devices(h, [12, 33] + ([64] if THOROUGH else []), 1, spread=(0.3, 0.4)), validate=1, **ABS),
    H("several", several, stubs=c14.stubs, concrete_stubs=c14.stubs),
]
