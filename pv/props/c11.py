from ..check import H, THOROUGH
from .. import explore, model as M, term

FUNCTIONS = ["objects/aircraft.py: WingSegment.add_subdivision, add_subdivision_for_control, _get_subdiv_at_eta, "
             "_get_outer_neighbour_subdiv, SegmentStrip._add_subarea, _update_subarea, StripSubdivision.rel_length"]
BOUNDS = ("all sequences of up to two operations (cut, flap, slat) with arbitrary span and chord positions, two cuts through a strip with both devices"
          + (", selected sequences of three operations" if THOROUGH else "") + ", paths of random points through histories of up to 12 operations; single operations with completely free arguments")
OUTSIDE = ("longer sequences; the chord position on a new cut is an arbitrary number between those at the strip's ends, with the same weight "
           "for all lines of the strip (decided under C12)")
ASSUMPTIONS = ["xsi_interpol returns a weighted mean of the end positions (C12 decides the exact value)"]


def interpol():
    from pytornado.objects import aircraft
    memo = {}

    def xsi_interpol(segment_vertices, rel_inner, rel_outer, eta):
        h = explore.current()
        key = (id(h),) + tuple(term.node(x).id if h.symbolic else float(x) for x in (rel_inner[0], rel_outer[0], eta))
        if key not in memo:
            memo[key] = h, h.real(f"w{sum(k[0] == id(h) for k in memo)}", 0, 1)
        w = memo[key][1]
        return rel_inner[1] + w * (rel_outer[1] - rel_inner[1])
    return [(aircraft, "xsi_interpol", xsi_interpol)]


def partition(h, tag, seg):
    """Strips cover the span, parts cover the chord of every strip."""
    s = M.ordered(seg)
    h.eq(tag + ".root", s[0].rel_vertices["eta_a"], 0)
    h.eq(tag + ".tip", s[-1].rel_vertices["eta_b"], 1)
    for i, x in enumerate(s):
        e = x.rel_vertices
        h.holds(f"{tag}.width{i}", e["eta_a"] < e["eta_b"])
        h.eq(f"{tag}.straight{i}", [e["eta_d"], e["eta_c"]], [e["eta_a"], e["eta_b"]])
        if i + 1 < len(s):
            h.eq(f"{tag}.next{i}", e["eta_b"], s[i + 1].rel_vertices["eta_a"])
        p = x.subarea
        h.holds(f"{tag}.kinds{i}", set(p) <= {"segment", "slat", "flap"} and "segment" in p)
        m = p["segment"].rel_vertices
        lo = [p["slat"].rel_vertices["xsi_d"], p["slat"].rel_vertices["xsi_c"]] if "slat" in p else [0, 0]
        hi = [p["flap"].rel_vertices["xsi_a"], p["flap"].rel_vertices["xsi_b"]] if "flap" in p else [1, 1]
        h.eq(f"{tag}.main{i}", [m["xsi_a"], m["xsi_b"], m["xsi_d"], m["xsi_c"]], lo + hi)
        for a, b in zip(lo, hi):
            h.holds(f"{tag}.order{i}", (0 <= a) & (a < b) & (b <= 1) if h.symbolic else 0 <= a < b <= 1)
        if "slat" in p:
            v = p["slat"].rel_vertices
            h.eq(f"{tag}.slat{i}", [v["xsi_a"], v["xsi_b"]], [0, 0])
        if "flap" in p:
            v = p["flap"].rel_vertices
            h.eq(f"{tag}.flap{i}", [v["xsi_d"], v["xsi_c"]], [1, 1])
        total = sum((q.rel_length for q in p.values()), 0)
        h.eq(f"{tag}.lengths{i}", total, 1)


def lines(seg):
    return [s.rel_vertices["eta_a"] for s in M.ordered(seg)]


def cut(h, tag, seg, free=False):
    eta = h.real(tag + ".eta", -1, 2) if free else h.real(tag + ".eta", 0.001, 0.999)
    old = lines(seg)
    owners = [(s, k, p.parent_control) for s in seg.subdivision.values() for k, p in s.subarea.items()]
    ignore = free and h.flag(tag + ".ignore")
    ex = h.raised(seg.add_subdivision, eta, eta, ignore_inval_eta=ignore)
    partition(h, tag, seg)
    if eta <= 0 or eta >= 1:
        h.holds(tag + ".refused", ignore == (ex is None) and (ex is None or isinstance(ex, ValueError)))
        h.eq(tag + ".unchanged", lines(seg), old)
        return
    h.holds(tag + ".accepted", ex is None, info=repr(ex))
    near = False
    for x in old:
        d = eta - x
        if d >= 0 and d < h.frac(1, 100):
            near = True
    if near:
        h.eq(tag + ".nothing new", lines(seg), old)
    else:
        k = sum(1 for x in old if x < eta)
        h.eq(tag + ".one line", lines(seg), old[:k] + [eta] + old[k:])
    for s, kind, c in owners:
        h.holds(tag + ".owner", s.subarea[kind].parent_control is c)


def device(h, tag, w, seg, kind, free=False, chord=(0.01, 0.99)):
    e = [h.real(f"{tag}.eta{i}", 0, 1) for i in range(2)]
    h.assume(e[0] < e[1])
    lo, hi = (-1, 2) if free else chord
    x = [h.real(f"{tag}.xsi{i}", lo, hi) for i in range(2)]
    g = [h.real(f"{tag}.h{i}", lo, hi) for i in range(2)] if free else x
    owners = [(s, k, p.parent_control) for s in seg.subdivision.values() for k, p in s.subarea.items()]
    c = M.control(h, w, tag, kind, xsi=x, hinge=g, eta=e)
    ex = h.raised(seg.add_subdivision_for_control, e[0], e[1], c, x[0], x[1], g[0], g[1])
    partition(h, tag, seg)
    for s, k, o in owners:
        h.holds(tag + ".owner", s.subarea[k].parent_control is o)
    if ex is not None:
        h.holds(tag + ".refusal", isinstance(ex, ValueError), info=repr(ex))
    else:
        for v in x:
            h.holds(tag + ".inside", (v > 0) & (v < 1) if h.symbolic else 0 < v < 1)
        for v in g:
            h.holds(tag + ".hinge", (v >= 0) & (v <= 1) if h.symbolic else 0 <= v <= 1)


def setup(h):
    w = M.wing(M.aircraft())
    return w, M.segment(h, w, vertices=M.plain(h, M.UNIT))


def refusal(h):
    """One operation with completely free arguments, on a segment with one other device."""
    w, seg = setup(h)
    partition(h, "start", seg)
    first = h.choose("device", ["none", "flap", "slat"])
    if first != "none":
        x = [h.real(f"first.xsi{i}", 0.01, 0.99) for i in range(2)]
        M.strips(seg)[0]._add_subarea(M.control(h, w, "first", first, xsi=x), x[0], x[1], x[0], x[1])
        partition(h, "first", seg)
    op = h.choose("op", ["cut", "flap", "slat"])
    if op == "cut":
        cut(h, "op", seg, free=True)
        return
    x = [h.real(f"op.xsi{i}", -1, 2) for i in range(2)]
    g = [h.real(f"op.h{i}", -1, 2) for i in range(2)]
    c = M.control(h, w, "op", op, xsi=x, hinge=g)
    ex = h.raised(seg.add_subdivision_for_control, 0, 1, c, x[0], x[1], g[0], g[1])
    partition(h, "op", seg)
    if ex is None:
        for v in x:
            h.holds("inside", (v > 0) & (v < 1) if h.symbolic else 0 < v < 1)
        for v in g:
            h.holds("hinge", (v >= 0) & (v <= 1) if h.symbolic else 0 <= v <= 1)
        h.holds("one device of a kind", op != first)
    else:
        h.holds("error", isinstance(ex, ValueError), info=repr(ex))
        bad = any(v <= 0 or v >= 1 for v in x) or any(v < 0 or v > 1 for v in g) or op == first
        if not bad and first != "none":
            f = M.strips(seg)[0].subarea[first].rel_vertices
            m = h.frac(1, 100)
            if op == "flap":
                bad = any(f[k] + m > v for k, v in zip(("xsi_d", "xsi_c"), x))
            else:
                bad = any(v + m > f[k] for k, v in zip(("xsi_a", "xsi_b"), x))
        h.holds("refused only for cause", bad)


OPS = ["cut", "flap", "slat"]
SEQ2 = [[a, b] for a in OPS for b in OPS]
SEQ3 = [["flap", "slat", "cut"], ["cut", "cut", "flap"], ["slat", "cut", "cut"], ["cut", "slat", "flap"]]


class Quiet:
    """Run an operation without stating obligations (they are stated by the shorter histories)."""

    def __init__(self, h):
        self.h = h

    def __getattr__(self, k):
        if k in ("eq", "holds", "observe"):
            return lambda *a, **kw: None
        return getattr(self.h, k)


def history(seqs):
    def run(h):
        ops = seqs[0] if len(seqs) == 1 else h.choose("operations", seqs)
        w, seg = setup(h)
        for i, op in enumerate(ops):
            q = h if i == len(ops) - 1 else Quiet(h)
            if op == "cut":
                cut(q, f"{i}", seg)
            else:
                device(q, f"{i}", w, seg, op)
    return run


def inherit(h):
    """A strip with both devices is cut twice."""
    w, seg = setup(h)
    x = {k: [h.real(f"{k}{i}", 0.01, 0.99) for i in range(2)] for k in ("slat", "flap")}
    for i in range(2):
        h.assume(x["slat"][i] + h.frac(1, 50) <= x["flap"][i])
    order = h.choose("order", [["slat", "flap"], ["flap", "slat"]])
    for k in order:
        M.strips(seg)[0]._add_subarea(M.control(h, w, k, k, xsi=x[k]), *x[k], *x[k])
    cut(h, "0", seg)
    cut(h, "1", seg)
    for s in M.strips(seg):
        for k in order:
            h.holds("inherited " + k, k in s.subarea and s.subarea[k].parent_control.uid == k)


LONG = [["cut"]*6 + ["flap", "slat"] + ["cut"]*4, ["slat", "cut", "flap"] + ["cut"]*9, ["flap", "slat"]*3 + ["cut"]*4,
        ["cut"]*5 + ["slat", "cut", "flap", "slat", "flap", "cut"]]


def long(h):
    """Many operations, devices with room for each other."""
    w, seg = setup(h)
    ops = h.choose("operations", LONG)
    for i, op in enumerate(ops):
        q = h if i >= len(ops) - 2 else Quiet(h)
        if op == "cut":
            cut(q, f"{i}", seg)
        else:
            device(q, f"{i}", w, seg, op, chord=(0.6, 0.95) if op == "flap" else (0.05, 0.4))


HARNESSES = [H("refusal", refusal, stubs=interpol, concrete_stubs=interpol),
             H("history1", history([[o] for o in OPS]), stubs=interpol, concrete_stubs=interpol),
             H("history2", history(SEQ2), stubs=interpol, concrete_stubs=interpol, max_paths=40000, validate=1),
             H("long", long, stubs=interpol, concrete_stubs=interpol, follow=20 if THOROUGH else 4),
             H("inherit", inherit, stubs=interpol, concrete_stubs=interpol, validate=1)]
if THOROUGH:
    HARNESSES.append(H("history3", history(SEQ3), stubs=interpol, concrete_stubs=interpol, max_paths=200000, validate=1))
