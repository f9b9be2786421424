from ..check import H, THOROUGH
from .. import model as M
from . import c10

FUNCTIONS = ["aero/vlm.py: gen_lattice", "objects/vlm_struct.py: VLMLattice.update_bookkeeping, clean_bookkeeping, BookKeepingEntry",
             "objects/objecttools.py: all_subareas, all_controls, count_all_*", "objects/aircraft.py: StripSubdivision.rel_length, abs_vertices"]
BOUNDS = ("two wings with any symmetry, segments with arbitrary corners cut at an arbitrary place, strips with flap and/or slat at arbitrary chord positions, "
          "requested chordwise numbers 1.." + ("4" if THOROUGH else "3") + " (shares rounded up symbolically); "
          + ("24 strips" if THOROUGH else "14 strips") + " and numbers up to 40 in one model with a flap at arbitrary chord positions")
OUTSIDE = "larger requested numbers and more strips; num_strips (always equal to the number of panels)"


def native(h):
    from pytornado.aero import vlm
    rec = M.Recorder(h)
    return rec


REC = [None]


def stubs():
    from pytornado.aero import vlm

    class Proxy:
        def __getattr__(self, k):
            return getattr(REC[0], k)
    return [(vlm, "c_vlm", Proxy())]


def strip_with(h, w, seg, strip, tag, kinds, num):
    x = {k: [h.real(f"{tag}.{k}{i}", 0.01, 0.99) for i in range(2)] for k in kinds}
    if len(kinds) == 2:
        for i in range(2):
            h.assume(x["slat"][i] + h.frac(1, 50) <= x["flap"][i])
    for k in kinds:
        c = M.control(h, w, tag + k, k, seg=(seg.uid, seg.uid), xsi=x[k], num_c=num[k])
        strip._add_subarea(c, x[k][0], x[k][1], x[k][0], x[k][1])
    return x


def check(h, ac, lat, rec, num_c, wings, tag):
    sub, sym, pan, n_p = rec.calls[-1]
    entries = lat.panel_bookkeeping
    want = []
    for w in ac.wings.values():
        for s in w.segments.values():
            for strip in s.subdivision.values():
                for kind, part in strip.subarea.items():
                    want.append((w, s, strip, kind, part, False))
                    if w.symmetry:
                        want.append((w, s, strip, kind, part, True))
    # one entry per part and side
    h.holds(tag + ".entries", len(entries) == len(want) and {(id(e.subarea), bool(e.mirror)) for e in entries} == {(id(x[4]), x[5]) for x in want})
    h.eq(tag + ".arrays", [len(sub), len(pan)], [len(entries)] * 2)
    at = 0
    info = {(id(x[4]), x[5]): x for x in want}
    for i, e in enumerate(entries):
        w, s, strip, kind, part, mirror = info[(id(e.subarea), bool(e.mirror))]
        idx = [int(k) for k in e.pan_idx]
        h.eq(f"{tag}.range{i}", idx, list(range(at, at + len(idx))))
        h.holds(f"{tag}.some{i}", len(idx) >= 1)
        at += len(idx)
        h.eq(f"{tag}.meshed{i}", [pan[i, 0], pan[i, 1]], [1, len(idx)])
        h.eq(f"{tag}.recorded{i}", e.num_chordwise_panels, len(idx))
        if kind == "segment":
            share = 1
            if "flap" in strip.subarea:
                f = strip.subarea["flap"].rel_vertices
                share = share - (2 - f["xsi_a"] - f["xsi_b"]) / 2
            if "slat" in strip.subarea:
                f = strip.subarea["slat"].rel_vertices
                share = share - (f["xsi_c"] + f["xsi_d"]) / 2
            n = num_c[s.uid]
            h.holds(f"{tag}.rounded{i}", (share * n <= len(idx)))
            h.holds(f"{tag}.rounded up{i}", (len(idx) - 1 < share * n))
        else:
            h.eq(f"{tag}.control{i}", len(idx), num_c[part.parent_control.uid])
        o = M.part_region(strip, part)
        if mirror:
            o = {n: M.reflect(o[q], w.symmetry) for n, q in zip("abcd", c10.ORDER[w.symmetry])}
        h.eq(f"{tag}.patch{i}", [list(sub[i][k]) for k in range(4)], [o[k] for k in "abcd"])
    h.eq(tag + ".total", [at, lat.info["num_panels"], n_p], [at] * 3)
    h.eq(tag + ".symmetry", [x for x in sym], [0] * len(sym))
    h.eq(tag + ".wings", lat.info["num_wings"], len(ac.wings))
    h.eq(tag + ".controls", lat.info["num_controls"], sum(len(w.controls) for w in ac.wings.values()))
    h.eq(tag + ".parts", lat.info["num_segments"], len(entries))
    for k in ("p", "v"):
        h.eq(f"{tag}.{k}", list(getattr(lat, k).shape), [at, 4, 3])
    for k in ("c", "n", "bound_leg_midpoints"):
        h.eq(f"{tag}.{k}", list(getattr(lat, k).shape), [at, 3])
    h.eq(f"{tag}.a", list(lat.a.shape), [at])
    # the same entries, by wing and side
    for side, d in ((False, lat.bookkeeping_by_wing_uid), (True, lat.bookkeeping_by_wing_uid_mirror)):
        for uid in set(ac.wings) | set(d):
            mine = [e for e in entries if bool(e.mirror) == side and e.subarea.parent_wing.uid == uid]
            got = list(d[uid]) if uid in d else []
            h.holds(f"{tag}.by wing", len(got) == len(mine) and all(x is y for x, y in zip(got, mine)))
    return [(id(e.subarea), bool(e.mirror), list(e.pan_idx)) for e in entries]


def lattice(h, first, second, top):
    from pytornado.aero import vlm
    REC[0] = rec = M.Recorder(h)
    ac = M.aircraft()
    num_c = {}
    w = M.wing(ac, "w", h.choose("symmetry", first))
    num_c["s"] = h.choose("num_c", range(1, top + 1))
    s = M.segment(h, w, "s", num_c=num_c["s"])
    kinds = h.choose("devices", [[], ["flap"], ["slat"], ["slat", "flap"]])
    for k in kinds:
        num_c["x" + k] = h.choose("num_" + k, [1, top])
    strip_with(h, w, s, M.strips(s)[0], "x", kinds, {k: num_c["x" + k] for k in kinds})
    if second is not None:
        w2 = M.wing(ac, "w2", h.choose("symmetry2", second))
        num_c["t"] = 2
        t = M.segment(h, w2, "t", num_c=2)
        num_c["u"] = 1
        u = M.segment(h, w2, "u", num_c=1)
        e = h.real("cut", 0.1, 0.9)
        t.add_subdivision(e, e)
        num_c["yflap"] = 3
        strip_with(h, w2, t, M.strips(t)[1], "y", ["flap"], {"flap": 3})
    settings = M.settings(False)
    lat = vlm.gen_lattice(ac, None, settings, make_new_subareas=False)
    a = check(h, ac, lat, rec, num_c, ac.wings, "first")
    lat2 = vlm.gen_lattice(ac, None, settings, make_new_subareas=False)
    b = check(h, ac, lat2, rec, num_c, ac.wings, "again")
    h.holds("same", a == b)
    h.holds("independent", [(id(e.subarea), bool(e.mirror), list(e.pan_idx)) for e in lat.panel_bookkeeping] == a)


def many(h, strips, share):
    """Many strips and panels: two segments, one with a flap over all strips but the first and last, one uncut; another wing."""
    h.INT_HI = max(share)
    from pytornado.aero import vlm
    REC[0] = rec = M.Recorder(h)
    ac = M.aircraft()
    w, w2 = M.wing(ac, "w", 2), M.wing(ac, "w2")
    num_c = dict(s=h.choose("num_c", share), t=40, u=1, flap=25, slat=2)
    s, t, u = M.segment(h, w, "s", num_c=num_c["s"]), M.segment(h, w, "t", num_c=40), M.segment(h, w2, "u")
    for k in range(1, strips):
        e = h.frac(k, strips)
        s.add_subdivision(e, e)
    x = [h.real(f"xsi{i}", 0.01, 0.99) for i in range(2)]
    c = M.control(h, w, "flap", "flap", xsi=x, num_c=25)
    for strip in M.ordered(s)[1:-1]:
        strip._add_subarea(c, *x, *x)
    d = M.control(h, w2, "slat", "slat", seg=("u", "u"), xsi=(0.25, 0.25), num_c=2)
    M.strips(u)[0]._add_subarea(d, 0.25, 0.25, 0.25, 0.25)
    lat = vlm.gen_lattice(ac, None, M.settings(False), make_new_subareas=False)
    check(h, ac, lat, rec, num_c, ac.wings, "many")


HARNESSES = [
    H("one", lambda h: lattice(h, [0, 1, 2, 3], None, 4 if THOROUGH else 3), stubs=stubs, concrete_stubs=stubs, validate=1),
    H("two", lambda h: lattice(h, [0, 2] if not THOROUGH else [0, 1, 2, 3], [0, 2] if not THOROUGH else [0, 1, 2, 3], 2), stubs=stubs, concrete_stubs=stubs, validate=1),
    H("many", lambda h: many(h, 24 if THOROUGH else 14, [1, 11, 24] if THOROUGH else [1, 11]), stubs=stubs, concrete_stubs=stubs, validate=1),
]
