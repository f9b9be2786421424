import random
from types import SimpleNamespace as NS
from ..check import H, THOROUGH
from .. import model as M

FUNCTIONS = ["aero/vlm.py: set_autopanels", "objects/aircraft.py: Wing.span", "objects/objecttools.py: all_segments, all_controls"]
BOUNDS = ("two wings with up to " + ("4" if THOROUGH else "3") + " and one segments (and 12, on the paths of random points) of arbitrary positive spans, every subset of panel numbers open, three control surfaces (flap and slats), "
          "arbitrary configured numbers from 1 to 100, up to three calls (the last one with other settings)")
OUTSIDE = "panel numbers that are not integers (refused, see C25); segments without span"


def exact(spans):
    """No rounding errors in any order of evaluation."""
    from math import log2
    return all(x * 4 == int(x * 4) for x in spans) and (len(spans) == 1 or log2(sum(spans)) == int(log2(sum(spans))))


def numbers(h, n, chord=True, patterns=0):
    flag = h.flag
    if patterns:
        rng = random.Random(h.choose("pattern", range(patterns)))
        flag = lambda name: rng.random() < 0.3
    from pytornado.aero import vlm
    ac = M.aircraft()
    w, w2 = M.wing(ac, "w", symmetry=2), M.wing(ac, "w2")
    given = {}
    nc, ns = h.integer("autopanels_c", 1, 100), h.integer("autopanels_s", 1, 100)
    segs = []
    for i in range(n + 1):
        uid = f"s{i}"
        given[uid] = (h.integer(uid + ".c", 1, 50) if chord and flag(uid + " c given") else None,
                      h.integer(uid + ".s", 1, 50) if flag(uid + " s given") else None)
        segs.append(M.segment(h, w if i < n else w2, uid, vertices=M.plain(h, M.UNIT), num_c=given[uid][0], num_s=given[uid][1],
                              span=h.real(uid + ".span", 0.01, 100)))
    cs = []
    for i in range(3):
        # The third one (a slat in front of the first one) is given when the first one is not
        g = h.integer(f"c{i}", 1, 50) if (chord and flag(f"c{i} given") if i < 2 else cs[0][1] is None) else None
        cs.append((M.control(h, [w, w2, w][i], f"c{i}", kind=["flap", "slat", "slat"][i], seg=(f"s{n * (i % 2)}",) * 2,
                             num_c=g, deflection=3.0), g))
    settings = NS(settings=dict(vlm_autopanels_c=nc, vlm_autopanels_s=ns))
    vlm.set_autopanels(ac, settings)
    h.eq("settings", settings.settings, dict(vlm_autopanels_c=nc, vlm_autopanels_s=ns))

    def check(tag):
        for part in (segs[:n], segs[n:]):
            total = sum((s.geometry["span"] for s in part), 0)
            slack = 0 if h.symbolic or exact([s.geometry["span"] for s in part]) else 1e-9
            number = 0
            for s in part:
                c, k = given[s.uid]
                gc, gs = s.panels["num_c"], s.panels["num_s"]
                h.holds(f"{tag}.{s.uid}.integers", isinstance(gc, int) and isinstance(gs, int))
                h.eq(f"{tag}.{s.uid}.chordwise", gc, c if c is not None else nc)
                if k is not None:
                    h.eq(f"{tag}.{s.uid}.spanwise", gs, k)
                else:
                    share = s.geometry["span"] / total * ns
                    h.holds(f"{tag}.{s.uid}.enough", gs >= share - slack)
                    h.holds(f"{tag}.{s.uid}.rounded up", gs - 1 < share + slack)
                h.holds(f"{tag}.{s.uid}.positive", gs >= 1)
                h.holds(f"{tag}.{s.uid}.positive c", gc >= 1)
                number = number + gs
            if all(given[s.uid][1] is None for s in part):
                h.holds(f"{tag}.total", number >= ns)
        for c, g in cs:
            h.eq(f"{tag}.{c.uid}", c.panels["num_c"], g if g is not None else nc)
    check("first")
    before = [(s.panels["num_c"], s.panels["num_s"]) for s in segs]
    vlm.set_autopanels(ac, settings)
    check("again")
    # Nothing is open any more: other numbers make no difference
    vlm.set_autopanels(ac, NS(settings=dict(vlm_autopanels_c=h.integer("other_c", 1, 100), vlm_autopanels_s=h.integer("other_s", 1, 100))))
    h.eq("same", [(s.panels["num_c"], s.panels["num_s"]) for s in segs], before)


def defaults(h):
    """Nothing configured."""
    from pytornado.aero import vlm
    ac = M.aircraft()
    w = M.wing(ac)
    s = M.segment(h, w, num_c=None, num_s=None, span=h.real("span", 0.01, 100))
    vlm.set_autopanels(ac, NS(settings={}))
    h.holds("positive", s.panels["num_c"] >= 1 and s.panels["num_s"] >= 1)


HARNESSES = [H(f"numbers{n}", lambda h, n=n: numbers(h, n), linear=True, validate=1) for n in ((1, 2, 3) if THOROUGH else (1, 2))]
HARNESSES += [H("spans", lambda h: numbers(h, 4 if THOROUGH else 3, False), linear=True, validate=1), H("defaults", defaults),
              H("many", lambda h: numbers(h, 12, patterns=10 if THOROUGH else 3), linear=True, follow=2)]
