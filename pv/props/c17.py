import os
import shutil
import tempfile

from ..check import H, THOROUGH
from .. import model as M, sjson, term
from . import c10

FUNCTIONS = ["fileio/native/deformation.py: load", "objects/aircraft.py: SegmentStrip.abs_vertices, StripSubdivision.abs_vertices, "
             "WingSegment.get_deformed_segment_point, Wing.is_deformed, Aircraft.has_deformed_wings, mirror_point, order_mirrored_vertex_points",
             "aeroframe load_json_def_fields, get_deformed_point"]
BOUNDS = ("two wings, one segment with arbitrary corners, strips and parts at arbitrary relative positions, every symmetry, fields of one point ("
          + ("two for queries one after the other" if THOROUGH else "arbitrary position, displacement and rotation") + ") on either or both sides; files with every combination of names")
OUTSIDE = "interpolation inside aeroframe (its formula on an unshared copy of the field is the reference), continuity between segments"


def field(h, name, rows):
    return h.array(name, (rows, 9), -1, 1)


class Moves:
    """Abstract deformation: one arbitrary place for every point and field."""

    def __init__(self, h):
        self.h, self.known = h, {}

    def at(self, p, f):
        key = tuple(term.node(x).id if not isinstance(x, float) else x for x in f.reshape(-1))
        key += tuple(tuple(sorted(term.nf(term.node(x)).items())) for x in p)
        if key not in self.known:
            n = len(self.known)
            self.known[key] = self.h.array(f"moved{n}", (3,))
        return self.known[key].copy()


MOVES = [None]


def abstract():
    from pytornado.objects import aircraft
    return [(aircraft, "get_deformed_point", lambda p, f: MOVES[0].at(p, f))]


def deformed(h, p, f):
    """Position of a point according to the field (which is left alone)."""
    import numpy as np
    from aeroframe.interpol.translate import get_deformed_point
    if h.symbolic and MOVES[0]:
        return list(MOVES[0].at(p, f))
    return list(get_deformed_point(np.array(list(p), dtype=object if h.symbolic else float), f.copy()))


def corners(h, sides, syms, rows=1):
    parts = True
    MOVES[0] = Moves(h)
    ac = M.aircraft()
    sym = h.choose("symmetry", syms)
    w = M.wing(ac, symmetry=sym)
    s = M.segment(h, w)
    other = M.wing(ac, "other", symmetry=2)
    o = M.segment(h, other, "o", vertices=M.plain(h, M.UNIT))
    strip = M.strips(s)[0]
    if parts:
        x = [h.real(f"xsi{i}", 0.01, 0.99) for i in range(2)]
        c = M.control(h, w, xsi=x)
        strip._add_subarea(c, *x, *x)
    e = [h.real(f"eta{i}", 0, 1) for i in range(2)]
    strip.rel_vertices.update(eta_a=e[0], eta_b=e[1], eta_c=e[1], eta_d=e[0])
    side = h.choose("side", sides if sym else ["original"])
    f = {}
    if side in ("original", "both"):
        f[False] = field(h, "field", rows)
        w.def_field = f[False].copy()
    if side in ("mirror", "both"):
        f[True] = field(h, "fieldm", 1)
        w.def_field_mirror = f[True].copy()
    h.holds("deformed", bool(w.is_deformed) and ac.has_deformed_wings and not other.is_deformed)
    plane = {}
    for mirror in ([False, True] if sym else [False]):
        und = dict(a=M.point(s.vertices, e[0], 0), b=M.point(s.vertices, e[1], 0),
                   c=M.point(s.vertices, e[1], 1), d=M.point(s.vertices, e[0], 1))
        if mirror:
            und = {n: M.reflect(und[q], sym) for n, q in zip("abcd", c10.ORDER[sym])}
        want = {k: deformed(h, p, f[mirror]) if mirror in f else p for k, p in und.items()}
        for again in range(2):
            got = strip.abs_vertices(mirror)
            h.eq(f"strip.{'mirror' if mirror else 'original'}{again}", {k: list(v) for k, v in got.items()}, want)
        if parts:
            p = strip.subarea["flap"].abs_vertices(mirror)
            r = strip.subarea["flap"].rel_vertices
            # the part lies between the deformed corners of its strip
            xi = {k: r["xsi_" + k] for k in "abcd"}
            if mirror:
                xi = {n: xi[q] for n, q in zip("abcd", c10.ORDER[sym])}
                if sym == 3:
                    xi = {k: 1 - v for k, v in xi.items()}
            wp = dict(a=M.lerp(xi["a"], want["a"], want["d"]), b=M.lerp(xi["b"], want["b"], want["c"]),
                      c=M.lerp(xi["c"], want["b"], want["c"]), d=M.lerp(xi["d"], want["a"], want["d"]))
            h.eq(f"part.{'mirror' if mirror else 'original'}", {k: list(v) for k, v in p.items()}, wp)
        plane[mirror] = got
    h.eq("field", [w.def_field is None, w.def_field_mirror is None], [False not in f, True not in f])
    h.eq("other", [list(v) for v in M.strips(o)[0].abs_vertices(False).values()], M.UNIT)


def history(h, rows):
    """The position does not depend on what was asked before (with the real interpolation)."""
    MOVES[0] = None
    ac = M.aircraft()
    w = M.wing(ac)
    s = M.segment(h, w, vertices=M.plain(h, M.UNIT))
    f = field(h, "field", rows)
    for r in range(rows):
        for i in (6, 7, 8):
            h.assume(f[r, i] > h.frac(1, 10))
        h.assume(f[r, 2] > h.frac(1, 10))
    w.def_field = f.copy()
    q = [(h.real(f"eta{i}", 0, 1), h.real(f"xsi{i}", 0, 1)) for i in range(2)]
    get = lambda k: list(s.get_deformed_segment_point(q[k][0], q[k][1]))
    first = get(0)
    h.eq("first", first, deformed(h, M.point(s.vertices, *q[0]), f))
    h.eq("second", get(1), deformed(h, M.point(s.vertices, *q[1]), f))
    h.eq("again", get(0), first)


def zero(h):
    """A field without displacements reproduces the undeformed geometry."""
    ac = M.aircraft()
    sym = h.choose("symmetry", [0, 1, 2, 3])
    w = M.wing(ac, symmetry=sym)
    s = M.segment(h, w)
    strip = M.strips(s)[0]
    e = [h.real(f"eta{i}", 0, 1) for i in range(2)]
    strip.rel_vertices.update(eta_a=e[0], eta_b=e[1], eta_c=e[1], eta_d=e[0])
    sides = [False, True] if sym else [False]
    before = {m: {k: list(v) for k, v in strip.abs_vertices(m).items()} for m in sides}
    z = h.const_array([[0.0] * 9])
    for i in range(3):
        z[0, i] = h.real(f"at{i}")
    w.def_field = z
    w.def_field_mirror = z.copy()
    for m in sides:
        h.eq(f"zero{m}", {k: list(v) for k, v in strip.abs_vertices(m).items()}, before[m])


NAMES = ["main", "my_main", "m", "tail_m_fin"]


def files(h):
    """Fields from a file arrive on the named wing and side."""
    from types import SimpleNamespace as NS
    from pytornado.fileio.native import deformation
    ac = M.aircraft()
    names = [h.choose("first", NAMES), "other"]
    wings = {n: M.wing(ac, n, symmetry=h.choose("symmetry", [0, 2]) if n != "other" else 2) for n in names}
    old = {}
    keys = []
    for n in names:
        for key in (n, n + "_m", "_" + n, "_" + n + "_m"):
            if h.flag(key + " in file") if n != "other" else key in ("other", "_other"):
                keys.append(key)
    if h.flag("reversed"):
        keys.reverse()
    f = {k: field(h, k, 1 + (k == names[0])) for k in keys}
    d = tempfile.mkdtemp(prefix="pv_c17_")
    try:
        path = os.path.join(d, "field.json")
        sjson.write(h, path, {k: f[k] for k in keys})
        deformation.load(ac, NS(paths=lambda uid, *a: path))
        h.holds("file", os.path.exists(path))
    finally:
        shutil.rmtree(d)
    h.holds("wings", list(ac.wings) == names)
    for n in names:
        for side, key, got in (("original", n, wings[n].def_field), ("mirror", n + "_m", wings[n].def_field_mirror)):
            if key in f:
                h.holds(f"{n}.{side}.present", got is not None)
                if got is not None:
                    h.eq(f"{n}.{side}", got, f[key])
            else:
                h.holds(f"{n}.{side}.absent", got is None)


def empty(h):
    """A missing file is an error, an empty one changes nothing."""
    from types import SimpleNamespace as NS
    from pytornado.fileio.native import deformation
    ac = M.aircraft()
    w = M.wing(ac, symmetry=2)
    d = tempfile.mkdtemp(prefix="pv_c17_")
    try:
        path = os.path.join(d, "field.json")
        text = h.choose("content", [None, "", "{}", "{ }\n"])
        if text is not None:
            with open(path, "w") as fp:
                fp.write(text)
        ex = h.raised(deformation.load, ac, NS(paths=lambda uid, *a: path))
    finally:
        shutil.rmtree(d)
    h.holds("error", isinstance(ex, IOError) if text is None else ex is None, info=repr(ex))
    h.holds("nothing", w.def_field is None and w.def_field_mirror is None)


def stubs():
    import aeroframe.fileio.serialise as m
    return [(m, "json", sjson.Json)]


HARNESSES = [
    H("corners", lambda h: corners(h, ["original", "mirror", "both"], [0, 1, 2, 3]), stubs=abstract, linear=True, validate=1),
    H("history", lambda h: history(h, 1), linear=True, validate=1),
    H("nearest", lambda h: history(h, 2), linear=True, validate=1, only="thorough"),
    H("zero", zero, linear=True, validate=1), H("files", files, stubs=stubs, validate=1), H("empty", empty, stubs=stubs, validate=1),
]
