"""Real aircraft objects with symbolic geometry, and reference formulas for them."""
from types import SimpleNamespace as NS


def objs():
    from pytornado.objects import aircraft
    return aircraft


def aircraft():
    return objs().Aircraft()


def wing(ac, uid="w", symmetry=0):
    w = ac.add_wing(uid)
    w.symmetry = symmetry
    return w


def corners(h, name, lo=-10, hi=10):
    return {k: h.array(f"{name}.{k}", (3,), lo, hi) for k in "abcd"}


def trapezoid(h, name):
    """Planar segment with chords parallel to x: any sweep, taper and dihedral."""
    z = h.const_array
    c1, c2 = h.real(name + ".c1", 0.001, 100), h.real(name + ".c2", 0.001, 100)
    s, w, v = h.real(name + ".sweep", -10, 10), h.real(name + ".y", 0.001, 100), h.real(name + ".z", -10, 10)
    a, b, c, d = (z([0.0] * 3) for _ in range(4))
    d[0] = c1
    b[0], b[1], b[2] = s, w, v
    c[0], c[1], c[2] = s + c2, w, v
    return dict(a=a, b=b, c=c, d=d)


def plain(h, corners):
    """Segment with the given corner numbers."""
    return {k: h.const_array(v) for k, v in zip("abcd", corners)}


UNIT = [[0, 0, 0], [0, 1, 0], [1, 1, 0], [1, 0, 0]]


class Profile:
    """Stand-in for the segment profile: every query gets an arbitrary answer and is recorded."""

    def __init__(self, h, name="camber"):
        self.h, self.name, self.log = h, name, []

    def at_eta(self, eta):
        return NS(camber_line_angle=lambda xsi, e=eta: self._ask(e, xsi))

    def _ask(self, eta, xsi):
        a = self.h.real(f"{self.name}.{len(self.log)}", -90, 90)
        self.log.append((eta, xsi, a))
        return a


def segment(h, w, uid="s", vertices=None, num_c=1, num_s=1, span=None, profile=None):
    s = w.add_segment(uid)
    s.vertices = vertices if vertices is not None else corners(h, uid)
    s.panels["num_c"], s.panels["num_s"] = num_c, num_s
    s.geometry["span"] = span if span is not None else 1.0
    s.segment_airfoil = profile if profile is not None else Profile(h, uid + ".camber")
    return s


def control(h, w, uid="c", kind="flap", seg=("s", "s"), eta=(0, 1), xsi=(0.5, 0.5), hinge=None, num_c=1,
            deflection=0.0, mirror=0.0):
    c = w.add_control(uid)
    c.device_type = kind
    c.segment_uid["inner"], c.segment_uid["outer"] = seg
    c.rel_vertices.update(eta_inner=eta[0], eta_outer=eta[1], xsi_inner=xsi[0], xsi_outer=xsi[1])
    hinge = hinge or xsi
    c.rel_hinge_vertices.update(xsi_inner=hinge[0], xsi_outer=hinge[1])
    c.panels["num_c"] = num_c
    c.deflection, c.deflection_mirror = deflection, mirror
    return c


def strips(seg):
    return list(seg.subdivision.values())


def ordered(seg):
    """Strips from root to tip."""
    out = []
    for s in seg.subdivision.values():
        k = len(out)
        while k and s.rel_vertices["eta_a"] < out[k - 1].rel_vertices["eta_a"]:
            k -= 1
        out.insert(k, s)
    return out


def lerp(t, p, q):
    return [p[i] + t * (q[i] - p[i]) for i in range(len(p))]


def point(v, eta, xsi):
    """Point of a segment: along the leading and trailing edge, then along the chord."""
    return lerp(xsi, lerp(eta, v["a"], v["b"]), lerp(eta, v["d"], v["c"]))


def reflect(p, plane):
    k = {1: 2, 2: 1, 3: 0}[plane]
    return [-p[i] if i == k else p[i] for i in range(3)]


def part_region(strip, part):
    """Corners a, b, c, d of a surface part from its relative positions (original side)."""
    v, e, x = strip.parent_segment.vertices, strip.rel_vertices, part.rel_vertices
    le_in, le_out = lerp(e["eta_a"], v["a"], v["b"]), lerp(e["eta_b"], v["a"], v["b"])
    te_in, te_out = lerp(e["eta_d"], v["d"], v["c"]), lerp(e["eta_c"], v["d"], v["c"])
    return dict(a=lerp(x["xsi_a"], le_in, te_in), b=lerp(x["xsi_b"], le_out, te_out),
                c=lerp(x["xsi_c"], le_out, te_out), d=lerp(x["xsi_d"], le_in, te_in))


class Recorder:
    """Stand-in for the extension module in mesh bookkeeping checks: records what it is handed."""

    def __init__(self, h=None, normals=False):
        self.h, self.calls, self.normals = h, [], normals

    def py2c_lattice(self, lattice, state, subareas, symmetry, panels):
        self.calls.append((subareas, symmetry, panels, lattice.info["num_panels"]))
        for k in ("area", "aspect"):
            for q in ("min", "max", "avg"):
                lattice.info[f"{k}_{q}"] = 1.0
        if self.normals:
            lattice.n[:, :] = self.h.array("n", lattice.n.shape)
            self.n0 = lattice.n.copy()


def settings(rotate=True):
    return NS(settings={"_epsilon": 1e-6, "_do_normal_rotations": rotate})
