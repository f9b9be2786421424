import random
from types import SimpleNamespace as NS

from ..check import H, THOROUGH
from .. import kernel as K, model as M, term

FUNCTIONS = ["aero/vlm.py: pre_panelling, gen_lattice, calc_downwash, calc_boundary, calc_results", "objects/aircraft.py: abs_vertices, abs_hinge_axis, "
             "abs_camber_line_rot_axis, mirror_vertices", "aero/c_vlm.cpp and the kernels (LLVM IR)"]
BOUNDS = ("wings with one segment of arbitrary corners mirrored in the xy- or xz-plane, or described on either side, up to " + ("3 x 2" if THOROUGH else "2 x 2") + " panels; flap with arbitrary "
          "deflections and an arbitrary camber on a given skew segment; kernels on 2 panels with arbitrary geometry; whole analyses of a given symmetric wing (one panel a side) "
          "with arbitrary states")
OUTSIDE = "camber on wings described from tip to root; deformed wings; the linear solver (a permuted system has the permuted solution, C09)"


class Camber(M.Profile):
    """The same arbitrary camber-line angle for every question."""

    def _ask(self, eta, xsi):
        a = self.h.real(self.name, -30, 30)
        self.h.assume(a != 0)
        self.h.assume(a * K.pi(self.h) != 0)
        return a


class Flat(M.Profile):
    def _ask(self, eta, xsi):
        return 0.0


def refl(p, plane):
    return M.reflect(list(p), plane)


def axial(p, plane):
    """Mirror image of rates and moments."""
    return [-x for x in refl(p, plane)]


def mirror_state(st, plane):
    """The mirrored flight state."""
    aero = dict(st.aero)
    k = "beta" if plane == 2 else "alpha"
    aero[k] = -aero[k]
    for q, x in zip("PQR", axial([aero["rate_" + q] for q in "PQR"], plane)):
        aero["rate_" + q] = x
    refs = dict(st.refs)
    for q in ("gcenter", "rcenter"):
        old = refs[q]
        refs[q] = old.copy()
        for i, x in enumerate(refl(old, plane)):
            refs[q][i] = x
    return NS(aero=aero, refs=refs)


def alike(h, a, b):
    """The same number at one random point (only to find out which panels to compare)."""
    if h.symbolic:
        env = {}
        for x in term.walk([term.node(a), term.node(b)]):
            if x.op == "v":
                lo, hi = (h.vars.get(x.args[0]) or (0, 1))[:2]
                env[x.args[0]] = random.Random(x.args[0]).uniform(float(lo), float(hi))
        a, b = term.evalf(term.node(a), env), term.evalf(term.node(b), env)
    return abs(a - b) <= 1e-7 * (1 + abs(a))


def match(h, label, l1, l2, image):
    """The panels of the second lattice are the images of those of the first, in some order."""
    n = l1.info["num_panels"]
    h.eq(label + ".number", l2.info["num_panels"], n)
    left = list(range(n))
    perm = []
    for j in range(n):
        k = next((i for i in left if all(alike(h, x, y) for x, y in zip(l2.c[j], image(l1.c[i])))), None)
        if k is None:
            h.holds(f"{label}.panel {j} has a counterpart", False)
            return None
        left.remove(k)
        perm.append(k)
    return perm


SWAP = [1, 0, 3, 2]


def images(h, label, l1, l2, plane):
    perm = match(h, label, l1, l2, lambda p: refl(p, plane))
    if perm is None:
        return None
    for j, i in enumerate(perm):
        for k in range(4):
            h.eq(f"{label}.corner", list(l2.p[j, k]), refl(l1.p[i, SWAP[k]], plane))
        h.eq(f"{label}.bound", [list(l2.v[j, k]) for k in (1, 2)], [refl(l1.v[i, k], plane) for k in (2, 1)])
        h.eq(f"{label}.wake", [list(l2.v[j, k]) for k in (0, 3)], [refl(l1.v[i, k], plane) for k in (3, 0)])
        h.eq(f"{label}.control point", list(l2.c[j]), refl(l1.c[i], plane))
        h.eq(f"{label}.midpoint", list(l2.bound_leg_midpoints[j]), refl(l1.bound_leg_midpoints[i], plane))
        h.eq(f"{label}.normal", list(l2.n[j]), refl(l1.n[i], plane))
        h.eq(f"{label}.area", l2.a[j], l1.a[i])
    return perm


def plane_state(h):
    st = K.state(h, speed=(1, 10))
    for k in ("airspeed", "density", "area", "span", "chord"):
        h.assume((st.aero if k in st.aero else st.refs)[k] > 0)
    return st


def lattice(h, ac, st, rotate=True):
    from pytornado.aero import vlm
    return vlm.gen_lattice(ac, st, M.settings(rotate))


SHAPES = [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2)] if THOROUGH else [])


def halves(h):
    """A wing with its mirror image: the lattice in the mirrored flow is the mirrored lattice."""
    plane = 2
    c, s = h.choose("panels", SHAPES)
    v = M.corners(h, "s")

    def make(st):
        ac = M.aircraft()
        w = M.wing(ac, symmetry=plane)
        M.segment(h, w, vertices={k: p.copy() for k, p in v.items()}, num_c=c, num_s=s, profile=Flat(h))
        return lattice(h, ac, st)
    st = plane_state(h)
    images(h, "halves", make(st), make(mirror_state(st, plane)), plane)


def handed(h):
    """A wing on one side and the same one described on the other side."""
    plane = 2
    c, s = h.choose("panels", SHAPES)
    v = M.corners(h, "s")
    m = {k: h.const_array([0, 0, 0]) for k in "abcd"}
    for k, q in zip("abcd", "badc"):
        for i, x in enumerate(refl(v[q], plane)):
            m[k][i] = x
    st = plane_state(h)
    lats = []
    for x, state in ((v, st), (m, mirror_state(st, plane))):
        ac = M.aircraft()
        M.segment(h, M.wing(ac), vertices=x, num_c=c, num_s=s, profile=Flat(h))
        lats.append(lattice(h, ac, state))
    images(h, "handed", *lats, plane)


SKEW = [[[0, 0.5, 0.25], [1, 4, 1], [2.5, 4, 0.5], [2, 0.5, 0]], [[1, 0, 0.5], [0, 3, 1.5], [2, 3.5, 0.25], [3, 0, 0.5]]]


def deflected(h):
    """Deflections of the two sides exchanged: normals exchange sides."""
    plane = 2
    shape = h.choose("shape", SKEW)
    what = h.choose("what", ["flap", "slat", "camber"])
    d, dm = [h.real(k, -60, 60) for k in ("deflection", "mirror")]
    for x in (d, dm):
        h.assume(x != 0)
        h.assume(x * K.pi(h) != 0)
    st = K.state(h)
    st.aero.update(alpha=0.0, beta=0.0)
    lats = []
    for x, y in ((d, dm), (dm, d)):
        ac = M.aircraft()
        w = M.wing(ac, symmetry=plane)
        M.segment(h, w, vertices=M.plain(h, shape), num_c=2, profile=Camber(h, "camber") if what == "camber" else Flat(h))
        if what != "camber":
            M.control(h, w, "c", what, deflection=x, mirror=y, eta=(0, 1), xsi=(0.625, 0.75) if what == "flap" else (0.25, 0.125), hinge=(0.5, 0.25))
        lats.append(lattice(h, ac, st))
    images(h, what, *lats, plane)


def mirrored_lattice(h, lat, plane):
    from pytornado.objects.vlm_struct import VLMLattice
    out = VLMLattice()
    out.info.update(lat.info)
    out.epsilon = lat.epsilon
    n = lat.info["num_panels"]
    for k in ("p", "v", "c", "n", "a", "bound_leg_midpoints"):
        setattr(out, k, getattr(lat, k).copy())
    for i in range(n):
        for k in ("c", "n", "bound_leg_midpoints"):
            for q, x in enumerate(refl(getattr(lat, k)[i], plane)):
                getattr(out, k)[i, q] = x
        for j in range(4):
            for q in range(3):
                out.v[i, j, q] = refl(lat.v[i, 3 - j], plane)[q]
                out.p[i, j, q] = refl(lat.p[i, SWAP[j]], plane)[q]
    return out


def loads_mirrored(h, label, d1, d2, plane):
    f1, f2 = d1.forces, d2.forces
    for which in ("forces", "coeffs"):
        a, b = getattr(d1, which), getattr(d2, which)
        h.eq(f"{label}.{which}", [b[k] for k in "xyz"], refl([a[k] for k in "xyz"], plane))
        h.eq(f"{label}.moments {which}", [b[k] for k in "lmn"], axial([a[k] for k in "lmn"], plane))
        wind = ("D", "C", "L")
        sign = {2: (1, -1, 1), 1: (1, 1, -1)}[plane]
        h.eq(f"{label}.wind axes {which}", [b[k] for k in wind], [s * a[k] for s, k in zip(sign, wind)])


def kernels(h):
    """Matrix, right-hand side and loads of any lattice and of its mirror image."""
    vlm, _, VLMData = K.mods()
    plane = h.choose("plane", [1, 2])
    n = h.choose("panels", [1, 2])
    what = h.choose("what", ["matrix", "rhs", "results"])
    lat, st = K.lattice(h, n), plane_state(h)
    lat2, st2 = mirrored_lattice(h, lat, plane), mirror_state(st, plane)
    out = []
    g = h.array("gamma", (n,))
    for l, s in ((lat, st), (lat2, st2)):
        d = VLMData()
        if what == "matrix":
            vlm.calc_downwash(l, d)
        elif what == "rhs":
            vlm.calc_boundary(l, s, d)
        else:
            K.results(h, l, s, d, g)
        out.append(d)
    a, b = out
    if what == "matrix":
        h.eq("matrix", b.matrix_downwash, a.matrix_downwash)
    elif what == "rhs":
        h.eq("rhs", b.array_rhs, a.array_rhs)
    else:
        for i in range(n):
            for q in ("v", "f"):
                h.eq(f"panel {q}", [b.panelwise[q + k][i] for k in "xyz"], refl([a.panelwise[q + k][i] for k in "xyz"], plane))
            for q in ("vmag", "fmag", "cp"):
                h.eq(q, b.panelwise[q][i], a.panelwise[q][i])
        loads_mirrored(h, "loads", a, b, plane)


def whole(h):
    """A symmetric aircraft: any state and its mirror image, and symmetric flow."""
    vlm, _, VLMData = K.mods()
    case = h.choose("case", ["mirrored states", "symmetric flow"])
    chord, flap = h.choose("panels", [(1, False), (2, False), (1, True)] if THOROUGH else [(1, False), (1, True)])
    st = plane_state(h)
    if case == "symmetric flow":
        st.aero.update(beta=0.0, rate_P=0.0, rate_R=0.0)
        for k in ("gcenter", "rcenter"):
            st.refs[k][1] = 0.0
    d, dm = [h.real(k, -40, 40) for k in ("deflection", "mirror")] if flap else (0, 0)
    if flap:
        for x in (d, dm):
            h.assume(x != 0)
            h.assume(x * K.pi(h) != 0)
        if case == "symmetric flow":
            dm = d

    def make(state, x, y):
        ac = M.aircraft()
        w = M.wing(ac, symmetry=2)
        M.segment(h, w, vertices=M.plain(h, SKEW[0]), num_c=chord, profile=Flat(h))
        if flap:
            M.control(h, w, "c", "flap", deflection=x, mirror=y, eta=(0, 1), xsi=(0.5, 0.75), hinge=(0.5, 0.75))
        lat = lattice(h, ac, state)
        data = VLMData()
        vlm.calc_downwash(lat, data)
        vlm.calc_boundary(lat, state, data)
        return lat, data
    st2 = mirror_state(st, 2)
    l1, d1 = make(st, d, dm)
    l2, d2 = make(st2, dm, d)
    perm = match(h, "panels", l1, l2, lambda p: refl(p, 2))
    if perm is None:
        return
    n = len(perm)
    for j in range(n):
        h.eq("rhs", d2.array_rhs[j], d1.array_rhs[perm[j]])
        for i in range(n):
            h.eq("matrix", d2.matrix_downwash[j, i], d1.matrix_downwash[perm[j], perm[i]])
    # so the solution is the permuted one
    g = h.array("gamma", (n,))
    if case == "symmetric flow":
        h.eq("flow", [st2.aero[k] for k in st.aero], [st.aero[k] for k in st.aero])
        for j in range(n):      # the same system: equal circulations on both sides
            g[j] = g[min(j, perm[j])]
    g2 = g.copy()
    for j in range(n):
        g2[j] = g[perm[j]]
    K.results(h, l1, st, d1, g)
    K.results(h, l2, st2, d2, g2)
    loads_mirrored(h, "loads", d1, d2, 2)
    if case == "symmetric flow":
        h.eq("side force", [d1.forces[k] for k in ("y", "C", "l", "n")], [0, 0, 0, 0])


HARNESSES = [H("whole", whole, linear=True, validate=1),
             H("halves", halves, linear=True, validate=1), H("handed", handed, linear=True, validate=1), H("deflected", deflected, linear=True, validate=1),
             H("kernels", kernels, linear=True, validate=1)]
