from types import SimpleNamespace as NS

from ..check import H, THOROUGH
from .. import kernel as K, model as M
from . import c30

FUNCTIONS = ["aero/vlm.py: pre_panelling, gen_lattice, calc_downwash, calc_boundary, calc_results", "objects/aircraft.py: everything the mesh is made from",
             "aero/c_vlm.cpp and the kernels (LLVM IR)"]
BOUNDS = ("kernels on " + ("3" if THOROUGH else "2") + " panels with arbitrary geometry, state, displacement and factors; meshes of two wings with arbitrary corners (one symmetric, with a deflected flap on a given "
          "segment and camber) moved by an arbitrary vector or described in another order; an arbitrary segment divided into two or three segments at its panel borders; whole analyses of two panels")
OUTSIDE = "deformed wings (their fields would have to be moved as well); the linear solver (a permuted or scaled system has the permuted or scaled solution, C09); rounding"

ARRAYS = ("p", "v", "c", "n", "a", "bound_leg_midpoints")


def compare(h, label, l1, l2, move=None):
    """The same panels in any order, moved by a vector."""
    t = move or [0, 0, 0]
    perm = c30.match(h, label, l1, l2, lambda p: [x + d for x, d in zip(p, t)])
    if perm is None:
        return None
    for j, i in enumerate(perm):
        for k in ARRAYS:
            a, b = getattr(l1, k)[i], getattr(l2, k)[j]
            if k in ("n", "a"):
                h.eq(f"{label}.{k}", b, a)
            else:
                pts = [(list(b), list(a))] if a.ndim == 1 else list(zip([list(x) for x in b], [list(x) for x in a]))
                for x, y in pts:
                    h.eq(f"{label}.{k}", x, [q + d for q, d in zip(y, t)])
    return perm


def free(h, tag, t=None):
    v = M.corners(h, tag)
    return v


def moved(h, v, t):
    out = {}
    for k, p in v.items():
        out[k] = p.copy()
        for i in range(3):
            out[k][i] = p[i] + t[i]
    return out


def mesh(h):
    """Two wings: moved, in another order."""
    what = h.choose("what", ["moved", "wings", "segments"])
    sym = h.choose("symmetry", [0, 2, 1]) if what != "moved" else h.choose("symmetry", [0])
    flap = h.choose("flap", [False, True])
    st = c30.plane_state(h)
    d, dm = h.real("deflection", -40, 40), h.real("mirror", -40, 40)
    for x in (d, dm):
        h.assume(x != 0)
        h.assume(x * K.pi(h) != 0)
    t = h.reals("t", 3) if what == "moved" else [0, 0, 0]
    v1 = M.plain(h, c30.SKEW[0]) if flap else M.corners(h, "s")
    v2, v3 = M.corners(h, "u"), M.plain(h, [[1, 4, 1], [2, 6, 1.5], [3, 6.25, 1], [2.5, 4, 0.5]])
    if flap and what == "moved":
        st.aero.update(alpha=0.0, beta=0.0)
    lats = []
    for k in range(2):
        ac = M.aircraft()
        order = ["w", "w2"] if k == 0 or what != "wings" else ["w2", "w"]
        for uid in order:
            if uid == "w":
                w = M.wing(ac, "w", sym)
                segs = [("s", v1, 2, 1 if flap else 2), ("s2", v3, 1, 2)]
                if k == 1 and what == "segments":
                    segs.reverse()
                for name, v, c, n in segs:
                    M.segment(h, w, name, vertices=moved(h, v, t) if k else moved(h, v, [0, 0, 0]), num_c=c, num_s=n, profile=c30.Flat(h))
                if flap:
                    M.control(h, w, "c", "flap", seg=("s", "s"), deflection=d, mirror=dm if sym else None, eta=(0, 1), xsi=(0.625, 0.75), hinge=(0.5, 0.75))
            else:
                w2 = M.wing(ac, "w2")
                M.segment(h, w2, "s", vertices=moved(h, v2, t) if k else moved(h, v2, [0, 0, 0]), num_c=1, num_s=3, profile=c30.Flat(h))
        lats.append(c30.lattice(h, ac, st))
    compare(h, what, *lats, t)


def divided(h):
    """One segment with several panels, or several segments with one each."""
    n = h.choose("parts", [2, 3])
    c = h.choose("chordwise", [1, 2])
    sym = h.choose("symmetry", [0, 2])
    v = M.corners(h, "s")
    st = c30.plane_state(h)
    lats = []
    for k in range(2):
        ac = M.aircraft()
        w = M.wing(ac, symmetry=sym)
        if k == 0:
            M.segment(h, w, "s", vertices=moved(h, v, [0, 0, 0]), num_c=c, num_s=n, profile=c30.Flat(h))
        else:
            for i in range(n):
                e = [h.frac(i, n), h.frac(i + 1, n)]
                q = {x: h.const_array([0, 0, 0]) for x in "abcd"}
                for x, p in (("a", M.lerp(e[0], v["a"], v["b"])), ("b", M.lerp(e[1], v["a"], v["b"])), ("c", M.lerp(e[1], v["d"], v["c"])), ("d", M.lerp(e[0], v["d"], v["c"]))):
                    for j in range(3):
                        q[x][j] = p[j]
                M.segment(h, w, f"s{i}", vertices=q, num_c=c, num_s=1, profile=c30.Flat(h))
        lats.append(c30.lattice(h, ac, st))
    compare(h, "divided", *lats)


def clone(lat):
    from pytornado.objects.vlm_struct import VLMLattice
    out = VLMLattice()
    out.info.update(lat.info)
    out.epsilon = lat.epsilon
    for k in ARRAYS:
        setattr(out, k, getattr(lat, k).copy())
    return out


def copy_state(st):
    return NS(aero=dict(st.aero), refs={k: (v.copy() if hasattr(v, "copy") else v) for k, v in st.refs.items()})


def kernels(h):
    vlm, _, VLMData = K.mods()
    n = h.choose("panels", [1, 2] + ([3] if THOROUGH else []))
    change = h.choose("change", ["moved", "speed", "density"] + (["order"] if n > 1 else []))
    what = h.choose("what", ["matrix", "rhs"] + (["results"] if n == 1 or change in ("order", "moved")[:2 if THOROUGH else 1] else []))
    lat, st = K.lattice(h, n), c30.plane_state(h)
    lat2, st2 = clone(lat), copy_state(st)
    g = h.array("gamma", (n,))
    g2 = g.copy()
    perm, k, r = list(range(n)), 1, 1
    if change == "moved":
        t = h.reals("t", 3)
        for q in ("p", "v", "c", "bound_leg_midpoints"):
            a = getattr(lat2, q).reshape(-1, 3)
            for i in range(len(a)):
                for j in range(3):
                    a[i, j] = a[i, j] + t[j]
        for q in ("gcenter", "rcenter"):
            for j in range(3):
                st2.refs[q][j] = st2.refs[q][j] + t[j]
    elif change == "speed":
        k = h.real("factor", 0.1, 10)
        h.assume(k > 0)
        for q in ("airspeed", "rate_P", "rate_Q", "rate_R"):
            st2.aero[q] = st2.aero[q] * k
        for i in range(n):
            g2[i] = g[i] * k
    elif change == "density":
        r = h.real("factor", 0.1, 10)
        h.assume(r > 0)
        st2.aero["density"] = st2.aero["density"] * r
    else:
        perm = perm[::-1]
        for q in ARRAYS:
            setattr(lat2, q, getattr(lat, q)[perm].copy())
        g2 = g[perm].copy()
    out = []
    for l, s, x in ((lat, st, g), (lat2, st2, g2)):
        d = VLMData()
        if what == "matrix":
            vlm.calc_downwash(l, d)
        elif what == "rhs":
            vlm.calc_boundary(l, s, d)
        else:
            K.results(h, l, s, d, x)
        out.append(d)
    a, b = out
    for i in range(n):
        if what == "matrix":
            h.eq("matrix", list(b.matrix_downwash[i]), [a.matrix_downwash[perm[i], j] for j in perm])
        elif what == "rhs":
            h.eq("rhs", b.array_rhs[i], a.array_rhs[perm[i]] * k)
        else:
            for q, x in (("vmag", k), ("fmag", k * k * r)):      # magnitudes: not negative, equal squares
                h.holds(q + ".sign", b.panelwise[q][i] >= 0)
                if change in ("order", "moved"):
                    h.eq(q, b.panelwise[q][i], a.panelwise[q][perm[i]] * x)
            for q in ("vx", "vy", "vz"):
                h.eq(q, b.panelwise[q][i], a.panelwise[q][perm[i]] * k)
            for q in ("fx", "fy", "fz"):
                h.eq(q, b.panelwise[q][i], a.panelwise[q][perm[i]] * (k * k * r))
            h.eq("cp", b.panelwise["cp"][i], a.panelwise["cp"][perm[i]])
    if what == "results" and (n == 1 or change == "order"):       # sums over the panels: see C07
        for q in "xyzDCLlmn":
            h.eq(f"force {q}", b.forces[q], a.forces[q] * (k * k * r))
            h.eq(f"coefficient {q}", b.coeffs[q], a.coeffs[q])


HARNESSES = [H("mesh", mesh, linear=True, follow=3 if THOROUGH else 1), H("divided", divided, linear=True, validate=1), H("kernels", kernels, linear=True, validate=1)]
