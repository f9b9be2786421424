from ..check import H, THOROUGH
from .. import kernel as K

FUNCTIONS = ["aero/c_lattice.cpp, aero/c_vlm.cpp: py2c_lattice and everything it calls (LLVM IR)"]
BOUNDS = ("up to 9 patches and 4 x 6, 1 x 17 and 17 x 1 panels (thorough: 12 patches, 12 x 12) on all paths; up to 40 patches and 9 x 40, 1 x 65 and 65 x 1 panels (thorough: 70 patches, 40 x 30) on the path of one inner point of the input space; corner coordinates real and free; "
          "output arrays hold arbitrary stale values")
OUTSIDE = "floating point rounding; more patches or panels"

_ONE = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (3, 2), (1, 5), (2, 3), (1, 17), (17, 1), (4, 6)] + ([(3, 5), (4, 8), (1, 8), (1, 40), (40, 1), (12, 12)] if THOROUGH else [])


def bilinear(q, s, c):
    """Point of the patch with corners q = A, B, C, D at span fraction s and chord fraction c."""
    a, b, cc, d = q
    return K.lin(((1 - s) * (1 - c), a), (s * (1 - c), b), (s * c, cc), ((1 - s) * c, d))


def check_patch(h, p, start, q, ns, nc, tag):
    for j in range(ns):
        for i in range(nc):
            k = start + j * nc + i
            s0, s1 = h.frac(j, ns), h.frac(j + 1, ns)
            c0, c1 = h.frac(i, nc), h.frac(i + 1, nc)
            for m, (s, c) in enumerate(((s0, c0), (s1, c0), (s1, c1), (s0, c1))):
                h.eq(f"{tag}panel{j},{i}.corner{m}", list(p[k, m]), bilinear(q, s, c))


def single(h):
    ns, nc = h.choose("counts", _ONE)
    lat, patches, st = K.patch_lattice(h, [(ns, nc)])
    K.run_lattice(lat, st, patches, [(ns, nc)])
    check_patch(h, lat.p, 0, patches[0], ns, nc, "")
    h.observe("p", lat.p)


def several(h):
    counts = h.choose("counts", [[(1, 2), (1, 1), (1, 3)], [(2, 1), (1, 2)], [(1, 3), (2, 2)], [(1, 1)] * 4, [(1, 1), (2, 3), (1, 2), (3, 1), (1, 1), (2, 2), (1, 4), (1, 1), (2, 1)]] + ([[(1, 1), (1, 2)] * 12] if THOROUGH else []))
    lat, patches, st = K.patch_lattice(h, counts)
    K.run_lattice(lat, st, patches, counts)
    k = 0
    for n, (ns, nc) in enumerate(counts):
        check_patch(h, lat.p, k, patches[n], ns, nc, f"patch{n}.")
        k += ns * nc


def large(h):
    counts = h.choose("counts", [[(1, 65)], [(65, 1)], [(12, 12)], [(9, 40)], [(1, 2), (2, 1)] * 20] + ([[(40, 30)], [(3, 2)] * 70] if THOROUGH else []))
    lat, patches, st = K.patch_lattice(h, counts)
    K.run_lattice(lat, st, patches, counts)
    k = 0
    for n, (ns, nc) in enumerate(counts):
        check_patch(h, lat.p, k, patches[n], ns, nc, f"patch{n}.")
        k += ns * nc


HARNESSES = [H("large", large, follow=1), H("single", single), H("several", several)]
