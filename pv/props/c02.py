from ..check import H, THOROUGH
from .. import kernel as K

FUNCTIONS = ["aero/c_lattice.cpp, aero/c_vlm.cpp: py2c_lattice, get_freestream_direction, deg2rad (LLVM IR)"]
BOUNDS = ("up to 8 patches and 4 x 5 panels on all paths, up to 24 patches and 9 x 12, 1 x 65 and 65 x 1 panels (thorough: 60 patches, 20 x 24) on the path of one inner point of the input space; corner coordinates, angles of attack and sideslip real "
          "and free; output arrays hold arbitrary stale values")
OUTSIDE = "floating point rounding; more patches or panels"


def small(h):
    geometry(h, [[(1, 1)], [(1, 3)], [(2, 2)], [(1, 2), (1, 1)], [(4, 5), (1, 1)], [(1, 1), (1, 2)] * 4] + ([[(3, 4), (1, 5)], [(8, 9)]] if THOROUGH else []))


def large(h):
    geometry(h, [[(1, 1), (1, 2)] * 12, [(9, 12)], [(1, 65)], [(65, 1)], [(2, 3)] * 24] + ([[(20, 24)], [(3, 2)] * 60] if THOROUGH else []))


def geometry(h, choices):
    counts = h.choose("counts", choices)
    lat, patches, st = K.patch_lattice(h, counts)
    K.run_lattice(lat, st, patches, counts)
    w = K.scale(10000, K.freestream(h, st))
    for k in range(lat.info["num_panels"]):
        P, Q, R, S = [list(lat.p[k, m]) for m in range(4)]     # LE inner, LE outer, TE outer, TE inner (see C01)
        q = h.frac
        l14, r14 = K.lin((q(3, 4), P), (q(1, 4), S)), K.lin((q(3, 4), Q), (q(1, 4), R))
        l34, r34 = K.lin((q(1, 4), P), (q(3, 4), S)), K.lin((q(1, 4), Q), (q(3, 4), R))
        h.eq(f"panel{k}.bound leg start", list(lat.v[k, 1]), l14)
        h.eq(f"panel{k}.bound leg end", list(lat.v[k, 2]), r14)
        h.eq(f"panel{k}.trailing leg 1", list(lat.v[k, 0]), K.vadd(l14, w))
        h.eq(f"panel{k}.trailing leg 2", list(lat.v[k, 3]), K.vadd(r14, w))
        h.eq(f"panel{k}.collocation point", list(lat.c[k]), K.lin((q(1, 2), l34), (q(1, 2), r34)))
        h.eq(f"panel{k}.bound leg midpoint", list(lat.bound_leg_midpoints[k]), K.lin((q(1, 2), l14), (q(1, 2), r14)))
    h.observe("v", lat.v)


HARNESSES = [H("large", large, follow=1), H("geometry", small)]
