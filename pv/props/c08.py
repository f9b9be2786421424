import numpy as np

from ..check import H, THOROUGH
from .. import kernel as K, model as M, term
from ..term import Sym

FUNCTIONS = ["aero/vlm.py: gen_lattice (array allocation), calc_downwash, calc_boundary, calc_results",
             "aero/c_vlm.cpp: py2c_lattice, py2c_downwash, py2c_boundary, py2c_results, get_*/set_* of all structures and everything they call (LLVM IR, every memory "
             "access, branch and arithmetic operation is checked)"]
BOUNDS = ("lattices of up to " + ("3 segments with 1..4 panels along chord and span" if THOROUGH else "2 segments with 1..3 panels along chord and span")
          + ", with and without mirror images and flaps, two lattices one after another; matrices, right-hand sides and results of up to " + ("6" if THOROUGH else "4")
          + " panels with arbitrary contents, also for repeated calls")
OUTSIDE = "larger numbers (index overflow); memory that is never given back; arrays of other types or shapes than those the Python side allocates"
TECHNIQUE = ("symbolic execution of the compiled code's LLVM IR with checked memory (bounds, initialisation, ownership); counterexamples are replayed with the address and "
             "undefined behaviour sanitizers and in builds which initialise variables differently")
OUT = {"py2c_lattice": ["0.p", "0.v", "0.c", "0.bound_leg_midpoints", "0.n", "0.a"], "py2c_downwash": ["1"], "py2c_boundary": ["2"],
       "py2c_results": ["2.panelwise." + k for k in ("vx", "vy", "vz", "vmag", "fx", "fy", "fz", "fmag", "cp")]}
RESULT = {"py2c_lattice": [f"0.info.{a}_{b}" for a in ("area", "aspect") for b in ("min", "max", "avg")],
          "py2c_results": ["2.forces." + k for k in "xyzDCLlmn"] + ["2.coeffs." + k for k in "xyzDCLlmn"]}


class BadAccess(Exception):
    pass


class Native:
    """Passes calls on to the native code and checks what each one reads and writes."""

    def __init__(self, h, inner):
        self.h, self.inner, self.count = h, inner, 0

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*args):
            h, tag = self.h, f"{name}.{self.count}"
            self.count += 1
            outs = OUT[name]
            if not h.symbolic:
                from .. import memreplay
                bad = memreplay.run(name, args, outs)
                if bad:
                    raise BadAccess(bad)
            before = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in seen(args).items()}
            for k in RESULT.get(name, ()):
                put(args, k, -777.25)
            r = getattr(self.inner, name)(*args)
            after = seen(args)
            skip = set(outs) | set(RESULT.get(name, ()))
            h.eq(tag + " arguments", sorted(set(after) - skip), sorted(set(before) - skip))
            for k in before:
                if k in skip:
                    continue
                h.holds(f"{tag} {k} kept", after[k] is before[k] or same(h, after[k], before[k]))
            for k in RESULT.get(name, ()):
                h.holds(f"{tag} {k} set", not same(h, np.array([after[k]], dtype=object), np.array([-777.25], dtype=object)))
            if h.symbolic:
                _, m, api = h.native.log[-1]
                written = {}
                for o in api.objs.values():
                    p = o.cells.get(16)
                    if p is not None and isinstance(o.py, np.ndarray):
                        written[id(o.py)] = p[1].o.writes
                for k in outs:
                    a = after[k]
                    w = written.get(id(a), set())
                    h.holds(f"{tag} {k} complete", len(w) == a.size, info=f"{a.size - len(w)} entries not set")
            return r
        return call


def seen(args):
    out = {}

    def go(x, name):
        if isinstance(x, np.ndarray):
            out[name] = x
        elif isinstance(x, dict):
            for k, v in x.items():
                go(v, f"{name}.{k}")
        elif hasattr(x, "__dict__") and not type(x).__name__.startswith("Sym"):
            for k, v in vars(x).items():
                if isinstance(v, (np.ndarray, dict)) or k == "epsilon":
                    go(v, f"{name}.{k}")
        else:
            out[name] = x
    for i, x in enumerate(args):
        go(x, str(i))
    return out


def put(args, path, v):
    i, *rest = path.split(".")
    x = args[int(i)]
    for k in rest[:-1]:
        x = x[k] if isinstance(x, dict) else getattr(x, k)
    x[rest[-1]] = v


def same(h, a, b):
    if not isinstance(a, np.ndarray):
        return alike(a, b)
    if a.shape != b.shape:
        return False
    return all(alike(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1)))


def alike(x, y):
    if isinstance(x, Sym) or isinstance(y, Sym):
        return isinstance(x, Sym) and isinstance(y, Sym) and term.node(x) is term.node(y)
    return x is y or x == y or (x != x and y != y)


class Wrapped:
    def __init__(self, h):
        self.h = h

    def __enter__(self):
        from pytornado.aero import vlm
        self.old = vlm.c_vlm
        vlm.c_vlm = Native(self.h, self.old)

    def __exit__(self, *a):
        from pytornado.aero import vlm
        vlm.c_vlm = self.old


TOP = 4 if THOROUGH else 3


def count(h, name):
    n = h.integer(name, 1, TOP)
    for k in range(1, TOP):
        if n == k:
            return k
    return TOP


def mesh(h):
    """Meshes as the Python side prepares them."""
    from pytornado.aero import vlm
    ac = M.aircraft()
    w = M.wing(ac, "w", h.choose("symmetry", [0, 2]))
    num = [(count(h, f"c{i}"), count(h, f"s{i}")) for i in range(1 + h.choose("more", range(3 if THOROUGH else 2)))]
    if len(num) > 1:
        h.assume(num[1][0] + num[1][1] <= 4)
    for i, (c, s) in enumerate(num):
        v = M.plain(h, [[x, y + i, z] for x, y, z in M.UNIT])
        M.segment(h, w, f"s{i}", vertices=v, num_c=c, num_s=s)
    if h.choose("flap", [False, True]):
        M.control(h, w, "f", "flap", seg=("s0", "s0"), eta=(0, 1), num_c=num[-1][0])
    st = K.state(h, rates=False)
    with Wrapped(h):
        vlm.gen_lattice(ac, st, M.settings(rotate=False))


def again(h):
    """A second mesh after a first one of another size."""
    from pytornado.aero import vlm
    st = K.state(h, rates=False)
    for i in range(2):
        ac = M.aircraft()
        w = M.wing(ac, "w", 0)
        M.segment(h, w, "s", vertices=M.corners(h, f"v{i}"), num_c=h.choose(f"c{i}", [1, 2]), num_s=h.choose(f"s{i}", [1, 2]))
        with Wrapped(h):
            vlm.gen_lattice(ac, st, M.settings(rotate=False))


def patches(h):
    """The native mesher itself, with several patches of any numbers of panels in both directions."""
    vlm, VLMLattice, _ = K.mods()
    num = [(count(h, f"s{i}"), count(h, f"c{i}")) for i in range(2)]
    lat, pts, st = K.patch_lattice(h, num)
    n = lat.info["num_panels"]
    with Wrapped(h):
        vlm.c_vlm.py2c_lattice(lat, st, pts, np.zeros((n,), dtype=int), np.array(num, dtype=int))


def flow(h):
    """Matrix, right-hand side and results."""
    vlm, _, VLMData = K.mods()
    n = h.integer("panels", 1, 6 if THOROUGH else 4)
    n = next(k for k in range(1, 7) if k == 6 or bool(n == k))
    steps = h.choose("steps", [("downwash",), ("boundary",), ("results",), ("boundary", "results", "results")])
    lat = K.lattice(h, n)
    st = K.state(h, speed=(0, 90))
    data = VLMData()
    data.panelwise["gamma"] = h.array("gamma", (n,))
    with Wrapped(h):
        for s in steps:
            if s == "downwash":
                vlm.calc_downwash(lat, data)
            elif s == "boundary":
                vlm.calc_boundary(lat, st, data)
            else:
                vlm.calc_results(lat, st, data)


HARNESSES = [H("mesh", mesh, validate=0, max_paths=2000), H("again", again, validate=0), H("patches", patches, validate=0), H("flow", flow)]
