"""
The native extension: compile /repo's current C++ sources (to a shared object
for replay, to LLVM IR for the encoding) and execute the IR behind a model of
the Python and numpy C API.
"""
import fcntl
import glob
import hashlib
import importlib.util
import os
import re
import subprocess
import sys
import sysconfig

import numpy as np

from . import term
from .llir import ArrObj, CViolation, DOUBLE, Fn, Machine, Module, Obj, Ptr, int_ty, PTR, UNDEF
from .term import EncodingError, Sym

REPO = os.environ.get("PV_REPO", "/repo")
AERO = REPO + "/src/lib/pytornado/aero"
CACHE = os.environ.get("PV_CACHE", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build"))


class BuildError(BaseException):
    pass


def _sources():
    src = sorted(glob.glob(AERO + "/*.cpp"))
    hdr = sorted(glob.glob(AERO + "/*.h") + glob.glob(AERO + "/*.hpp"))
    return src, hdr


def _includes():
    import numpy
    return ["-I" + AERO, "-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]


def build():
    """Returns (path of IR, path of extension); rebuilt when any source changed."""
    src, hdr = _sources()
    h = hashlib.sha256()
    for f in src + hdr:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    key = h.hexdigest()[:20]
    d = f"{CACHE}/{key}"
    ir, so = f"{d}/linked.ll", f"{d}/c_vlm.so"
    os.makedirs(d, exist_ok=True)
    with open(d + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ir) and os.path.exists(so):
            return ir, so
        procs = []
        for f in src:
            b = os.path.basename(f)[:-4]
            procs.append((f, subprocess.Popen(
                ["clang++", "-O0", "-S", "-emit-llvm", "-ffp-contract=off", "-fno-discard-value-names", *_includes(),
                 f, "-o", f"{d}/{b}.ll"], stderr=subprocess.PIPE)))
            procs.append((f, subprocess.Popen(
                ["g++", "-O2", "-fPIC", "-c", "-fwrapv", *_includes(), f, "-o", f"{d}/{b}.o"],
                stderr=subprocess.PIPE)))
        for f, p in procs:
            _, err = p.communicate()
            if p.returncode:
                raise BuildError(f"{f}: " + err.decode()[-2000:])
        bs = [os.path.basename(f)[:-4] for f in src]
        subprocess.run(["g++", "-shared", "-o", so + ".tmp"] + [f"{d}/{b}.o" for b in bs], check=True)
        subprocess.run(["llvm-link", "-S", "-o", ir + ".tmp"] + [f"{d}/{b}.ll" for b in bs], check=True)
        os.replace(so + ".tmp", so)
        os.replace(ir + ".tmp", ir)
    return ir, so


def load_native():
    """Import the extension compiled from the current sources as pytornado.aero.c_vlm."""
    if "pytornado.aero.c_vlm" in sys.modules:
        return sys.modules["pytornado.aero.c_vlm"]
    _, so = build()
    spec = importlib.util.spec_from_file_location("c_vlm", so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules["pytornado.aero.c_vlm"] = m
    import pytornado.aero
    pytornado.aero.c_vlm = m
    return m


_MOD = [None]


def module():
    if _MOD[0] is None:
        ir, _ = build()
        _MOD[0] = Module(open(ir).read())
    return _MOD[0]


# --------------------------------------------------- Python C API model ----

_TPFLAGS = {int: 1 << 24, list: 1 << 25, tuple: 1 << 26, bytes: 1 << 27, str: 1 << 28, dict: 1 << 29}
_TYPES = {"@PyFloat_Type": float, "@PyLong_Type": int, "@PyUnicode_Type": str, "@PyDict_Type": dict,
          "@PyList_Type": list, "@PyTuple_Type": tuple, "@PyBool_Type": bool, "@PyBaseObject_Type": object}
_TYPENUM = {"f": 12, "i": 7, "b": 0}


class PyErrorRaised(Exception):
    pass


class CApi:
    def __init__(self):
        self.objs = {}          # id -> Obj
        self.keep = []
        self.types = {}
        self.err = None
        self.out = []
        self.decrefs = 0

    def overrides(self, name):
        return False

    def type_obj(self, ty):
        if ty not in self.types:
            o = Obj(416, "type " + ty.__name__)
            o.py = ty
            fl = 0
            for b, f in _TPFLAGS.items():
                if issubclass(ty, b):
                    fl |= f
            o.cells[168] = (8, fl)
            o.cells[0] = (8, 1)
            self.types[ty] = o
        return self.types[ty]

    def wrap(self, v):
        """Python object -> pointer to its header."""
        k = id(v)
        if k in self.objs:
            return Ptr(self.objs[k])
        self.keep.append(v)
        o = Obj(96, f"{type(v).__name__} object")
        o.py = v
        o.cells[0] = (8, 10)
        ty = type(v)
        if isinstance(v, Sym):
            ty = float
        elif isinstance(v, term.SymInt):
            ty = int
        o.cells[8] = (8, Ptr(self.type_obj(ty)))
        if isinstance(v, np.ndarray):
            fl = v.dtype.kind in "fO"
            if v.dtype.kind == "f" and v.dtype.itemsize != 8 or v.dtype.kind == "i" and v.dtype.itemsize != 8:
                raise EncodingError("array of type " + str(v.dtype))
            if v.dtype.kind not in "fiO":
                raise EncodingError("array of type " + str(v.dtype))
            name = getattr(v, "pv_name", None) or f"array of shape {v.shape}"
            if v.dtype.kind == "f":
                raise EncodingError("plain float array passed to the native code in a symbolic run: " + name)
            data = ArrObj(v, name, fl)
            o.cells[16] = (8, Ptr(data))
            o.cells[24] = (4, v.ndim)
            dims, strides = Obj(8 * max(v.ndim, 1), "dims"), Obj(8 * max(v.ndim, 1), "strides")
            st = 8
            for i in reversed(range(v.ndim)):
                dims.cells[8 * i] = (8, v.shape[i])
                strides.cells[8 * i] = (8, st)
                st *= v.shape[i]
            o.cells[32] = (8, Ptr(dims))
            o.cells[40] = (8, Ptr(strides))
            o.cells[48] = (8, None)
            d = Obj(96, "descr")
            for off, sz, x in ((0, 8, 10), (24, 1, ord("f" if fl else "i")), (25, 1, ord("d" if fl else "l")),
                               (26, 1, ord("=")), (27, 1, 0), (28, 4, 12 if fl else 7), (32, 4, 8), (36, 4, 8)):
                d.cells[off] = (sz, x)
            o.cells[56] = (8, Ptr(d))
            o.cells[64] = (4, 0x0501)
        self.objs[k] = o
        return Ptr(o)

    def new(self, v):
        """New reference."""
        p = self.wrap(v)
        p.o.write(0, 8, p.o.read(0, 8, int_ty(64)) + 1, int_ty(64))
        return p

    def balance(self):
        """References given back more often than taken."""
        for o in self.objs.values():
            if o.read(0, 8, int_ty(64)) < 10:
                raise CViolation(f"reference to {o.name} is released without being owned")

    def unwrap(self, p):
        if not isinstance(p, Ptr) or p.off or p.o.kind == "array":
            raise CViolation("invalid object pointer passed to the Python API")
        if p.o.name == "@_Py_NoneStruct":
            return None
        return p.o.py

    def external_global(self, m, name):
        if name == "@_Py_NoneStruct":
            o = Obj(32, name)
            o.cells[0] = (8, 0xFFFFFFFF)
            o.cells[8] = (8, Ptr(self.type_obj(type(None))))
            return o
        if name in _TYPES:
            return self.type_obj(_TYPES[name])
        if name.startswith("@PyExc_"):
            o = Obj(8, name)
            e = Obj(16, name)
            e.py = getattr(__import__("builtins"), name[7:])
            o.cells[0] = (8, Ptr(e))
            return o
        if name == "@_ZL11PyArray_API" or name.endswith("PyArray_API"):
            o = Obj(8, name)
            tab = Obj(8 * 400, "numpy API table")
            tab.cells[16] = (8, Ptr(self.type_obj(np.ndarray)))
            o.cells[0] = (8, Ptr(tab))
            return o
        if "_ZSt4c" in name or name in ("@stdout", "@stderr", "@stdin"):
            o = Obj(4096, name)
            o.cells[0] = (8, Ptr(Obj(64, "stream")))
            return o
        if name in ("@__dso_handle",):
            return Obj(8, name)
        return None

    def cstr(self, m, p):
        out = bytearray()
        while True:
            b = m.load(p, int_ty(8))
            if b == 0:
                return out.decode("latin1")
            out.append(b)
            p = Ptr(p.o, p.off + 1)

    def dbl(self, v):
        if isinstance(v, (float, int)) and not isinstance(v, bool) or isinstance(v, np.number):
            n = term.node(v)
            return n
        raise EncodingError("conversion of %r to double" % (v,))

    def call(self, m, name, a):
        f = name.strip('@"')
        fn = getattr(self, "f_" + f, None)
        if fn is not None:
            return fn(m, *a)
        if f.startswith("llvm."):
            return self.intrinsic(m, f, a)
        if f.startswith(("_ZStls", "_ZNSols", "_ZNSo3put", "_ZNSo5flush", "_ZNSo5write", "_ZNSo9_M_insert", "_ZSt16__ostream_insert",
                         "_ZSt4endl", "_ZSt5flush", "_ZStL")):
            try:
                self.out.append(self.cstr(m, a[1]))
            except BaseException:
                self.out.append(f)
            return a[0] if a else None
        if f in ("printf", "puts", "fprintf", "putchar", "fputs", "fflush", "fputc", "fwrite", "__cxa_atexit",
                 "_ZNSt8ios_base4InitC1Ev", "perror"):
            self.out.append(f)
            return 0
        if f.startswith("_ZSt") and "__throw_" in f or f in ("__cxa_throw", "__assert_fail", "abort"):
            raise CViolation("the native code throws or aborts: " + f)
        g = _MATH.get(f) or (_MATH.get(f[:-1]) if f.endswith("l") else None)
        if g is not None:
            return g(*[m.fval(x) for x in a])
        raise EncodingError("call of " + f)

    def intrinsic(self, m, f, a):
        if f.startswith("llvm.memcpy") or f.startswith("llvm.memmove"):
            m.memcpy(a[0], a[1], a[2])
            return None
        if f.startswith("llvm.memset"):
            m.memset(a[0], a[1], a[2])
            return None
        if f.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.stackrestore", "llvm.experimental")):
            return None
        if f.startswith("llvm.stacksave"):
            return Ptr(Obj(1, "stack"))
        if f.startswith("llvm.fmuladd") or f.startswith("llvm.fma"):
            return term.add(term.mul(m.fval(a[0]), m.fval(a[1])), m.fval(a[2]))
        if f.startswith("llvm.umul.with.overflow"):
            n = 64
            r = a[0] * a[1]
            return [r & ((1 << n) - 1), int(r >> n != 0)]
        if f.startswith(("llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin")):
            from .llir import signed
            bits = int(re.search(r"\.i(\d+)$", f).group(1))
            k = (lambda x: signed(x, bits)) if f[5] == "s" else (lambda x: x)
            return (max if "max" in f else min)(a[0], a[1], key=k)
        if f.startswith("llvm.abs"):
            from .llir import signed
            bits = int(re.search(r"\.i(\d+)$", f).group(1))
            return abs(signed(a[0], bits)) & ((1 << bits) - 1)
        mm = re.match(r"llvm\.(\w+)\.f64$", f)
        if mm and mm.group(1) == "powi":
            from .llir import signed
            return term.powi(m.fval(a[0]), signed(a[1], 32))
        if mm and (mm.group(1) in _MATH):
            return _MATH[mm.group(1)](*[m.fval(x) for x in a])
        raise EncodingError("intrinsic " + f)

    # ----- memory -----

    def f_malloc(self, m, n):
        return Ptr(Obj(n, "heap block", kind="heap"))

    f__Znwm = f__Znam = f_PyMem_Malloc = f_PyMem_RawMalloc = f_malloc

    def f_calloc(self, m, n, s):
        p = self.f_malloc(m, n * s)
        m.memset(p, 0, n * s)
        return p

    def f_free(self, m, p):
        if p is None:
            return None
        if not isinstance(p, Ptr) or p.o.kind != "heap" or p.off or not p.o.alive:
            raise CViolation("invalid or double free")
        p.o.alive = False

    def f__ZdlPv(self, m, p, *a):
        return self.f_free(m, p)

    f__ZdaPv = f__ZdlPvm = f__ZdaPvm = f_PyMem_Free = f_PyMem_RawFree = f__ZdlPv

    def f_memcpy(self, m, d, s, n):
        m.memcpy(d, s, n)
        return d

    f_memmove = f_memcpy

    def f_bcmp(self, m, a, b, n):
        for k in range(n):
            x, y = m.load(Ptr(a.o, a.off + k), int_ty(8)), m.load(Ptr(b.o, b.off + k), int_ty(8))
            if x != y:
                return (-1 if x < y else 1) & 0xFFFFFFFF
        return 0

    f_memcmp = f_bcmp

    def f_strlen(self, m, p):
        return len(self.cstr(m, p))

    def f_strcmp(self, m, a, b):
        x, y = self.cstr(m, a), self.cstr(m, b)
        return 0 if x == y else (-1 if x < y else 1) & 0xFFFFFFFF

    def f___cxa_guard_acquire(self, m, g):
        return 1

    def f___cxa_guard_release(self, m, g):
        m.store(g, int_ty(8), 1)

    def f___cxa_begin_catch(self, m, *a):
        raise EncodingError("exception handling")

    def f_memset(self, m, d, b, n):
        m.memset(d, b & 255, n)
        return d

    def f___clang_call_terminate(self, m, *a):
        raise CViolation("terminate called")

    def f__ZSt9terminatev(self, m, *a):
        raise CViolation("terminate called")

    # ----- Python API -----

    def f_PyArg_ParseTuple(self, m, args, fmt, *rest):
        t = self.unwrap(args)
        fmt = self.cstr(m, fmt)
        i, k, r = 0, 0, list(rest)
        opt = False
        while i < len(fmt) and fmt[i] not in ":;":
            c = fmt[i]
            i += 1
            if c == "|":
                opt = True
                continue
            if k >= len(t):
                if opt:
                    break
                self.err = TypeError("function missing arguments")
                return 0
            v = t[k]
            k += 1
            if c == "O":
                if i < len(fmt) and fmt[i] == "!":
                    i += 1
                    ty = r.pop(0)
                    if not issubclass(type(v), self.unwrap(ty)):
                        self.err = TypeError("argument type")
                        return 0
                m.store(r.pop(0), PTR, self.wrap(v))
            elif c in "df":
                m.store(r.pop(0), DOUBLE, self.dbl(v))
            elif c in "ln":
                m.store(r.pop(0), int_ty(64), int(v) & ((1 << 64) - 1))
            elif c in "ip":
                m.store(r.pop(0), int_ty(32), int(v) & ((1 << 32) - 1))
            else:
                raise EncodingError("PyArg_ParseTuple format " + fmt)
        if k < len(t):
            self.err = TypeError("too many arguments")
            return 0
        return 1

    def f_PyObject_HasAttrString(self, m, o, s):
        return int(hasattr(self.unwrap(o), self.cstr(m, s)))

    def f_PyObject_GetAttrString(self, m, o, s):
        try:
            return self.new(getattr(self.unwrap(o), self.cstr(m, s)))
        except AttributeError as e:
            self.err = e
            return None

    def f_PyUnicode_FromString(self, m, s):
        return self.new(self.cstr(m, s))

    def f_PyDict_Contains(self, m, d, k):
        d, k = self.unwrap(d), self.unwrap(k)
        if not isinstance(d, dict):
            raise CViolation("PyDict_Contains on something that is not a dictionary")
        return int(k in d)

    def f_PyDict_GetItem(self, m, d, k):
        d, k = self.unwrap(d), self.unwrap(k)
        if not isinstance(d, dict) or k not in d:
            return None
        return self.wrap(d[k])

    f_PyDict_GetItemWithError = f_PyDict_GetItem

    def f_PyDict_GetItemString(self, m, d, k):
        return self.f_PyDict_GetItem(m, d, self.wrap(self.cstr(m, k)))

    def f_PyDict_SetItem(self, m, d, k, v):
        d = self.unwrap(d)
        if not isinstance(d, dict):
            raise CViolation("PyDict_SetItem on something that is not a dictionary")
        d[self.unwrap(k)] = self.unwrap(v)
        return 0

    def f_PyDict_SetItemString(self, m, d, k, v):
        return self.f_PyDict_SetItem(m, d, self.wrap(self.cstr(m, k)), v)

    def f_PyFloat_AsDouble(self, m, o):
        return self.dbl(self.unwrap(o))

    def f_PyFloat_FromDouble(self, m, x):
        x = m.fval(x)
        v = Sym(x)
        if x.op == "inf":
            v = float("inf")
        elif x.op == "*" and x.args[1] is term.INF:
            v = float("-inf")
        return self.new(v)

    def f_PyLong_AsLong(self, m, o):
        v = self.unwrap(o)
        if isinstance(v, float):
            raise CViolation("PyLong_AsLong of a float")
        return int(v) & ((1 << 64) - 1)

    f_PyLong_AsSsize_t = f_PyLong_AsLongLong = f_PyLong_AsLong

    def f_PyLong_FromLong(self, m, v):
        from .llir import signed
        return self.new(signed(v, 64))

    f_PyLong_FromSsize_t = f_PyLong_FromLong

    def f_PyType_IsSubtype(self, m, a, b):
        return int(issubclass(self.unwrap(a), self.unwrap(b)))

    def f_PyErr_SetString(self, m, e, s):
        self.err = self.unwrap(e)(self.cstr(m, s))

    def f_PyErr_Format(self, m, e, s, *a):
        self.err = self.unwrap(e)(self.cstr(m, s))
        return None

    def f_PyErr_Occurred(self, m):
        return self.wrap(type(self.err)) if self.err is not None else None

    def f_PyErr_Clear(self, m):
        self.err = None

    def f_PyErr_Print(self, m):
        self.err = None

    def f__Py_Dealloc(self, m, o):
        return None

    def f_Py_IncRef(self, m, o):
        return None

    f_Py_DecRef = f_Py_IncRef


def _fmin(a, b):
    c = term.compare("<=", a, b)
    return term.ite(c, a, b)


def _fmax(a, b):
    c = term.compare(">=", a, b)
    return term.ite(c, a, b)


def bool_(c):
    return bool(c)


def _fabs(a):
    return term.ite(term.compare(">=", a, term.ZERO), a, term.neg(a))


def _pow(a, b):
    return term.powi(a, b)


def _hypot(*a):
    s = term.ZERO
    for x in a:
        s = term.add(s, term.mul(x, x))
    return term.sqrt(s)


_MATH = {"sqrt": term.sqrt, "sin": term.sin, "cos": term.cos, "tan": term.tan, "fabs": _fabs, "pow": _pow,
         "hypot": _hypot, "fmin": _fmin, "fmax": _fmax, "minnum": _fmin, "maxnum": _fmax,
         "atan2": lambda a, b: term.fun("atan2", a, b), "atan": lambda a: term.fun("atan", a),
         "asin": lambda a: term.fun("asin", a), "acos": lambda a: term.fun("acos", a),
         "exp": lambda a: term.fun("exp", a), "log": lambda a: term.fun("log", a),
         "copysign": lambda a, b: term.ite(term.compare(">=", b, term.ZERO), _fabs(a), term.neg(_fabs(a))),
         "fma": lambda a, b, c: term.add(term.mul(a, b), c),
         "cbrt": lambda a: term.fun("cbrt", a)}


class SymNative:
    """Stand-in for the extension module: executes the IR symbolically."""

    def __init__(self):
        self.machine = None
        self.log = []

    def methods(self):
        api = CApi()
        m = Machine(module(), api)
        for name in module().globsrc:
            if "PyMethodDef" in module().globsrc[name]:
                tab = m.glob(name)
                out, off = {}, 0
                while off + 32 <= tab.o.size:
                    s = m.load(Ptr(tab.o, off), PTR)
                    if s is None:
                        break
                    out[api.cstr(m, s)] = m.load(Ptr(tab.o, off + 8), PTR)
                    off += 32
                return out
        raise EncodingError("method table not found")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        fn = self.methods().get(name)
        if fn is None:
            raise AttributeError(name)

        def call(*args):
            api = CApi()
            m = Machine(module(), api)
            self.machine = m
            r = m.call(fn, [None, api.wrap(tuple(args))])
            self.log.append((name, m, api))
            api.balance()
            if r is None:
                raise api.err or SystemError("native function returned NULL")
            return api.unwrap(r)
        return call
