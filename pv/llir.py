"""
Symbolic executor for the LLVM IR of the native extension.

Integers and pointers are concrete, floating point values are terms
(term.Node).  Memory is a set of bounded objects; every access is checked
against the object's bounds and for being initialised.  A branch on a floating
point comparison goes through explore.decide.
"""
import math
import re
import struct
from fractions import Fraction

from . import term
from .term import EncodingError, Node


class CViolation(Exception):
    """The native code did something undefined (out of bounds, uninitialised, ...)."""


class CNonFinite(EncodingError):
    pass


# ------------------------------------------------------------------ types --

class Ty:
    __slots__ = ("k", "size", "align", "fields", "elem", "n", "offs")

    def __init__(self, k, size, align, fields=None, elem=None, n=0, offs=None):
        self.k, self.size, self.align = k, size, align
        self.fields, self.elem, self.n, self.offs = fields, elem, n, offs


PTR = Ty("ptr", 8, 8)
DOUBLE = Ty("double", 8, 8)
FLOAT = Ty("float", 4, 4)
VOID = Ty("void", 0, 1)
_INTS = {}


def int_ty(bits):
    if bits not in _INTS:
        sz = 1
        while sz * 8 < bits:
            sz *= 2
        t = Ty("int", sz, min(sz, 16))
        t.n = bits
        _INTS[bits] = t
    return _INTS[bits]


class Parser:
    """Tokens of one IR line."""
    TOK = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|"[^"]*"|[%@]"[^"]*"|[%@][-\w.$]+|-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+'
                     r'|\.\.\.|![\w.]*|#\d+|[A-Za-z_][\w.]*|[(){}\[\]<>,=*|:])')

    def __init__(self, s, mod):
        self.t, self.i, self.mod = [], 0, mod
        pos = 0
        s = s.rstrip()
        while pos < len(s):
            m = self.TOK.match(s, pos)
            if not m:
                if not s[pos:].strip():
                    break
                raise EncodingError("IR token: " + s[pos:pos + 60])
            self.t.append(m.group(1))
            pos = m.end()

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise EncodingError(f"IR: expected {x} got {y} in {' '.join(self.t)[:200]}")

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "double":
            t = DOUBLE
        elif x == "float":
            t = FLOAT
        elif x == "void":
            t = VOID
        elif x == "label" or x == "metadata":
            t = VOID
        elif re.fullmatch(r"i\d+", x):
            t = int_ty(int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("array", n * e.size, e.align, elem=e, n=n)
        elif x == "<" and self.peek() == "{":
            self.next()
            t = self._struct(True)
            self.expect(">")
        elif x == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            t = Ty("vector", n * e.size, n * e.size, elem=e, n=n)
        elif x == "{":
            t = self._struct(False)
        elif x[0] == "%":
            t = self.mod.named_type(x)
        else:
            raise EncodingError("IR type " + x)
        if self.peek() == "(":     # function type: return type then parameters
            depth = 0
            while True:
                y = self.next()
                depth += (y == "(") - (y == ")")
                if depth == 0:
                    break
        return t

    def _struct(self, packed):
        fs = []
        while not self.accept("}"):
            fs.append(self.type())
            self.accept(",")
        return struct_ty(fs, packed)

    ATTR = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "writeonly", "returned",
            "immarg", "nofree", "swiftself", "inreg", "readnone", "allocptr", "noreturn", "nounwind", "dso_local",
            "unnamed_addr", "local_unnamed_addr", "internal", "private", "linkonce_odr", "fastcc", "ccc", "tail",
            "musttail", "notail", "weak", "weak_odr", "mustprogress", "noinline", "inbounds", "nuw", "nsw", "exact",
            "hidden", "constant", "global", "external", "linkonce", "available_externally", "common", "fast", "nnan",
            "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "disjoint", "nneg", "writable",
            "dead_on_unwind", "range"}

    def attrs(self):
        while True:
            x = self.peek()
            if x in self.ATTR:
                self.next()
            elif x in ("align",):
                self.next()
                if not self.accept("("):
                    self.next()
                else:
                    self.next()
                    self.expect(")")
            elif x in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "allocsize",
                       "thread_local", "addrspace", "memory", "vscale_range"):
                self.next()
                if self.accept("("):
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == "(") - (y == ")")
            else:
                return

    def value(self, ty):
        """Operand as a closure-free description: ('r', name) or ('k', constant)."""
        self.attrs()
        x = self.peek()
        if x[0] == "%":
            self.next()
            return ("r", x)
        return ("k", self.const(ty))

    def const(self, ty):
        x = self.next()
        if x[0] == "@":
            return ("global", x)
        if x in ("null",):
            return None
        if x == "zeroinitializer":
            return ("zero", ty)
        if x in ("undef", "poison"):
            return ("undef", ty)
        if x in ("true", "false"):
            return int(x == "true")
        if x.startswith('c"'):
            return ("bytes", _unescape(x[2:-1]))
        if x in ("getelementptr",):
            self.attrs()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            self.type()
            base = self.const(PTR)
            idx = []
            while self.accept(","):
                self.attrs()
                t = self.type()
                idx.append(self.const(t))
            self.expect(")")
            return ("gep", bt, base, idx)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            t = self.type()
            v = self.const(t)
            self.expect("to")
            self.type()
            self.expect(")")
            return v
        if x == "[" or x == "{" or x == "<":
            close = {"[": "]", "{": "}", "<": ">"}[x]
            if x == "<" and self.peek() == "{":
                self.next()
                close = "}"
            out = []
            while not self.accept(close):
                t = self.type()
                self.attrs()
                out.append((t, self.const(t)))
                self.accept(",")
            if x == "<" and close == "}":
                self.expect(">")
            return ("agg", out)
        if ty.k in ("double", "float"):
            return ("fp", parse_fp(x))
        if re.fullmatch(r"-?\d+", x):
            return int(x)
        raise EncodingError("IR constant " + x)


def parse_fp(x):
    if x.startswith("0x"):
        return struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0]
    return float(x)


def _unescape(s):
    out, i = bytearray(), 0
    b = s.encode("latin1")
    while i < len(b):
        if b[i:i + 1] == b"\\":
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def struct_ty(fs, packed=False):
    off, al, offs = 0, 1, []
    for f in fs:
        a = 1 if packed else f.align
        off = (off + a - 1) // a * a
        offs.append(off)
        off += f.size
        al = max(al, a)
    return Ty("struct", (off + al - 1) // al * al, al, fields=fs, offs=offs)


# ----------------------------------------------------------------- memory --

class Obj:
    """Memory object; cells: offset -> (size, value)."""
    __slots__ = ("size", "name", "cells", "ro", "alive", "py", "kind", "lazy")

    def __init__(self, size, name, ro=False, kind="mem"):
        self.size, self.name, self.ro, self.alive = size, name, ro, True
        self.cells, self.py, self.kind, self.lazy = {}, None, kind, None

    def read(self, off, size, ty):
        c = self.cells.get(off)
        if c is not None:
            if c[0] == size:
                return c[1]
            if isinstance(c[1], int) and ty.k == "int" and size < c[0]:
                return c[1] & ((1 << (8 * size)) - 1)
        if ty.k == "int":            # assemble from smaller / larger integer cells
            v, k = 0, 0
            while k < size:
                d = self.cells.get(off + k)
                if d is None:
                    d = self._inside(off + k)
                    if d is None:
                        raise CViolation(f"use of an uninitialised value in {self.name} at byte {off}")
                    v |= d << (8 * k)
                    k += 1
                    continue
                if not isinstance(d[1], int):
                    raise EncodingError(f"integer read of non-integer memory in {self.name}")
                v |= (d[1] & ((1 << (8 * d[0])) - 1)) << (8 * k)
                k += d[0]
            return v & ((1 << (8 * size)) - 1)
        raise CViolation(f"use of an uninitialised value in {self.name} at byte {off}")

    def _inside(self, off):
        for o, (s, v) in self.cells.items():
            if o <= off < o + s and isinstance(v, int):
                return (v >> (8 * (off - o))) & 255
        return None

    def write(self, off, size, v, ty):
        c = self.cells.get(off)
        if c is not None and c[0] == size:
            self.cells[off] = (size, v)
            return
        for o in [o for o, (s, _) in self.cells.items() if o < off + size and off < o + s]:
            s, w = self.cells.pop(o)
            if isinstance(w, int):
                for k in range(s):
                    if not off <= o + k < off + size:
                        self.cells[o + k] = (1, (w >> (8 * k)) & 255)
        self.cells[off] = (size, v)


class ArrObj(Obj):
    """Data block of a numpy array (float arrays are object arrays of terms)."""
    __slots__ = ("arr", "flat", "fl", "item", "reads", "writes")

    def __init__(self, arr, name, fl):
        self.arr, self.fl, self.item = arr, fl, 8
        super().__init__(arr.size * 8, name)
        if not arr.flags.c_contiguous:
            raise EncodingError("array is not C contiguous: " + name)
        self.flat = arr.reshape(-1)
        self.kind = "array"
        self.reads, self.writes = set(), set()

    def read(self, off, size, ty):
        if off % 8 or size != 8:
            raise CViolation(f"misaligned access to {self.name} at byte {off}")
        v = self.flat[off // 8]
        self.reads.add(off // 8)
        if self.fl:
            if ty.k != "double":
                raise CViolation(f"{self.name} (floating point) is read as {ty.k}")
            n = term.node(v)
            if n is None:
                raise EncodingError(f"value {v!r} in {self.name}")
            return n
        if ty.k != "int":
            raise CViolation(f"{self.name} (integer) is read as {ty.k}")
        return int(v) & ((1 << 64) - 1)

    def write(self, off, size, v, ty):
        if off % 8 or size != 8:
            raise CViolation(f"misaligned access to {self.name} at byte {off}")
        self.writes.add(off // 8)
        if self.fl:
            if ty.k != "double":
                raise CViolation(f"{self.name} (floating point) is written as {ty.k}")
            self.flat[off // 8] = term.Sym(v)
        else:
            if ty.k != "int":
                raise CViolation(f"{self.name} (integer) is written as {ty.k}")
            self.flat[off // 8] = v - (1 << 64) if v >> 63 else v


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.o is self.o and x.off == self.off

    def __hash__(self):
        return hash((id(self.o), self.off))

    def __repr__(self):
        return f"<{self.o.name}+{self.off}>"


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Undef:
    pass


UNDEF = Undef()


# ----------------------------------------------------------------- module --

class Module:
    def __init__(self, text):
        self.lines = text.split("\n")
        self.types, self.typesrc = {}, {}
        self.funcs, self.globsrc = {}, {}
        self.decls = set()
        self._scan()

    def _scan(self):
        i, L = 0, self.lines
        while i < len(L):
            s = L[i]
            if s.startswith("%") and " = type " in s:
                name, rhs = s.split(" = type ", 1)
                self.typesrc[name] = rhs
            elif s.startswith("@"):
                name, rhs = s.split(" = ", 1)
                self.globsrc[name] = rhs
            elif s.startswith("define"):
                j = i + 1
                while L[j] != "}":
                    j += 1
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', s)
                self.funcs[m.group(1)] = (s, L[i + 1:j])
                i = j
            elif s.startswith("declare"):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', s)
                self.decls.add(m.group(1))
            i += 1
        self.parsed = {}

    def named_type(self, name):
        if name not in self.types:
            src = self.typesrc.get(name)
            if src is None or src.strip() == "opaque":
                self.types[name] = Ty("struct", 0, 1, fields=[], offs=[])
            else:
                self.types[name] = Parser(src, self).type()
        return self.types[name]

    def function(self, name):
        f = self.parsed.get(name)
        if f is None:
            f = self.parsed[name] = self._parse(name)
        return f

    def _parse(self, name):
        head, body = self.funcs[name]
        m = re.search(re.escape(name) + r"\(", head)
        p = Parser(head[m.end():head.rindex(")") + 1] if False else head[m.end():], self)
        params = []
        while not p.accept(")"):
            if p.peek() == "...":
                p.next()
                continue
            t = p.type()
            p.attrs()
            nm = p.next() if p.peek() and p.peek()[0] == "%" else f"%{len(params)}"
            params.append(nm)
            p.accept(",")
        blocks, cur, first = {}, [], None
        label = None
        joined = []
        for s in body:
            s = s.split(" ;")[0] if '"' not in s else s
            s = re.sub(r", ![\w.]+ !\d+", "", s).rstrip()
            if joined and joined[-1].lstrip().startswith("switch") and "]" not in joined[-1]:
                joined[-1] += " " + s
            elif s.strip().startswith(("to label", "cleanup", "catch ", "filter ")) and joined:
                joined[-1] += " " + s
            elif s.strip():
                joined.append(s)
        for s in joined:
            m = re.match(r'^("[^"]*"|[-\w.$]+):', s)
            if m and not s.startswith(" "):
                label = "%" + m.group(1)
                blocks[label] = []
                first = first or label
                continue
            if label is None:
                label = first = "%entry!"
                blocks[label] = []
            blocks[label].append(self._instr(s.strip()))
        return params, first, blocks

    def _instr(self, s):
        p = Parser(s, self)
        dst = None
        if p.peek(1) == "=":
            dst = p.next()
            p.next()
        while p.peek() in ("tail", "musttail", "notail"):
            p.next()
        op = p.next()
        if op == "alloca":
            p.attrs()
            t = p.type()
            n = ("k", 1)
            if p.accept(",") and p.peek() != "align":
                nt = p.type()
                n = p.value(nt)
            return ("alloca", dst, t, n)
        if op == "load":
            p.attrs()
            t = p.type()
            p.expect(",")
            p.type()
            return ("load", dst, t, p.value(PTR))
        if op == "store":
            p.attrs()
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.type()
            return ("store", t, v, p.value(PTR))
        if op == "getelementptr":
            p.attrs()
            t = p.type()
            p.expect(",")
            p.type()
            base = p.value(PTR)
            idx = []
            while p.accept(","):
                it = p.type()
                idx.append((it, p.value(it)))
            return ("gep", dst, t, base, idx)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            nsw = "nsw" in (p.peek(), p.peek(1))
            p.attrs()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            return ("int", dst, op, t, a, p.value(t), nsw)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            p.attrs()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            return ("fp", dst, op, a, p.value(t))
        if op == "fneg":
            p.attrs()
            t = p.type()
            return ("fneg", dst, p.value(t))
        if op in ("icmp", "fcmp"):
            p.attrs()
            pr = p.next()
            p.attrs()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            return (op, dst, pr, t, a, p.value(t))
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast",
                  "ptrtoint", "inttoptr", "freeze"):
            p.attrs()
            t = p.type()
            v = p.value(t)
            t2 = t
            if op != "freeze":
                p.expect("to")
                t2 = p.type()
            return ("cast", dst, op, t, v, t2)
        if op == "br":
            if p.accept("label"):
                return ("jmp", p.next())
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = p.next()
            p.expect(",")
            p.expect("label")
            return ("br", c, a, p.next())
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.expect("label")
            d = p.next()
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.type()
                cv = p.const(ct)
                p.expect(",")
                p.expect("label")
                cases.append((cv, p.next()))
            return ("switch", t, v, d, cases)
        if op == "ret":
            t = p.type()
            return ("ret", t, None if t is VOID else p.value(t))
        if op == "phi":
            p.attrs()
            t = p.type()
            ins = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                ins.append((v, p.next()))
                p.expect("]")
                if not p.accept(","):
                    break
            return ("phi", dst, t, ins)
        if op == "select":
            p.attrs()
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            t = p.type()
            a = p.value(t)
            p.expect(",")
            p.type()
            return ("select", dst, c, a, p.value(t), t)
        if op in ("call", "invoke"):
            p.attrs()
            rt = p.type()
            p.attrs()
            fn = p.value(PTR)
            p.expect("(")
            args = []
            while not p.accept(")"):
                t = p.type()
                p.attrs()
                if t is VOID:      # metadata
                    while p.peek() not in (",", ")"):
                        p.next()
                    args.append(("k", 0))
                else:
                    args.append((t, p.value(t)))
                p.accept(",")
            nxt = None
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next()
                p.expect("label")
                nxt = p.next()
            return ("call", dst, rt, fn, args, nxt)
        if op == "unreachable":
            return ("unreachable",)
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            return ("extract", dst, v, int(p.next()))
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            w = p.value(t2)
            p.expect(",")
            return ("insert", dst, v, w, int(p.next()))
        return ("unsupported", s)


def signed(v, bits):
    return v - (1 << bits) if v >> (bits - 1) & 1 else v


class Machine:
    """One address space and the interpreter."""

    def __init__(self, mod, externals):
        self.mod, self.ext = mod, externals
        self.globals = {}
        self.steps = 0
        self.max_steps = 30_000_000
        self.entered = set()
        self.bases, self.byaddr, self.brk = {}, [], 1 << 20

    # ----- addresses (only for code that turns pointers into integers) -----

    def addr(self, p):
        if p is None:
            return 0
        o = p.o if isinstance(p, Ptr) else p
        k = o if isinstance(o, Fn) else id(o)
        if k not in self.bases:
            self.bases[k] = self.brk
            self.byaddr.append((self.brk, o))
            size = o.size if isinstance(o, Obj) else 16
            self.brk += (size + 4096 + 4095) // 4096 * 4096
        return self.bases[k] + (p.off if isinstance(p, Ptr) else 0)

    def at(self, a):
        if a == 0:
            return None
        for b, o in reversed(self.byaddr):
            if b <= a + 2048:
                return o if isinstance(o, Fn) else Ptr(o, a - b)
        raise EncodingError("integer used as pointer")

    # ----- globals -----

    def glob(self, name):
        if name in self.mod.funcs or name in self.mod.decls:
            return Fn(name)
        if name in self.globals:
            return Ptr(self.globals[name])
        src = self.mod.globsrc.get(name)
        x = self.ext.external_global(self, name)
        if x is not None:
            self.globals[name] = x
            return Ptr(x)
        if src is None:
            raise EncodingError("unknown global " + name)
        p = Parser(src, self.mod)
        p.attrs()
        const = "constant" in src.split("{")[0].split("[")[0].split('c"')[0]
        t = p.type()
        o = Obj(t.size, name, ro=const)
        self.globals[name] = o
        if p.peek() is not None and p.peek() != ",":
            self.init(o, 0, t, p.const(t))
        return Ptr(o)

    def init(self, o, off, t, c):
        if isinstance(c, tuple) and c[0] == "zero":
            self.zero(o, off, t)
        elif isinstance(c, tuple) and c[0] == "bytes":
            for k, b in enumerate(c[1]):
                o.cells[off + k] = (1, b)
        elif isinstance(c, tuple) and c[0] == "agg":
            for k, (ft, fc) in enumerate(c[1]):
                self.init(o, off + (t.offs[k] if t.k == "struct" else k * t.elem.size), ft, fc)
        elif isinstance(c, tuple) and c[0] == "undef":
            pass
        else:
            o.cells[off] = (t.size, self.kval(c, t))

    def zero(self, o, off, t):
        if t.k == "struct":
            for f, fo in zip(t.fields, t.offs):
                self.zero(o, off + fo, f)
        elif t.k in ("array", "vector"):
            for k in range(t.n):
                self.zero(o, off + k * t.elem.size, t.elem)
        else:
            o.cells[off] = (t.size, 0 if t.k == "int" else (term.ZERO if t.k in ("double", "float") else None))

    def kval(self, c, ty=None):
        if isinstance(c, tuple):
            k = c[0]
            if k == "fp":
                return fpconst(c[1])
            if k == "global":
                return self.glob(c[1])
            if k == "gep":
                return self.gep(c[1], self.kval(c[2]), [(int_ty(64), i) for i in c[3]])
            if k == "zero":
                return self.zval(c[1])
            if k == "undef":
                return UNDEF
            if k == "agg":
                return [self.kval(v, t) for t, v in c[1]]
            raise EncodingError("constant " + k)
        if isinstance(c, int) and ty is not None and ty.k == "int":
            return c & ((1 << ty.n) - 1)
        return c

    def zval(self, t):
        if t.k == "int":
            return 0
        if t.k in ("double", "float"):
            return term.ZERO
        if t.k == "struct":
            return [self.zval(f) for f in t.fields]
        if t.k in ("array", "vector"):
            return [self.zval(t.elem) for _ in range(t.n)]
        return None

    def gep(self, t, base, idx):
        if not isinstance(base, Ptr):
            raise CViolation("address computed from a null or invalid pointer")
        off = base.off
        first = True
        for it, i in idx:
            i = signed(i & ((1 << it.n) - 1), it.n) if i >= 0 else i
            if first:
                off += i * t.size
                first = False
            elif t.k == "struct":
                off += t.offs[i]
                t = t.fields[i]
            else:
                t = t.elem
                off += i * t.size
        return Ptr(base.o, off)

    # ----- access -----

    def check(self, p, size, what):
        if not isinstance(p, Ptr):
            raise CViolation(f"{what} through a null or invalid pointer")
        o = p.o
        if not o.alive:
            raise CViolation(f"{what} of freed memory {o.name}")
        if p.off < 0 or p.off + size > o.size:
            raise CViolation(f"{what} outside {o.name}: byte {p.off} of {o.size}")
        return o

    def load(self, p, t):
        o = self.check(p, t.size, "read")
        if t.k in ("array", "struct", "vector"):
            parts = zip(t.fields, t.offs) if t.k == "struct" else [(t.elem, k * t.elem.size) for k in range(t.n)]
            return [self.load(Ptr(o, p.off + f), ft) for ft, f in parts]
        v = o.read(p.off, t.size, t)
        if t.k == "double" and isinstance(v, int):
            v = fpconst(struct.unpack("<d", struct.pack("<Q", v & ((1 << 64) - 1)))[0])
        elif t.k == "ptr" and isinstance(v, int):
            v = self.at(v)
        elif t.k == "int" and not isinstance(v, int):
            if v is None or isinstance(v, (Ptr, Fn)):
                v = self.addr(v) & ((1 << (8 * t.size)) - 1)
            else:
                raise EncodingError(f"{type(v).__name__} read as integer from {o.name}")
        return v

    def store(self, p, t, v):
        o = self.check(p, t.size, "write")
        if o.ro:
            raise CViolation("write to read-only " + o.name)
        if t.k in ("array", "struct", "vector"):
            parts = zip(t.fields, t.offs) if t.k == "struct" else [(t.elem, k * t.elem.size) for k in range(t.n)]
            for (ft, f), x in zip(parts, v):
                self.store(Ptr(o, p.off + f), ft, x)
            return
        if v is UNDEF:
            return
        o.write(p.off, t.size, v, t)

    def memset(self, p, byte, n):
        if n == 0:
            return
        o = self.check(p, n, "write")
        if o.kind == "array":
            if p.off % 8 or n % 8:
                raise EncodingError("memset of part of an array element")
            for k in range(0, n, 8):
                o.write(p.off + k, 8, fpconst(struct.unpack("<d", bytes([byte] * 8))[0]) if o.fl
                        else int.from_bytes(bytes([byte] * 8), "little"), DOUBLE if o.fl else int_ty(64))
            return
        k = 0
        while k < n:
            s = 8 if n - k >= 8 and (p.off + k) % 8 == 0 else 1
            o.write(p.off + k, s, int.from_bytes(bytes([byte] * s), "little"), int_ty(8 * s))
            k += s

    def memcpy(self, d, s, n):
        if n == 0:
            return
        do, so = self.check(d, n, "write"), self.check(s, n, "read")
        if so.kind == "array" or do.kind == "array":
            if d.off % 8 or s.off % 8 or n % 8:
                raise EncodingError("memcpy of part of an array element")
            t = DOUBLE if getattr(so, "fl", True) and getattr(do, "fl", True) else int_ty(64)
            vals = [self.load(Ptr(so, s.off + k), t) for k in range(0, n, 8)]
            for k, v in enumerate(vals):
                self.store(Ptr(do, d.off + 8 * k), t, v)
            return
        cells = [(o - s.off, c) for o, c in so.cells.items() if s.off <= o and o + c[0] <= s.off + n]
        for o in [o for o, (sz, _) in do.cells.items() if o < d.off + n and d.off < o + sz]:
            del do.cells[o]
        for o, c in cells:
            do.cells[d.off + o] = c

    # ----- execution -----

    def call(self, fn, args):
        if isinstance(fn, Fn):
            name = fn.name
        else:
            raise CViolation("call through an invalid pointer")
        if name in self.mod.funcs and not self.ext.overrides(name):
            return self.run(name, args)
        return self.ext.call(self, name, args)

    def run(self, name, args):
        self.entered.add(name)
        params, label, blocks = self.mod.function(name)
        R = dict(zip(params, args))
        for k, a in enumerate(args):
            R.setdefault(f"%{k}", a)
        allocas = []
        prev = None

        def val(d, ty=None):
            if d[0] == "r":
                return R[d[1]]
            return self.kval(d[1], ty)

        while True:
            blk = blocks[label]
            i = 0
            # phis first, simultaneously
            if blk and blk[0][0] == "phi":
                vals = []
                while blk[i][0] == "phi":
                    _, dst, t, ins = blk[i]
                    for v, l in ins:
                        if l == prev:
                            vals.append((dst, val(v, t)))
                            break
                    i += 1
                for d_, v in vals:
                    R[d_] = v
            jump = None
            n = len(blk)
            while i < n:
                I = blk[i]
                i += 1
                self.steps += 1
                op = I[0]
                if op == "load":
                    R[I[1]] = self.load(val(I[3]), I[2])
                elif op == "store":
                    self.store(val(I[3]), I[1], val(I[2], I[1]))
                elif op == "gep":
                    R[I[1]] = self.gep(I[2], val(I[3]), [(t, self.ival(val(x, t))) for t, x in I[4]])
                elif op == "fp":
                    R[I[1]] = fparith(I[2], self.fval(val(I[3])), self.fval(val(I[4])))
                elif op == "int":
                    R[I[1]] = self.intop(I[2], I[3].n, self.ival(val(I[4], I[3])), self.ival(val(I[5], I[3])), I[6])
                elif op == "cast":
                    R[I[1]] = self.cast(I[2], I[3], val(I[4], I[3]), I[5])
                elif op == "jmp":
                    jump = I[1]
                elif op == "br":
                    c = val(I[1])
                    if c is UNDEF:
                        raise CViolation("branch on an uninitialised value")
                    if isinstance(c, term.SymBool):
                        j = self.converted(c, I[2], I[3], blocks, R, val)
                        if j is not None:
                            jump = j
                            break
                        c = bool(c)
                    jump = I[2] if c else I[3]
                elif op == "icmp":
                    R[I[1]] = self.icmp(I[2], I[3], val(I[4], I[3]), val(I[5], I[3]))
                elif op == "fcmp":
                    R[I[1]] = fcmp(I[2], self.fval(val(I[4])), self.fval(val(I[5])))
                elif op == "alloca":
                    cnt = self.ival(val(I[3]))
                    o = Obj(I[2].size * cnt, f"{name}:{I[1]}")
                    allocas.append(o)
                    R[I[1]] = Ptr(o)
                elif op == "call":
                    a = []
                    for x in I[4]:
                        a.append(val(x[1], x[0]) if isinstance(x[0], Ty) else None)
                    v = self.call(val(I[3]), a)
                    if I[1] is not None:
                        R[I[1]] = v
                    if I[5] is not None:
                        jump = I[5]
                elif op == "fneg":
                    R[I[1]] = term.neg(self.fval(val(I[2])))
                elif op == "ret":
                    for o in allocas:
                        o.alive = False
                    if self.steps > self.max_steps:
                        raise EncodingError("step limit")
                    return None if I[2] is None else val(I[2], I[1])
                elif op == "switch":
                    v = self.ival(val(I[2], I[1]))
                    jump = I[3]
                    for cv, l in I[4]:
                        if (cv & ((1 << I[1].n) - 1)) == v:
                            jump = l
                elif op == "select":
                    c = val(I[2])
                    if isinstance(c, term.SymBool):
                        x, y = val(I[3], I[5]), val(I[4], I[5])
                        if c.rel not in ("and", "or") and isinstance(x, Node) and isinstance(y, Node) \
                                and not _inf(x) and not _inf(y):
                            R[I[1]] = term.ite(c, x, y)
                            continue
                        c = bool(c)
                    R[I[1]] = val(I[3], I[5]) if c else val(I[4], I[5])
                elif op == "extract":
                    R[I[1]] = val(I[2])[I[3]]
                elif op == "insert":
                    v = val(I[2])
                    v = [UNDEF] * 8 if v is UNDEF else list(v)
                    v[I[4]] = val(I[3])
                    R[I[1]] = v
                elif op == "unreachable":
                    raise CViolation("unreachable code reached")
                else:
                    raise EncodingError("IR instruction " + str(I))
                if jump is not None:
                    break
            if self.steps > self.max_steps:
                raise EncodingError("step limit (endless loop?)")
            prev, label = label, jump

    # A branch around a few assignments of local floating point values becomes a
    # conditional value instead of two paths.
    _PURE = {"load", "store", "gep", "cast", "fneg", "int", "jmp"}

    def straight(self, blk):
        if not blk or blk[-1][0] != "jmp" or len(blk) > 24:
            return None
        for I in blk[:-1]:
            if I[0] == "fp" and I[2] in ("fadd", "fsub", "fmul"):
                continue
            if I[0] not in self._PURE or I[0] == "store" and I[1] is not DOUBLE and I[1].k != "double":
                return None
        return blk[-1][1]

    def speculate(self, blk, R, val):
        """Execute a straight block; returns {(obj, offset): value} and restores the memory."""
        R = dict(R)

        def val(d, ty=None):
            return R[d[1]] if d[0] == "r" else self.kval(d[1], ty)
        old, new = {}, {}
        ok = True
        try:
            for I in blk[:-1]:
                op = I[0]
                if op == "load":
                    p = val(I[3])
                    R[I[1]] = self.load(p, I[2])
                elif op == "store":
                    p = val(I[3])
                    o = self.check(p, 8, "write")
                    if o.kind == "array" or o.ro:
                        ok = False
                        break
                    c = o.cells.get(p.off)
                    if c is None or c[0] != 8 or not isinstance(c[1], Node):
                        ok = False
                        break
                    old.setdefault((id(o), p.off), (o, c))
                    self.store(p, I[1], val(I[2], I[1]))
                elif op == "gep":
                    R[I[1]] = self.gep(I[2], val(I[3]), [(t, self.ival(val(x, t))) for t, x in I[4]])
                elif op == "fp":
                    R[I[1]] = fparith(I[2], self.fval(val(I[3])), self.fval(val(I[4])))
                elif op == "int":
                    R[I[1]] = self.intop(I[2], I[3].n, self.ival(val(I[4], I[3])), self.ival(val(I[5], I[3])), I[6])
                elif op == "cast":
                    R[I[1]] = self.cast(I[2], I[3], val(I[4], I[3]), I[5])
                elif op == "fneg":
                    R[I[1]] = term.neg(self.fval(val(I[2])))
        except CViolation:
            ok = False
        for (i, off), (o, c) in old.items():
            new[(i, off)] = (o, o.cells.get(off))
            o.cells[off] = c
        return new if ok else None

    def converted(self, c, t, f, blocks, R, val):
        if c.rel in ("and", "or"):
            return None
        jt, jf = self.straight(blocks[t]), self.straight(blocks[f])
        if jt == f:
            join, T, F = f, blocks[t], None
        elif jf == t:
            join, T, F = t, None, blocks[f]
        elif jt is not None and jt == jf:
            join, T, F = jt, blocks[t], blocks[f]
        else:
            return None
        if blocks[join] and blocks[join][0][0] == "phi":
            return None
        a = self.speculate(T, R, val) if T is not None else {}
        b = self.speculate(F, R, val) if F is not None else {}
        if a is None or b is None:
            return None
        out = []
        for k in list(a) + [k for k in b if k not in a]:
            o = (a.get(k) or b.get(k))[0]
            cur = o.cells[k[1]]
            x = a[k][1] if k in a else cur
            y = b[k][1] if k in b else cur
            if not isinstance(x[1], Node) or not isinstance(y[1], Node) or _inf(x[1]) or _inf(y[1]):
                return None
            out.append((o, k[1], term.ite(c, x[1], y[1])))
        for o, off, v in out:
            o.cells[off] = (8, v)
        return join

    def ival(self, v):
        if v is UNDEF:
            raise CViolation("use of an uninitialised integer")
        if isinstance(v, term.SymBool):
            return int(bool(v))
        if not isinstance(v, int):
            raise EncodingError("non-integer in integer position")
        return v

    def fval(self, v):
        if v is UNDEF:
            raise CViolation("use of an uninitialised floating point value")
        if not isinstance(v, Node):
            raise EncodingError("not a floating point value")
        return v

    def intop(self, op, n, a, b, nsw=False):
        M = (1 << n) - 1
        if op in ("add", "sub", "mul"):
            sa, sb = signed(a, n), signed(b, n)
            r = sa + sb if op == "add" else sa - sb if op == "sub" else sa * sb
            if nsw and not -(1 << (n - 1)) <= r < (1 << (n - 1)):
                raise CViolation("signed integer overflow")
            return r & M
        if op in ("sdiv", "srem", "udiv", "urem"):
            if b == 0:
                raise CViolation("integer division by zero")
            if op[0] == "s":
                sa, sb = signed(a, n), signed(b, n)
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (q if op == "sdiv" else sa - q * sb) & M
            return a // b if op == "udiv" else a % b
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & M
        if op == "lshr":
            return a >> b
        return (signed(a, n) >> b) & M

    def cast(self, op, t, v, t2):
        if op == "bitcast" or op == "freeze":
            return v
        if v is UNDEF:
            return UNDEF
        if op in ("sext", "zext", "trunc"):
            v = self.ival(v)
            if op == "sext":
                return signed(v, t.n) & ((1 << t2.n) - 1)
            return v & ((1 << t2.n) - 1)
        if op == "sitofp":
            return term.const(signed(self.ival(v), t.n))
        if op == "uitofp":
            return term.const(self.ival(v))
        if op in ("fptosi", "fptoui"):
            v = self.fval(v)
            if v.op == "c":
                return int(v.args[0]) & ((1 << t2.n) - 1)
            raise EncodingError("floating point value converted to integer")
        if op in ("fpext",):
            return v
        if op == "fptrunc":
            raise CViolation("double precision is truncated to single precision")
        if op == "ptrtoint":
            return self.addr(v) & ((1 << t2.n) - 1)
        if op == "inttoptr":
            return self.at(self.ival(v))
        raise EncodingError("cast " + op)

    def icmp(self, pr, t, a, b):
        if a is UNDEF or b is UNDEF:
            raise CViolation("comparison of an uninitialised value")
        if t.k == "ptr":
            if pr == "eq":
                return int(a == b)
            if pr == "ne":
                return int(not a == b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                x, y = a.off, b.off
                return int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pr])
            x, y = self.addr(a), self.addr(b)
            return int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pr])
        if isinstance(a, term.SymBool) or isinstance(b, term.SymBool):
            if isinstance(a, term.SymBool) and b == 0 and pr in ("ne", "eq"):
                return a if pr == "ne" else term.lnot(a)
            a, b = self.ival(a), self.ival(b)
        n = t.n
        if pr[0] == "s":
            a, b = signed(a, n), signed(b, n)
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[
            pr if pr in ("eq", "ne") else pr[1:]])


def _inf(n):
    return n.op == "inf" or n.op == "*" and n.args[1].op == "inf"


def fpconst(f):
    return term.from_float(f)


def fparith(op, a, b):
    if op == "fadd":
        return term.add(a, b)
    if op == "fsub":
        return term.sub(a, b)
    if op == "fmul":
        return term.mul(a, b)
    if op == "fdiv":
        if b.op == "c" and b.args[0] == 0:
            raise CNonFinite("division by constant zero")
        if b.op != "c":
            from . import explore
            explore.note_divisor(b)
        return term.div(a, b)
    raise EncodingError(op)


def fcmp(pr, a, b):
    rel = {"oeq": "==", "ueq": "==", "one": "!=", "une": "!=", "olt": "<", "ult": "<", "ole": "<=", "ule": "<=",
           "ogt": ">", "ugt": ">", "oge": ">=", "uge": ">="}.get(pr)
    if rel is None:
        if pr == "ord":
            return 1
        if pr == "uno":
            return 0
        raise EncodingError("fcmp " + pr)
    r = term.compare(rel, a, b)
    return r if isinstance(r, term.SymBool) else int(bool(r))
