"""
Symbolic real-valued terms.

A term is a hash-consed DAG.  `Sym` is the value that flows through the code
under analysis: a subclass of float (so that type checks in the code see a
float) whose arithmetic builds terms and whose comparisons build `SymBool`s.
A `SymBool` that is used as a condition asks the current path (explore.py),
which asks the solver.
"""
import time as _time
import math
from fractions import Fraction

PI_F = math.pi


class EncodingError(BaseException):
    """The code did something the encoding cannot follow: no verdict.
    (Not an Exception, so that handlers in the code under analysis do not swallow it.)"""


# ---------------------------------------------------------------- nodes ----

class Node:
    __slots__ = ("op", "args", "id", "_nf", "_z3", "__weakref__")

    def __repr__(self):
        return show(self)


_TABLE = {}
_NEXT = [0]


def mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, Node) else ("#", a) for a in args)
    n = _TABLE.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n._nf, n._z3 = op, args, None, None
        n.id = _NEXT[0]
        _NEXT[0] += 1
        _TABLE[key] = n
    return n


def const(x):
    return mk("c", Fraction(x))


ZERO, ONE = const(0), const(1)
PI = mk("pi")
INF = mk("inf")      # +DBL_MAX and beyond: only ever compared against

_PI_MULT = {}
for _num in (1, 2, 3, 4, 5, 6, 8):
    for _den in (1, 2, 3, 4, 6, 8, 90, 180, 360):
        _PI_MULT.setdefault(math.pi * _num / _den, Fraction(_num, _den))
        _PI_MULT.setdefault(math.pi / _den * _num, Fraction(_num, _den))
_INV_PI = {}
for _num in (1, 2, 45, 90, 180, 360):
    for _den in (1, 2, 3, 4, 6, 8):
        _INV_PI.setdefault(_num / (_den * math.pi), Fraction(_num, _den))
        _INV_PI.setdefault((_num / _den) / math.pi, Fraction(_num, _den))


def from_float(f):
    """Lift a machine constant: to the fraction with a small denominator or the decimal
    literal it is the rounded value of, multiples of pi to the symbol pi."""
    if isinstance(f, bool):
        return const(int(f))
    if isinstance(f, int):
        return const(f)
    if isinstance(f, Fraction):
        return const(f)
    f = float(f)
    if f != f:
        raise EncodingError("NaN constant")
    if abs(f) > 1e300:
        return INF if f > 0 else mk("*", const(-1), INF)
    a = abs(f)
    sgn = -1 if f < 0 else 1
    if a in _PI_MULT:
        return mul(const(sgn * _PI_MULT[a]), PI)
    if a in _INV_PI:
        return div(const(sgn * _INV_PI[a]), PI)
    if f == int(f) and a <= 1e15:
        return const(int(f))
    q = Fraction(f).limit_denominator(2000)     # 1/3 computed in floating point means 1/3
    if q and float(q) == f:
        return const(q)
    return const(Fraction(repr(f)))


def var(name):
    return mk("v", name)


def add(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("+", a, b)


def mul(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.args[0] * b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "c":
            if x.args[0] == 0:
                return ZERO
            if x.args[0] == 1:
                return y
            if y.op == "*" and y.args[0].op == "c":
                return mul(const(x.args[0] * y.args[0].args[0]), y.args[1])
    if b.op == "c":
        a, b = b, a
    if a.op != "c" and a.id > b.id:
        a, b = b, a
    return mk("*", a, b)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if b.op == "c":
        if b.args[0] == 0:
            raise ZeroDivisionError("float division by zero")
        return mul(const(1 / b.args[0]), a)
    if b.op == "*":
        return div(div(a, b.args[0]), b.args[1])
    if b.op == "inv":
        return mul(a, b.args[0])
    return mul(a, mk("inv", b))


def sqrt(a):
    if a.op == "c":
        v = a.args[0]
        if v < 0:
            raise ValueError("math domain error")
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return const(Fraction(n, d))
    return mk("sqrt", a)


def absn(a):
    if a.op == "c":
        return const(abs(a.args[0]))
    return mk("sqrt", mul(a, a)) if a.op != "sqrt" else a


def _pi_multiple(a):
    """Return q with a == q*pi, or None."""
    if a is ZERO:
        return Fraction(0)
    if a is PI:
        return Fraction(1)
    if a.op == "*" and a.args[0].op == "c" and a.args[1] is PI:
        return a.args[0].args[0]
    return None


_SIN_Q = {Fraction(0): Fraction(0), Fraction(1, 6): Fraction(1, 2), Fraction(1, 2): Fraction(1),
          Fraction(5, 6): Fraction(1, 2), Fraction(1): Fraction(0), Fraction(7, 6): Fraction(-1, 2),
          Fraction(3, 2): Fraction(-1), Fraction(11, 6): Fraction(-1, 2)}


def sin(a):
    q = _pi_multiple(a)
    if q is not None and q % 2 in _SIN_Q:
        return const(_SIN_Q[q % 2])
    s, b = _canon_sign(a)
    return mul(const(s), mk("sin", b))


def cos(a):
    q = _pi_multiple(a)
    if q is not None and (q + Fraction(1, 2)) % 2 in _SIN_Q:
        return const(_SIN_Q[(q + Fraction(1, 2)) % 2])
    _, b = _canon_sign(a)
    return mk("cos", b)


def tan(a):
    return div(sin(a), cos(a))


def _canon_sign(a):
    p = nf(a)
    if not p:
        return 1, a
    lead = p[min(p)]
    if lead < 0:
        return -1, nf_to_node({m: -c for m, c in p.items()})
    return 1, nf_to_node(p)


def ite(c, a, b):
    """Value a where the atomic condition c holds, else b."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    return mk("ite", c.rel, c.d, a, b)


def fun(name, *args):
    """Uninterpreted function of real arguments."""
    return mk("uf", name, *args)


# ---------------------------------------------------- polynomial form ------
# polynomial: {monomial: Fraction}; monomial: tuple of (atom node id, exponent)

ATOMS = {}
_NFLIMIT = [60000]


class NFTooBig(EncodingError):
    pass


def _padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


DEADLINE = [None]


def _pmul(p, q):
    if len(p) * len(q) > 20 * _NFLIMIT[0]:
        raise NFTooBig()
    if DEADLINE[0] is not None and _time.time() > DEADLINE[0]:
        raise NFTooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    # sqrt(x)^2 -> x
    bad = [m for m in r if any(e >= 2 and ATOMS[a].op == "sqrt" for a, e in m)]
    if bad:
        for m in bad:
            c = r.pop(m)
            rest, fac = [], {(): Fraction(1)}
            for a, e in m:
                n = ATOMS[a]
                if n.op == "sqrt" and e >= 2:
                    for _ in range(e // 2):
                        fac = _pmul(fac, nf(n.args[0]))
                    if e % 2:
                        rest.append((a, 1))
                else:
                    rest.append((a, e))
            fac = _pmul(fac, {tuple(rest): c})
            r = _padd(r, fac)
    if len(r) > _NFLIMIT[0]:
        raise NFTooBig()
    return r


def _atom(n):
    ATOMS[n.id] = n
    return {((n.id, 1),): Fraction(1)}


def nf(n):
    if n._nf is not None:
        return n._nf
    # iterative post-order to avoid deep recursion
    stack = [(n, False)]
    while stack:
        x, done = stack.pop()
        if x._nf is not None:
            continue
        if not done:
            stack.append((x, True))
            for a in x.args:
                if isinstance(a, Node) and a._nf is None:
                    stack.append((a, False))
            continue
        x._nf = _nf1(x)
    return n._nf


def _nf1(x):
    op = x.op
    if op == "c":
        return {(): x.args[0]} if x.args[0] else {}
    if op in ("v", "pi", "inf"):
        return _atom(x)
    if op == "+":
        return _padd(x.args[0]._nf, x.args[1]._nf)
    if op == "*":
        return _pmul(x.args[0]._nf, x.args[1]._nf)
    if op == "inv":
        p = x.args[0]._nf
        if len(p) == 1:            # single monomial: invert factor by factor
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c} if m else {(): 1 / c}
        k, q = _primitive(p)
        a = mk("inv", nf_to_node(q))
        # inv(q) as q^-1 of a defined name, so that q-name and its inverse cancel
        r = _atom(a)
        return {m: c / k for m, c in r.items()}
    if op == "sqrt":
        p = x.args[0]._nf
        if not p:
            return {}
        k, q = _primitive(p)
        if k < 0:
            k, q = -k, {m: -c for m, c in q.items()}
        rk = sqrt(const(k))
        if rk.op == "c":
            root = _monomial_root(q)
            if root is not None:
                return {m: c * rk.args[0] for m, c in root.items()}
            r = _atom(mk("sqrt", nf_to_node(q)))
            return {m: c * rk.args[0] for m, c in r.items()}
        return _atom(mk("sqrt", nf_to_node(p)))
    if op in ("sin", "cos"):
        return _atom(mk(op, nf_to_node(x.args[0]._nf)))
    if op == "uf":
        return _atom(mk("uf", x.args[0], *[nf_to_node(a._nf) for a in x.args[1:]]))
    if op == "ite":
        d, a, b = [nf_to_node(a._nf) for a in x.args[1:]]
        return a._nf if a is b else _atom(mk("ite", x.args[0], d, a, b))
    raise EncodingError("nf of " + op)


def _monomial_root(q):
    """sqrt of s^2 where s is a non-negative atom (sqrt atom): not needed in general."""
    if len(q) != 1:
        return None
    (m, c), = q.items()
    if c != 1 or not m:
        return None
    for a, e in m:
        if e % 2 or ATOMS[a].op != "sqrt":
            return None
    return {tuple((a, e // 2) for a, e in m): Fraction(1)}


def _primitive(p):
    lead = p[min(p)]
    return lead, ({m: c / lead for m, c in p.items()} if lead != 1 else p)


_NF2N = {}


def nf_to_node(p):
    key = tuple(sorted(p.items()))
    n = _NF2N.get(key)
    if n is None:
        n = ZERO
        for m, c in key:
            t = const(c)
            for a, e in m:
                x = ATOMS[a]
                if e < 0:
                    x, e = mk("inv", x), -e
                for _ in range(e):
                    t = mul(t, x)
            n = add(n, t)
        _NF2N[key] = n
        if n._nf is None:
            n._nf = p
    return n


# ------------------------------------------------------------ evaluation ---

def evalf(n, env, ufs=None, memo=None):
    """Evaluate in floating point.  env: variable name -> float."""
    memo = {} if memo is None else memo
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Node) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        op = x.op
        A = [memo[a.id] for a in x.args if isinstance(a, Node)]
        try:
            if op == "c":
                v = float(x.args[0])
            elif op == "v":
                v = env[x.args[0]]
            elif op == "pi":
                v = PI_F
            elif op == "inf":
                v = float("inf")
            elif op == "+":
                v = A[0] + A[1]
            elif op == "*":
                v = A[0] * A[1]
            elif op == "inv":
                v = 1.0 / A[0]
            elif op == "sqrt":
                v = math.sqrt(A[0]) if A[0] > 0 else (0.0 if A[0] > -1e-9 else float("nan"))
            elif op == "sin":
                v = math.sin(A[0])
            elif op == "cos":
                v = math.cos(A[0])
            elif op == "uf":
                v = ((ufs or {}).get(x.args[0]) or REAL_UFS.get(x.args[0]) or default_uf(x.args[0]))(*A)
            elif op == "ite":
                r, d = x.args[0], A[0]
                v = A[1] if (d < 0 if r == "<" else d <= 0 if r == "<=" else d == 0 if r == "==" else d != 0) else A[2]
            else:
                raise EncodingError("eval " + op)
        except (ZeroDivisionError, OverflowError, ValueError):
            v = float("nan")
        memo[x.id] = v
    return memo[n.id]


REAL_UFS = {"arcsin": math.asin, "arccos": math.acos, "arctan": math.atan, "arctan2": math.atan2, "exp": math.exp, "log": math.log}


def default_uf(name):
    import zlib
    seed = zlib.crc32(name.encode()) % 1000 / 1000.0

    def f(*a):
        t = seed
        for i, x in enumerate(a):
            t += math.sin(0.37 * (i + 1) + seed * 3 + 0.21 * x) + 0.05 * x
        return t
    return f


def subst(n, mapping, memo=None):
    """Replace nodes (by id) by other nodes."""
    memo = {} if memo is None else memo
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.id in mapping:
            memo[x.id] = mapping[x.id]
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Node) and a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        A = [memo[a.id] if isinstance(a, Node) else a for a in x.args]
        if all(p is q for p, q in zip(A, x.args)):
            memo[x.id] = x
        else:
            memo[x.id] = rebuild(x.op, A)
    return memo[n.id]


def rebuild(op, A):
    if op == "+":
        return add(*A)
    if op == "*":
        return mul(*A)
    if op == "inv":
        return div(ONE, A[0])
    if op == "sqrt":
        return sqrt(A[0])
    if op == "sin":
        return sin(A[0])
    if op == "cos":
        return cos(A[0])
    return mk(op, *A)


def walk(roots):
    seen, out, stack = set(), [], list(roots)
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        stack.extend(a for a in x.args if isinstance(a, Node))
    return out


def variables(roots):
    return sorted({x.args[0] for x in walk(roots) if x.op == "v"})


def show(n, depth=6):
    if n.op == "c":
        return str(n.args[0])
    if n.op == "v":
        return n.args[0]
    if n.op in ("pi", "inf"):
        return n.op
    if depth == 0:
        return "..."
    s = [show(a, depth - 1) if isinstance(a, Node) else str(a) for a in n.args]
    if n.op in "+*":
        return "(" + f" {n.op} ".join(s) + ")"
    return f"{n.op}({', '.join(s)})"


# ---------------------------------------------------------------- values ---

def node(x):
    """Node of a value, or None when it is not a number."""
    if isinstance(x, Sym):
        return x.n
    if isinstance(x, SymInt):
        return x.n
    if isinstance(x, Node):
        return x
    if isinstance(x, (bool, int, float, Fraction)):
        return from_float(x)
    import numpy as np
    if isinstance(x, np.integer):
        return const(int(x))
    if isinstance(x, np.floating):
        return from_float(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return node(x.item())
    return None


def _is_array(x):
    import numpy as np
    return isinstance(x, np.ndarray) and x.ndim > 0


def _elementwise(g, self, other):
    import numpy as np
    out = np.empty(other.shape, dtype=object)
    for i in np.ndindex(*other.shape):
        out[i] = g(self, other[i])
    return out


def _bin(f, rev=False):
    def g(self, other):
        if _is_array(other):
            return _elementwise(g, self, other)
        o = node(other)
        if o is None:
            return NotImplemented
        a, b = (o, self.n) if rev else (self.n, o)
        return Sym(f(a, b))
    return g


def _cmp(rel):
    def g(self, other):
        if _is_array(other):
            import numpy as np
            return np.array([bool(g(self, x)) for x in other.reshape(-1)], dtype=bool).reshape(other.shape)
        o = node(other)
        if o is None:
            if rel == "==":
                return False
            if rel == "!=":
                return True
            return NotImplemented
        return compare(rel, self.n, o)
    return g


def compare(rel, a, b):
    """SymBool (or bool) for a rel b."""
    d = sub(a, b)
    if any(x.op == "inf" for x in (a, b)) or _neginf(a) or _neginf(b):
        va, vb = _infval(a), _infval(b)
        return {"<": va < vb, "<=": va <= vb, "==": va == vb, "!=": va != vb}[rel] if rel in ("<", "<=", "==", "!=") \
            else ({">": va > vb, ">=": va >= vb}[rel])
    if d.op == "c":
        v = d.args[0]
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[rel]
    if rel == ">":
        return SymBool("<", neg(d))
    if rel == ">=":
        return SymBool("<=", neg(d))
    return SymBool(rel, d)


def _neginf(a):
    return a.op == "*" and a.args[1] is INF


def _infval(a):
    return math.inf if a.op == "inf" else (-math.inf if _neginf(a) else 0.0)


def _truediv(a, b):
    if b.op != "c":
        from . import explore
        explore.note_divisor(b)
    return div(a, b)


def powi(a, k):
    if isinstance(k, Node):
        if k.op != "c":
            raise EncodingError("symbolic exponent")
        k = k.args[0]
    k = Fraction(k)
    if k == Fraction(1, 2):
        return sqrt(a)
    if k == Fraction(-1, 2):
        return div(ONE, sqrt(a))
    if k.denominator != 1:
        raise EncodingError("fractional exponent")
    k = int(k)
    r = ONE
    for _ in range(abs(k)):
        r = mul(r, a)
    return r if k >= 0 else div(ONE, r)


class Sym(float):
    """Symbolic real number."""
    __array_ufunc__ = None

    def __new__(cls, n):
        self = float.__new__(cls, float("nan"))
        self.n = n
        return self

    __add__, __radd__ = _bin(add), _bin(add, True)
    __sub__, __rsub__ = _bin(sub), _bin(sub, True)
    __mul__, __rmul__ = _bin(mul), _bin(mul, True)
    __truediv__, __rtruediv__ = _bin(_truediv), _bin(_truediv, True)
    __lt__, __le__, __gt__, __ge__ = _cmp("<"), _cmp("<="), _cmp(">"), _cmp(">=")
    __eq__, __ne__ = _cmp("=="), _cmp("!=")

    def __pow__(self, k, mod=None):
        k = node(k)
        if k is None:
            return NotImplemented
        return Sym(powi(self.n, k))

    def __rpow__(self, other):
        raise EncodingError("symbolic exponent")

    def __neg__(self):
        return Sym(neg(self.n))

    def __pos__(self):
        return self

    def __abs__(self):
        from . import explore
        return explore.sym_abs(self)

    def __hash__(self):
        return hash(self.n.id)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise EncodingError("symbolic value converted to float")

    def __int__(self):
        raise EncodingError("symbolic value converted to int")

    __trunc__ = __int__
    __round__ = lambda self, *a: (_ for _ in ()).throw(EncodingError("round"))

    def __floor__(self):
        from . import explore
        return explore.sym_floor(self)

    def __ceil__(self):
        from . import explore
        return explore.sym_ceil(self)

    def __floordiv__(self, o):
        q = self / o
        return Sym((q if isinstance(q, Sym) else Sym(node(q))).__floor__().n)

    def __rfloordiv__(self, o):
        return Sym((o / self).__floor__().n)

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def __format__(self, spec):
        return "<" + show(self.n, 4) + ">"

    def __repr__(self):
        return "Sym(" + show(self.n, 4) + ")"

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EncodingError("pickle")

    def is_integer(self):
        raise EncodingError("is_integer")

    # numpy calls these for ufuncs on object arrays
    def sqrt(self):
        return Sym(sqrt(self.n))

    def sin(self):
        return Sym(sin(self.n))

    def cos(self):
        return Sym(cos(self.n))

    def tan(self):
        return Sym(tan(self.n))

    def deg2rad(self):
        return Sym(mul(self.n, mul(const(Fraction(1, 180)), PI)))

    radians = deg2rad

    def rad2deg(self):
        return Sym(mul(self.n, div(const(180), PI)))

    degrees = rad2deg

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def ceil(self):
        from . import explore
        return explore.sym_ceil(self)

    def floor(self):
        from . import explore
        return explore.sym_floor(self)

    def fabs(self):
        return abs(self)


def _ibin(f, rev=False):
    def g(self, other):
        if _is_array(other):
            return _elementwise(g, self, other)
        o = node(other)
        if o is None:
            return NotImplemented
        a, b = (o, self.n) if rev else (self.n, o)
        r = f(a, b)
        if isinstance(other, (SymInt, int)) and not isinstance(other, Sym):
            return SymInt(r) if r.op != "c" else int(r.args[0])
        return Sym(r)
    return g


class SymInt(int):
    """Symbolic integer.  Becomes concrete (by solver-driven case split) as an index."""
    __array_ufunc__ = None

    def __new__(cls, n):
        self = int.__new__(cls, 0x5EED5EED)
        self.n = n
        return self

    __add__, __radd__ = _ibin(add), _ibin(add, True)
    __sub__, __rsub__ = _ibin(sub), _ibin(sub, True)
    __mul__, __rmul__ = _ibin(mul), _ibin(mul, True)
    __truediv__, __rtruediv__ = _bin(_truediv), _bin(_truediv, True)
    __lt__, __le__, __gt__, __ge__ = _cmp("<"), _cmp("<="), _cmp(">"), _cmp(">=")
    __eq__, __ne__ = _cmp("=="), _cmp("!=")

    def __neg__(self):
        return SymInt(neg(self.n))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(self.n.id)

    def concrete(self):
        from . import explore
        return explore.concretise(self)

    def __index__(self):
        return self.concrete()

    __int__ = __trunc__ = __index__

    def __float__(self):
        raise EncodingError("symbolic int converted to float")

    def __floordiv__(self, o):
        return self.concrete() // o

    def __mod__(self, o):
        return self.concrete() % o

    def __divmod__(self, o):
        return divmod(self.concrete(), o)

    def __pow__(self, o, m=None):
        return self.concrete() ** o

    def __abs__(self):
        return -self if self < 0 else self

    def __ceil__(self):
        return self

    __floor__ = __round__ = __ceil__

    def __format__(self, spec):
        return "<" + show(self.n, 4) + ">"

    def __repr__(self):
        return "SymInt(" + show(self.n, 4) + ")"

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool:
    """A condition over terms: rel(d, 0), or a boolean combination."""
    __slots__ = ("rel", "d")

    def __init__(self, rel, d):
        self.rel, self.d = rel, d

    def __bool__(self):
        from . import explore
        return explore.decide(self)

    def __and__(self, o):
        if isinstance(o, (bool,)) or type(o).__name__ == "bool_":
            return self if o else False
        return SymBool("and", (self, o))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool,)) or type(o).__name__ == "bool_":
            return True if o else self
        return SymBool("or", (self, o))

    __ror__ = __or__

    def __invert__(self):
        return lnot(self)

    def logical_not(self):
        return lnot(self)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if isinstance(o, bool) or type(o).__name__ == "bool_":
            return bool(self) == bool(o)
        return self is o

    def __repr__(self):
        if isinstance(self.d, Node):
            return f"({show(self.d, 5)} {self.rel} 0)"
        return f"{self.rel}{self.d}"

    def roots(self):
        if isinstance(self.d, Node):
            return [self.d]
        return [r for x in self.d if isinstance(x, SymBool) for r in x.roots()]


_NEG = {"<": "<=", "<=": "<", "==": "!=", "!=": "=="}


def lnot(c):
    if isinstance(c, bool) or type(c).__name__ == "bool_":
        return not c
    if c.rel in ("==", "!="):
        return SymBool(_NEG[c.rel], c.d)
    if c.rel in ("<", "<="):
        return SymBool(_NEG[c.rel], neg(c.d))
    if c.rel == "and":
        return lor(*[lnot(x) for x in c.d])
    return land(*[lnot(x) for x in c.d])


def land(*cs):
    out = []
    for c in cs:
        if isinstance(c, SymBool):
            out.append(c)
        elif not c:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def lor(*cs):
    out = []
    for c in cs:
        if isinstance(c, SymBool):
            out.append(c)
        elif c:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def sv(name):
    return Sym(var(name))


def subst_bool(c, mapping, memo=None):
    if not isinstance(c, SymBool):
        return c
    if isinstance(c.d, Node):
        return SymBool(c.rel, subst(c.d, mapping, memo))
    return SymBool(c.rel, tuple(subst_bool(x, mapping, memo) for x in c.d))


def eval_bool(c, env, ufs=None, memo=None, slack=0.0):
    if not isinstance(c, SymBool):
        return bool(c)
    memo = {} if memo is None else memo
    if c.rel == "and":
        return all(eval_bool(x, env, ufs, memo, slack) for x in c.d)
    if c.rel == "or":
        return any(eval_bool(x, env, ufs, memo, slack) for x in c.d)
    v = evalf(c.d, env, ufs, memo)
    if v != v:
        return False
    return {"<": v < slack, "<=": v <= slack, "==": abs(v) <= slack or v == 0, "!=": v != 0}[c.rel]


def reset():
    """Forget all terms (between independent runs)."""
    _TABLE.clear()
    ATOMS.clear()
    _NF2N.clear()
    for n in (ZERO, ONE, PI, INF):
        n._nf = None
        key = (n.op,) + tuple(("#", a) for a in n.args)
        _TABLE[key] = n
