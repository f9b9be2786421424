"""
Path-forking symbolic execution by re-execution.

A harness is a function of one argument, the run `h`.  In symbolic mode
`h.real` returns a symbolic number, every branch of the code on a symbolic
condition asks the solver which sides are possible under the path condition and
both are explored, and `h.eq` / `h.holds` are obligations that the solver has
to discharge for all values on the path.  In concrete mode the same harness
runs the real, unmodified code with given numbers; this is how counterexamples
are replayed and how the encoding is validated.
"""
import itertools
import math
import random
import time

from . import solve, term
from .term import EncodingError, Node, Sym, SymBool, SymInt, const, lnot


class Infeasible(BaseException):
    """The assumptions contradict the path."""


class Truncated(BaseException):
    """The path leaves the stated bounds."""


class Retry(BaseException):
    """Follow mode: the guide point does not satisfy the assumptions."""


class Discard(BaseException):
    """Concrete mode: the sample does not satisfy the assumptions."""


class ReplayViolation(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


_CUR = [None]


def current():
    return _CUR[0]


def _need():
    r = _CUR[0]
    if r is None or not r.symbolic:
        raise EncodingError("symbolic value used outside a symbolic run")
    return r


def decide(c):
    return _need().decide(c)


def note_divisor(b):
    r = _CUR[0]
    if r is not None and r.symbolic:
        r.divisor(b)


def sym_abs(x):
    if x.n.op == "sqrt":
        return x
    if getattr(_need(), "soft_abs", False):
        return Sym(term.absn(x.n))
    return x if x >= 0 else -x


def sym_ceil(x):
    return _need().rounded(x, up=True)


def sym_floor(x):
    return _need().rounded(x, up=False)


def concretise(n):
    return _need().concretise(n)


# -------------------------------------------------------------------- run --

class Run:
    INT_LO, INT_HI = -1, 8

    def __init__(self, symbolic, prefix=(), env=None, choices=None, stats=None, rng=None, linear=False, guide=None):
        self.symbolic = symbolic
        self.guide = {} if guide is not None else None    # follow mode: the point whose path is taken
        self.grng = guide
        self.prefix = list(prefix)
        self.trace = []              # decisions taken: (value, alternatives)
        self.pc = []                 # path condition
        self.env = env               # concrete mode: variable values
        self.choices = []            # (name, option) as chosen
        self.given_choices = list(choices or [])
        self.vars = {}               # name -> (lo, hi)
        self.derived = []            # (name, function of env)
        self.obligations = []
        self.observed = []           # (label, value) for validation
        self.divisors = []
        self.stats = stats if stats is not None else {}
        self.known = {}
        self.bounds = {}             # atom -> [lower, strict, upper, strict]
        self.rng = rng
        self.fresh = itertools.count()
        self.solver = solve.PathSolver(linear=linear) if symbolic else None
        self.tol = 1e-6
        self.notes = {}

    # ----- inputs -----

    def real(self, name, lo=-10, hi=10, ne0=False):
        if not self.symbolic:
            if name not in self.env:     # the real code took another path: any value will do
                self.env[name] = float(-8 if lo is None else lo) * 0.37 + float(8 if hi is None else hi) * 0.63
            return self.env[name]
        if name not in self.vars:
            self.vars[name] = (lo, hi)
            if self.guide is not None:
                self.guide[name] = self.grng.uniform(-8.0 if lo is None else float(lo), 8.0 if hi is None else float(hi))
            v = term.var(name)
            if lo is not None:
                self._add(SymBool("<=", term.sub(term.from_float(lo), v)))
            if hi is not None:
                self._add(SymBool("<=", term.sub(v, term.from_float(hi))))
        return Sym(term.var(name))

    def reals(self, name, n, lo=-10, hi=10):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def array(self, name, shape, lo=-10, hi=10):
        """Array of inputs (object array of terms, or a plain float array)."""
        import numpy as np
        a = np.empty(shape, dtype=object if self.symbolic else float)
        for i in np.ndindex(*a.shape):
            a[i] = self.real(name + "." + ".".join(map(str, i)), lo, hi)
        return a

    def const_array(self, values):
        """Array of given numbers, in the representation of the current mode."""
        import numpy as np
        a = np.array(values, dtype=float)
        if self.symbolic:
            b = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                b[i] = float(a[i])
            return b
        return a

    def frac(self, p, q=1):
        """The rational number p/q."""
        from fractions import Fraction
        return Sym(const(Fraction(p, q))) if self.symbolic else p / q

    def empty(self, shape, stale="stale"):
        """Uninitialised array: arbitrary old contents."""
        return self.array(stale, shape)

    def point(self, name, lo=-10, hi=10):
        return [self.real(f"{name}.{c}", lo, hi) for c in "xyz"]

    def integer(self, name, lo, hi):
        """A symbolic integer in [lo, hi]."""
        if not self.symbolic:
            return int(round(self.env.setdefault('int!' + name, hi)))
        self.vars['int!' + name] = (lo, hi, "int")
        if self.guide is not None:
            self.guide['int!' + name] = float(self.grng.randint(lo, hi))
        v = mkint(name)
        self._add(SymBool("<=", term.sub(const(lo), v)))
        self._add(SymBool("<=", term.sub(v, const(hi))))
        return SymInt(v)

    def choose(self, name, options):
        """Nondeterministic choice of a finite configuration parameter."""
        options = list(options)
        if not self.symbolic:
            k = len(self.choices)
            nm, i = self.given_choices[k] if k < len(self.given_choices) else (name, 0)
            if nm != name:
                i = 0
            self.choices.append((name, i))
            return options[i]
        k = len(self.trace)
        i = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((i, list(range(i + 1, len(options))) if k >= len(self.prefix) else []))
        self.choices.append((name, i))
        return options[i]

    def flag(self, name):
        return self.choose(name, [False, True])

    # ----- assumptions and decisions -----

    def _add(self, c):
        self.pc.append(c)
        if self.guide is None:
            self.solver.add(c)
        self._bound(c)

    def _bound(self, c):
        """Remember bounds of single atoms."""
        if c.rel not in ("<", "<="):
            return
        try:
            p = term.nf(c.d)
        except term.NFTooBig:
            return
        if len(p) > 2:
            return
        m = next((m for m in p if m), None)
        if m is None or len(m) != 1 or m[0][1] != 1 or (len(p) == 2 and () not in p):
            return
        k, r, strict = p[m], p.get((), 0), c.rel == "<"
        b = self.bounds.setdefault(m[0][0], [None, False, None, False])
        v = -r / k
        if k < 0:
            if b[0] is None or v > b[0] or (v == b[0] and strict):
                b[0], b[1] = v, strict
        elif b[2] is None or v < b[2] or (v == b[2] and strict):
            b[2], b[3] = v, strict

    def _atom_sign(self, i):
        """(sign, strict) of an atom or None."""
        b = self.bounds.get(i)
        if b is not None:
            if b[0] is not None and b[0] >= 0:
                return 1, b[0] > 0 or b[1]
            if b[2] is not None and b[2] <= 0:
                return -1, b[2] < 0 or b[3]
        if term.ATOMS[i].op == "sqrt":
            return 1, False
        return None

    def _sign(self, c):
        """Value of a comparison whose two sides differ by a sum of terms of one sign, or None."""
        if c.rel in ("and", "or"):
            return None
        try:
            p = term.nf(c.d)
        except term.NFTooBig:
            return None
        if len(p) > 12:
            return None
        total, strict = 0, False
        for m, k in p.items():
            s, st = (1 if k > 0 else -1), True
            for i, e in m:
                a = self._atom_sign(i)
                if e % 2:
                    if a is None:
                        return None
                    s *= a[0]
                st = st and a is not None and a[1]
            if total and s != total:
                return None
            total, strict = s, strict or st
        if not total:
            return None
        if strict:
            return {"<": total < 0, "<=": total < 0, "==": False, "!=": True}[c.rel]
        if c.rel == "<" and total > 0:
            return False
        if c.rel == "<=" and total < 0:
            return True
        return None

    def assume(self, c):
        if not self.symbolic:
            if not c:
                raise Discard()
            return
        if isinstance(c, SymBool):
            k, v = self._known(c)
            if self.guide is not None and not self._guided(c):
                raise Retry()
            if v is None:
                self._learn(k, True)
                self._add(c)
            elif not v:
                raise Infeasible()
        elif not c:
            raise Infeasible()

    def _guided(self, c):
        ufs = getattr(self, "ufs", None)
        if not hasattr(self, "gmemo"):
            self.gmemo = {}
        return term.eval_bool(c, self.guide, ufs, self.gmemo)

    def feasible(self):
        if self.guide is not None:
            return True
        return self.solver.check() != "unsat"

    def _known(self, c):
        """Canonical key of an atomic condition and its value if already settled."""
        if c.rel in ("and", "or"):
            return None, None
        try:
            p = term.nf(c.d)
        except term.NFTooBig:
            return ("raw", c.rel, c.d.id), self.known.get(("raw", c.rel, c.d.id))
        if not p or (len(p) == 1 and () in p):
            v = p.get((), 0)
            return None, {"<": v < 0, "<=": v <= 0, "==": v == 0, "!=": v != 0}[c.rel]
        k0, q = term._primitive(p)
        q = tuple(sorted(q.items()))
        rel = c.rel
        if k0 < 0 and rel in ("<", "<="):
            rel = {"<": ">", "<=": ">="}[rel]
        key = (rel, q)
        return key, self.known.get(key)

    _OPP = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
    _IMPL = {"<": ["<=", "!="], ">": [">=", "!="], "==": ["<=", ">="]}

    def _learn(self, key, val):
        if key is None:
            return
        if key[0] == "raw":
            self.known[key] = val
            return
        rel, q = key
        if not val:
            rel = self._OPP[rel]
        for r in [rel] + self._IMPL.get(rel, []):
            self.known[(r, q)] = True
            self.known[(self._OPP[r], q)] = False

    def decide(self, c):
        if isinstance(c, bool):
            return c
        key, v = self._known(c)
        if v is None:
            v = self._sign(c)
            if v is not None:
                self._learn(key, v)
        if v is not None:
            return v
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trace.append((v, []))
        elif self.guide is not None:
            v = self._guided(c)
            self.trace.append((v, []))
        else:
            if k > 4000:
                raise EncodingError("too many branches on one path")
            t = self.solver.check(c)
            f = self.solver.check(lnot(c)) if t != "unsat" else "sat"
            self.stats["branch_queries"] = self.stats.get("branch_queries", 0) + (1 if t == "unsat" else 2)
            if t == "unsat":
                v, alt = False, []
            elif f == "unsat":
                v, alt = True, []
            else:
                v, alt = True, [False]
            self.trace.append((v, alt))
        self._learn(key, v)
        self._add(c if v else lnot(c))
        return v

    def divisor(self, b):
        self.divisors.append(b)

    def rounded(self, x, up):
        name = f"int!{'ceil' if up else 'floor'}{next(self.fresh)}"
        v = mkint(name)
        x = term.node(x)
        if up:
            self._add(SymBool("<=", term.sub(x, v)))
            self._add(SymBool("<", term.sub(v, term.add(x, term.ONE))))
        else:
            self._add(SymBool("<=", term.sub(v, x)))
            self._add(SymBool("<", term.sub(x, term.add(v, term.ONE))))
        self.derived.append((name, x, up))
        if self.guide is not None:
            v0 = term.evalf(x, self.guide, getattr(self, "ufs", None))
            self.guide[name] = float(math.ceil(v0 - 1e-12) if up else math.floor(v0 + 1e-12))
        return SymInt(v)

    def concretise(self, n):
        p = term.nf(n.n)
        if not p or (len(p) == 1 and () in p):
            return int(p.get((), 0))
        if term.nf(n.n) != {next((m for m in p if m), ()): 1} and all(len(m) == 1 and m[0][1] == 1 and term.ATOMS[m[0][0]].op == "v" for m in p if m):
            # a sum of integers: one after the other
            t = p.get((), 0)
            for m, c in p.items():
                if m:
                    t += c * self.concretise(SymInt(term.ATOMS[m[0][0]]))
            return int(t)
        for v in range(self.INT_LO, self.INT_HI + 1):
            if self.decide(SymBool("==", term.sub(n.n, const(v)))):
                return v
        self.notes["truncated"] = f"integer outside [{self.INT_LO}, {self.INT_HI}]"
        raise Truncated()

    # ----- obligations -----

    def holds(self, label, c, site=None, info=None):
        if not self.symbolic:
            if not c:
                raise ReplayViolation(label, info or "condition is false")
            return
        self.obligations.append(Obligation(label, c, len(self.pc), site))

    def eq(self, label, a, b, tol=None):
        """a == b for numbers, (nested) sequences, arrays, dicts, strings, None."""
        import numpy as np
        if isinstance(a, np.ndarray):
            a = a.tolist() if a.ndim else a.item()
        if isinstance(b, np.ndarray):
            b = b.tolist() if b.ndim else b.item()
        if isinstance(a, dict) and isinstance(b, dict):
            self.holds(label + ".keys", set(a) == set(b), info=f"{sorted(map(str, a))} != {sorted(map(str, b))}")
            for k in a:
                if k in b:
                    self.eq(f"{label}.{k}", a[k], b[k], tol)
            return
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            self.holds(label + ".len", len(a) == len(b), info=f"{len(a)} != {len(b)}")
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq(f"{label}[{i}]", x, y, tol)
            return
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            a, b = bool(a), bool(b)
        if not self.symbolic:
            if _nonfinite(a) and _nonfinite(b):
                return          # undefined in the specification as well
            if not close(a, b, tol or self.tol):
                raise ReplayViolation(label, f"{a!r} != {b!r}")
            return
        na, nb = _num(a), _num(b)
        if na is None or nb is None:
            c = (na is None) == (nb is None) and a == b
        else:
            c = term.compare("==", na, nb)
        self.obligations.append(Obligation(label, c, len(self.pc), None, (na, nb)))

    def observe(self, label, v):
        """Record a value of the code: compared with the real code during validation."""
        self.observed.append((label, v))

    def raised(self, fn, *a, **k):
        """Call fn; return the exception it raised, or None."""
        try:
            fn(*a, **k)
        except Exception as e:
            return e
        return None


def _num(x):
    if x is None or isinstance(x, str):
        return None
    return term.node(x)


def _nonfinite(x):
    return isinstance(x, float) and not math.isfinite(x)


def close(a, b, tol):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if fa != fa or fb != fb:
        return False
    return abs(fa - fb) <= tol * (1.0 + abs(fa) + abs(fb))


def mkint(name):
    return term.mk("v", name if name.startswith("int!") else "int!" + name)


class Obligation:
    __slots__ = ("label", "cond", "npc", "site", "sides")

    def __init__(self, label, cond, npc, site, sides=None):
        self.label, self.cond, self.npc, self.site, self.sides = label, cond, npc, site, sides


def run_symbolic(harness, prefix, stats, linear=False):
    r = Run(True, prefix, stats=stats, linear=linear)
    _CUR[0] = r
    status = "ok"
    try:
        harness(r)
    except Infeasible:
        status = "infeasible"
    except Truncated:
        status = "truncated"
    finally:
        _CUR[0] = None
    return r, status


def run_concrete(harness, env, choices, tol=1e-6):
    """Run the real code.  Returns (violation label or None, detail, run)."""
    env = dict(env)
    r = Run(False, env=env, choices=choices)
    r.tol = tol
    _CUR[0] = r
    try:
        harness(r)
    except ReplayViolation as v:
        return v.label, v.detail, r
    finally:
        _CUR[0] = None
    return None, None, r
