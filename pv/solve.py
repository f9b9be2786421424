"""
Solver interface: terms and conditions to z3, path feasibility, proof and
refutation of obligations.
"""
import math
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3

from . import term
from .term import EncodingError, Node, SymBool, const, lnot

z3.set_param("memory_max_size", 3000)
FEAS_MS = 400
STATS = {"queries": 0, "solver_s": 0.0, "unsat": 0, "sat": 0, "unknown": 0}


def _check(s, *a):
    t = time.time()
    try:
        r = str(s.check(*a))
    except z3.Z3Exception:
        r = "unknown"
    STATS["solver_s"] += time.time() - t
    STATS["queries"] += 1
    STATS[r] += 1
    return r


class Enc:
    """Terms to z3 expressions.  Non-polynomial subterms become real variables
    (one per canonical argument), with defining axioms kept aside."""

    def __init__(self, cuts=None):
        self.memo = {}
        self.atoms = {}     # canonical atom node id -> (z3 var, atom node)
        self.vars = {}
        self.cuts = cuts or {}

    def expr(self, n):
        memo = self.memo
        if n.id in memo:
            return memo[n.id]
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.id in self.cuts:
                memo[x.id] = z3.Real(f"cut{x.id}")
                stack.pop()
                continue
            if x.op in ("+", "*"):
                todo = [a for a in x.args if a.id not in memo]
                if todo:
                    stack.extend(todo)
                    continue
            stack.pop()
            memo[x.id] = self._one(x)
        return memo[n.id]

    def _one(self, x):
        op = x.op
        if op == "c":
            v = x.args[0]
            return z3.Q(v.numerator, v.denominator) if v.denominator != 1 else z3.RealVal(v.numerator)
        if op == "v":
            name = x.args[0]
            if name not in self.vars:
                self.vars[name] = z3.Int(name) if name.startswith("int!") else z3.Real(name)
            v = self.vars[name]
            return z3.ToReal(v) if name.startswith("int!") else v
        if op == "+":
            return self.memo[x.args[0].id] + self.memo[x.args[1].id]
        if op == "*":
            return self.memo[x.args[0].id] * self.memo[x.args[1].id]
        if op == "pi":
            self.atoms.setdefault(x.id, (z3.Real("pi"), x))
            return self.atoms[x.id][0]
        if op == "inf":
            raise EncodingError("infinity in a formula")
        if op == "ite":
            return z3.If(self.cond(SymBool(x.args[0], x.args[1])), self.expr(x.args[2]), self.expr(x.args[3]))
        # inv, sqrt, sin, cos, uf: merge by canonical argument
        try:
            p = term.nf(x)
        except term.NFTooBig:
            return self._atom(x)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                a = term.ATOMS[m[0][0]]
                if a.op == x.op:
                    v = self._atom(a)
                    return v if c == 1 else z3.Q(c.numerator, c.denominator) * v
        if op == "inv":
            # single monomial: product of inverses of its atoms
            if len(p) == 1:
                (m, c), = p.items()
                r = z3.Q(c.numerator, c.denominator)
                for a, e in m:
                    an = term.ATOMS[a]
                    v = self.expr(an) if e > 0 else self._atom(term.mk("inv", an))
                    for _ in range(abs(e)):
                        r = r * v
                return r
            return self._atom(x)
        if not p:
            return z3.RealVal(0)
        n = term.nf_to_node(p)
        if n is x or n.op == x.op:
            return self._atom(n)
        return self.expr(n)

    def _atom(self, a):
        if a.op == "ite":
            return self.expr(a)
        if a.id not in self.atoms:
            self.atoms[a.id] = (z3.Real(f"{a.op}!{a.id}"), a)
        return self.atoms[a.id][0]

    def cond(self, c):
        if not isinstance(c, SymBool):
            return z3.BoolVal(bool(c))
        if c.rel == "and":
            return z3.And([self.cond(x) for x in c.d])
        if c.rel == "or":
            return z3.Or([self.cond(x) for x in c.d])
        e = self.expr(c.d)
        return {"<": e < 0, "<=": e <= 0, "==": e == 0, "!=": e != 0}[c.rel]

    def axioms(self, done=None, guarded=True):
        """Defining axioms of the atoms seen so far (argument terms may add more)."""
        done = set() if done is None else done
        out = []
        while True:
            new = [k for k in self.atoms if k not in done]
            if not new:
                return out
            for k in new:
                done.add(k)
                v, a = self.atoms[k]
                if a.op == "sqrt":
                    e = self.expr(a.args[0])
                    out.append(z3.And(v >= 0, z3.Implies(e >= 0, v * v == e) if guarded else v * v == e))
                elif a.op == "inv":
                    e = self.expr(a.args[0])
                    out.append(z3.Implies(e != 0, v * e == 1) if guarded else v * e == 1)
                elif a.op in ("sin", "cos"):
                    o = term.mk("cos" if a.op == "sin" else "sin", a.args[0])
                    w = self.expr(o)
                    out.append(z3.And(v * v + w * w == 1, v <= 1, v >= -1))
                elif a.op == "pi":
                    out.append(z3.And(v > z3.Q(314159, 100000), v < z3.Q(314160, 100000)))


class LinEnc(Enc):
    """Over-approximation: every product of variables, root, quotient ... is a number of its own
    (one per normalised monomial).  'unsat' still means impossible."""

    def expr(self, n):
        if n.id not in self.memo:
            try:
                p = term.nf(n)
            except term.NFTooBig:
                p = None
            if p is None or any(term.ATOMS[a].op == "ite" for m in p for a, e in m):
                self.memo[n.id] = z3.Real(f"term!{n.id}")
            else:
                r = z3.RealVal(0)
                for m, c in p.items():
                    k = z3.Q(c.numerator, c.denominator)
                    if not m:
                        r = r + k
                    elif len(m) == 1 and m[0][1] == 1 and term.ATOMS[m[0][0]].op == "v":
                        r = r + k * self._one(term.ATOMS[m[0][0]])
                    else:
                        v = z3.Real(f"mono!{m}")
                        if all(e % 2 == 0 or self._nonneg(term.ATOMS[a]) for a, e in m):
                            if m not in self.signs:
                                self.signs[m] = self._root(m, v)
                        elif m not in self.signs:
                            self._angle(m, v)
                        r = r + k * v
                self.memo[n.id] = r
        return self.memo[n.id]

    @staticmethod
    def _nonneg(x):
        return x.op == "sqrt" or (x.op == "inv" and x.args[0].op == "sqrt")

    @staticmethod
    def _root(m, v):
        """Roots are not negative; roots of numbers are known."""
        a = term.ATOMS[m[0][0]]
        if len(m) == 1 and m[0][1] == 1 and a.op == "sqrt":
            c = a.args[0].args[0] if a.args[0].op == "c" else 0
            if c > 0:
                k = 10 ** 6
                r = math.isqrt(int(c * k * k))
                return z3.And(v > z3.Q(max(r - 1, 0), k), v < z3.Q(r + 2, k))
        return v >= 0

    def _angle(self, m, v):
        """Ranges of inverse sines and angles of vectors, also if given in degrees."""
        u = [(term.ATOMS[a], e) for a, e in m]
        if len(u) == 1 and (u[0][0].op == "pi" or u[0][0].op == "inv" and u[0][0].args[0].op == "pi"):
            e = u[0][1] if u[0][0].op == "pi" else -u[0][1]
            if e == 1:
                self.signs[m] = z3.And(v > z3.Q(314159, 100000), v < z3.Q(314160, 100000))
            elif e == -1:
                self.signs[m] = z3.And(v > z3.Q(318309, 1000000), v < z3.Q(318310, 1000000))
        f = [x for x, e in u if x.op == "uf" and e == 1 and x.args[0] in ("arcsin", "arctan2")]
        if len(f) != 1 or len(u) > 2:
            return
        unit = z3.Q(1, 1)
        for x, e in u:
            if x is not f[0]:
                if not (x.op == "pi" and e == -1 or x.op == "inv" and x.args[0].op == "pi" and e == 1):
                    return
                break
        else:
            unit = z3.Q(31416, 10000)
        half = z3.And(2 * v <= unit, -2 * v <= unit)
        if f[0].args[0] == "arcsin":
            self.signs[m] = half
        else:
            right = self.expr(f[0].args[2]) >= 0
            self.signs[m] = z3.And(v <= unit, -v <= unit, z3.Implies(right, half))

    def __init__(self):
        super().__init__()
        self.signs = {}

    def axioms(self, done=None, guarded=True):
        """Roots and even powers are not negative."""
        out = []
        for m, c in list(self.signs.items()):
            if done is None or ("sign", m) not in done:
                if done is not None:
                    done.add(("sign", m))
                out.append(c)
        return out


class PathSolver:
    """Incremental satisfiability of a path condition.  'unsat' is trusted,
    anything else means the path may be possible."""

    def __init__(self, ms=FEAS_MS, linear=False):
        self.enc = LinEnc() if linear else Enc()
        self.s = z3.Solver()
        self.s.set("timeout", ms)
        self.done = set()
        self.lin = True

    def _ax(self):
        for a in self.enc.axioms(self.done):
            self.s.add(a)

    def add(self, c):
        e = self.enc.cond(c)
        self._ax()
        self.s.add(e)

    def check(self, c=None):
        if c is None:
            return _check(self.s)
        e = self.enc.cond(c)
        self._ax()
        self.s.push()
        self.s.add(e)
        r = _check(self.s)
        self.s.pop()
        return r

    def model(self, ms=5000, extra=()):
        self.s.set("timeout", ms)
        self.s.push()
        for c in extra:
            e = self.enc.cond(c)
            self._ax()
            self.s.add(e)
        r = _check(self.s)
        m = None
        if r == "sat":
            m = model_values(self.s.model(), self.enc)
        self.s.pop()
        self.s.set("timeout", FEAS_MS)
        return r, m


def model_values(m, enc):
    out = {}
    for name, v in enc.vars.items():
        x = m.eval(v, model_completion=True)
        out[name] = _zval(x)
    return out


def _zval(x):
    try:
        if z3.is_int_value(x):
            return float(x.as_long())
        if z3.is_rational_value(x):
            return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        if z3.is_algebraic_value(x):
            a = x.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    except Exception:
        pass
    return 0.0


# ------------------------------------------------------------ rewriting ----

def _depth(n, memo={}):
    k = n.id
    if k not in memo:
        memo[k] = 1 + max([_depth(a) for a in n.args if isinstance(a, Node)] or [0])
    return memo[k]


def reset():
    _depth.__defaults__[0].clear()


def clear_denominators(p, limit=200):
    """Multiply a polynomial by its (non-zero) denominators and reduce squares of
    roots and sines.  The result is zero iff p is (where the denominators are not)."""
    for _ in range(limit):
        inv = {}
        negs = {}
        for m in p:
            for a, e in m:
                n = term.ATOMS[a]
                if n.op == "inv" and e > 0:
                    inv[a] = max(inv.get(a, 0), e)
                elif e < 0:
                    negs[a] = max(negs.get(a, 0), -e)
        if negs:
            a = max(negs, key=lambda k: _d(k))
            if not inv or _d(a) >= max(_d(k) for k in inv):
                p = term._pmul(p, {((a, negs[a]),): Fraction(1)})
                p = reduce_trig(p)
                continue
        if not inv:
            return reduce_trig(p)
        a = max(inv, key=_d)
        q = term.nf(term.ATOMS[a].args[0])
        k = inv[a]
        powq = [{(): Fraction(1)}]
        for _i in range(k):
            powq.append(term._pmul(powq[-1], q))
        by = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            rest = tuple((x, y) for x, y in m if x != a)
            by.setdefault(k - e, {})[rest] = c
        r = {}
        for e, part in by.items():
            if e > k:
                raise EncodingError("negative power of an inverse")
            r = term._padd(r, term._pmul(part, powq[e]))
        p = reduce_trig(r)
    raise EncodingError("denominators not cleared")


_DEPTH = {}


def _d(k):
    return _ndepth(term.ATOMS[k])


def _ndepth(n):
    st = [n]
    while st:
        x = st[-1]
        if x.id in _DEPTH:
            st.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Node) and a.id not in _DEPTH]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        _DEPTH[x.id] = 1 + max([_DEPTH[a.id] for a in x.args if isinstance(a, Node)] or [0])
    return _DEPTH[n.id]


def reset():  # noqa: F811
    _DEPTH.clear()


def reduce_trig(p):
    """sin(x)^2 -> 1 - cos(x)^2."""
    while True:
        bad = [m for m in p if any(e >= 2 and term.ATOMS[a].op == "sin" for a, e in m)]
        if not bad:
            return p
        p = dict(p)
        for m in bad:
            c = p.pop(m)
            rest, fac = [], {(): Fraction(1)}
            for a, e in m:
                n = term.ATOMS[a]
                if n.op == "sin" and e >= 2:
                    cs = term._atom(term.mk("cos", n.args[0]))
                    one = term._padd({(): Fraction(1)}, term._pmul(cs, cs), -1)
                    for _ in range(e // 2):
                        fac = term._pmul(fac, one)
                    if e % 2:
                        rest.append((a, 1))
                else:
                    rest.append((a, e))
            p = term._padd(p, term._pmul(fac, {tuple(rest): c}))


# ---------------------------------------------------------------- proof ----

def _atoms_of(c):
    out = set()
    for r in c.roots():
        for x in term.walk([r]):
            if x.op in ("v",):
                out.add(x.id)
    return out


def _relevant(pc, goal, hops=1):
    vs = _atoms_of(goal)
    rest = [(c, _atoms_of(c)) for c in pc if isinstance(c, SymBool)]
    take = []
    for _ in range(hops):
        new = [(c, a) for c, a in rest if a & vs]
        if not new:
            break
        take += [c for c, _ in new]
        rest = [(c, a) for c, a in rest if not (a & vs)]
        for _, a in new:
            vs |= a
    return take


def _solve(pc, goal, ms, axioms=True, tactic=None, want_model=False, guarded=False):
    enc = Enc()
    s = z3.SolverFor("QF_NRA") if tactic == "nra" else z3.Solver()
    s.set("timeout", int(ms))
    s.add(enc.cond(lnot(goal)))
    for c in pc:
        s.add(enc.cond(c))
    if axioms:
        for a in enc.axioms(guarded=guarded):
            s.add(a)
    r = _check(s)
    if r == "sat" and want_model:
        return r, model_values(s.model(), enc)
    return r, None


class AbsEnc(Enc):
    """Every monomial of a normal form becomes a variable; case distinctions stay."""

    def __init__(self):
        super().__init__()
        self.has = {}
        self.mono = {}

    def has_ite(self, n):
        if n.id not in self.has:
            self.has[n.id] = any(x.op == "ite" for x in term.walk([n]))
        return self.has[n.id]

    def expr(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        if not self.has_ite(n):
            e = z3.RealVal(0)
            for m, c in term.nf(n).items():
                if not m:
                    v = z3.RealVal(1)
                else:
                    v = self.mono.setdefault(m, z3.Real(f"mono{len(self.mono)}"))
                e = e + z3.Q(c.numerator, c.denominator) * v
        elif n.op == "+":
            e = self.expr(n.args[0]) + self.expr(n.args[1])
        elif n.op == "*":
            e = self.expr(n.args[0]) * self.expr(n.args[1])
        elif n.op == "ite":
            e = z3.If(self.cond(SymBool(n.args[0], n.args[1])), self.expr(n.args[2]), self.expr(n.args[3]))
        else:
            e = self.mono.setdefault(n.id, z3.Real(f"mono{len(self.mono)}"))
        self.memo[n.id] = e
        return e


def _abstracted(goal):
    enc = AbsEnc()
    s = z3.Solver()
    s.set("timeout", 8000)
    try:
        if goal.rel == "==" and goal.d.op == "+":      # both sides separately, so that the solver compares them
            s.add(enc.expr(goal.d.args[0]) + enc.expr(goal.d.args[1]) != 0)
        else:
            s.add(enc.cond(lnot(goal)))
    except EncodingError:
        return "unknown"
    return _check(s)


def _generalised(goal):
    """Subterms that occur on both sides become free variables (a stronger statement)."""
    if goal.d.op != "+":
        return "unknown"
    x, y = goal.d.args
    common = {n.id for n in term.walk([x])} & {n.id for n in term.walk([y])}
    cut = {}
    for root in (x, y):
        seen, stack = set(), [root]
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.id in common and n.op not in ("c", "v", "pi", "inf") and not (n.op == "*" and n.args[0].op == "c"):
                cut[n.id] = term.var(f"cut!{n.id}")
                continue
            stack.extend(a for a in n.args if isinstance(a, Node))
    if not cut:
        return "unknown"
    try:
        return _abstracted(SymBool("==", term.subst(goal.d, cut)))
    except (EncodingError, ZeroDivisionError, ValueError):
        return "unknown"


def _signs(goal):
    """Inequalities that follow from roots being non-negative."""
    atoms = {}

    def ex(n):
        if n.op == "c":
            return z3.Q(n.args[0].numerator, n.args[0].denominator)
        if n.op == "+":
            return ex(n.args[0]) + ex(n.args[1])
        if n.op == "*":
            return ex(n.args[0]) * ex(n.args[1])
        return atoms.setdefault(n.id, (z3.Real(f"a{n.id}"), n))[0]
    if _ndepth(goal.d) > 200:
        return "unknown"
    top = goal.d
    if len(term.walk([top])) > 400 and not (top.op == "*" and top.args[1].op == "sqrt"):
        return "unknown"
    s = z3.Solver()
    s.set("timeout", 500)
    e = ex(top)
    s.add(z3.Not(e < 0 if goal.rel == "<" else e <= 0))
    for v, n in atoms.values():
        if n.op == "sqrt":
            s.add(v >= 0)
    return _check(s)


def prove(pc, goal, budget_s=30.0, patience=5):
    """Return 'unsat' (proved), or ('sat', model) or ('unknown', None)."""
    if not isinstance(goal, SymBool):
        if goal:
            return "unsat", None, "constant"
        # must be shown unreachable
        r, m = _solve(pc, False, budget_s * 1000 / 2, want_model=True) if pc else ("sat", {})
        return r, m, "reachability"
    if goal.rel == "and":
        for g in goal.d:
            r = prove(pc, g, budget_s, patience)
            if r[0] != "unsat":
                return r
        return "unsat", None, "conjunction"
    t_end = time.time() + budget_s
    if goal.rel == "==":
        if _generalised(goal) == "unsat":
            return "unsat", None, "generalised"
    elif goal.rel in ("<", "<="):
        if _signs(goal) == "unsat":
            return "unsat", None, "signs"
    if goal.rel == "==" or any(x.op == "ite" for x in term.walk(goal.roots())):
        r = _abstracted(goal)
        if r == "unsat":
            return r, None, "linear over monomials"
    # 1. plain identity / linear fact
    r, _ = _solve([], goal, 1500, axioms=False)
    if r == "unsat":
        return r, None, "direct"
    hasint = any(x.op == "v" and x.args[0].startswith("int!") for c in [goal] + list(pc) for r_ in c.roots()
                 for x in term.walk([r_]))
    nra = None if hasint else "nra"
    rel1 = _relevant(pc, goal, 1)
    relf = _relevant(pc, goal, 50)
    r, _ = _solve(rel1, goal, 1500, axioms=False, tactic=nra)
    if r == "unsat":
        return r, None, "path"
    # 2. equality after clearing denominators
    if goal.rel == "==":
        try:
            term.DEADLINE[0] = time.time() + patience * budget_s
            try:
                p = clear_denominators(term.nf(goal.d))
            finally:
                term.DEADLINE[0] = None
            g2 = SymBool("==", term.nf_to_node(p)) if p else True
            if g2 is True:
                return "unsat", None, "normalised"
            r, _ = _solve([], g2, 1500, axioms=False)
            if r == "unsat":
                return r, None, "normalised"
            r, _ = _solve(relf, g2, min(8000, 1000 * max(1, t_end - time.time())), axioms=True, tactic=nra)
            if r == "unsat":
                return r, None, "normalised+axioms"
        except term.NFTooBig:
            pass
    # 3. axioms
    last = ("unknown", None)
    for cs, tac, guarded in ((rel1, nra, False), (relf, nra, False), (relf, None, False)):
        left = t_end - time.time()
        if left <= 0.2:
            break
        r, m = _solve(cs, goal, 1000 * max(1.0, left / 2), axioms=True, tactic=tac, want_model=(cs is relf), guarded=guarded)
        if r == "unsat":
            return r, None, "axioms"
        if r == "sat" and cs is relf:
            last = (r, m)
            break
    return last[0], last[1], "open"
