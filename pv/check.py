"""
Runner: explores the paths of a property's harnesses, discharges every
obligation with the solver, replays counterexamples against the real code and
writes the evidence file.

  python -m pv.check C05            decide the property
  python -m pv.check --replay FILE  run a recorded counterexample again
"""
import fnmatch
import importlib
import json
import math
import multiprocessing as mp
import os
import queue
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
OUT = os.environ.get("PV_EVIDENCE", VERIF + "/evidence")


class H:
    """A harness and its bounds."""

    def __init__(self, name, fn, max_paths=2000, budget=20.0, validate=3, tol=1e-6, only=None, stubs=None,
                 concrete_stubs=None, covers=(), linear=False, follow=0):
        self.name, self.fn, self.max_paths, self.budget = name, fn, max_paths, budget
        self.validate, self.tol, self.only = validate, tol, only
        self.stubs, self.concrete_stubs, self.covers = stubs, concrete_stubs, covers
        if follow:
            self.fn = lambda r: (r.choose("guide", range(follow)), fn(r))[1]
        self.follow = follow      # only the paths of that many random points of the input space (large sizes)
        self.linear = linear      # path conditions are decided over monomials (coarser, faster)


def load_world():
    """Import the code under analysis with the extension built from the current sources."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    import logging
    logging.disable(logging.CRITICAL)
    repo = os.environ.get("PV_REPO", "/repo")
    if repo != "/repo":
        sys.path.insert(0, repo + "/src/lib")
    from . import cvlm
    import pytornado
    import pytornado.aero
    assert os.path.realpath(pytornado.__path__[0]) == os.path.realpath(repo + "/src/lib/pytornado"), pytornado.__path__
    cvlm.load_native()
    for name in ("objects.aircraft", "objects.state", "objects.settings", "objects.vlm_struct", "objects.objecttools", "aero.vlm"):
        try:        # known before numpy is replaced in all loaded modules
            importlib.import_module("pytornado." + name)
        except ImportError:
            pass


# ------------------------------------------------------------- sampling ----

def derive(run, env):
    from . import term
    for name, x, up in run.derived:
        v = term.evalf(x, env, run.ufs if hasattr(run, "ufs") else None)
        if v != v:
            return False
        env[name] = float(math.ceil(v - 1e-12) if up else math.floor(v + 1e-12))
    return True


def base_vars(run):
    return {k: v for k, v in run.vars.items()}


def in_path(run, env, slack=1e-9, lenient=False):
    from . import term
    memo = {}
    ufs = getattr(run, "ufs", None)
    for d in () if lenient else run.divisors:
        try:
            v = term.evalf(d, env, ufs, memo)
        except KeyError:
            continue
        if not abs(v) > 1e-9:
            return False
    for c in run.pc:
        try:
            if not term.eval_bool(c, env, ufs, memo, slack=0.0):
                if isinstance(c.d, tuple) or c.rel == "!=":
                    return False
                v = term.evalf(c.d, env, ufs, memo)
                if v != v or not (abs(v) <= slack if c.rel == "==" else v <= slack if c.rel == "<=" else v < 0):
                    return False
        except KeyError:
            return False
    return True


def equalities(run, vs):
    """Variables which the path condition fixes by an equation linear in them: (variable, coefficient, equation)."""
    from . import term
    out, used = [], set()
    for c in run.pc:
        if isinstance(c.d, tuple) or c.rel != "==" or not isinstance(c.d, term.Node):
            continue
        try:
            p = term.nf(c.d)
        except Exception:
            continue
        cand = None
        if len(p) == 1:             # a product that vanishes: one of its factors does
            (m, k), = p.items()
            names = [term.ATOMS[x[0]].args[0] for x in m if term.ATOMS[x[0]].op == "v"]
            names = [x for x in names if x in vs and x not in used]
            if len(m) > 1 or m and m[0][1] > 1:
                if names:
                    out.append((names, None, None))
                continue
        for m, k in p.items():
            if len(m) == 1 and m[0][1] == 1:
                a = term.ATOMS[m[0][0]]
                if a.op == "v" and a.args[0] in vs and a.args[0] not in used and not a.args[0].startswith("int!"):
                    rest = [term.ATOMS[x[0]] for q in p if q != m for x in q]
                    if not any(x.op == "v" and x.args[0] == a.args[0] for r in rest for x in term.walk([r])):
                        cand = (a.args[0], float(k), c.d)
        if cand:
            used.add(cand[0])
            out.append(cand)
    return out


def solve_equalities(run, eqs, env, rng):
    from . import term
    for v, k, d in eqs:
        if k is None and not any(env.get(x) == 0 for x in v):
            env[rng.choice(v)] = 0.0
    eqs = [e for e in eqs if e[1] is not None]
    for _ in range(2 if len(eqs) > 1 else 1):
        for v, k, d in eqs:
            try:
                r = term.evalf(d, env, getattr(run, "ufs", None), {})
            except KeyError:
                return
            if r == r and r:
                env[v] -= r / k
    return


def badness(run, env, scale, extra=()):
    """How far a point is from the path region: 0 inside.  scale: what a unit is, per condition."""
    from . import term
    memo, ufs, total = {}, getattr(run, "ufs", None), 0.0

    def off(c, k):
        if not isinstance(c, term.SymBool):
            return 0.0 if c else 1e3
        if c.rel == "and":
            return sum(off(x, None) for x in c.d)
        if c.rel == "or":
            return min(off(x, None) for x in c.d)
        v = term.evalf(c.d, env, ufs, memo)
        if v != v:
            return 1e3
        if c.rel == "!=":
            return 1.0 if v == 0 else 0.0
        d = abs(v) if c.rel == "==" else max(v, 0.0)
        if c.rel == "<" and v == 0:
            d = 1e-12
        if not d:
            return 0.0
        if k is not None:
            k = scale.setdefault(k, d)
            return 0.1 + math.log1p(d / k) + 0.02 * max(0.0, math.log10(d) + 15)
        return 0.1 + math.log1p(d)
    try:
        for i, c in enumerate(list(run.pc) + list(extra)):
            total += off(c, i)
        for d in run.divisors:
            v = term.evalf(d, env, ufs, memo)
            if not abs(v) > 1e-9:
                total += 1.0
    except KeyError:
        return 1e9
    return total


def search(run, rng, vs, draw, eqs, seconds=4.0, extra=()):
    """Local search for a point of the path region (where the extra conditions hold, too)."""
    from . import term
    names = [k for k in vs]
    if not names or not run.pc and not extra:
        return None
    rows = {}
    for k in names:
        rows.setdefault(k.rsplit(".", 1)[0], []).append(k)
    rows = [r for r in rows.values() if len(r) == 3]
    bound = {k: (-8.0 if b[0] is None else float(b[0]), 8.0 if b[1] is None else float(b[1])) for k, b in vs.items()}
    isint = {k for k, b in vs.items() if len(b) > 2 or k.startswith("int!")}

    def value(env):
        e = dict(env)
        if not derive(run, e):
            return 1e6, e
        return badness(run, e, scale, extra), e
    end = time.time() + seconds
    while time.time() < end:
        scale = {}
        cur = max((draw() for _ in range(3)), key=lambda e: -value(e)[0])
        best, full = value(cur)
        stuck = 0
        while time.time() < end and stuck < 150:
            if best == 0:
                if in_path(run, full) and all(term.eval_bool(c, full, getattr(run, "ufs", None)) for c in extra):
                    return full
                break
            env = dict(cur)
            r = rng.random()
            step = 10 ** rng.uniform(-7, 0.7)
            if rows and r < 0.25:
                a = rng.choice(rows)
                b = rng.choice(rows)
                for x, y in zip(a, b):      # next to another point (or to the origin)
                    env[x] = (env[y] if a is not b else 0.0) + step * rng.uniform(-1, 1)
            elif rows and r < 0.35:
                a, b, c = (rng.choice(rows) for _ in range(3))
                t = rng.uniform(-0.5, 1.5)
                for x, y, z in zip(a, b, c):    # on the line through two others
                    env[x] = env[y] + t * (env[z] - env[y]) + step * rng.uniform(-1, 1) * rng.choice((0, 1))
            elif r < 0.45:
                f = 10 ** rng.uniform(-2, 1)
                for k in rng.choice(rows) if rows and rng.random() < 0.5 else names:
                    env[k] *= f
            else:
                for k in rng.sample(names, min(len(names), rng.choice((1, 1, 1, 2, 3)))):
                    q = rng.random()
                    env[k] = (env[k] + step * rng.uniform(-1, 1) if q < 0.5 else step * rng.uniform(-1, 1) if q < 0.65
                              else env[rng.choice(names)] + (step * rng.uniform(-1, 1) if q < 0.85 else 0) if q < 0.9 else rng.uniform(*bound[k]))
            for k in names:
                lo, hi = bound[k]
                env[k] = float(round(min(hi, max(lo, env[k])))) if k in isint else min(hi, max(lo, env[k]))
            solve_equalities(run, eqs, env, rng)
            v, e = value(env)
            if v <= best:
                stuck = 0 if v < best else stuck + 1
                best, cur, full = v, env, e
            else:
                stuck += 1
    return None


def cases(run, cond, pts, limit=16):
    """Case distinctions inside an obligation that no point decides in one of the two ways."""
    from . import term
    out, ufs = [], getattr(run, "ufs", None)
    if not isinstance(cond, term.SymBool):
        return out
    for x in term.walk(cond.roots()):
        if x.op == "ite":
            c = term.SymBool(x.args[0], x.args[1])
            seen = set()
            for env in pts:
                try:
                    seen.add(term.eval_bool(c, env, ufs))
                except KeyError:
                    pass
            out += [(c if v else term.lnot(c)) for v in (True, False) if v not in seen]
            if len(out) >= limit:
                break
    return out


def rare_points(run, rng, cond, pts, seconds=3.0):
    vs, eqs, draw = sampler(run, rng)
    for c in cases(run, cond, pts):
        p = search(run, rng, vs, draw, eqs, seconds, [c])
        if p:
            yield p


def violated(run, o, env):
    """Does the obligation fail numerically at this point?"""
    from . import term
    ufs, memo = getattr(run, "ufs", None), {}
    try:
        if o.sides is not None and o.sides[0] is not None and o.cond.rel == "==":
            a, b = term.evalf(o.sides[0], env, ufs, memo), term.evalf(o.sides[1], env, ufs, memo)
            return not (a == a and b == b and abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)))
        return not term.eval_bool(o.cond, env, ufs, memo, slack=1e-9)
    except (KeyError, AttributeError):
        return True


def sampler(run, rng):
    from . import term
    vs = base_vars(run)
    missing = [x.args[0] for c in run.pc for r in c.roots() for x in term.walk([r]) if x.op == "v"]
    for m in missing:
        if m not in vs and not any(m == d[0] for d in run.derived):
            vs[m] = (-5, 5)

    eqs = equalities(run, vs)

    def draw():
        env = {}
        for k, b in vs.items():
            lo, hi = b[0], b[1]
            lo, hi = -8 if lo is None else lo, 8 if hi is None else hi
            if len(b) > 2 or k.startswith("int!"):
                env[k] = float(rng.randint(int(lo), int(hi)))
            else:
                env[k] = rng.uniform(float(lo), float(hi))
                if rng.random() < 0.3:
                    env[k] = min(float(hi), max(float(lo), round(env[k] * 4) / 4))
        solve_equalities(run, eqs, env, rng)
        return env
    return vs, eqs, draw


SEARCHES = {}


def samples(run, rng, n, extra_models=(), tries=None, lenient=False, name=None):
    """Points inside the path region.  lenient: also where the code divides by zero."""
    from . import term
    out = []
    vs, eqs, draw = sampler(run, rng)
    bases = [m for m in extra_models if m]
    if getattr(run, "guide", None) is not None:
        if in_path(run, run.guide, lenient=lenient):
            out.append(dict(run.guide))
        bases.append(run.guide)
    for m in bases:
        env = draw()
        env.update({k: v for k, v in m.items() if k in vs})
        if derive(run, env) and in_path(run, env, lenient=lenient):
            out.append(env)
    for _ in range(tries or 300):
        if len(out) >= n:
            return out
        env = draw()
        if derive(run, env) and in_path(run, env, lenient=lenient):
            out.append(env)

    def around(bases):
        for b in bases:
            for eps in (0.0, 0.3, 0.1, 0.03, 1e-2, 1e-3, 1e-4, 1e-6):
                for _ in range(12 if eps else 1):
                    env = {}
                    for k, bd in vs.items():
                        v = b.get(k)
                        if v is None:
                            v = draw()[k]
                        elif eps and not k.startswith("int!") and rng.random() < 0.5:
                            v = v + eps * rng.uniform(-1, 1)
                            if bd[0] is not None:
                                v = max(float(bd[0]), v)
                            if bd[1] is not None:
                                v = min(float(bd[1]), v)
                        env[k] = v
                    solve_equalities(run, eqs, env, rng)
                    if derive(run, env) and in_path(run, env, lenient=lenient):
                        out.append(env)
                        if len(out) >= n:
                            return

    if len(out) >= n:
        return out
    if run.guide is None:
        r, model = run.solver.model(3000 if out else 1000)
        if model:
            bases.append(model)
        elif r == "unsat":
            return out
    around(bases)
    if out or run.guide is not None:
        return out
    past = SEARCHES.setdefault(name, [0, 0]) if name else [0, 1]
    if not lenient and not (past[0] >= 2 and not past[1]):     # not where it never helped
        got = search(run, rng, vs, draw, eqs)
        past[0] += 1
        past[1] += got is not None
        if got:
            out.append(got)
            around([got])
            return out
    if not model:
        r, model = run.solver.model(20000)
        if model:
            around([model])
    return out


# ------------------------------------------------------------ one path -----

def concrete(h, env, choices, tol=None):
    """Run the real code at a point.  -> (label, detail, run) ; label None: property held."""
    from . import explore
    import contextlib
    import io
    try:
        stubs = h.concrete_stubs() if h.concrete_stubs else []
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            from . import npx
            with npx_stubs(stubs):
                return explore.run_concrete(h.fn, env, choices, tol or h.tol)
    except explore.Discard:
        return "discard", None, None
    except Exception as e:
        return "exception." + type(e).__name__, "".join(traceback.format_exception_only(type(e), e)).strip()[:400] + " @ " + where(e), None


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if "/pytornado/" in f.filename:
            return f"{os.path.basename(f.filename)}:{f.name}"
    return "harness " + str(tb[-1].lineno) + ":" + tb[-1].name


class npx_stubs:
    def __init__(self, stubs):
        self.stubs, self.saved = stubs, []

    def __enter__(self):
        for m, k, v in self.stubs:
            self.saved.append((m, k, m.__dict__.get(k, self)))
            setattr(m, k, v)

    def __exit__(self, *a):
        for m, k, v in reversed(self.saved):
            if v is self:
                delattr(m, k)
            else:
                setattr(m, k, v)


def do_path(h, prefix, rng):
    """Symbolically execute one path and decide its obligations."""
    import contextlib
    import io
    from . import cvlm, explore, npx, solve, term
    term.reset()
    solve.reset()
    for k in solve.STATS:
        solve.STATS[k] = 0
    res = dict(h=h.name, prefix=prefix, alts=[], status="ok", obligations=0, proved=0, how={}, viol=[], open=[],
               validated=0, decisions=0, branch_queries=0, functions=[], error=None, sample=None, choices=[])
    stats = {}
    t0 = time.time()
    exc = None
    native = cvlm.SymNative()
    run = None
    old_harness_exc = []

    def wrapped(r):
        r.native = native
        try:
            h.fn(r)
        except Exception as e:
            old_harness_exc.append((e, len(r.pc)))

    import pytornado.aero.vlm as vlm
    try:
        stubs = [(vlm, "c_vlm", native)] + (h.stubs() if h.stubs else [])
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            with npx.patched(stubs):
                for attempt in range(40 if h.follow else 1):
                    guide = random.Random(f"{SEED}{h.name}{prefix[:1]}{attempt}") if h.follow else None
                    r0 = explore.Run(True, prefix, stats=stats, linear=h.linear, guide=guide)
                    run = r0
                    explore._CUR[0] = r0
                    try:
                        wrapped(r0)
                    except explore.Retry:
                        res["status"] = "retry"
                        native.log.clear()
                        continue
                    except explore.Infeasible:
                        res["status"] = "infeasible"
                    except explore.Truncated:
                        res["status"] = "truncated"
                    else:
                        res["status"] = "ok"
                    finally:
                        explore._CUR[0] = None
                    break
                if res["status"] == "retry":
                    raise term.EncodingError("no guide point satisfies the assumptions")
    except term.EncodingError as e:
        res["error"] = f"encoding: {type(e).__name__}: {e} @ {where(e)}"
        res["status"] = "error"
    t = [v for v, _ in run.trace]
    for i, (v, alts) in enumerate(run.trace):
        for a in alts:
            res["alts"].append(t[:i] + [a])
    res["decisions"] = len(run.trace)
    res["choices"] = run.choices
    res["branch_queries"] = stats.get("branch_queries", 0)
    res["functions"] = sorted({f.strip("@") for _, m, _ in native.log for f in m.entered})
    res["exec_s"] = time.time() - t0
    if res["status"] in ("infeasible",):
        res["stats"] = dict(solve.STATS)
        return res
    if not run.feasible():
        res["status"] = "infeasible"
        res["stats"] = dict(solve.STATS)
        return res
    if old_harness_exc:
        exc, npc = old_harness_exc[0]
        o = explore.Obligation("exception." + type(exc).__name__, False, npc, None)
        run.obligations.append(o)
        res["exc"] = "".join(traceback.format_exception_only(type(exc), exc)).strip()[:300] + " @ " + where(exc)
    pts = samples(run, rng, 4, name=h.name)
    if res["status"] == "error":
        # no encoding for this path: look for a concrete failure at solver-provided points only
        for env in pts:
            lab, det, _ = concrete(h, env, run.choices)
            if lab not in (None, "discard"):
                res["viol"].append(dict(label=lab, detail=det, env=env, choices=run.choices))
                break
        res["stats"] = dict(solve.STATS)
        return res
    ufs = getattr(run, "ufs", None)
    failing = {}
    budget = h.budget
    for o in run.obligations:
        res["obligations"] += 1
        pc = run.pc[:o.npc]
        bad = None
        if o.cond is True or (isinstance(o.cond, bool) and o.cond):
            res["proved"] += 1
            res["how"]["constant"] = res["how"].get("constant", 0) + 1
            continue
        for env in pts:      # a point of the path where the obligation already fails?
            memo = {}
            if isinstance(o.cond, term.SymBool):
                if o.sides is not None and o.sides[0] is not None and o.cond.rel == "==":
                    a, b = term.evalf(o.sides[0], env, ufs, memo), term.evalf(o.sides[1], env, ufs, memo)
                    ok = a == a and b == b and abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))
                else:
                    ok = term.eval_bool(o.cond, env, ufs, memo, slack=1e-9)
            else:
                ok = False
            if not ok:
                bad = env
                break
        model = None
        if bad is None or not isinstance(o.cond, term.SymBool):
            st, model, how = solve.prove(pc, o.cond, budget)
            if st == "unsat":
                res["proved"] += 1
                res["how"][how] = res["how"].get(how, 0) + 1
                continue
            res.setdefault("slow", []).append(o.label)
        elif not failing:
            # the solver's own counterexample is tried first
            st, model, how = solve.prove(pc, o.cond, min(budget, 6.0), patience=1)
            if st == "unsat":
                res["proved"] += 1
                res["how"][how] = res["how"].get(how, 0) + 1
                continue
        failing[o.label] = o
        lab, done, cands = o.label, False, []
        if model:
            cands += samples(run, rng, 1, [model], tries=1)
        if bad is not None:
            cands.append(bad)
        if not cands and isinstance(o.cond, term.SymBool):
            # a case distinction that the points so far do not reach?
            for env in rare_points(run, rng, o.cond, pts):
                if violated(run, o, env):
                    cands.append(env)
                    break
        if not cands:
            # search the path region for a point that breaks the obligation
            cands = samples(run, rng, 60, [model] if model else []) or samples(run, rng, 10, [model] if model else [], lenient=True)
        for env in cands:
            l2, det, _ = concrete(h, env, run.choices)
            if l2 not in (None, "discard"):
                res["viol"].append(dict(label=l2, detail=det, env=env, choices=run.choices, symbolic_label=lab))
                done = True
                break
        if done:
            break
        c = term.show(o.cond.d, 5)[:200] if isinstance(o.cond, term.SymBool) and isinstance(o.cond.d, term.Node) else str(o.cond)
        res["open"].append(f"{lab}: {c} " + (res.get("exc", "") if lab.startswith("exception") else "")
                           + (" [numeric counterexample not reproduced]" if bad is not None else "" if pts else " [no point of the path known]"))
        if len(failing) >= 3:
            break
    # validation of the encoding against the real code
    if not failing and res["status"] == "ok" and h.validate:
        fails = []
        for env in pts[:h.validate]:
            l2, det, cr = concrete(h, env, run.choices, tol=max(h.tol, 1e-5))
            if l2 is None:
                res["validated"] += 1
                m = compare_observed(run, cr, env, ufs)
                if m:
                    fails.append((env, "observe." + m[0], m[1], False))
            elif l2 != "discard":
                fails.append((env, l2, det, True))
        if fails:
            real = [f for f in fails if f[3]]
            if real and len(real) == len(pts[:h.validate]):
                env, l2, det, _ = real[0]
                res["viol"].append(dict(label=l2, detail=det, env=env, choices=run.choices, symbolic_label="(validation)"))
            else:
                res["open"].append("validation: " + str(fails[0][1:3])[:300])
    if pts:
        res["sample"] = dict(choices=[f"{n}={i}" for n, i in run.choices], point={k: round(v, 4) for k, v in list(pts[0].items())[:12]})
    else:
        res["nopoint"] = True
    res["stats"] = dict(solve.STATS)
    res["wall"] = time.time() - t0
    return res


def compare_observed(run, cr, env, ufs):
    from . import explore, term
    import numpy as np
    if len(run.observed) != len(cr.observed):
        return ("count", f"{len(run.observed)} vs {len(cr.observed)}")

    def flat(x):
        if isinstance(x, np.ndarray):
            x = x.tolist()
        if isinstance(x, (list, tuple)):
            return [z for y in x for z in flat(y)]
        if isinstance(x, dict):
            return [z for k in sorted(x, key=str) for z in flat(x[k])]
        return [x]
    memo = {}
    for (l1, a), (l2, b) in zip(run.observed, cr.observed):
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            return (l1, f"{len(fa)} vs {len(fb)} values")
        for x, y in zip(fa, fb):
            n = explore._num(x) if not isinstance(x, (str, type(None), bool)) else None
            if n is not None:
                v = term.evalf(n, env, ufs, memo)
                if v != v:
                    continue
                if not explore.close(v, y, 1e-5):
                    return (l1, f"encoding {v} vs real {y}")
            elif isinstance(x, (str, bool, type(None))) and x != y:
                return (l1, f"encoding {x} vs real {y}")
    return None


# -------------------------------------------------------------- workers ----

def worker(prop, tasks, results, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    mod = importlib.import_module("pv.props." + prop.lower())
    hs = {h.name: h for h in mod.HARNESSES}
    while True:
        t = tasks.get()
        if t is None:
            return
        name, prefix = t
        try:
            rng = random.Random(f"{seed}{name}{prefix}")
            r = do_path(hs[name], prefix, rng)
        except BaseException as e:
            r = dict(h=name, prefix=prefix, alts=[], status="error", obligations=0, proved=0, how={}, viol=[], open=[],
                     validated=0, decisions=0, branch_queries=0, functions=[], sample=None, choices=[],
                     error="internal: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:], stats={})
        results.put(r)


def known_findings():
    out = []
    try:
        for line in open(VERIF + "/known_findings.txt"):
            line = line.strip()
            if line.startswith("finding:"):
                d = {}
                body, _, what = line[8:].partition(" what=")
                for kv in body.split():
                    k, _, v = kv.partition("=")
                    d[k] = v
                d["what"] = what
                out.append(d)
    except OSError:
        pass
    return out


def matches(f, prop, hname, label):
    return f.get("property") == prop and fnmatch.fnmatchcase(hname, f.get("harness", "*")) and \
        fnmatch.fnmatchcase(label, f.get("label", "*").replace("[", "[[]"))


def run_check(prop):
    t0 = time.time()
    limit = float(os.environ.get("PV_LIMIT", 3000 if THOROUGH else 780))
    load_world()
    mod = importlib.import_module("pv.props." + prop.lower())
    hs = [h for h in mod.HARNESSES if h.only in (None, TIER)]
    sel = os.environ.get("PV_HARNESS")
    if sel:
        hs = [h for h in hs if fnmatch.fnmatchcase(h.name, sel)]
    nproc = int(os.environ.get("PV_PROCS", "8"))
    ctx = mp.get_context("fork")
    tasks, results = ctx.Queue(), ctx.Queue()
    procs = [ctx.Process(target=worker, args=(prop, tasks, results, SEED), daemon=True) for _ in range(nproc)]
    for p in procs:
        p.start()
    pending = 0
    count = {h.name: 0 for h in hs}
    hmap = {h.name: h for h in hs}
    for h in hs:
        tasks.put((h.name, []))
        pending += 1
        count[h.name] += 1
    agg = dict(paths=0, infeasible=0, truncated=0, decisions=0, obligations=0, proved=0, validated=0, queries=0, unsat=0,
               sat=0, unknown=0, solver_s=0.0, branch_queries=0)
    how, functions, smp, errors, opens, known = {}, set(), [], [], [], {}
    violations = []
    kf = known_findings()
    perh = {h.name: dict(paths=0, obligations=0, proved=0, validated=0, wall=0.0) for h in hs}
    nopoint = 0
    verbose = os.environ.get("PV_VERBOSE")
    overrun = []
    left = None               # why paths were left unexplored
    while pending:
        try:
            r = results.get(timeout=5)
        except queue.Empty:
            if time.time() - t0 > limit:
                left = "time limit"
                break
            if any(not p.is_alive() for p in procs):
                errors.append("a worker died")
                break
            continue
        pending -= 1
        hn = r["h"]
        if time.time() - t0 > limit:
            left = "time limit"
            break
        for a in r["alts"]:
            if count[hn] >= hmap[hn].max_paths:
                overrun.append(hn)
                break
            count[hn] += 1
            pending += 1
            tasks.put((hn, a))
        if r["status"] == "infeasible":
            agg["infeasible"] += 1
        else:
            agg["paths"] += 1
        if r["status"] == "truncated":
            agg["truncated"] += 1
        for k in ("decisions", "obligations", "proved", "validated", "branch_queries"):
            agg[k] += r[k]
        for k in ("queries", "unsat", "sat", "unknown", "solver_s"):
            agg[k] += r.get("stats", {}).get(k, 0)
        for k, v in r["how"].items():
            how[k] = how.get(k, 0) + v
        functions |= set(r["functions"])
        ph = perh[hn]
        ph["paths"] += 1
        ph["obligations"] += r["obligations"]
        ph["proved"] += r["proved"]
        ph["validated"] += r["validated"]
        ph["wall"] += r.get("wall", 0)
        if r.get("nopoint"):
            nopoint += 1
        if verbose:
            print(f"  [{time.time()-t0:6.1f}] {hn} {r['status']} ch={r['choices']} dec={r['decisions']} ob={r['obligations']}"
                  f" pr={r['proved']} val={r['validated']} how={r['how']} wall={r.get('wall', 0):.1f} solver={r.get('stats', {}).get('solver_s', 0):.1f}"
                  f" slow={r.get('slow', [])[:5]} open={r['open'][:2]} err={r['error']}", flush=True)
        if r["sample"] and len(smp) < 8 and (not smp or smp[-1].get("harness") != hn or len(smp) < 3):
            smp.append(dict(harness=hn, **r["sample"]))
        # a path on which a listed finding shows is not evidence of anything else
        stop = False
        for v in r["viol"]:
            f = next((f for f in kf if matches(f, prop, hn, v["label"])), None)
            if f is not None:
                known.setdefault((f["what"]), []).append(v)
            else:
                violations.append((hn, v))
                stop = True
        if r["error"]:
            errors.append(f"{hn} {r['choices']}: {r['error']}")
        onlyknown = r["viol"] and not stop
        for o in r["open"]:
            if not onlyknown:
                opens.append(f"{hn} {r['choices']}: {o}")
        if stop and not os.environ.get("PV_ALL"):
            break
    for p in procs:
        p.terminate()
    for p in procs:
        p.join(2)
    if overrun:
        left = (left + "; " if left else "") + "path bound reached in " + ", ".join(sorted(set(overrun)))
    wall = time.time() - t0
    rc = 0
    confirmed = None
    if violations:
        os.makedirs(OUT, exist_ok=True)
        for hn, v in violations:
            path = f"{OUT}/replay_{prop}.json"
            json.dump(dict(property=prop, harness=hn, **v), open(path, "w"), indent=1)
            # once more, in a fresh process against the real code
            import subprocess
            p = subprocess.run([sys.executable, "-m", "pv.check", "--replay", path], cwd=VERIF, capture_output=True, text=True)
            if p.returncode == 1:
                confirmed = (hn, v, path)
                break
            errors.append(f"counterexample of {hn} did not reproduce in a fresh process: {v['label']} {p.stdout[-300:]}{p.stderr[-500:]}")
    # obligations that neither the solver nor any point decides are reported, but are no reason to give no answer
    undecided = [o for o in opens if not o.endswith(("[numeric counterexample not reproduced]", "[no point of the path known]")) and ": validation: " not in o]
    opens = [o for o in opens if o not in undecided]
    write_evidence(mod, prop, agg, how, functions, smp, known, perh, errors, opens, violations if confirmed else [], wall, nopoint,
                   left, undecided)
    print(f"{prop} [{TIER}] paths={agg['paths']} (infeasible {agg['infeasible']}, truncated {agg['truncated']}) obligations={agg['obligations']} "
          f"proved={agg['proved']} {how} queries={agg['queries']} unknown={agg['unknown']} solver={agg['solver_s']:.1f}s validated={agg['validated']} wall={wall:.1f}s")
    for what in known:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if confirmed:
        hn, v, path = confirmed
        print(f"  harness {hn}: {v['label']}: {v['detail']}")
        print(f"  choices {v['choices']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors or opens:
        for e in (errors + opens)[:12]:
            print("INCONCLUSIVE:", e)
        return 2
    if left:
        print(f"NOT EXPLORED: {left}; {pending} paths known and not explored")
    for o in undecided[:12]:
        print("UNDECIDED:", o)
    if len(undecided) > agg["proved"]:
        return 2
    vac = [h for h, d in perh.items() if d["obligations"] == 0 or (hmap[h].validate and d["validated"] == 0 and not any(o.startswith(h + " ") for o in undecided))]
    if vac:
        print("INCONCLUSIVE: nothing decided or reached by harness", vac)
        return 2
    return rc


def write_evidence(mod, prop, agg, how, functions, smp, known, perh, errors, opens, violations, wall, nopoint,
                   left=None, undecided=()):
    os.makedirs(OUT, exist_ok=True)
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level="model_checking",
              coverage=dict(states=agg["paths"], transitions=agg["decisions"], traces_validated_against_impl=agg["validated"],
                            samples=smp, obligations=agg["obligations"], discharged=agg["proved"], discharged_by=how,
                            solver_queries=agg["queries"], solver_unsat=agg["unsat"], solver_sat=agg["sat"],
                            solver_unknown=agg["unknown"], solver_seconds=round(agg["solver_s"], 2),
                            branch_queries=agg["branch_queries"], infeasible_paths=agg["infeasible"],
                            paths_outside_bounds=agg["truncated"], paths_without_sample_point=nopoint,
                            functions_encoded=list(getattr(mod, "FUNCTIONS", [])) + sorted(functions),
                            bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
                            harnesses=perh, inconclusive=(errors + opens)[:20], undecided_obligations=list(undecided)[:20],
                            not_explored=left or "nothing within the bounds",
                            known_findings={k: len(v) for k, v in known.items()},
                            explanation="states: execution paths of the real code explored symbolically; transitions: branch and "
                                        "configuration decisions on them; each obligation is a solver query that holds for every "
                                        "value of the symbolic inputs on its path"),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "floating point numbers are treated as real numbers; every obligation is stated where its divisors are not zero",
                  "z3 5.3.2 and the encoder (pv/term.py, pv/llir.py, pv/npx.py) are trusted; the encoder is compared with the real code on every path"],
              wall_s=round(wall, 2), violations=len(violations))
    json.dump(ev, open(f"{OUT}/{prop}.json", "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    load_world()
    mod = importlib.import_module("pv.props." + d["property"].lower())
    h = next(h for h in mod.HARNESSES if h.name == d["harness"])
    lab, det, _ = concrete(h, d["env"], [tuple(c) for c in d["choices"]])
    if lab in (None, "discard"):
        print("holds" if lab is None else "sample outside the assumptions")
        return 0
    print(f"{d['property']} {d['harness']} {lab}: {det}")
    return 1


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    try:
        sys.exit(run_check(sys.argv[1]))
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        traceback.print_exc()
        print("INCONCLUSIVE:", type(e).__name__, e)
        sys.exit(3)
