"""Path-exploring symbolic executor core: symbolic scalars, branch decisions, checks.

A harness is an ordinary python function.  In *symbolic* mode its inputs are `Sym`
scalars (z3 terms); every python-level branch on a symbolic condition is decided by the
solver and both feasible outcomes are explored (depth-first re-execution).  In *concrete*
mode the same harness runs on plain python/numpy/torch values taken from a solver model.
"""
from __future__ import annotations

import math
import os
import random
import sys
import time
from fractions import Fraction
import numbers

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as np  # noqa: E402

ENG: "Engine | None" = None


class PathAbort(BaseException):
    """The current path is infeasible / assumed away."""


_SLOW = os.environ.get("VERIF_SLOW")


class EngineLimit(BaseException):
    """Budget exhausted inside a path."""


class Unsupported(Exception):
    """The engine has no encoding for an operation; the path is reported as incomplete."""


# ----------------------------------------------------------------------------- engine
class Engine:
    def __init__(self, qtimeout_ms=4000):
        self.qtimeout = qtimeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", qtimeout_ms)
        self.stats = dict(paths=0, branches=0, queries=0, solver_s=0.0, unknown=0, forced=0,
                          checks=0, checks_trivial=0, check_queries=0, aborted=0, concretised=0)
        self.funcs: set[str] = set()
        self.deadline = None
        self.notes: list[str] = []
        self.begin([])

    # -- path life cycle
    def begin(self, prefix):
        self.solver.reset()
        self.solver.set("timeout", self.qtimeout)
        self.prefix = prefix
        self.pos = 0
        self.work: list = []
        self.decisions: list = []
        self.model = None
        self.cons: list = []
        self.inputs: list = []          # (name, kind, z3 var)
        self.names: dict = {}
        self.pending: list = []         # (label, z3 cond)
        self.known: dict = {}
        self.uf: dict = {}
        self.ufc: set = set()
        self.incomplete: list = []
        self.observed: list = []
        self.violations: list = []
        self.nchecks = 0
        self.fresh_n = 0
        self.leaves, self.params, self.sg, self.dep, self.kinks = None, None, None, None, None

    def res(self, c):
        """put back what stop-gradient variables stand for"""
        return z3.substitute(c, *self.sg) if self.sg else c

    def add(self, c):
        c = self.res(c)
        self.solver.add(c)
        self.cons.append(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise EngineLimit("deadline")
        t = time.time()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            # retry once on a fresh (non-incremental) solver: stronger preprocessing / nlsat
            t = time.time()
            s = z3.SolverFor("QF_NRA") if False else z3.Tactic("default").solver()
            s.set("timeout", self.qtimeout)
            s.add(*self.cons)
            s.add(*extra)
            r = s.check()
            self.stats["solver_s"] += time.time() - t
            self.stats["queries"] += 1
            self._last = s
            if r == z3.unknown:
                self.stats["unknown"] += 1
        else:
            self._last = self.solver
        if _SLOW and time.time() - t > 1:
            import traceback
            fr = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()[-14:-1]]
            sys.stderr.write(f"SLOWQ {time.time() - t:.1f}s {r} {' '.join(fr)}\n")
        return r

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort
            if r == z3.sat:
                self.model = self._last.model()
        return self.model

    # -- decisions
    def branch(self, c) -> bool:
        c = z3.simplify(self.res(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        hit = self.known.get(key)
        if hit is not None and hit[0].eq(c):
            return hit[1]
        self.stats["branches"] += 1
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos][:2]
            assert kind in ("b", "f"), (kind, self.prefix[self.pos], c)
            self.pos += 1
            self.decisions.append((kind, v))
            if kind == "b":
                self.add(c if v else z3.Not(c))
            self._know(c, v)
            return v
        m = self.get_model()
        v = True if m is None else z3.is_true(m.eval(c, model_completion=True))
        r = self.check(z3.Not(c) if v else c)
        if r == z3.unsat:
            self.stats["forced"] += 1
            self.decisions.append(("f", v))
        else:
            self.work.append(self.decisions + [("b", not v)])
            self.decisions.append(("b", v))
            self.add(c if v else z3.Not(c))
        self.pos += 1
        self._know(c, v)
        return v

    def _know(self, c, v):
        self.known[c.get_id()] = (c, v)
        n = z3.simplify(z3.Not(c))
        self.known[n.get_id()] = (n, not v)

    def concretise(self, e):
        """Fork over all feasible values of an Int/Real/Bool term."""
        e = z3.simplify(self.res(e))
        v = const_val(e)
        if v is not None:
            return v
        if z3.is_bool(e):
            return self.branch(e)
        hit = self.known.get(("c", e.get_id()))
        if hit is not None and hit[0].eq(e):
            return hit[1]
        self.stats["concretised"] += 1
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            if ent[0] == "c":
                v = ent[1]
                self.pos += 1
                self.decisions.append(ent)
                self.add(e == to_z3const(v, e))
                self.known[("c", e.get_id())] = (e, v)
                return v
            assert ent[0] == "x", ent
            excluded = ent[1]
            for x in excluded:
                self.add(e != to_z3const(x, e))
        else:
            excluded = []
        if len(excluded) >= 64:
            self.incomplete.append("more than 64 values while concretising a term")
            raise PathAbort
        m = self.get_model()
        if m is None:
            self.incomplete.append("solver unknown while concretising")
            raise PathAbort
        v = const_val(m.eval(e, model_completion=True))
        if v is None:
            self.incomplete.append("irrational value while concretising")
            raise PathAbort
        r = self.check(e != to_z3const(v, e))
        if r != z3.unsat:
            self.work.append(self.decisions + [("x", [*excluded, v])])
        self.decisions.append(("c", v))
        self.pos += 1
        self.add(e == to_z3const(v, e))
        self.known[("c", e.get_id())] = (e, v)
        return v

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathAbort
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        self.add(c)
        if z3.is_false(c):
            raise PathAbort
        if self.pos >= len(self.prefix):
            self.get_model()

    def fresh(self, name, kind):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        full = name if n == 0 else f"{name}#{n}"
        mk = {"b": z3.Bool, "i": z3.Int, "f": z3.Real}[kind]
        v = mk(full)
        self.inputs.append((full, kind, v))
        return v

    # -- uninterpreted transcendental functions with instance axioms
    def ufapp(self, name, arg):
        arg = z3.simplify(arg)
        key = (name, arg.get_id())
        hit = self.uf.get(key)
        if hit is not None:
            return hit[1]
        if name == "exp" and z3.is_app(arg) and arg.decl().name() == "uf_log":
            return arg.arg(0)
        if name == "log" and z3.is_app(arg) and arg.decl().name() == "uf_exp":
            return arg.arg(0)
        f = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())
        y = f(arg)
        ax = []
        if name == "exp":
            ax += [y > 0, y >= 1 + arg, z3.Implies(arg == 0, y == 1), z3.Implies(arg < 0, y < 1)]
        elif name == "log":
            ax += [y <= arg - 1, z3.Implies(arg == 1, y == 0), z3.Implies(arg > 1, y > 0),
                   z3.Implies(arg < 1, y < 0)]
        elif name == "tanh":
            ax += [y < 1, y > -1, z3.Implies(arg == 0, y == 0), z3.Implies(arg > 0, z3.And(y > 0, y < arg)),
                   z3.Implies(arg < 0, z3.And(y < 0, y > arg))]
        elif name == "sqrt":
            ax += [y >= 0, y * y == arg]
        elif name == "sigmoid":
            ax += [y > 0, y < 1]
        elif name in ("sin", "cos"):
            ax += [y <= 1, y >= -1]
        elif name == "logsigmoid":
            ax += [y < 0, y <= arg]
        if name in ("exp", "log", "tanh", "sqrt", "sigmoid", "atanh", "logsigmoid"):
            for (n2, _), (a2, y2) in self.uf.items():
                if n2 == name:
                    ax += [z3.Implies(a2 < arg, y2 < y), z3.Implies(a2 > arg, y2 > y)]
        for a in ax:
            self.add(a)
        self.uf[key] = (arg, y)
        return y

    def uf_const(self, name, a, r):
        """the function takes the folded value at a constant (terms may only simplify to that constant later)"""
        if (name, a) not in self.ufc and math.isfinite(r):
            self.ufc.add((name, a))
            f = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())
            c, v = zz(a, "f"), zz(r, "f")
            self.add(f(c) == v)

    # -- checks
    def reach(self, label, c):
        """remember whether c is satisfiable on some path (unknown counts as satisfiable)"""
        self.nchecks += 0
        if self.reachable.get(label):
            return
        self.stats["reach_queries"] = self.stats.get("reach_queries", 0) + 1
        if isinstance(c, (bool, np.bool_)):
            ok = bool(c)
        else:
            c = z3.simplify(self.res(c))
            ok = not z3.is_false(c) and (z3.is_true(c) or self.check(c) != z3.unsat)
        self.reachable[label] = ok

    def require(self, label, c):
        self.nchecks += 1
        self.stats["checks"] += 1
        if isinstance(c, (bool, np.bool_)):
            if c:
                self.stats["checks_trivial"] += 1
                return
            c = z3.BoolVal(False)
        else:
            c = z3.simplify(self.res(c))
            if z3.is_true(c):
                self.stats["checks_trivial"] += 1
                return
        self.pending.append((label, c))

    def discharge(self):
        """Decide all pending assertions on the current path."""
        pend, self.pending = self.pending, []
        if not pend:
            return
        pend = [p if len(p) == 3 else (*p, None) for p in pend]
        from . import poly
        if any(poly.shapely(c) for _, c, _ in pend):
            rest, t = [], time.time()
            self.solver.set("timeout", 700)
            try:
                if self.solver.check(z3.Not(z3.And([c for _, c, _ in pend]))) == z3.unsat:
                    return
            finally:
                self.solver.set("timeout", self.qtimeout)
            for p in pend:
                if poly.shapely(p[1]) and poly.Prover(self.cons, self.qtimeout / 1000 / 2).goal(p[1]):
                    self.stats["proved_by_case_split"] = self.stats.get("proved_by_case_split", 0) + 1
                else:
                    rest.append(p)
            self.stats["solver_s"] += time.time() - t
            pend = rest
            if not pend:
                return
        self.stats["check_queries"] += 1
        neg = z3.Not(z3.And([c for _, c, _ in pend]))
        t0 = time.time()
        r = self.check(neg)
        if _SLOW and time.time() - t0 > 0.5:
            sys.stderr.write(f"SLOW {time.time() - t0:.1f}s {r} all of {[x[0] for x in pend]}\n")
        if r == z3.unsat:
            return
        bad = 0
        for label, c, weak in pend:
            self.stats["check_queries"] += 1
            t0 = time.time()
            r = self.check(z3.Not(c)) if len(pend) > 1 else r
            if _SLOW and time.time() - t0 > 0.5:
                sys.stderr.write(f"SLOW {time.time() - t0:.1f}s {r} {label}\n")
            if r == z3.unsat:
                continue
            target = z3.Not(c)
            if weak is not None:
                rw = self.check(z3.Not(weak))
                if rw == z3.unsat:
                    self.stats["within_tol"] = self.stats.get("within_tol", 0) + 1
                    continue
                if rw == z3.sat:
                    r, target = rw, z3.Not(weak)
                elif r == z3.sat:
                    self.check(target)
            if r == z3.unknown:
                self.incomplete.append(f"solver unknown for assertion: {label}")
                m = self.model or self._try_model([])
                if m is not None:
                    self.violations.append(dict(label=label, kind="unknown", inputs=self.extract(m)))
                continue
            bad += 1
            if bad > 6:
                break
            m = self.nice_model([target])
            models = [self.extract(m)]
            for extra in self.more_models([target], m):
                models.append(self.extract(extra))
            self.violations.append(dict(label=label, kind="check", inputs=models[0], more=models[1:]))

    def _try_model(self, extra):
        r = self.check(*extra)
        return self._last.model() if r == z3.sat else None

    def nice_model(self, extra):
        try:
            base = self._last.model()
        except z3.Z3Exception:
            base = self.model or self._try_model([])
        reals = [v for _, k, v in self.inputs if k == "f"]
        if not reals:
            return self.refine(base, extra)
        box = [z3.And(v >= -8, v <= 8) for v in reals]
        if not self.uf:
            grid = [v * 4 == z3.ToReal(z3.ToInt(v * 4)) for v in reals]
            nz = [v != 0 for v in reals]
            for opts in (box + grid + nz, box + grid, grid, box):
                self.solver.set("timeout", 1500)
                r = self.solver.check(*extra, *opts)
                self.solver.set("timeout", self.qtimeout)
                self.stats["queries"] += 1
                if r == z3.sat:
                    return self.solver.model()
            return base
        r = self.solver.check(*extra, *box)
        return self.refine(self.solver.model() if r == z3.sat else base, extra)

    def refine(self, model, extra, rounds=6):
        """Pull uninterpreted exp/log/... values towards their true values at the model point:
        fix the inputs to the (rounded) model values, bound every function application by a
        tight interval around its true value there, and ask again."""
        if not self.uf:
            return model
        cur, block = model, []
        for _ in range(rounds):
            fix, subst = [], []
            for nm, k, v in self.inputs:
                mv = cur.eval(v, model_completion=True)
                if k == "f":
                    c = const_val(mv)
                    if c is None:
                        c = Fraction(mv.approx(6).as_fraction())
                    mv = z3.RealVal(str(Fraction(c).limit_denominator(16)))
                fix.append(v == mv)
                subst.append((v, mv))
            ysub, ivs, good = [], [], True
            for (name, _), (arg, y) in [(k, (tuple(map(self.res, a)) if isinstance(a, tuple) else self.res(a), self.res(y))) for k, (a, y) in self.uf.items()]:
                try:
                    if name == "pow":
                        x = [const_val(z3.simplify(z3.substitute(z3.substitute(a, *ysub), *subst))) for a in arg]
                        t = float(x[0]) ** float(x[1])
                    else:
                        a = z3.simplify(z3.substitute(z3.substitute(arg, *ysub), *subst))
                        t = _CONC_UNARY[name](float(const_val(a)))
                    tv = Fraction(t).limit_denominator(10 ** 9)
                except Exception:
                    good = False
                    break
                eps = Fraction(1, 10 ** 6) * (1 + abs(tv))
                ivs += [y >= z3.RealVal(str(tv - eps)), y <= z3.RealVal(str(tv + eps))]
                ysub.append((y, z3.RealVal(str(tv))))
            if good:
                self.solver.set("timeout", 2000)
                r = self.solver.check(*extra, *fix, *ivs)
                self.solver.set("timeout", self.qtimeout)
                self.stats["queries"] += 1
                if r == z3.sat:
                    return self.solver.model()
            d = []
            for (v, mv) in subst:
                if v.sort() == z3.RealSort():
                    d += [v - mv > z3.RealVal("1/2"), mv - v > z3.RealVal("1/2")]
                else:
                    d.append(v != mv)
            if not d:
                break
            block.append(z3.Or(d))
            self.solver.set("timeout", 2000)
            r = self.solver.check(*extra, *block)
            self.solver.set("timeout", self.qtimeout)
            if r != z3.sat:
                break
            cur = self.solver.model()
        return model

    def more_models(self, extra, m, n=3):
        out = []
        block = []
        cur = m
        for _ in range(n):
            lits = []
            for _, k, v in self.inputs[:64]:
                mv = cur.eval(v, model_completion=True)
                lits.append(v != mv)
            if not lits:
                break
            block.append(z3.Or(lits))
            # ask for a clearly different point
            far = []
            for _, k, v in self.inputs:
                if k == "f":
                    c = const_val(cur.eval(v, model_completion=True))
                    if c is not None:
                        far.append(z3.Or(v - z3.RealVal(str(Fraction(c).limit_denominator(1000))) > 1,
                                         z3.RealVal(str(Fraction(c).limit_denominator(1000))) - v > 1))
            self.solver.set("timeout", 1500)
            r = self.solver.check(*extra, *block, *far[:12])
            if r != z3.sat:
                r = self.solver.check(*extra, *block)
            self.solver.set("timeout", self.qtimeout)
            if r != z3.sat:
                break
            cur = self.solver.model()
            out.append(cur)
        return out

    def extract(self, m):
        out = []
        for n, k, v in self.inputs:
            c = const_val(m.eval(v, model_completion=True))
            if c is None:
                a = m.eval(v, model_completion=True)
                try:
                    c = Fraction(a.approx(12).as_fraction())
                except Exception:
                    c = Fraction(0)
            if isinstance(c, Fraction):
                c = [str(c.numerator), str(c.denominator)]
            out.append([n, k, c])
        return out


def const_val(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return e.as_fraction()
    return None


def to_z3const(v, like):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if like.sort() == z3.IntSort():
        return z3.IntVal(int(v))
    return z3.RealVal(str(v))


# ----------------------------------------------------------------------------- scalars
_INT_TYPES = (int, np.integer)
_FLT_TYPES = (float, np.floating)
_BOOL_TYPES = (bool, np.bool_)


def frac(x: float) -> Fraction:
    if isinstance(x, np.floating) and not isinstance(x, float):
        x = float(str(x)) if np.isfinite(x) else float(x)
    return Fraction(repr(float(x)))


def kind_of(x):
    """'b','i','f' for scalar-like x, None otherwise."""
    if isinstance(x, Sym):
        return x.k
    if isinstance(x, _BOOL_TYPES):
        return "b"
    if isinstance(x, _INT_TYPES):
        return "i"
    if isinstance(x, _FLT_TYPES) or isinstance(x, Fraction):
        return "f"
    return None


def zz(x, kind=None):
    """z3 term of x in the given kind."""
    if isinstance(x, Sym):
        z, k = x.z, x.k
    elif isinstance(x, _BOOL_TYPES):
        z, k = z3.BoolVal(bool(x)), "b"
    elif isinstance(x, _INT_TYPES):
        if kind == "f":
            return z3.RealVal(int(x))
        z, k = z3.IntVal(int(x)), "i"
    elif isinstance(x, Fraction):
        z, k = z3.RealVal(str(x)), "f"
    elif isinstance(x, _FLT_TYPES):
        if not math.isfinite(x):
            raise Unsupported(f"non-finite float {x} in a symbolic term")
        z, k = z3.RealVal(str(frac(x))), "f"
    else:
        raise Unsupported(f"cannot lift {type(x)} to a solver term")
    if kind is None or kind == k:
        return z
    if kind == "f":
        if k == "b":
            return z3.If(z, z3.RealVal(1), z3.RealVal(0))
        return z3.ToReal(z)
    if kind == "i":
        if k == "b":
            return z3.If(z, z3.IntVal(1), z3.IntVal(0))
        # truncation toward zero
        if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_TO_REAL:
            return z.arg(0)
        return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
    if kind == "b":
        return z != 0
    raise AssertionError(kind)


_RAW_KIND = z3.z3core.Z3_get_ast_kind.__defaults__[0].f
_RAW_DECL = z3.z3core.Z3_get_app_decl.__defaults__[0].f
_RAW_DKIND = z3.z3core.Z3_get_decl_kind.__defaults__[0].f
_CREF = z3.main_ctx().ref()


def _maybe_const(z, k):
    """cheap pre-test: can the term be a literal?"""
    ak = _RAW_KIND(_CREF, z.ast)
    if ak == 0:                 # numeral
        return True
    if k == "b" and ak == 1:
        return _RAW_DKIND(_CREF, _RAW_DECL(_CREF, z.ast)) <= 0x101      # true / false
    return False


def mk(z, k, npf=True):
    c = None
    if _maybe_const(z, k):
        c = const_val(z)
    if c is not None:
        if k == "b":
            return bool(c)
        if k == "i":
            return int(c)
        f = float(c)
        if Fraction(repr(f)) == c or Fraction(f) == c:
            return f
        return Sym(z, k, npf)
    return Sym(z, k, npf)


def is_nonfinite(x):
    return isinstance(x, _FLT_TYPES) and not math.isfinite(x)


_RANK = {"b": 0, "i": 1, "f": 2}


def _promote(a, b, arith=True):
    k = a if _RANK[a] >= _RANK[b] else b
    if arith and k == "b":
        k = "i"
    return k


def _sgn(x):
    """Concrete sign of a symbolic/real number, forking if needed."""
    if isinstance(x, Sym):
        if ENG.branch(zz(x, "f") > 0):
            return 1
        if ENG.branch(zz(x, "f") < 0):
            return -1
        return 0
    return (x > 0) - (x < 0)


def _nf_arith(op, a, b):
    """Arithmetic where one operand is inf/nan and the other is symbolic."""
    if (is_nonfinite(a) and math.isnan(a)) or (is_nonfinite(b) and math.isnan(b)):
        return math.nan
    if op == "add":
        return a if is_nonfinite(a) else b
    if op == "sub":
        return a if is_nonfinite(a) else -b
    if op == "mul":
        inf, o = (a, b) if is_nonfinite(a) else (b, a)
        s = _sgn(o)
        return math.nan if s == 0 else inf * s
    if op == "div":
        if is_nonfinite(b):
            return 0.0
        s = _sgn(b)
        return a * (s if s else 1)
    if op in ("mod", "floordiv", "pow"):
        raise Unsupported("non-finite " + op)
    raise AssertionError(op)


def _nf_cmp(op, a, b):
    fa = a if is_nonfinite(a) else 0.0
    fb = b if is_nonfinite(b) else 0.0
    return {"lt": fa < fb, "le": fa <= fb, "gt": fa > fb, "ge": fa >= fb, "eq": False, "ne": True}[op]


def sym_any(*xs):
    return any(isinstance(x, Sym) for x in xs)


def s_bin(op, a, b, npf=None):
    """a op b where at least one is Sym (others python/np scalars)."""
    if npf is None:
        npf = (isinstance(a, Sym) and a.npf) or (isinstance(b, Sym) and b.npf) or isinstance(a, np.generic) or isinstance(b, np.generic)
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None:
        return NotImplemented
    if is_nonfinite(a) or is_nonfinite(b):
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            return _nf_cmp(op, a, b)
        return _nf_arith(op, a, b)
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        if isinstance(a, Sym) and isinstance(b, Sym) and ka == kb and a.z.ast.value == b.z.ast.value:
            return op in ("le", "ge", "eq")
        if ka == kb == "b" and op in ("eq", "ne"):
            za, zb = zz(a), zz(b)
            return mk(za == zb if op == "eq" else za != zb, "b", npf)
        k = _promote(ka, kb)
        za, zb = zz(a, k), zz(b, k)
        r = {"lt": lambda: za < zb, "le": lambda: za <= zb, "gt": lambda: za > zb, "ge": lambda: za >= zb,
             "eq": lambda: za == zb, "ne": lambda: za != zb}[op]()
        return mk(r, "b", npf)
    if op in ("and", "or", "xor"):
        if ka == kb == "b":
            za, zb = zz(a), zz(b)
            return mk({"and": z3.And, "or": z3.Or, "xor": z3.Xor}[op](za, zb), "b", npf)
        a2, b2 = _cv(a), _cv(b)
        return {"and": lambda: a2 & b2, "or": lambda: a2 | b2, "xor": lambda: a2 ^ b2}[op]()
    if op == "add" and ka == kb == "b" and npf:
        return mk(z3.Or(zz(a), zz(b)), "b", npf)
    if op == "mul" and ka == kb == "b" and npf:
        return mk(z3.And(zz(a), zz(b)), "b", npf)
    k = _promote(ka, kb)
    if op == "div":
        k = "f"
    if op == "pow":
        return s_pow(a, b, npf)
    za, zb = zz(a, k), zz(b, k)
    if op == "add":
        if not isinstance(a, Sym) and a == 0:
            return mk(zb, k, npf)
        if not isinstance(b, Sym) and b == 0:
            return mk(za, k, npf)
        return mk(za + zb, k, npf)
    if op == "sub":
        if not isinstance(b, Sym) and b == 0:
            return mk(za, k, npf)
        return mk(za - zb, k, npf)
    if op == "mul":
        for x, y in ((a, zb), (b, za)):
            if not isinstance(x, Sym):
                if x == 0:
                    return 0 if k == "i" else 0.0
                if x == 1:
                    return mk(y, k, npf)
        # (bool as 0/1) * x  ->  If(bool, x, 0): keeps products linear
        if ka == "b" and isinstance(a, Sym):
            return mk(z3.If(a.z, zb, zz(0, k)), k, npf)
        if kb == "b" and isinstance(b, Sym):
            return mk(z3.If(b.z, za, zz(0, k)), k, npf)
        return mk(za * zb, k, npf)
    if op in ("div", "floordiv", "mod"):
        if isinstance(b, Sym):
            isz = ENG.branch(zb == 0)
        else:
            isz = b == 0
        if isz:
            if not npf:
                raise ZeroDivisionError("division by zero")
            if op == "div":
                s = _sgn(a)
                return math.nan if s == 0 else math.copysign(math.inf, s)
            if k == "i":
                return 0
            return math.nan
        if op == "div":
            return mk(za / zb, "f", npf)
        if k == "i":
            pos = (b > 0) if not isinstance(b, Sym) else None
            if pos is True:
                q = za / zb
            elif pos is False:
                q = (-za) / (-zb)
            else:
                q = z3.If(zb > 0, za / zb, (-za) / (-zb))
            return mk(q if op == "floordiv" else za - zb * q, "i", npf)
        q = z3.ToReal(z3.ToInt(za / zb))
        return mk(q if op == "floordiv" else za - zb * q, "f", npf)
    if op in ("max", "min"):
        c = za >= zb if op == "max" else za <= zb
        return mk(z3.If(c, za, zb), k, npf)
    raise Unsupported(op)


def s_pow(a, b, npf):
    if not isinstance(b, Sym):
        fb = float(b)
        if fb == int(fb) and abs(fb) <= 16:
            n = int(fb)
            k = "f" if kind_of(b) == "f" else _promote(kind_of(a), "i")
            if n < 0:
                return s_bin("div", 1.0, s_pow(a, -n, npf), npf)
            if n == 0:
                return 1.0 if k == "f" else 1
            z = zz(a, k)
            r = z
            for _ in range(n - 1):
                r = r * z
            return mk(r, k, npf)
        if fb == 0.5:
            return s_unary("sqrt", a)
    elif b.k in ("i", "b") or (z3.is_app(b.z) and b.z.decl().kind() == z3.Z3_OP_TO_REAL):
        n = ENG.concretise(zz(b, "i"))
        if not isinstance(a, Sym):
            return a ** n
        return s_pow(a, n, npf)
    f = z3.Function("uf_pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
    za, zb = zz(a, "f"), zz(b, "f")
    y = f(za, zb)
    key = ("pow", y.get_id())
    if key not in ENG.uf:
        ENG.add(z3.Implies(za > 0, y > 0))
        ENG.add(z3.Implies(zb == 0, y == 1))
        ENG.add(z3.Implies(zb == 1, y == za))
        ENG.add(z3.Implies(za == 1, y == 1))
        ENG.add(z3.Implies(z3.And(za == 0, zb > 0), y == 0))
        for (n2, _), v2 in list(ENG.uf.items()):
            if n2 == "pow":
                (a2, b2), y2 = v2
                if b2.eq(zb):
                    ENG.add(z3.Implies(z3.And(a2 > 0, za > a2, zb > 0), y > y2))
                    ENG.add(z3.Implies(z3.And(za > 0, za < a2, zb > 0), y < y2))
        ENG.uf[key] = ((za, zb), y)
    return mk(y, "f", npf)


_CONC_UNARY = {
    "exp": math.exp, "tanh": math.tanh, "sin": math.sin, "cos": math.cos,
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)),
    "logsigmoid": lambda x: -math.log1p(math.exp(-x)), "atanh": math.atanh,
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
    "log": lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan),
}


def s_unary(op, a):
    if not isinstance(a, Sym):
        if isinstance(a, Fraction):
            a = float(a)
        if op in _CONC_UNARY:
            if is_nonfinite(a):
                with np.errstate(all="ignore"):
                    if op in ("sigmoid", "logsigmoid"):
                        raise Unsupported(op)
                    return float(getattr(np, {"atanh": "arctanh"}.get(op, op))(a))
            if op == "exp" and a > 700:
                return math.inf
            r = _CONC_UNARY[op](float(a))
            if ENG is not None and op in ("exp", "log", "tanh"):
                ENG.uf_const(op, float(a), r)
            return r
        if op == "neg":
            return -a
        if op == "abs":
            return abs(a)
        if op in ("isnan", "isinf", "isfinite"):
            return getattr(math, op)(a)
        if op == "not":
            return not a
        if op == "invert":
            return (not a) if isinstance(a, _BOOL_TYPES) else ~a
        if op == "floor":
            return float(math.floor(a)) if math.isfinite(a) else a
        if op == "ceil":
            return float(math.ceil(a)) if math.isfinite(a) else a
        if op == "sign":
            return type(a)((a > 0) - (a < 0)) if not isinstance(a, bool) else a
        if op in ("round", "rint"):
            return float(round(a)) if math.isfinite(a) else a
        if op == "trunc":
            return float(math.trunc(a))
        raise Unsupported(op)
    n = a.npf
    if op == "neg":
        k = "i" if a.k == "b" else a.k
        return mk(-zz(a, k), k, n)
    if op == "pos":
        return a
    if op == "abs":
        k = "i" if a.k == "b" else a.k
        z = zz(a, k)
        return mk(z3.If(z >= 0, z, -z), k, n)
    if op in ("isnan", "isinf"):
        return False
    if op == "isfinite":
        return True
    if op == "not":
        return mk(z3.Not(zz(a, "b")), "b", n)
    if op == "invert":
        if a.k == "b":
            return mk(z3.Not(a.z), "b", n)
        return mk(-zz(a, "i") - 1, "i", n)
    if op == "floor":
        return mk(z3.ToReal(z3.ToInt(zz(a, "f"))), "f", n)
    if op == "ceil":
        return mk(-z3.ToReal(z3.ToInt(-zz(a, "f"))), "f", n)
    if op == "trunc":
        return mk(z3.ToReal(zz(a, "i")), "f", n)
    if op in ("round", "rint"):
        return mk(z3.ToReal(_round_half_even(zz(a, "f"))), "f", n)
    if op == "sign":
        z = zz(a, "f")
        return mk(z3.If(z > 0, z3.RealVal(1), z3.If(z < 0, z3.RealVal(-1), z3.RealVal(0))), "f", n)
    z = z3.simplify(zz(a, "f"))
    c = const_val(z)
    if c is not None:
        return s_unary(op, float(c))
    if op == "log":
        if not _positive(z):
            if not ENG.branch(z > 0):
                return -math.inf if ENG.branch(z == 0) else math.nan
    if op == "sqrt":
        if not ENG.branch(z >= 0):
            return math.nan
    if op in _CONC_UNARY:
        return mk(ENG.ufapp(op, z), "f", n)
    raise Unsupported(op)


def _positive(z, depth=12):
    """strictly positive by its shape (exponentials, positive constants, sums, products and quotients of them)"""
    c = const_val(z)
    if c is not None:
        return c > 0
    if depth == 0 or not z3.is_app(z):
        return False
    if z.decl().name() == "uf_exp":
        return True
    k = z.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        return all(_positive(x, depth - 1) for x in z.children())
    if k == z3.Z3_OP_ITE:
        return _positive(z.arg(1), depth - 1) and _positive(z.arg(2), depth - 1)
    return False


def _round_half_even(z):
    f = z3.ToInt(z)
    d = z - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def _cv(x):
    if isinstance(x, Sym):
        v = ENG.concretise(x.z)
        return v
    return x


PICKLED = None      # a list while pickling within one process is modelled: terms are pickled by reference


def _unpickle(i):
    return PICKLED[i]


class Sym:
    """A symbolic scalar."""
    __slots__ = ("z", "k", "npf")
    __array_priority__ = 1000.0

    def __init__(self, z, k, npf=False):
        self.z = z
        self.k = k
        self.npf = npf

    # -- concretisation points
    def __bool__(self):
        return ENG.branch(zz(self, "b"))

    def __index__(self):
        if self.k == "f":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(ENG.concretise(zz(self, "i")))

    def __int__(self):
        return int(ENG.concretise(zz(self, "i")))

    def __float__(self):
        if ENG is None:
            raise TypeError("symbolic float")
        v = ENG.concretise(zz(self, "f"))
        return float(v)

    def __hash__(self):
        v = ENG.concretise(self.z)
        return hash(float(v) if isinstance(v, Fraction) else v)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        if PICKLED is None:
            raise Unsupported("pickling a symbolic value")
        PICKLED.append(self)
        return _unpickle, (len(PICKLED) - 1,)

    def __repr__(self):
        return f"<{self.k}:{str(self.z)[:60]}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- numpy-scalar protocol
    @property
    def dtype(self):
        return np.dtype({"b": bool, "i": np.int64, "f": np.float64}[self.k])

    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return Sym(self.z, self.k, False)

    def astype(self, dt, copy=True):
        return s_cast(self, np.dtype(dt).kind)

    def copy(self):
        return self

    def _arr(self):
        from .arr import SymArray
        return SymArray.from_obj(self, self.dtype)

    def __getattr__(self, name):
        if name in ("reshape", "flatten", "ravel", "sum", "mean", "max", "min", "squeeze", "any", "all",
                    "tolist", "std", "repeat", "argmax", "clip"):
            if name == "tolist":
                return self.item
            return getattr(self._arr(), name)
        raise AttributeError(name)

    @property
    def real(self):
        return self

    def is_integer(self):
        z = zz(self, "f")
        return mk(z3.ToReal(z3.ToInt(z)) == z, "b", self.npf)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from .arr import ufunc_impl
        return ufunc_impl(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import function_impl
        return function_impl(func, args, kwargs)

    def __round__(self, n=None):
        if n:
            sc = 10 ** n
            return mk(z3.ToReal(_round_half_even(zz(self, "f") * sc)) / sc, "f", self.npf)
        if self.k != "f":
            return self
        r = _round_half_even(zz(self, "f"))
        return mk(r, "i", False) if n is None else mk(z3.ToReal(r), "f", self.npf)

    def __trunc__(self):
        return mk(zz(self, "i"), "i", False)

    def __floor__(self):
        return mk(z3.ToInt(zz(self, "f")), "i", False)

    def __ceil__(self):
        return mk(-z3.ToInt(-zz(self, "f")), "i", False)

    def __neg__(self):
        return s_unary("neg", self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_unary("abs", self)

    def __invert__(self):
        return s_unary("invert", self)

    def __divmod__(self, o):
        return (self // o, self % o)


def _defop(name, op, swap=False):
    if swap:
        def f(self, o):
            if isinstance(o, Sym) or kind_of(o) is not None:
                return s_bin(op, o, self)
            return NotImplemented
    else:
        def f(self, o):
            if isinstance(o, Sym) or kind_of(o) is not None:
                return s_bin(op, self, o)
            if op == "eq" and not hasattr(o, "__array_ufunc__") and not hasattr(o, "__torch_function__"):
                return False
            if op == "ne" and not hasattr(o, "__array_ufunc__") and not hasattr(o, "__torch_function__"):
                return True
            return NotImplemented
    f.__name__ = name
    setattr(Sym, name, f)


for _n, _o in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("floordiv", "floordiv"),
               ("mod", "mod"), ("pow", "pow"), ("and", "and"), ("or", "or"), ("xor", "xor")):
    _defop(f"__{_n}__", _o)
    _defop(f"__r{_n}__", _o, True)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    _defop(f"__{_n}__", _n)

numbers.Number.register(Sym)


def s_cast(x, k):
    """Cast scalar x (sym or not) to numpy kind letter."""
    k = {"u": "i"}.get(k, k)
    if k not in ("b", "i", "f"):
        return x
    if isinstance(x, Sym):
        return x if x.k == k else mk(zz(x, k), k, x.npf)
    if x is None:
        if k == "f":
            return math.nan
        raise TypeError("int() argument must be a string or a real number, not 'NoneType'")
    if isinstance(x, Fraction):
        return float(x) if k == "f" else (int(x) if k == "i" else bool(x))
    if k == "b":
        return bool(x)
    if k == "i":
        if isinstance(x, _FLT_TYPES) and not math.isfinite(x):
            return -(2 ** 63)
        return int(x)
    return float(x)


def s_ite(c, a, b):
    """c ? a : b on scalars; c may be python bool or Sym."""
    if not isinstance(c, Sym):
        return a if c else b
    if a is b:
        return a
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None or is_nonfinite(a) or is_nonfinite(b):
        if ka is not None and kb is not None and not sym_any(a, b) and (a == b):
            return a
        return a if c else b
    if not sym_any(a, b) and a == b and ka == kb:
        return a
    k = _promote(ka, kb, arith=False)
    cz = zz(c, "b")
    za, zb = zz(a, k), zz(b, k)
    if za.eq(zb):
        return mk(za, k)
    return mk(z3.If(cz, za, zb), k)


def s_and(xs):
    xs = list(xs)
    if not any(isinstance(x, Sym) for x in xs):
        return all(bool(x) for x in xs)
    zs = []
    for x in xs:
        if isinstance(x, Sym):
            zs.append(zz(x, "b"))
        elif not x:
            return False
    return mk(z3.And(zs) if len(zs) > 1 else zs[0], "b")


def s_or(xs):
    xs = list(xs)
    if not any(isinstance(x, Sym) for x in xs):
        return any(bool(x) for x in xs)
    zs = []
    for x in xs:
        if isinstance(x, Sym):
            zs.append(zz(x, "b"))
        elif x:
            return True
    return mk(z3.Or(zs) if len(zs) > 1 else zs[0], "b")


def explore(fn, eng: Engine, max_paths=2000, budget_s=60.0):
    """Run fn() over all feasible paths.  fn returns per-path record; yields records."""
    global ENG
    import symx.core as me
    me.ENG = eng
    t0 = time.time()
    eng.deadline = t0 + budget_s * 1.5
    stack = [[]]
    done = True
    rng = random.Random(1)
    while stack:
        if eng.stats["paths"] >= max_paths or time.time() - t0 > budget_s:
            done = False
            break
        # random order beyond the first paths: a budget that runs out has sampled the whole tree
        i = rng.randrange(len(stack)) if len(stack) > 1 else 0
        stack[i], stack[-1] = stack[-1], stack[i]
        prefix = stack.pop()
        eng.begin(prefix)
        rec = None
        try:
            rec = fn()
        except PathAbort:
            eng.stats["aborted"] += 1
        except EngineLimit:
            done = False
            break
        eng.stats["paths"] += 1
        stack.extend(eng.work)
        yield rec
    eng.exhausted = done
