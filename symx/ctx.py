"""Harness context, in symbolic and in concrete (replay) flavour."""
from __future__ import annotations

import math
import random
from fractions import Fraction

import numpy as np
import torch

from . import core, nondet

REGISTRY: dict[str, list] = {}


class Task:
    def __init__(self, fn, prop, params, tier, max_paths, budget, must_reach):
        self.fn, self.prop, self.params, self.tier = fn, prop, params, tier
        self.max_paths, self.budget, self.must_reach = max_paths, budget, must_reach

    @property
    def name(self):
        return self.fn.__name__ + ("[" + ",".join(f"{k}={v}" for k, v in self.params.items()) + "]" if self.params else "")


def harness(prop, params=None, thorough=None, max_paths=3000, budget=25.0, must_reach=True):
    """params: list of kwargs dicts for the quick tier; thorough: additional ones for the thorough tier."""
    def deco(fn):
        for p in (params if params is not None else [{}]):
            REGISTRY.setdefault(prop, []).append(Task(fn, prop, p, "quick", max_paths, budget, must_reach))
        for p in thorough or []:
            REGISTRY.setdefault(prop, []).append(Task(fn, prop, p, "thorough", max_paths * 10, budget * 20, must_reach))
        return fn
    return deco


class CheckFailed(Exception):
    pass


class Ctx:
    fork_permutations = False      # one path per shuffle instead of symbolic positions
    sym = False
    patch_random = True

    def __init__(self):
        self.events: list = []
        self.drawn: dict = {}
        nondet.CTX = self

    def event(self, kind, value=None):
        self.events.append((kind, value))

    def draw_int(self, tag, lo, hi):
        return self._drawn(tag, self.int("nd_" + tag, lo, hi, draw=True))

    def draw_real(self, tag, lo=None, hi=None):
        if lo == 0 and hi == 1:
            return self._drawn(tag, self.real("nd_" + tag, lo, hi, strict_hi=True))
        return self._drawn(tag, self.real("nd_" + tag, lo, hi))

    def _drawn(self, tag, v):
        self.drawn.setdefault(tag, []).append(v)
        return v

    def draws(self, tag):
        """the random values drawn under this tag since the last call"""
        return self.drawn.pop(tag, [])

    # arrays of inputs
    def reals(self, name, shape, lo=None, hi=None, dtype=float):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        vals = [self.real(f"{name}_{'_'.join(map(str, ix))}", lo, hi) for ix in np.ndindex(*shape)]
        return self._array(vals, shape, dtype)

    def ints(self, name, shape, lo=None, hi=None, dtype=np.int64):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        vals = [self.int(f"{name}_{'_'.join(map(str, ix))}", lo, hi) for ix in np.ndindex(*shape)]
        return self._array(vals, shape, dtype)

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        vals = [self.bool(f"{name}_{'_'.join(map(str, ix))}") for ix in np.ndindex(*shape)]
        return self._array(vals, shape, bool)

    def _array(self, vals, shape, dtype):
        if not vals:
            return self.np.zeros(shape, dtype=dtype)
        return self.np.array(vals, dtype=dtype).reshape(shape)

    def treals(self, name, shape, lo=None, hi=None, grad=False, dtype=torch.float32):
        a = self.reals(name, shape, lo, hi)
        return self.tensor(a, dtype, grad)

    def pick(self, name, options):
        """a configuration choice: forks over the options"""
        i = self.int(name, 0, len(options) - 1)
        return options[self.conc(i)]

    def eq(self, a, b, label, tol=None):
        raise NotImplementedError

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return True
        except Exception as e:
            raise CheckFailed(f"{label}: raised {type(e).__name__}: {e} instead of {exc}") from e
        self.check(False, label)
        return False

    def outcome(self, fn):
        """('ok', value) or ('err', exception type name)"""
        try:
            return "ok", fn()
        except Exception as e:
            if isinstance(e, (core.Unsupported, CheckFailed)):
                raise
            return "err", type(e).__name__


def _leaves(a, b, path=""):
    """pairwise leaves of two nested structures; yields (path, x, y) or (path, 'mismatch')."""
    from tianshou.data import Batch
    if isinstance(a, Batch) or isinstance(b, Batch):
        if not (isinstance(a, Batch) and isinstance(b, Batch)):
            yield path, None, f"{type(a).__name__} vs {type(b).__name__}"
            return
        if set(a.keys()) != set(b.keys()):
            yield path, None, f"keys {sorted(a.keys())} vs {sorted(b.keys())}"
            return
        for k in sorted(a.keys()):
            yield from _leaves(a[k], b[k], f"{path}.{k}")
        return
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            yield path, None, f"keys {sorted(a)} vs {sorted(b)}"
            return
        for k in a:
            yield from _leaves(a[k], b[k], f"{path}.{k}")
        return
    yield path, a, b


# =========================================================================== symbolic
class SymCtx(Ctx):
    sym = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng
        from .arr import NP
        from .ten import TORCH
        self.np = NP
        self.torch = TORCH

    def int(self, name, lo=None, hi=None, draw=False):
        z = self.eng.fresh(name, "i")
        if lo is not None:
            self.eng.add(z >= core.zz(lo, "i"))
        if hi is not None:
            self.eng.add(z <= core.zz(hi, "i"))
        return core.Sym(z, "i", draw)

    def real(self, name, lo=None, hi=None, strict_hi=False, strict_lo=False):
        z = self.eng.fresh(name, "f")
        if lo is not None:
            l = core.zz(lo, "f")
            self.eng.add(z > l if strict_lo else z >= l)
        if hi is not None:
            h = core.zz(hi, "f")
            self.eng.add(z < h if strict_hi else z <= h)
        return core.Sym(z, "f", name.startswith("nd_"))

    def bool(self, name):
        return core.Sym(self.eng.fresh(name, "b"), "b", False)

    def tensor(self, a, dtype=torch.float32, grad=False):
        from .ten import SymTensor, T2N
        from .arr import SymArray
        return SymTensor(SymArray.wrap(a).astype(T2N[dtype]), grad)

    def conc(self, x):
        """concretise (fork over all feasible values)"""
        from .arr import SymArray
        from .ten import SymTensor
        if isinstance(x, (SymArray, SymTensor)):
            x = x.item()
        if isinstance(x, core.Sym):
            v = self.eng.concretise(x.z)
            return float(v) if isinstance(v, Fraction) else v
        return x.item() if isinstance(x, np.generic) else x

    def assume(self, c):
        self.eng.assume(self._z(c))

    def maybe(self, c):
        return bool(c)

    def _z(self, c):
        from .arr import SymArray
        from .ten import SymTensor
        if isinstance(c, SymTensor):
            c = c._a
        if isinstance(c, np.ndarray):
            c = SymArray.wrap(c).all() if c.ndim else c[()]
        if isinstance(c, core.Sym):
            return core.zz(c, "b")
        return bool(c)

    def check(self, c, label):
        self.eng.require(label, self._z(c))

    def reach(self, c, label):
        """some inputs / random outcomes make c true (decided over all paths of the task)"""
        self.eng.reach(label, self._z(c))

    def implies(self, a, b, label):
        self.check(core.s_or([core.s_unary("not", a), b]), label)

    def ite(self, c, a, b):
        return core.s_ite(c, a, b)

    def And(self, *xs):
        return core.s_and([self._b(x) for x in xs])

    def Or(self, *xs):
        return core.s_or([self._b(x) for x in xs])

    def Not(self, x):
        return core.s_unary("not", self._b(x))

    def _b(self, x):
        z = self._z(x)
        return z if isinstance(z, bool) else core.mk(z, "b")

    def eqv(self, a, b):
        """symbolic truth value of deep equality"""
        res = []
        for _, x, y in _leaves(a, b):
            if x is None and isinstance(y, str):
                return False
            r = self._eq_leaf(x, y)
            if r[0] is False:
                return False
            res.append(r[0])
        return core.s_and(res)

    def _eq_leaf(self, x, y):
        """-> (exact cond, weak cond) or (False, reason)"""
        from .arr import SymArray, e_bin
        from .core import s_bin, s_unary
        if x is None or y is None or isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)):
            return (x is y or (x is not None and y is not None and x == y)), None
        if isinstance(x, core.Sym) and isinstance(y, core.Sym) and x.k == y.k and x.z.ast.value == y.z.ast.value:
            return True, True
        try:
            xa, ya = SymArray.wrap(x), SymArray.wrap(y)
        except (core.Unsupported, ValueError, TypeError):
            return bool(x == y), None
        if xa.shape != ya.shape:
            return False, f"shape {xa.shape} vs {ya.shape}"
        ex, wk = [], []
        rx, ry = xa.view(np.ndarray), ya.view(np.ndarray)
        for n_, (p, q) in enumerate(zip(rx.ravel().tolist(), ry.ravel().tolist())):
            if p is q and p == p:
                continue
            if not core.sym_any(p, q):
                if core.kind_of(p) is not None and core.kind_of(q) is not None:
                    ok = p == q or (p != p and q != q) or (core.kind_of(p) == "f" or core.kind_of(q) == "f") and \
                        math.isclose(float(p), float(q), rel_tol=1e-6, abs_tol=1e-6)
                else:
                    ok = _plain_eq(p, q)
                if not ok:
                    return False, f"{p!r} vs {q!r} at {np.unravel_index(n_, xa.shape)}"
                continue
            c = s_bin("eq", p, q)
            if c is False:
                return False, f"{p!r} vs {q!r} at {np.unravel_index(n_, xa.shape)}"
            if c is True:
                continue
            ex.append(c)
            if core.kind_of(p) == "f" or core.kind_of(q) == "f":
                d = s_unary("abs", s_bin("sub", core.s_cast(p, "f"), core.s_cast(q, "f")))
                wk.append(s_bin("le", d, Fraction(1, 50)))
            else:
                wk.append(c)
        return core.s_and(ex), (core.s_and(wk) if wk else True)

    def eq(self, a, b, label, tol=None):
        for path, x, y in _leaves(a, b):
            lab = f"{label}{path}"
            if x is None and isinstance(y, str) and not isinstance(a, (str, type(None))):
                self.eng.require(f"{lab} ({y})", False)
                continue
            c, w = self._eq_leaf(x, y)
            if c is False:
                self.eng.require(f"{lab} ({w})" if w else lab, False)
            else:
                self.eng.require(lab, self._z(c))
                if self.eng.pending and w is not None and not isinstance(w, bool):
                    l, z = self.eng.pending[-1][:2]
                    if l == lab:
                        self.eng.pending[-1] = (l, z, core.zz(w, "b"))

    def param(self, a, dtype=torch.float32):
        """a leaf tensor that gradients are taken with respect to"""
        from . import grad
        t = self.tensor(a, dtype)
        grad.register(self.eng, t)
        t.requires_grad_(True)
        return t

    def moved(self, t):
        """the leaf's values were replaced by fresh variables"""
        from . import grad
        for e in t._a.view(np.ndarray).reshape(-1).tolist():
            if isinstance(e, core.Sym):
                self.eng.params[e.z.get_id()] = e.z
        self.eng.dep.clear()
        for v, _ in self.eng.sg:
            self.eng.dep[v.get_id()] = (v, False)

    def grad(self, loss, params):
        """[d loss / d p for p in params]"""
        from . import grad
        from .ten import SymTensor
        return [SymTensor(grad.gradient(self.eng, loss._a.view(np.ndarray).reshape(-1).tolist()[0], p)) for p in params]

    def leaf_grad(self, p, zero=False):
        """gradient accumulated in a leaf by backward() since it was last zeroed"""
        from .ten import SymTensor
        from .arr import SymArray
        lf = next(l for l in self.eng.leaves if l[0] is p)
        if zero:
            lf[1].clear()
            return None
        acc = SymTensor(SymArray.from_raw(np.full(p._a.shape, 0.0, dtype=object), p._a.dtype))
        for loss in lf[1]:
            acc = acc + self.grad(loss, [p])[0]
        return acc

    def stale_grad(self, p):
        """gradients left over from whatever was computed with the parameter before"""
        for l in self.eng.leaves or ():
            if l[0] is p:
                l[1].append((p * 0.75).sum())

    def eq_grad(self, a, b, label, tol=None):
        """equality away from the points where the loss is not differentiable"""
        n = len(self.eng.pending)
        self.eq(a, b, label, tol)
        import z3
        ks = self.eng.kinks[0] if self.eng.kinks else []
        K = z3.And(*ks) if ks else z3.BoolVal(True)
        for i in range(n, len(self.eng.pending)):
            l, z, *w = self.eng.pending[i]
            self.eng.pending[i] = (l, z3.Implies(K, z), *[z3.Implies(K, x) if x is not None else None for x in w])

    def observe(self, label, value):
        self.eng.observed.append((label, value))

    def deps(self):
        return self.eng


def _plain_eq(p, q):
    try:
        return bool(p == q)
    except Exception:
        return p is q


# =========================================================================== concrete
class AssumeFailed(BaseException):
    pass


class ConcCtx(Ctx):
    sym = False

    def __init__(self, inputs, seed=0):
        super().__init__()
        self.np = np
        self.torch = torch
        self.vals = {n: (k, v) for n, k, v in inputs}
        self.names: dict = {}
        self.rng = random.Random(seed)
        self.failed: list = []
        self.reached: set = set()
        self.nchecks = 0
        self.missing = 0
        self.observed = []

    def _next(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        full = name if n == 0 else f"{name}#{n}"
        v = self.vals.get(full)
        if v is None:
            self.missing += 1
            return None
        v = v[1]
        if isinstance(v, list):
            return Fraction(int(v[0]), int(v[1]))
        return v

    def int(self, name, lo=None, hi=None, draw=False):
        v = self._next(name)
        if v is None:
            lo2, hi2 = (lo if lo is not None else -3), (hi if hi is not None else 3)
            if hi2 < lo2:
                raise AssumeFailed
            v = self.rng.randint(int(lo2), int(hi2))
        v = int(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed
        return np.int64(v) if draw else v

    def real(self, name, lo=None, hi=None, strict_hi=False, strict_lo=False):
        v = self._next(name)
        if v is None:
            v = self.rng.uniform(float(lo) if lo is not None else -4, float(hi) if hi is not None else 4)
        return float(v)

    def bool(self, name):
        v = self._next(name)
        if v is None:
            v = self.rng.random() < 0.5
        return bool(v)

    def tensor(self, a, dtype=torch.float32, grad=False):
        t = torch.as_tensor(np.array(a)).to(dtype)
        return t.requires_grad_(True) if grad else t

    def param(self, a, dtype=torch.float32):
        return torch.as_tensor(np.array(a)).to(dtype).requires_grad_(True)

    def moved(self, t):
        pass

    def grad(self, loss, params):
        if not loss.requires_grad:
            return [torch.zeros_like(p) for p in params]
        gs = torch.autograd.grad(loss.sum(), params, retain_graph=True, allow_unused=True)
        return [torch.zeros_like(p) if g is None else g for g, p in zip(gs, params)]

    def leaf_grad(self, p, zero=False):
        if zero:
            p.grad = None
            return None
        return torch.zeros_like(p) if p.grad is None else p.grad.clone()

    def stale_grad(self, p):
        p.grad = torch.full_like(p, 0.75)

    def eq_grad(self, a, b, label, tol=None):
        self.eq(a, b, label, tol)

    def conc(self, x):
        return x.item() if hasattr(x, "item") else x

    def assume(self, c):
        if not bool(np.all(np.asarray(c))):
            raise AssumeFailed

    def maybe(self, c):
        return bool(c)

    def check(self, c, label):
        self.nchecks += 1
        if isinstance(c, torch.Tensor):
            c = c.detach().numpy()
        if not bool(np.all(np.asarray(c))):
            self.failed.append(label)

    def reach(self, c, label):
        if bool(np.all(np.asarray(c))):
            self.reached.add(label)

    def implies(self, a, b, label):
        self.check((not a) or b, label)

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *xs):
        return all(bool(np.all(np.asarray(x))) for x in xs)

    def Or(self, *xs):
        return any(bool(np.all(np.asarray(x))) for x in xs)

    def Not(self, x):
        return not bool(x)

    def eqv(self, a, b):
        for _, x, y in _leaves(a, b):
            if x is None and isinstance(y, str):
                return False
            if self._cmp(x, y, None) is not None:
                return False
        return True

    def _cmp(self, x, y, tol):
        if x is None or y is None or isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)):
            return None if (x is y or (x is not None and y is not None and x == y)) else f"{x!r} vs {y!r}"
        f = lambda v: v.detach().cpu().numpy() if isinstance(v, torch.Tensor) else np.asarray(
            [e.detach().cpu().numpy() if isinstance(e, torch.Tensor) else e for e in v] if isinstance(v, (list, tuple)) else v)
        xa, ya = f(x), f(y)
        if xa.shape != ya.shape:
            return f"shape {xa.shape} vs {ya.shape}"
        if xa.dtype == object or ya.dtype == object:
            ok = all(_plain_eq(p, q) or (isinstance(p, float) and math.isclose(p, q, abs_tol=1e-3, rel_tol=1e-3)) for p, q in zip(xa.reshape(-1), ya.reshape(-1)))
        elif xa.dtype.kind == "f" or ya.dtype.kind == "f":
            t = 2e-3 if tol is None else tol
            with np.errstate(all="ignore"):
                ok = bool(np.all(np.isclose(xa.astype(float), ya.astype(float), rtol=t, atol=t, equal_nan=True)))
        else:
            ok = bool(np.array_equal(xa, ya))
        return None if ok else f"{xa.tolist()!r:.300} vs {ya.tolist()!r:.300}"

    def eq(self, a, b, label, tol=None):
        for path, x, y in _leaves(a, b):
            self.nchecks += 1
            if x is None and isinstance(y, str) and not isinstance(a, (str, type(None))):
                self.failed.append(f"{label}{path} ({y})")
                continue
            r = self._cmp(x, y, tol)
            if r is not None:
                self.failed.append(f"{label}{path}: {r}")

    def observe(self, label, value):
        self.observed.append((label, value))
