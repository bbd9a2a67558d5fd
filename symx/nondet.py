"""Nondeterministic environment stubs (randomness, autograd side effects) shared by the symbolic
and the concrete (replay) mode.  Every value drawn is an input of the harness: in symbolic mode a
fresh constrained solver variable, in replay the value recorded in the model."""
from __future__ import annotations

import numpy as _np
import torch as _torch

CTX = None


def _xp():
    if CTX.sym:
        from .arr import NP
        return NP
    return _np


def _size(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    return (int(size),)


def _fill(shape, gen):
    n = 1
    for s in shape:
        n *= s
    vals = [gen() for _ in range(n)]
    return vals


def _mk(vals, shape, dtype):
    xp = _xp()
    if not vals:
        return xp.zeros(shape, dtype=dtype)
    return xp.array(vals, dtype=dtype).reshape(shape)


def _int(lo, hi, tag):
    return CTX.draw_int(tag, lo, hi)


def np_seed(*a, **k):
    CTX.event("np_seed", a[0] if a else None)


def np_choice(a, size=None, replace=True, p=None):
    xp = _xp()
    if isinstance(a, (int, _np.integer)) or getattr(a, "shape", None) == () and not hasattr(a, "_a"):
        n = int(a)
        pool = None
    else:
        pool = xp.array(a)
        n = len(pool)
    sh = _size(size)
    cnt = 1
    for s in sh or ():
        cnt *= s
    if n == 0 and (sh is None or cnt > 0):
        raise ValueError("'a' cannot be empty unless no samples are taken")
    if not replace and cnt > n:
        raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    if p is not None:
        p = xp.array(p, dtype=float)
        if len(p) != n:
            raise ValueError("'a' and 'p' must have same size")
        if CTX.maybe(((p < 0)).any()):
            raise ValueError("probabilities are not non-negative")
        s = p.sum()
        if CTX.maybe((s - 1 > 1e-7) | (1 - s > 1e-7)) if CTX.sym else abs(s - 1) > 1e-6:
            raise ValueError("probabilities do not sum to 1")
    draws = []
    for _ in range(cnt):
        d = _int(0, n - 1, "choice")
        if not replace:
            for e in draws:
                CTX.assume(d != e)
        if p is not None:
            CTX.assume(p[d] > 0)
        draws.append(d)
    if sh is None:
        return pool[draws[0]] if pool is not None else draws[0]
    ix = _mk(draws, sh, _np.int64)
    return pool[ix] if pool is not None else ix


def np_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    sh = _size(size)
    if sh is None:
        return _int(low, high - 1, "randint")
    return _mk(_fill(sh, lambda: _int(low, high - 1, "randint")), sh, dtype)


def np_permutation(x):
    xp = _xp()
    if isinstance(x, (int, _np.integer)):
        n, pool = int(x), None
    else:
        pool = xp.array(x)
        n = len(pool)
    draws = []
    for _ in range(n):
        d = _int(0, n - 1, "perm")
        for e in draws:
            CTX.assume(d != e)
        draws.append(CTX.conc(d) if CTX.fork_permutations else d)
    ix = _mk(draws, (n,), _np.int64)
    return ix if pool is None else pool[ix]


def np_shuffle(x):
    x[...] = np_permutation(x)


def np_rand(*shape):
    if not shape:
        return CTX.draw_real("rand", 0, 1)
    return _mk(_fill(shape, lambda: CTX.draw_real("rand", 0, 1)), shape, float)


def np_random(size=None):
    return np_rand(*(_size(size) or ()))


np_random_sample = np_random


def np_uniform(low=0.0, high=1.0, size=None):
    sh = _size(size)
    if sh is None:
        sh = _np.broadcast_shapes(_np.shape(low), _np.shape(high)) if not CTX.sym else _np.broadcast_shapes(
            getattr(low, "shape", ()), getattr(high, "shape", ()))
        if sh == ():
            return low + (high - low) * CTX.draw_real("rand", 0, 1)
    return low + (high - low) * np_rand(*sh)


def np_randn(*shape):
    if not shape:
        return CTX.draw_real("randn")
    return _mk(_fill(shape, lambda: CTX.draw_real("randn")), shape, float)


def np_normal(loc=0.0, scale=1.0, size=None):
    sh = _size(size)
    if sh is None:
        sh = _np.broadcast_shapes(getattr(loc, "shape", ()), getattr(scale, "shape", ()))
    if sh == ():
        return loc + scale * CTX.draw_real("randn")
    return loc + scale * np_randn(*sh)


np_standard_normal = lambda size=None: np_randn(*(_size(size) or ()))


# ---- torch
def _mkt(vals, shape, dtype):
    if CTX.sym:
        from .ten import c_tensor
        if not vals:
            from .ten import SHIM
            return SHIM["zeros"](*shape, dtype=dtype)
        t = c_tensor(vals, dtype=dtype)
        return t.reshape(*shape)
    return _torch.tensor(vals, dtype=dtype).reshape(shape)


def torch_rand(*shape, size=None, **k):
    shape = shape or (size,)
    shape = tuple(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
    return _mkt(_fill(shape, lambda: CTX.draw_real("trand", 0, 1)), shape, _torch.float32)


def torch_randn(*shape, size=None, **k):
    shape = shape or (size,)
    shape = tuple(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
    return _mkt(_fill(shape, lambda: CTX.draw_real("trandn")), shape, _torch.float32)


def torch_normal(mean, std=1.0, size=None, **k):
    if size is not None:
        return mean + std * torch_randn(*_size(size))
    sh = mean.shape if hasattr(mean, "shape") else std.shape
    return mean + std * torch_randn(*sh)


def torch_randperm(n, **k):
    ix = np_permutation(n)
    return _torch.as_tensor(ix) if not CTX.sym else __import__("symx.ten", fromlist=["x"]).c_as_tensor(ix)


def torch_randint(low, high=None, size=None, **k):
    if size is None:
        low, high, size = 0, low, high
    sh = _size(size)
    return _mkt(_fill(sh, lambda: _int(low, high - 1, "trandint")), sh, _torch.int64)


def torch_multinomial(probs, num_samples=1, replacement=False, **k):
    sh = tuple(probs.shape)
    rows = 1
    for s in sh[:-1]:
        rows *= s
    p2 = probs.reshape(rows, sh[-1])
    out = []
    for r in range(rows):
        for _ in range(num_samples):
            d = _int(0, sh[-1] - 1, "multinomial")
            CTX.assume((p2[r][d] > 0).item() if hasattr(p2[r][d], "item") else p2[r][d] > 0)
            out.append(d)
    return _mkt(out, (*sh[:-1], num_samples), _torch.int64)


def on_backward(loss):
    CTX.event("backward", loss)


def install_distributions():
    """torch.distributions draws standard normals through a helper that fills an empty tensor in place"""
    import torch.distributions.multivariate_normal as mv
    import torch.distributions.normal as no
    import torch.distributions.utils as ut
    real = ut._standard_normal

    def std_normal(shape, dtype, device):
        if CTX is None or not CTX.patch_random:
            return real(shape, dtype, device)
        return torch_randn(*shape)
    for m in (mv, no, ut):
        m._standard_normal = std_normal


# ---- installation for the replay (real numpy / torch)
def install_real():
    install_distributions()
    for nm in ("seed", "choice", "randint", "permutation", "shuffle", "rand", "random", "random_sample", "uniform", "randn", "normal", "standard_normal"):
        real = getattr(_np.random, nm)

        def f(*a, _r=real, _m=globals()["np_" + nm], **k):
            if CTX is None or not CTX.patch_random:
                return _r(*a, **k)
            return _m(*a, **k)
        setattr(_np.random, nm, f)
    for nm in ("rand", "randn", "randperm", "randint", "normal", "multinomial"):
        real = getattr(_torch, nm)

        def f(*a, _r=real, _m=globals()["torch_" + nm], **k):
            if CTX is None or not CTX.patch_random:
                return _r(*a, **k)
            return _m(*a, **k)
        setattr(_torch, nm, f)
    for nm in ("rand", "randn"):
        def h(t, *a, _r=getattr(_torch, nm + "_like"), _m=globals()["torch_" + nm], **k):
            return _r(t, *a, **k) if CTX is None or not CTX.patch_random else _m(*t.shape)
        setattr(_torch, nm + "_like", h)
    import sys
    for nm, gen in (("uniform_", torch_rand), ("normal_", torch_randn)):      # in-place draws; the initialisation of real layers keeps its own
        real = getattr(_torch.Tensor, nm)

        def g(t, *a, _r=real, _g=gen, **k):
            if CTX is None or not CTX.patch_random or "/tianshou/" not in sys._getframe(1).f_code.co_filename:
                return _r(t, *a, **k)
            x, y = (*a, *(0.0, 1.0)[len(a):])
            z = _g(*t.shape)
            return t.copy_(x + (y - x) * z if _g is torch_rand else x + y * z)
        setattr(_torch.Tensor, nm, g)
