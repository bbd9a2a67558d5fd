"""Gradients of the symbolic tensors.

Every tensor element is a Z3 term over the parameters (leaf variables), so the gradient of a loss is obtained by
differentiating the term.  detach()/no_grad are modelled by stop-gradient variables: a tensor that does not require
grad has every element depending on a parameter replaced by a fresh constant, which is substituted back wherever a
constraint or an assertion is handed to the solver."""
from __future__ import annotations

import numpy as np
import z3

from . import core
from .core import Sym, Unsupported


def register(eng, tensor):
    """make `tensor` a leaf: its elements (distinct variables) are parameters from now on"""
    if not hasattr(eng, "leaves") or eng.leaves is None:
        eng.leaves, eng.params, eng.sg, eng.dep = [], {}, [], {}
    vs = []
    for e in tensor._a.view(np.ndarray).reshape(-1).tolist():
        if isinstance(e, Sym):
            eng.params[e.z.get_id()] = e.z
            vs.append(e.z)
    eng.dep.clear()
    for v, _ in eng.sg:
        eng.dep[v.get_id()] = (v, False)
    eng.leaves.append([tensor, []])


def depends(eng, z):
    """does the term mention a parameter (outside stop-gradient variables)?"""
    dep = eng.dep
    i = z.get_id()
    h = dep.get(i)
    if h is not None:
        return h[1]
    stack = [z]
    while stack:
        t = stack[-1]
        ti = t.get_id()
        if ti in dep:
            stack.pop()
            continue
        if ti in eng.params:
            dep[ti] = (t, True)
            stack.pop()
            continue
        ch = t.children()
        todo = [c for c in ch if c.get_id() not in dep]
        if todo:
            stack.extend(todo)
            continue
        dep[ti] = (t, any(dep[c.get_id()][1] for c in ch))
        stack.pop()
    return dep[i][1]


def stop(eng, a):
    """SymArray -> SymArray whose elements are constants for differentiation"""
    raw = a.view(np.ndarray)
    if a.dtype.kind != "f":
        return a
    flat = raw.reshape(-1).tolist()
    if not any(isinstance(e, Sym) and depends(eng, e.z) for e in flat):
        return a
    from .arr import SymArray
    out = np.empty(len(flat), dtype=object)
    memo = {}
    for k, e in enumerate(flat):
        if isinstance(e, Sym) and depends(eng, e.z):
            i = e.z.get_id()
            if i not in memo:
                v = z3.Real(f"sg!{len(eng.sg)}")
                eng.sg.append((v, resolve(eng, e.z)))
                eng.dep[v.get_id()] = (v, False)
                memo[i] = v
            e = Sym(memo[i], e.k, e.npf)
        out[k] = e
    return SymArray.from_raw(out.reshape(raw.shape), a.dtype)


def resolve(eng, z):
    if not eng.sg:
        return z
    return z3.substitute(z, *eng.sg)


def _add(xs):
    xs = [x for x in xs if x is not None]
    if not xs:
        return None
    return xs[0] if len(xs) == 1 else z3.Sum(xs)


def diff(eng, e, x, memo):
    """d e / d x, None for zero"""
    i = e.get_id()
    if i in memo:
        return memo[i][1]
    if e.eq(x):
        r = z3.RealVal(1)
    elif i in eng.params or not depends(eng, e):
        r = None
    else:
        k = e.decl().kind()
        ch = e.children()
        d = lambda c: diff(eng, c, x, memo)
        if k == z3.Z3_OP_ADD:
            r = _add([d(c) for c in ch])
        elif k == z3.Z3_OP_SUB:
            ds = [d(c) for c in ch]
            r = _add([ds[0], *[-t for t in ds[1:] if t is not None]])
        elif k == z3.Z3_OP_UMINUS:
            t = d(ch[0])
            r = None if t is None else -t
        elif k == z3.Z3_OP_MUL:
            parts = []
            for n, c in enumerate(ch):
                t = d(c)
                if t is not None:
                    p = t
                    for m, o in enumerate(ch):
                        if m != n:
                            p = p * o
                    parts.append(p)
            r = _add(parts)
        elif k == z3.Z3_OP_DIV:
            u, v = ch
            du, dv = d(u), d(v)
            r = _add([None if du is None else du / v, None if dv is None else -(u * dv) / (v * v)])
        elif k == z3.Z3_OP_ITE:
            a, b = d(ch[1]), d(ch[2])
            r = None if a is None and b is None else z3.If(ch[0], a if a is not None else z3.RealVal(0), b if b is not None else z3.RealVal(0))
        elif k == z3.Z3_OP_TO_REAL:
            r = None
        elif k == z3.Z3_OP_POWER:
            n = core.const_val(ch[1])
            if n is None:
                raise Unsupported("derivative of a symbolic power")
            t = d(ch[0])
            r = None if t is None else ch[1] * ch[0] ** (ch[1] - 1) * t
        elif k == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("uf_"):
            nm = e.decl().name()[3:]
            t = d(ch[0])
            if t is None:
                r = None
            elif nm == "exp":
                r = e * t
            elif nm == "log":
                r = t / ch[0]
            elif nm == "tanh":
                r = (1 - e * e) * t
            elif nm == "sqrt":
                r = t / (2 * e)
            elif nm == "sigmoid":
                r = e * (1 - e) * t
            elif nm == "logsigmoid":
                r = (1 - eng.ufapp("sigmoid", ch[0])) * t
            elif nm == "atanh":
                r = t / (1 - ch[0] * ch[0])
            else:
                raise Unsupported(f"derivative of {nm}")
        else:
            raise Unsupported(f"derivative of {e.decl()}")
        if r is not None:
            r = z3.simplify(r)
            if core.const_val(r) == 0:
                r = None
    memo[i] = (e, r)
    return r


def kinks(eng, e, out, seen):
    """real comparisons deciding a case distinction inside e: there the gradient is not defined"""
    stack = [e]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen[t.get_id()] = t
        k = t.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and t.children()[0].sort() == z3.RealSort():
            a, b = t.children()
            out.append(z3.simplify(resolve(eng, a) != resolve(eng, b)))
        stack.extend(t.children())


def gradient(eng, loss_elem, tensor):
    """derivative of a scalar element with respect to every element of a leaf -> SymArray; collects eng.kinks"""
    from .arr import SymArray
    raw = tensor._a.view(np.ndarray)
    out = np.empty(raw.size, dtype=object)
    if not isinstance(loss_elem, Sym):
        out[:] = 0.0
    else:
        if not hasattr(eng, "kinks") or eng.kinks is None:
            eng.kinks = ([], {})
        kinks(eng, loss_elem.z, *eng.kinks)
        for n, e in enumerate(raw.reshape(-1).tolist()):
            if not isinstance(e, Sym):
                out[n] = 0.0
                continue
            r = diff(eng, loss_elem.z, e.z, {})
            out[n] = 0.0 if r is None else core.mk(z3.simplify(resolve(eng, r)), "f", True)
    return SymArray.from_raw(out.reshape(raw.shape), tensor._a.dtype)
