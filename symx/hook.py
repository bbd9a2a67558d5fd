"""Import hook: loads the code under test from the current working tree of /repo, rewritten at
AST level so that builtins and the numpy/torch modules it uses operate on symbolic values."""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

import numpy as np
import torch

from . import core
from .arr import NP, SymArray, reduce_impl
from .core import Sym, kind_of, mk, s_and, s_bin, s_cast, s_ite, s_or, s_unary, zz
from .ten import TORCH, SymTensor

REPO = os.environ.get("VERIF_REPO", "/repo")
PREFIXES = ("tianshou",)


# ---------------------------------------------------------------- builtin shims
def b_int(x=0, *a):
    if isinstance(x, Sym):
        return Sym(x.z, "i", False) if x.k == "i" else _pyf(s_cast(x, "i"))
    if isinstance(x, (SymArray, SymTensor)):
        return b_int(x.item())
    return int(x, *a)


def _pyf(x):
    return Sym(x.z, x.k, False) if isinstance(x, Sym) else x


def b_float(x=0.0):
    if isinstance(x, Sym):
        return _pyf(s_cast(x, "f"))
    if isinstance(x, (SymArray, SymTensor)):
        return b_float(x.item())
    return float(x)


def b_bool(x=False):
    if isinstance(x, Sym):
        return _pyf(s_cast(x, "b"))
    if isinstance(x, (SymArray, SymTensor)) and x.ndim == 0 or isinstance(x, SymArray) and x.size == 1:
        return b_bool(x.item())
    return bool(x)


def b_not(x):
    if isinstance(x, Sym):
        return s_unary("not", x)
    return not x


def b_round(x, n=None):
    return round(x) if n is None else round(x, n)


def b_abs(x):
    return abs(x)


def _mm(op, real):
    def f(*args, **kw):
        if kw:
            if "key" in kw or not args:
                return real(*args, **kw)
        xs = args if len(args) > 1 else list(args[0])
        if not xs:
            return real(xs, **kw)
        if any(isinstance(x, Sym) for x in xs) and all(isinstance(x, Sym) or kind_of(x) is not None for x in xs):
            acc = xs[0]
            for x in xs[1:]:
                if isinstance(acc, Sym) or isinstance(x, Sym):
                    # python semantics: max keeps the first maximal element
                    c = s_bin("gt" if op == "max" else "lt", x, acc)
                    acc = s_ite(c, x, acc)
                else:
                    acc = real(acc, x)
            return acc
        return real(xs, **kw)
    return f


b_max, b_min = _mm("max", max), _mm("min", min)


def b_any(it):
    for x in it:
        if x:
            return True
    return False


def _classes(c):
    if isinstance(c, tuple):
        for e in c:
            yield from _classes(e)
    elif isinstance(c, types.UnionType):
        for e in c.__args__:
            yield from _classes(e)
    else:
        yield c


_SYM_OK = {
    "b": {"py": (bool, int), "np": (np.bool_, np.generic)},
    "i": {"py": (int,), "np": (np.integer, np.signedinteger, np.int64, np.number, np.generic)},
    "f": {"py": (float,), "np": (np.floating, np.inexact, np.float64, np.number, np.generic, float)},
}


def b_isinstance(x, c):
    if isinstance(x, Sym):
        ok = _SYM_OK[x.k]["np" if x.npf else "py"]
        import numbers
        for e in _classes(c):
            if e in ok or e is object or e is Sym:
                return True
            if e is numbers.Number and not (x.k == "b" and x.npf):
                return True
        return False
    return isinstance(x, c)


def b_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        x = a[0]
        return {"b": np.bool_ if x.npf else bool, "i": np.int64 if x.npf else int, "f": np.float64 if x.npf else float}[x.k]
    return type(*a)


def b_isnull(x):
    import pandas
    if isinstance(x, Sym):
        return False
    if isinstance(x, SymTensor):
        x = x._a
    if isinstance(x, SymArray):
        from .arr import elementwise, B1
        return elementwise(lambda e: (not isinstance(e, Sym)) and bool(pandas.isnull(e)), B1, x)
    return pandas.isnull(x)


class PdShim(types.ModuleType):
    def __getattr__(self, name):
        import pandas
        if name in ("isnull", "isna"):
            return b_isnull
        return getattr(pandas, name)


PD = PdShim("pandas")


class MathShim(types.ModuleType):
    def __getattr__(self, name):
        import math
        real = getattr(math, name)
        if name in ("sqrt", "log", "exp", "tanh", "cos", "sin", "fabs", "isnan", "isinf", "isfinite"):
            def f(x, *a):
                if isinstance(x, (SymArray, SymTensor)):
                    x = x.item()
                if isinstance(x, Sym) and not a:
                    return _pyf(s_unary({"fabs": "abs"}.get(name, name), x))
                return real(x, *a)
            return f
        return real


MATH = MathShim("math")
WRAP = {"numpy": NP, "torch": TORCH, "pandas": PD, "math": MATH}


def wrapmod(m):
    return WRAP.get(getattr(m, "__name__", None), m)


def enter(name):
    if core.ENG is not None:
        core.ENG.funcs.add(name)


BUILTINS = {"int": b_int, "float": b_float, "bool": b_bool, "round": b_round, "abs": b_abs, "max": b_max, "min": b_min,
            "isinstance": b_isinstance, "type": b_type}
INJECT = {f"_sx_{k}": v for k, v in BUILTINS.items()}


def getitem(a, i):
    """a[i], where arrays of strings or objects may be indexed by arrays of integer terms"""
    if type(a) is np.ndarray:
        if isinstance(i, SymArray):
            i = i.to_real()
        elif type(i) is tuple:
            i = tuple(e.to_real() if isinstance(e, SymArray) else e for e in i)
    return a[i]


class _Store:
    """a plain array that may be indexed by arrays of integer terms, as the target of an assignment"""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        return getitem(self.a, i)

    def __setitem__(self, i, v):
        if isinstance(i, SymArray):
            i = i.to_real()
        elif type(i) is tuple:
            i = tuple(e.to_real() if isinstance(e, SymArray) else e for e in i)
        if isinstance(v, SymArray) and self.a.dtype == object:
            v = v.view(np.ndarray)
        self.a[i] = v

    def __delitem__(self, i):
        del self.a[i]


def store(a):
    return _Store(a) if type(a) is np.ndarray else a


INJECT.update(_sx_store=store, _sx_getitem=getitem, _sx_not=b_not, _sx_wrapmod=wrapmod, _sx_enter=enter)


# ---------------------------------------------------------------- AST rewriting
class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in BUILTINS and not any(isinstance(a, ast.Starred) for a in node.args[:0]):
            if node.func.id == "type" and len(node.args) != 1:
                return node
            node.func = ast.copy_location(ast.Name(id=f"_sx_{node.func.id}", ctx=ast.Load()), node.func)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(func=ast.Name(id="_sx_not", ctx=ast.Load()), args=[node.operand], keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        sl = node.slice
        if isinstance(node.ctx, ast.Store):
            if not isinstance(sl, (ast.Constant, ast.Slice)):
                node.value = ast.copy_location(ast.Call(func=ast.Name(id="_sx_store", ctx=ast.Load()), args=[node.value], keywords=[]), node)
            return node
        if not isinstance(node.ctx, ast.Load) or isinstance(sl, (ast.Constant, ast.Slice)) or (
                isinstance(sl, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts)):
            return node
        return ast.copy_location(ast.Call(func=ast.Name(id="_sx_getitem", ctx=ast.Load()), args=[node.value, sl], keywords=[]), node)

    def _wrap(self, node, names):
        out = [node]
        for n in names:
            out.append(ast.copy_location(ast.Assign(
                targets=[ast.Name(id=n, ctx=ast.Store())],
                value=ast.Call(func=ast.Name(id="_sx_wrapmod", ctx=ast.Load()), args=[ast.Name(id=n, ctx=ast.Load())], keywords=[])), node))
        return out

    def visit_Import(self, node):
        names = [a.asname or a.name.split(".")[0] for a in node.names
                 if a.name in WRAP or (a.asname is None and a.name.split(".")[0] in WRAP)]
        return self._wrap(node, names)

    def _func(self, node):
        self.stack.append(node.name)
        q = f"{self.mod}:{'.'.join(self.stack)}"
        # do not rewrite decorators' or annotations' semantics beyond what generic_visit does
        self.generic_visit(node)
        self.stack.pop()
        body = node.body
        at = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str)) else 0
        call = ast.copy_location(ast.Expr(ast.Call(func=ast.Name(id="_sx_enter", ctx=ast.Load()), args=[ast.Constant(q)], keywords=[])), node)
        node.body = body[:at] + [call] + body[at:]
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        # keep `from __future__` imports first
        tree = Rewriter(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(INJECT)
        super().exec_module(module)
        for k, v in list(module.__dict__.items()):
            if isinstance(v, types.ModuleType) and v.__name__ in WRAP and v is not WRAP[v.__name__]:
                module.__dict__[k] = WRAP[v.__name__]


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname.split(".")[0] not in PREFIXES:
            return None
        rel = fullname.replace(".", "/")
        for cand, pkg in ((f"{REPO}/{rel}/__init__.py", True), (f"{REPO}/{rel}.py", False)):
            if os.path.exists(cand):
                return importlib.util.spec_from_file_location(
                    fullname, cand, loader=Loader(fullname, cand), submodule_search_locations=[os.path.dirname(cand)] if pkg else None)
        return None


def install():
    from .nondet import install_distributions
    install_distributions()
    os.environ["NUMBA_DISABLE_JIT"] = "1"
    sys.meta_path.insert(0, Finder())
    sys.dont_write_bytecode = True
