"""Symbolic torch: SymTensor wraps a SymArray; torch functions dispatch here through
__torch_function__, tensor creators through the `torch` shim module."""
from __future__ import annotations

import math
import types

import numpy as np
import torch
import torch.nn.functional as TF
import z3

from . import arr as A
from . import core
from .arr import B1, F64, I64, SymArray, _raw, e_bin, e_un, elementwise, reduce_impl, _tob
from .core import Sym, Unsupported, kind_of, mk, s_ite, s_unary, zz, s_cast

T2N = {torch.float32: np.dtype(np.float32), torch.float64: np.dtype(np.float64), torch.float16: np.dtype(np.float16),
       torch.int64: np.dtype(np.int64), torch.int32: np.dtype(np.int32), torch.int16: np.dtype(np.int16),
       torch.int8: np.dtype(np.int8), torch.uint8: np.dtype(np.uint8), torch.bool: np.dtype(bool)}
N2T = {v: k for k, v in T2N.items()}
_orig_empty = torch.empty
_dummy_cache = {}


def n2t(d):
    d = np.dtype(d)
    if d in N2T:
        return N2T[d]
    raise TypeError(f"can't convert np.ndarray of type {d}")


class GradFn:
    def __repr__(self):
        return "<SymGrad>"


_GF = GradFn()


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, a, requires_grad=False):
        # storage-free meta tensor: only python-level attributes are ever used
        r = torch.Tensor._make_subclass(cls, _orig_empty(0))
        return r

    def __init__(self, a, requires_grad=False):
        if not isinstance(a, SymArray):
            a = SymArray.wrap(a)
        if a.dtype not in N2T:
            raise TypeError(f"can't convert np.ndarray of type {a.dtype}")
        if not requires_grad and core.ENG is not None and core.ENG.params:
            from .grad import stop
            a0, a = a, stop(core.ENG, a)
            if a is not a0:  # detached data shares memory with its source: writes go to both
                object.__setattr__(self, "_src", a0)
        object.__setattr__(self, "_a", a)
        object.__setattr__(self, "_rg", requires_grad)
        object.__setattr__(self, "_leaf", False)
        object.__setattr__(self, "_gr", None)

    # ---- attributes
    shape = property(lambda s: torch.Size(s._a.shape))
    ndim = property(lambda s: s._a.ndim)
    dtype = property(lambda s: N2T[s._a.dtype])
    device = property(lambda s: torch.device("cpu"))
    is_cuda = property(lambda s: False)
    is_sparse = property(lambda s: False)
    is_meta = property(lambda s: False)
    is_quantized = property(lambda s: False)
    is_complex = lambda s: False
    requires_grad = property(lambda s: s._rg, lambda s, v: object.__setattr__(s, "_rg", v))
    is_leaf = property(lambda s: True)
    grad_fn = property(lambda s: _GF if s._rg and not s._leaf else None)
    layout = property(lambda s: torch.strided)
    T = property(lambda s: SymTensor(s._a.T, s._rg))
    mT = property(lambda s: s.transpose(-1, -2))

    @property
    def data(self):
        return SymTensor(self._a)

    @data.setter
    def data(self, v):
        object.__setattr__(self, "_a", _arr(v))

    @property
    def grad(self):
        return self._gr

    @grad.setter
    def grad(self, v):
        object.__setattr__(self, "_gr", v)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self._a.ndim

    ndimension = dim

    def numel(self):
        return self._a.size

    nelement = numel

    def stride(self, *a):
        n = []
        p = 1
        for s in reversed(self._a.shape):
            n.insert(0, p)
            p *= s
        return tuple(n) if not a else n[a[0]]

    def is_floating_point(self):
        return self._a.dtype.kind == "f"

    def is_contiguous(self, *a, **k):
        return True

    def __len__(self):
        if self._a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self._a.shape[0]

    def __repr__(self, *a, **k):
        return f"SymTensor({self._a!r})"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __bool__(self):
        return bool(self._a)

    def __int__(self):
        return int(self._a)

    def __float__(self):
        return float(self._a)

    def __index__(self):
        return self._a.__index__()

    def __hash__(self):
        return id(self)

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __contains__(self, x):
        return bool((self == x).any())

    def __deepcopy__(self, memo):
        r = SymTensor(self._a.copy(), self._rg)
        memo[id(self)] = r
        return r

    def __copy__(self):
        return SymTensor(self._a, self._rg)

    def __reduce_ex__(self, p):
        if core.PICKLED is None:
            raise Unsupported("pickling a symbolic tensor")
        return SymTensor, (self._a.copy(), self._rg)

    def __array__(self, dtype=None):
        r = self._a if dtype is None else self._a.astype(dtype)
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return A.ufunc_impl(ufunc, method, inputs, kw)

    def item(self):
        if self._a.size != 1:
            raise RuntimeError(f"a Tensor with {self._a.size} elements cannot be converted to Scalar")
        return self._a.item()

    def tolist(self):
        return self._a.tolist()

    def numpy(self, force=False):
        if self._rg and not force:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return self._a

    def _g(self):
        return self._rg and torch.is_grad_enabled()

    def detach(self):
        return SymTensor(self._a)

    def detach_(self):
        object.__setattr__(self, "_rg", False)
        return self

    def clone(self, *a, **k):
        return SymTensor(self._a.copy(), self._g())

    def contiguous(self, *a, **k):
        return self

    def cpu(self, *a, **k):
        return self

    cuda = cpu

    def pin_memory(self, *a):
        return self

    def to(self, *args, dtype=None, device=None, **k):
        for x in args:
            if isinstance(x, torch.dtype):
                dtype = x
            elif isinstance(x, torch.Tensor):
                dtype = x.dtype
        if dtype is None or dtype == self.dtype:
            return self
        return SymTensor(self._a.astype(T2N[dtype]), self._g() and T2N[dtype].kind == "f")

    def type(self, t=None, *a, **k):
        if t is None:
            return "torch." + {"float32": "FloatTensor", "int64": "LongTensor"}.get(str(self._a.dtype), "Tensor")
        if isinstance(t, torch.dtype):
            return self.to(t)
        return self.to({"torch.FloatTensor": torch.float32, "torch.LongTensor": torch.int64}[str(t)])

    def type_as(self, o):
        return self.to(o.dtype)

    def float(self):
        return self.to(torch.float32)

    def double(self):
        return self.to(torch.float64)

    def long(self):
        return self.to(torch.int64)

    def int(self):
        return self.to(torch.int32)

    def bool(self):
        return self.to(torch.bool)

    def requires_grad_(self, v=True):
        if not self._rg:
            object.__setattr__(self, "_leaf", True)
        object.__setattr__(self, "_rg", v)
        return self

    def retain_grad(self):
        pass

    def register_hook(self, f):
        return None

    def backward(self, *a, **k):
        from . import nondet
        if not self._rg:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if core.ENG is not None and core.ENG.leaves:
            for lf in core.ENG.leaves:
                lf[1].append(self)
        nondet.on_backward(self)

    def new_zeros(self, *shape, **k):
        return SymTensor(A.F_zeros(_shape(shape), self._a.dtype))

    def new_ones(self, *shape, **k):
        return SymTensor(A.F_ones(_shape(shape), self._a.dtype))

    def new_tensor(self, x, **k):
        return SymTensor(SymArray.wrap(x).astype(self._a.dtype))

    def new_full(self, shape, v, **k):
        return SymTensor(A.F_full(_shape((shape,)), v, self._a.dtype))

    def new_empty(self, *shape, **k):
        return self.new_zeros(*shape)

    # ---- indexing
    def __getitem__(self, key):
        r = self._a[_key(key)]
        if not isinstance(r, SymArray):
            r = SymArray.from_obj(r, self._a.dtype)
        return SymTensor(r, self._g())

    def __setitem__(self, key, value):
        _store(self, _key(key), _arr(value) if isinstance(value, torch.Tensor) else value)

    # ---- shape ops (views share memory through numpy)
    def view(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], torch.dtype):
            raise Unsupported("Tensor.view(dtype)")
        return SymTensor(self._a.reshape(_shape(shape)), self._g())

    reshape = view

    def view_as(self, o):
        return self.view(*o.shape)

    reshape_as = view_as

    def flatten(self, start_dim=0, end_dim=-1):
        s = self._a.shape
        if not s:
            return self.view(1)
        e = end_dim % len(s)
        st = start_dim % len(s)
        return self.view(*s[:st], int(np.prod(s[st:e + 1])), *s[e + 1:])

    def ravel(self):
        return self.view(-1)

    def squeeze(self, dim=None):
        if dim is None:
            return SymTensor(self._a.squeeze(), self._g())
        if self._a.ndim == 0 or self._a.shape[dim] != 1:
            return self
        return SymTensor(self._a.squeeze(dim), self._g())

    def unsqueeze(self, dim):
        n = self._a.ndim + 1
        return SymTensor(SymArray.from_raw(np.expand_dims(self._a.view(_raw), dim % n), self._a.dtype), self._g())

    def transpose(self, a, b):
        return SymTensor(self._a.swapaxes(a, b), self._g())

    def permute(self, *dims):
        return SymTensor(self._a.transpose(*_shape(dims)), self._g())

    def t(self):
        return SymTensor(self._a.T, self._g())

    def expand(self, *shape):
        sh = list(_shape(shape))
        off = len(sh) - self._a.ndim
        for i, s in enumerate(sh):
            if s == -1:
                sh[i] = self._a.shape[i - off]
        return SymTensor(SymArray.from_raw(np.broadcast_to(self._a.view(_raw), sh), self._a.dtype), self._g())

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *reps):
        reps = _shape(reps)
        return SymTensor(SymArray.from_raw(np.tile(self._a.view(_raw), reps), self._a.dtype), self._g())

    def repeat_interleave(self, n, dim=None, **k):
        return SymTensor(self._a.repeat(_arr(n) if isinstance(n, torch.Tensor) else n, dim), self._g())

    def chunk(self, n, dim=0):
        size = -(-self._a.shape[dim] // n)
        return self.split(size, dim)

    def split(self, size, dim=0):
        raw = self._a.view(_raw)
        L = raw.shape[dim]
        if isinstance(size, int):
            cuts = list(range(size, L, size))
        else:
            cuts = list(np.cumsum(size)[:-1])
        return tuple(SymTensor(SymArray.from_raw(x, self._a.dtype), self._g()) for x in np.split(raw, cuts, axis=dim))

    def unbind(self, dim=0):
        m = np.moveaxis(self._a.view(_raw), dim, 0)
        return tuple(SymTensor(_mkarr(m[i], self._a.dtype), self._g()) for i in range(m.shape[0]))

    def select(self, dim, i):
        return self.movedim(dim, 0)[i]

    def narrow(self, dim, start, length):
        return self.movedim(dim, 0)[start:start + length].movedim(0, dim)

    def movedim(self, a, b):
        return SymTensor(SymArray.from_raw(np.moveaxis(self._a.view(_raw), a, b), self._a.dtype), self._g())

    def flip(self, *dims):
        return SymTensor(SymArray.from_raw(np.flip(self._a.view(_raw), _shape(dims)), self._a.dtype), self._g())

    def index_select(self, dim, ix):
        return self.movedim(dim, 0)[ix].movedim(0, dim)

    # ---- dispatch
    @classmethod
    def __torch_function__(cls, func, types_, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, "__name__", str(func))
        if name == "__get__":
            raise Unsupported(f"tensor attribute {func}")
        if kwargs and "axis" in kwargs and "dim" not in kwargs:
            kwargs = {("dim" if k == "axis" else k): v for k, v in kwargs.items()}
        impl = FN.get(name)
        if impl is None and name.startswith("__") and name.endswith("__"):
            impl = FN.get(name[2:-2])
        if impl is None and name.endswith("_") and not name.endswith("__"):
            base = FN.get(name[:-1]) or getattr(SymTensor, name[:-1], None)
            if base is not None:
                return _inplace(args[0], base(*args, **kwargs))
        if impl is None:
            m = SymTensor.__dict__.get(name)
            if m is not None and args and isinstance(args[0], torch.Tensor):
                return m(as_sym(args[0]), *args[1:], **kwargs)
            # composite python functions of torch.nn.functional etc. run symbolically themselves
            if isinstance(func, types.FunctionType) and name not in _NO_COMPOSITE:
                with torch._C.DisableTorchFunctionSubclass() if False else _null():
                    return _composite(func, args, kwargs)
            raise Unsupported(f"torch.{name}")
        return impl(*args, **kwargs)


_NO_COMPOSITE = {"has_torch_function"}


class _null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _composite(func, args, kwargs):
    """re-run a python-level torch function with its has_torch_function guards answering False"""
    import torch.overrides as O
    g = func.__globals__
    names = [n for n in ("has_torch_function", "has_torch_function_unary", "has_torch_function_variadic") if n in g]
    saved = {n: g[n] for n in names}
    try:
        for n in names:
            g[n] = lambda *a, **k: False
        return func(*args, **kwargs)
    finally:
        g.update(saved)


def _store(t, key, v):
    t._a[key] = v
    src = getattr(t, "_src", None)
    if src is not None:
        src[key] = v


def _inplace(t, r):
    if isinstance(t, SymTensor):
        v = _arr(r)
        _store(t, Ellipsis, v if v.dtype == t._a.dtype else v.astype(t._a.dtype))
        if isinstance(r, SymTensor) and r._rg:
            object.__setattr__(t, "_rg", True)
        return t
    raise Unsupported("in-place write of symbolic data into a real tensor")


def _mkarr(x, ld):
    if isinstance(x, np.ndarray):
        return SymArray.from_raw(x, ld)
    return SymArray.from_obj(x, ld)


def _shape(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list, torch.Size)):
        s = s[0]
    return tuple(int(x) for x in s)


def _key(k):
    if isinstance(k, tuple):
        return tuple(_key(x) for x in k)
    if isinstance(k, torch.Tensor):
        return _arr(k)
    return k


def _arr(x):
    if isinstance(x, SymTensor):
        return x._a
    return SymArray.wrap(x)


def as_sym(x):
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, torch.Tensor):
        return SymTensor(SymArray.wrap(x), x.requires_grad)
    return SymTensor(SymArray.wrap(x))


def _rg(*xs):
    return torch.is_grad_enabled() and any(isinstance(x, torch.Tensor) and x.requires_grad for x in xs)


def trt(*xs):
    """torch result dtype -> numpy dtype.  Python scalars are weak."""
    ts = [x for x in xs if isinstance(x, (torch.Tensor, np.ndarray))]
    cat = {"b": 0, "i": 1, "u": 1, "f": 2}
    dimd = [_arr(x).dtype for x in ts if _arr(x).ndim]
    zerod = [_arr(x).dtype for x in ts if not _arr(x).ndim]
    res = None
    for d in dimd:
        res = d if res is None else np.dtype(T2N[torch.promote_types(N2T[res], N2T[d])])
    for d in zerod:
        if res is None:
            res = d
        elif cat[d.kind] > cat[res.kind] or not dimd:
            res = np.dtype(T2N[torch.promote_types(N2T[res], N2T[d])])
    for x in xs:
        k = kind_of(x) if not isinstance(x, (torch.Tensor, np.ndarray)) else None
        if k is not None:
            d = {"b": B1, "i": I64, "f": np.dtype(np.float32)}[k]
            if res is None or cat[d.kind] > cat[res.kind]:
                res = d
    return res


def _mkt(r, ld, rg):
    if not isinstance(r, SymArray):
        r = SymArray.from_obj(r, ld)
    elif r.dtype != ld:
        r = r.astype(ld) if r.dtype.kind != np.dtype(ld).kind else SymArray.from_raw(r.view(_raw), ld)
    return SymTensor(r, rg)


def _sc(x):
    return _arr(x) if isinstance(x, (torch.Tensor, np.ndarray, list)) else x


FN: dict = {}


def _bin(op, k=None, swap=False):
    fn = e_bin(op)

    def f(a, b, *, alpha=1, out=None, rounding_mode=None):
        if alpha != 1:
            b = mul_(b, alpha)
        if swap:
            a, b = b, a
        if not (isinstance(a, (torch.Tensor, np.ndarray, Sym)) or kind_of(a) is not None) or \
                not (isinstance(b, (torch.Tensor, np.ndarray, Sym)) or kind_of(b) is not None):
            return NotImplemented
        ld = trt(a, b)
        g = fn
        if k == "b":
            ld = B1
        elif k == "f" and ld.kind != "f":
            ld = np.dtype(np.float32)
        if rounding_mode is not None:
            q = elementwise(e_bin("floordiv"), ld, _sc(a), _sc(b))
            return _mkt(q, ld, False)
        if op in ("sub",) and ld.kind == "b":
            raise RuntimeError("Subtraction, the `-` operator, with two bool tensors is not supported")
        r = elementwise(g, ld, _sc(a), _sc(b))
        if ld.kind == "f" and isinstance(r, SymArray):
            _tofloat(r)
        return _mkt(r, ld, _rg(a, b) and ld.kind == "f")
    return f


def _tofloat(r):
    raw = r.view(_raw)
    for ix in np.ndindex(*raw.shape):
        e = raw[ix]
        if isinstance(e, Sym):
            if e.k != "f":
                raw[ix] = s_cast(e, "f")
        elif isinstance(e, (bool, int)):
            raw[ix] = float(e)


mul_ = _bin("mul")
for nm, op, k in (("add", "add", None), ("sub", "sub", None), ("subtract", "sub", None), ("mul", "mul", None), ("multiply", "mul", None),
                  ("div", "div", "f"), ("truediv", "div", "f"), ("true_divide", "div", "f"), ("divide", "div", "f"),
                  ("floordiv", "floordiv", None), ("floor_divide", "floordiv", None), ("mod", "mod", None), ("remainder", "mod", None),
                  ("fmod", "mod", None), ("pow", "pow", None), ("float_power", "pow", "f"), ("lt", "lt", "b"), ("le", "le", "b"), ("gt", "gt", "b"),
                  ("ge", "ge", "b"), ("eq", "eq", "b"), ("ne", "ne", "b"), ("less", "lt", "b"), ("greater", "gt", "b"), ("not_equal", "ne", "b"),
                  ("maximum", "max", None), ("minimum", "min", None), ("and", "and", None), ("or", "or", None), ("xor", "xor", None),
                  ("bitwise_and", "and", None), ("bitwise_or", "or", None)):
    FN[nm] = _bin(op, k)
for nm, op, k in (("radd", "add", None), ("rsub", "sub", None), ("rmul", "mul", None), ("rdiv", "div", "f"), ("rtruediv", "div", "f"),
                  ("rfloordiv", "floordiv", None), ("rmod", "mod", None), ("rpow", "pow", None), ("rand", "and", None), ("ror", "or", None)):
    FN[nm] = _bin(op, k, True)
FN["logical_and"] = lambda a, b: _mkt(elementwise(A.e_logic("and"), B1, _sc(a), _sc(b)), B1, False)
FN["logical_or"] = lambda a, b: _mkt(elementwise(A.e_logic("or"), B1, _sc(a), _sc(b)), B1, False)
FN["logical_xor"] = lambda a, b: _mkt(elementwise(A.e_logic("xor"), B1, _sc(a), _sc(b)), B1, False)
for nm in ("add", "sub", "mul", "div", "truediv", "pow", "floordiv", "mod", "and", "or"):
    FN["i" + nm] = (lambda f: lambda a, b, **k: _inplace(a, f(a, b, **k)))(FN[nm])


def _un(op, k=None):
    fn = e_un(op)

    def f(a, *_, **__):
        ld = _arr(a).dtype
        if k == "f" and ld.kind != "f":
            ld = np.dtype(np.float32)
        if k == "b":
            ld = B1
        return _mkt(elementwise(fn, ld, _arr(a)), ld, _rg(a) and k != "b")
    return f


for nm, op, k in (("neg", "neg", None), ("negative", "neg", None), ("abs", "abs", None), ("absolute", "abs", None), ("exp", "exp", "f"), ("log", "log", "f"),
                  ("tanh", "tanh", "f"), ("sqrt", "sqrt", "f"), ("sin", "sin", "f"), ("cos", "cos", "f"), ("atanh", "atanh", "f"), ("sigmoid", "sigmoid", "f"),
                  ("isnan", "isnan", "b"), ("isinf", "isinf", "b"), ("isfinite", "isfinite", "b"), ("logical_not", "not", "b"), ("invert", "invert", None),
                  ("bitwise_not", "invert", None), ("floor", "floor", None), ("ceil", "ceil", None), ("round", "round", None), ("sign", "sign", None),
                  ("square", "square", None), ("log1p", "log1p", "f"), ("expm1", "expm1", "f"), ("reciprocal", "recip", "f"), ("pos", "pos", None),
                  ("logsigmoid", "logsigmoid", "f"), ("rsqrt", "rsqrt", "f")):
    FN[nm] = _un(op, k)
FN["rsqrt"] = lambda a: FN["rdiv"](FN["sqrt"](a), 1.0)
FN["relu"] = lambda a, inplace=False: FN["maximum"](a, 0.0)
FN["softplus"] = lambda a, beta=1, threshold=20: FN["neg"](FN["logsigmoid"](FN["neg"](a)))


def _dims(dim):
    return tuple(dim) if isinstance(dim, (list, tuple, torch.Size)) else dim


def _red(op):
    def f(a, dim=None, keepdim=False, *, dtype=None, axis=None, out=None, **k):
        if isinstance(dim, bool):
            dim, keepdim = None, dim
        dim = _dims(dim if dim is not None else axis)
        if dim == ():
            dim = None
        a_ = _arr(a)
        ld = a_.dtype
        if op in ("mean",) and ld.kind != "f":
            raise RuntimeError(f"mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype. Got: {n2t(ld)}")
        r = reduce_impl(op, a_, dim, keepdim)
        old = B1 if op in ("any", "all") else (I64 if ld.kind in "bi" else ld)
        t = _mkt(r, old, _rg(a))
        return t.to(dtype) if dtype is not None else t
    return f


for nm in ("sum", "prod", "mean", "any", "all"):
    FN[nm] = _red(nm)
FN["nansum"] = FN["sum"]
FN["nanmean"] = FN["mean"]


def _var(op):
    def f(a, dim=None, unbiased=True, keepdim=False, *, correction=None, **k):
        if isinstance(dim, bool):
            dim, unbiased = None, dim
        dd = correction if correction is not None else (1 if unbiased else 0)
        return _mkt(reduce_impl(op, _arr(a), _dims(dim), keepdim, ddof=dd), _arr(a).dtype, _rg(a))
    return f


FN["std"], FN["var"] = _var("std"), _var("var")


def _minmax(op):
    bop = _bin(op)

    def f(a, dim=None, keepdim=False, *, other=None, axis=None, out=None):
        if other is None and isinstance(dim, torch.Tensor):
            other = dim
            dim = None
        if other is not None:
            return bop(a, other)
        if dim is None:
            dim = axis
        if dim is None:
            return _mkt(reduce_impl(op, _arr(a), None), _arr(a).dtype, _rg(a))
        v = reduce_impl(op, _arr(a), dim, keepdim)
        i = reduce_impl("arg" + op, _arr(a), dim, keepdim)
        cls_ = torch.return_types.max if op == "max" else torch.return_types.min
        return cls_((_mkt(v, _arr(a).dtype, _rg(a)), _mkt(i, I64, False)))
    return f


FN["max"], FN["min"] = _minmax("max"), _minmax("min")
FN["amax"] = lambda a, dim=None, keepdim=False: _mkt(reduce_impl("max", _arr(a), _dims(dim), keepdim), _arr(a).dtype, _rg(a))
FN["amin"] = lambda a, dim=None, keepdim=False: _mkt(reduce_impl("min", _arr(a), _dims(dim), keepdim), _arr(a).dtype, _rg(a))
FN["argmax"] = lambda a, dim=None, keepdim=False: _mkt(reduce_impl("argmax", _arr(a), dim, keepdim), I64, False)
FN["argmin"] = lambda a, dim=None, keepdim=False: _mkt(reduce_impl("argmin", _arr(a), dim, keepdim), I64, False)
FN["cumsum"] = lambda a, dim=0, **k: _mkt(A.F_cumsum(_arr(a), dim), _arr(a).dtype, _rg(a))
FN["argsort"] = lambda a, dim=-1, descending=False, **k: _mkt(A.F_argsort(FN["neg"](a)._a if descending else _arr(a), dim), I64, False)


def _sort(a, dim=-1, descending=False, **k):
    ix = FN["argsort"](a, dim, descending)
    return torch.return_types.sort((FN["gather"](a, dim, ix), ix))


FN["sort"] = _sort


def _clamp(a, min=None, max=None, out=None):
    r = as_sym(a)
    if min is not None:
        r = FN["maximum"](r, min)
    if max is not None:
        r = FN["minimum"](r, max)
    return r


FN["clamp"] = FN["clip"] = _clamp
FN["clamp_min"] = lambda a, m: _clamp(a, m)
FN["clamp_max"] = lambda a, m: _clamp(a, None, m)


def _where(c, a=None, b=None):
    if a is None:
        return tuple(SymTensor(x) for x in A.F_nonzero(_arr(c)))
    ld = trt(a, b)
    r = A.F_where(_arr(c), _sc(a), _sc(b))
    return _mkt(r, ld, _rg(a, b))


FN["where"] = _where
FN["masked_fill"] = lambda a, m, v: _where(m, v, a).to(as_sym(a).dtype)
FN["masked_select"] = lambda a, m: as_sym(a)[m]


def _nonzero(a, as_tuple=False):
    r = A.F_nonzero(_arr(a))
    if as_tuple:
        return tuple(SymTensor(x) for x in r)
    return SymTensor(A.TABLE["stack"](r, 1))


FN["nonzero"] = _nonzero


def _gather(a, dim, index, **k):
    av, iv = _arr(a), _arr(index)
    dim = dim % max(av.ndim, 1)
    if iv.dtype.kind != "i":
        raise RuntimeError("gather(): Expected dtype int64 for index")
    key = []
    for d in range(av.ndim):
        if d == dim:
            key.append(iv)
        else:
            g = np.arange(iv.shape[d]).reshape([-1 if i == d else 1 for i in range(iv.ndim)])
            key.append(SymArray.from_real(np.ascontiguousarray(np.broadcast_to(g, iv.shape))))
    r = av[tuple(key)]
    return _mkt(r, av.dtype, _rg(a))


FN["gather"] = _gather
FN["take_along_dim"] = lambda a, ix, dim: _gather(a, dim, ix)


def _cat(ts, dim=0, axis=None, out=None):
    ts = [as_sym(t) for t in ts]
    ts2 = [t for t in ts if not (t.ndim == 1 and t.numel() == 0)] or ts
    ld = trt(*ts2)
    r = A.F_concatenate([t._a for t in ts2], dim if axis is None else axis)
    return _mkt(r, ld, _rg(*ts))


def _stack(ts, dim=0, out=None):
    ts = [as_sym(t) for t in ts]
    return _mkt(A.TABLE["stack"]([t._a for t in ts], dim), trt(*ts), _rg(*ts))


FN["cat"] = FN["concat"] = FN["concatenate"] = _cat
FN["stack"] = _stack
FN["hstack"] = lambda ts: _cat(ts, 0 if as_sym(ts[0]).ndim == 1 else 1)
FN["vstack"] = lambda ts: _cat([as_sym(t).view(1, -1) if as_sym(t).ndim == 1 else t for t in ts], 0)


def _matmul(a, b, out=None):
    ld = trt(a, b)
    return _mkt(A.matmul(_arr(a), _arr(b)), ld, _rg(a, b))


for nm in ("matmul", "mm", "mv", "dot", "bmm"):
    FN[nm] = _matmul
FN["rmatmul"] = lambda a, b: _matmul(b, a)


def _linear(x, w, b=None):
    r = _matmul(x, as_sym(w).t())
    return FN["add"](r, b) if b is not None else r


FN["linear"] = _linear
FN["outer"] = FN["ger"] = lambda a, b: FN["mul"](as_sym(a).unsqueeze(1), as_sym(b).unsqueeze(0))


def _lse(a, dim, keepdim=False):
    # exact on the reals: log(sum(exp(a)))
    return FN["log"](FN["sum"](FN["exp"](a), dim, keepdim))


FN["logsumexp"] = _lse
FN["logsigmoid"] = FN["log_sigmoid"] = lambda a, *r, **k: FN["neg"](FN["log"](FN["add"](FN["exp"](FN["neg"](a)), 1)))
FN["log_softmax"] = lambda a, dim=-1, *r, **k: FN["sub"](a, _lse(a, dim, True))


def _softmax(a, dim=-1, *r, **k):
    e = FN["exp"](a)
    return FN["div"](e, FN["sum"](e, dim, True))


FN["softmax"] = _softmax


def _reduce_loss(t, reduction):
    if reduction == "mean":
        return FN["mean"](t)
    if reduction == "sum":
        return FN["sum"](t)
    return t


def _mse(a, b, size_average=None, reduce=None, reduction="mean"):
    d = FN["sub"](a, b)
    return _reduce_loss(FN["mul"](d, d), reduction)


FN["mse_loss"] = _mse
FN["l1_loss"] = lambda a, b, size_average=None, reduce=None, reduction="mean": _reduce_loss(FN["abs"](FN["sub"](a, b)), reduction)


def _huber(a, b, beta, reduction, scale):
    d = FN["abs"](FN["sub"](a, b))

    def f(x):
        sq = e_bin("mul")(0.5, e_bin("mul")(x, x))
        lin = e_bin("sub")(x, 0.5 * beta)
        if scale:
            sq = e_bin("div")(sq, beta) if beta != 1 else sq
        else:
            lin = e_bin("mul")(beta, lin)
        return s_ite(e_bin("lt")(x, beta), sq, lin)
    r = _mkt(elementwise(f, d._a.dtype, d._a), d._a.dtype, d._rg)
    return _reduce_loss(r, reduction)


FN["smooth_l1_loss"] = lambda a, b, size_average=None, reduce=None, reduction="mean", beta=1.0: _huber(a, b, beta, reduction, True)
FN["huber_loss"] = lambda a, b, reduction="mean", delta=1.0, weight=None: _huber(a, b, delta, reduction, False)


def _nll(lp, t, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
    g = _gather(lp, 1, as_sym(t).unsqueeze(1)).squeeze(1)
    return _reduce_loss(FN["neg"](g), reduction)


FN["nll_loss"] = _nll
FN["cross_entropy"] = lambda a, t, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean", label_smoothing=0.0: \
    _nll(FN["log_softmax"](a, 1), t, reduction=reduction)


def _one_hot(t, num_classes=-1):
    a = _arr(t)
    ids = SymArray.from_real(np.arange(num_classes))
    r = elementwise(lambda x, y: s_cast(e_bin("eq")(x, y), "i"), I64, a.reshape(*a.shape, 1), ids)
    return SymTensor(r)


FN["one_hot"] = _one_hot


def _pad(a, pad, mode="constant", value=0):
    av = _arr(a)
    w = [(0, 0)] * av.ndim
    for i in range(len(pad) // 2):
        w[av.ndim - 1 - i] = (pad[2 * i], pad[2 * i + 1])
    r = np.pad(av.view(_raw), w, constant_values=0.0 if value in (None, 0) else value)
    return _mkt(SymArray.from_raw(r, av.dtype), av.dtype, _rg(a))


FN["pad"] = _pad


def _norm(a, p=2, dim=None, keepdim=False, **k):
    if p in (2, "fro", 2.0):
        return FN["sqrt"](FN["sum"](FN["mul"](a, a), dim, keepdim))
    if p == 1:
        return FN["sum"](FN["abs"](a), dim, keepdim)
    raise Unsupported("norm")


FN["norm"] = _norm
FN["isclose"] = lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: SymTensor(SymArray.wrap(A.F_isclose(_sc(a), _sc(b), rtol, atol)))
FN["allclose"] = lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: bool(A.F_allclose(_sc(a), _sc(b), rtol, atol))
FN["equal"] = lambda a, b: bool(A.F_array_equal(_sc(a), _sc(b)))
FN["broadcast_tensors"] = lambda *ts: tuple(
    SymTensor(SymArray.from_raw(x, _arr(t).dtype), _rg(t)) for t, x in zip(_flat(ts), np.broadcast_arrays(*[_arr(t).view(_raw) for t in _flat(ts)])))


def _flat(ts):
    return ts[0] if len(ts) == 1 and isinstance(ts[0], (list, tuple)) else ts


FN["atleast_2d"] = lambda t: as_sym(t) if as_sym(t).ndim >= 2 else as_sym(t).view(1, -1)
FN["atleast_1d"] = lambda t: as_sym(t) if as_sym(t).ndim >= 1 else as_sym(t).view(1)
FN["zeros_like"] = lambda a, dtype=None, **k: SymTensor(A.F_zeros(_arr(a).shape, T2N[dtype] if dtype else _arr(a).dtype))
FN["ones_like"] = lambda a, dtype=None, **k: SymTensor(A.F_ones(_arr(a).shape, T2N[dtype] if dtype else _arr(a).dtype))
FN["full_like"] = lambda a, v, dtype=None, **k: SymTensor(A.F_full(_arr(a).shape, v, T2N[dtype] if dtype else _arr(a).dtype))
FN["empty_like"] = FN["zeros_like"]
FN["is_tensor"] = lambda a: True
FN["constant_"] = lambda tensor, val: _inplace(tensor, FN["full_like"](tensor, val))
FN["_has_compatible_shallow_copy_type"] = lambda a, b: True
FN["is_floating_point"] = lambda a: as_sym(a).is_floating_point()
FN["numel"] = lambda a: as_sym(a).numel()
FN["masked_fill"] = lambda a, m, v: _where(m, v, a).to(as_sym(a).dtype)
FN["lerp"] = lambda a, b, w: FN["add"](a, FN["mul"](FN["sub"](b, a), w))
FN["addcmul"] = lambda a, x, y, value=1: FN["add"](a, FN["mul"](FN["mul"](x, y), value))
FN["dropout"] = lambda x, p=0.5, training=True, inplace=False: x
FN["index_select"] = lambda a, dim, ix: as_sym(a).index_select(dim, ix)
FN["roll"] = lambda a, shifts, dims=None: SymTensor(SymArray.from_raw(np.roll(_arr(a).view(_raw), shifts, dims), _arr(a).dtype), _rg(a))
FN["normal"] = lambda *a, **k: _nondet("torch_normal", *a, **k)
FN["bernoulli"] = lambda *a, **k: _nondet("torch_bernoulli", *a, **k)
FN["multinomial"] = lambda *a, **k: _nondet("torch_multinomial", *a, **k)
FN["randn_like"] = lambda a, **k: _nondet("torch_randn", *_arr(a).shape)
FN["rand_like"] = lambda a, **k: _nondet("torch_rand", *_arr(a).shape)
FN["rev_is_grad"] = None


def _scatter(a, dim, index, src):
    r = as_sym(a).clone()
    iv = _arr(index)
    sv = np.broadcast_to(_arr(src).view(_raw) if isinstance(src, torch.Tensor) else np.array(src, dtype=object), iv.shape)
    for ix in np.ndindex(*iv.shape):
        key = list(ix)
        key[dim] = iv.view(_raw)[ix]
        r._a[tuple(key)] = sv[ix]
    return r


FN["scatter"] = _scatter


def _copy_(dst, src, non_blocking=False):
    v = _arr(src)
    if not isinstance(dst, SymTensor):
        raise Unsupported("copy_ of symbolic data into a real tensor")
    _store(dst, Ellipsis, v if v.dtype == dst._a.dtype else v.astype(dst._a.dtype))
    return dst


FN["copy_"] = _copy_
FN["zero_"] = lambda a: _inplace(a, FN["zeros_like"](a))
FN["fill_"] = lambda a, v: (_store(a, Ellipsis, _sc(v) if not isinstance(v, torch.Tensor) else _arr(v)), a)[1]
FN["uniform_"] = lambda a, lo=0.0, hi=1.0, **k: FN["copy_"](a, FN["add"](lo, FN["mul"](hi - lo, _nondet("torch_rand", *_arr(a).shape))))
FN["normal_"] = lambda a, mean=0.0, std=1.0, **k: FN["copy_"](a, FN["add"](mean, FN["mul"](std, _nondet("torch_randn", *_arr(a).shape))))
FN["set_"] = None


def _scatter_add_(a, dim, index, src):
    iv = _arr(index)
    sv = _arr(src).view(_raw)
    for ix in np.ndindex(*iv.shape):
        key = list(ix)
        key[dim] = iv.view(_raw)[ix]
        a._a[tuple(key)] = e_bin("add")(A.norm(a._a[tuple(key)]), sv[ix])
    return a


FN["scatter_add_"] = _scatter_add_


def _nondet(name, *a, **k):
    from . import nondet
    return getattr(nondet, name)(*a, **k)


for nm in list(FN):
    if FN[nm] is None:
        del FN[nm]

# operators go through python attribute lookup on the subclass: route them explicitly
for nm in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "rfloordiv", "mod", "rmod", "pow", "rpow",
           "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "xor", "rand", "ror", "matmul", "rmatmul", "iadd", "isub", "imul", "itruediv", "ipow",
           "iand", "ior", "neg", "abs", "invert", "pos"):
    setattr(SymTensor, f"__{nm}__", (lambda f: lambda self, *a: f(self, *a))(FN[nm]))
SymTensor.__hash__ = lambda self: id(self)


# ---------------------------------------------------------------- torch shim
def _t_dtype(dtype, k=None):
    return T2N[dtype]


def c_tensor(x, dtype=None, device=None, requires_grad=False, pin_memory=False):
    a = SymArray.wrap(x)
    if isinstance(a, SymArray) and a is x or isinstance(x, (np.ndarray, torch.Tensor)):
        a = a.copy()
    if dtype is not None:
        a = a.astype(T2N[dtype])
    elif a.dtype == F64 and not isinstance(x, (np.ndarray, np.generic, torch.Tensor)) and not (
            isinstance(x, (list, tuple)) and any(isinstance(e, (np.ndarray, np.generic)) for e in x)) and not (isinstance(x, Sym) and x.npf):
        a = SymArray.from_raw(a.view(_raw), np.float32)
    return SymTensor(a, requires_grad)


def c_as_tensor(x, dtype=None, device=None):
    if isinstance(x, SymTensor):
        return x if dtype is None else x.to(dtype)
    if isinstance(x, np.ndarray):
        a = SymArray.wrap(x)
        return SymTensor(a if dtype is None else a.astype(T2N[dtype], copy=False) if a.dtype != T2N[dtype] else a)
    return c_tensor(x, dtype)


def c_from_numpy(x):
    return SymTensor(SymArray.wrap(x))


def _creator(f):
    def g(*shape, dtype=None, device=None, requires_grad=False, out=None, size=None, generator=None, layout=None, pin_memory=None):
        if size is not None:
            shape = (size,)
        return SymTensor(f(_shape(shape), T2N[dtype] if dtype is not None else np.dtype(np.float32)), requires_grad)
    return g


def c_full(size, fill_value, dtype=None, **k):
    a = A.F_full(_shape((size,)), fill_value, None if dtype is None else T2N[dtype])
    if dtype is None and a.dtype == F64:
        a = SymArray.from_raw(a.view(_raw), np.float32)
    return SymTensor(a)


def c_arange(*args, dtype=None, device=None, start=0, end=None, step=None, **k):
    if end is not None:
        args = (*(args or (start,)), end)
    if step is not None:
        args = ((0, *args) if len(args) == 1 else args) + (step,)
    a = A.F_arange(*args)
    if dtype is not None:
        a = a.astype(T2N[dtype])
    elif a.dtype == F64:
        a = SymArray.from_raw(a.view(_raw), np.float32)
    return SymTensor(a)


def c_linspace(a, b, steps, dtype=None, **k):
    return SymTensor(SymArray.from_raw(A.F_linspace(a, b, steps).view(_raw), T2N[dtype] if dtype else np.float32))


def c_eye(n, m=None, **k):
    return SymTensor(SymArray.from_real(np.eye(n, m, dtype=np.float32)))


def c_FloatTensor(*x):
    if len(x) == 1 and not isinstance(x[0], int):
        return c_tensor(x[0], torch.float32)
    return SymTensor(A.F_zeros(_shape(x), np.float32))


def _rand(name):
    def f(*shape, device=None, dtype=None, requires_grad=False, generator=None, size=None, **k):
        if size is not None:
            shape = (size,)
        return _nondet(name, *_shape(shape))
    return f


def c_finfo(dt):
    return torch.finfo(dt)


class _TensorMeta(type):
    """torch.Tensor as seen by the code under test: the real class, but its constructor builds symbolic tensors"""

    def __call__(cls, *a, **k):
        return c_FloatTensor(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, torch.Tensor)

    def __subclasscheck__(cls, c):
        return issubclass(c, torch.Tensor)

    def __getattr__(cls, n):
        return getattr(torch.Tensor, n)


class _TensorClass(metaclass=_TensorMeta):
    pass


_TensorClass.__name__ = _TensorClass.__qualname__ = "Tensor"

SHIM = {
    "Tensor": _TensorClass,
    "tensor": c_tensor, "as_tensor": c_as_tensor, "from_numpy": c_from_numpy,
    "zeros": _creator(A.F_zeros), "ones": _creator(A.F_ones), "empty": _creator(A.F_zeros),
    "full": c_full, "arange": c_arange, "linspace": c_linspace, "eye": c_eye, "FloatTensor": c_FloatTensor,
    "LongTensor": lambda x: c_tensor(x, torch.int64),
    "rand": _rand("torch_rand"), "randn": _rand("torch_randn"),
    "randperm": lambda n, **k: _nondet("torch_randperm", n), "randint": lambda *a, **k: _nondet("torch_randint", *a, **k),
}


def _anysym(x):
    if isinstance(x, (SymTensor, SymArray, Sym)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_anysym(e) for e in x)
    return False


class TorchShim(types.ModuleType):
    def __init__(self):
        super().__init__("torch")
        self._cache = {}

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        real = getattr(torch, name)
        if name in SHIM:
            r = SHIM[name]
        elif name in FN and callable(real) and not isinstance(real, type):
            r = FN[name]
        else:
            r = real
        c[name] = r
        return r


TORCH = TorchShim()

from . import arr as _arrmod  # noqa: E402
_arrmod.SymTensor = SymTensor
