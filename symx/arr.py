"""Symbolic numpy: SymArray (object-storage ndarray subclass with a logical dtype) and the
`np` shim module handed to the code under test."""
from __future__ import annotations

import builtins
import itertools
import math
import types

import numpy as np
import z3

from . import core
import torch

from .core import (Sym, Unsupported, kind_of, mk, s_and, s_bin, s_cast, s_ite, s_or, s_unary, sym_any, zz)

SymTensor = None


def _late():
    global SymTensor
    from . import ten
    SymTensor = ten.SymTensor


OBJ = np.dtype(object)
F64 = np.dtype(np.float64)
I64 = np.dtype(np.int64)
B1 = np.dtype(bool)
_raw = np.ndarray


def norm(e):
    """element normalisation on store: numpy scalars -> python scalars"""
    if isinstance(e, Sym):
        return e
    if isinstance(e, np.generic):
        return e.item() if not isinstance(e, (np.str_, np.bytes_, np.void, np.datetime64)) else e
    return e


def _obj(a):
    """plain object ndarray view (shares memory) of a SymArray / converted copy of anything else."""
    if isinstance(a, SymArray):
        return a.view(_raw)
    return SymArray.wrap(a).view(_raw)


class SymArray(np.ndarray):
    _ld = None

    # ---- construction
    @staticmethod
    def from_raw(raw, ld):
        r = raw.view(SymArray)
        r._ld = np.dtype(ld)
        return r

    @staticmethod
    def from_obj(x, ld):
        raw = np.empty((), dtype=object)
        raw[()] = norm(x)
        return SymArray.from_raw(raw, ld)

    @staticmethod
    def wrap(x, dtype=None, copy=False):
        """anything -> SymArray"""
        if SymTensor is None:
            _late()
        if isinstance(x, SymTensor):
            x = x._a
        elif isinstance(x, torch.Tensor):
            x = x.detach().cpu().numpy()
        if isinstance(x, SymArray):
            if dtype is not None and np.dtype(dtype) != x._ld:
                return x.astype(dtype)
            return x.copy() if copy else x
        if isinstance(x, np.ndarray):
            return SymArray.from_real(x, dtype)
        if isinstance(x, Sym):
            r = SymArray.from_obj(x, x.dtype)
            return r.astype(dtype) if dtype is not None and np.dtype(dtype) != r._ld else r
        if isinstance(x, (list, tuple)):
            r = _from_nested(x, dtype)
            return r
        if isinstance(x, range):
            return SymArray.from_real(np.arange(x.start, x.stop, x.step), dtype)
        if hasattr(type(x), "_sx_array"):
            return SymArray.wrap(x._sx_array, dtype, True)
        return SymArray.from_real(np.array(x, dtype=dtype) if dtype is not None and np.dtype(dtype).kind in "biufc" and kind_of(x) is not None
                                  else np.array(x) if dtype is None or np.dtype(dtype) != OBJ else np.array(x, dtype=object), dtype)

    @staticmethod
    def from_real(x, dtype=None):
        if dtype is not None and x.dtype != np.dtype(dtype):
            x = x.astype(dtype)
        ld = x.dtype
        raw = np.empty(x.shape, dtype=object)
        if ld == OBJ:
            raw[...] = x
        elif ld.kind in "biuf":
            raw[...] = x.astype(np.float64).astype(object) if ld.kind == "f" and ld.itemsize < 8 else x.astype(object)
        else:
            it = np.ndindex(*x.shape)
            for ix in it:
                raw[ix] = x[ix]
        return SymArray.from_raw(raw, ld)

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ld = getattr(obj, "_ld", None)

    def __array_wrap__(self, out, context=None):
        return out

    @property
    def dtype(self):
        ld = self._ld
        return ld if ld is not None else OBJ

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    @property
    def T(self):
        return SymArray.from_raw(self.view(_raw).T, self.dtype)

    @property
    def flat(self):
        return iter(self.reshape(-1))

    @property
    def real(self):
        return self

    # ---- inspection
    def has_sym(self):
        return any(isinstance(e, Sym) for e in self.view(_raw).flat)

    def to_real(self, force=False):
        """plain numpy array; symbolic elements are concretised (forks)."""
        raw = self.view(_raw)
        out = np.empty(raw.shape, dtype=object)
        for ix in np.ndindex(*raw.shape):
            e = raw[ix]
            out[ix] = core._cv(e) if isinstance(e, Sym) else e
        ld = self.dtype
        if ld == OBJ:
            return out
        if ld.kind == "f":
            out2 = np.empty(raw.shape, dtype=ld)
            for ix in np.ndindex(*raw.shape):
                out2[ix] = float(out[ix]) if out[ix] is not None else np.nan
            return out2
        return out.astype(ld)

    def _wrap_elem(self, e):
        if isinstance(e, Sym):
            return e if e.npf else Sym(e.z, e.k, True)
        ld = self.dtype
        if ld.kind in "biuf":
            if e is None:
                return e
            return ld.type(e)
        return e

    # ---- indexing
    def __getitem__(self, key):
        key, sym = norm_key(key, self.shape)
        raw = self.view(_raw)
        if sym:
            return sym_get(self, key)
        r = raw[key]
        if type(r) is _raw or isinstance(r, np.ndarray):
            if self.dtype == OBJ and not _is_view_result(raw, key, r):
                return r
            return SymArray.from_raw(r, self.dtype)
        return self._wrap_elem(r)

    def __setitem__(self, key, value):
        key, sym = norm_key(key, self.shape, setting=True)
        if sym:
            return sym_set(self, key, value)
        raw = self.view(_raw)
        if self.dtype == OBJ:
            if isinstance(value, SymArray):
                value = value.view(_raw)
            raw[key] = value
            return
        v = cast_for_store(value, self.dtype)
        raw[key] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool((self == x).any())

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    # ---- conversion
    def _single(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return self.view(_raw).reshape(-1)[0]

    def __bool__(self):
        if self.size == 0:
            return False
        return bool(self._single())

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(self._single())

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(self._single())

    def __index__(self):
        if self.size != 1 or self.dtype.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self._single().__index__()

    def __deepcopy__(self, memo):
        import copy
        r = self.copy()
        if self.dtype == OBJ:
            raw = r.view(_raw)
            for ix in np.ndindex(*raw.shape):
                raw[ix] = copy.deepcopy(raw[ix], memo)
        return r

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        if core.PICKLED is None:
            raise Unsupported("pickling a symbolic array")
        return SymArray.from_raw, (np.array(self.view(_raw), dtype=object, copy=True).view(_raw), self.dtype)

    def __repr__(self):
        return f"SymArray({self.view(_raw).tolist()!r:.200}, dtype={self.dtype})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def copy(self, order="C"):
        return SymArray.from_raw(np.array(self.view(_raw), dtype=object, copy=True), self.dtype)

    def astype(self, dtype, copy=True, **kw):
        if isinstance(dtype, str) or not isinstance(dtype, np.dtype):
            dtype = np.dtype(dtype)
        if dtype == self.dtype:
            return self.copy() if copy else self
        raw = self.view(_raw)
        out = np.empty(raw.shape, dtype=object)
        if dtype == OBJ:
            out[...] = raw
        elif dtype.kind in "biuf":
            for ix in np.ndindex(*raw.shape):
                out[ix] = s_cast(raw[ix], dtype.kind)
        else:
            return self.to_real().astype(dtype)
        return SymArray.from_raw(out, dtype)

    def item(self, *a):
        if a:
            e = self.view(_raw).item(*a)
        else:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            e = self._single()
        return Sym(e.z, e.k, False) if isinstance(e, Sym) else e

    def tolist(self):
        def conv(x):
            return [conv(y) for y in x] if isinstance(x, list) else (Sym(x.z, x.k, False) if isinstance(x, Sym) else x)
        return conv(self.view(_raw).tolist())

    def fill(self, v):
        self[...] = v

    def view(self, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], type):
            return super().view(a[0])
        if a and not isinstance(a[0], type):
            raise Unsupported("ndarray.view(dtype)")
        return super().view(*a, **k)

    # ---- shape-only
    def _shape_op(self, name, *a, **k):
        return SymArray.from_raw(getattr(self.view(_raw), name)(*a, **k), self.dtype)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1:
            shape = shape[0]
        if isinstance(shape, (tuple, list)):
            shape = tuple(int(s) for s in shape)
        else:
            shape = int(shape)
        return self._shape_op("reshape", shape)

    def flatten(self, order="C"):
        return self._shape_op("flatten")

    def ravel(self, order="C"):
        return self._shape_op("ravel")

    def squeeze(self, axis=None):
        return self._shape_op("squeeze", axis)

    def transpose(self, *axes):
        return self._shape_op("transpose", *axes)

    def swapaxes(self, a, b):
        return self._shape_op("swapaxes", a, b)

    def repeat(self, repeats, axis=None):
        if isinstance(repeats, SymArray):
            repeats = repeats.to_real()
        elif isinstance(repeats, Sym):
            repeats = int(repeats)
        return self._shape_op("repeat", repeats, axis)

    def take(self, ix, axis=None, **k):
        return F_take(self, ix, axis)

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_impl("sum", self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_impl("prod", self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_impl("mean", self, axis, keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return reduce_impl("var", self, axis, keepdims, ddof=ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return reduce_impl("std", self, axis, keepdims, ddof=ddof)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_impl("max", self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_impl("min", self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_impl("any", self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_impl("all", self, axis, keepdims)

    def argmax(self, axis=None, out=None, keepdims=False):
        return reduce_impl("argmax", self, axis, keepdims)

    def argmin(self, axis=None, out=None, keepdims=False):
        return reduce_impl("argmin", self, axis, keepdims)

    def cumsum(self, axis=None, **k):
        return F_cumsum(self, axis)

    def nonzero(self):
        return F_nonzero(self)

    def clip(self, min=None, max=None, out=None, **k):
        return F_clip(self, min, max, out=out)

    def round(self, decimals=0, out=None):
        return F_round(self, decimals)

    def sort(self, axis=-1, **k):
        r = F_sort(self, axis)
        self.view(_raw)[...] = r.view(_raw)

    def argsort(self, axis=-1, **k):
        return F_argsort(self, axis)

    def dot(self, o):
        return matmul(self, o)

    # ---- dispatch
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_impl(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return function_impl(func, args, kwargs)

    # numpy's own binary operators call the ufuncs, except that `==` with odd types warns
    def __eq__(self, o):
        return ufunc_impl(np.equal, "__call__", (self, o), {})

    def __ne__(self, o):
        return ufunc_impl(np.not_equal, "__call__", (self, o), {})

    __hash__ = None


def _is_view_result(raw, key, r):
    """object arrays may hold arrays as elements: r can be an element, not a sub-array"""
    if isinstance(key, tuple):
        n_int = sum(1 for k in key if isinstance(k, (int, np.integer)))
        if n_int == raw.ndim and len(key) == n_int:
            return False
        return True
    if isinstance(key, (int, np.integer)) and raw.ndim == 1:
        return False
    return True


def cast_for_store(value, ld):
    """value (scalar/array/nested list) -> something assignable into raw storage of logical dtype ld"""
    if isinstance(value, Sym) or kind_of(value) is not None or value is None:
        return s_cast(value, ld.kind)
    v = SymArray.wrap(value)
    if v.dtype != ld:
        v = v.astype(ld) if ld.kind in "biuf" else v
    return v.view(_raw) if isinstance(v, SymArray) else v


def _from_nested(x, dtype):

    # all-real fast path
    def has(x):
        if isinstance(x, (list, tuple)):
            return any(has(e) for e in x)
        return isinstance(x, (Sym, SymArray, torch.Tensor))
    if not has(x):
        return SymArray.from_real(np.array(x, dtype=dtype) if dtype is not None else np.array(x))
    dts = []

    def conv(x):
        if isinstance(x, (list, tuple)):
            return [conv(e) for e in x]
        if isinstance(x, torch.Tensor):
            x = SymArray.wrap(x)
        if isinstance(x, np.ndarray):
            x = SymArray.wrap(x)
            dts.append(x.dtype)
            return x.view(_raw).tolist() if x.ndim else x.view(_raw)[()]
        if isinstance(x, Sym):
            dts.append(x.dtype)
            return x
        if isinstance(x, np.generic):
            dts.append(x.dtype)
            return norm(x)
        k = kind_of(x)
        dts.append({"b": B1, "i": I64, "f": F64}.get(k, OBJ))
        return x
    nested = conv(x)

    def shape(n):
        if isinstance(n, list):
            if not n:
                return (0,)
            ss = [shape(e) for e in n]
            if any(s != ss[0] for s in ss):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            return (len(n), *ss[0])
        return ()
    sh = shape(nested)
    ld = np.dtype(dtype) if dtype is not None else (np.result_type(*dts) if dts else F64)
    raw = np.empty(sh, dtype=object)

    def fill(n, ix):
        if isinstance(n, list):
            for i, e in enumerate(n):
                fill(e, (*ix, i))
        else:
            raw[ix] = s_cast(n, ld.kind) if ld.kind in "biuf" else n
    fill(nested, ())
    return SymArray.from_raw(raw, ld)


# ---------------------------------------------------------------- index handling
def norm_key(key, shape, setting=False):
    """-> (key usable on a raw object array, has_symbolic)"""
    def one(k, dim):
        if isinstance(k, Sym):
            if k.k == "b":
                return bool(k), False
            return k, True
        if isinstance(k, torch.Tensor):
            k = SymArray.wrap(k)
        if isinstance(k, (list,)):
            k = SymArray.wrap(k) if len(k) else np.zeros(0, dtype=int)
        if isinstance(k, SymArray):
            if k.dtype.kind == "f":
                if k.size == 0 and k.ndim == 1 and False:
                    return np.zeros(0, int), False
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            if k.has_sym():
                return k, True
            if k.ndim == 0 and k.dtype.kind in "iu":
                return int(k._single()), False
            return k.to_real(), False
        if isinstance(k, slice):
            if any(isinstance(v, (Sym, SymArray)) for v in (k.start, k.stop, k.step)):
                f = lambda v: v.__index__() if isinstance(v, (Sym, SymArray)) else v
                return slice(f(k.start), f(k.stop), f(k.step)), False
            return k, False
        return k, False
    if isinstance(key, tuple):
        ks, sym = [], False
        for d, k in enumerate(key):
            k2, s = one(k, d)
            ks.append(k2)
            sym = sym or s
        return tuple(ks), sym
    k, s = one(key, 0)
    return k, s


def _conc_mask(m):
    """boolean SymArray mask -> real bool array (forks per element)"""
    return m.to_real()


def _norm_idx(i, n, what="index"):
    """symbolic integer index -> nonneg z3-able Sym in [0,n); forks to IndexError when it can be out of range."""
    if not isinstance(i, Sym):
        i = int(i)
        if i < -n or i >= n:
            raise IndexError(f"index {i} is out of bounds for axis 0 with size {n}")
        return i % n
    z = zz(i, "i")
    ok = core.ENG.branch(z3.And(z >= -n, z < n))
    if not ok:
        raise IndexError(f"index is out of bounds for axis 0 with size {n}")
    if core.ENG.branch(z >= 0):
        r = mk(z, "i")
    else:
        r = mk(z + n, "i")
    return r


def _select(raw, dims):
    """raw object array, dims: list of (possibly Sym) normalised ints for the leading axes -> element or sub-array"""
    if not dims:
        return raw if raw.ndim else raw[()]
    d, rest = dims[0], dims[1:]
    if not isinstance(d, Sym):
        r = raw[d]
        if not rest:
            return r
        return _select(r, rest)
    n = raw.shape[0]
    outs = [(j, _select(raw[j], rest) if rest else raw[j]) for j in range(n)]
    acc = outs[-1][1]
    for j, o in reversed(outs[:-1]):
        c = mk(d.z == j, "b")
        acc = _ite_any(c, o, acc)
    return acc


def _ite_any(c, a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            out[ix] = s_ite(c, a[ix], b[ix])
        return out
    return s_ite(c, a, b)


def _int_key_grid(key, shape):
    """tuple of ints / int arrays covering leading axes -> (out_shape, iterator of (out_ix, [idx per axis]))"""
    arrs = []
    for k in key:
        if isinstance(k, SymArray):
            arrs.append(k.view(_raw))
        elif isinstance(k, np.ndarray):
            arrs.append(k.astype(object))
        else:
            a = np.empty((), dtype=object)
            a[()] = k
            arrs.append(a)
    bs = np.broadcast_arrays(*arrs)
    return bs[0].shape, bs


def _symkey_plan(arr, key):
    """Return ('mask', m) | ('ints', key tuple) | ('conc', key)"""
    if not isinstance(key, tuple):
        key = (key,)
    if len(key) == 1 and isinstance(key[0], SymArray) and key[0].dtype.kind == "b":
        return "mask", key[0]
    if arr.dtype == OBJ:
        return "conc", None
    # strip trailing full slices / leading Ellipsis handling: only pure int/array-int leading keys are encoded
    ks = list(key)
    while ks and (ks[-1] is Ellipsis or (isinstance(ks[-1], slice) and ks[-1] == slice(None))):
        ks.pop()
    if all((isinstance(k, (Sym, int, np.integer)) or (isinstance(k, np.ndarray) and (k.dtype.kind in "iu"))) for k in ks) \
            and len(ks) <= arr.ndim:
        return "ints", tuple(ks)
    return "conc", None


def _concretise_key(key):
    def f(k):
        if isinstance(k, Sym):
            return int(k)
        if isinstance(k, SymArray):
            return k.to_real()
        return k
    return tuple(f(k) for k in key) if isinstance(key, tuple) else f(key)


def sym_get(arr, key):
    plan, k = _symkey_plan(arr, key)
    if plan == "mask":
        return arr[_conc_mask(k)]
    if plan == "conc":
        return arr[_concretise_key(key)]
    raw = arr.view(_raw)
    sh, bs = _int_key_grid(k, raw.shape)
    tail = raw.shape[len(k):]
    out = np.empty(sh + tail, dtype=object)
    for ix in np.ndindex(*sh):
        dims = [_norm_idx(b[ix], raw.shape[d]) for d, b in enumerate(bs)]
        v = _select(raw, dims)
        out[ix] = v
    if out.ndim == 0:
        return arr._wrap_elem(out[()])
    return SymArray.from_raw(out, arr.dtype)


def sym_set(arr, key, value):
    plan, k = _symkey_plan(arr, key)
    raw = arr.view(_raw)
    if plan == "mask":
        v = cast_for_store(value, arr.dtype)
        if not isinstance(v, np.ndarray) or v.ndim == 0 or v.size == 1:
            e = v if not isinstance(v, np.ndarray) else v.reshape(-1)[0]
            m = k.view(_raw)
            for ix in np.ndindex(*m.shape):
                c = m[ix]
                cell = raw[ix]
                if isinstance(cell, np.ndarray):
                    for jx in np.ndindex(*cell.shape):
                        raw[ix + jx] = s_ite(c, e, raw[ix + jx])
                else:
                    raw[ix] = s_ite(c, e, cell)
            return
        arr[_conc_mask(k)] = value
        return
    if plan == "conc":
        arr[_concretise_key(key)] = value
        return
    v = cast_for_store(value, arr.dtype)
    sh, bs = _int_key_grid(k, raw.shape)
    tail = raw.shape[len(k):]
    va = np.empty((), dtype=object)
    if isinstance(v, np.ndarray):
        va = v
    else:
        va[()] = v
    vb = np.broadcast_to(va, sh + tail)
    for ix in np.ndindex(*sh):
        dims = [_norm_idx(b[ix], raw.shape[d]) for d, b in enumerate(bs)]
        val = vb[ix]
        spaces = [range(raw.shape[d]) if isinstance(x, Sym) else (x,) for d, x in enumerate(dims)]
        for pos in itertools.product(*spaces):
            conds = [mk(x.z == p, "b") for x, p in zip(dims, pos) if isinstance(x, Sym)]
            c = s_and(conds) if conds else True
            if tail:
                cell = raw[pos]
                for jx in np.ndindex(*tail):
                    cell[jx] = s_ite(c, val[jx], cell[jx])
            else:
                raw[pos] = s_ite(c, val if not isinstance(val, np.ndarray) else val[()], raw[pos])


# ---------------------------------------------------------------- ufuncs
def e_bin(op):
    pyop = {
        "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
        "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
        "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
    }.get(op)

    def f(a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            r = s_bin(op, a, b, npf=True)
            if r is NotImplemented:
                if op == "eq":
                    return False
                if op == "ne":
                    return True
                raise TypeError(f"unsupported operand types for {op}: {type(a)} {type(b)}")
            return r
        if op in ("add", "mul") and isinstance(a, bool) and isinstance(b, bool):
            return (a or b) if op == "add" else (a and b)
        if pyop is not None:
            return norm(pyop(a, b))
        with np.errstate(all="ignore"):
            if op == "div":
                return norm(np.float64(a) / np.float64(b))
            if op == "floordiv":
                return norm(np.floor_divide(a, b))
            if op == "mod":
                return norm(np.mod(a, b))
            if op == "pow":
                return norm(np.power(a, b))
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "max":
                return a if (a >= b or a != a) else b
            if op == "min":
                return a if (a <= b or a != a) else b
        raise Unsupported(op)
    return f


def _tob(x):
    if isinstance(x, Sym):
        return x if x.k == "b" else mk(zz(x, "b"), "b")
    return bool(x)


def e_logic(op):
    def f(a, b):
        a, b = _tob(a), _tob(b)
        if op == "and":
            return s_and([a, b])
        if op == "or":
            return s_or([a, b])
        if isinstance(a, Sym) or isinstance(b, Sym):
            return s_bin("xor", a, b, npf=True)
        return a != b
    return f


BIN = {
    "add": ("add", None), "subtract": ("sub", None), "multiply": ("mul", None), "divide": ("div", "f"),
    "true_divide": ("div", "f"), "floor_divide": ("floordiv", None), "remainder": ("mod", None), "mod": ("mod", None),
    "power": ("pow", None), "float_power": ("pow", "f"),
    "less": ("lt", "b"), "less_equal": ("le", "b"), "greater": ("gt", "b"), "greater_equal": ("ge", "b"),
    "equal": ("eq", "b"), "not_equal": ("ne", "b"), "maximum": ("max", None), "minimum": ("min", None),
    "fmax": ("max", None), "fmin": ("min", None),
    "bitwise_and": ("and", None), "bitwise_or": ("or", None), "bitwise_xor": ("xor", None),
}
LOGIC = {"logical_and": "and", "logical_or": "or", "logical_xor": "xor"}
UN = {
    "negative": ("neg", None), "positive": ("pos", None), "absolute": ("abs", None), "fabs": ("abs", "f"),
    "exp": ("exp", "f"), "log": ("log", "f"), "tanh": ("tanh", "f"), "sqrt": ("sqrt", "f"), "sin": ("sin", "f"),
    "cos": ("cos", "f"), "arctanh": ("atanh", "f"), "isnan": ("isnan", "b"), "isinf": ("isinf", "b"),
    "isfinite": ("isfinite", "b"), "logical_not": ("not", "b"), "invert": ("invert", None), "floor": ("floor", "f"),
    "ceil": ("ceil", "f"), "rint": ("rint", "f"), "sign": ("sign", None), "trunc": ("trunc", "f"),
    "square": ("square", None), "conjugate": ("pos", None), "reciprocal": ("recip", "f"), "log1p": ("log1p", "f"),
    "expm1": ("expm1", "f"), "log2": ("log2", "f"), "log10": ("log10", "f"),
}


def e_un(op):
    def f(a):
        if op == "square":
            return e_bin("mul")(a, a)
        if op == "recip":
            return e_bin("div")(1.0, a)
        if op == "log1p":
            return s_unary("log", e_bin("add")(a, 1.0))
        if op == "expm1":
            return e_bin("sub")(s_unary("exp", a), 1.0)
        if op in ("log2", "log10"):
            return e_bin("div")(s_unary("log", a), math.log(2 if op == "log2" else 10))
        if op == "pos":
            return a
        if op == "not":
            a = _tob(a)
        return s_unary(op, a)
    return f


def rt(*xs):
    """numpy result dtype of operands (value-based for python scalars)."""
    args = []
    allsc = True
    for x in xs:
        if isinstance(x, SymArray) and x.ndim:
            args.append(x.dtype)
            allsc = False
        elif isinstance(x, np.ndarray) and x.ndim:
            args.append(x.dtype)
            allsc = False
    for x in xs:
        if isinstance(x, np.ndarray) and not x.ndim:
            args.append(x.dtype if allsc else np.zeros((), x.dtype)[()])
        elif not isinstance(x, np.ndarray):
            k = kind_of(x)
            if k is None:
                return OBJ
            if isinstance(x, np.generic):
                args.append(x)
            else:
                args.append({"b": False, "i": 0, "f": 0.0}[k])
    try:
        d = np.result_type(*args)
    except TypeError:
        return OBJ
    return d


def elementwise(fn, ld, *ins):
    raws = []
    scalar = True
    for x in ins:
        if isinstance(x, np.ndarray):
            r = _obj(x)
            if r.ndim:
                scalar = False
            raws.append(r)
        else:
            a = np.empty((), dtype=object)
            a[()] = norm(x)
            raws.append(a)
    if len(raws) == 1:
        bs = raws
    else:
        bs = np.broadcast_arrays(*raws)
    out = np.empty(bs[0].shape, dtype=object)
    if len(bs) == 1:
        b0 = bs[0]
        for ix in np.ndindex(*out.shape):
            out[ix] = fn(b0[ix])
    elif len(bs) == 2:
        b0, b1 = bs
        for ix in np.ndindex(*out.shape):
            out[ix] = fn(b0[ix], b1[ix])
    else:
        for ix in np.ndindex(*out.shape):
            out[ix] = fn(*[b[ix] for b in bs])
    r = SymArray.from_raw(out, ld)
    if scalar:
        return r._wrap_elem(out[()])
    return r


def ufunc_impl(ufunc, method, inputs, kwargs):
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    dtype = kwargs.pop("dtype", None)
    where = kwargs.pop("where", True)
    kwargs.pop("casting", None)
    name = ufunc.__name__
    if any(isinstance(x, torch.Tensor) for x in inputs):
        if any(not isinstance(x, (np.ndarray, torch.Tensor, Sym)) and kind_of(x) is None for x in inputs):
            return NotImplemented
        inputs = tuple(SymArray.wrap(x) if isinstance(x, torch.Tensor) else x for x in inputs)
    ins = tuple(SymArray.wrap(x) if isinstance(x, (list, tuple)) else x for x in inputs)
    for x in ins:
        if not isinstance(x, (np.ndarray, Sym, np.generic)) and kind_of(x) is None and hasattr(type(x), "__r" + name + "__"):
            return NotImplemented
    if method == "__call__":
        if name in BIN:
            op, k = BIN[name]
            ld = {"b": B1, "f": None}.get(k)
            if ld is None:
                ld = rt(*ins)
                if k == "f" and ld.kind != "f":
                    ld = F64 if ld != OBJ else OBJ
                if name in ("subtract",) and ld.kind == "b":
                    raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
            if op in ("add", "sub", "mul", "max", "min") and ld.kind == "f":
                base = e_bin(op)
                fn = lambda a, b: s_cast(base(a, b), "f") if not (a is None or b is None) else base(a, b)
            else:
                fn = e_bin(op)
            res = elementwise(fn, ld, *ins)
        elif name in LOGIC:
            res = elementwise(e_logic(LOGIC[name]), B1, *ins)
        elif name in UN:
            op, k = UN[name]
            ld = {"b": B1}.get(k)
            if ld is None:
                ld = rt(*ins)
                if k == "f" and ld.kind != "f":
                    ld = F64
            res = elementwise(e_un(op), ld, *ins)
        elif name == "matmul":
            res = matmul(*ins)
        elif name == "clip":
            res = F_clip(*ins)
        else:
            res = fallback(ufunc, inputs, {})
        if dtype is not None:
            res = res.astype(dtype)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if o is not None:
                rdt = res.dtype if hasattr(res, "dtype") else np.asarray(res).dtype
                if isinstance(o, SymArray):
                    if not np.can_cast(rdt, o.dtype, "same_kind"):
                        raise np.core._exceptions._UFuncOutputCastingError(ufunc, "same_kind", rdt, o.dtype, 0)
                    if isinstance(res, SymArray) and res.ndim and np.broadcast_shapes(res.shape, o.shape) != o.shape:
                        raise ValueError(f"non-broadcastable output operand with shape {o.shape}")
                    if where is not True:
                        o[where] = SymArray.wrap(res)[where] if np.ndim(res) else res
                    else:
                        o[...] = res
                elif o.dtype == OBJ:
                    o[...] = _obj(res) if isinstance(res, np.ndarray) else res
                else:
                    o[...] = SymArray.wrap(res).to_real()
                return o
        return res
    if method == "reduce":
        axis = kwargs.get("axis", 0)
        keep = kwargs.get("keepdims", False)
        m = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min", "logical_or": "any",
             "logical_and": "all"}.get(name)
        if m:
            return reduce_impl(m, SymArray.wrap(ins[0]), axis, keep)
    if method == "at":
        a, ix, v = (list(ins) + [None])[:3]
        ixs = SymArray.wrap(ix).view(_raw) if not isinstance(ix, tuple) else None
        if ixs is None:
            raise Unsupported("ufunc.at tuple")
        vs = np.broadcast_to(_obj(v) if isinstance(v, np.ndarray) else np.array(v, dtype=object), ixs.shape)
        for p in np.ndindex(*ixs.shape):
            a[ixs[p]] = ufunc(a[ixs[p]], vs[p])
        return None
    if method == "accumulate":
        if name == "add":
            return F_cumsum(SymArray.wrap(ins[0]), kwargs.get("axis", 0))
        a = SymArray.wrap(ins[0])
        axis = kwargs.get("axis", 0)
        r = a.copy()
        rr = np.moveaxis(r.view(_raw), axis, 0)
        fn = e_bin(BIN[name][0])
        for i in range(1, rr.shape[0]):
            for ix in np.ndindex(*rr.shape[1:]):
                rr[(i, *ix)] = fn(rr[(i - 1, *ix)], rr[(i, *ix)])
        return r
    if method == "outer":
        a, b = SymArray.wrap(ins[0]), SymArray.wrap(ins[1])
        return ufunc(a.reshape(a.shape + (1,) * b.ndim), b)
    return fallback(getattr(ufunc, method), inputs, kwargs)


def matmul(a, b):
    a, b = SymArray.wrap(a), SymArray.wrap(b)
    A, B = a.view(_raw), b.view(_raw)
    ld = np.result_type(a.dtype, b.dtype)
    add, mul = e_bin("add"), e_bin("mul")

    def dot(x, y):
        acc = 0.0 if ld.kind == "f" else 0
        for p, q in zip(x, y):
            acc = add(acc, mul(p, q))
        return acc
    if A.ndim == 1 and B.ndim == 1:
        if A.shape != B.shape:
            raise ValueError("matmul: shape mismatch")
        return SymArray.from_obj(dot(A, B), ld)[()]
    if A.ndim == 1:
        r = matmul(a.reshape(1, -1), b)
        return r.reshape(r.shape[:-2] + r.shape[-1:])
    if B.ndim == 1:
        r = matmul(a, b.reshape(-1, 1))
        return r.reshape(r.shape[:-1])
    if A.shape[-1] != B.shape[-2]:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension {A.shape} {B.shape}")
    lead = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, lead + A.shape[-2:])
    B = np.broadcast_to(B, lead + B.shape[-2:])
    out = np.empty(lead + (A.shape[-2], B.shape[-1]), dtype=object)
    for ix in np.ndindex(*lead):
        for i in range(A.shape[-2]):
            for j in range(B.shape[-1]):
                out[ix + (i, j)] = dot(A[ix + (i,)], B[ix][:, j])
    return SymArray.from_raw(out, ld)


# ---------------------------------------------------------------- reductions
def _reduce_vec(op, xs, ld, ddof=0):
    add, mul = e_bin("add"), e_bin("mul")
    if op == "sum":
        if ld.kind == "b":
            xs = [s_cast(x, "i") for x in xs]
        acc = 0.0 if ld.kind == "f" else 0
        syms = [x for x in xs if isinstance(x, Sym)]
        if len(syms) > 1 and not any(core.is_nonfinite(x) for x in xs):
            k = "f" if ld.kind == "f" else "i"
            for x in xs:
                if not isinstance(x, Sym):
                    acc = acc + x
            t = [zz(x, k) for x in syms]
            if acc != 0:
                t.append(zz(acc, k))
            return mk(z3.Sum(t), k)
        for x in xs:
            acc = add(acc, x)
        return acc
    if op == "prod":
        acc = 1.0 if ld.kind == "f" else 1
        for x in xs:
            acc = mul(acc, x)
        return acc
    if op == "mean":
        if not xs:
            return math.nan
        s = _reduce_vec("sum", [s_cast(x, "f") for x in xs], F64)
        return e_bin("div")(s, float(len(xs)))
    if op in ("var", "std"):
        m = _reduce_vec("mean", xs, F64)
        d = [e_bin("sub")(x, m) for x in xs]
        s = _reduce_vec("sum", [mul(x, x) for x in d], F64)
        n = len(xs) - ddof
        v = e_bin("div")(s, float(n))
        return v if op == "var" else s_unary("sqrt", v)
    if op in ("max", "min"):
        if not xs:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        acc = xs[0]
        f = e_bin(op)
        for x in xs[1:]:
            acc = f(acc, x)
        return acc
    if op == "any":
        return s_or([_tob(x) for x in xs])
    if op == "all":
        return s_and([_tob(x) for x in xs])
    if op in ("argmax", "argmin"):
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        best, bi = xs[0], 0
        cmp_ = e_bin("gt" if op == "argmax" else "lt")
        for i, x in enumerate(xs[1:], 1):
            c = cmp_(x, best)
            best = s_ite(c, x, best)
            bi = s_ite(c, i, bi)
        return bi
    raise Unsupported(op)


def reduce_impl(op, a, axis=None, keepdims=False, ddof=0):
    a = SymArray.wrap(a)
    raw = a.view(_raw)
    if isinstance(keepdims, type(np._NoValue)):
        keepdims = False
    ld = a.dtype
    if op in ("any", "all"):
        old = B1
    elif op in ("argmax", "argmin"):
        old = I64
    elif op in ("mean", "var", "std"):
        old = ld if ld.kind == "f" else F64
    elif op in ("sum", "prod"):
        old = I64 if ld.kind in "bi" else ld
        if ld == OBJ:
            ld = F64 if any(kind_of(x) == "f" for x in raw.flat) else I64
    else:
        old = ld
    if isinstance(axis, Sym):
        axis = int(axis)
    if axis is None:
        r = _reduce_vec(op, list(raw.reshape(-1)), ld, ddof)
        res = SymArray.from_obj(r, old)
        if keepdims:
            return res.reshape((1,) * a.ndim)
        return res[()]
    axes = axis if isinstance(axis, tuple) else (axis,)
    for x in axes:
        if not -raw.ndim <= x < raw.ndim:
            raise np.AxisError(x, raw.ndim)
    axes = tuple(x % raw.ndim for x in axes)
    rest = [i for i in range(raw.ndim) if i not in axes]
    moved = np.transpose(raw, rest + list(axes))
    sh = moved.shape[: len(rest)]
    out = np.empty(sh, dtype=object)
    for ix in np.ndindex(*sh):
        cell = moved[ix]
        out[ix] = _reduce_vec(op, list(cell.reshape(-1)) if isinstance(cell, np.ndarray) else [cell], ld, ddof)
    res = SymArray.from_raw(out, old)
    if keepdims:
        return res.reshape(tuple(1 if i in axes else n for i, n in enumerate(raw.shape)))
    if res.ndim == 0:
        return res[()]
    return res


# ---------------------------------------------------------------- function table
def _dt(dtype, default=F64):
    return default if dtype is None else np.dtype(dtype)


def _ints(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    if isinstance(shape, SymArray):
        return tuple(int(s) for s in shape)
    return (int(shape),)


def _zero_of(dt):
    return {"b": False, "i": 0, "u": 0, "f": 0.0}.get(dt.kind)


def F_full(shape, fill_value, dtype=None, order="C"):
    sh = _ints(shape)
    if dtype is None:
        dtype = SymArray.wrap(fill_value).dtype
    dt = np.dtype(dtype)
    if dt.kind not in "biufO":
        return np.full(sh, fill_value, dtype=dt)
    raw = np.empty(sh, dtype=object)
    a = SymArray.from_raw(raw, dt)
    if dt == OBJ:
        raw[...] = fill_value
    else:
        v = cast_for_store(fill_value, dt)
        raw[...] = v
    return a


def F_zeros(shape, dtype=float, order="C", like=None):
    dt = np.dtype(dtype)
    if dt.kind not in "biufO":
        return np.zeros(shape, dtype=dt)
    return F_full(shape, _zero_of(dt) if dt != OBJ else 0, dt)


def F_empty(shape, dtype=float, order="C", like=None):
    dt = np.dtype(dtype)
    if dt == OBJ:
        return F_full(shape, None, dt)
    return F_zeros(shape, dtype)


def F_ones(shape, dtype=float, order="C", like=None):
    return F_full(shape, 1, dtype)


def _like(fn):
    def f(a, dtype=None, order="K", subok=True, shape=None):
        a = SymArray.wrap(a)
        return fn(a.shape if shape is None else shape, dtype or a.dtype)
    return f


def F_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    a = SymArray.wrap(a)
    return F_full(a.shape if shape is None else shape, fill_value, dtype or a.dtype)


def F_arange(*args, dtype=None, **k):
    args = [int(x) if isinstance(x, Sym) and x.k == "i" else (float(x) if isinstance(x, Sym) else (x.item() if isinstance(x, SymArray) else x)) for x in args]
    args = [int(x) if isinstance(x, Sym) and x.k == "i" else x for x in args]
    return SymArray.from_real(np.arange(*args, dtype=dtype, **k))


def F_linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    if not sym_any(a, b):
        return SymArray.from_real(np.linspace(a, b, int(num), endpoint=endpoint, dtype=dtype))
    num = int(num)
    d = num - 1 if endpoint else num
    return SymArray.wrap([a + (b - a) * i / d if i else a for i in range(num)], dtype or float)


def F_array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    r = None
    if hasattr(type(x), "_sx_array"):        # a harness' file-backed array
        x = x._sx_array
    if dtype is not None and not isinstance(dtype, np.dtype):
        dtype = np.dtype(dtype)
    if dtype is not None and dtype.kind not in "biufO":
        return np.array(x, dtype=dtype)
    if isinstance(x, np.ndarray) or isinstance(x, SymTensor):
        r = SymArray.wrap(x, dtype)
        if copy and isinstance(x, SymArray) and (r is x or np.shares_memory(r, x)):
            r = r.copy()
    elif isinstance(x, (list, tuple)):
        if dtype == OBJ:
            return np.array(x, dtype=object)
        has = any(isinstance(e, (Sym, np.ndarray)) or hasattr(e, "__len__") or True for e in x)
        r = SymArray.wrap(x, dtype) if has else SymArray.from_real(np.array(x, dtype=dtype))
        if r.dtype.kind not in "biufO":
            return np.array(x)
    else:
        if not isinstance(x, Sym) and kind_of(x) is None:
            ar = np.array(x, dtype=dtype) if dtype is not None else np.array(x)
            if ar.dtype.kind in "biuf":
                return SymArray.from_real(ar)
            return ar
        r = SymArray.wrap(x, dtype)
    if r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    if isinstance(r, SymArray) and r.dtype == OBJ and not isinstance(x, SymArray):
        return r.view(_raw) if isinstance(r, SymArray) else r
    return r


def F_asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SymArray) and (dtype is None or np.dtype(dtype) == x.dtype):
        return x
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind not in "biuf" and dtype is None:
        return x
    return F_array(x, dtype, copy=False)


def F_concatenate(arrays, axis=0, out=None, dtype=None, **k):
    arrs = [x if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind not in "biuf" else SymArray.wrap(x) for x in arrays]
    if any(not isinstance(x, SymArray) for x in arrs):
        return np.concatenate([x.view(_raw) if isinstance(x, SymArray) else x for x in arrs], axis=axis)
    r = np.concatenate([x.view(_raw) for x in arrs], axis=axis)
    ld = np.result_type(*[x.dtype for x in arrs]) if dtype is None else np.dtype(dtype)
    return _recast(SymArray.from_raw(r, ld), [x.dtype for x in arrs])


def _recast(a, dts):
    if any(d != a.dtype for d in dts) and a.dtype.kind in "biuf":
        raw = a.view(_raw)
        for ix in np.ndindex(*raw.shape):
            raw[ix] = s_cast(raw[ix], a.dtype.kind)
    return a


def _stacklike(fn):
    def f(arrays, *a, **k):
        k.pop("dtype", None)
        arrays = list(arrays)
        if any(isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind not in "biuf" for x in arrays):
            return fn([x.view(_raw) if isinstance(x, SymArray) else x for x in arrays], *a, **k)
        arrs = [SymArray.wrap(x) for x in arrays]
        if any(x.dtype.kind not in "biufO" for x in arrs):
            return fn(arrays, *a, **k)
        out = fn([x.view(_raw) for x in arrs], *a, **k)
        ld = np.result_type(*[x.dtype for x in arrs])
        return _recast(SymArray.from_raw(out, ld), [x.dtype for x in arrs])
    return f


def _shapefn(fn):
    def f(a, *args, **k):
        a = SymArray.wrap(a)
        args = [x.to_real() if isinstance(x, SymArray) else (core._cv(x) if isinstance(x, Sym) else x) for x in args]
        k = {n: (x.to_real() if isinstance(x, SymArray) else (core._cv(x) if isinstance(x, Sym) else x)) for n, x in k.items()}
        r = fn(a.view(_raw), *args, **k)
        if isinstance(r, (list, tuple)):
            return type(r)(SymArray.from_raw(x, a.dtype) for x in r)
        return SymArray.from_raw(r, a.dtype)
    return f


def _atleast(n):
    real = getattr(np, f"atleast_{n}d")

    def f(*arys):
        res = [SymArray.from_raw(real(SymArray.wrap(a).view(_raw)), SymArray.wrap(a).dtype) for a in arys]
        return res[0] if len(res) == 1 else res
    return f


def F_where(c, *xy):
    c = SymArray.wrap(c)
    if not xy:
        return F_nonzero(c)
    a, b = xy
    ld = rt(*[SymArray.wrap(x) if isinstance(x, (list, tuple)) else x for x in (a, b)])
    k = ld.kind

    def f(c, x, y):
        return s_ite(_tob(c), s_cast(x, k) if k in "bif" else x, s_cast(y, k) if k in "bif" else y)
    a2 = SymArray.wrap(a) if isinstance(a, (list, tuple)) else a
    b2 = SymArray.wrap(b) if isinstance(b, (list, tuple)) else b
    r = elementwise(f, ld, c, a2, b2)
    return r if isinstance(r, np.ndarray) else SymArray.from_obj(r, ld)


def F_nonzero(a):
    a = SymArray.wrap(a)
    raw = a.view(_raw)
    m = np.empty(raw.shape, dtype=bool)
    for ix in np.ndindex(*raw.shape):
        m[ix] = bool(_tob(raw[ix]))
    return tuple(SymArray.from_real(x) for x in np.nonzero(m))


def F_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if not sym_any(x, y):
            return bool(np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=equal_nan))
        d = s_unary("abs", e_bin("sub")(x, y))
        t = e_bin("add")(atol, e_bin("mul")(rtol, s_unary("abs", y)))
        return e_bin("le")(d, t)
    a, b = [SymArray.wrap(x) if isinstance(x, (list, tuple)) else x for x in (a, b)]
    return elementwise(f, B1, a, b)


def F_clip(a, a_min=None, a_max=None, out=None, **k):
    a = SymArray.wrap(a)
    r = a
    ld = rt(a, *[SymArray.wrap(x) if isinstance(x, (list, np.ndarray)) else x for x in (a_min, a_max) if x is not None])
    if a_min is not None:
        r = elementwise(lambda x, lo: e_bin("max")(x, lo), ld, r, SymArray.wrap(a_min) if isinstance(a_min, list) else a_min)
    if a_max is not None:
        r = elementwise(lambda x, hi: e_bin("min")(x, hi), ld, r, SymArray.wrap(a_max) if isinstance(a_max, list) else a_max)
    if isinstance(r, SymArray) and r is a:
        r = a.copy()
    if out is not None:
        out[...] = r
        return out
    return r


def F_round(a, decimals=0, out=None):
    a = SymArray.wrap(a)
    if a.dtype.kind in "biu":
        return a[()] if a.ndim == 0 else a.copy()

    def f(x):
        if isinstance(x, Sym):
            return x.__round__(decimals) if decimals else s_unary("round", x)
        return float(np.round(x, decimals))
    return elementwise(f, a.dtype, a)


def F_cumsum(a, axis=None, dtype=None, out=None):
    a = SymArray.wrap(a)
    ld = I64 if a.dtype.kind in "b" else a.dtype
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    raw = np.moveaxis(a.view(_raw), axis, 0)
    res = np.empty(raw.shape, dtype=object)
    add = e_bin("add")
    for i in range(raw.shape[0]):
        if i == 0:
            res[0] = raw[0]
            if ld.kind != a.dtype.kind:
                for ix in np.ndindex(*raw.shape[1:]):
                    res[(0, *ix)] = s_cast(res[(0, *ix)], ld.kind)
        else:
            for ix in np.ndindex(*raw.shape[1:]):
                res[(i, *ix)] = add(res[(i - 1, *ix)], s_cast(raw[(i, *ix)], ld.kind))
    return SymArray.from_raw(np.moveaxis(res, 0, axis), ld)


def F_take(a, ix, axis=None, **k):
    a = SymArray.wrap(a)
    if axis is None:
        return a.reshape(-1)[ix]
    m = SymArray.from_raw(np.moveaxis(a.view(_raw), axis, 0), a.dtype)
    r = m[ix]
    ixn = np.ndim(ix) if not isinstance(ix, Sym) else 0
    if axis == 0:
        return r
    rr = r.view(_raw)
    return SymArray.from_raw(np.moveaxis(rr, list(range(ixn)), list(range(axis % a.ndim, axis % a.ndim + ixn))), a.dtype) if ixn else r


def F_sort(a, axis=-1, **k):
    a = SymArray.wrap(a)
    if not a.has_sym():
        return SymArray.from_real(np.sort(a.to_real(), axis=axis))
    raw = np.moveaxis(a.copy().view(_raw), -1 if axis is None else axis, -1)
    n = raw.shape[-1]
    mx, mn = e_bin("max"), e_bin("min")
    for ix in np.ndindex(*raw.shape[:-1]):
        row = list(raw[ix])
        for i in range(n):
            for j in range(n - 1 - i):
                lo, hi = mn(row[j], row[j + 1]), mx(row[j], row[j + 1])
                row[j], row[j + 1] = lo, hi
        for j in range(n):
            raw[ix + (j,)] = row[j]
    return SymArray.from_raw(np.moveaxis(raw, -1, -1 if axis is None else axis), a.dtype)


def F_argsort(a, axis=-1, kind=None, **k):
    a = SymArray.wrap(a)
    if not a.has_sym():
        return SymArray.from_real(np.argsort(a.to_real(), axis=axis, kind=kind))
    import functools
    raw = np.moveaxis(a.view(_raw), axis, -1)
    out = np.empty(raw.shape, dtype=object)
    for ix in np.ndindex(*raw.shape[:-1]):
        row = list(raw[ix])
        perm = []
        for j in range(len(row)):       # insertion sort, forks on comparisons
            p = len(perm)
            while p > 0 and bool(_tob(e_bin("lt")(row[j], row[perm[p - 1]]))):
                p -= 1
            perm.insert(p, j)
        for j, v in enumerate(perm):
            out[ix + (j,)] = v
    return SymArray.from_raw(np.moveaxis(out, -1, axis), I64)


def F_searchsorted(a, v, side="left", sorter=None):
    a = SymArray.wrap(a).view(_raw)
    scalar = not isinstance(v, (np.ndarray, list, tuple))
    vv = SymArray.wrap(v)
    op = e_bin("lt" if side == "left" else "le")

    def f(x):
        return _reduce_vec("sum", [s_cast(op(e, x), "i") for e in a], I64)
    r = elementwise(f, I64, vv)
    return r


def F_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = SymArray.wrap(a)
    r = np.unique(a.to_real(), return_index, return_inverse, return_counts, axis)
    if isinstance(r, tuple):
        return tuple(SymArray.from_real(x) for x in r)
    return SymArray.from_real(r)


def F_bincount(x, weights=None, minlength=0):
    x = SymArray.wrap(x)
    if weights is None and not x.has_sym():
        return SymArray.from_real(np.bincount(x.to_real(), minlength=minlength))
    xr = x.to_real()
    n = max(int(xr.max()) + 1 if xr.size else 0, minlength)
    if weights is None:
        return SymArray.from_real(np.bincount(xr, minlength=minlength))
    out = F_zeros(n)
    w = SymArray.wrap(weights)
    for i, b in enumerate(xr):
        out[b] = out[b] + w[i]
    return out


def F_isin(a, b, assume_unique=False, invert=False, **k):
    a = SymArray.wrap(a)
    b = SymArray.wrap(list(b) if isinstance(b, (set, frozenset)) else b).view(_raw).reshape(-1)
    eq = e_bin("eq")

    def f(x):
        r = s_or([_tob(eq(x, y)) for y in b])
        return s_unary("not", r) if invert else r
    return elementwise(f, B1, a)


def F_array_equal(a, b, **k):
    a, b = SymArray.wrap(a), SymArray.wrap(b)
    if a.shape != b.shape:
        return False
    return reduce_impl("all", a == b) if a.size else True


def F_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = F_isclose(a, b, rtol, atol, equal_nan)
    return reduce_impl("all", r)


def F_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        if not isinstance(dst, SymArray):
            s = SymArray.wrap(src)
            np.copyto(dst, s.to_real() if dst.dtype != OBJ else s.view(_raw), casting="unsafe")
            return
        s = src if isinstance(src, np.ndarray) else SymArray.wrap(src)
        if s.dtype.kind in "biuf" and dst.dtype.kind in "biuf" and not np.can_cast(s.dtype, dst.dtype, casting):
            raise TypeError(f"Cannot cast array data from {s.dtype} to {dst.dtype} according to the rule 'same_kind'")
        dst[...] = src
    else:
        dst[where] = np.broadcast_to(_obj(src), dst.shape)[where] if np.ndim(src) else src


def F_diff(a, n=1, axis=-1, **k):
    a = SymArray.wrap(a)
    m = np.moveaxis(a.view(_raw), axis, 0)
    m = SymArray.from_raw(m, a.dtype)
    r = m[1:] - m[:-1]
    return SymArray.from_raw(np.moveaxis(r.view(_raw), 0, axis), r.dtype)


def F_count_nonzero(a, axis=None, **k):
    a = SymArray.wrap(a)
    return reduce_impl("sum", elementwise(_tob, B1, a), axis)


def F_nanmean_like(op):
    def f(a, axis=None, **k):
        return reduce_impl(op, SymArray.wrap(a), axis)
    return f


def F_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = SymArray.wrap(x)
    return elementwise(lambda e: e if isinstance(e, Sym) else norm(np.nan_to_num(e, nan=nan, posinf=posinf, neginf=neginf)), x.dtype, x)


def F_append(a, v, axis=None):
    if axis is None:
        return F_concatenate([SymArray.wrap(a).reshape(-1), SymArray.wrap(v).reshape(-1)])
    return F_concatenate([a, v], axis)


def F_take_along_axis(a, ix, axis):
    a, ix = SymArray.wrap(a), SymArray.wrap(ix)
    grid = list(np.ogrid[tuple(slice(n) for n in ix.shape)])
    key = tuple(ix if d == axis % a.ndim else SymArray.from_real(np.broadcast_to(grid[d], ix.shape)) for d in range(a.ndim))
    return a[key]


def F_average(a, axis=None, weights=None, **k):
    a = SymArray.wrap(a)
    if weights is None:
        return a.mean(axis)
    w = SymArray.wrap(weights)
    return (a * w).sum(axis) / w.sum(axis)


def F_shape(a):
    return SymArray.wrap(a).shape


def F_ndim(a):
    return SymArray.wrap(a).ndim


def F_isscalar(x):
    return True if isinstance(x, Sym) else np.isscalar(x)


def F_frombuffer(buf, *a, **k):
    if hasattr(buf, "_sx_mem"):              # the harness' shared memory
        return buf._sx_mem[:]
    return np.frombuffer(buf, *a, **k)


def F_trim(a):
    raise Unsupported


TABLE = {
    "frombuffer": F_frombuffer, "zeros": F_zeros, "empty": F_empty, "ones": F_ones, "full": F_full, "zeros_like": _like(F_zeros),
    "ones_like": _like(F_ones), "empty_like": _like(F_empty), "full_like": F_full_like, "arange": F_arange,
    "linspace": F_linspace, "array": F_array, "asarray": F_asarray, "asanyarray": F_asarray, "ascontiguousarray": F_asarray,
    "concatenate": F_concatenate, "stack": _stacklike(np.stack), "hstack": _stacklike(np.hstack),
    "vstack": _stacklike(np.vstack), "column_stack": _stacklike(np.column_stack), "where": F_where, "nonzero": F_nonzero,
    "flatnonzero": lambda a: F_nonzero(SymArray.wrap(a).reshape(-1))[0],
    "argwhere": lambda a: F_array(list(zip(*[x.to_real().tolist() for x in F_nonzero(a)])), dtype=int).reshape(-1, SymArray.wrap(a).ndim),
    "isclose": F_isclose, "allclose": F_allclose, "clip": F_clip, "round": F_round, "around": F_round, "cumsum": F_cumsum,
    "take": F_take, "sort": F_sort, "argsort": F_argsort, "searchsorted": F_searchsorted, "unique": F_unique,
    "bincount": F_bincount, "isin": F_isin, "in1d": F_isin, "array_equal": F_array_equal, "copyto": F_copyto, "diff": F_diff,
    "count_nonzero": F_count_nonzero, "append": F_append, "take_along_axis": F_take_along_axis, "average": F_average,
    "nan_to_num": F_nan_to_num, "shape": F_shape, "ndim": F_ndim, "isscalar": F_isscalar, "dot": matmul, "matmul": matmul,
    "roll": _shapefn(np.roll), "flip": _shapefn(np.flip), "flipud": _shapefn(np.flipud), "repeat": _shapefn(np.repeat),
    "tile": _shapefn(np.tile), "expand_dims": _shapefn(np.expand_dims), "squeeze": _shapefn(np.squeeze),
    "reshape": lambda a, newshape=None, *r, **k: SymArray.wrap(a).reshape(newshape if newshape is not None else k["shape"]),
    "ravel": _shapefn(np.ravel), "transpose": _shapefn(np.transpose), "moveaxis": _shapefn(np.moveaxis),
    "swapaxes": _shapefn(np.swapaxes), "broadcast_to": _shapefn(np.broadcast_to), "split": _shapefn(np.split),
    "array_split": _shapefn(np.array_split), "delete": _shapefn(np.delete), "diagonal": _shapefn(np.diagonal),
    "atleast_1d": _atleast(1), "atleast_2d": _atleast(2), "atleast_3d": _atleast(3),
    "copy": lambda a, **k: SymArray.wrap(a).copy(),
    "square": lambda a: SymArray.wrap(a) * SymArray.wrap(a) if isinstance(a, (list, np.ndarray)) else a * a,
    "size": lambda a, axis=None: SymArray.wrap(a).size if axis is None else SymArray.wrap(a).shape[axis],
}
for _n in ("sum", "prod", "mean", "max", "min", "any", "all", "argmax", "argmin", "var", "std"):
    def _mkred(n):
        def f(a, axis=None, dtype=None, out=None, keepdims=False, ddof=0, **k):
            if isinstance(a, types.GeneratorType):
                a = list(a)
            r = reduce_impl(n, SymArray.wrap(a), axis, keepdims, ddof)
            if dtype is not None and hasattr(r, "astype"):
                r = r.astype(dtype)
            return r
        return f
    TABLE[_n] = _mkred(_n)
TABLE["amax"] = TABLE["max"]
TABLE["amin"] = TABLE["min"]
for _n in ("mean", "sum", "max", "min", "std", "var"):
    TABLE["nan" + _n] = TABLE[_n]


def _realise(x):
    if isinstance(x, SymArray):
        return x.to_real()
    if isinstance(x, Sym):
        v = core._cv(x)
        return float(v) if x.k == "f" else v
    if isinstance(x, (list, tuple)):
        return type(x)(_realise(e) for e in x)
    if isinstance(x, dict):
        return {k: _realise(v) for k, v in x.items()}
    return x


def _rewrap(x):
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and x.dtype.kind in "biuf":
        return SymArray.from_real(x)
    if isinstance(x, (list, tuple)) and any(isinstance(e, np.ndarray) for e in x):
        return type(x)(_rewrap(e) for e in x)
    return x


def _hassym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return x.has_sym()
    if isinstance(x, (list, tuple)):
        return any(_hassym(e) for e in x)
    if isinstance(x, dict):
        return any(_hassym(e) for e in x.values())
    return False


def fallback(func, args, kwargs):
    """no encoding: run the real function on concretised arguments (incomplete if any was symbolic)"""
    if core.ENG is not None and (_hassym(args) or _hassym(kwargs)):
        core.ENG.incomplete.append(f"concretised arguments of numpy.{getattr(func, '__name__', func)}")
    return _rewrap(func(*_realise(tuple(args)), **_realise(dict(kwargs))))


def function_impl(func, args, kwargs):
    name = func.__name__
    impl = TABLE.get(name)
    if impl is not None:
        return impl(*args, **kwargs)
    return fallback(func, args, kwargs)


# ---------------------------------------------------------------- the `np` shim
class RandomShim:
    """np.random under symbolic execution: nondeterministic values (see nondet.py)."""

    def __getattr__(self, name):
        from . import nondet
        h = getattr(nondet, "np_" + name, None)
        if h is not None:
            return h
        return getattr(np.random, name)


class NpShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.random = RandomShim()
        self._cache = {}

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        if name in c:
            return c[name]
        real = getattr(np, name)
        if name in TABLE:
            r = TABLE[name]
        elif isinstance(real, np.ufunc):
            def r(*args, _u=real, **kw):
                if any(isinstance(a, torch.Tensor) for a in args):
                    args = tuple(SymArray.wrap(a) if isinstance(a, torch.Tensor) else a for a in args)
                if any(isinstance(a, (np.ndarray, list, Sym)) for a in args):
                    return ufunc_impl(_u, "__call__", args, kw)
                return _u(*args, **kw)
            r = UfuncShim(real, r)
        elif isinstance(real, type) or not callable(real):
            r = real
        elif isinstance(real, types.ModuleType):
            r = real
        else:
            def r(*args, _f=real, _n=name, **kw):
                return fallback(_f, args, kw)
            r.__name__ = name
        c[name] = r
        return r


class UfuncShim:
    def __init__(self, real, call):
        self._real = real
        self._call = call
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, name):
        real = self.__dict__["_real"]
        if name in ("reduce", "accumulate", "outer", "at"):
            return lambda *a, **k: ufunc_impl(real, name, a, k)
        return getattr(real, name)


NP = NpShim()
