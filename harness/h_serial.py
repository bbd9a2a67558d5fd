"""P39: buffers and batches survive copying, pickling and saving to HDF5, and go on working identically.

The original object is the oracle: after the round trip both are used in the same way. In symbolic runs the HDF5 library is a
stand-in that stores what it is given under its documented rules; replays on the unmodified code use the real library."""
import contextlib
import copy
import os
import pickle
import tempfile

import numpy as real_np

from harness.h_buffer import to_batch, to_batch_n, transition
from symx import core
from symx.ctx import harness


def goal_reward(achieved, desired):
    return (achieved - desired).sum(axis=-1) * 2


class _Attrs(dict):
    def __setitem__(self, k, v):
        if isinstance(v, core.Sym):
            v = core.Sym(v.z, v.k, True)
        elif isinstance(v, str):
            pass
        elif isinstance(v, (bool, int, float)):
            v = real_np.array(v)[()]
        else:
            raise TypeError("attribute type")
        super().__setitem__(k, v)


class _Dataset:
    def __init__(self, data):
        self._data, self.attrs = data, _Attrs()

    @property
    def _sx_array(self):
        return self._data.copy()

    shape = property(lambda s: s._data.shape)
    dtype = property(lambda s: s._data.dtype)

    def __len__(self):
        return len(self._data)

    def __getitem__(self, i):
        return self._data[i].copy() if not isinstance(i, tuple) or i else self._data.copy()

    def __array__(self, dtype=None):
        return real_np.asarray(self._data, dtype=dtype)


class _Group:
    def __init__(self):
        self.attrs, self.d = _Attrs(), {}

    def _new(self, key):
        if not isinstance(key, str):
            raise TypeError("name")
        if key in self.d:
            raise ValueError("name already exists")

    def create_group(self, key):
        self._new(key)
        self.d[key] = _Group()
        return self.d[key]

    def create_dataset(self, key, data=None, compression=None, **kw):
        self._new(key)
        if data.dtype.kind == "O" and data.size and all(isinstance(e, (str, bytes)) for e in data.ravel()):
            # strings of variable length come back as bytes
            data = real_np.array([e.encode() if isinstance(e, str) else e for e in data.ravel()], dtype=object).reshape(data.shape)
        elif data.dtype.kind not in "biuf":
            raise TypeError(f"{data.dtype} has no native HDF5 equivalent")
        if compression is not None and data.ndim == 0:
            raise TypeError("Scalar datasets don't support chunk/filter options")
        self.d[key] = _Dataset(data.copy())
        return self.d[key]

    def __getitem__(self, k):
        return self.d[k]

    def items(self):
        return [(k, self.d[k]) for k in sorted(self.d)]

    def keys(self):
        return sorted(self.d)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FakeH5:
    Dataset, Group = _Dataset, _Group

    def __init__(self):
        self.files = {}

    def File(self, path, mode="r", **kw):
        if mode == "w":
            self.files[path] = _Group()
        return self.files[path]


@contextlib.contextmanager
def storage(ctx):
    """(h5py or its stand-in, path of a file)"""
    if not ctx.sym:
        import h5py
        with tempfile.TemporaryDirectory() as d:
            yield h5py, os.path.join(d, "x.hdf5")
        return
    import tianshou.data.buffer.base as b
    import tianshou.data.utils.converter as c
    h = FakeH5()
    old = [(m, m.h5py) for m in (b, c) if hasattr(m, "h5py")]
    for m, _ in old:
        m.h5py = h
    core.PICKLED = []
    try:
        yield h, "file"
    finally:
        core.PICKLED = None
        for m, o in old:
            m.h5py = o


def make(kind):
    from tianshou.data import (CachedReplayBuffer, HERReplayBuffer, HERVectorReplayBuffer, PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer,
                               ReplayBuffer, VectorReplayBuffer)
    her = dict(compute_reward_fn=goal_reward, horizon=2, future_k=2)
    return {"plain": lambda: ReplayBuffer(3), "stack": lambda: ReplayBuffer(3, stack_num=2, ignore_obs_next=True, save_only_last_obs=False),
            "vector": lambda: VectorReplayBuffer(4, 2), "prio": lambda: PrioritizedReplayBuffer(3, alpha=1.0, beta=1.0),
            "priovec": lambda: PrioritizedVectorReplayBuffer(4, 2, alpha=1.0, beta=1.0), "her": lambda: HERReplayBuffer(3, **her),
            "hervec": lambda: HERVectorReplayBuffer(4, 2, **her), "cached": lambda: CachedReplayBuffer(ReplayBuffer(3), 2, 2)}[kind]()


VEC = ("vector", "priovec", "hervec", "cached")


def feed(ctx, t, kind, free):
    """one addition, as a batch for this kind of buffer; free: whether the (first) episode ends"""
    from tianshou.data import Batch
    np = ctx.np

    def row(j):
        d = transition(ctx, f"{t}_{j}", flags=(free if j == 0 else False))
        if "her" in kind:
            for k in ("obs", "obs_next"):
                d[k] = {n: ctx.reals(f"{k}_{n}_{t}_{j}", 1) for n in ("observation", "achieved_goal", "desired_goal")}
        return d
    if kind in VEC:
        rows = [row(0), row(1)]
        b = to_batch_n(ctx, rows) if "her" not in kind else None
    else:
        rows = [row(0)]
        b = to_batch(ctx, rows[0]) if "her" not in kind else None
    if b is None:
        st = (lambda v: np.stack(v)) if kind in VEC else (lambda v: v[0])
        b = Batch(**{k: st([np.array(r[k]) for r in rows]) for k in ("act", "rew", "terminated", "truncated")},
                  **{k: Batch(**{n: st([r[k][n] for r in rows]) for n in rows[0][k]}) for k in ("obs", "obs_next")}, info=Batch())
    if free == "one":
        ctx.maybe(ctx.Or(rows[0]["terminated"], rows[0]["truncated"]))
    return b


def trip(ctx, buf, how, h5, path):
    if how == "copy":
        return copy.deepcopy(buf)
    if how == "pickle":
        return pickle.loads(pickle.dumps(buf))
    comp = None if how == "hdf5" else "gzip"
    buf.save_hdf5(path, compression=comp)
    return type(buf).load_hdf5(path)


def look(ctx, buf, kind):
    """everything the buffer shows"""
    np = ctx.np
    idx = buf.sample_indices(0)
    r = dict(length=len(buf), idx=idx, maxsize=buf.maxsize, edges=buf.subbuffer_edges)
    if len(buf):
        r["unfinished"] = buf.unfinished_index()
        r["prev"], r["next"] = buf.prev(idx), buf.next(idx)
        b = buf[idx]
        r["data"] = {k: b[k] for k in ("obs", "act", "rew", "terminated", "truncated", "done", "obs_next")}
        r["info"] = b.info
        if "prio" in kind:
            r["weight"] = np.array(buf.get_weight(idx))
    return r


def same(ctx, a, b, lab):
    for k in a:
        if k in ("length", "maxsize"):
            ctx.check(a[k] == b[k], f"{lab}: {k}")
        else:
            ctx.eq(b[k], a[k], f"{lab}: {k}")


KINDS = ("plain", "stack", "vector", "prio", "priovec", "her", "hervec", "cached")


@harness("P39", [dict(kind=k, how=h) for k in KINDS for h in ("copy", "hdf5")],
         [dict(kind=k, how=h, deep=True) for k in KINDS for h in ("copy", "pickle", "hdf5")])
def buffers(ctx, kind, how, deep=False):
    """filled to some extent, taken through the round trip, compared, used further and compared again"""
    with storage(ctx) as (h5, path):
        buf = make(kind)
        n = ctx.pick("before", ([0, 1, 2, 3] if deep else [0, 1]) if kind in VEC else ([0, 1, 2, 3, 4] if deep else [0, 2, 4]))
        for t in range(n):
            buf.add(feed(ctx, t, kind, "one" if t == n - 1 else False))
        if "prio" in kind and n:
            buf.update_weight(ctx.np.array([0]), ctx.np.array([ctx.real("w", 0.5, 3)]))
        before = copy.deepcopy(raw(buf)) if "her" in kind else None
        if "her" in kind and n and ctx.pick("sampled", [False, True]):
            buf.sample_indices(2)
        v = look if "her" not in kind else (lambda ctx, b, kind: raw(b))
        cp = trip(ctx, buf, how, h5, path)
        if "her" in kind:
            if "hdf5" not in how:        # saving restores what sampling has rewritten; otherwise the next sampling does
                cp.sample_indices(-1)
            same(ctx, before, raw(cp), "rewritten goals are not part of what is saved")
            buf.sample_indices(-1)
        same(ctx, v(ctx, buf, kind), v(ctx, cp, kind), "after the round trip")
        for t in range(2 if deep else 1):
            b = feed(ctx, f"x{t}", kind, ctx.pick(f"end{t}", [False, True]))
            o = ctx.outcome(lambda: buf.add(copy.deepcopy(b)))
            o2 = ctx.outcome(lambda: cp.add(b))
            ctx.check(o[0] == o2[0] == "ok", "adding goes on working")
            for x, y in zip(o[1], o2[1]):
                ctx.eq(y, x, "result of adding after the round trip")
        a, c = v(ctx, buf, kind), v(ctx, cp, kind)
        same(ctx, a, c, "after further additions")
        # independence
        if how == "copy":
            buf.add(feed(ctx, "y", kind, False))
            buf.reset()
            same(ctx, c, v(ctx, cp, kind), "the copy is independent of the original")


def raw(buf):
    """contents without sampling (sampling from hindsight buffers rewrites goals)"""
    from tianshou.data import ReplayBuffer, ReplayBufferManager
    idx = ReplayBuffer.sample_indices(buf, 0) if not isinstance(buf, ReplayBufferManager) else ReplayBufferManager.sample_indices(buf, -1)
    m = buf._meta
    return dict(length=len(buf), maxsize=buf.maxsize, idx=idx, **({"unfinished": buf.unfinished_index(), **{k: m[k] for k in m.get_keys()}} if len(buf) else {}))


# ------------------------------------------------------------------------------------------------------------------ batches
def nested(ctx):
    from tianshou.data import Batch
    np = ctx.np
    o = real_np.empty(2, dtype=object)
    o[0], o[1] = {"k": 1}, None
    return Batch(a=ctx.reals("a", (2, 2)), i=ctx.ints("i", 2), f=ctx.bools("f", 2), t=ctx.treals("t", (2, 3)), obj=o, nums=real_np.array([5, "x"], dtype=object), e=Batch(),
                 b=Batch(x=ctx.reals("x", 2), c=Batch(y=ctx.ints("y", (2, 1)), z=ctx.treals("z", 2))), s=real_np.array(["u", "vv"]))


def same_batch(ctx, got, want, lab):
    from tianshou.data import Batch
    ctx.check(type(got) is Batch, f"{lab}: a batch")
    ctx.check(sorted(got.keys()) == sorted(want.keys()), f"{lab}: keys {sorted(got.keys())}")
    for k, v in want.items():
        g = got[k]
        if isinstance(v, Batch):
            same_batch(ctx, g, v, f"{lab}.{k}")
        elif isinstance(v, real_np.ndarray) and v.dtype.kind not in "biuf":
            ctx.check(type(g) is type(v) and g.dtype == v.dtype and g.tolist() == v.tolist(), f"{lab}.{k}")
        else:
            ctx.check(isinstance(g, type(v)) and g.dtype == v.dtype, f"{lab}.{k}: type")
            ctx.eq(g, v, f"{lab}.{k}")


@harness("P39", [dict(how=h) for h in ("copy", "pickle", "hdf5", "gzip")])
def batches(ctx, how):
    """nested batches with arrays, tensors, strings, objects and empty parts"""
    from tianshou.data import Batch
    from tianshou.data.utils.converter import from_hdf5, to_hdf5
    with storage(ctx) as (h5, path):
        b = nested(ctx)
        if how == "copy":
            g = copy.deepcopy(b)
        elif how == "pickle":
            g = pickle.loads(pickle.dumps(b))
        else:
            d = {"b": b, "n": ctx.int("n", -9, 9), "r": ctx.real("r"), "flag": True, "none": None, "name": "text", "l": [1, "x"], "d": {"u": ctx.reals("u", 1), "v": {"w": 3}},
                 "np": real_np.int64(5)}
            with h5.File(path, "w") as f:
                to_hdf5(d, f, compression="gzip" if how == "gzip" else None)
            with h5.File(path, "r") as f:
                r = from_hdf5(f)
            ctx.check(sorted(r) == sorted(d), "all entries are restored")
            for k in ("n", "r", "np"):
                ctx.eq(r[k], d[k], f"restored {k}")
            ctx.check(bool(r["flag"]) is True and r["none"] is None and r["name"] == "text" and r["l"] == [1, "x"], "restored plain values")
            ctx.check(isinstance(r["d"], dict) and sorted(r["d"]) == ["u", "v"] and r["d"]["v"] == {"w": 3}, "restored nested dict")
            ctx.eq(r["d"]["u"], d["d"]["u"], "restored array in a dict")
            g = r["b"]
        same_batch(ctx, g, b, "round trip")
        # independence
        before = copy.deepcopy(b)
        g.a[0, 0] = ctx.real("new")
        g.b.c.z[0] = 7.0
        same_batch(ctx, b, before, "original after changing the copy")


@harness("P39")
def from_data(ctx):
    """a buffer built from datasets is the buffer one would get by adding the rows one by one"""
    from tianshou.data import ReplayBuffer
    np = ctx.np
    n = ctx.pick("n", [0, 1, 2, 3])
    with storage(ctx) as (h5, path):
        rows = [transition(ctx, t, flags="one") for t in range(n)]
        for r in rows:
            ctx.maybe(r["terminated"])
        cols = {k: np.array([r[k] for r in rows]) for k in ("obs", "act", "rew", "terminated", "truncated", "obs_next")} if n else {k: real_np.zeros(0) for k in ("obs", "act", "rew", "terminated", "truncated", "obs_next")}
        cols["done"] = np.logical_or(cols["terminated"], cols["truncated"]) if n else real_np.zeros(0)
        with h5.File(path, "w") as f:
            for k, v in cols.items():
                f.create_dataset(k, data=v)
        with h5.File(path, "r") as f:
            ds = {k: f[k] for k in cols}
            buf = ReplayBuffer.from_data(**ds)
            bad = dict(ds)
            if n == 3:
                class Short:
                    def __len__(self):
                        return 2
                bad["rew"] = Short()
                ctx.raises(AssertionError, lambda: ReplayBuffer.from_data(**bad), "datasets of different lengths are refused")
        ctx.check(len(buf) == n, "number of transitions")
        ctx.eq(buf.sample_indices(0), np.arange(n) if n else real_np.zeros(0, dtype=int), "indices in order")
        if not n:
            return
        ref = ReplayBuffer(n)
        from harness.h_buffer import to_batch
        for r in rows:
            b = to_batch(ctx, r)
            b.pop("info")
            b.pop("policy")
            ref.add(b)
        idx = np.arange(n)
        for k in cols:
            ctx.eq(buf[idx][k], cols[k], f"stored {k}")
        ctx.eq(buf.prev(idx), ref.prev(idx), "predecessors")
        ctx.eq(buf.next(idx), ref.next(idx), "successors")
        ctx.eq(buf.unfinished_index(), ref.unfinished_index(), "unfinished episodes")
