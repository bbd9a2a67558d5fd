"""P12-P15: the Batch container, against plain python lists."""
from symx.ctx import harness


class Tree:
    """reference: nested dict of python lists (rows); leaves also say whether they are arrays or tensors"""


def mk(ctx, n, tag="", w=2, tensor=True, extra=True):
    """a batch of n rows with array, matrix, tensor, nested, reserved and None entries; plus its rows"""
    from tianshou.data import Batch
    np = ctx.np
    a = ctx.ints(f"{tag}a", n, -50, 50)
    m = ctx.reals(f"{tag}m", (n, w))
    t = ctx.treals(f"{tag}t", (n,)) if tensor else ctx.reals(f"{tag}t", n)
    x = ctx.bools(f"{tag}x", n)
    rows = [{"a": a[i], "m": [m[i, j] for j in range(w)], "t": t[i], "n": {"x": x[i], "d": {"y": a[i] + 1}}} for i in range(n)]
    b = Batch(a=np.array(a), m=np.array(m), t=t, n=Batch(x=np.array(x), d=Batch(y=np.array(a) + 1)))
    if extra:
        b.res = Batch()
        b.none = None
    return b, rows


def same_row(ctx, row, ref, lab, extra=True):
    ctx.eq(row.a, ref["a"], f"{lab}: a")
    ctx.eq(row.m, ref["m"], f"{lab}: m")
    ctx.eq(row.t, ref["t"], f"{lab}: t")
    ctx.eq(row.n.x, ref["n"]["x"], f"{lab}: n.x")
    ctx.eq(row.n.d.y, ref["n"]["d"]["y"], f"{lab}: n.d.y")


def same(ctx, b, rows, lab, extra=True):
    ctx.check(len(b) == len(rows), f"{lab}: length")
    ctx.eq(b.a, [r["a"] for r in rows] if rows else ctx.np.zeros(0, dtype=int), f"{lab}: a")
    if rows:
        ctx.eq(b.m, [r["m"] for r in rows], f"{lab}: m")
        ctx.eq(b.t, [r["t"] for r in rows], f"{lab}: t")
        ctx.eq(b.n.x, [r["n"]["x"] for r in rows], f"{lab}: n.x")
        ctx.eq(b.n.d.y, [r["n"]["d"]["y"] for r in rows], f"{lab}: n.d.y")
    exp = {"a", "m", "t", "n"} | ({"res", "none"} if extra else set())
    ctx.check(set(b.keys()) == exp, f"{lab}: keys")
    if extra:
        ctx.check(len(b.res.keys()) == 0 and b.none is None, f"{lab}: reserved and None entries are carried along")


SLICES = [slice(None), slice(1, None), slice(None, -1), slice(None, None, 2), slice(None, None, -1), slice(2, 0, -1), slice(3, 1), slice(-2, None)]


# ------------------------------------------------------------------ P12 indexing and assignment
@harness("P12", params=[dict(n=1), dict(n=3)], thorough=[dict(n=4)])
def index_read(ctx, n):
    from tianshou.data import Batch
    np = ctx.np
    b, rows = mk(ctx, n)
    kind = ctx.pick("kind", ["int", "slice", "list", "array", "mask", "ellipsis", "npint"])
    if kind == "int":
        i = ctx.int("i", -n, n - 1)
        same_row(ctx, b[i if ctx.sym else int(i)], rows[int(ctx.conc(i))], "b[i]")
        for j, r in enumerate(b):
            same_row(ctx, r, rows[j], "iteration")
    elif kind == "npint":
        i = np.array([ctx.int("i", -n, n - 1)])[0]
        same_row(ctx, b[i], rows[int(ctx.conc(i))], "b[np.int64]")
    elif kind == "slice":
        s = ctx.pick("slice", SLICES if not n == 1 else SLICES[:4])
        if s.step is not None and s.step < 0:
            b.t = np.array([1.0] * n)          # torch has no negative steps
            rows = [dict(r, t=1.0) for r in rows]
        same(ctx, b[s], rows[s], f"b[{s}]")
    elif kind in ("list", "array"):
        ix = [ctx.int(f"i{k}", -n, n - 1) for k in range(2)]
        got = b[np.array(ix)] if kind == "array" else b[[int(ctx.conc(i)) for i in ix]]
        same(ctx, got, [rows[int(ctx.conc(i))] for i in ix], "b[indices]")
    elif kind == "mask":
        mask = [ctx.bool(f"k{j}") for j in range(n)]
        got = b[np.array(mask)]
        same(ctx, got, [r for r, k in zip(rows, mask) if ctx.maybe(k)], "b[mask]")
    else:
        same(ctx, b[...], rows, "b[...]")
    ctx.check(b["a"] is b.a and b["n"] is b.n, "string keys return the entry itself")
    ctx.raises(KeyError, lambda: b["missing"], "unknown key raises KeyError")
    ctx.raises(IndexError, lambda: Batch()[0], "indexing an empty batch raises IndexError")
    i = ctx.int("oob", n, n + 2)
    ctx.raises(IndexError, lambda: b[int(ctx.conc(i))], "row index out of range raises IndexError")


@harness("P12", params=[dict(n=1), dict(n=3)], thorough=[dict(n=4)])
def index_write(ctx, n):
    """b[index] = value changes exactly the addressed rows, for every entry"""
    from tianshou.data import Batch
    np = ctx.np
    b, rows = mk(ctx, n, extra=False)
    kind = ctx.pick("kind", ["int", "slice", "array", "mask", "dup"])
    if kind == "int":
        i = ctx.int("i", -n, n - 1)
        sel = [int(ctx.conc(i)) % n]
        v, vr = mk(ctx, 1, "v", extra=False)
        b[int(ctx.conc(i))] = v[0]
    elif kind == "slice":
        s = ctx.pick("slice", SLICES[:4])
        sel = list(range(n))[s]
        v, vr = mk(ctx, len(sel), "v", extra=False) if sel else (None, [])
        if sel:
            b[s] = v
    elif kind == "mask":
        mask = [ctx.bool(f"k{j}") for j in range(n)]
        sel = [j for j in range(n) if ctx.maybe(mask[j])]
        v, vr = mk(ctx, len(sel), "v", extra=False) if sel else (None, [])
        if sel:
            b[np.array(mask)] = v
    else:
        ix = [ctx.int(f"i{k}", 0, n - 1) for k in range(2)]
        if kind == "array":
            ctx.assume(ix[0] != ix[1])
        sel = [int(ctx.conc(i)) for i in ix]
        v, vr = mk(ctx, 2, "v", extra=False)
        b[np.array(ix)] = v
    exp = list(rows)
    for j, r in zip(sel, vr):
        exp[j] = r
    same(ctx, b, exp, "after assignment", extra=False)
    if vr and kind != "int":
        same(ctx, v, vr, "the assigned value is untouched", extra=False)


@harness("P12", params=[dict()])
def index_write_keys(ctx):
    """entries missing from the value are cleared, unknown entries and non-batches are rejected"""
    from tianshou.data import Batch
    np = ctx.np
    b, rows = mk(ctx, 3, extra=False)
    b.o = np.array([None, "q", 3], dtype=object)
    i = int(ctx.conc(ctx.int("i", 0, 2)))
    v = ctx.int("v", -9, 9)
    b[i] = Batch(a=v) if ctx.pick("as", ["batch", "dict"]) == "batch" else {"a": v}
    for j in range(3):
        ctx.eq(b.a[j], v if j == i else rows[j]["a"], "assigned entry")
        ctx.eq(b.m[j], [0.0, 0.0] if j == i else rows[j]["m"], "missing numeric entry becomes 0")
        ctx.eq(b.t[j], 0.0 if j == i else rows[j]["t"], "missing tensor entry becomes 0")
        ctx.eq(b.n.x[j], False if j == i else rows[j]["n"]["x"], "missing nested entry is cleared")
        ctx.check(b.o[j] is None if j == i else b.o[j] == [None, "q", 3][j], "missing object entry becomes None")
    before = dict(a=[b.a[j] for j in range(3)], m=[[b.m[j, k] for k in range(2)] for j in range(3)])
    ctx.raises(ValueError, lambda: b.__setitem__(i, Batch(a=v, zzz=v)), "unknown entry is rejected")
    ctx.raises(ValueError, lambda: b.__setitem__(i, np.array([1.0])), "a plain array is rejected")
    ctx.raises(ValueError, lambda: b.__setitem__(i, 3), "a scalar is rejected")
    ctx.eq(b.a, before["a"], "a rejected assignment changes nothing")
    ctx.eq(b.m, before["m"], "a rejected assignment changes nothing (m)")
    ctx.check("zzz" not in b, "a rejected assignment adds nothing")
    arr = ctx.reals("w", 3)
    b["new"] = arr
    b.other = {"k": arr}
    ctx.eq(b.new, arr, "new key")
    ctx.check(isinstance(b.other, Batch), "dicts become batches")
    ctx.eq(b.other.k, arr, "nested dict")
    ctx.check("new" in b and "nope" not in b and b.get("nope", 7) == 7, "membership and get")
    ctx.eq(b.pop("new"), arr, "pop returns the value")
    ctx.check("new" not in b and b.pop("new", 5) == 5, "pop removes the key")


@harness("P12", params=[dict()])
def slice_dist(ctx):
    """a distribution entry is sliced row by row like the arrays beside it"""
    from tianshou.data import Batch
    torch = ctx.torch
    p = ctx.treals("p", (2, 2), 1, 4)
    mu = ctx.treals("mu", (2, 2))
    sd = ctx.treals("sd", (2, 2), 0.5, 3)
    b = Batch(a=ctx.ints("a", 2), c=torch.distributions.Categorical(probs=p), g=torch.distributions.Normal(mu, sd),
              i=torch.distributions.Independent(torch.distributions.Normal(mu, sd), 1))
    i = int(ctx.conc(ctx.int("i", 0, 1)))
    r = b[[i]]
    ctx.check(len(b) == 2 and len(r) == 1, "length")
    ctx.eq(r.c.probs, [[p[i, 0] / (p[i, 0] + p[i, 1]), p[i, 1] / (p[i, 0] + p[i, 1])]], "categorical")
    ctx.eq(r.g.loc, [[mu[i, 0], mu[i, 1]]], "normal mean")
    ctx.eq(r.g.scale, [[sd[i, 0], sd[i, 1]]], "normal scale")
    ctx.eq(r.i.base_dist.loc, [[mu[i, 0], mu[i, 1]]], "independent mean")
    ctx.check(r.i.reinterpreted_batch_ndims == 1, "event dims kept")


# ------------------------------------------------------------------ P13 concatenation and stacking
@harness("P13", params=[dict(la=1, lb=2), dict(la=2, lb=1)], thorough=[dict(la=2, lb=3)])
def cat_rows(ctx, la, lb):
    from tianshou.data import Batch
    a, ra = mk(ctx, la, "p", extra=False)
    b, rb = mk(ctx, lb, "q", extra=False)
    for x in (a, b):
        x.res = Batch()
    form = ctx.pick("form", ["cat", "cat_", "cat_empty", "dict", "three"])
    if form == "cat":
        c, rc = Batch.cat([a, b]), ra + rb
    elif form == "cat_empty":
        c, rc = Batch.cat([Batch(), a, Batch(), b]), ra + rb
    elif form == "dict":
        c, rc = Batch.cat([a.to_dict(recursive=False), b]), ra + rb
    elif form == "three":
        c, rc = Batch.cat([a, b, a]), ra + rb + ra
    else:
        c, rc = Batch(a), ra + rb
        c.cat_(b)
    res = c.pop("res")
    ctx.check(len(res.keys()) == 0, "reserved entries stay reserved")
    same(ctx, c, rc, "concatenation", extra=False)
    if form != "cat_":
        a.pop("res"), b.pop("res")
        same(ctx, a, ra, "first input untouched", extra=False)
        same(ctx, b, rb, "second input untouched", extra=False)
        c.a[0] = c.a[0] + 1
        c.m[0, 0] = c.m[0, 0] + 1
        same(ctx, a, ra, "result does not share memory with its inputs", extra=False)


@harness("P13", params=[dict()])
def cat_rejects(ctx):
    """different structures, and scalars, cannot be concatenated"""
    from tianshou.data import Batch
    np = ctx.np
    a = Batch(a=ctx.ints("a", 2), n=Batch(x=ctx.ints("x", 2)))
    bad = ctx.pick("bad", [lambda: Batch(a=ctx.ints("b", 2)), lambda: Batch(a=ctx.ints("b", 2), n=Batch(y=ctx.ints("y", 2))),
                           lambda: Batch(a=ctx.ints("b", 2), n=Batch(x=ctx.ints("y", 2)), z=ctx.ints("z", 2))])()
    ctx.raises(ValueError, lambda: Batch.cat([a, bad]), "different keys are rejected")
    ctx.raises(ValueError, lambda: Batch.cat([Batch(a=np.array(3)), Batch(a=np.array(4))]), "scalars are rejected")
    ctx.raises(ValueError, lambda: Batch.cat([a, 5]), "non-batches are rejected")
    ctx.raises(ValueError, lambda: Batch.stack([a, 5]), "non-batches are rejected by stack")
    ctx.check(len(Batch.cat([]).keys()) == 0 and len(Batch.cat([Batch(), Batch()]).keys()) == 0, "nothing to concatenate gives an empty batch")


@harness("P13", params=[dict(n=2, k=2), dict(n=1, k=3)], thorough=[dict(n=3, k=3)])
def stack_rows(ctx, n, k):
    """k batches of n rows stacked along axis 0 or 1"""
    from tianshou.data import Batch
    parts = [mk(ctx, n, f"b{i}_", extra=False) for i in range(k)]
    axis = ctx.pick("axis", [0, 1])
    s = Batch.stack([Batch(), *[p for p, _ in parts]], axis=axis) if ctx.pick("pad", [False, True]) else Batch.stack([p for p, _ in parts], axis=axis)
    R = [r for _, r in parts]
    at = (lambda f: [[f(R[i][j]) for j in range(n)] for i in range(k)]) if axis == 0 else (lambda f: [[f(R[i][j]) for i in range(k)] for j in range(n)])
    ctx.eq(s.a, at(lambda r: r["a"]), "stacked a")
    ctx.eq(s.m, at(lambda r: r["m"]), "stacked m")
    ctx.eq(s.t, at(lambda r: r["t"]), "stacked t")
    ctx.eq(s.n.x, at(lambda r: r["n"]["x"]), "stacked nested")
    ctx.eq(s.n.d.y, at(lambda r: r["n"]["d"]["y"]), "stacked doubly nested")
    if axis == 0:
        for i in range(k):
            same(ctx, s[i], R[i], "stack then index is the identity", extra=False)
        l = Batch([p for p, _ in parts])
        ctx.eq(l.a, s.a, "a list of batches builds the same stack")


@harness("P13", params=[dict()])
def stack_partial(ctx):
    """entries present in some batches only are padded with zeros (None for objects)"""
    from tianshou.data import Batch
    np = ctx.np
    x, y, z = ctx.reals("x", 2), ctx.reals("y", 2), ctx.int("z", -9, 9)
    s = Batch.stack([Batch(a=x, c=np.array(z)), Batch(a=y, b=y, n=Batch(k=x)), Batch(a=x, e=Batch())])
    ctx.eq(s.a, [[x[0], x[1]], [y[0], y[1]], [x[0], x[1]]], "shared entry")
    ctx.eq(s.b, [[0.0, 0.0], [y[0], y[1]], [0.0, 0.0]], "partial array")
    ctx.eq(s.c, [z, 0, 0], "partial scalar")
    ctx.eq(s.n.k, [[0.0, 0.0], [x[0], x[1]], [0.0, 0.0]], "partial nested entry")
    ctx.check(len(s.e.keys()) == 0, "entry that is reserved everywhere")
    ctx.raises(ValueError, lambda: Batch.stack([Batch(a=x), Batch(a=y, b=y)], axis=1), "partial entries need axis 0")


@harness("P13", params=[dict(n=3)])
def empty_rows(ctx, n):
    """emptying clears exactly the addressed rows; the out-of-place form leaves the source alone"""
    from tianshou.data import Batch
    np = ctx.np
    b, rows = mk(ctx, n, extra=False)
    i = int(ctx.conc(ctx.int("i", 0, n - 1)))
    zero = {"a": 0, "m": [0.0, 0.0], "t": 0.0, "n": {"x": False, "d": {"y": 0}}}
    e = Batch.empty(b, [i])
    same(ctx, b, rows, "source untouched", extra=False)
    exp = [zero if j == i else rows[j] for j in range(n)]
    same(ctx, e, exp, "emptied copy", extra=False)
    b.empty_([i])
    same(ctx, b, exp, "emptied in place", extra=False)
    b.empty_()
    same(ctx, b, [zero] * n, "everything emptied", extra=False)
    # entries of other kinds: objects become None, missing entries stay missing
    o = np.array([None, "q", 3][:n] + [0.5, {}][: 5 - n])
    for how in ("copy", "rows", "all"):
        c = Batch(o=np.array(o), v=ctx.reals("v", len(o)), z=None, n=Batch(o=np.array(o)))
        v = [c.v[j] for j in range(len(o))]
        hit = [True] * len(o) if how != "rows" else [j == i for j in range(len(o))]
        r = Batch.empty(c) if how == "copy" else c.empty_() if how == "all" else c.empty_([i])
        for j, h in enumerate(hit):
            ctx.check(r.o[j] is None if h else r.o[j] == o[j], f"{how}: object row {j}")
            ctx.check(r.n.o[j] is None if h else r.n.o[j] == o[j], f"{how}: nested object row {j}")
            ctx.eq(r.v[j], 0.0 if h else v[j], f"{how}: value row {j}")
            if how == "copy":
                ctx.check(c.o[j] == o[j], f"source row {j} untouched")
        ctx.check(r.z is None, "None stays None")


# ------------------------------------------------------------------ P14 splitting
@harness("P14", params=[dict(n=n) for n in (1, 3, 4, 5)], thorough=[dict(n=7)], max_paths=8000)
def split_plain(ctx, n):
    """every size, without shuffling"""
    b, rows = mk(ctx, n)
    size = int(ctx.conc(ctx.int("size", -1, n + 1)))
    merge = ctx.pick("merge", [False, True])
    if size == 0:
        ctx.raises(AssertionError, lambda: list(b.split(0, shuffle=False)), "size 0 is rejected")
        return
    parts = list(b.split(size, shuffle=False, merge_last=merge))
    sz = n if size == -1 else size
    lens = [sz] * (n // sz) + ([n % sz] if n % sz else [])
    if merge and n % sz and len(lens) > 1:
        lens = lens[:-2] + [lens[-2] + lens[-1]]
    ctx.check([len(p) for p in parts] == lens, f"chunk lengths for size {size}")
    at = 0
    for p in parts:
        same(ctx, p, rows[at:at + len(p)], "chunk in order")
        at += len(p)


@harness("P14", params=[dict(n=2, size=1, merge=False), dict(n=3, size=2, merge=False), dict(n=3, size=2, merge=True), dict(n=4, size=3, merge=False)],
         thorough=[dict(n=5, size=2, merge=True), dict(n=5, size=2, merge=False)], max_paths=8000)
def split_shuffled(ctx, n, size, merge):
    """for every permutation the generator can produce, each row is yielded exactly once and rows stay intact"""
    b, rows = mk(ctx, n)
    b.id = ctx.np.arange(n)
    seen = []
    lens = []
    for p in b.split(size, shuffle=True, merge_last=merge):
        lens.append(len(p))
        for k in range(len(p)):
            i = p.id[k]
            seen.append(i)
            for j in range(n):
                ctx.implies(i == j, ctx.And(ctx.eqv(p.a[k], rows[j]["a"]), ctx.eqv(p.m[k], rows[j]["m"]), ctx.eqv(p.t[k], rows[j]["t"]),
                                            ctx.eqv(p.n.x[k], rows[j]["n"]["x"])), "row stays intact")
    exp = [size] * (n // size) + ([n % size] if n % size else [])
    if merge and n % size and len(exp) > 1:
        exp = exp[:-2] + [exp[-2] + exp[-1]]
    ctx.check(lens == exp, "chunk lengths")
    ctx.eq(ctx.np.sort(ctx.np.array(seen)), list(range(n)), "every row exactly once")
    if n <= 3:
        import itertools
        for pm in itertools.permutations(range(n)):
            ctx.reach(ctx.And(*[seen[i] == pm[i] for i in range(n)]), f"order {pm}")


# ------------------------------------------------------------------ P15 arithmetic, conversion, copies
@harness("P15", params=[dict(n=1), dict(n=2)], thorough=[dict(n=4)])
def arithmetic(ctx, n):
    """out-of-place operators change nothing but their result, in-place ones change every entry"""
    from tianshou.data import Batch
    np = ctx.np
    xs, ts, ys = ctx.reals("x", n), ctx.treals("t", (n,)), ctx.reals("y", n)
    mkb = lambda: Batch(x=np.array(xs), t=ts.clone(), n=Batch(y=np.array(ys)), res=Batch())
    b = mkb()
    k = ctx.real("k", 0.5, 8)
    op = ctx.pick("op", ["add", "mul", "div", "addb"])
    o1, o2, o3 = ctx.reals("o1", n), ctx.treals("o2", (n,)), ctx.reals("o3", n)
    if op == "addb":       # the same entries, listed in another order
        other = Batch(n=Batch(y=np.array(o3)), res=Batch(), x=np.array(o1), t=o2) if ctx.pick("order", [False, True]) else \
            Batch(x=np.array(o1), t=o2, n=Batch(y=np.array(o3)), res=Batch())
    f = {"add": lambda v, o: v + k, "mul": lambda v, o: v * k, "div": lambda v, o: v / k, "addb": lambda v, o: v + o}[op]
    arg = other if op == "addb" else k
    r = {"add": lambda: b + arg, "addb": lambda: b + arg, "mul": lambda: b * arg, "div": lambda: b / arg}[op]()
    c = mkb()
    if op in ("add", "addb"):
        c += arg
    elif op == "mul":
        c *= arg
    else:
        c /= arg
    for res in (r, c):
        ctx.eq(res.x, [f(xs[i], o1[i]) for i in range(n)], f"{op}: array")
        ctx.eq(res.t, [f(ts[i], o2[i]) for i in range(n)], f"{op}: tensor")
        ctx.eq(res.n.y, [f(ys[i], o3[i]) for i in range(n)], f"{op}: nested array")
        ctx.check(len(res.res.keys()) == 0, f"{op}: reserved entry")
    ctx.eq(b.x, xs, "operand array untouched")
    ctx.eq(b.t, ts, "operand tensor untouched")
    ctx.eq(b.n.y, ys, "operand nested array untouched")


@harness("P15", params=[dict(n=2)])
def conversion(ctx, n):
    """numpy/torch conversion keeps every value; the copying forms leave the source as it was"""
    from tianshou.data import Batch, to_numpy, to_torch, to_torch_as
    np, torch = ctx.np, ctx.torch
    import torch as rt
    b, rows = mk(ctx, n, extra=False)
    at = b.to_torch(dtype=rt.float32)
    for leaf, nm in ((at.a, "a"), (at.m, "m"), (at.t, "t"), (at.n.x, "x"), (at.n.d.y, "y")):
        ctx.check(isinstance(leaf, rt.Tensor), f"to_torch: {nm} is a tensor")
    ctx.check(at.t.dtype == rt.float32, "to_torch: tensors get the requested dtype")
    ctx.check(not isinstance(b.a, rt.Tensor) and isinstance(b.t, rt.Tensor), "to_torch leaves the source alone")
    same(ctx, at, rows, "to_torch", extra=False)
    an = at.to_numpy()
    for leaf, nm in ((an.a, "a"), (an.m, "m"), (an.t, "t"), (an.n.x, "x"), (an.n.d.y, "y")):
        ctx.check(not isinstance(leaf, rt.Tensor), f"to_numpy: {nm} is an array")
    same(ctx, an, rows, "to_numpy", extra=False)
    ctx.check(isinstance(at.a, rt.Tensor), "to_numpy leaves the source alone")
    an.a[0] = an.a[0] + 1
    same(ctx, at, rows, "to_numpy copies", extra=False)
    b2, rows2 = mk(ctx, n, "z", extra=False)
    b2.to_torch_()
    same(ctx, b2, rows2, "to_torch_", extra=False)
    b2.to_numpy_()
    same(ctx, b2, rows2, "to_numpy_", extra=False)
    # free functions, recursive
    x = ctx.reals("q", 2)
    d = to_torch({"u": x, "v": {"w": x}}, dtype=rt.float32)
    ctx.check(isinstance(d["u"], rt.Tensor), "to_torch on dicts")
    ctx.eq(d["u"], x, "to_torch value")
    ctx.eq(d["v"]["w"], x, "to_torch nested value")
    ctx.eq(to_numpy(d["u"]), x, "to_numpy value")
    ctx.eq(to_torch_as(x, ctx.treals("w", (1,))), x, "to_torch_as value")


@harness("P15", params=[dict()])
def converters(ctx):
    """to_torch / to_torch_as / to_numpy on arrays, tensors, numbers, lists, dicts and batches, with and without a requested type"""
    import torch as rt
    import numpy as rn
    from tianshou.data import Batch, to_numpy, to_torch, to_torch_as
    np = ctx.np
    kind = ctx.pick("kind", ["array", "tensor", "number", "bool", "list", "dict", "batch", "arrays", "nested"])
    x = [3, -1, 2] if kind == "list" else ctx.ints("x", 3, -5, 5)
    want = ctx.pick("dtype", [None, "float32", "int64"])
    dt = want and getattr(rt, want)
    A, Tn = lambda: np.array(x), lambda: ctx.tensor(np.array(x), rt.int32)
    src = dict(array=A, tensor=Tn, number=lambda: np.array(x)[0], bool=lambda: np.array([True, False, True]), list=lambda: list(x),
               dict=lambda: {"u": A(), "v": {"w": Tn()}}, batch=lambda: Batch(u=A(), v=Batch(w=Tn())), arrays=lambda: [A(), A()], nested=lambda: [{"u": A()}, {"u": A()}])[kind]()
    ref = dict(number=x[0], bool=[1, 0, 1]).get(kind, x)
    out = to_torch_as(src, rt.zeros(1, dtype=dt)) if dt is not None and ctx.pick("as", [True, False]) else to_torch(src, dtype=dt) if dt is not None else to_torch(src)
    own = {"tensor": rt.int32, "bool": rt.bool}

    def leaf(t, v, was, lab, typed=True):
        ctx.check(isinstance(t, rt.Tensor), f"{lab}: a tensor")
        # arrays inside batches may keep their own type (test_utils_to_torch_numpy insists on it)
        ctx.check(t.dtype == (dt if dt is not None else was) or (not typed and t.dtype == was), f"{lab}: the requested type, else its own")
        ctx.eq(t.to(rt.float32), v, f"{lab}: values")
    if kind in ("dict", "batch"):
        ctx.check(isinstance(out, Batch), "dicts become batches")
        leaf(out.u, x, rt.int64, "u", typed=False)
        leaf(out.v.w, x, rt.int32, "v.w")
        back = to_numpy(out)
        ctx.check(isinstance(back.u, rn.ndarray) or ctx.sym, "arrays again")
        ctx.eq([back.u.astype(float), back.v.w.astype(float)], [x, x], "values survive")
        ctx.check(isinstance(out.u, rt.Tensor), "the source is left alone")
    elif kind == "arrays":
        leaf(out, [x, x], rt.int64, "stacked")
    elif kind == "nested":
        leaf(out.u, [x, x], rt.int64, "stacked batches", typed=False)
    else:
        leaf(out, ref, own.get(kind, rt.int64), kind)
        ctx.eq(to_numpy(out).astype(float), ref, "and back")
    ctx.raises(TypeError, lambda: to_torch("text"), "what cannot be converted is refused")
    n = to_numpy(None)
    ctx.check(n.dtype == object and n.item() is None, "None becomes an object")


@harness("P15", params=[dict(n=2)])
def copies(ctx, n):
    """copy=True, deep copies and pickling are independent of the source; plain construction shares the arrays"""
    import copy
    from tianshou.data import Batch
    b, rows = mk(ctx, n)
    how = ctx.pick("how", ["ctor", "deepcopy", "state", "apply", "share", "update"])
    if how == "ctor":
        c = Batch(b, copy=True)
    elif how == "deepcopy":
        c = copy.deepcopy(b)
    elif how == "state":
        c = Batch.__new__(Batch)
        c.__setstate__(copy.deepcopy(b.__getstate__()))
    elif how == "apply":
        c = b.apply_values_transform(lambda v: v)
    elif how == "share":
        c = Batch(b)
        same(ctx, c, rows, "shallow copy")
        ctx.check(c.a is b.a and c.n is b.n, "plain construction keeps references")
        c.a = ctx.ints("na", n)
        same(ctx, b, rows, "rebinding a key of the copy leaves the source alone")
        return
    else:
        c = Batch()
        c.update(b)
        same(ctx, c, rows, "update takes over every entry")
        c.update({"a": rows[0]["a"], "zz": 3}, t=rows[0]["t"])
        ctx.eq(c.a, rows[0]["a"], "update overrides")
        ctx.eq(c.t, rows[0]["t"], "update with keywords")
        same(ctx, b, rows, "update leaves the source alone")
        return
    same(ctx, c, rows, how)
    if how != "apply":
        c.a[0] = c.a[0] + 1
        c.m[...] = 0.5
        c.t[0] = 3.5
        c.n.x[...] = ctx.Not(c.n.x[0])
        c.n.d.y[...] = 0
        same(ctx, b, rows, f"writing to the {how} copy leaves the source alone")
    else:
        inc = b.apply_values_transform(lambda v: v + 1 if v is not None else None)
        ctx.eq(inc.m, [[x + 1 for x in r["m"]] for r in rows], "transform is applied to arrays")
        ctx.eq(inc.t, [r["t"] + 1 for r in rows], "transform is applied to tensors")
        ctx.eq(inc.n.d.y, [r["n"]["d"]["y"] + 1 for r in rows], "transform is applied to nested entries")
        same(ctx, b, rows, "out-of-place transform leaves the source alone")
        b.apply_values_transform(lambda v: v + 1 if v is not None else None, inplace=True)
        ctx.eq(b.m, [[x + 1 for x in r["m"]] for r in rows], "in-place transform of arrays")
        ctx.eq(b.n.d.y, [r["n"]["d"]["y"] + 1 for r in rows], "in-place transform of nested entries")


@harness("P15", params=[dict(n=2)])
def array_at_key(ctx, n):
    """set_array_at_key writes a whole column or, with an index, part of one"""
    from tianshou.data import Batch
    np = ctx.np
    b, rows = mk(ctx, n, extra=False)
    v = ctx.reals("v", n)
    b.set_array_at_key(np.array(v), "new")
    ctx.eq(b.new, v, "whole column")
    i = int(ctx.conc(ctx.int("i", 0, n - 1)))
    b.set_array_at_key(np.array([v[0]]), "part", index=[i], default_value=-1.0)
    ctx.eq(b.part, [v[0] if j == i else -1.0 for j in range(n)], "part of a new column, default elsewhere")
    b.set_array_at_key(np.array([v[1]]), "new", index=[i])
    ctx.eq(b.new, [v[1] if j == i else v[j] for j in range(n)], "part of an existing column")
    ctx.raises(ValueError, lambda: b.set_array_at_key(np.array([v[0]] * (n + 1)), "bad"), "wrong length is rejected")
    ctx.raises(ValueError, lambda: b.set_array_at_key(np.array([v[0]]), "n", index=[0]), "nested entries are rejected")


@harness("P15", params=[dict(n=2)])
def nulls(ctx, n):
    """null detection and removal, recursively"""
    from tianshou.data import Batch
    np = ctx.np
    x = ctx.reals("x", 3)
    bad = int(ctx.conc(ctx.int("bad", -1, 2)))
    where = ctx.pick("where", ["top", "nested", "object"])
    col = lambda on: np.array([float("nan") if (on and j == bad) else x[j] for j in range(3)])
    b = Batch(a=col(where == "top"), n=Batch(y=col(where == "nested")), o=np.array([None if where == "object" and j == bad else j + 5 for j in range(3)], dtype=object))
    ctx.check(bool(b.hasnull()) == (bad >= 0), "hasnull")
    nul = b.isnull()
    for j in range(3):
        ctx.check(bool(nul.a[j]) == (where == "top" and j == bad), "isnull")
        ctx.check(bool(nul.n.y[j]) == (where == "nested" and j == bad), "isnull nested")
        ctx.check(bool(nul.o[j]) == (where == "object" and j == bad), "isnull object")
    d = b.dropnull()
    keep = [j for j in range(3) if j != bad]
    ctx.check(len(d) == len(keep), "dropnull drops exactly the rows with a null")
    ctx.eq(d.a, [x[j] for j in keep], "dropnull keeps the rest")
    ctx.eq(d.n.y, [x[j] for j in keep], "dropnull keeps the nested rest")
    ctx.check(len(b) == 3, "source untouched")


@harness("P15", params=[dict(n=2)])
def shape_len(ctx, n):
    from tianshou.data import Batch
    np = ctx.np
    b, rows = mk(ctx, n)
    ctx.check(len(b) == n, "length is the number of rows")
    ctx.check(b.n.shape == [n], "shape")
    ctx.check(Batch(a=ctx.reals("u", (2, 3)), b=ctx.reals("v", (2, 3, 4))).shape == [2, 3], "shape is the common prefix")
    ctx.check(len(Batch()) == 0 and Batch().shape == [], "empty batch")
    ctx.raises(TypeError, lambda: len(Batch(a=np.array(ctx.int("s")))), "a batch of scalars has no length")
    l = b.to_list_of_dicts()
    ctx.check(len(l) == n, "to_list_of_dicts")
    for j in range(n):
        ctx.eq(l[j]["a"], rows[j]["a"], "list of dicts")
        ctx.eq(l[j]["n"]["d"]["y"], rows[j]["n"]["d"]["y"], "list of dicts nested")
    two = Batch(a=np.array(rows[0]["a"]), m=np.array(rows[0]["m"])).to_at_least_2d()
    ctx.eq(two.a, [[rows[0]["a"]]], "at least 2d scalar")
    ctx.eq(two.m, [rows[0]["m"]], "at least 2d vector")
