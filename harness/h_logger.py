"""P38: loggers write what they are given, at the configured intervals, and restore what was saved."""
from symx.ctx import harness


class Disk:
    """what fake summary writers have written: {log_dir: [(tag, value, step)]}"""

    def __init__(self, ctx):
        import sys
        self.ctx, self.dirs, self.flushed = ctx, {}, 0
        D = self

        class Writer:
            def __init__(self, log_dir="dir"):
                self.log_dir, self.calls, self.open = log_dir, D.dirs.setdefault(log_dir, []), True
                self.ops = []

            def _add(self, kind, tag, value, step):
                if not self.open:
                    raise RuntimeError("closed")
                self.ops.append(kind)
                self.calls.append((kind, tag, value, step))

            def add_scalar(self, tag, scalar_value, global_step=None, **kw):
                self._add("scalar", tag, scalar_value, global_step)

            def add_scalars(self, *a, **k):
                raise NotImplementedError

            def add_histogram(self, tag, values, global_step=None, bins="tensorflow", **kw):
                self._add("histogram", tag, values, global_step)

            def add_figure(self, tag, figure, global_step=None, **kw):
                self._add("figure", tag, figure, global_step)

            def flush(self):
                self.ops.append("flush")

            def close(self):
                self.open = False

        class Ev:
            def __init__(self, step, value):
                self.step, self.value = step, value

        class Scalars:
            def __init__(self, calls):
                self.d = {}
                for k, t, v, s in calls:
                    if k == "scalar":
                        self.d.setdefault(t, []).append(Ev(s, v))

            def Keys(self):
                return list(self.d)

            def Items(self, k):
                return self.d[k]          # KeyError if there is none

        class Acc:
            def __init__(self, path, *a, **k):
                self.path, self.scalars = path, None

            def Reload(self):
                self.scalars = Scalars(D.dirs.get(self.path, []))
                return self

            def Tags(self):
                return {"scalars": self.scalars.Keys()}

            def Scalars(self, k):
                return self.scalars.Items(k)

        self.Writer = Writer
        import tianshou.utils  # noqa: F401
        import tianshou.utils.logger.tensorboard as t
        sys.modules["tensorboard.backend.event_processing.event_accumulator"].EventAccumulator = Acc
        t.event_accumulator.EventAccumulator = Acc
        w = sys.modules["torch.utils.tensorboard"]
        w.SummaryWriter = Writer


NAMES = ("train", "test", "update", "info")
AXIS = dict(train="train/env_step", test="test/env_step", update="update/gradient_step", info="info/epoch")


def _log(lg, n, data, step):
    getattr(lg, f"log_{n}_data")(data, step)


def _wandb(ctx):
    import types
    import tianshou.utils.logger.wandb as wb
    arts = {}

    class Run:
        def __init__(self, id=None):
            self.id, self.finished = id or "run0", False

        def _label(self, **kw):
            pass

        def log_artifact(self, a):
            arts.setdefault(a.name, []).append(a)

        def use_artifact(self, name):
            base, v = name.split(":")
            assert v == "latest"
            return arts[base][-1]

        def finish(self):
            self.finished = True

    class Artifact:
        def __init__(self, name, type, metadata=None):
            self.name, self.type, self.metadata, self.files = name, type, metadata, []

        def add_file(self, p):
            self.files.append(p)

        def download(self, root=None):
            self.root = root
            return root

    m = types.SimpleNamespace(run=None, init=lambda id=None, **kw: Run(id), Settings=lambda **kw: None, Artifact=Artifact)
    wb.wandb = m
    return wb.WandbLogger, arts


def _logger(ctx, D, which, writer, **kw):
    if which == "tb":
        from tianshou.utils import TensorboardLogger
        return TensorboardLogger(writer, **kw)
    cls, arts = _wandb(ctx)
    lg = cls(**kw)
    lg.load(writer)
    return lg


@harness("P38", [dict(which="tb"), dict(which="wandb")])
def intervals(ctx, which):
    """an entry is written iff its step is at least the stream's own interval after the last one written there"""
    D = Disk(ctx)
    w = D.Writer()
    iv = {n: ctx.int(f"interval_{n}", 1, 6) for n in NAMES}
    flush = ctx.pick("flush", [True, False])
    lg = _logger(ctx, D, which, w, write_flush=flush, **{f"{n}_interval": iv[n] for n in NAMES})
    a = ctx.pick("stream", [0, 1, 2, 3])
    order = [NAMES[a], NAMES[(a + 1) % 4], NAMES[a]] + ([NAMES[(a + 1) % 4]] if a < 2 else [])
    last = {n: -1 for n in NAMES}
    cur = {n: 0 for n in NAMES}
    want = []
    for j, n in enumerate(order):
        cur[n] = cur[n] + ctx.int(f"d{j}", 0, 8)
        v = ctx.real(f"v{j}")
        n0 = len(w.ops)
        _log(lg, n, {"x": v}, cur[n])
        if ctx.maybe(cur[n] - last[n] >= iv[n]):
            last[n] = cur[n]
            want += [("scalar", AXIS[n], cur[n], cur[n]), ("scalar", f"{n}/x", v, cur[n])]
            ctx.check(("flush" in w.ops[n0:]) == flush, "flushed after writing iff requested")
    _same(ctx, w.calls, want)
    lg.finalize()
    ctx.check(not w.open, "finalize closes the writer")


def _same(ctx, got, want, ordered=True):
    if not ordered:
        got, want = sorted(got, key=lambda c: c[1]), sorted(want, key=lambda c: c[1])
    ctx.check([c[:2] for c in got] == [c[:2] for c in want], f"entries written {[c[:2] for c in got]} instead of {[c[:2] for c in want]}")
    for g, e in zip(got, want):
        if g[:2] == e[:2]:
            ctx.eq(g[2], e[2], f"value of {g[1]}")
            ctx.eq(g[3], e[3], f"step of {g[1]}")


@harness("P38")
def flattening(ctx):
    """nested statistics become slash-separated tags; only numbers (and arrays on request) are written"""
    from tianshou.utils import TensorboardLogger
    np = ctx.np
    D = Disk(ctx)
    w = D.Writer()
    lg = TensorboardLogger(w, train_interval=1)
    a, b, c, e = ctx.real("a"), ctx.int("b"), ctx.real("c"), ctx.real("e")
    arr = ctx.reals("arr", 2)
    d = dict(n=b, returns=arr, returns_stat=dict(mean=a, std=0.5), name="text", nothing=None, ok=True, dist={0: dict(mean=c), 1: dict(mean=e, sub=dict(z=np.float32(2)))},
             empty={})
    snap = (list(d), list(d["dist"]), list(d["returns_stat"]))
    flat = {"n": b, "returns_stat/mean": a, "returns_stat/std": 0.5, "ok": True, "dist/0/mean": c, "dist/1/mean": e, "dist/1/sub/z": 2.0}
    got = lg.prepare_dict_for_logging(d)
    ctx.check(sorted(got) == sorted(flat), f"tags {sorted(got)}")
    for k in flat:
        ctx.eq(got[k], flat[k], f"value of {k}")
    ctx.check((list(d), list(d["dist"]), list(d["returns_stat"])) == snap, "the statistics are left alone")
    full = lg.prepare_dict_for_logging(d, exclude_arrays=False)
    ctx.check(sorted(full) == sorted([*flat, "returns"]), f"tags with arrays {sorted(full)}")
    ctx.eq(full["returns"], arr, "array value")
    pre = lg.prepare_dict_for_logging(dict(y=a, z=dict(q=c)), parent_key="top", delimiter=".")
    ctx.check(sorted(pre) == ["top.y", "top.z.q"], f"prefix and delimiter {sorted(pre)}")
    # written through
    s = ctx.int("step", 0, 99)
    lg.log_train_data(d, s)
    _same(ctx, w.calls, [("scalar", "train/env_step", s, s)] + [("scalar", f"train/{k}", flat[k], s) for k in flat], ordered=False)
    # arrays and figures
    from matplotlib.figure import Figure
    n = len(w.calls)
    f = Figure()
    lg.write("info/epoch", s, {"h": arr, "f": f, "v": a})
    got = w.calls[n:]
    ctx.check(sorted((k, t) for k, t, _, _ in got) == [("figure", "info/f"), ("histogram", "info/h"), ("scalar", "info/epoch"), ("scalar", "info/v")], "scalars, histograms and figures")
    for k, t, v, st in got:
        ctx.eq(st, s, f"step of {t}")
        if k == "histogram":
            ctx.eq(v, arr, "histogram values")
        if k == "figure":
            ctx.check(v is f, "figure")


@harness("P38", [dict(which="tb"), dict(which="wandb")])
def checkpoints(ctx, which):
    """save_data calls the hook at the save interval and a resumed logger restores exactly the last saved state"""
    D = Disk(ctx)
    iv = ctx.int("save_interval", 1, 4)
    t_iv = ctx.int("train_interval", 1, 4)
    lg = _logger(ctx, D, which, D.Writer(), save_interval=iv, train_interval=t_iv, update_interval=t_iv)
    calls = []

    def hook(*a):
        calls.append(a)
        return f"some/where/ckpt{len(calls)}.pth"

    cur = [0, 0, 0]
    last, want = -1, []
    for j in range(3):
        cur = [cur[0] + ctx.int(f"e{j}", 1, 3), cur[1] + ctx.int(f"s{j}", 0, 9), cur[2] + ctx.int(f"g{j}", 0, 9)]
        if j == 1 and ctx.pick("nohook", [False, True]):
            lg.save_data(*cur)          # without a hook nothing is saved
            continue
        lg.save_data(*cur, hook)
        if ctx.maybe(cur[0] - last >= iv):
            last = cur[0]
            want.append(list(cur))
    ctx.check(len(calls) == len(want), "number of checkpoints")
    for g, e in zip(calls, want):
        ctx.eq(list(g), e, "epoch, env_step and gradient_step of a checkpoint")
    w2 = D.Writer()
    if which == "tb":
        lg2 = _logger(ctx, D, which, w2, save_interval=iv, train_interval=t_iv, update_interval=t_iv)
    else:
        lg2 = lg                         # the artifacts live in the run
    if not want and which == "wandb":
        return
    r = lg2.restore_data()
    ctx.eq(list(r), want[-1] if want else [0, 0, 0], "restored epoch, env_step and gradient_step")
    if which == "tb" and want:
        e, s, g = want[-1]
        # the restored logger continues at its intervals
        n = len(calls)
        lg2.save_data(e + 1, s, g, hook)
        ctx.check((len(calls) > n) == ctx.maybe(iv <= 1), "the save interval counts from the restored epoch")
        k = len(w2.calls)
        lg2.log_train_data({"x": 1.0}, s + 2)
        ctx.check((len(w2.calls) > k) == ctx.maybe(t_iv <= 2), "the train interval counts from the restored step")
        k = len(w2.calls)
        lg2.log_update_data({"x": 1.0}, g + 3)
        ctx.check((len(w2.calls) > k) == ctx.maybe(t_iv <= 3), "the update interval counts from the restored step")


@harness("P38")
def fresh_start(ctx):
    """without any log, or with one that has no checkpoint, everything starts from zero"""
    from tianshou.utils import LazyLogger, TensorboardLogger
    D = Disk(ctx)
    w = D.Writer()
    lg = TensorboardLogger(w, train_interval=1)
    ctx.eq(list(lg.restore_data()), [0, 0, 0], "nothing to restore")
    lg.log_train_data({"x": ctx.real("v")}, 3)
    ctx.eq(list(TensorboardLogger(D.Writer()).restore_data()), [0, 0, 0], "a log without checkpoint")
    # epoch and gradient step but no environment step (offline training)
    e, g = ctx.int("e", 0, 99), ctx.int("g", 0, 99)
    w3 = D.Writer("other")
    lg3 = TensorboardLogger(w3)
    lg3.write("save/epoch", e, {"save/epoch": e})
    lg3.write("save/gradient_step", g, {"save/gradient_step": g})
    ctx.eq(list(TensorboardLogger(D.Writer("other")).restore_data()), [e, 0, g], "a log without environment steps")
    lz = LazyLogger()
    hit = []
    lz.save_data(1, 2, 3, lambda *a: hit.append(a) or "p")
    for n in NAMES:
        _log(lz, n, {"x": 1.0}, 10 ** 6)
    ctx.eq(list(lz.restore_data()), [0, 0, 0], "the lazy logger restores nothing")
    ctx.check(lz.restore_logged_data("x") == {}, "the lazy logger has no data")


@harness("P38", [dict(which="tb"), dict(which="wandb")])
def restore_logged(ctx, which):
    """restore_logged_data returns all values of every tag in order, nested by the tag's parts"""
    from tianshou.utils import TensorboardLogger
    np = ctx.np
    D = Disk(ctx)
    lg = TensorboardLogger(D.Writer("log"), train_interval=1, test_interval=1)
    v = ctx.reals("v", (3, 2))
    s = [3, 5, 9]
    for j in range(3):
        lg.log_train_data({"a": v[j][0], "st": {"mean": v[j][1], "deep": {"x": v[j][0] + 1}}}, s[j])
    lg.log_test_data({"a": v[0][1]}, 4)
    cls = TensorboardLogger if which == "tb" else _wandb(ctx)[0]
    r = cls.restore_logged_data("log")
    want = dict(train=dict(env_step=np.array(s), a=v[:, 0], st=dict(mean=v[:, 1], deep=dict(x=v[:, 0] + 1))), test=dict(env_step=np.array([4]), a=np.array([v[0][1]])))
    ctx.eq(r, want, "restored data")
    ctx.check(cls.restore_logged_data("nowhere") == {}, "no data")


@harness("P38")
def wandb_needs_writer(ctx):
    D = Disk(ctx)
    cls, arts = _wandb(ctx)
    lg = cls(train_interval=1)
    v = ctx.real("v")
    ctx.raises(Exception, lambda: lg.log_train_data({"x": v}, 1), "logging without a writer is refused")
    ctx.raises(RuntimeError, lambda: lg.write("train/env_step", 1, {"x": v}), "writing without a writer is refused")
    w = D.Writer()
    lg.load(w)
    lg.log_train_data({"x": v}, 1)
    _same(ctx, w.calls, [("scalar", "train/env_step", 1, 1), ("scalar", "train/x", v, 1)])
    lg.finalize()
    ctx.check(not w.open and lg.wandb_run.finished, "finalize closes writer and run")
