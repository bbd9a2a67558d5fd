"""P40: summary statistics, moving averages, collect statistics and training statistics describe exactly the values given."""
import numpy as real_np

from symx.ctx import harness


def mean_std(ctx, xs):
    """exact mean and variance of a list of scalars"""
    m = sum(xs) / len(xs)
    return m, sum((x - m) * (x - m) for x in xs) / len(xs)


def is_std(ctx, got, var, lab):
    ctx.eq(got, ctx.np.sqrt(ctx.np.array(var)), lab)


def check_summary(ctx, s, xs, lab):
    if not xs:
        ctx.check(s.mean == 0 and s.std == 0 and s.max == 0 and s.min == 0, f"{lab}: empty sequence")
        return
    m, v = mean_std(ctx, xs)
    ctx.check(ctx.eqv(s.mean, m), f"{lab}: mean")
    is_std(ctx, s.std, v, f"{lab}: standard deviation")
    ctx.check(ctx.And(*[s.max >= x for x in xs], ctx.Or(*[ctx.eqv(s.max, x) for x in xs])), f"{lab}: maximum")
    ctx.check(ctx.And(*[s.min <= x for x in xs], ctx.Or(*[ctx.eqv(s.min, x) for x in xs])), f"{lab}: minimum")


@harness("P40", [dict(size=2), dict(size=0), dict(size=3)], [dict(size=1, rounds=3), dict(size=2, rounds=3), dict(size=3, rounds=3), dict(size=0, rounds=3)])
def moving_average(ctx, size, rounds=2):
    """any mixture of scalars, lists, arrays and tensors; infinities and NaNs are left out; the last `size` values count"""
    from tianshou.utils import MovAvg
    np = ctx.np
    stat = MovAvg(size) if size != 3 or ctx.pick("default", [False, True]) is False else MovAvg()
    limit = stat.size
    seen = []
    ctx.check(stat.get() == 0 and stat.mean() == 0 and stat.std() == 0, "nothing added yet")
    for t in range(rounds):
        kind = ctx.pick(f"kind{t}", ["scalar", "list", "array", "tensor", "bad"])
        vals = [ctx.real(f"x{t}_{j}", -4, 4) for j in range(1 if kind == "scalar" else 2)]
        if kind == "scalar":
            r = stat.add(vals[0])
        elif kind == "list":
            r = stat.add(list(vals))
        elif kind == "array":
            r = stat.add(np.array(vals))
        elif kind == "tensor":
            r = stat.add(ctx.tensor(np.array(vals)))
        else:
            bad = ctx.pick(f"bad{t}", [float("nan"), float("inf"), -float("inf")])
            how = ctx.pick(f"how{t}", ["scalar", "list", "array"])
            vals = [] if how == "scalar" else vals[:1]
            r = stat.add({"scalar": lambda: bad, "list": lambda: [bad, *vals], "array": lambda: np.array([*vals, bad])}[how]())
        seen += vals
        last = seen[-limit:] if limit > 0 else seen
        if not last:
            ctx.check(stat.get() == 0 and r == 0, "nothing but excluded values")
            continue
        m, v = mean_std(ctx, last)
        ctx.check(ctx.And(ctx.eqv(r, m), ctx.eqv(stat.get(), m), ctx.eqv(stat.mean(), m)), "average of the last values")
        if t == rounds - 1:
            is_std(ctx, stat.std(), v, "standard deviation of the last values")


@harness("P40", [dict(n=0), dict(n=1), dict(n=3)], [dict(n=4)])
def summary(ctx, n):
    from tianshou.data.stats import SequenceSummaryStats, compute_dim_to_summary_stats
    np = ctx.np
    kind = ctx.pick("kind", ["list", "array", "int"])
    xs = [ctx.real(f"x{i}") if kind != "int" else ctx.int(f"x{i}", -9, 9) for i in range(n)]
    check_summary(ctx, SequenceSummaryStats.from_sequence(xs if kind != "array" else np.array(xs) if n else np.array([])), xs, "summary")
    if n:
        ys = [ctx.real(f"y{i}") for i in range(n)]
        d = compute_dim_to_summary_stats(np.array([xs, ys]) if kind == "array" else [xs, ys])
        ctx.check(sorted(d) == [0, 1], "one summary per dimension")
        check_summary(ctx, d[0], xs, "first dimension")
        check_summary(ctx, d[1], ys, "second dimension")


@harness("P40", [dict(k=2), dict(k=3, one=True)], [dict(k=4)])
def collect(ctx, k, one=False):
    """any sequence of step and episode reports: counts, returns, lengths, spreads and their summaries"""
    from tianshou.data import Batch
    from tianshou.data.collector import CollectStats
    np = ctx.np
    s = CollectStats()
    rets, lens, steps, stds = [], [], 0, []
    fresh = ctx.pick("refresh", [False, True])
    for t in range(k):
        what = ctx.pick(f"what{t}", ["step", "episode"] if one else ["step", "step2", "normal", "episode", "episode0d"])
        if what.startswith("episode"):
            n = ctx.pick(f"len{t}", [1, 3])
            r = ctx.real(f"ret{t}")
            s.update_at_episode_done(Batch(obs=np.zeros(n)), r if what == "episode" else np.array(r), fresh)
            rets.append(r)
            lens.append(n)
        else:
            n = 1 if what == "step" else 2
            dist = None
            if what == "normal":
                import torch
                sd = [[ctx.real(f"sd{t}_{i}_{j}", 0.25, 2) for j in range(2)] for i in range(n)]
                dist = torch.distributions.Normal(torch.zeros(n, 2), ctx.tensor(np.array(sd)))
                stds += sd
            b = Batch(obs=np.zeros(n))
            b.dist = dist
            s.update_at_step_batch(b, fresh)
            steps += n
    if not fresh:
        ctx.check(s.returns_stat is None and s.lens_stat is None and s.pred_dist_std_array_stat is None, "summaries only on request")
        s.refresh_all_sequence_stats()
    ctx.check(s.n_collected_steps == steps and s.n_collected_episodes == len(rets), "number of steps and episodes")
    ctx.eq(s.lens, np.array(lens, dtype=int), "episode lengths in order")
    ctx.eq(s.returns, np.array(rets, dtype=float), "episode returns in order")
    if rets:
        check_summary(ctx, s.returns_stat, rets, "returns")
        check_summary(ctx, s.lens_stat, lens, "lengths")
        a = CollectStats.with_autogenerated_stats(s.returns, s.lens, len(rets), steps, 2.0, 3.0)
        ctx.eq(a.returns, s.returns, "given returns")
        ctx.eq(a.lens, s.lens, "given lengths")
        check_summary(ctx, a.returns_stat, rets, "returns (generated)")
        check_summary(ctx, a.lens_stat, lens, "lengths (generated)")
        ctx.check((a.n_collected_episodes, a.n_collected_steps, a.collect_time, a.collect_speed) == (len(rets), steps, 2.0, 3.0), "given totals")
    else:
        ctx.check(s.returns_stat is None and s.lens_stat is None, "no summary of nothing")
        a = CollectStats.with_autogenerated_stats(np.array([]), np.array([]))
        ctx.check(a.returns_stat is None and a.lens_stat is None, "no summary of nothing (generated)")
    if stds:
        ctx.eq(s.pred_dist_std_array, np.array(stds), "standard deviations of the action distributions in order")
        ctx.check(sorted(s.pred_dist_std_array_stat) == [0, 1], "one summary per action dimension")
        for j in range(2):
            check_summary(ctx, s.pred_dist_std_array_stat[j], [r[j] for r in stds], f"spread of action dimension {j}")
    else:
        ctx.check(s.pred_dist_std_array is None and s.pred_dist_std_array_stat is None, "no distributions reported")
    tm = ctx.real("time", 0.25, 4)
    s.set_collect_time(tm)
    ctx.check(ctx.And(s.collect_time == tm, ctx.eqv(s.collect_speed * tm, steps)), "collection speed")
    s.set_collect_time(5.0, update_collect_speed=False)
    ctx.check(ctx.And(s.collect_time == 5.0, ctx.eqv(s.collect_speed * tm, steps)), "speed only on request")
    s.set_collect_time(0.0)
    ctx.check(s.collect_speed == 0, "no speed without time")
    ctx.raises(ValueError, lambda: s.set_collect_time(-1.0), "negative times are refused")


@harness("P40", [dict(n=0, A=2), dict(n=2, A=2), dict(n=1, A=3)])
def spread(ctx, n, A):
    """the standard deviation of a categorical distribution over 0..K-1 (single and batched) and of any other distribution"""
    import torch
    from tianshou.data.collector import get_stddev_from_dist
    np = ctx.np
    rows = max(n, 1)
    w = [[ctx.real(f"w{i}_{j}", 0.125, 0.5 if A == 2 else 0.375) for j in range(A - 1)] for i in range(rows)]
    for r in w:
        r.append(1 - sum(r))
    d = torch.distributions.Categorical(probs=ctx.tensor(np.array(w if n else w[0])))
    s = get_stddev_from_dist(d)
    ctx.check(tuple(s.shape) == ((n, 1) if n else (1,)), "shape of the standard deviations")
    for i in range(rows):
        m = sum(w[i][j] * j for j in range(A))
        v = sum(w[i][j] * (j - m) * (j - m) for j in range(A))
        is_std(ctx, s[i, 0] if n else s[0], v, "standard deviation of the action number")
    sd = [ctx.real(f"sd{j}", 0.25, 2) for j in range(A)]
    ctx.eq(get_stddev_from_dist(torch.distributions.Normal(torch.zeros(A), ctx.tensor(np.array(sd)))), np.array(sd), "standard deviation of a normal distribution")


@harness("P40")
def training(ctx):
    """loss entries: all public fields but the time and the smoothed losses; summaries by their mean, absent ones left out; wrappers add to what they wrap"""
    from dataclasses import dataclass

    from tianshou.data.stats import SequenceSummaryStats
    from tianshou.policy.base import TrainingStats, TrainingStatsWrapper

    @dataclass(kw_only=True)
    class Inner(TrainingStats):
        loss: float
        opt: float | None = None
        many: SequenceSummaryStats | None = None

    x, y, z = ctx.real("x"), ctx.real("y"), ctx.real("z")
    xs = [ctx.real(f"m{i}") for i in range(2)]
    opt = ctx.pick("opt", [False, True])
    many = ctx.pick("many", [False, True])
    s = Inner(loss=x, opt=y if opt else None, many=SequenceSummaryStats.from_sequence(xs) if many else None, train_time=3.0)
    s.smoothed_loss = {"loss": 1.0}
    s._hidden = 5

    def check(d, extra, lab):
        want = {"loss": x, **({"opt": y} if opt else {}), **({"many": sum(xs) / 2} if many else {}), **extra}
        ctx.check(set(d) == set(want), f"{lab}: entries {sorted(d)}")
        for k in want:
            ctx.check(ctx.eqv(d[k], want[k]), f"{lab}: {k}")
    check(s.get_loss_stats_dict(), {}, "plain")

    class W(TrainingStatsWrapper):
        def __init__(self, wrapped, *, extra):
            self.extra = extra
            super().__init__(wrapped)

    w = W(s, extra=z)
    check(w.get_loss_stats_dict(), {"extra": z}, "wrapped")
    ctx.check(w.train_time == 3.0 and w.smoothed_loss == {"loss": 1.0} and w.wrapped_stats is s and w.loss is s.loss, "what is wrapped shows through")
    w.train_time = 4.0
    w.smoothed_loss = {"loss": 2.0}
    ctx.check(s.train_time == 4.0 and w.train_time == 4.0 and s.smoothed_loss == w.smoothed_loss == {"loss": 2.0}, "common fields stay the same in both")
    new = ctx.real("new")
    w.loss = new
    ctx.check(ctx.And(s.loss == new, w.loss == new), "fields of what is wrapped are set there")
    w.extra = new
    ctx.check(ctx.And(w.extra == new), "own fields are set on the wrapper")
    ctx.check(not hasattr(s, "extra"), "own fields are not set on what is wrapped")
    ctx.raises(AttributeError, lambda: setattr(w, "unknown", 1), "new fields are refused")


@harness("P40")
def spaces(ctx):
    """shapes, numbers of dimensions and bounds of action and observation spaces"""
    from gymnasium import spaces as gs

    from tianshou.utils.space_info import ActionSpaceInfo, ObservationSpaceInfo, SpaceInfo
    np = ctx.np
    shape = ctx.pick("shape", [(1,), (3,), (2, 2)])
    box = gs.Box(-1.0, 1.0, shape=shape)
    lo, hi = ctx.reals("low", shape, -4, 0), ctx.reals("high", shape, 0, 4)
    box.low, box.high = lo, hi
    n, start = ctx.pick("n", [1, 4]), ctx.pick("start", [0, -2, 3])
    disc = gs.Discrete(n, start=start)
    i = SpaceInfo.from_spaces(box, disc)
    a = i.action_info
    els = lambda v: [v[k] for k in real_np.ndindex(*shape)]
    ctx.check(a.action_shape == shape and a.action_dim == len(els(lo)), "shape of a box")
    ctx.check(ctx.And(*[a.min_action <= v for v in els(lo)], ctx.Or(*[ctx.eqv(a.min_action, v) for v in els(lo)])), "lowest action")
    ctx.check(ctx.And(*[a.max_action >= v for v in els(hi)], ctx.Or(*[ctx.eqv(a.max_action, v) for v in els(hi)])), "highest action")
    ctx.check(i.observation_info.obs_shape == n and i.observation_info.obs_dim == n, "number of discrete observations")
    j = SpaceInfo.from_spaces(disc, box)
    a = j.action_info
    ctx.check(a.action_shape == n and a.action_dim == n and a.min_action == start and a.max_action == start + n - 1, "discrete actions")
    ctx.check(j.observation_info.obs_shape == shape and j.observation_info.obs_dim == len(els(lo)), "shape of observations")

    class Env:
        action_space, observation_space = disc, box
    ctx.check(SpaceInfo.from_env(Env()).action_info == a, "spaces of an environment")
    ctx.raises(ValueError, lambda: ActionSpaceInfo.from_space(gs.MultiBinary(2)), "other action spaces are refused")
    ctx.raises(ValueError, lambda: ObservationSpaceInfo.from_space(gs.MultiBinary(2)), "other observation spaces are refused")
