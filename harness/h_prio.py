"""P07 segment tree, P08 prioritised replay, P09 hindsight replay."""
from harness.h_buffer import Log, check_row, done_of, to_batch, to_batch_n, transition
from symx.ctx import harness


# ------------------------------------------------------------------ P07 segment tree
def ref_prefix(ctx, arr, v):
    """smallest i with v <= arr[0]+..+arr[i], as a term"""
    out = len(arr) - 1
    for i in reversed(range(len(arr))):
        out = ctx.ite(v <= sum(arr[:i + 1]), i, out)
    return out


@harness("P07", params=[dict(size=s, n=2) for s in (1, 2, 3, 5)], thorough=[dict(size=s, n=4) for s in (2, 3, 4, 6, 7, 8, 9)])
def tree_updates(ctx, size, n):
    """symbolic single and bulk updates at symbolic positions, then every interval sum"""
    from tianshou.data import SegmentTree
    np = ctx.np
    tree = SegmentTree(size)
    arr = [0.0] * size
    ctx.check(len(tree) == size, "length")
    for t in range(n):
        bulk = ctx.pick(f"bulk{t}", [1, 2]) if size > 1 else 1
        pos = [ctx.int(f"pos{t}_{k}", 0, size - 1) for k in range(bulk)]
        val = [ctx.real(f"val{t}_{k}", 0) for k in range(bulk)]
        if bulk == 1 and t == 0:
            p = ctx.conc(pos[0])
            tree[int(p)] = val[0]
        else:
            tree[np.array(pos)] = np.array(val)
        for p, v in zip(pos, val):
            arr = [ctx.ite(p == i, v, a) for i, a in enumerate(arr)]
    ctx.eq(tree[np.arange(size)], arr, "stored values")
    ctx.eq(tree.reduce(), sum(arr), "total")
    for a in range(size):
        for b in range(a + 1, size + 1):
            ctx.eq(tree.reduce(a, b), sum(arr[a:b]), f"sum over [{a},{b})")
        ctx.eq(tree.reduce(a), sum(arr[a:]), f"sum from {a} to the end")
        if a + 1 < size:
            ctx.eq(tree.reduce(a, -1), sum(arr[a:-1]), f"sum over [{a},-1)")


@harness("P07", params=[dict(size=s) for s in (1, 2, 3, 4, 5)], thorough=[dict(size=s) for s in (6, 7, 8, 9)])
def tree_prefix(ctx, size):
    """prefix-sum search for arbitrary non-negative values"""
    from tianshou.data import SegmentTree
    np = ctx.np
    tree = SegmentTree(size)
    arr = [ctx.real(f"a{i}", 0) for i in range(size)]
    tree[np.arange(size)] = np.array(arr)
    q = [ctx.real("q0", 0), ctx.real("q1", 0)]
    for v in q:
        ctx.assume(v < sum(arr))
    got = tree.get_prefix_sum_idx(np.array(q))
    for k, v in enumerate(q):
        ctx.eq(got[k], ref_prefix(ctx, arr, v), f"query {k}: first index whose prefix sum reaches the value")
    ctx.eq(tree.get_prefix_sum_idx(q[0]), ref_prefix(ctx, arr, q[0]), "scalar query")
    ctx.eq(tree[np.arange(size)], arr, "queries leave the tree unchanged")


@harness("P07", params=[dict(size=3)], thorough=[dict(size=5)])
def tree_rejects(ctx, size):
    """positions outside the array and queries outside [0, total) are rejected"""
    from tianshou.data import SegmentTree
    np = ctx.np
    tree = SegmentTree(size)
    arr = [ctx.real(f"a{i}", 0) for i in range(size)]
    tree[np.arange(size)] = np.array(arr)
    p = ctx.int("p", -3, size + 3)
    v = ctx.real("v", 0)
    kind, _ = ctx.outcome(lambda: tree.__setitem__(np.array([p]), np.array([v])))
    inside = ctx.maybe(ctx.And(p >= 0, p < size))
    ctx.check((kind == "ok") == inside, "write accepted exactly inside the array")
    if not inside:
        ctx.eq(tree[np.arange(size)], arr, "a rejected write changes nothing")
        q = ctx.real("q")
        kind, _ = ctx.outcome(lambda: tree.get_prefix_sum_idx(np.array([q])))
        ctx.check((kind == "ok") == ctx.maybe(ctx.And(q >= 0, q < sum(arr))), "query accepted exactly inside [0,total)")


# ------------------------------------------------------------------ P08 prioritised replay
EPS = 2.0 ** -23          # float32 machine epsilon, the documented priority offset


def mk_prio(size, num, alpha, beta, **kw):
    from tianshou.data import PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer
    if num == 0:
        return PrioritizedReplayBuffer(size, alpha=alpha, beta=beta, **kw), [Log(size)]
    s = size // num
    return PrioritizedVectorReplayBuffer(size, num, alpha=alpha, beta=beta, **kw), [Log(s, k * s) for k in range(num)]


def add_step(ctx, buf, logs, t, num, ids=None):
    use = list(range(len(logs))) if ids is None else ids
    ds = [transition(ctx, f"{t}e{e}", flags=False) for e in use]
    if num == 0:
        out = buf.add(to_batch(ctx, ds[0]))
    else:
        out = buf.add(to_batch_n(ctx, ds), buffer_ids=use)
    return out[0], [logs[e].push(d) for e, d in zip(use, ds)]


@harness("P08", params=[dict(size=2, num=0, n=3, alpha=1.0), dict(size=3, num=0, n=2, alpha=2.0), dict(size=4, num=2, n=2, alpha=1.0)],
         thorough=[dict(size=4, num=0, n=6, alpha=2.0), dict(size=4, num=2, n=4, alpha=1.0)])
def prio_sampling(ctx, size, num, n, alpha):
    """adds interleaved with priority updates; then a sample driven by arbitrary uniform draws"""
    np = ctx.np
    buf, logs = mk_prio(size, num, alpha, 1.0)
    prio = {}                    # slot -> priority (before the exponent)
    maxp = 1.0
    for t in range(n):
        ids = None if num == 0 or t == 0 else [1]
        idx, slots = add_step(ctx, buf, logs, t, num, ids)
        ctx.eq(idx, slots, "slot written")
        for s in slots:
            prio[s] = maxp
        if t % 2 == 0:
            w = ctx.real(f"td{t}", -4, 4)
            buf.update_weight(np.array([slots[-1]]), np.array([w]))
            p = ctx.ite(w >= 0, w, -w) + EPS
            prio[slots[-1]] = p
            maxp = ctx.ite(p >= maxp, p, maxp)
    live = sorted(p for lg in logs for p, _ in lg.live())
    W = lambda p: p if alpha == 1.0 else p * p
    mass = [W(prio[s]) for s in live]
    total = sum(mass)
    ctx.eq(buf.weight.reduce(), total, "sampling mass is exactly that of the retained transitions")
    rows, idx = buf.sample(2)
    ctx.check(len(idx) == 2, "requested number of samples")
    for k in range(2):
        ctx.check(ctx.Or(*[idx[k] == s for s in live]), "sampled index is retained")
        for s, m in zip(live, mass):
            for j in range(2):
                d = next(x for lg in logs for q, x in lg.live() if q == s)
            ctx.implies(idx[k] == s, ctx.eqv(rows.obs[k], d["obs"]), "row belongs to its index")
    # a draw u selects the index whose interval of the cumulative mass contains u * total
    u = ctx.real("u", 0, 1, strict_hi=True)
    pos = buf.weight.get_prefix_sum_idx(np.array([u * total]))[0]
    cum = 0
    for s, m in zip(live, mass):
        cum2 = cum + m
        inside = ctx.And(u * total > cum, u * total <= cum2)
        ctx.implies(inside, pos == s, "an index is drawn with probability proportional to its priority")
        cum = cum2


@harness("P08", params=[dict(num=0, beta=1.0, norm=True), dict(num=0, beta=2.0, norm=True), dict(num=2, beta=1.0, norm=True), dict(num=0, beta=1.0, norm=False), dict(num=2, beta=1.0, norm=False), dict(num=0, beta=0.0, norm=True)])
def prio_is_weight(ctx, num, beta, norm):
    """importance weight of a row is proportional to (priority ** alpha) ** -beta, scaled to a maximum of 1 when normalised"""
    np = ctx.np
    buf, logs = mk_prio(4, num, 1.0, 0.5, weight_norm=norm)
    for t in range(2 if num == 0 else 1):
        add_step(ctx, buf, logs, t, num)
    buf.set_beta(beta)
    live = sorted(p for lg in logs for p, _ in lg.live())
    td = [ctx.real(f"td{i}", 0.25, 4) for i in range(len(live))]
    buf.update_weight(np.array(live), np.array(td))
    prio = [t + EPS for t in td]
    rows = buf[np.array(live)]
    B = lambda p: 1.0 if beta == 0 else (1 / p if beta == 1 else 1 / (p * p))
    w = [B(p) for p in prio]
    for i in range(len(live)):
        for j in range(i):
            ctx.check(rows.weight[i] * w[j] == rows.weight[j] * w[i], "weights are inversely related to priorities") if ctx.sym else \
                ctx.eq(rows.weight[i] * w[j], rows.weight[j] * w[i], "weights are inversely related to priorities")
    if norm:
        ctx.eq(np.max(rows.weight), 1.0, "largest weight in a normalised batch is 1")
    else:
        low = 1.0                                  # the smallest priority so far (new transitions start with 1)
        for x in prio:
            low = ctx.ite(x < low, x, low)
        for i in range(len(live)):
            ctx.eq(rows.weight[i] * (1 if beta == 0 else prio[i]), 1.0 if beta == 0 else low, f"row {i}: (priority / smallest priority) ** -beta", tol=1e-3)
    allr = buf[:]
    ctx.check(len(allr) == len(live), "buf[:] gives all retained transitions")
    ctx.eq(allr.weight, rows.weight, "with their weights", tol=1e-4)
    ctx.eq(allr.obs, rows.obs, "in order")


@harness("P08", params=[dict(num=0), dict(num=2)])
def prio_after_reset(ctx, num):
    """after a reset only data added since is sampled"""
    np = ctx.np
    buf, logs = mk_prio(4, num, 1.0, 1.0)
    for t in range(3 if num == 0 else 2):
        add_step(ctx, buf, logs, f"a{t}", num)
    buf.reset()
    for lg in logs:
        lg.reset(False)
    ctx.check(len(buf) == 0, "empty after reset")
    add_step(ctx, buf, logs, "b", num)
    live = sorted(p for lg in logs for p, _ in lg.live())
    idx = buf.sample_indices(2)
    for k in range(2):
        ctx.check(ctx.Or(*[idx[k] == s for s in live]), "sampled index is retained after reset")


@harness("P08", params=[dict(n=1), dict(n=3)])
def prio_update_from(ctx, n):
    """moving data into a prioritised buffer gives it the maximum priority"""
    from tianshou.data import PrioritizedReplayBuffer, ReplayBuffer
    src, log = ReplayBuffer(3), Log(3)
    for t in range(n):
        d = transition(ctx, t, flags=False)
        src.add(to_batch(ctx, d))
        log.push(d)
    dst = PrioritizedReplayBuffer(4, alpha=1.0, beta=1.0)
    ctx.check(len(dst.update(ReplayBuffer(2))) == 0, "updating from an empty buffer is a no-op")
    idx = dst.update(src)
    ctx.eq(idx, list(range(n)), "slots written")
    ctx.eq(dst.weight.reduce(), float(n), "mass")
    td = ctx.real("td", 0, 4)
    dst.update_weight(ctx.np.array([0]), ctx.np.array([td]))
    for k, (_, d) in enumerate(log.live()):
        ctx.eq(dst[k].obs, d["obs"], "moved data")


# ------------------------------------------------------------------ P09 hindsight replay
def her_reward(ag, g):
    """documented contract: (batch, goal) x2 -> (batch,)"""
    return -(((ag - g) ** 2).sum(axis=-1))


def her_add(ctx, buf, t, n_env, vec, last, ign):
    from tianshou.data import Batch
    np = ctx.np
    def ob(nm):
        return dict(observation=ctx.reals(f"{nm}o{t}", (n_env, 1)), achieved_goal=ctx.reals(f"{nm}a{t}", (n_env, 1)),
                    desired_goal=ctx.reals(f"{nm}g{t}", (n_env, 1)))
    obs, obsn = ob("c"), ob("n")
    rew = ctx.reals(f"r{t}", n_env)
    done = [last[e] for e in range(n_env)]
    b = Batch(obs=Batch(**obs), act=np.zeros((n_env, 1)), rew=rew, terminated=np.array(done), truncated=np.zeros(n_env, dtype=bool),
              obs_next=Batch(**obsn), info=Batch())
    buf.add(b if vec else b[0])
    return [dict(obs={k: v[e] for k, v in obs.items()}, obs_next={k: v[e] for k, v in obsn.items()}, rew=rew[e], done=done[e]) for e in range(n_env)]


@harness("P09", params=[dict(n=3, cap=4, ends=(2,), bs=2, ign=False), dict(n=4, cap=4, ends=(1,), bs=2, ign=False), dict(n=4, cap=4, ends=(1, 3), bs=2, ign=True), dict(n=5, cap=4, ends=(2, 4), bs=2, ign=True), dict(n=5, cap=4, ends=(1, 4), bs=2, ign=False)],
         thorough=[dict(n=6, cap=6, ends=(1, 4), bs=3, ign=False)], max_paths=20000)
def her_single(ctx, n, cap, ends, bs, ign):
    """sampled episodes are relabelled consistently with a goal achieved later in the same episode, and restored afterwards"""
    from tianshou.data import HERReplayBuffer
    np = ctx.np
    buf = HERReplayBuffer(cap, her_reward, horizon=3, future_k=2.0, ignore_obs_next=ign)
    log = Log(cap)
    for t in range(n):
        (d,) = her_add(ctx, buf, t, 1, False, [t in ends], ign)
        log.push(d)
    live = log.live()
    slots = [p for p, _ in live]
    row, idx = buf.sample(bs)
    ctx.check(len(idx) == bs, "requested number of samples")
    relabelled, episodes = [], set()
    for k in range(bs):
        i = int(ctx.conc(idx[k]))
        ctx.check(i in slots, "sampled index is retained")
        j = slots.index(i)
        d = live[j][1]
        # the rest of the episode
        fut = [j]
        while log.next(fut[-1]) != fut[-1]:
            fut.append(log.next(fut[-1]))
        fut = fut[:3]
        o = row.obs[k]
        ctx.eq(o.observation, d["obs"]["observation"], "observation itself is never altered")
        ctx.eq(o.achieved_goal, d["obs"]["achieved_goal"], "achieved goal is never altered")
        g = o.desired_goal
        goals = [(live[f][1]["obs_next"] if not ign else live[log.next(f)][1]["obs"])["achieved_goal"] for f in fut]
        same = ctx.And(ctx.eqv(g, d["obs"]["desired_goal"]), ctx.eqv(row.rew[k], d["rew"]))
        # relabelled: a later achieved goal, with the reward recomputed for it
        alts = [same]
        for gg in goals:
            nxt = d["obs_next"]["achieved_goal"] if not ign else live[log.next(j)][1]["obs"]["achieved_goal"]
            alts.append(ctx.And(ctx.eqv(g, gg), ctx.eqv(row.rew[k], her_reward(nxt, gg)), True if ign else ctx.eqv(row.obs_next[k].desired_goal, gg)))
        episodes.add(fut[-1])
        relabelled.append(ctx.Or(*alts[1:]))
        def last(q):
            while log.next(q) != q:
                q = log.next(q)
            return q
        for f, gg in zip(fut, goals) if len({last(q) for q in range(len(live))}) > 1 else []:
            others = [d["obs"]["desired_goal"], *[x for x in goals if x is not gg]]
            ctx.reach(ctx.And(ctx.eqv(g, gg), *[ctx.Not(ctx.eqv(g, x)) for x in others]), f"sample of step {j} relabelled with the goal achieved in step {f}")
        ctx.check(ctx.Or(*alts), "either untouched, or relabelled with a goal achieved later in the same episode and its reward")
    if len(episodes) == 2:
        ctx.check(ctx.Or(*relabelled), "with k=2, one of two sampled episodes is relabelled")
    # any later write restores the original data
    buf.sample_indices(-1)
    for p, d in live:
        r = buf[p]
        for f in ("observation", "achieved_goal", "desired_goal"):
            ctx.eq(r.obs[f], d["obs"][f], "stored data is restored before the next sampling")
        ctx.eq(r.rew, d["rew"], "stored reward is restored before the next sampling")


@harness("P09", params=[dict(n=2, num=2, bs=1)], thorough=[dict(n=3, num=2, bs=2)], max_paths=20000)
def her_vector(ctx, n, num, bs):
    """vector buffer: relabelling stays inside the sub-buffer, and adding restores the original data"""
    from tianshou.data import HERVectorReplayBuffer
    buf = HERVectorReplayBuffer(3 * num, num, compute_reward_fn=her_reward, horizon=3, future_k=2.0)
    logs = [Log(3, 3 * k) for k in range(num)]
    for t in range(n):
        for lg, d in zip(logs, her_add(ctx, buf, t, num, True, [t == n - 1, False], False)):
            lg.push(d)
    buf.sample_indices(bs)
    for lg, d in zip(logs, her_add(ctx, buf, n, num, True, [False, True], False)):
        lg.push(d)
    for lg in logs:
        for p, d in lg.live():
            r = buf[p]
            for f in ("observation", "achieved_goal", "desired_goal"):
                ctx.eq(r.obs[f], d["obs"][f], "stored data is intact after sampling and adding")
            ctx.eq(r.rew, d["rew"], "stored reward is intact after sampling and adding")


@harness("P09", params=[dict(n=3, m=2), dict(n=4, m=2)], thorough=[dict(n=4, m=3)], max_paths=20000)
def her_then_merge(ctx, n, m):
    """merging another buffer after sampling: the old data is restored first, the merged data arrives unaltered"""
    from tianshou.data import HERReplayBuffer
    cap = 4
    buf, src = HERReplayBuffer(cap, her_reward, horizon=3, future_k=2.0), HERReplayBuffer(cap, her_reward, horizon=3, future_k=2.0)
    log = Log(cap)
    for t in range(n):
        (d,) = her_add(ctx, buf, t, 1, False, [t in (1, n - 1)], False)
        log.push(d)
    for t in range(m):
        (d,) = her_add(ctx, src, f"s{t}", 1, False, [t == m - 1], False)
        log.push(d)
    buf.sample_indices(2)
    ix = buf.update(src)
    ctx.check(len(ix) == m, "everything is merged")
    for p, d in log.live():
        r = buf[p]
        for f in ("observation", "achieved_goal", "desired_goal"):
            ctx.eq(r.obs[f], d["obs"][f], f"slot {p}: {f} after sampling and merging")
            ctx.eq(r.obs_next[f], d["obs_next"][f], f"slot {p}: next {f} after sampling and merging")
        ctx.eq(r.rew, d["rew"], f"slot {p}: reward after sampling and merging")
