"""P27: posterior-sampling RL keeps exact posteriors and acts by value iteration on one sampled model."""
from symx.ctx import harness

S, A = 2, 2


def policy(ctx, eps=0.25, gamma=0.5, loop=False, prior=None):
    import gymnasium as gym
    from tianshou.policy import PSRLPolicy
    np = ctx.np
    if prior is None:
        prior = dict(trans=ctx.reals("tp", (S, A, S), 0.5, 3), mean=ctx.reals("rm", (S, A), -2, 2), std=ctx.reals("rs", (S, A), 0.5, 2))
    arrs = [np.array(prior[k]) for k in ("trans", "mean", "std")]
    pol = PSRLPolicy(trans_count_prior=arrs[0], rew_mean_prior=arrs[1], rew_std_prior=arrs[2], action_space=gym.spaces.Discrete(A),
                     discount_factor=gamma, epsilon=eps, add_done_loop=loop)
    return pol, prior, arrs


def rows(ctx, n, name=""):
    out = []
    for t in range(n):
        # earlier rewards are numbers: the variance stays a polynomial in one variable, which the solver decides
        last = t == n - 1
        out.append(dict(s=ctx.pick(f"{name}s{t}", [0, 1]) if last else 0, a=ctx.pick(f"{name}a{t}", [0, 1]) if last else 1, s2=ctx.pick(f"{name}n{t}", [0, 1]),
                        r=ctx.real(f"{name}r{t}", -3, 3) if last else [1.5, -1.5][t % 2], d=ctx.bool(f"{name}d{t}")))
    return out


def batch(ctx, rs):
    from tianshou.data import Batch
    np = ctx.np
    return Batch(obs=np.array([r["s"] for r in rs]), act=np.array([r["a"] for r in rs]), obs_next=np.array([r["s2"] for r in rs]),
                 rew=np.array([r["r"] for r in rs]), done=np.array([r["d"] for r in rs]), info=Batch())


@harness("P27", params=[dict(n=1, loop=True), dict(n=2, loop=False), dict(n=2, loop=True)], thorough=[dict(n=3, loop=True)], max_paths=1500, budget=60)
def posterior(ctx, n, loop):
    """counts, means and deviations after learning, in one update or several"""
    np = ctx.np
    ctx.fork_permutations = True
    eps = 1.0           # counts for which all divisions of numbers are exact
    # prior means and deviations are numbers (nonlinear otherwise); one pair of them is not zero
    m0 = ctx.pick("m0", [0.0, 3.0])
    prior = dict(trans=ctx.reals("tp", (S, A, S), 0.5, 3), mean=np.array([[m0, 0.0], [-1.5, m0]]), std=np.array([[1.0, 2.0], [0.5, 1.0]]))
    pol, prior, arrs = policy(ctx, eps, loop=loop, prior=prior)
    rs = rows(ctx, n)
    if n > 1 and ctx.pick("split", [False, True]):
        stats = None
        for r in rs:
            stats = pol.learn(batch(ctx, [r]))
    else:
        stats = pol.learn(batch(ctx, rs))
    m = pol.model
    tc, cnt, sm, sq = {}, {}, {}, {}
    for s in range(S):
        for a in range(A):
            cnt[s, a], sm[s, a], sq[s, a] = eps, eps * prior["mean"][s, a], eps * prior["mean"][s, a] * prior["mean"][s, a]
            for s2 in range(S):
                tc[s, a, s2] = prior["trans"][s, a, s2]
    for r in rs:
        k = (r["s"], r["a"])
        tc[(*k, r["s2"])] = tc[(*k, r["s2"])] + 1
        cnt[k], sm[k], sq[k] = cnt[k] + 1, sm[k] + r["r"], sq[k] + r["r"] * r["r"]
        if loop:
            done = ctx.maybe(r["d"])
            for a in range(A if done else 0):
                k = (r["s2"], a)
                tc[(*k, r["s2"])] = tc[(*k, r["s2"])] + 1
                cnt[k] = cnt[k] + 1
    tiny = float(np.finfo(np.float32).eps)
    means, stds = 0, 0
    for (s, a), c in cnt.items():
        for s2 in range(S):
            ctx.eq(m.trans_count[s, a, s2], tc[s, a, s2], "transition counts")
        ctx.eq(m.rew_count[s, a], c, "reward counts")
        mean = sm[s, a] / c
        ctx.eq(m.rew_mean[s, a], mean, "posterior mean")
        var = sq[s, a] / c - mean * mean
        sd = prior["std"][s, a]
        ctx.check(var >= -1e-9, "the empirical variance is not negative")
        got = m.rew_std[s, a]
        ctx.eq(got, np.sqrt(1 / (c / (var + tiny) + 1 / (sd * sd))), "posterior deviation", tol=2e-3)
        means, stds = means + mean, stds + got
    ctx.eq(stats.psrl_rew_mean, means / (S * A), "reported mean")
    ctx.eq(stats.psrl_rew_std, stds / (S * A), "reported deviation")
    for got, k in zip(arrs, ("trans", "mean", "std")):
        ctx.eq(got, prior[k], f"the given prior ({k}) is not modified")


@harness("P27", params=[dict()])
def schedule(ctx):
    """one model is sampled, from the posterior, at the first use after an update, and used until the next update"""
    from tianshou.data import Batch
    from harness.h_buffer import Log  # noqa: F401
    np = ctx.np
    pol, prior, _ = policy(ctx, prior=dict(trans=np.ones((S, A, S)), mean=np.zeros((S, A)), std=np.ones((S, A))))
    m = pol.model
    calls = []
    P = np.array([[[1.0, 0.0], [0.0, 1.0]], [[0.0, 1.0], [1.0, 0.0]]])
    R = [ctx.reals(f"R{i}", (S, A), 1, 2) for i in range(2)]
    best = [[ctx.int(f"b{i}_{s}", 0, A - 1) for s in range(S)] for i in range(2)]
    vals = [ctx.reals(f"V{i}", S) for i in range(2)]
    m.sample_trans_prob = lambda: (calls.append("trans"), P)[1]
    m.sample_reward = lambda: (calls.append("rew"), np.array(R[len(calls) // 3]))[1]

    def vi(trans_prob, rew, discount_factor, eps, value):
        k = len(calls) // 3
        calls.append("vi")
        ctx.check(trans_prob is P and discount_factor == 0.5 and eps == 0.25, "the sampled transitions and the settings")
        ctx.eq(rew, R[k], "the sampled rewards")
        ctx.eq(value, np.zeros(S) if k == 0 else np.array(vals[0]), "starts from the last values")
        return np.array(best[k]), np.array(vals[k])
    m.value_iteration = vi
    o = [ctx.int(f"o{i}", 0, S - 1) for i in range(3)]

    def act(i, k):
        out = pol(Batch(obs=np.array([o[i], 1]), info=Batch()))
        for r, s in enumerate((o[i], 1)):
            ctx.eq(out.act[r], ctx.ite(s == 0, best[k][0], best[k][1]), f"call {i}: action of the solved policy")
    ctx.check(not calls, "nothing is sampled before it is needed")
    act(0, 0)
    act(1, 0)
    ctx.check(calls == ["trans", "rew", "vi"], "sampled once")
    pol.learn(batch(ctx, [dict(s=0, a=1, s2=1, r=1.0, d=False)]))
    ctx.check(len(calls) == 3, "learning only marks the policy stale")
    act(2, 1)
    act(0, 1)
    ctx.check(calls == ["trans", "rew", "vi"] * 2, "a new model after the update")


@harness("P27", params=[dict(gamma=0.0), dict(gamma=0.5)], budget=60)
def value_iteration(ctx, gamma):
    """the values satisfy the optimality equation up to the precision, actions maximise them up to the random tie breaking"""
    from tianshou.policy.modelbased.psrl import PSRLModel
    np = ctx.np
    eps = 0.5
    p = np.array(ctx.pick("p", [[[1.0, 0.0], [0.0, 1.0]], [[0.5, 0.25], [0.75, 1.0]], [[0.0, 0.0], [1.0, 0.125]]]))
    P = np.array([[[p[s, a], 1 - p[s, a]] for a in range(A)] for s in range(S)])
    R = ctx.reals("R", (S, A), 1, 2)
    start = ctx.pick("start", [0.0, 2.0])
    r = np.array(R)
    ctx.draws("randn")
    pol, val = PSRLModel.value_iteration(P, r, gamma, eps, np.full(S, start))
    noise = ctx.draws("randn")
    ctx.check(len(noise) == S * A, "one tie-breaking draw per state and action")
    ctx.eq(r, R, "rewards unchanged")
    T = lambda v: [[R[s, a] + gamma * (p[s, a] * v[0] + (1 - p[s, a]) * v[1]) for a in range(A)] for s in range(S)]
    mx = lambda q: [ctx.ite(x[0] >= x[1], x[0], x[1]) for x in q]
    v, done = [start, start], False
    for k in range(8):              # plain value iteration until two sweeps agree
        q = T(v)
        new = mx(q)
        close = ctx.And(*[ctx.And(new[s] - v[s] <= 1e-8 + eps * v[s], v[s] - new[s] <= 1e-8 + eps * v[s]) for s in range(S)])
        v = new
        if ctx.maybe(close):
            done = True
            break
    ctx.check(done, "converged")
    for s in range(S):
        ctx.eq(val[s], v[s], f"value of state {s}", tol=1e-5)
        z = [q[s][a] + eps * noise[s * A + a] for a in range(A)]
        ctx.implies(z[0] > z[1], pol[s] == 0, f"state {s}: greedy")
        ctx.implies(z[1] > z[0], pol[s] == 1, f"state {s}: greedy")


@harness("P27", params=[dict()])
def sampling(ctx):
    """rewards are drawn around the posterior mean with the posterior deviation"""
    from tianshou.policy.modelbased.psrl import PSRLModel
    np = ctx.np
    mean, std = ctx.reals("m", (S, A)), ctx.reals("s", (S, A), 0.1, 3)
    m = PSRLModel(np.ones((S, A, S)), np.array(mean), np.array(std), 0.9, 0.01)
    ctx.draws("randn")
    got = m.sample_reward()
    z = ctx.draws("randn")
    ctx.check(got.shape == (S, A) and len(z) == S * A, "one independent draw per state and action")
    for i in range(S * A):
        ctx.eq(got[i // A, i % A], mean[i // A, i % A] + std[i // A, i % A] * z[i], "mean plus deviation times a standard normal draw")
