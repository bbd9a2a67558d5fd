"""P21, P22: value-based learning (DQN family): targets, losses, gradients, priorities."""
from harness.h_buffer import Log, make_vec, to_batch, transition, vec_add
from harness.h_returns import fill, slots
from harness.nets import Net, Optim, Table, ids
from symx.ctx import harness


def obs_ids(ctx, buf, total, A=None, branches=None):
    """make the stored observations recognisable (obs = slot, obs_next = total + slot) and the actions valid"""
    np = ctx.np
    buf._meta.obs[...] = np.arange(total)
    buf._meta.obs_next[...] = np.arange(total) + total
    if A is not None:
        a = ctx.ints("a", total, 0, A - 1)
        buf._meta.act[...] = np.array(a)
        return a
    return None


def nstep_end(ctx, lg, j, N, gamma):
    """(discounted reward sum, discount, slot of the last step used, its transition)"""
    lv = lg.live()
    acc, g, cur = 0.0, 1.0, j
    for s in range(N):
        acc = acc + g * lv[cur][1]["rew"]
        g = g * gamma
        if lv[cur][1]["done"] or cur == len(lv) - 1:
            break
        if s < N - 1:
            cur += 1
    return acc, g, lv[cur][0], lv[cur][1]


def untied(ctx, table, rows, A):
    for r in rows:
        for k in range(A):
            for l in range(k):
                d = table[r, k] - table[r, l]
                ctx.assume(ctx.Or(d > 0.0625, d < -0.0625))


def best(ctx, table, r, A, value):
    """value[k] for the greedy k of table[r]"""
    out = value[A - 1]
    for k in range(A - 2, -1, -1):
        out = ctx.ite(ctx.And(*[table[r, k] >= table[r, l] for l in range(A)]), value[k], out)
    return out


def mk_dqn(ctx, new, old, A, cls=None, optim=None, **kw):
    import gymnasium as gym
    from tianshou.policy import DQNPolicy
    net = Table(ctx, new)
    opt = optim or Optim(ctx, net.table)
    pol = (cls or DQNPolicy)(model=net, optim=opt, action_space=gym.spaces.Discrete(A), target_update_freq=2 if old is not None else 0, **kw)
    if old is not None:
        pol.model_old = Table(ctx, old)
        pol.model_old.eval()
        pol._iter = 1         # no synchronisation in the next step
    return pol, net, opt


@harness("P21", params=[dict(sizes=(3,), n=3, N=1, A=2), dict(sizes=(3,), n=3, N=2, A=2), dict(sizes=(2, 2), n=2, N=2, A=2), dict(sizes=(2,), n=2, N=1, A=3)],
         thorough=[dict(sizes=(3,), n=5, N=3, A=2), dict(sizes=(3, 2), n=3, N=2, A=3)])
def dqn_target(ctx, sizes, n, N, A):
    """n-step (double) Q-learning targets over a real buffer"""
    from tianshou.policy import DQNPolicy
    np = ctx.np
    buf, logs = fill(ctx, sizes, n)
    total = sum(sizes)
    obs_ids(ctx, buf, total, A)
    new, old = ctx.reals("new", (2 * total, A)), ctx.reals("old", (2 * total, A))
    tgt, dbl = ctx.pick("target", [True, False]), ctx.pick("double", [True, False])
    gamma = ctx.real("gamma", 0, 1)
    pol, net, opt = mk_dqn(ctx, new, old if tgt else None, A, is_double=dbl, discount_factor=1.0, estimation_step=N)
    pol.gamma = gamma
    rows = slots(logs)
    untied(ctx, new, [total + p for _, _, p, _ in rows], A)
    batch, idx = buf.sample(0)
    out = pol.process_fn(batch, buf, idx)
    val = old if tgt else new
    for r, (lg, j, p, d) in enumerate(rows):
        acc, g, lp, ld = nstep_end(ctx, lg, j, N, gamma)
        q = [val[total + lp, k] for k in range(A)]
        b = best(ctx, new, total + lp, A, q) if dbl else best(ctx, val, total + lp, A, q)
        ctx.eq(out.returns[r].reshape(-1), [acc + g * ctx.ite(ld["terminated"], 0.0, b)], f"row {r}: target", tol=1e-3)
    ctx.check(not out.returns.requires_grad, "targets carry no gradient")
    ctx.check(len(opt.grads) == 0, "no optimisation while preprocessing")


@harness("P21", params=[dict(n=1, A=2), dict(n=2, A=2)], thorough=[dict(n=3, A=3)])
def dqn_learn(ctx, n, A):
    """loss, gradient, TD errors and the order of optimiser calls"""
    from tianshou.data import Batch
    np, torch = ctx.np, ctx.torch
    q = ctx.reals("q", (n + 1, A))
    huber = ctx.pick("clip_loss_grad", [False, True])
    weighted = ctx.pick("weighted", [True, False])
    tgt = ctx.pick("target", [True, False])
    pol, net, opt = mk_dqn(ctx, q, ctx.reals("old", (n + 1, A)) if tgt else None, A, clip_loss_grad=huber)
    a = ctx.ints("a", n, 0, A - 1)
    ret = ctx.reals("ret", n)
    w = ctx.reals("w", n, 0, 2)
    form = ctx.pick("form", [0, 1])      # with or without a trailing dimension
    b = Batch(obs=np.arange(n), act=np.array(a), info=Batch(), returns=ctx.tensor(ret) if not form else ctx.tensor(ret).reshape(n, 1))
    if weighted:
        b.weight = ctx.tensor(w)
    # gradients left over from elsewhere must not be used
    (net.table.sum() * 3).backward()
    it = pol._iter
    stats = pol.learn(b)
    qa = [best_of(ctx, q, i, a[i], A) for i in range(n)]
    td = [ret[i] - qa[i] for i in range(n)]
    wt = [w[i] if weighted else 1.0 for i in range(n)]
    if huber:
        hub = lambda x: ctx.ite(ctx.And(x <= 1, x >= -1), x * x / 2, ctx.ite(x > 0, x, -x) - 0.5)
        loss = sum(hub(t) for t in td) / n
        g = [-ctx.ite(t > 1, 1.0, ctx.ite(t < -1, -1.0, t)) / n for t in td]
    else:
        loss = sum(t * t * ww for t, ww in zip(td, wt)) / n
        g = [-2 * t * ww / n for t, ww in zip(td, wt)]
    ctx.eq(stats.loss, loss, "reported loss", tol=1e-2)
    ctx.eq(b.weight, td, "TD errors become the priorities", tol=1e-2)
    ctx.check(opt.steps == 1, "exactly one optimiser step")
    G = opt.grads[0][0]
    for i in range(n):
        for k in range(A):
            ctx.eq_grad(G[i, k], ctx.ite(a[i] == k, g[i], 0.0), f"gradient of q[{i},{k}]", tol=1e-2)
    for k in range(A):
        ctx.eq(G[n, k], 0.0, "no gradient for other inputs")
    ctx.check(pol._iter == it + 1, "iteration counted")


def best_of(ctx, table, i, a, A):
    out = table[i, A - 1]
    for k in range(A - 1):
        out = ctx.ite(a == k, table[i, k], out)
    return out


@harness("P21", params=[dict(n=2)], thorough=[dict(n=3)])
def dqn_update(ctx, n):
    """the whole update on a prioritized buffer: every sampled row is learned and its priority becomes |TD error|"""
    import gymnasium as gym
    from tianshou.data import PrioritizedReplayBuffer
    from tianshou.policy import DQNPolicy
    from tianshou.policy.base import policy_within_training_step
    np = ctx.np
    A = 2
    buf = PrioritizedReplayBuffer(n, alpha=1.0, beta=0.0)
    log = Log(n)
    for t in range(n):
        d = transition(ctx, t, flags="one")
        buf.add(to_batch(ctx, d))
        log.add(ctx, d)
    a = obs_ids(ctx, buf, n, A)
    q = ctx.reals("q", (2 * n, A), -8, 8)
    untied(ctx, q, range(n, 2 * n), A)
    pol, net, opt = mk_dqn(ctx, q, None, A, discount_factor=0.5)
    with policy_within_training_step(pol):
        pol.update(0, buf)
    tds = []
    for i, (p, d) in enumerate(log.live()):
        b = best(ctx, q, n + p, A, [q[n + p, k] for k in range(A)])
        tds.append(d["rew"] + 0.5 * ctx.ite(d["terminated"], 0.0, b) - best_of(ctx, q, p, a[p], A))
    eps = np.finfo(np.float32).eps.item()
    ab = lambda x: ctx.ite(x > 0, x, -x)
    for i, (p, d) in enumerate(log.live()):
        ctx.eq(buf.weight[p], ab(tds[i]) + eps, f"priority of slot {p}", tol=1e-2)
    ctx.check(opt.steps == 1, "one optimiser step")
    ctx.check(pol.updating is False, "flag reset after the update")
    ctx.raises(RuntimeError, lambda: pol.update(0, buf), "updating outside of a training step is rejected")


class Branch(Table):
    """(branches x actions) values per input"""

    def __init__(self, ctx, table, branches, actions):
        super().__init__(ctx, table)
        self.num_branches, self.action_per_branch = branches, actions


def mk_bdq(ctx, new, old, B, A, **kw):
    import gymnasium as gym
    from tianshou.policy import BranchingDQNPolicy
    net = Branch(ctx, new, B, A)
    opt = Optim(ctx, net.table)
    pol = BranchingDQNPolicy(model=net, optim=opt, action_space=gym.spaces.Discrete(A), target_update_freq=2 if old is not None else 0, **kw)
    if old is not None:
        pol.model_old = Branch(ctx, old, B, A)
        pol._iter = 1
    return pol, net, opt


@harness("P21", params=[dict(n=2, B=2, A=2), dict(n=1, B=2, A=2)], thorough=[dict(n=3, B=2, A=3)])
def bdq_target(ctx, n, B, A):
    """branching DQN: the mean over the branches of the next (double) Q values, the same target for every branch and action"""
    np = ctx.np
    buf, logs = fill(ctx, (n,), n, flags="one")
    obs_ids(ctx, buf, n)
    buf._meta.__dict__["act"] = np.array(ctx.ints("a", (n, B), 0, A - 1))
    new, old = ctx.reals("new", (2 * n, B, A)), ctx.reals("old", (2 * n, B, A))
    for r in range(n, 2 * n):
        untied(ctx, new[r], range(B), A)
        untied(ctx, old[r], range(B), A)
    tgt, dbl = ctx.pick("target", [True, False]), ctx.pick("double", [True, False])
    gamma = ctx.real("gamma", 0, 1)
    pol, net, opt = mk_bdq(ctx, new, old if tgt else None, B, A, is_double=dbl, discount_factor=1.0)
    pol.gamma = gamma
    batch, idx = buf.sample(0)
    out = pol.process_fn(batch, buf, idx)
    val = old if tgt else new
    ctx.check(tuple(out.returns.shape) == (n, B, A), "a target per row, branch and action")
    for r, (lg, j, p, d) in enumerate(slots(logs)):
        qs = [best(ctx, (new if dbl else val)[n + p], br, A, [val[n + p, br, k] for k in range(A)]) for br in range(B)]
        stop = d["done"] or j == n - 1
        exp = d["rew"] + (0.0 if stop else gamma * sum(qs) / B)
        ctx.eq(out.returns[r].reshape(-1), [exp] * (A * B), f"row {r}: target", tol=1e-3)
    ctx.check(not out.returns.requires_grad, "targets carry no gradient")


@harness("P21", params=[dict(n=2, B=2, A=2), dict(n=1, B=2, A=2)], thorough=[dict(n=3, B=2, A=3)])
def bdq_learn(ctx, n, B, A):
    """branching DQN: squared errors of the taken actions averaged over branches"""
    from tianshou.data import Batch
    np = ctx.np
    q = ctx.reals("q", (n, B, A))
    pol, net, opt = mk_bdq(ctx, q, None, B, A)
    a = ctx.ints("a", (n, B), 0, A - 1)
    a = np.array([[int(ctx.conc(a[i, br])) for br in range(B)] for i in range(n)])
    ret, w = ctx.reals("ret", n), ctx.reals("w", n, 0, 2)
    rt = ctx.tensor(np.array([[[ret[i]] * A] * B for i in range(n)]))
    b = Batch(obs=np.arange(n), act=np.array(a), info=Batch(), returns=rt)
    weighted = ctx.pick("weighted", [True, False])
    if weighted:
        b.weight = ctx.tensor(w)
    stats = pol.learn(b)
    td = [[ret[i] - best_of(ctx, q[i], br, a[i, br], A) for br in range(B)] for i in range(n)]
    wt = [w[i] if weighted else 1.0 for i in range(n)]
    ctx.eq(stats.loss, sum(sum(t * t for t in td[i]) / B * wt[i] for i in range(n)) / n, "reported loss", tol=1e-2)
    ctx.eq(b.weight, [sum(td[i]) for i in range(n)], "TD errors", tol=1e-2)
    G = opt.grads[0][0]
    for i in range(n):
        for br in range(B):
            for k in range(A):
                ctx.eq_grad(G[i, br, k], ctx.ite(a[i, br] == k, -2 * td[i][br] * wt[i] / n / B, 0.0), f"gradient of q[{i},{br},{k}]", tol=1e-2)


@harness("P20", params=[dict(n=2, B=2, A=2)], thorough=[dict(n=2, B=2, A=3)])
def bdq_explore(ctx, n, B, A):
    """branching DQN: greedy per branch; exploration replaces whole action vectors by valid ones"""
    np = ctx.np
    q = ctx.reals("q", (n, B, A))
    from tianshou.data import Batch
    pol, net, opt = mk_bdq(ctx, q, None, B, A)
    b = Batch(obs=np.arange(n), info=Batch())
    act = pol(b).act
    g = [[act[i, k] for k in range(B)] for i in range(n)]
    for i in range(n):
        for br in range(B):
            for k in range(A):
                for l in range(A):
                    ctx.implies(act[i, br] == k, q[i, br, k] >= q[i, br, l] - (0 if ctx.sym else 1e-4), "greedy per branch")
    eps = ctx.pick("eps", [0.0, 0.5, 1.0])
    pol.set_eps(eps)
    out = pol.exploration_noise(act, b)
    for i in range(n):
        for br in range(B):
            ctx.check(ctx.And(out[i, br] >= 0, out[i, br] < A), "a valid action")
            if eps == 0:
                ctx.eq(out[i, br], g[i][br], "no exploration for eps = 0")
            else:
                for k in range(A):
                    ctx.reach(ctx.And(out[i, br] == k, g[i][br] != k), f"eps={eps} row {i} branch {br}: {k} explored")


# ------------------------------------------------------------------ P22 distributional
def probs(ctx, name, rows, A, K):
    """strictly positive categorical distributions"""
    t = ctx.reals(name, (rows, A, K), 0.0625, 0.9375)
    for i in range(rows):
        for k in range(A):
            ctx.assume(sum(t[i, k, j] for j in range(K)) == 1) if ctx.sym else None
    return t


def hat(ctx, x, z, dz):
    d = ctx.ite(x > z, x - z, z - x) / dz
    return ctx.ite(d < 1, 1 - d, 0.0)


def clamp(ctx, x, lo, hi):
    return ctx.ite(x < lo, lo, ctx.ite(x > hi, hi, x))


def mk_c51(ctx, new, old, A, K, cls=None, **kw):
    from tianshou.policy import C51Policy
    return mk_dqn(ctx, new, old, A, cls=cls or C51Policy, num_atoms=K, v_min=-1.0, v_max=1.0, **kw)


@harness("P22", params=[dict(n=1, A=2, K=3), dict(n=2, A=2, K=2), dict(n=2, A=2, K=2, N=2)], thorough=[dict(n=2, A=2, K=3), dict(n=3, A=2, K=4)], max_paths=6000)
def c51_project(ctx, n, A, K, N=1):
    """the categorical target: each atom of the next state's distribution is moved to reward + gamma z, clipped, and split between its neighbours"""
    from tianshou.data import Batch
    np = ctx.np
    buf, logs = fill(ctx, (n,), n, flags="one")
    acts = obs_ids(ctx, buf, n, A)
    new, old = probs(ctx, "new", 2 * n, A, K), probs(ctx, "old", 2 * n, A, K)
    tgt = ctx.pick("target", [True, False])
    pol, net, opt = mk_c51(ctx, new, old if tgt else None, A, K, discount_factor=0.5, estimation_step=N)
    z = [-1.0 + 2.0 * k / (K - 1) for k in range(K)]
    dz = 2.0 / (K - 1)
    mean = ctx.np.array([[sum(new[i, k, j] * z[j] for j in range(K)) for k in range(A)] for i in range(2 * n)])
    untied(ctx, mean, range(n, 2 * n), A)
    batch, idx = buf.sample(0)
    out = pol.process_fn(batch, buf, idx)
    dist = pol._target_dist(out)
    val = old if tgt else new
    for r, (lg, j, p, d) in enumerate(slots(logs)):
        acc, g, lp, ld = nstep_end(ctx, lg, j, N, 0.5)
        tz = [clamp(ctx, acc + g * ctx.ite(ld["terminated"], 0.0, z[q]), -1.0, 1.0) for q in range(K)]
        nd = [best(ctx, mean, n + lp, A, [val[n + lp, k, q] for k in range(A)]) for q in range(K)]
        for i in range(K):
            ctx.eq(dist[r, i], sum(hat(ctx, tz[q], z[i], dz) * nd[q] for q in range(K)), f"row {r}: mass of atom {i}", tol=1e-2)


@harness("P22", params=[dict(n=1, A=2, K=3), dict(n=2, A=2, K=2)], thorough=[dict(n=2, A=2, K=3)])
def c51_learn(ctx, n, A, K):
    """cross entropy between the target distribution and the distribution of the action taken"""
    from tianshou.data import Batch
    np = ctx.np
    cur, old = probs(ctx, "cur", 2 * n, A, K), probs(ctx, "old", 2 * n, A, K)
    pol, net, opt = mk_c51(ctx, cur, old, A, K)
    z = [-1.0 + 2.0 * k / (K - 1) for k in range(K)]
    mean = ctx.np.array([[sum(cur[i, k, j] * z[j] for j in range(K)) for k in range(A)] for i in range(2 * n)])
    untied(ctx, mean, range(n, 2 * n), A)
    a = ctx.ints("a", n, 0, A - 1)
    a = [int(ctx.conc(a[i])) for i in range(n)]
    ret, w = ctx.reals("ret", (n, K), -2, 2), ctx.reals("w", n, 0, 2)
    b = Batch(obs=np.arange(n), obs_next=np.arange(n) + n, act=np.array(a), info=Batch(), returns=ctx.tensor(ret))
    weighted = ctx.pick("weighted", [True, False])
    if weighted:
        b.weight = ctx.tensor(w)
    want = pol._target_dist(b)
    want = [[want[i, k] for k in range(K)] for i in range(n)]
    stats = pol.learn(b)
    ce = [-sum(want[i][k] * ctx.np.log(ctx.np.array(cur[i, a[i], k] + 1e-8)) for k in range(K)) for i in range(n)]
    wt = [w[i] if weighted else 1.0 for i in range(n)]
    ctx.eq(stats.loss, sum(c * x for c, x in zip(ce, wt)) / n, "reported loss", tol=1e-2)
    ctx.eq(b.weight, ce, "the cross entropies become the priorities", tol=1e-2)
    G = opt.grads[0][0]
    for i in range(n):
        for m in range(A):
            for k in range(K):
                ctx.eq_grad(G[i, m, k], -wt[i] * want[i][k] / (cur[i, m, k] + 1e-8) / n if m == a[i] else 0.0, f"gradient of p[{i},{m},{k}]", tol=1e-2)
    for i in range(n, 2 * n):
        ctx.eq(G[i].flatten(), [0.0] * (A * K), "no gradient through the target")


@harness("P22", params=[dict(n=2, A=2, K=2)], thorough=[dict(n=3, A=2, K=3)])
def c51_act(ctx, n, A, K):
    """actions are greedy in the mean of the distribution; masks are respected"""
    from harness.h_policy import masks, obs_batch
    p = probs(ctx, "p", n, A, K)
    kind = ctx.pick("kind", ["c51", "qr"])
    if kind == "c51":
        pol, *_ = mk_c51(ctx, p, None, A, K)
        val = [[sum(p[i, k, j] * (-1.0 + 2.0 * j / (K - 1)) for j in range(K)) for k in range(A)] for i in range(n)]
    else:
        pol, *_ = mk_qr(ctx, p, None, A, K)
        val = [[sum(p[i, k, j] for j in range(K)) / K for k in range(A)] for i in range(n)]
    m = masks(ctx, n, A)
    out = pol(obs_batch(ctx, n, mask=ctx.np.array(m)))
    for i in range(n):
        for k in range(A):
            ctx.implies(out.act[i] == k, m[i, k], "the chosen action is legal")
            for l in range(A):
                ctx.implies(ctx.And(out.act[i] == k, m[i, l]), val[i][k] >= val[i][l] - (0 if ctx.sym else 1e-4), "the best legal one")
    ctx.eq(out.logits, p, "distribution as given by the network")


def mk_qr(ctx, new, old, A, K, **kw):
    from tianshou.policy import QRDQNPolicy
    return mk_dqn(ctx, new, old, A, cls=QRDQNPolicy, num_quantiles=K, **kw)


class TauNet(Table):
    """implicit quantiles: values and fractions per input, the requested number of samples being recorded"""

    def __init__(self, ctx, table, taus):
        super().__init__(ctx, table)
        self.taus = taus
        self.sizes = []

    def forward(self, obs, sample_size, state=None, info=None):
        ix = ids(self.ctx, obs)
        self.sizes.append(sample_size)
        return (self.table[ix][:, :, :sample_size], self.taus[ix][:, :sample_size]), state


def mk_iqn(ctx, new, old, taus, A, K, cls=None, **kw):
    import gymnasium as gym
    from tianshou.policy import IQNPolicy
    net = TauNet(ctx, new, taus)
    opt = Optim(ctx, net.table)
    pol = IQNPolicy(model=net, optim=opt, action_space=gym.spaces.Discrete(A), sample_size=4, online_sample_size=K, target_sample_size=3, num_quantiles=K,
                    target_update_freq=2 if old is not None else 0, **kw)
    if old is not None:
        pol.model_old = TauNet(ctx, old, taus)
        pol._iter = 1
    return pol, net, opt


@harness("P22", params=[dict(n=2, A=2, K=2, N=1), dict(n=2, A=2, K=2, N=2)], thorough=[dict(n=3, A=2, K=3, N=2)])
def quantile_target(ctx, n, A, K, N):
    """quantile regression targets: reward + gamma times each quantile of the greedy next action"""
    np = ctx.np
    buf, logs = fill(ctx, (n,), n, flags="one")
    obs_ids(ctx, buf, n, A)
    tgt = ctx.pick("target", [True, False])
    kind = ctx.pick("kind", ["qr", "iqn"])
    if kind == "qr":
        new, old = ctx.reals("new", (2 * n, A, K)), ctx.reals("old", (2 * n, A, K))
        pol, net, opt = mk_qr(ctx, new, old if tgt else None, A, K, discount_factor=0.5, estimation_step=N)
        kn, kt = K, K
    else:
        new, old = ctx.reals("new", (2 * n, A, 4)), ctx.reals("old", (2 * n, A, 4))
        pol, net, opt = mk_iqn(ctx, new, old if tgt else None, ctx.treals("tau", (2 * n, 4), 0, 1), A, K, discount_factor=0.5, estimation_step=N)
        pol.train()
        kn, kt = K, 3 if tgt else K
    mean = np.array([[sum(new[i, k, j] for j in range(kn)) / kn for k in range(A)] for i in range(2 * n)])
    untied(ctx, mean, range(n, 2 * n), A)
    batch, idx = buf.sample(0)
    out = pol.process_fn(batch, buf, idx)
    val = old if tgt else new
    for r, (lg, j, p, d) in enumerate(slots(logs)):
        acc, g, lp, ld = nstep_end(ctx, lg, j, N, 0.5)
        exp = [acc + g * ctx.ite(ld["terminated"], 0.0, best(ctx, mean, n + lp, A, [val[n + lp, k, q] for k in range(A)])) for q in range(kt)]
        ctx.eq(out.returns[r], exp, f"row {r}: target quantiles", tol=1e-3)
    ctx.check(not out.returns.requires_grad, "targets carry no gradient")


def quantile_ref(ctx, theta, target, tau):
    """quantile Huber loss of one row: mean over the quantiles of the sum over the targets -> (loss, gradient, mean |huber|)"""
    K, M = len(theta), len(target)
    loss, grads, prio = 0.0, [], 0.0
    for i in range(K):
        g = 0.0
        for j in range(M):
            u = target[j] - theta[i]
            h = ctx.ite(ctx.And(u < 1, u > -1), u * u / 2, ctx.ite(u > 0, u, -u) - 0.5)
            dh = ctx.ite(u >= 1, 1.0, ctx.ite(u <= -1, -1.0, u))
            w = ctx.ite(u <= 0, 1 - tau[i], tau[i])
            loss, g, prio = loss + h * w / K, g - dh * w / K, prio + h / K
        grads.append(g)
    return loss, grads, prio


@harness("P22", params=[dict(n=1, A=2, K=2, M=1), dict(n=1, A=2, K=2, M=2), dict(n=2, A=2, K=2, M=2)], thorough=[dict(n=1, A=2, K=3, M=2), dict(n=2, A=2, K=2, M=3)], budget=70)
def quantile_learn(ctx, n, A, K, M):
    """quantile Huber regression (fixed and sampled fractions): loss, gradient and priorities"""
    from tianshou.data import Batch
    np = ctx.np
    kind = ctx.pick("kind", ["qr", "iqn"])
    q = ctx.reals("q", (n, A, K))
    if kind == "qr":
        pol, net, opt = mk_qr(ctx, q, None, A, K)
        tau = [[(2 * k + 1) / (2 * K) for k in range(K)] for _ in range(n)]
    else:
        t = ctx.reals("tau", (n, K), 0, 1)
        pol, net, opt = mk_iqn(ctx, q, None, ctx.tensor(t), A, K)
        pol.train()
        tau = [[t[i, k] for k in range(K)] for i in range(n)]
    a = ctx.ints("a", n, 0, A - 1)
    a = [int(ctx.conc(a[i])) for i in range(n)]
    ret, w = ctx.reals("ret", (n, M)), ctx.reals("w", n, 0, 2)
    b = Batch(obs=np.arange(n), act=np.array(a), info=Batch(), returns=ctx.tensor(ret))
    weighted = ctx.pick("weighted", [True, False])
    if weighted:
        b.weight = ctx.tensor(w)
    stats = pol.learn(b)
    ref = [quantile_ref(ctx, [q[i, a[i], k] for k in range(K)], [ret[i, m] for m in range(M)], tau[i]) for i in range(n)]
    wt = [w[i] if weighted else 1.0 for i in range(n)]
    ctx.eq(stats.loss, sum(ref[i][0] * wt[i] for i in range(n)) / n, "reported loss", tol=1e-2)
    ctx.eq(b.weight, [ref[i][2] for i in range(n)], "priorities", tol=1e-2)
    G = opt.grads[0][0]
    for i in range(n):
        for m in range(A):
            for k in range(K):
                ctx.eq_grad(G[i, m, k], ref[i][1][k] * wt[i] / n if m == a[i] else 0.0, f"gradient of q[{i},{m},{k}]", tol=1e-2)
    ctx.check(opt.steps == 1, "one optimiser step")


class FracNet(Net):
    def __init__(self, ctx, table, qtau):
        super().__init__(ctx)
        self.table, self.qtau = ctx.param(table), ctx.tensor(qtau)
        self.given = []

    def forward(self, obs, propose_model=None, fractions=None, state=None, info=None):
        ix = ids(self.ctx, obs)
        self.given.append(fractions)
        if fractions is None:
            fractions = propose_model(ix)
        return (self.table[ix], fractions, self.qtau[ix]), state


class Proposal(Net):
    """fractions per input: taus (with 0 and 1 at the ends), their midpoints and the entropies"""

    def __init__(self, ctx, inner, ent):
        super().__init__(ctx)
        self.inner, self.ent = ctx.param(inner), ctx.param(ent)

    def forward(self, ix):
        from tianshou.data import Batch
        t = self.ctx.torch
        x = self.inner[ix]
        taus = t.cat([t.zeros(len(x), 1), x, t.ones(len(x), 1)], dim=1)
        return Batch(taus=taus, tau_hats=((taus[:, 1:] + taus[:, :-1]) / 2).detach(), entropies=self.ent[ix])


@harness("P22", params=[dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def fqf_learn(ctx, n):
    """fully parameterised quantiles: value loss over midpoints, fraction gradient 2Z(tau_i) - Z(mid_i) - Z(mid_{i-1}), entropy bonus"""
    import gymnasium as gym
    from tianshou.data import Batch
    from tianshou.policy import FQFPolicy
    np = ctx.np
    A, K = 2, 2
    q, qt = ctx.reals("q", (n, A, K)), ctx.reals("qt", (n, A, K - 1))
    inner, ent = ctx.reals("tau", (n, K - 1), 0.125, 0.875), ctx.reals("ent", n, 0, 1)
    net, prop = FracNet(ctx, q, qt), Proposal(ctx, inner, ent)
    opt, fopt = Optim(ctx, net.table), Optim(ctx, prop.inner, prop.ent)
    pol = FQFPolicy(model=net, optim=opt, fraction_model=prop, fraction_optim=fopt, action_space=gym.spaces.Discrete(A), num_fractions=K, ent_coef=0.25)
    a = ctx.ints("a", n, 0, A - 1)
    a = [int(ctx.conc(a[i])) for i in range(n)]
    ret, w = ctx.reals("ret", (n, K)), ctx.reals("w", n, 0, 2)
    b = Batch(obs=np.arange(n), act=np.array(a), info=Batch(), returns=ctx.tensor(ret), weight=ctx.tensor(w))
    stats = pol.learn(b)
    taus = [[0.0, inner[i, 0], 1.0] for i in range(n)]
    ref = [quantile_ref(ctx, [q[i, a[i], k] for k in range(K)], [ret[i, m] for m in range(K)], [(taus[i][k] + taus[i][k + 1]) / 2 for k in range(K)]) for i in range(n)]
    ctx.eq(stats.quantile_loss, sum(ref[i][0] * w[i] for i in range(n)) / n, "reported quantile loss", tol=1e-2)
    ctx.eq(b.weight, [ref[i][2] for i in range(n)], "priorities", tol=1e-2)
    ctx.check(opt.steps == 1 and fopt.steps == 1, "one step per optimiser")
    G, (F, E) = opt.grads[0][0], fopt.grads[0]
    for i in range(n):
        for m in range(A):
            for k in range(K):
                ctx.eq_grad(G[i, m, k], ref[i][1][k] * w[i] / n if m == a[i] else 0.0, f"gradient of q[{i},{m},{k}]", tol=1e-2)
        x, y = qt[i, a[i], 0] - q[i, a[i], 0], q[i, a[i], 1] - qt[i, a[i], 0]
        ctx.eq_grad(F[i, 0], (ctx.ite(x > 0, x, -x) - ctx.ite(y > 0, y, -y)) / n, f"gradient of fraction {i}", tol=1e-2)
        ctx.eq_grad(E[i], -0.25 / n, "gradient of the entropy", tol=1e-2)
    ctx.eq(stats.entropy_loss, sum(ent[i] for i in range(n)) / n, "reported entropy", tol=1e-2)


@harness("P22", params=[dict(n=1, K=3), dict(n=2, K=3)], thorough=[dict(n=2, K=4)])
def fqf_fractions(ctx, n, K):
    """several fractions: each follows 2 Z(tau_i) - Z(mid_i) - Z(mid_{i-1}) of its own row's chosen action"""
    import gymnasium as gym
    from tianshou.data import Batch
    from tianshou.policy import FQFPolicy
    np = ctx.np
    A = 2
    a = [ctx.pick(f"a{i}", [0, 1]) for i in range(n)]
    q, qt = np.array(np.arange(n * A * K).reshape(n, A, K) * 1.0, dtype=object), np.array(np.arange(n * A * (K - 1)).reshape(n, A, K - 1) * 1.0, dtype=object)
    for i in range(n):          # increasing quantile function of the chosen action
        z = [ctx.real(f"z{i}_{k}", -4, 4) for k in range(2 * K - 1)]
        for x, y in zip(z, z[1:]):
            ctx.assume(x + 0.0625 <= y)
        for k in range(K):
            q[i, a[i], k] = z[2 * k]
        for k in range(K - 1):
            qt[i, a[i], k] = z[2 * k + 1]
    inner = np.array([[ctx.real(f"tau{i}_{k}", (k + 0.25) / K, (k + 1) / K) for k in range(K - 1)] for i in range(n)])
    net, prop = FracNet(ctx, np.array(q.tolist()), np.array(qt.tolist())), Proposal(ctx, inner, [0.5] * n)
    fopt = Optim(ctx, prop.inner, prop.ent)
    pol = FQFPolicy(model=net, optim=Optim(ctx, net.table), fraction_model=prop, fraction_optim=fopt, action_space=gym.spaces.Discrete(A), num_fractions=K, ent_coef=0.25)
    stats = pol.learn(Batch(obs=np.arange(n), act=np.array(a), info=Batch(), returns=ctx.tensor(np.zeros((n, K)))))
    F, loss = fopt.grads[0][0], 0
    for i in range(n):
        for k in range(K - 1):
            g = 2 * qt[i, a[i], k] - q[i, a[i], k] - q[i, a[i], k + 1]
            ctx.eq_grad(F[i, k], g / n, f"row {i}: gradient of fraction {k}", tol=1e-2)
            loss = loss + g * inner[i, k]
    ctx.eq(stats.fraction_loss, loss / n, "reported fraction loss", tol=1e-2)


@harness("P22", params=[dict(n=2)])
def fqf_target(ctx, n):
    """targets use the fractions proposed for the online network and its greedy action"""
    import gymnasium as gym
    from tianshou.policy import FQFPolicy
    np = ctx.np
    A, K = 2, 2
    buf, logs = fill(ctx, (n,), n, flags="one")
    obs_ids(ctx, buf, n, A)
    q, old = ctx.reals("q", (2 * n, A, K)), ctx.reals("old", (2 * n, A, K))
    qt = ctx.reals("qt", (2 * n, A, K - 1))
    inner = ctx.reals("tau", (2 * n, K - 1), 0.125, 0.875)
    net, prop = FracNet(ctx, q, qt), Proposal(ctx, inner, ctx.reals("ent", 2 * n))
    tgt = ctx.pick("target", [True, False])
    pol = FQFPolicy(model=net, optim=Optim(ctx, net.table), fraction_model=prop, fraction_optim=Optim(ctx, prop.inner), action_space=gym.spaces.Discrete(A),
                    num_fractions=K, discount_factor=0.5, target_update_freq=2 if tgt else 0)
    if tgt:
        pol.model_old = FracNet(ctx, old, qt)
    mean = np.array([[inner[i, 0] * q[i, k, 0] + (1 - inner[i, 0]) * q[i, k, 1] for k in range(A)] for i in range(2 * n)])
    untied(ctx, mean, range(n, 2 * n), A)
    batch, idx = buf.sample(0)
    out = pol.process_fn(batch, buf, idx)
    val = old if tgt else q
    for r, (lg, j, p, d) in enumerate(slots(logs)):
        exp = [d["rew"] + 0.5 * ctx.ite(d["terminated"], 0.0, best(ctx, mean, n + p, A, [val[n + p, k, c] for k in range(A)])) for c in range(K)]
        ctx.eq(out.returns[r], exp, f"row {r}: target quantiles", tol=1e-3)
    if tgt:
        ctx.check(len(pol.model_old.given) == 1 and pol.model_old.given[0] is not None, "the target network is evaluated at the online fractions")
