"""P16-P18: returns and advantages computed from real buffers, against the textbook recursions over the episode log."""
from harness.h_buffer import Log, make_vec, to_batch, transition, vec_add
from symx.ctx import harness


def fill(ctx, sizes, n, flags="sym", mode="all"):
    from tianshou.data import ReplayBuffer
    if len(sizes) == 1:
        buf, logs = ReplayBuffer(sizes[0]), [Log(sizes[0])]
        for t in range(n):
            d = transition(ctx, t, flags=flags)
            buf.add(to_batch(ctx, d))
            logs[0].add(ctx, d)
    else:
        buf, logs = make_vec(sizes)
        for t in range(n):
            vec_add(ctx, buf, logs, t, None, flags=flags)
    return buf, logs


def slots(logs):
    return [(lg, j, lg.live()[j][0], lg.live()[j][1]) for lg in logs for j in range(len(lg.live()))]


def gae_ref(ctx, logs, v, v_, gamma, lam):
    """{slot: advantage}; v, v_: slot -> value"""
    adv = {}
    for lg in logs:
        lv = lg.live()
        for j in range(len(lv) - 1, -1, -1):
            p, d = lv[j]
            nxt = 0.0 if d["done"] or j == len(lv) - 1 else adv[lv[j + 1][0]]
            boot = ctx.ite(d["terminated"], 0.0, v_(p))
            adv[p] = d["rew"] + gamma * boot - v(p) + gamma * lam * nxt
    return adv


@harness("P16", params=[dict(sizes=(3,), n=3), dict(sizes=(3,), n=4), dict(sizes=(2, 2), n=2), dict(sizes=(2, 1), n=2)],
         thorough=[dict(sizes=(4,), n=6), dict(sizes=(2, 2), n=3), dict(sizes=(2, 1, 2), n=2)])
def gae(ctx, sizes, n):
    """the whole buffer in storage order; symbolic rewards, values, flags, gamma and lambda"""
    from tianshou.policy import BasePolicy
    np = ctx.np
    buf, logs = fill(ctx, sizes, n)
    batch, idx = buf.sample(0)
    rows = slots(logs)
    k = len(rows)
    gamma, lam = ctx.real("gamma", 0, 1), ctx.real("lam", 0, 1)
    v_s, v_s_ = ctx.reals("v", k), ctx.reals("vn", k)
    form = ctx.pick("form", ["numpy", "torch"])
    a, b = (ctx.np.array(v_s), ctx.np.array(v_s_)) if form == "numpy" else (ctx.tensor(v_s).reshape(k, 1), ctx.tensor(v_s_).reshape(k, 1))
    ret, adv = BasePolicy.compute_episodic_return(batch, buf, idx, b, a, gamma=gamma, gae_lambda=lam)
    at = {p: i for i, (_, _, p, _) in enumerate(rows)}
    ref = gae_ref(ctx, logs, lambda p: v_s[at[p]], lambda p: v_s_[at[p]], gamma, lam)
    for i, (_, _, p, d) in enumerate(rows):
        ctx.eq(adv[i], ref[p], f"advantage of row {i}", tol=1e-3)
        ctx.eq(ret[i], ref[p] + v_s[i], f"return of row {i}", tol=1e-3)
    ctx.eq(batch.rew, [r[3]["rew"] for r in rows], "rewards untouched")
    for i, (_, _, p, d) in enumerate(rows):
        ctx.eq(buf.done[p], d["done"], "the buffer's flags are untouched")
        ctx.eq(buf.terminated[p], d["terminated"], "the buffer's terminated flags are untouched")


@harness("P16", params=[dict(sizes=(3,), n=2), dict(sizes=(2, 2), n=2)], thorough=[dict(sizes=(3, 3), n=3)])
def gae_policy(ctx, sizes, n):
    """A2C/PPO preprocessing: values from the critic, any minibatch size for evaluating it"""
    from harness.nets import TableCritic, TableActor, Optim, Cat
    from tianshou.policy import A2CPolicy, PPOPolicy
    import gymnasium as gym
    np = ctx.np
    buf, logs = fill(ctx, sizes, n, flags="one")
    total = sum(sizes)
    gamma, lam = 0.5, ctx.real("lam", 0, 1)
    mb = ctx.pick("max_batchsize", [1, 2, 256])
    kind = ctx.pick("policy", [A2CPolicy, PPOPolicy])
    v, vn = ctx.reals("v", total), ctx.reals("vn", total)
    # observations are made recognisable: obs = slot, obs_next = total + slot
    buf._meta.obs[...] = np.arange(total)
    buf._meta.obs_next[...] = np.arange(total) + total
    critic = TableCritic(ctx, [*[v[i] for i in range(total)], *[vn[i] for i in range(total)]])
    act_t = ctx.reals("logit", (2 * total, 2))
    pol = kind(actor=TableActor(ctx, act_t), critic=critic, optim=Optim(), dist_fn=Cat(ctx), action_space=gym.spaces.Discrete(2),
               discount_factor=gamma, gae_lambda=lam, max_batchsize=mb, action_scaling=False)
    batch, idx = buf.sample(0)
    batch.act = np.zeros(len(idx), dtype=int)
    out = pol.process_fn(batch, buf, idx)
    ref = gae_ref(ctx, logs, lambda p: v[p], lambda p: vn[p], gamma, lam)
    for i, (_, _, p, d) in enumerate(slots(logs)):
        ctx.eq(out.v_s[i], v[p], f"value of row {i}")
        ctx.eq(out.adv[i], ref[p], f"advantage of row {i}")
        ctx.eq(out.returns[i], ref[p] + v[p], f"return of row {i}")
    for t in (out.v_s, out.adv, out.returns):
        ctx.check(not t.requires_grad, "targets carry no gradient")
    if kind is PPOPolicy:
        ctx.check(not out.logp_old.requires_grad and len(out.logp_old) == len(idx), "one old log-probability per row, without gradient")


# ------------------------------------------------------------------ P17 n-step
@harness("P17", params=[dict(sizes=(3,), n=3, N=2), dict(sizes=(3,), n=4, N=3), dict(sizes=(4,), n=4, N=1), dict(sizes=(2, 2), n=2, N=3), dict(sizes=(2, 1), n=2, N=2)],
         thorough=[dict(sizes=(4,), n=6, N=4), dict(sizes=(2, 3), n=3, N=3), dict(sizes=(2, 2), n=3, N=2)], max_paths=6000)
def nstep(ctx, sizes, n, N):
    """every retained index, symbolic rewards, flags, target values and gamma"""
    from tianshou.policy import BasePolicy
    np = ctx.np
    buf, logs = fill(ctx, sizes, n, flags="sym" if n < 4 else "one")
    rows = slots(logs)
    A = ctx.pick("A", [1, 2])
    total = sum(sizes)
    q = ctx.reals("q", (total, A))
    gamma = ctx.real("gamma", 0, 1)
    i0 = ctx.int("i0", 0, len(rows) - 1)
    idx = np.concatenate([np.array([p for _, _, p, _ in rows]), np.array([p for _, _, p, _ in rows])[np.array([i0])]])
    sel = [*range(len(rows)), int(ctx.conc(i0))]
    batch = buf[idx]
    asked = []

    def target(b, ix):
        asked.append(ix)
        ctx.check(b is buf, "target is evaluated on the buffer given")
        t = ctx.tensor(q)[ix]
        return t if A > 1 else t.flatten()
    weight = ctx.reals("w", len(idx))
    batch.weight = np.array(weight)
    out = BasePolicy.compute_nstep_return(batch, buf, idx, target, gamma=gamma, n_step=N)
    ctx.eq(out.weight, weight, "importance weights are kept")
    for r, k in enumerate(sel):
        lg, j, p, d = rows[k]
        lv = lg.live()
        acc, g, cur = 0.0, 1.0, j
        for s in range(N):
            acc = acc + g * lv[cur][1]["rew"]
            g = g * gamma
            if lv[cur][1]["done"] or cur == len(lv) - 1:
                break
            if s < N - 1:
                cur += 1
        lp, ld = lv[cur]
        ctx.eq(asked[0][r], lp, f"row {r}: bootstraps from the last step used")
        exp = [acc + g * ctx.ite(ld["terminated"], 0.0, q[lp, a]) for a in range(A)]
        got = out.returns[r]
        ctx.eq(got.reshape(-1) if hasattr(got, "reshape") else got, exp, f"row {r}: n-step return", tol=1e-3)
    for lg, j, p, d in rows:
        ctx.eq(buf.done[p], d["done"], "the buffer's flags are untouched")
        ctx.eq(buf.rew[p], d["rew"], "the buffer's rewards are untouched")


@harness("P17", params=[dict()])
def nstep_rejects(ctx):
    """mismatched batch and index lengths are rejected"""
    from tianshou.policy import BasePolicy
    buf, logs = fill(ctx, (3,), 3, flags=False)
    idx = ctx.np.array([0, 1])
    ctx.raises(ValueError, lambda: BasePolicy.compute_nstep_return(buf[idx], buf, ctx.np.array([0]), lambda b, i: None, n_step=1), "length mismatch")


# ------------------------------------------------------------------ P18 Monte-Carlo
@harness("P18", params=[dict(n=n) for n in (1, 2, 4)], thorough=[dict(n=7)])
def mc_to_go(ctx, n):
    """single-episode return-to-go"""
    from tianshou.policy.base import episode_mc_return_to_go
    r = ctx.reals("r", n)
    gamma = ctx.real("gamma", 0, 1)
    g = episode_mc_return_to_go(ctx.np.array(r), gamma)
    ctx.check(len(g) == n, "one return per step")
    for i in range(n):
        acc = 0.0
        for k in range(n - 1, i - 1, -1):
            acc = r[k] + gamma * acc
        ctx.eq(g[i], acc, f"return to go of step {i}", tol=1e-3)


@harness("P18", params=[dict(sizes=(3,), n=3), dict(sizes=(3,), n=4), dict(sizes=(2, 2), n=2)], thorough=[dict(sizes=(4,), n=6), dict(sizes=(2, 2), n=3)])
def mc_buffer(ctx, sizes, n):
    """Monte-Carlo returns over the whole buffer never cross an episode boundary"""
    from harness.nets import TableActor, Optim, Cat
    from tianshou.policy import BasePolicy, PGPolicy
    import gymnasium as gym
    buf, logs = fill(ctx, sizes, n)
    batch, idx = buf.sample(0)
    gamma = ctx.real("gamma", 0, 1)
    ref = {}
    for lg in logs:
        lv = lg.live()
        for j in range(len(lv) - 1, -1, -1):
            p, d = lv[j]
            ref[p] = d["rew"] + (0.0 if d["done"] or j == len(lv) - 1 else gamma * ref[lv[j + 1][0]])
    ret, adv = BasePolicy.compute_episodic_return(batch, buf, idx, gamma=gamma, gae_lambda=1.0)
    for i, (_, _, p, d) in enumerate(slots(logs)):
        ctx.eq(ret[i], ref[p], f"return of row {i}", tol=1e-3)
        ctx.eq(adv[i], ref[p], f"advantage of row {i} equals the return for a zero value function", tol=1e-3)
    pol = PGPolicy(actor=TableActor(ctx, ctx.reals("l", (1, 2))), optim=Optim(), dist_fn=Cat(ctx), action_space=gym.spaces.Discrete(2),
                   discount_factor=1.0, action_scaling=False)
    pol.gamma = gamma
    out = pol.process_fn(batch, buf, idx)
    for i, (_, _, p, d) in enumerate(slots(logs)):
        ctx.eq(out.returns[i], ref[p], f"policy-gradient return of row {i}", tol=1e-3)


@harness("P18", params=[dict(n=2)], thorough=[dict(n=3)])
def return_normalisation(ctx, n):
    """with return normalisation the statistics seen so far are used for this batch, then updated by its raw returns"""
    from harness.nets import TableActor, TableCritic, Optim, Cat
    from tianshou.policy import A2CPolicy
    import gymnasium as gym
    np = ctx.np
    buf, logs = fill(ctx, (n,), n, flags="one")
    buf._meta.obs[...] = np.arange(n)
    buf._meta.obs_next[...] = np.arange(n) + n
    v = ctx.reals("v", 2 * n)
    pol = A2CPolicy(actor=TableActor(ctx, ctx.reals("l", (2 * n, 2))), critic=TableCritic(ctx, [v[i] for i in range(2 * n)]), optim=Optim(), dist_fn=Cat(ctx),
                    action_space=gym.spaces.Discrete(2), discount_factor=0.5, gae_lambda=0.5, reward_normalization=True, action_scaling=False)
    s = ctx.pick("scale", [1, 2, 3])      # std of the past returns
    pol.ret_rms.var = float(s * s)
    pol._eps = 0.0
    pol.ret_rms.count = 4
    pol.ret_rms.mean = 0.25
    batch, idx = buf.sample(0)
    batch.act = np.zeros(len(idx), dtype=int)
    out = pol.process_fn(batch, buf, idx)
    ref = gae_ref(ctx, logs, lambda p: v[p] * s, lambda p: v[n + p] * s, 0.5, 0.5)
    raw = []
    for i, (_, _, p, d) in enumerate(slots(logs)):
        raw.append(ref[p] + v[p] * s)
        ctx.eq(out.adv[i], ref[p], f"advantage of row {i}")
        ctx.eq(out.returns[i], raw[-1] / s, f"normalised return of row {i}")
    m = sum(raw) / n
    ctx.eq(pol.ret_rms.mean, (0.25 * 4 + m * n) / (n + 4), "running mean over raw returns")
    ctx.eq(pol.ret_rms.count, n + 4, "running count")


@harness("P18", params=[dict(n=2), dict(n=3)], thorough=[dict(n=4)])
def pg_return_normalisation(ctx, n):
    """policy gradient: returns are normalised by the mean and variance of earlier batches, which then absorb the raw returns"""
    from harness.nets import TableActor, Optim, Cat
    from tianshou.policy import PGPolicy
    import gymnasium as gym
    np = ctx.np
    buf, logs = fill(ctx, (n,), n, flags="one")
    rows = slots(logs)
    ctx.assume(rows[-1][3]["terminated"])       # a cut episode would be continued with the running mean
    pol = PGPolicy(actor=TableActor(ctx, ctx.reals("l", (1, 2))), optim=Optim(), dist_fn=Cat(ctx), action_space=gym.spaces.Discrete(2), discount_factor=0.5,
                   reward_normalization=True, action_scaling=False)
    m0, s = ctx.real("mean", -2, 2), ctx.pick("scale", [1, 2])
    pol.ret_rms.mean, pol.ret_rms.var, pol.ret_rms.count, pol._eps = m0, float(s * s), 4, 0.0
    batch, idx = buf.sample(0)
    out = pol.process_fn(batch, buf, idx)
    raw, acc = [], 0.0
    for _, _, p, d in reversed(rows):
        acc = d["rew"] + 0.5 * ctx.ite(d["terminated"], 0.0, acc)
        raw.insert(0, acc)
    for i, r in enumerate(raw):
        ctx.eq(out.returns[i], (r - m0) / s, f"normalised return of row {i}", tol=1e-3)
    m = sum(raw) / n
    ctx.eq(pol.ret_rms.mean, (m0 * 4 + m * n) / (n + 4), "running mean over raw returns", tol=1e-3)
    var = sum((r - m) * (r - m) for r in raw) / n
    tot = s * s * 4 + var * n + (m - m0) * (m - m0) * 4 * n / (n + 4)
    ctx.eq(pol.ret_rms.var, tot / (n + 4), "running variance over raw returns", tol=1e-2)
    ctx.eq(pol.ret_rms.count, n + 4, "running count")
