"""P23: actor-critic algorithms for continuous actions and discrete SAC."""
from harness.h_returns import fill, slots
from harness.h_value import best_of, nstep_end, obs_ids
from harness.nets import ActCritic, GaussActor, Optim, PTable, Table, ids
from symx.ctx import harness


def opt(ctx, *nets):
    return Optim(ctx, *[p for n in nets for p in n._parameters.values()])


def box():
    import gymnasium as gym
    import numpy
    return gym.spaces.Box(low=numpy.array([-1.0], dtype=numpy.float32), high=numpy.array([1.0], dtype=numpy.float32))


def mk_ddpg(ctx, total, cls="DDPG", **kw):
    """policy with symbolic online and target networks over `total` states -> (policy, tables)"""
    import tianshou.policy as P
    R = lambda nm, lo=None, hi=None: ctx.reals(nm, total, lo, hi)
    t = dict(a=R("a"), w=R("w"), k=R("k"), ao=R("ao"), wo=R("wo"), ko=R("ko"))
    actor, critic = PTable(ctx, [[x] for x in t["a"]]), ActCritic(ctx, t["w"], t["k"])
    args = dict(actor=actor, actor_optim=opt(ctx, actor), critic=critic, critic_optim=opt(ctx, critic), action_space=box(), action_scaling=False, action_bound_method=None)
    if cls == "TD3":
        t.update(w2=R("w2"), k2=R("k2"), wo2=R("wo2"), ko2=R("ko2"))
        c2 = ActCritic(ctx, t["w2"], t["k2"])
        args.update(critic2=c2, critic2_optim=opt(ctx, c2))
    pol = getattr(P, cls + "Policy")(**args, **kw)
    pol.actor_old, pol.critic_old = PTable(ctx, [[x] for x in t["ao"]]), ActCritic(ctx, t["wo"], t["ko"])
    if cls == "TD3":
        pol.critic2_old = ActCritic(ctx, t["wo2"], t["ko2"])
    return pol, t


def act_rows(ctx, buf, total):
    buf._meta.__dict__["act"] = ctx.reals("act", (total, 1))


@harness("P23", params=[dict(n=2, N=1), dict(n=3, N=2)], thorough=[dict(n=4, N=3)])
def ddpg_target(ctx, n, N):
    """DDPG: n-step target through the target actor and the target critic"""
    buf, logs = fill(ctx, (n,), n, flags="one" if N > 1 else "sym")
    obs_ids(ctx, buf, n)
    act_rows(ctx, buf, n)
    pol, t = mk_ddpg(ctx, 2 * n, gamma=0.5, estimation_step=N)
    batch, idx = buf.sample(0)
    out = pol.process_fn(batch, buf, idx)
    for r, (lg, j, p, d) in enumerate(slots(logs)):
        acc, g, lp, ld = nstep_end(ctx, lg, j, N, 0.5)
        s = n + lp
        q = t["wo"][s] + t["ko"][s] * t["ao"][s]
        ctx.eq(out.returns[r].reshape(-1), [acc + g * ctx.ite(ld["terminated"], 0.0, q)], f"row {r}: target", tol=1e-2)
    ctx.check(not out.returns.requires_grad, "targets carry no gradient")


def data(ctx, n, weighted=None, rounds=0):
    from tianshou.data import Batch
    np = ctx.np
    act, ret = ctx.reals(f"act{rounds}", (n, 1)), ctx.reals(f"ret{rounds}", n)
    w = ctx.reals(f"wt{rounds}", n, 0, 2)
    b = Batch(obs=np.arange(n), act=act, info=Batch(), returns=ctx.tensor(ret).reshape(n, 1))
    if weighted:
        b.weight = ctx.tensor(w)
    return b, [act[i, 0] for i in range(n)], ret, [w[i] if weighted else 1.0 for i in range(n)]


def check_critic(ctx, lab, grads, n, w, k, act, ret, wt, total):
    """gradients of the mean weighted squared error of w + k a against the returns; -> (errors, loss)"""
    td = [w[i] + k[i] * act[i] - ret[i] for i in range(n)]
    G, H = grads
    for i in range(total):
        ctx.eq_grad(G[i], 2 * td[i] * wt[i] / n if i < n else 0.0, f"{lab}: gradient of w[{i}]", tol=1e-2)
        ctx.eq_grad(H[i], 2 * td[i] * wt[i] * act[i] / n if i < n else 0.0, f"{lab}: gradient of k[{i}]", tol=1e-2)
    return td, sum(x * x * v for x, v in zip(td, wt)) / n


def check_sync(ctx, lab, old, before, new, tau):
    """target parameters moved by tau towards the online ones (tau=None: untouched)"""
    for nm, t in old._parameters.items():
        cur = t.detach().flatten()
        for i in range(len(before[nm])):
            b = before[nm][i]
            ctx.eq(cur[i], b if tau is None else tau * new[nm][i] + (1 - tau) * b, f"{lab}: target {nm}[{i}]", tol=1e-2)


@harness("P23", params=[dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def ddpg_learn(ctx, n):
    """DDPG: critic regression, then the actor ascends the critic; every optimiser sees only its own loss; targets follow by tau"""
    pol, t = mk_ddpg(ctx, n + 1, tau=0.25)
    weighted = ctx.pick("weighted", [True, False])
    for rnd in range(2):
        b, act, ret, wt = data(ctx, n, weighted, rnd)
        stats = pol.learn(b)
        td, loss = check_critic(ctx, f"round {rnd}", pol.critic_optim.grads[rnd], n, t["w"], t["k"], act, ret, wt, n + 1)
        ctx.eq(stats.critic_loss, loss, "reported critic loss", tol=1e-2)
        ctx.eq(b.weight, td, "TD errors become the priorities", tol=1e-2)
        ctx.eq(stats.actor_loss, -sum(t["w"][i] + t["k"][i] * t["a"][i] for i in range(n)) / n, "reported actor loss", tol=1e-2)
        (A,) = pol.actor_optim.grads[rnd]
        for i in range(n + 1):
            ctx.eq_grad(A[i, 0], -t["k"][i] / n if i < n else 0.0, f"round {rnd}: gradient of actor[{i}]", tol=1e-2)
        ctx.check(pol.actor_optim.steps == rnd + 1 and pol.critic_optim.steps == rnd + 1, "one step per optimiser and round")
        if rnd == 0:
            check_sync(ctx, "critic", pol.critic_old, dict(w=t["wo"], k=t["ko"]), t, 0.25)
            check_sync(ctx, "actor", pol.actor_old, dict(table=t["ao"]), dict(table=t["a"]), 0.25)


@harness("P23", params=[dict(n=2, clip=0.5), dict(n=2, clip=0.0)], thorough=[dict(n=3, clip=0.5)])
def td3_target(ctx, n, clip):
    """TD3: clipped noise on the target action, minimum of the two target critics"""
    buf, logs = fill(ctx, (n,), n, flags="one")
    obs_ids(ctx, buf, n)
    act_rows(ctx, buf, n)
    pol, t = mk_ddpg(ctx, 2 * n, "TD3", gamma=0.5, policy_noise=0.25, noise_clip=clip)
    batch, idx = buf.sample(0)
    out = pol.process_fn(batch, buf, idx)
    z = ctx.draws("trandn")
    ctx.check(len(z) == n, "one noise value per row")
    for r, (lg, j, p, d) in enumerate(slots(logs)):
        s = n + p
        e = z[r] * 0.25
        if clip:
            e = ctx.ite(e > clip, clip, ctx.ite(e < -clip, -clip, e))
        a = t["ao"][s] + e
        q1, q2 = t["wo"][s] + t["ko"][s] * a, t["wo2"][s] + t["ko2"][s] * a
        q = ctx.ite(q1 < q2, q1, q2)
        ctx.eq(out.returns[r].reshape(-1), [d["rew"] + 0.5 * ctx.ite(d["terminated"], 0.0, q)], f"row {r}: target", tol=1e-2)


@harness("P23", params=[dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def td3_learn(ctx, n):
    """TD3: both critics regress on the same target; the actor follows the first one every update_actor_freq updates only"""
    freq = ctx.pick("freq", [1, 2])
    pol, t = mk_ddpg(ctx, n, "TD3", tau=0.25, update_actor_freq=freq)
    weighted = ctx.pick("weighted", [True, False])
    updates = 0
    for rnd in range(3):
        b, act, ret, wt = data(ctx, n, weighted, rnd)
        before = {nm: [x for x in getattr(pol, nm)._parameters.values()][0].detach().clone() for nm in ("critic_old", "critic2_old", "actor_old")}
        stats = pol.learn(b)
        td1, l1 = check_critic(ctx, f"round {rnd} critic 1", pol.critic_optim.grads[rnd], n, t["w"], t["k"], act, ret, wt, n)
        td2, l2 = check_critic(ctx, f"round {rnd} critic 2", pol.critic2_optim.grads[rnd], n, t["w2"], t["k2"], act, ret, wt, n)
        ctx.eq([stats.critic1_loss, stats.critic2_loss], [l1, l2], "reported critic losses", tol=1e-2)
        ctx.eq(b.weight, [(x + y) / 2 for x, y in zip(td1, td2)], "priorities", tol=1e-2)
        upd = rnd % freq == 0
        updates += upd
        ctx.check(pol.actor_optim.steps == updates, f"round {rnd}: the actor is updated every {freq} rounds")
        if upd:
            (A,) = pol.actor_optim.grads[-1]
            for i in range(n):
                ctx.eq_grad(A[i, 0], -t["k"][i] / n, f"round {rnd}: gradient of actor[{i}]", tol=1e-2)
        ctx.eq(stats.actor_loss, -sum(t["w"][i] + t["k"][i] * t["a"][i] for i in range(n)) / n, "reported actor loss is the last one", tol=1e-2)
        for nm, src in (("critic_old", t["w"]), ("critic2_old", t["w2"]), ("actor_old", t["a"])):
            cur = [x for x in getattr(pol, nm)._parameters.values()][0].detach().flatten()
            bef = before[nm].flatten()
            ctx.eq(cur, [0.25 * src[i] + 0.75 * bef[i] if upd else bef[i] for i in range(n)], f"round {rnd}: {nm}", tol=1e-2)


# ------------------------------------------------------------------------------------------------ SAC
EPS32 = 2.0 ** -23
LOG2PI2 = 0.9189385332046727  # log(sqrt(2 pi))


def mk_sac(ctx, total, auto, sd=None, **kw):
    from tianshou.policy import SACPolicy
    R = lambda nm, lo=None, hi=None: ctx.reals(nm, total, lo, hi)
    t = dict(mu=R("mu"), w=R("w"), k=R("k"), w2=R("w2"), k2=R("k2"), wo=R("wo"), ko=R("ko"), wo2=R("wo2"), ko2=R("ko2"))
    t["sd"] = [0.5 * (i + 1) for i in range(total)] if sd is None else list(R("sd", 0.25, 4))
    actor = GaussActor(ctx, t["mu"], t["sd"])
    c1, c2 = ActCritic(ctx, t["w"], t["k"]), ActCritic(ctx, t["w2"], t["k2"])
    alpha, la = 0.25, None
    if auto:
        la = ctx.param(ctx.np.array([ctx.real("log_alpha", -2, 2)]))
        la2 = ctx.real("log_alpha_next", -2, 2)
        alpha = (-1.5, la, MoveOptim(ctx, la, [la2]))
        t["la2"] = la2
    pol = SACPolicy(actor=actor, actor_optim=opt(ctx, actor), critic=c1, critic_optim=opt(ctx, c1), critic2=c2, critic2_optim=opt(ctx, c2),
                    action_space=box(), action_scaling=False, alpha=alpha, **kw)
    pol.critic_old, pol.critic2_old = ActCritic(ctx, t["wo"], t["ko"]), ActCritic(ctx, t["wo2"], t["ko2"])
    return pol, t


class MoveOptim(Optim):
    """optimiser whose step sets its parameter to an arbitrary new value"""

    def __init__(self, ctx, p, new):
        super().__init__(ctx, p)
        self.new = new

    def step(self, *a, **k):
        super().step()
        self.params[0].data.copy_(self.ctx.tensor(self.ctx.np.array(self.new)))
        self.ctx.moved(self.params[0])


def squash(ctx, mu, sd, z):
    """reference of the squashed Gaussian: pre-squash mu + sd z -> (action, log-probability), on flat tensors"""
    T = ctx.torch
    a = T.tanh(mu + sd * z)
    logp = -(z * z) / 2 - T.log(sd) - LOG2PI2 - T.log(1 - a * a + EPS32)
    return a, logp


def set_step(pol, within):
    pol.is_within_training_step = within


def tmin(ctx, a, b):
    return ctx.torch.where(a < b, a, b)


def eps_of(ctx, n, stochastic):
    z = ctx.draws("trandn")
    ctx.check(len(z) == (n if stochastic else 0), "actions are sampled exactly when training or when not deterministic_eval")
    return ctx.tensor(ctx.np.array(list(z) if stochastic else [0.0] * n))


@harness("P23", params=[dict(n=1, N=1), dict(n=2, N=2)], thorough=[dict(n=3, N=2)])
def sac_target(ctx, n, N):
    """SAC: soft target: minimum of the target critics at a fresh action, minus alpha times its log-probability"""
    auto = ctx.pick("auto", [False, True])
    det, within = ctx.pick("det", [True, False]), ctx.pick("within", [True, False])
    buf, logs = fill(ctx, (n,), n, flags="one")
    obs_ids(ctx, buf, n)
    act_rows(ctx, buf, n)
    pol, t = mk_sac(ctx, 2 * n, auto, gamma=0.5, estimation_step=N, deterministic_eval=det)
    set_step(pol, within)
    batch, idx = buf.sample(0)
    ctx.draws("trandn")
    out = pol.process_fn(batch, buf, idx)
    z = eps_of(ctx, n, within or not det)
    alpha = ctx.torch.exp(pol.log_alpha.detach()) if auto else 0.25
    for r, (lg, j, p, d) in enumerate(slots(logs)):
        acc, g, lp, ld = nstep_end(ctx, lg, j, N, 0.5)
        s = [n + lp]
        a, logp = squash(ctx, ctx.tensor(t["mu"][s]), ctx.tensor(ctx.np.array([t["sd"][s[0]]])), z[r])
        q1, q2 = (ctx.tensor(t[x][s]) + ctx.tensor(t[y][s]) * a for x, y in (("wo", "ko"), ("wo2", "ko2")))
        v = (tmin(ctx, q1, q2) - alpha * logp)[0]
        ctx.eq(out.returns[r].reshape(-1)[0], acc + g * ctx.ite(ld["terminated"], 0.0, v), f"row {r}: target", tol=1e-2)


@harness("P23", params=[dict(n=1, sd="sym"), dict(n=2)], thorough=[dict(n=2, sd="sym"), dict(n=3)])
def sac_learn(ctx, n, sd=None):
    """SAC: critic regressions, actor loss alpha log pi - min Q through the sampled action, temperature loss, target sync"""
    auto = ctx.pick("auto", [False, True])
    pol, t = mk_sac(ctx, n, auto, sd, tau=0.25)
    set_step(pol, True)
    weighted = ctx.pick("weighted", [True, False])
    b, act, ret, wt = data(ctx, n, weighted)
    ctx.draws("trandn")
    la = pol.log_alpha.detach().clone() if auto else None
    stats = pol.learn(b)
    z = eps_of(ctx, n, True)
    td1, l1 = check_critic(ctx, "critic 1", pol.critic_optim.grads[0], n, t["w"], t["k"], act, ret, wt, n)
    td2, l2 = check_critic(ctx, "critic 2", pol.critic2_optim.grads[0], n, t["w2"], t["k2"], act, ret, wt, n)
    ctx.eq([stats.critic1_loss, stats.critic2_loss], [l1, l2], "reported critic losses", tol=1e-2)
    ctx.eq(b.weight, [(x + y) / 2 for x, y in zip(td1, td2)], "priorities", tol=1e-2)
    alpha = ctx.torch.exp(la) if auto else 0.25
    mu, sd = pol.actor.mu, pol.actor.sigma
    a, logp = squash(ctx, mu, sd, z)
    q = tmin(ctx, ctx.tensor(t["w"]) + ctx.tensor(t["k"]) * a, ctx.tensor(t["w2"]) + ctx.tensor(t["k2"]) * a)
    ref = (alpha * logp - q).mean()
    ctx.eq(stats.actor_loss, ref.item(), "reported actor loss", tol=1e-2)
    gm, gs = ctx.grad(ref, [mu, sd])
    ctx.eq_grad(pol.actor_optim.grads[0][0], gm, "gradient of the actor's means", tol=2e-2)
    ctx.eq_grad(pol.actor_optim.grads[0][1], gs, "gradient of the actor's deviations", tol=2e-2)
    ctx.check(pol.actor_optim.steps == pol.critic_optim.steps == pol.critic2_optim.steps == 1, "one step each")
    if auto:
        al = -(la * (logp.detach() - 1.5)).mean()
        ctx.eq(stats.alpha_loss, al.item(), "reported temperature loss", tol=1e-2)
        ctx.eq(pol.alpha_optim.grads[0][0].reshape(-1), [-(logp.detach() - 1.5).mean().item()], "gradient of log alpha", tol=1e-2)
        nw = ctx.torch.exp(ctx.tensor(ctx.np.array([t["la2"]])))
        ctx.eq(pol.alpha.reshape(-1), nw, "temperature follows the updated log alpha")
        ctx.eq(stats.alpha, nw[0].item(), "reported temperature")
    check_sync(ctx, "critic 1", pol.critic_old, dict(w=t["wo"], k=t["ko"]), t, 0.25)
    check_sync(ctx, "critic 2", pol.critic2_old, dict(w=t["wo2"], k=t["ko2"]), dict(w=t["w2"], k=t["k2"]), 0.25)


# ------------------------------------------------------------------------------------------------ discrete SAC
def alpha_of(ctx, auto, t):
    if not auto:
        return 0.25, None
    la = ctx.param(ctx.np.array([ctx.real("log_alpha", -2, 2)]))
    t["la2"] = ctx.real("log_alpha_next", -2, 2)
    return (0.5, la, MoveOptim(ctx, la, [t["la2"]])), la


def mk_dsac(ctx, total, A, auto, **kw):
    import gymnasium as gym
    from tianshou.policy import DiscreteSACPolicy
    R = lambda nm, lo=None, hi=None: ctx.reals(nm, (total, A), lo, hi)
    t = dict(l=R("l", -4, 4), q1=R("q1"), q2=R("q2"), o1=R("o1"), o2=R("o2"))
    actor, c1, c2 = PTable(ctx, t["l"]), PTable(ctx, t["q1"], False), PTable(ctx, t["q2"], False)
    alpha, la = alpha_of(ctx, auto, t)
    pol = DiscreteSACPolicy(actor=actor, actor_optim=opt(ctx, actor), critic=c1, critic_optim=opt(ctx, c1), critic2=c2, critic2_optim=opt(ctx, c2),
                            action_space=gym.spaces.Discrete(A), alpha=alpha, **kw)
    pol.critic_old, pol.critic2_old = PTable(ctx, t["o1"], False), PTable(ctx, t["o2"], False)
    return pol, t


def probs_of(ctx, logits):
    """(probabilities, entropy) of the rows"""
    d = ctx.torch.distributions.Categorical(logits=logits)
    return d.probs, d.entropy()


@harness("P23", params=[dict(n=1, N=1, A=2), dict(n=2, N=2, A=2)], thorough=[dict(n=2, N=2, A=3)])
def dsac_target(ctx, n, N, A):
    """discrete SAC: expectation of the smaller target critic under the policy plus alpha times its entropy"""
    auto = ctx.pick("auto", [False, True])
    buf, logs = fill(ctx, (n,), n, flags="one")
    obs_ids(ctx, buf, n)
    pol, t = mk_dsac(ctx, 2 * n, A, auto, gamma=0.5, estimation_step=N)
    batch, idx = buf.sample(0)
    out = pol.process_fn(batch, buf, idx)
    alpha = ctx.torch.exp(pol.log_alpha.detach())[0] if auto else 0.25
    for r, (lg, j, p, d) in enumerate(slots(logs)):
        acc, g, lp, ld = nstep_end(ctx, lg, j, N, 0.5)
        s = int(n + lp)
        pr, en = probs_of(ctx, ctx.tensor(t["l"][s:s + 1]))
        v = sum(pr[0, k] * ctx.ite(t["o1"][s, k] < t["o2"][s, k], t["o1"][s, k], t["o2"][s, k]) for k in range(A)) + alpha * en[0]
        ctx.eq(out.returns[r].reshape(-1)[0], acc + g * ctx.ite(ld["terminated"], 0.0, v), f"row {r}: target", tol=1e-2)


def disc_data(ctx, n, A, weighted, rounds=0):
    from tianshou.data import Batch
    np = ctx.np
    act = ctx.ints(f"act{rounds}", n, 0, A - 1)
    act = np.array([int(ctx.conc(a)) for a in act])
    ret, w = ctx.reals(f"ret{rounds}", n), ctx.reals(f"wt{rounds}", n, 0, 2)
    b = Batch(obs=np.arange(n), act=act, info=Batch(), returns=ctx.tensor(ret).reshape(n, 1))
    if weighted:
        b.weight = ctx.tensor(w)
    return b, act, ret, [w[i] if weighted else 1.0 for i in range(n)]


@harness("P23", params=[dict(n=1, A=2), dict(n=2, A=2, full=False)], thorough=[dict(n=2, A=2), dict(n=1, A=3)])
def dsac_learn(ctx, n, A, full=True):
    """discrete SAC: critic regressions on the taken action, expected actor loss, temperature loss, target sync"""
    auto = ctx.pick("auto", [False, True]) if full else True
    pol, t = mk_dsac(ctx, n, A, auto, tau=0.25)
    set_step(pol, True)
    weighted = ctx.pick("weighted", [True, False]) if full else True
    b, act, ret, wt = disc_data(ctx, n, A, weighted)
    la = pol.log_alpha.detach().clone() if auto else None
    stats = pol.learn(b)
    tds = []
    for c, (q, o) in enumerate((("q1", pol.critic_optim), ("q2", pol.critic2_optim))):
        td = [t[q][i, act[i]] - ret[i] for i in range(n)]
        tds.append(td)
        (G,) = o.grads[0]
        for i in range(n):
            for k in range(A):
                ctx.eq_grad(G[i, k], 2 * td[i] * wt[i] / n if act[i] == k else 0.0, f"critic {c + 1}: gradient [{i},{k}]", tol=1e-2)
        ctx.eq([stats.critic1_loss, stats.critic2_loss][c], sum(x * x * v for x, v in zip(td, wt)) / n, f"critic {c + 1}: reported loss", tol=1e-2)
    ctx.eq(b.weight, [(x + y) / 2 for x, y in zip(*tds)], "priorities", tol=1e-2)
    alpha = ctx.torch.exp(la)[0] if auto else 0.25
    tab = pol.actor.table
    pr, ent = probs_of(ctx, tab)
    mq = ctx.tensor(ctx.np.array([[ctx.ite(t["q1"][i, k] < t["q2"][i, k], t["q1"][i, k], t["q2"][i, k]) for k in range(A)] for i in range(n)]))
    ref = -(alpha * ent + (pr * mq).sum(-1)).mean()
    ctx.eq(stats.actor_loss, ref.item(), "reported actor loss", tol=1e-2)
    ctx.eq_grad(pol.actor_optim.grads[0][0], ctx.grad(ref, [tab])[0], "gradient of the policy's logits", tol=2e-2)
    ctx.check(pol.actor_optim.steps == pol.critic_optim.steps == pol.critic2_optim.steps == 1, "one step each")
    if auto:
        m = (ent.detach() - 0.5).mean()
        ctx.eq(stats.alpha_loss, (la * m)[0].item(), "reported temperature loss", tol=1e-2)
        ctx.eq(pol.alpha_optim.grads[0][0].reshape(-1), [m.item()], "gradient of log alpha", tol=1e-2)
        nw = ctx.torch.exp(ctx.tensor(ctx.np.array([t["la2"]])))
        ctx.eq(pol.alpha.reshape(-1), nw, "temperature follows the updated log alpha")
    check_sync(ctx, "critic 1", pol.critic_old, dict(table=t["o1"].reshape(-1)), dict(table=t["q1"].reshape(-1)), 0.25)
    check_sync(ctx, "critic 2", pol.critic2_old, dict(table=t["o2"].reshape(-1)), dict(table=t["q2"].reshape(-1)), 0.25)


# ------------------------------------------------------------------------------------------------ REDQ
class Ensemble(ActCritic):
    """(E, n, 1) values w[e, s] + k[e, s] a"""

    def forward(self, obs, act, info=None):
        ix = ids(self.ctx, obs)
        a = self.ctx.torch.as_tensor(act).reshape(-1)
        return (self.w[:, ix] + self.k[:, ix] * a).unsqueeze(-1)


def mk_redq(ctx, total, E, auto, **kw):
    from tianshou.policy import REDQPolicy
    R = lambda nm, sh, lo=None, hi=None: ctx.reals(nm, sh, lo, hi)
    t = dict(mu=R("mu", total), sd=[0.5 * (i + 1) for i in range(total)], w=R("w", (E, total)), k=R("k", (E, total)), wo=R("wo", (E, total)), ko=R("ko", (E, total)))
    actor, c = GaussActor(ctx, t["mu"], t["sd"]), Ensemble(ctx, t["w"], t["k"])
    alpha, la = alpha_of(ctx, auto, t)
    pol = REDQPolicy(actor=actor, actor_optim=opt(ctx, actor), critic=c, critic_optim=opt(ctx, c), action_space=box(), action_scaling=False,
                     ensemble_size=E, alpha=alpha, **kw)
    pol.critic_old = Ensemble(ctx, t["wo"], t["ko"])
    return pol, t


@harness("P23", params=[dict(n=1, E=3, M=2)], thorough=[dict(n=2, E=3, M=2), dict(n=1, E=4, M=2)])
def redq_target(ctx, n, E, M):
    """REDQ: minimum (or mean) over a random subset of M distinct target critics"""
    auto = ctx.pick("auto", [False, True])
    mode = ctx.pick("mode", ["min", "mean"])
    buf, logs = fill(ctx, (n,), n, flags="one")
    obs_ids(ctx, buf, n)
    act_rows(ctx, buf, n)
    pol, t = mk_redq(ctx, 2 * n, E, auto, gamma=0.5, subset_size=M, target_mode=mode)
    set_step(pol, True)
    batch, idx = buf.sample(0)
    ctx.draws("trandn")
    out = pol.process_fn(batch, buf, idx)
    z = eps_of(ctx, n, True)
    alpha = ctx.torch.exp(pol.log_alpha.detach()) if auto else 0.25
    import itertools
    cands = [[] for _ in itertools.combinations(range(E), M)]
    rows = slots(logs)
    for r, (lg, j, p, d) in enumerate(rows):
        s = [n + p]
        a, logp = squash(ctx, ctx.tensor(t["mu"][s]), ctx.tensor(ctx.np.array([t["sd"][s[0]]])), z[r])
        qs = [(ctx.tensor(t["wo"][e][s]) + ctx.tensor(t["ko"][e][s]) * a) for e in range(E)]
        for c, sub in enumerate(itertools.combinations(range(E), M)):
            q = qs[sub[0]]
            for e in sub[1:]:
                q = tmin(ctx, q, qs[e]) if mode == "min" else q + qs[e]
            v = ((q if mode == "min" else q / M) - alpha * logp)[0]
            cands[c].append(d["rew"] + 0.5 * ctx.ite(d["terminated"], 0.0, v))
    got = out.returns.reshape(-1)
    same = [ctx.And(*[ctx.eqv(got[r], x) for r, x in enumerate(c)]) for c in cands]
    ctx.check(ctx.Or(*same), "target uses a subset of the critics")
    for c, ok in enumerate(same):
        ctx.reach(ok, f"subset {c} can be drawn ({mode})")


@harness("P23", params=[dict(n=1, E=2), dict(n=2, E=2)], thorough=[dict(n=2, E=3)])
def redq_learn(ctx, n, E):
    """REDQ: all critics regress on the target; actor (ensemble mean) and temperature only every actor_delay updates"""
    auto = ctx.pick("auto", [False, True])
    delay = ctx.pick("delay", [1, 2])
    pol, t = mk_redq(ctx, n, E, auto, tau=0.25, subset_size=1, actor_delay=delay)
    set_step(pol, True)
    weighted = ctx.pick("weighted", [True, False])
    ups, old_w, old_k = 0, t["wo"].reshape(-1), t["ko"].reshape(-1)
    for rnd in range(2):
        b, act, ret, wt = data(ctx, n, weighted, rnd)
        la = pol.log_alpha.detach().clone() if auto else None
        ctx.draws("trandn")
        stats = pol.learn(b)
        upd = (rnd + 1) % delay == 0
        ups += upd
        z = eps_of(ctx, n, upd)
        td = [[t["w"][e, i] + t["k"][e, i] * act[i] - ret[i] for i in range(n)] for e in range(E)]
        G, H = pol.critic_optim.grads[rnd]
        for e in range(E):
            for i in range(n):
                ctx.eq_grad(G[e, i], 2 * td[e][i] * wt[i] / (n * E), f"round {rnd}: gradient of w[{e},{i}]", tol=1e-2)
                ctx.eq_grad(H[e, i], 2 * td[e][i] * wt[i] * act[i] / (n * E), f"round {rnd}: gradient of k[{e},{i}]", tol=1e-2)
        ctx.eq(stats.critic_loss, sum(x * x * v for row in td for x, v in zip(row, wt)) / (n * E), "reported critic loss", tol=1e-2)
        ctx.eq(b.weight, [sum(td[e][i] for e in range(E)) / E for i in range(n)], "priorities", tol=1e-2)
        ctx.check(pol.actor_optim.steps == ups, f"round {rnd}: actor updates")
        if upd:
            alpha = ctx.torch.exp(la) if auto and ups == 1 else pol_alpha if auto else 0.25
            mu = pol.actor.mu
            a, logp = squash(ctx, mu, pol.actor.sigma, z)
            q = sum((ctx.tensor(t["w"][e]) + ctx.tensor(t["k"][e]) * a) for e in range(E)) / E
            ref = (alpha * logp - q).mean()
            ctx.eq(stats.actor_loss, ref.item(), "reported actor loss", tol=1e-2)
            ctx.eq_grad(pol.actor_optim.grads[-1][0], ctx.grad(ref, [mu])[0], f"round {rnd}: gradient of the means", tol=2e-2)
            if auto:
                m = (logp.detach() + 0.5).mean()
                ctx.eq(pol.alpha_optim.grads[-1][0].reshape(-1), [-m.item()], "gradient of log alpha", tol=1e-2)
                pol_alpha = ctx.torch.exp(ctx.tensor(ctx.np.array([t["la2"]])))
                ctx.eq(pol.alpha.reshape(-1), pol_alpha, "temperature follows the updated log alpha")
                if ups == 1:
                    ctx.eq(stats.alpha_loss, -(la * m)[0].item(), "reported temperature loss", tol=1e-2)
        nw, nk = [0.25 * x + 0.75 * y for x, y in zip(t["w"].reshape(-1), old_w)], [0.25 * x + 0.75 * y for x, y in zip(t["k"].reshape(-1), old_k)]
        ctx.eq(pol.critic_old.w.detach().flatten(), nw, f"round {rnd}: target w", tol=1e-2)
        ctx.eq(pol.critic_old.k.detach().flatten(), nk, f"round {rnd}: target k", tol=1e-2)
        old_w, old_k = nw, nk
