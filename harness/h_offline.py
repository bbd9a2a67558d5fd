"""P28: imitation, offline and intrinsically motivated policies optimise exactly their stated objectives."""
from harness.h_actor import EPS32, LOG2PI2, box, check_critic, check_sync, data, mk_ddpg, mk_sac, opt, set_step, squash, tmin  # noqa: F401
from harness.h_onpolicy import raw_stats, stat_check
from harness.h_returns import fill, slots
from harness.h_value import obs_ids
from harness.nets import ActCritic, Net, Optim, PTable, ids
from symx.ctx import harness


def acts(ctx, n, A, name="act"):
    a = ctx.ints(name, n, 0, A - 1)
    return ctx.np.array([int(ctx.conc(x)) for x in a])


def one_step(ctx, optim, ref, leaves, lab):
    """the optimiser made one step, along the gradient of the reference loss"""
    ctx.check(optim.steps == 1, f"{lab}: one step")
    for i, (g, r) in enumerate(zip(optim.grads[0], ctx.grad(ref, leaves))):
        ctx.eq_grad(g, r, f"{lab}: gradient {i}", tol=2e-2)


def pick_rows(tab, act):
    return [tab[i, int(a)] for i, a in enumerate(act)]


def mean(xs):
    xs = list(xs)
    return sum(xs[1:], xs[0]) / len(xs)


def huber(ctx, d):
    T = ctx.torch
    return T.where(d.abs() < 1, 0.5 * d * d, d.abs() - 0.5)


# ------------------------------------------------------------------ behaviour cloning
@harness("P28", params=[dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def bc(ctx, n):
    """imitation: mean squared error (continuous) or cross entropy (discrete) with the expert's action; greedy or direct actions"""
    import gymnasium as gym
    from tianshou.data import Batch
    from tianshou.policy import ImitationPolicy
    np = ctx.np
    kind = ctx.pick("kind", ["discrete", "continuous"])
    A = 2
    net = PTable(ctx, ctx.reals("t", (n + 1, A), -4, 4))
    o = opt(ctx, net)
    space = gym.spaces.Discrete(A) if kind == "discrete" else gym.spaces.Box(-1.0, 1.0, (A,))
    pol = ImitationPolicy(actor=net, optim=o, action_space=space, **({} if kind == "discrete" else dict(action_scaling=False)))
    if kind == "discrete":
        act = acts(ctx, n, A)
    else:
        act = ctx.reals("a", (n, A))
    b = Batch(obs=np.arange(n), act=np.array(act), info=Batch())
    out = pol(b)
    for i in range(n):
        if kind == "discrete":
            ctx.implies(net.table[i, 0].detach() > net.table[i, 1].detach(), out.act[i] == 0, f"row {i}: greedy")
            ctx.implies(net.table[i, 0].detach() < net.table[i, 1].detach(), out.act[i] == 1, f"row {i}: greedy")
        else:
            ctx.eq(out.act[i].detach(), net.table[i].detach(), f"row {i}: the actor's output")
    stats = pol.learn(b)
    if kind == "discrete":
        lp = ctx.torch.log_softmax(net.table[:n], -1)
        ref = -mean(pick_rows(lp, act))
    else:
        ref = mean([(net.table[i, j] - act[i, j]) ** 2 for i in range(n) for j in range(A)])
    one_step(ctx, o, ref, [net.table], "actor")
    ctx.eq(stats.loss, ref.item(), "reported loss", tol=1e-2)


# ------------------------------------------------------------------ discrete BCQ / CQL / CRR
def disc_batch(ctx, n, A, returns=True, K=None):
    from tianshou.data import Batch
    np = ctx.np
    act = acts(ctx, n, A)
    b = Batch(obs=np.arange(n), act=np.array(act), info=Batch())
    ret = None
    if returns:
        ret = ctx.reals("ret", (n, K or 1))
        b.returns = ctx.tensor(np.array(ret))
    return b, act, ret


def mk_dbcq(ctx, total, A, old=True, **kw):
    import gymnasium as gym
    from tianshou.policy import DiscreteBCQPolicy
    t = dict(q=ctx.reals("q", (total, A)), l=ctx.reals("l", (total, A), -4, 4), o=ctx.reals("o", (total, A)))
    net, imi = PTable(ctx, t["q"]), PTable(ctx, t["l"])
    o = opt(ctx, net, imi)
    pol = DiscreteBCQPolicy(model=net, imitator=imi, optim=o, action_space=gym.spaces.Discrete(A), target_update_freq=2, **kw)
    pol.model_old = PTable(ctx, t["o"])
    pol.model_old.eval()
    pol._iter = 1
    return pol, t, o


@harness("P28", params=[dict(n=1, A=2), dict(n=1, A=3)], thorough=[dict(n=2, A=3)])
def dbcq_act(ctx, n, A):
    """discrete BCQ: the best action among those whose probability is at least the threshold times that of the likeliest"""
    from tianshou.data import Batch
    import math
    tau = ctx.pick("tau", [0.0, 0.25, 0.5])
    pol, t, o = mk_dbcq(ctx, n, A, unlikely_action_threshold=tau)
    out = pol(Batch(obs=ctx.np.arange(n), info=Batch()))
    lt = math.log(tau) if tau else None
    for x in t["q"].reshape(-1):
        ctx.assume(ctx.And(x < 1e6, x > -1e6))      # values are far from the largest float, which masks unsupported actions
    for i in range(n):
        for j in range(A):
            for k in range(A):
                if k != j:
                    ctx.assume(ctx.Or(t["l"][i, j] - t["l"][i, k] > lt + 1e-3, t["l"][i, j] - t["l"][i, k] < lt - 1e-3) if tau else True)
                    d = t["q"][i, j] - t["q"][i, k]
                    ctx.assume(ctx.Or(d > 0.0625, d < -0.0625))
        ok = [ctx.And(*[t["l"][i, j] - t["l"][i, k] >= lt for k in range(A)]) if tau else True for j in range(A)]
        for j in range(A):
            best = ctx.And(ok[j], *[ctx.Or(ctx.Not(ok[k]), t["q"][i, j] > t["q"][i, k]) for k in range(A) if k != j])
            ctx.implies(best, out.act[i] == j, f"row {i}: best supported action")
        ctx.eq(out.q_value[i].detach(), t["q"][i], "values")
        ctx.eq(out.imitation_logits[i].detach(), t["l"][i], "logits")


@harness("P28", params=[dict(n=1, A=2), dict(n=2, A=2)], thorough=[dict(n=2, A=3)])
def dbcq_learn(ctx, n, A):
    """discrete BCQ: Huber loss on the values plus cross entropy plus the logits' penalty"""
    pol, t, o = mk_dbcq(ctx, n, A, imitation_logits_penalty=0.25)
    b, act, ret = disc_batch(ctx, n, A)
    stats = pol.learn(b)
    q, l = pol.model.table, pol.imitator.table
    ql = mean(huber(ctx, x - ret[i, 0]) for i, x in enumerate(pick_rows(q, act)))
    il = -mean(pick_rows(ctx.torch.log_softmax(l, -1), act))
    rl = mean([l[i, j] * l[i, j] for i in range(n) for j in range(A)])
    one_step(ctx, o, ql + il + 0.25 * rl, [q, l], "learner")
    ctx.eq([stats.q_loss, stats.i_loss, stats.reg_loss, stats.loss], [ql.item(), il.item(), rl.item(), (ql + il + 0.25 * rl).item()], "reported losses", tol=1e-2)


@harness("P28", params=[dict(n=2, A=2)], thorough=[dict(n=3, A=2)])
def dbcq_target(ctx, n, A):
    """discrete BCQ: target network's value of the action the policy itself would take"""
    buf, logs = fill(ctx, (n,), n, flags="one")
    obs_ids(ctx, buf, n)
    pol, t, o = mk_dbcq(ctx, 2 * n, A, unlikely_action_threshold=0.0, discount_factor=0.5)
    for i in range(2 * n):
        ctx.assume(ctx.Or(t["q"][i, 0] - t["q"][i, 1] > 0.0625, t["q"][i, 1] - t["q"][i, 0] > 0.0625))
    batch, idx = buf.sample(0)
    out = pol.process_fn(batch, buf, idx)
    for r, (lg, j, p, d) in enumerate(slots(logs)):
        s = n + p
        q = ctx.ite(t["q"][s, 0] > t["q"][s, 1], t["o"][s, 0], t["o"][s, 1])
        ctx.eq(out.returns[r].reshape(-1), [d["rew"] + 0.5 * ctx.ite(d["terminated"], 0.0, q)], f"row {r}: target", tol=1e-2)


@harness("P28", params=[dict(n=1, A=2, K=2), dict(n=2, A=2, K=1)], thorough=[dict(n=2, A=2, K=2)])
def dcql(ctx, n, A, K):
    """discrete CQL: quantile regression plus the weighted conservative penalty (log-sum-exp minus the data's value)"""
    import gymnasium as gym
    from tianshou.policy import DiscreteCQLPolicy
    np = ctx.np
    if K == 1:
        K = 2
    net = PTable(ctx, ctx.reals("z", (n, A, K)))
    o = opt(ctx, net)
    pol = DiscreteCQLPolicy(model=net, optim=o, action_space=gym.spaces.Discrete(A), num_quantiles=K, min_q_weight=0.5)
    b, act, ret = disc_batch(ctx, n, A, K=K)
    stats = pol.learn(b)
    z = net.table
    T = ctx.torch
    tot, prio = [], []
    for i in range(n):
        cur, row, pr = z[i, int(act[i])], 0, 0
        for k in range(K):
            for j in range(K):
                d = float(0) + (ret[i, j] - cur[k])
                h = huber(ctx, d)
                w = T.where(d.detach() <= 0, 1 - (k + 0.5) / K, (k + 0.5) / K)
                row, pr = row + h * w / K, pr + h.detach() / K
        tot.append(row)
        prio.append(pr)
    qr = mean(tot)
    q = z.mean(2)
    pen = mean(T.logsumexp(q, 1)[i] - q[i, int(act[i])] for i in range(n))
    one_step(ctx, o, qr + 0.5 * pen, [z], "learner")
    ctx.eq([stats.qr_loss, stats.cql_loss, stats.loss], [qr.item(), pen.item(), (qr + 0.5 * pen).item()], "reported losses", tol=1e-2)
    ctx.eq(b.weight, [p.item() for p in prio], "priorities", tol=1e-2)


@harness("P28", params=[dict(n=2, mode=m, sym=s) for m in ("exp", "binary", "all") for s in ("critic", "actor") if m + s != "expactor"] + [dict(n=1, mode="exp", sym="actor")],
         thorough=[dict(n=2, mode="exp", sym="actor")], budget=60)
def dcrr(ctx, n, mode, sym):
    """discrete CRR: expected target, advantage-weighted cloning, conservative penalty; target networks follow by the frequency"""
    import gymnasium as gym
    from tianshou.data import Batch
    from tianshou.policy import DiscreteCRRPolicy
    np = ctx.np
    T = ctx.torch
    A, M = 2, 2 * n
    fixed = np.arange(M * A).reshape(M, A) % 3 / 4.0
    if sym == "actor":
        l, lo, q, qo = ctx.reals("l", (M, A), -3, 3), ctx.reals("lo", (M, A), -3, 3), fixed, fixed[::-1] - 0.5
    else:
        q, qo, l, lo = ctx.reals("q", (M, A), -3, 3), ctx.reals("qo", (M, A), -3, 3), fixed, fixed[::-1] - 0.5
    actor, critic = PTable(ctx, l), PTable(ctx, q, False)
    target = ctx.pick("target", [True, False])
    o = opt(ctx, actor, critic)
    pol = DiscreteCRRPolicy(actor=actor, critic=critic, optim=o, action_space=gym.spaces.Discrete(A), discount_factor=0.5, policy_improvement_mode=mode,
                            ratio_upper_bound=2.0, beta=0.5, min_q_weight=0.25, target_update_freq=2 if target else 0)
    if target:
        pol.train()
        ctx.check(not pol.actor_old.training and not pol.critic_old.training and pol.actor.training and pol.critic.training, "targets stay in evaluation mode")
        ctx.eq(pol.actor_old.table.detach(), l, "the target actor starts as a copy")
        ctx.eq(pol.critic_old.table.detach(), q, "the target critic starts as a copy")
        pol.actor_old, pol.critic_old = PTable(ctx, lo), PTable(ctx, qo, False)
        pol._iter = 1
    act, rew, done = acts(ctx, n, A), ctx.reals("r", n, -4, 4), ctx.bools("d", n)
    b = Batch(obs=np.arange(n), obs_next=np.arange(n, 2 * n), act=np.array(act), rew=np.array(rew), done=np.array(done), info=Batch())
    stats = pol.learn(b)
    tq = (pol.critic_old if target else critic).table.detach()
    at, qt = actor.table, critic.table
    C = T.distributions.Categorical      # the same torch formula, so that both sides are the same term
    with T.no_grad():
        pt = C(logits=(pol.actor_old if target else actor)(b.obs_next)[0]).probs
    dist = C(logits=actor(b.obs)[0])
    lp, nq, eq = dist.logits, (tq[n:] * pt).sum(1), (qt[:n] * dist.probs).sum(1)
    ix = T.arange(n), T.as_tensor(act)
    qa = qt[:n][ix]
    tgt = ctx.tensor(np.array(rew)) + 0.5 * T.where(ctx.tensor(np.array(done), T.bool), nq * 0, nq)
    cl = 0.5 * (qa - tgt) ** 2
    adv = qa - eq
    if mode == "exp":
        e = T.exp(adv / 0.5)
        coef = T.where(e > 2.0, e * 0 + 2.0, e)
    elif mode == "binary":
        coef = T.where(adv > 0, adv.detach() * 0 + 1, adv.detach() * 0)
    else:
        coef = 1.0
    al = -lp[ix] * coef          # each action's own weight
    ml = T.logsumexp(qt[:n], 1) - qa
    al, cl, ml = al.mean(), cl.mean(), ml.mean()
    ctx.eq([stats.critic_loss, stats.cql_loss], [cl.item(), ml.item()], "reported losses", tol=1e-2)
    ctx.eq(stats.actor_loss, al.item(), "reported actor loss", tol=1e-2)
    if mode != "exp":       # the gradient through the exponential weight is left to the translation check
        one_step(ctx, o, al + cl + 0.25 * ml, [at, qt], "learner")
    else:
        ctx.check(o.steps == 1, "one step")
    if target:
        ctx.eq(pol.actor_old.table.detach(), lo, "no synchronisation in an odd round")
        pol.learn(b)
        ctx.eq(pol.actor_old.table.detach(), l, "target actor synchronised")
        ctx.eq(pol.critic_old.table.detach(), q, "target critic synchronised")


# ------------------------------------------------------------------ TD3+BC
@harness("P28", params=[dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def td3bc(ctx, n):
    """TD3+BC: normalised value ascent plus behaviour cloning, every update_actor_freq updates"""
    T = ctx.torch
    freq = ctx.pick("freq", [1, 2])
    pol, t = mk_ddpg(ctx, n, "TD3", tau=0.25, update_actor_freq=freq)
    from tianshou.policy import TD3BCPolicy
    pol2 = TD3BCPolicy(actor=pol.actor, actor_optim=pol.actor_optim, critic=pol.critic, critic_optim=pol.critic_optim, critic2=pol.critic2,
                       critic2_optim=pol.critic2_optim, action_space=box(), action_scaling=False, action_bound_method=None, tau=0.25, update_actor_freq=freq, alpha=2.0)
    pol2.actor_old, pol2.critic_old, pol2.critic2_old = pol.actor_old, pol.critic_old, pol.critic2_old
    for i in range(n):
        v = t["w"][i] + t["k"][i] * t["a"][i]
        ctx.assume(ctx.Or(v > 0.125, v < -0.125))
    steps = 0
    for rnd in range(2):
        b, act, ret, wt = data(ctx, n, False, rnd)
        stats = pol2.learn(b)
        td1, l1 = check_critic(ctx, f"round {rnd} critic 1", pol2.critic_optim.grads[rnd], n, t["w"], t["k"], act, ret, wt, n)
        td2, l2 = check_critic(ctx, f"round {rnd} critic 2", pol2.critic2_optim.grads[rnd], n, t["w2"], t["k2"], act, ret, wt, n)
        ctx.eq([stats.critic1_loss, stats.critic2_loss], [l1, l2], "reported critic losses", tol=1e-2)
        steps += rnd % freq == 0
        ctx.check(pol2.actor_optim.steps == steps, f"round {rnd}: actor updates")
        if rnd % freq == 0:
            a = pol2.actor.table[:, 0]
            q = ctx.tensor(t["w"]) + ctx.tensor(t["k"]) * a
            lam = 2.0 / q.abs().mean().detach()
            ref = -lam * q.mean() + ((a - ctx.tensor(ctx.np.array(act))) ** 2).mean()
            ctx.eq(stats.actor_loss, ref.item(), f"round {rnd}: actor loss", tol=2e-2)
            ctx.eq_grad(pol2.actor_optim.grads[-1][0], ctx.grad(ref, [pol2.actor.table])[0], f"round {rnd}: gradient of the actor", tol=2e-2)


# ------------------------------------------------------------------ ICM
@harness("P28", params=[dict(n=2)], thorough=[dict(n=3)])
def icm(ctx, n):
    """ICM: scaled forward error added to the reward, restored afterwards; its loss mixes inverse and forward errors; the policy is delegated to"""
    import gymnasium as gym
    from tianshou.data import Batch
    from tianshou.policy import BasePolicy, ICMPolicy
    from tianshou.policy.base import TrainingStats
    from tianshou.utils.torch_utils import policy_within_training_step
    np, T = ctx.np, ctx.torch
    A = 2
    seen = []

    class Inner(BasePolicy):
        def forward(self, batch, state=None, **kw):
            seen.append(("forward", batch, state, kw, self.is_within_training_step))
            return "out"

        def process_fn(self, batch, buffer, indices):
            seen.append(("process", np.array(batch.rew), self.is_within_training_step))
            batch.extra = np.array(indices)
            return batch

        def post_process_fn(self, batch, buffer, indices):
            seen.append(("post", np.array(batch.rew)))

        def learn(self, batch, *a, **kw):
            seen.append(("learn", batch, kw, self.is_within_training_step))
            return TrainingStats()

        def exploration_noise(self, act, batch):
            return act + 1

        def set_eps(self, eps):
            self.eps = eps

    class Model(Net):
        def __init__(self):
            super().__init__(ctx)
            self.par("mse", ctx.reals("mse", n, 0, 4))
            self.par("hat", ctx.reals("hat", (n, A), -4, 4))

        def forward(self, s1, act, s2):
            self.calls.append((s1, act, s2))
            ix = ids(ctx, s1)
            return self.mse[ix], self.hat[ix]
    model = Model()
    o = opt(ctx, model)
    inner = Inner(action_space=gym.spaces.Discrete(A))
    pol = ICMPolicy(policy=inner, model=model, optim=o, lr_scale=0.5, reward_scale=0.25, forward_loss_weight=0.75, action_space=gym.spaces.Discrete(A))
    rew, act = ctx.reals("r", n), acts(ctx, n, A)
    b = Batch(obs=np.arange(n), obs_next=np.arange(n), act=np.array(act), rew=np.array(rew), info=Batch())
    training = ctx.pick("training", [False, True])
    with policy_within_training_step(pol, training):
        got = pol.process_fn(b, None, np.arange(n))
        aug = [rew[i] + 0.25 * model.mse[i].detach() for i in range(n)]
        ctx.eq(got.rew, [x.item() for x in aug], "reward plus scaled curiosity", tol=1e-2)
        ctx.eq(seen[-1][1], [x.item() for x in aug], "the policy processes the augmented reward", tol=1e-2)
        ctx.check(seen[-1][2] is training and inner.is_within_training_step is False, "the policy knows whether it is in a training step")
        stats = pol.learn(got, batch_size=3)
        ctx.check(seen[-1][0] == "learn" and seen[-1][2] == {"batch_size": 3} and seen[-1][3] is training, "the policy learns")
        pol.post_process_fn(got, None, np.arange(n))
        ctx.eq(seen[-1][1], [x.item() for x in aug], "post-processing still sees the augmented reward", tol=1e-2)
        ctx.eq(got.rew, rew, "the original reward is restored", tol=1e-2)
        ctx.check(pol(b, "st", x=1) == "out" and seen[-1][2:] == ("st", {"x": 1}, training), "actions come from the policy")
    inv = -mean(pick_rows(T.log_softmax(model.hat, -1), act))
    fw = model.mse.mean()
    ref = (0.25 * inv + 0.75 * fw) * 0.5
    one_step(ctx, o, ref, [model.mse, model.hat], "curiosity module")
    ctx.eq([stats.icm_loss, stats.icm_forward_loss, stats.icm_inverse_loss], [ref.item(), fw.item(), inv.item()], "reported losses", tol=1e-2)
    ctx.eq(pol.exploration_noise(np.array(rew), b), [x + 1 for x in rew], "exploration noise of the policy")
    pol.set_eps(0.125)
    ctx.check(inner.eps == 0.125, "exploration rate of the policy")
    for m in (False, True):
        pol.train(m)
        ctx.check(pol.training is m and inner.training is m and model.training is m, "training mode reaches the policy and the module")


# ------------------------------------------------------------------ GAIL
@harness("P28", params=[dict(n=2, k=1, ne=2), dict(n=2, k=2, ne=2)], thorough=[dict(n=3, k=2, ne=1), dict(n=4, k=2, ne=1)], budget=60)
def gail(ctx, n, k, ne):
    """GAIL: reward -log(1 - D) for the policy's own steps, discriminator steps on equal numbers of policy and expert steps"""
    import gymnasium as gym
    from tianshou.data import Batch, ReplayBuffer
    from tianshou.policy import GAILPolicy, PPOPolicy
    np, T = ctx.np, ctx.torch

    class Disc(Net):
        device = "cpu"

        def __init__(self):
            super().__init__(ctx)
            self.par("d", ctx.reals("d", n + ne, -4, 4))

        def forward(self, x):
            self.calls.append(x)
            return self.d[x[:, 0].long()].reshape(-1, 1)
    disc = Disc()
    actor = PTable(ctx, ctx.reals("t", (n, 1)))
    actor.output_dim = 1
    critic = PTable(ctx, ctx.reals("v", (n, 1)), False)
    exp = ReplayBuffer(ne)
    ea = ctx.reals("ea", ne)
    for i in range(ne):
        exp.add(Batch(obs=np.array([float(n + i)]), act=np.array([ea[i]]), rew=0.0, terminated=False, truncated=False, obs_next=np.array([0.0]), info=Batch()))
    o = opt(ctx, disc)
    pol = GAILPolicy(actor=actor, critic=critic, optim=opt(ctx, actor, critic), dist_fn=None, action_space=gym.spaces.Box(-1.0, 1.0, (1,)), expert_buffer=exp, disc_net=disc,
                     disc_optim=o, disc_update_num=k, action_scaling=False)
    pa = ctx.reals("pa", n)
    b = Batch(obs=np.arange(n).reshape(n, 1).astype(np.float32), act=np.array([[x] for x in pa]), rew=np.zeros(n), info=Batch())
    old = PPOPolicy.__dict__["process_fn"], PPOPolicy.__dict__["learn"]
    seen = []

    class PStats:
        def __init__(self):
            from tianshou.data import SequenceSummaryStats as S
            z = None
            self.__dict__.update(loss=z, clip_loss=z, vf_loss=z, ent_loss=z, gradient_steps=4)
    PPOPolicy.process_fn = lambda s, bb, bu, ix: (seen.append(np.array(bb.rew)), bb)[1]
    PPOPolicy.learn = lambda s, bb, bs, rep, **kw: (seen.append((bb, bs, rep, o.steps)), PStats())[1]
    try:
        pol.process_fn(b, None, np.arange(n))
        rew = [-T.nn.functional.logsigmoid(-disc.d[i]).item() for i in range(n)]
        ctx.eq(seen[0], rew, "rewards handed to PPO", tol=1e-2)
        disc.calls.clear()
        with raw_stats():
            stats = pol.learn(b, 5, 2)
        ctx.check(len(seen) == 2 and seen[1][0] is b and seen[1][1:3] == (5, 2), "PPO learns afterwards with the given settings")
    finally:
        PPOPolicy.process_fn, PPOPolicy.learn = old
    bsz = n // k
    m = max(n // bsz, 1)
    ctx.check(o.steps == m and seen[1][3] == m, "one discriminator step per minibatch, before the policy learns")
    calls = disc.calls
    ctx.check(len(calls) == 2 * m, "policy and expert data per step")
    rows, losses = [], []
    for s in range(m):
        pi = [int(ctx.conc(x)) for x in calls[2 * s][:, 0]]
        ex = [int(ctx.conc(x)) for x in calls[2 * s + 1][:, 0]]
        rows += pi
        for r, i in enumerate(pi):
            ctx.eq(calls[2 * s][r, 1], pa[i], "the policy's own action")
        for r, i in enumerate(ex):
            ctx.check(n <= i < n + ne, "expert observations")
            ctx.eq(calls[2 * s + 1][r, 1], ea[i - n], "the expert's own action")
        ctx.check(len(ex) == bsz, "as many expert steps as policy steps (up to the merged rest)")
        ls = T.nn.functional.logsigmoid
        ref = -ls(-disc.d[pi]).mean() - ls(disc.d[ex]).mean()
        losses.append(ref.item())
        ctx.eq_grad(o.grads[s][0], ctx.grad(ref, [disc.d])[0], f"step {s}: gradient of the discriminator", tol=2e-2)
        ctx.eq(stats.acc_pi.seq[s], mean([T.where(disc.d[i].detach() < 0, 1.0, 0.0) for i in pi]), f"step {s}: accuracy on the policy", tol=1e-2)
        ctx.eq(stats.acc_exp.seq[s], mean([T.where(disc.d[i].detach() > 0, 1.0, 0.0) for i in ex]), f"step {s}: accuracy on the expert", tol=1e-2)
    stat_check(ctx, "discriminator loss", stats.disc_loss, losses)
    ctx.check(sorted(rows) == list(range(n)), "every step of the policy is used once")


# ------------------------------------------------------------------ CQL
class Acts(Net):
    """an arbitrary action and log-probability per state, plus a fresh noise value per row and call"""

    def __init__(self, ctx, mu, lp):
        super().__init__(ctx)
        self.par("mu", mu)
        self.par("lp", lp)


@harness("P28", params=[dict(n=1, R=1, mode="plain"), dict(n=2, R=1, mode="calibrated"), dict(n=1, R=2, mode="plain"), dict(n=1, R=2, mode="calibrated"), dict(n=1, R=1, mode="lagrange"), dict(n=1, R=1, mode="clamped")],
         thorough=[dict(n=2, R=2, mode=m) for m in ("plain", "calibrated", "lagrange")], budget=60)
def cql(ctx, n, R, mode):
    """CQL: SAC's updates plus the conservative penalty over random, current and next actions (calibrated, Lagrangian), clipped gradients, soft targets"""
    import sys
    from tianshou.data import Batch
    from tianshou.policy import CQLPolicy
    np, T = ctx.np, ctx.torch
    M = 2 * n
    t = {nm: ctx.reals(nm, M, -2, 2) for nm in ("mu", "lp", "w", "k", "w2", "k2", "wo", "ko", "wo2", "ko2")}
    if n * R > 1:               # keep the terms of the larger cases linear in the network outputs
        t.update({nm: np.arange(M) / 2 - j / 4 for j, nm in enumerate(("k", "k2", "ko", "ko2"))})
    nets = Acts(ctx, t["mu"], t["lp"]), ActCritic(ctx, t["w"], t["k"]), ActCritic(ctx, t["w2"], t["k2"])
    lal = ctx.param(np.array(ctx.reals("lal", 1, -2, 2)))
    aopt = Optim(ctx, lal)
    auto = mode == "plain" and ctx.pick("auto", [False, True])
    calls = []

    class Pol(CQLPolicy):       # SAC's own sampling is decided by P23
        def forward(self, batch, state=None, **kw):
            ix = ids(ctx, batch.obs)
            noise = ctx.tensor(np.array(ctx.reals(f"noise{len(calls)}", len(ix), -1, 1)))
            act, lp = self.actor.mu[ix] + noise, self.actor.lp[ix]
            calls.append(([int(x) for x in ix], noise))
            return Batch(act=act.reshape(-1, 1), log_prob=lp.reshape(-1, 1))
    pol = Pol(actor=nets[0], actor_optim=opt(ctx, nets[0]), critic=nets[1], critic_optim=opt(ctx, nets[1]), critic2=nets[2], critic2_optim=opt(ctx, nets[2]),
              action_space=box(), action_scaling=False, action_bound_method=None, cql_weight=0.5, tau=0.25, gamma=0.5, alpha=(-1.0, lal, aopt) if auto else 0.25,
              temperature=2.0, with_lagrange=mode in ("lagrange", "clamped"), lagrange_threshold=0.75, min_action=-0.5, max_action=1.5, num_repeat_actions=R,
              alpha_min=0.125, alpha_max=2.0, clip_grad=3.0, calibrated=mode == "calibrated")
    pol.critic_old, pol.critic2_old = ActCritic(ctx, t["wo"], t["ko"]), ActCritic(ctx, t["wo2"], t["ko2"])
    pol.cql_log_alpha = ctx.param(np.array([0.0 if mode == "lagrange" else 1.0]))
    pol.cql_alpha_optim = copt = Optim(ctx, pol.cql_log_alpha)
    act, rew, done, ret = ctx.reals("a", n, -2, 2), ctx.reals("r", n, -2, 2), ctx.bools("d", n), ctx.reals("ret", n, -4, 4)
    b = Batch(obs=np.arange(n).reshape(n, 1), obs_next=np.arange(n, M).reshape(n, 1), act=np.array([[x] for x in act]).astype(np.float32), rew=np.array(rew).astype(np.float32), done=np.array(done), info=Batch())
    if mode == "calibrated":
        b.calibration_returns = np.array(ret).astype(np.float32)
    mod, clips = sys.modules["tianshou.policy.imitation.cql"], []
    old = mod.clip_grad_norm_, T.nn.utils.clip_grad_norm_
    mod.clip_grad_norm_ = lambda ps, mx, *a, **kw: clips.append((list(ps), mx, pol.critic_optim.steps, pol.critic2_optim.steps))
    try:
        stats = pol.learn(b)
    finally:
        mod.clip_grad_norm_ = old[0]
    # actor (and entropy coefficient)
    ctx.check([c[0] for c in calls] == [list(range(n)), list(range(n, M)), [i for i in range(n) for _ in range(R)], [n + i for i in range(n) for _ in range(R)]],
              "actions are drawn for the states, the next states and R times for each of both")
    w, k, w2, k2 = nets[1].w, nets[1].k, nets[2].w, nets[2].k
    mu, lp = nets[0].mu, nets[0].lp
    a0, lp0 = mu[:n] + calls[0][1], lp[:n]
    q1, q2 = w[:n] + k[:n] * a0, w2[:n] + k2[:n] * a0
    al = (0.25 * lp0 - T.min(q1, q2)).mean() if not auto else (T.exp(lal.detach()) * lp0 - T.min(q1, q2)).mean()
    ctx.check(pol.actor_optim.steps == 1, "one step of the actor")
    for i, (g, r) in enumerate(zip(pol.actor_optim.grads[0], ctx.grad(al, [nets[0].mu, nets[0].lp]))):
        ctx.eq_grad(g, r, f"gradient {i} of the actor", tol=2e-2)
    ctx.eq(stats.actor_loss, al.item(), "reported actor loss", tol=1e-2)
    coef = T.exp(lal.detach()) if auto else 0.25
    if auto:
        ref = -(lal * (lp0.detach() - 1.0)).mean()
        one_step(ctx, aopt, ref, [lal], "entropy coefficient")
        ctx.eq([stats.alpha_loss, stats.alpha], [ref.item(), coef.item()], "reported entropy coefficient", tol=1e-2)
    # critics
    a1, lp1 = mu[n:] + calls[1][1], lp[n:]
    c1, c2 = pol.critic_old, pol.critic2_old
    wo, ko, wo2, ko2 = (ctx.tensor(np.array(t[x]))[n:] for x in ("wo", "ko", "wo2", "ko2"))
    nxt = T.min(wo + ko * a1.detach(), wo2 + ko2 * a1.detach()) - coef * lp1.detach()
    tgt = ctx.tensor(np.array(rew)) + 0.5 * T.where(ctx.tensor(np.array(done), T.bool), nxt * 0, nxt)
    z = ctx.tensor(np.array([-0.5 + 2.0 * u for u in ctx.draws("trand")]))
    ctx.check(len(z) == n * R, "R random actions per state")
    aa = ctx.tensor(np.array(act))
    ix = [i for i in range(n) for _ in range(R)]
    jx = [n + i for i in ix]
    lagr = mode in ("lagrange", "clamped")
    terms = []
    for j, (w_, k_) in enumerate(((w, k), (w2, k2))):
        cur = w_[:n] + k_[:n] * aa
        td = ((cur - tgt) ** 2).mean()
        vals = [w_[ix] + k_[ix] * z - float(__import__("math").log(0.5)), w_[ix] + k_[ix] * (mu[ix] + calls[2][1]) - lp[ix].detach(), w_[ix] + k_[ix] * (mu[jx] + calls[3][1]) - lp[jx].detach()]
        if mode == "calibrated":
            rr = ctx.tensor(np.array(ret))[ix]
            vals = [T.max(v, rr) for v in vals]
        cat = T.cat([v.reshape(n, R) for v in vals], 1)
        pen = T.logsumexp(cat / 2.0, dim=1).mean() * 0.5 * 2.0 - cur.mean() * 0.5
        terms.append((td, pen))
    cw = {"lagrange": 1.0, "clamped": 2.0}.get(mode)
    for j, (o, (td, pen), net) in enumerate(zip((pol.critic_optim, pol.critic2_optim), terms, nets[1:])):
        ref = td + (cw * (pen - 0.75) if lagr else pen)
        one_step(ctx, o, ref, [net.w, net.k], f"critic {j + 1}")
        ctx.eq(getattr(stats, f"critic{j + 1}_loss"), ref.item(), f"reported loss of critic {j + 1}", tol=2e-2)
        ctx.check(any(len(p) == 2 and p[0] is net.w and p[1] is net.k and mx == 3.0 and s[j] == 0 for p, mx, *s in clips), f"the gradient of critic {j + 1} is clipped before its step")
    if lagr:
        ctx.check(copt.steps == 1, "one step of the Lagrange multiplier")
        ca = T.clamp(pol.cql_log_alpha.exp(), 0.125, 2.0)
        ref = -(ca * (terms[0][1] - 0.75) + ca * (terms[1][1] - 0.75)) * 0.5
        ctx.eq_grad(copt.grads[0][0], ctx.grad(ref.sum(), [pol.cql_log_alpha])[0], "gradient of the Lagrange multiplier (none where it is clamped)", tol=2e-2)
        ctx.eq([stats.cql_alpha, stats.cql_alpha_loss], [cw, ref.item()], "reported Lagrange multiplier", tol=2e-2)
    else:
        ctx.check(copt.steps == 0 and stats.cql_alpha is None, "no Lagrange multiplier")
    check_sync(ctx, "critic 1", c1, dict(w=t["wo"], k=t["ko"]), t, 0.25)
    check_sync(ctx, "critic 2", c2, dict(w=t["wo2"], k=t["ko2"]), dict(w=t["w2"], k=t["k2"]), 0.25)


@harness("P28", params=[dict(n=2, d=2), dict(n=1, d=3)])
def cql_values(ctx, n, d):
    """CQL with several action dimensions: value of random actions minus the log-density 0.5 ** d, of the policy's actions minus their log-probability"""
    import math
    import gymnasium as gym
    import numpy
    from tianshou.data import Batch
    from tianshou.policy import CQLPolicy
    T, np = ctx.torch, ctx.np

    class Q(Net):
        """w[s] + k . a"""

        def __init__(self, ctx, w, k):
            super().__init__(ctx)
            self.par("w", w)
            self.par("k", k)

        def forward(self, obs, act, info=None):
            return (self.w[ids(self.ctx, obs)] + (T.as_tensor(act) * self.k).sum(-1)).reshape(-1, 1)
    k1, k2 = [0.5 * j - 0.25 for j in range(d)], [1.0 - j for j in range(d)]
    w1, w2 = ctx.reals("w1", 2 * n), ctx.reals("w2", 2 * n)
    c1, c2 = Q(ctx, w1, k1), Q(ctx, w2, k2)
    actor = PTable(ctx, [[0.0] * d])
    pa, lp = ctx.reals("pa", (n, d), -1, 1), ctx.reals("lp", n)
    seen = []

    class Pol(CQLPolicy):
        def forward(self, batch, state=None, **kw):
            seen.append([int(x) for x in ids(ctx, batch.obs)])
            return Batch(act=ctx.tensor(np.array(pa)), log_prob=ctx.tensor(np.array(lp)).reshape(-1, 1))
    sp = gym.spaces.Box(low=numpy.full(d, -0.5, dtype=numpy.float32), high=numpy.full(d, 1.5, dtype=numpy.float32))
    pol = Pol(actor=actor, actor_optim=opt(ctx, actor), critic=c1, critic_optim=opt(ctx, c1), critic2=c2, critic2_optim=opt(ctx, c2), cql_alpha_lr=1e-3, action_space=sp, action_scaling=False)
    a = ctx.reals("a", (n, d), -1, 1)
    val = lambda w, k, s, x: w[s] + sum(x[j] * k[j] for j in range(d))
    obs, other = ctx.torch.as_tensor(list(range(n))), ctx.torch.as_tensor(list(range(n, 2 * n)))
    v1, v2 = pol.calc_random_values(obs, ctx.tensor(np.array(a)))
    close = lambda x, y, lab: ctx.check(ctx.And(x - y <= 1e-3, x - y >= -1e-3), lab)
    for i in range(n):
        close(v1.reshape(-1)[i], val(w1, k1, i, a[i]) - d * math.log(0.5), f"critic 1, row {i}: random actions")
        close(v2.reshape(-1)[i], val(w2, k2, i, a[i]) - d * math.log(0.5), f"critic 2, row {i}: random actions")
    p1, p2 = pol.calc_pi_values(other, obs)
    ctx.check(seen == [list(range(n, 2 * n))], "actions are predicted for the states asked for")
    for i in range(n):
        close(p1.reshape(-1)[i], val(w1, k1, i, pa[i]) - lp[i], f"critic 1, row {i}: the policy's actions")
        close(p2.reshape(-1)[i], val(w2, k2, i, pa[i]) - lp[i], f"critic 2, row {i}: the policy's actions")


@harness("P28", params=[dict(n=2), dict(n=3)], thorough=[dict(n=4)])
def cql_buffer(ctx, n):
    """calibrated CQL: every transition of the prepared buffer carries the discounted return to the end of its episode (or of the data)"""
    buf, logs = fill(ctx, (n,), n, flags="sym")
    obs_ids(ctx, buf, n)
    t = {nm: [0.0] * 2 * n for nm in ("mu", "lp", "w", "k")}
    from tianshou.policy import CQLPolicy
    nets = Acts(ctx, t["mu"], t["lp"]), ActCritic(ctx, t["w"], t["k"]), ActCritic(ctx, t["w"], t["k"])
    cal = ctx.pick("calibrated", [True, False])
    pol = CQLPolicy(actor=nets[0], actor_optim=opt(ctx, nets[0]), critic=nets[1], critic_optim=opt(ctx, nets[1]), critic2=nets[2], critic2_optim=opt(ctx, nets[2]),
                    action_space=box(), action_scaling=False, action_bound_method=None, gamma=0.5, calibrated=cal)
    before = {k: ctx.np.array(buf._meta[k]) for k in ("obs", "rew", "terminated", "truncated", "done", "obs_next")}
    out = pol.process_buffer(buf)
    ctx.check(out is buf, "the buffer itself is prepared")
    for k, v in before.items():
        ctx.eq(buf._meta[k], v, f"{k} is untouched")
    batch, idx = buf.sample(0)
    ctx.check(("calibration_returns" in batch.keys()) == cal, "returns are added only if calibrated")
    if not cal:
        return
    rows = list(slots(logs))
    exp = [None] * len(rows)
    for r in range(len(rows) - 1, -1, -1):
        d = rows[r][3]
        nxt = exp[r + 1] if r + 1 < len(rows) else 0.0
        exp[r] = d["rew"] + 0.5 * ctx.ite(ctx.Or(d["terminated"], d["truncated"]), 0.0, nxt)
    ctx.eq(batch.calibration_returns, exp, "discounted return to the end of the episode", tol=1e-2)


# ------------------------------------------------------------------ BCQ
class VAE(Net):
    """arbitrary reconstruction, latent mean and deviation per state; decoding is arbitrary per state plus fresh noise"""

    def __init__(self, ctx, rec, mean, std, dec):
        super().__init__(ctx)
        for nm, v in (("rec", rec), ("mean", mean), ("std", std), ("dec", dec)):
            self.par(nm, v)

    def forward(self, obs, act):
        ix = ids(self.ctx, obs[:, 0])
        self.calls.append(("forward", [int(x) for x in ix], act))
        f = lambda v: v[ix].reshape(-1, 1)
        return f(self.rec), f(self.mean), f(self.std)

    def decode(self, obs, latent_z=None):
        ix = ids(self.ctx, obs[:, 0])
        noise = self.ctx.tensor(self.ctx.np.array(self.ctx.reals(f"dz{len(self.calls)}", len(ix), -1, 1)))
        self.calls.append(("decode", [int(x) for x in ix], noise))
        return (self.dec[ix] + noise).reshape(-1, 1)


class Perturb(Net):
    """a + p[s]"""

    def __init__(self, ctx, p):
        super().__init__(ctx)
        self.par("p", p)

    def forward(self, obs, act):
        ix = ids(self.ctx, obs[:, 0])
        return (act.reshape(-1) + self.p[ix]).reshape(-1, 1)


class Critic0(ActCritic):
    def forward(self, obs, act, info=None):
        return super().forward(obs[:, 0], act)


def mk_bcq(ctx, M, lmbda, S, lin=False):
    from tianshou.policy import BCQPolicy
    np = ctx.np
    t = {nm: ctx.reals(nm, M, -2, 2) for nm in ("p", "po", "w", "k", "w2", "k2", "wo", "ko", "wo2", "ko2", "rec", "mean", "dec")}
    if lin:
        t.update({nm: np.arange(M) / 2 - j / 4 for j, nm in enumerate(("k", "k2", "ko", "ko2"))})
    t["std"] = np.array([0.5 if i % 2 else 2.0 for i in range(M)])
    vae, per, c1, c2 = VAE(ctx, t["rec"], t["mean"], t["std"], t["dec"]), Perturb(ctx, t["p"]), Critic0(ctx, t["w"], t["k"]), Critic0(ctx, t["w2"], t["k2"])
    pol = BCQPolicy(actor_perturbation=per, actor_perturbation_optim=opt(ctx, per), critic=c1, critic_optim=opt(ctx, c1), critic2=c2, critic2_optim=opt(ctx, c2),
                    vae=vae, vae_optim=opt(ctx, vae), action_space=box(), gamma=0.5, tau=0.25, lmbda=lmbda, forward_sampled_times=S, num_sampled_action=S, action_scaling=False, action_bound_method=None)
    pol.actor_perturbation_target, pol.critic_target, pol.critic2_target = Perturb(ctx, t["po"]), Critic0(ctx, t["wo"], t["ko"]), Critic0(ctx, t["wo2"], t["ko2"])
    return pol, t


@harness("P28", params=[dict(n=1, S=2), dict(n=2, S=2)], thorough=[dict(n=2, S=3)])
def bcq_act(ctx, n, S):
    """BCQ: of the perturbed decoded candidates for a state, the one with the highest value is taken"""
    from tianshou.data import Batch
    np = ctx.np
    pol, t = mk_bcq(ctx, n, 0.75, S, True)
    out = pol(Batch(obs=np.arange(n).reshape(n, 1), info=Batch()))
    ctx.check([c[:2] for c in pol.vae.calls] == [("decode", [i] * S) for i in range(n)], "S candidates for each state")
    ctx.check(out.act.shape == (n, 1), "one action per state")
    for i in range(n):
        cand = [t["dec"][i] + pol.vae.calls[i][2][j] + t["p"][i] for j in range(S)]
        cand = [c.item() for c in cand]
        val = [t["w"][i] + t["k"][i] * c for c in cand]
        for j in range(S):
            ctx.implies(ctx.And(*[val[j] > val[m] + 1e-3 for m in range(S) if m != j]), ctx.And(out.act[i, 0] - cand[j] < 1e-3, cand[j] - out.act[i, 0] < 1e-3), f"state {i}: best candidate")


@harness("P28", params=[dict(n=1, S=1, lmbda=0.75), dict(n=2, S=2, lmbda=0.75), dict(n=1, S=2, lmbda=0.25)], thorough=[dict(n=2, S=2, lmbda=1.0), dict(n=2, S=3, lmbda=0.75)], budget=60)
def bcq(ctx, n, S, lmbda):
    """BCQ: VAE, twin critics towards the best of S candidates under the mixed target critics, perturbation ascends the critic; targets follow by tau"""
    from tianshou.data import Batch
    np, T = ctx.np, ctx.torch
    M = 2 * n
    pol, t = mk_bcq(ctx, M, lmbda, S, n * S > 1)
    vae, per, c1, c2 = pol.vae, pol.actor_perturbation, pol.critic, pol.critic2
    old = dict(po=t["po"], wo=t["wo"], ko=t["ko"], wo2=t["wo2"], ko2=t["ko2"])
    act, rew, done = ctx.reals("a", n, -2, 2), ctx.reals("r", n, -2, 2), ctx.bools("d", n)
    b = Batch(obs=np.arange(n).reshape(n, 1), obs_next=np.arange(n, M).reshape(n, 1), act=np.array([[x] for x in act]).astype(np.float32), rew=np.array(rew).astype(np.float32), done=np.array(done), info=Batch())
    stats = pol.learn(b)
    aa = ctx.tensor(np.array(act))
    ctx.check([c[:2] for c in vae.calls] == [("forward", list(range(n))), ("decode", [n + i for i in range(n) for _ in range(S)]), ("decode", list(range(n)))],
              "the VAE sees the data, S candidates per next state are decoded, one per state")
    ctx.eq(vae.calls[0][2].reshape(-1), act, "the VAE sees the data's actions")
    v = ((vae.rec[:n] - aa) ** 2).mean() + 0.5 * (-T.log(vae.std[:n]) + (vae.std[:n] ** 2 + vae.mean[:n] ** 2 - 1) / 2).mean()
    ctx.check(pol.vae_optim.steps == 1, "one step of the VAE")
    for i, (g, r) in enumerate(zip(pol.vae_optim.grads[0][:3], ctx.grad(v, [vae.rec, vae.mean, vae.std]))):
        ctx.eq_grad(g, r, f"gradient {i} of the VAE", tol=2e-2)
    ctx.eq(stats.vae_loss, v.item(), "reported VAE loss", tol=1e-2)
    ix = [n + i for i in range(n) for _ in range(S)]
    P = lambda nm: ctx.tensor(np.array(t[nm]))
    an = vae.dec.detach()[ix] + vae.calls[1][2]
    t1, t2 = P("wo")[ix] + P("ko")[ix] * an, P("wo2")[ix] + P("ko2")[ix] * an
    nxt = (lmbda * T.min(t1, t2) + (1 - lmbda) * T.max(t1, t2)).reshape(n, S).max(dim=1)[0]
    tgt = ctx.tensor(np.array(rew)) + 0.5 * T.where(ctx.tensor(np.array(done), T.bool), nxt * 0, nxt)
    for j, (o, net) in enumerate(((pol.critic_optim, c1), (pol.critic2_optim, c2))):
        ref = ((net.w[:n] + net.k[:n] * aa - tgt) ** 2).mean()
        one_step(ctx, o, ref, [net.w, net.k], f"critic {j + 1}")
        ctx.eq(getattr(stats, f"critic{j + 1}_loss"), ref.item(), f"reported loss of critic {j + 1}", tol=1e-2)
    pa = vae.dec[:n] + vae.calls[2][2] + per.p[:n]
    ref = -(c1.w[:n] + c1.k[:n] * pa).mean()
    one_step(ctx, pol.actor_perturbation_optim, ref, [per.p], "perturbation")
    ctx.eq(stats.actor_loss, ref.item(), "reported actor loss", tol=1e-2)
    check_sync(ctx, "perturbation", pol.actor_perturbation_target, dict(p=old["po"]), dict(p=t["p"]), 0.25)
    check_sync(ctx, "critic 1", pol.critic_target, dict(w=old["wo"], k=old["ko"]), t, 0.25)
    check_sync(ctx, "critic 2", pol.critic2_target, dict(w=old["wo2"], k=old["ko2"]), dict(w=t["w2"], k=t["k2"]), 0.25)
