"""P25: the update protocol of every policy and the schedule of target-network synchronisation."""
from harness.h_buffer import Log, to_batch, transition
from harness.h_onpolicy import StepOptim
from harness.h_value import Branch, FracNet, Proposal, TauNet, obs_ids
from harness.nets import PTable, Table
from symx.ctx import harness


def registered(net, *names):
    for nm in names or ("table",):
        t = net.__dict__.pop(nm)
        net._parameters[nm] = t
    return net


def value_policy(ctx, cls, n, freq, moves):
    """policy of the DQN family whose optimiser moves the network's table along a plan of arbitrary values -> (policy, plan, data)"""
    import gymnasium as gym
    import tianshou.policy as P
    np = ctx.np
    A, K = 2, 2
    shape = dict(DQN=(n, A), C51=(n, A, K), Rainbow=(n, A, K), QRDQN=(n, A, K), IQN=(n, A, 4), FQF=(n, A, K), BranchingDQN=(n, 2, A), DiscreteCQL=(n, A, K))[cls]
    lo, hi = (0.1, 0.9) if cls in ("C51", "Rainbow") else (-2, 2)
    plan = [ctx.reals(f"m{k}", shape, lo, hi) for k in range(moves + 1)]
    kw = dict(action_space=gym.spaces.Discrete(A), target_update_freq=freq)
    ret = (n, 1)
    if cls in ("C51", "Rainbow"):
        kw.update(num_atoms=K, v_min=-1.0, v_max=1.0)
        net, ret = registered(Table(ctx, plan[0])), (n, K)
    elif cls in ("QRDQN", "DiscreteCQL"):
        kw.update(num_quantiles=K)
        net, ret = registered(Table(ctx, plan[0])), (n, K)
    elif cls == "IQN":
        kw.update(sample_size=4, online_sample_size=K, target_sample_size=3, num_quantiles=K)
        net, ret = registered(TauNet(ctx, plan[0], ctx.tensor(np.full((n, 4), 0.5)))), (n, 3)
    elif cls == "FQF":
        prop = Proposal(ctx, np.full((n, 1), 0.5), np.full(n, 0.0))
        kw.update(fraction_model=prop, fraction_optim=StepOptim(ctx, (prop.inner, prop.ent), ([], [])), num_fractions=K)
        net, ret = registered(FracNet(ctx, plan[0], ctx.reals("qt", (n, A, 1), -2, 2))), (n, K)
    elif cls == "BranchingDQN":
        net, ret = registered(Branch(ctx, plan[0], 2, A)), (n, 2, 1)
    else:
        net = registered(Table(ctx, plan[0]))
    opt = StepOptim(ctx, (net.table,), (plan[1:],))
    pol = getattr(P, cls + "Policy")(model=net, optim=opt, **kw)

    def data(k):
        from tianshou.data import Batch
        act = np.zeros((n, 2) if cls == "BranchingDQN" else n, dtype=int)
        r = np.full(ret, 0.25)
        return Batch(obs=np.arange(n), obs_next=np.arange(n), act=act, info=Batch(), returns=ctx.tensor(r))
    return pol, plan, data


CLS = ["DQN", "C51", "Rainbow", "QRDQN", "IQN", "FQF", "BranchingDQN"]


@harness("P25", params=[dict(cls=c, n=1) for c in CLS], thorough=[dict(cls=c, n=2, rounds=7) for c in CLS])
def hard_sync(ctx, cls, n, rounds=4):
    """the target network equals the online network as it was before the last round divisible by the frequency, and never trains"""
    freq = ctx.pick("freq", [1, 2, 3])
    pol, plan, data = value_policy(ctx, cls, n, freq, rounds)
    cur = plan[0]
    ctx.check(pol.model_old is not pol.model and pol.model_old.table is not pol.model.table, "the target network is a separate copy")
    pol.train()
    ctx.check(pol.model.training and not pol.model_old.training, "train() leaves the target network in evaluation mode")
    ctx.eq(pol.model_old.table.detach(), plan[0], "initial copy")
    for k in range(rounds):
        pol.learn(data(k))
        if k % freq == 0:
            cur = plan[k]
        ctx.eq(pol.model.table.detach(), plan[k + 1], f"round {k}: online network")
        ctx.eq(pol.model_old.table.detach(), cur, f"round {k}: target network")
        ctx.check(not pol.model_old.training, f"round {k}: the target network stays in evaluation mode")
    pol.eval()
    ctx.check(not pol.model.training and not pol.training, "eval() switches the online network")


@harness("P25", params=[dict()])
def no_target(ctx):
    """frequency 0 keeps no target network; policies reject meaningless parameters"""
    pol, plan, data = value_policy(ctx, "DQN", 1, 0, 2)
    pol.learn(data(0))
    pol.learn(data(1))
    ctx.check(not hasattr(pol, "model_old"), "no target network")
    ctx.eq(pol.model.table.detach(), plan[2], "online network")


@harness("P25", params=[dict(n=2), dict(n=3)], thorough=[dict(n=4)])
def protocol(ctx, n):
    """update(): one sample, processed, learned in training mode and fed back with the very same indices; flags, mode and scheduler"""
    import gymnasium as gym
    from tianshou.data import PrioritizedReplayBuffer, Batch
    from tianshou.policy import BasePolicy
    from tianshou.policy.base import TrainingStats
    from tianshou.utils.torch_utils import policy_within_training_step
    np = ctx.np
    buf = PrioritizedReplayBuffer(n, alpha=1.0, beta=0.0)
    log = Log(n)
    for t in range(n):
        d = transition(ctx, t, flags=False)
        buf.add(to_batch(ctx, d))
        log.add(ctx, d)
    size = ctx.pick("size", [0, None, 1, 2])
    pri = ctx.reals("p", n, 0.25, 4)      # new priority per slot
    fail = ctx.pick("fail", [False, True])
    seen = []

    class Sched:
        steps = 0

        def step(self):
            seen.append(("sched",))
            Sched.steps += 1

    class Spy(BasePolicy):
        def forward(self, batch, state=None, **kw):
            raise AssertionError

        def process_fn(self, batch, buffer, indices):
            seen.append(("process", self.updating, self.training, indices, batch, buffer))
            batch.extra = np.array(indices)
            return batch

        def learn(self, batch, **kw):
            seen.append(("learn", self.updating, self.training, batch, kw))
            if fail:
                raise KeyError("learn")
            batch.weight = ctx.tensor(np.array(pri))[batch.extra]
            return TrainingStats()

        def post_process_fn(self, batch, buffer, indices):
            seen.append(("post", self.updating, self.training, indices, batch))
            return super().post_process_fn(batch, buffer, indices)

    pol = Spy(action_space=gym.spaces.Discrete(2), lr_scheduler=Sched())
    mode = ctx.pick("mode", [False, True])
    pol.train(mode)
    ctx.raises(RuntimeError, lambda: pol.update(size, buf), "an update outside of a training step is rejected")
    ctx.check(not seen, "nothing happened")
    before = np.array(buf.weight[np.arange(n)])
    with policy_within_training_step(pol):
        if fail:
            ctx.raises(KeyError, lambda: pol.update(size, buf, repeat=3), "errors of learn propagate")
        else:
            pol.update(size, buf, repeat=3)
        ctx.check(pol.is_within_training_step, "within a training step")
    ctx.check(not pol.is_within_training_step, "the flag is restored")
    ctx.check(pol.training is mode, "the training mode is restored")
    if fail:
        ctx.check([s[0] for s in seen] == ["process", "learn"] and Sched.steps == 0, "no feedback from a failed update")
        ctx.eq(buf.weight[np.arange(n)], before, "priorities untouched")
        return
    ctx.check([s[0] for s in seen] == ["process", "learn", "post", "sched"], "order of an update")
    pr, le, po = seen[:3]
    ctx.check(pr[1] and le[1] and po[1] and not pol.updating, "the updating flag is set exactly during the update")
    ctx.check(le[2] is True, "learning happens in training mode")
    ctx.check(le[3] is pr[4] and po[4] is pr[4] and po[3] is pr[3] and pr[5] is buf, "one batch, one set of indices, one buffer throughout")
    ctx.check(le[4] == {"repeat": 3}, "learning arguments are passed on")
    idx, rows = pr[3], pr[4]
    k = n if not size else size
    ctx.check(len(idx) == k, "sample size")
    for r in range(k):
        i = int(ctx.conc(idx[r]))
        ctx.eq(rows.obs[r], log.live()[i][1]["obs"], f"row {r} is the transition at its index")
    eps = np.finfo(np.float32).eps.item()
    picked = {int(ctx.conc(idx[r])) for r in range(k)}
    for p in range(n):
        ctx.eq(buf.weight[p], pri[p] + eps if p in picked else before[p], f"priority of slot {p}", tol=1e-3)
    ctx.check(pol.update(size, None) is not None if pol.is_within_training_step else True, "no buffer")


@harness("P25", params=[dict(cls=c) for c in ("DDPG", "TD3", "SAC", "DiscreteSAC", "REDQ")])
def soft_modes(ctx, cls):
    """target networks are separate copies in evaluation mode, whatever the mode of the policy; deep copies of the critic are independent"""
    import gymnasium as gym
    from harness.h_actor import box, mk_ddpg, mk_dsac, mk_redq, mk_sac, opt
    from harness.nets import ActCritic, GaussActor
    import tianshou.policy as P
    space = gym.spaces.Discrete(2) if cls == "DiscreteSAC" else box()
    if cls == "DiscreteSAC":
        actor, critic = PTable(ctx, ctx.reals("l", (1, 2))), PTable(ctx, ctx.reals("q", (1, 2)), False)
    else:
        actor = PTable(ctx, [[ctx.real("a")]]) if cls in ("DDPG", "TD3") else GaussActor(ctx, ctx.reals("mu", 1), [0.5])
        critic = ActCritic(ctx, ctx.reals("w", 1), ctx.reals("k", 1))
    import torch
    real = torch.optim.Adam
    kw = dict(actor=actor, actor_optim=opt(ctx, actor), critic=critic, critic_optim=opt(ctx, critic), action_space=space)
    if cls != "DiscreteSAC":
        kw.update(action_scaling=False)
    if cls in ("TD3", "SAC", "DiscreteSAC"):
        from copy import deepcopy
        c2 = deepcopy(critic)
        kw.update(critic2=c2, critic2_optim=opt(ctx, c2))
    pol = getattr(P, cls + "Policy")(**kw)
    pairs = [(pol.critic, pol.critic_old)]
    if cls in ("DDPG", "TD3"):
        pairs.append((pol.actor, pol.actor_old))
    if cls in ("TD3", "SAC", "DiscreteSAC"):
        pairs.append((pol.critic2, pol.critic2_old))
    for mode in (True, False, True):
        pol.train(mode)
        for on, old in pairs:
            ctx.check(on.training is mode, "online networks follow the policy's mode")
            ctx.check(old.training is False, "target networks stay in evaluation mode")
    for on, old in pairs:
        for (nm, p), (nm2, q) in zip(on._parameters.items(), old._parameters.items()):
            ctx.check(nm == nm2 and p is not q, "separate parameters")
            ctx.eq(p.detach(), q.detach(), f"{nm}: initial copy")
            was = q.detach().clone()
            p.data.copy_(p.data + 1)
            ctx.eq(q.detach(), was, f"{nm}: changing the online network leaves the copy alone")
