"""P26: the multi-agent manager shows each policy exactly its own rows, rewards and observations."""
from harness.h_returns import fill
from symx.ctx import harness

AGENTS = ["blue", "red", "green"]


def manager(ctx, k, spies=None, discrete=True):
    """manager over k recording policies; agent order of the environment is blue, red, green"""
    import gymnasium as gym
    from types import SimpleNamespace
    from tianshou.policy import BasePolicy, MultiAgentPolicyManager
    from tianshou.policy.base import TrainingStats
    from tianshou.data import Batch
    np = ctx.np

    class Stats(TrainingStats):
        def __init__(self, v):
            super().__init__()
            self.v = v

        def get_loss_stats_dict(self):
            return {"v": self.v, "w": 2}

    class Spy(BasePolicy):
        """action table[row id]; every call is recorded"""

        def __init__(self, table, noise, **kw):
            super().__init__(action_space=gym.spaces.Discrete(5), **kw)
            self.tab, self.noise, self.seen = table, noise, []

        def forward(self, batch, state=None, **kw):
            o = batch.obs.obs if hasattr(batch.obs, "mask") else batch.obs
            ids = [int(ctx.conc(x)) for x in o]
            self.seen.append(("forward", batch, state, kw, self.is_within_training_step))
            out = Batch(act=np.array([self.tab[i] for i in ids]), logits=np.array([self.tab[i] + 100 for i in ids]))
            if state is not None or self.stateful:
                out.state = Batch(h=np.array([self.tab[i] + 200 for i in ids]))
            return out
        stateful = False

        def exploration_noise(self, act, batch):
            ids = [int(ctx.conc(x)) for x in batch.obs.obs]
            self.seen.append(("noise", np.array(act), ids))
            return act + np.array([self.noise[i] for i in ids])

        def process_fn(self, batch, buffer, indices):
            self.seen.append(("process", batch, np.array(buffer.rew), np.array(indices), self.is_within_training_step))
            if self.target is not None:
                return self.compute_nstep_return(batch, buffer, indices, self.target, gamma=0.5, n_step=2)
            batch.mark = np.array(indices)
            return batch
        target = None

        def learn(self, batch, *a, **kw):
            self.seen.append(("learn", batch, a, kw, self.is_within_training_step))
            return Stats(self.stat)
        stat = None
    tab, noise = ctx.reals("t", (k, 4)), ctx.reals("e", (k, 4))
    pols = [Spy(tab[i], noise[i]) for i in range(k)]
    env = SimpleNamespace(agents=AGENTS[:k], agent_idx={a: i for i, a in enumerate(AGENTS[:k])}, action_space=gym.spaces.Discrete(5),
                          observation_space=gym.spaces.Discrete(5))
    return MultiAgentPolicyManager(policies=pols, env=env), pols, tab, noise


def owners(ctx, n, k):
    return [AGENTS[ctx.pick(f"agent{i}", list(range(k)))] for i in range(n)]


@harness("P26", params=[dict(n=3, k=2), dict(n=2, k=3)], thorough=[dict(n=4, k=2), dict(n=3, k=3)], must_reach=False)
def forward_dispatch(ctx, n, k):
    """each row's action comes from its agent's policy, which sees its own rows in order and nothing else"""
    from tianshou.data import Batch
    from tianshou.utils.torch_utils import policy_within_training_step
    np = ctx.np
    man, pols, tab, noise = manager(ctx, k)
    who = owners(ctx, n, k)
    mask, rewarded, stateful = ctx.pick("mask", [True, False]), ctx.pick("rew", [True, False]), ctx.pick("state", [0, 1, 2])
    rew, masks = ctx.reals("r", (n, k)), ctx.bools("m", (n, 2))
    obs = Batch(obs=np.arange(n), agent_id=np.array(who), **(dict(mask=np.array(masks)) if mask else {}))
    b = Batch(obs=obs, info=Batch(), **(dict(rew=np.array(rew)) if rewarded else {}))
    state = None
    if stateful == 2:
        state = {a: ("hidden", a) for a in AGENTS[:k]}
    for p in pols:
        p.stateful = stateful > 0
    training = ctx.pick("training", [False, True])
    with policy_within_training_step(man, training):
        out = man(b, state, extra=7)
    ctx.check(len(out.act) == n, "one action per row")
    for i in range(n):
        ctx.eq(out.act[i], tab[AGENTS.index(who[i]), i], f"row {i}: action of {who[i]}")
    for j, (a, p) in enumerate(zip(AGENTS[:k], pols)):
        rows = [i for i in range(n) if who[i] == a]
        if not rows:
            ctx.check(not p.seen, f"{a}: not asked without rows")
            ctx.check(a in out.out.get_keys() and len(out.out[a].get_keys()) == 0 and len(out.state[a].get_keys()) == 0, f"{a}: empty output")
            continue
        ctx.check(len(p.seen) == 1, f"{a}: asked once")
        kind, bb, st, kw, within = p.seen[0]
        ctx.check(within is training and p.is_within_training_step is False, f"{a}: knows whether it acts within a training step")
        ctx.check(kw == {"extra": 7} and st == (None if state is None else ("hidden", a)), f"{a}: own state and arguments")
        ctx.check(len(bb) == len(rows), f"{a}: number of rows")
        seen = bb.obs.obs if mask else bb.obs
        ctx.eq(seen, np.array(rows), f"{a}: own observations in order")
        if mask:
            ctx.eq(bb.obs.mask, [masks[i] for i in rows], f"{a}: own masks")
        if rewarded:
            ctx.eq(bb.rew, [rew[i, j] for i in rows], f"{a}: own rewards")
        ctx.eq(out.out[a].act, [tab[j, i] for i in rows], f"{a}: output")
        ctx.eq(out.out[a].logits, [tab[j, i] + 100 for i in rows], f"{a}: further outputs")
        if stateful:
            ctx.eq(out.state[a].h, [tab[j, i] + 200 for i in rows], f"{a}: next state")
        else:
            ctx.check(len(out.state[a].get_keys()) == 0, f"{a}: no state")
    ctx.eq(b.obs.obs, np.arange(n), "the batch is not modified: observations")
    ctx.check(list(b.obs.agent_id) == who, "the batch is not modified: agents")
    if rewarded:
        ctx.eq(b.rew, rew, "the batch is not modified: rewards")
    # exploration noise on top
    if training:
        for p in pols:
            p.seen.clear()
        act = man.exploration_noise(np.array(out.act), b)
        for i in range(n):
            j = AGENTS.index(who[i])
            ctx.eq(act[i], tab[j, i] + noise[j, i], f"row {i}: noise of {who[i]}")
        for j, (a, p) in enumerate(zip(AGENTS[:k], pols)):
            rows = [i for i in range(n) if who[i] == a]
            ctx.check([s[2] for s in p.seen] == ([rows] if rows else []), f"{a}: noise for its own rows")


@harness("P26", params=[dict(n=3, k=2), dict(n=2, k=3)], thorough=[dict(n=4, k=2), dict(n=3, k=3)], must_reach=False)
def update_dispatch(ctx, n, k):
    """processing and learning: own rows, indices and reward column; the buffer's reward is restored"""
    from tianshou.data import Batch, ReplayBuffer
    from tianshou.utils.torch_utils import policy_within_training_step
    np = ctx.np
    man, pols, tab, noise = manager(ctx, k)
    who = owners(ctx, n, k)
    mask = ctx.pick("mask", [True, False])
    rew = ctx.reals("r", (n, k))
    buf = ReplayBuffer(n + 1)
    for i in range(n):
        m = dict(mask=np.array([True, False])) if mask else {}
        buf.add(Batch(obs=Batch(obs=i, agent_id=who[i], **m), act=i, rew=np.array(rew[i]), terminated=i == n - 1, truncated=False,
                      obs_next=Batch(obs=i + 10, agent_id=who[(i + 1) % n], **m), info=Batch()))
    rev = ctx.pick("order", [False, True])
    order = list(range(n))[::-1] if rev else list(range(n))
    idx = np.array(order)
    b = buf[idx]
    stats = ctx.reals("s", k)
    for p, s in zip(pols, stats):
        p.stat = s
    training = ctx.pick("training", [False, True])
    with policy_within_training_step(man, training):
        res = man.process_fn(b, buf, idx)
        ctx.eq(buf.rew[:n], rew, "the buffer's rewards are restored")
        ctx.check(set(res.get_keys()) == set(AGENTS[:k]), "one result per agent")
        out = man.learn(res, 3, repeat=5)
    expect = {}
    for j, (a, p) in enumerate(zip(AGENTS[:k], pols)):
        rows = [i for i in order if who[i] == a]
        if not rows:
            ctx.check(not p.seen and len(res[a].get_keys()) == 0, f"{a}: nothing to do")
            continue
        expect.update({f"{a}/v": stats[j], f"{a}/w": 2})
        ctx.check([s[0] for s in p.seen] == ["process", "learn"], f"{a}: processes and learns once")
        _, bb, seen_rew, ind, within = p.seen[0]
        ctx.check(within is training and p.seen[1][4] is training, f"{a}: knows whether it is within a training step")
        ctx.check([int(x) for x in ind] == rows, f"{a}: own indices")
        ctx.eq(bb.act, rows, f"{a}: own actions")
        ctx.eq(bb.rew, [rew[i, j] for i in rows], f"{a}: own rewards")
        ctx.eq(seen_rew[:n], rew[:, j], f"{a}: own reward column in the buffer")
        ctx.eq(bb.obs.obs if mask else bb.obs, rows, f"{a}: own observations")
        ctx.eq(bb.obs_next.obs if mask else bb.obs_next, [i + 10 for i in rows], f"{a}: own next observations")
        _, learned, args, kw, _ = p.seen[1]
        ctx.eq(learned.mark, rows, f"{a}: learns from what it processed")
        ctx.check(kw == {"repeat": 5}, f"{a}: arguments")
    got = out.get_loss_stats_dict()
    ctx.check(set(got) == set(expect), "statistics of exactly the agents that learned")
    for key, v in expect.items():
        ctx.eq(got[key], v, f"statistic {key}")


@harness("P26", params=[dict(n=3)], thorough=[dict(n=4)])
def own_returns(ctx, n):
    """n-step returns of an agent sum its own rewards along the stored steps"""
    from tianshou.data import Batch, ReplayBuffer
    np = ctx.np
    man, pols, tab, noise = manager(ctx, 2)
    who = [AGENTS[i % 2] for i in range(n)]
    rew = ctx.reals("r", (n, 2))
    done = [ctx.bool(f"d{i}") for i in range(n)]
    buf = ReplayBuffer(n)
    for i in range(n):
        buf.add(Batch(obs=Batch(obs=i, agent_id=who[i]), act=i, rew=np.array(rew[i]), terminated=np.array(done[i]), truncated=False,
                      obs_next=Batch(obs=i, agent_id=who[i]), info=Batch()))
    q = ctx.reals("q", (2, n))
    for j, p in enumerate(pols):
        p.target = lambda b, ix, j=j: ctx.tensor(np.array(q[j])[ix].reshape(-1, 1))
    res = man.process_fn(buf[np.arange(n)], buf, np.arange(n))
    for j, a in enumerate(AGENTS[:2]):
        rows = [i for i in range(n) if who[i] == a]
        for r, i in enumerate(rows):
            last = i == n - 1
            d0 = ctx.maybe(done[i])
            if d0:
                exp = rew[i, j]
            elif last:
                exp = rew[i, j] + 0.5 * q[j, i]
            else:
                exp = rew[i, j] + 0.5 * rew[i + 1, j] + ctx.ite(done[i + 1], 0.0, 0.25 * q[j, i + 1])
            ctx.eq(res[a].returns[r].reshape(-1)[0], exp, f"{a}: return of step {i}")
    ctx.eq(buf.rew, rew, "rewards restored")


@harness("P26", params=[dict()])
def modes(ctx):
    """training mode reaches every policy and is what the manager itself reports, so that temporary switches are undone"""
    from tianshou.utils.torch_utils import torch_train_mode
    man, pols, _, _ = manager(ctx, 2)
    ctx.check([p.agent_id for p in pols] == AGENTS[:2] and [man.policies[a] for a in AGENTS[:2]] == pols, "one policy per agent, told its name")
    a, b = ctx.pick("a", [True, False]), ctx.pick("b", [True, False])
    ctx.check(man.train(a) is man and man.training is a and all(p.training is a for p in pols), "train")
    with torch_train_mode(man, b):
        ctx.check(man.training is b and all(p.training is b for p in pols), "temporary mode")
    ctx.check(man.training is a and all(p.training is a for p in pols), "the mode is restored")
    man.eval()
    ctx.check(not man.training and not any(p.training for p in pols), "eval")


@harness("P26", params=[dict()])
def stats_times(ctx):
    """aggregated training time"""
    from tianshou.policy.multiagent.mapolicy import MapTrainingStats
    from tianshou.policy.base import TrainingStats
    st = {}
    ts = ctx.reals("t", 3, 0, 9)
    for a, t in zip(AGENTS, ts):
        st[a] = TrainingStats()
        st[a].train_time = t
    kind = ctx.pick("kind", ["min", "max", "mean"])
    got = MapTrainingStats(st, kind).train_time
    if kind == "mean":
        ctx.eq(got, (ts[0] + ts[1] + ts[2]) / 3, "mean")
    else:
        ctx.check(ctx.Or(*[ctx.eqv(got, t) for t in ts]), "one of them")
        for t in ts:
            ctx.check(got >= t - 1e-9 if kind == "max" else got <= t + 1e-9, kind)
    ctx.raises(ValueError, lambda: MapTrainingStats(st, "median"), "unknown aggregator")
