"""P24: on-policy losses (policy gradient, A2C, PPO) and the natural-gradient family (NPG, TRPO)."""
from harness.h_returns import fill, gae_ref, slots
from harness.h_value import obs_ids
from harness.nets import Optim, PTable
from symx.ctx import harness


class Dist:
    """action distribution with arbitrary log-probabilities c0 + c1 a and entropy per state"""

    def __init__(self, ctx, rows):
        self.ctx, self.rows = ctx, rows

    def log_prob(self, a):
        return self.rows[:, 0] + self.rows[:, 1] * a.reshape(-1)

    def entropy(self):
        return self.rows[:, 2]

    @property
    def mode(self):
        return self.rows[:, 0].detach() * 0

    def sample(self):
        return self.rows[:, 0].detach() * 0


class StepOptim(Optim):
    """every step moves the parameters to the next given values"""

    def __init__(self, ctx, params, plans):
        super().__init__(ctx, *params)
        self.plans = plans

    def step(self, *a, **k):
        super().step()
        for p, plan in zip(self.params, self.plans):
            if self.steps <= len(plan):
                p.data.copy_(self.ctx.tensor(self.ctx.np.array(plan[self.steps - 1])))
                self.ctx.moved(p)


def make(ctx, cls, total, moves=0, **kw):
    import gymnasium as gym
    import tianshou.policy as P
    c = [ctx.reals("c" if m == 0 else f"c{m}_", (total, 3), -3, 3) for m in range(moves + 1)]
    v = [ctx.reals("v" if m == 0 else f"v{m}_", total) for m in range(moves + 1)]
    actor = PTable(ctx, c[0])
    args = dict(actor=actor, dist_fn=lambda x: Dist(ctx, x), action_space=gym.spaces.Discrete(2), action_scaling=False)
    critic = None
    if cls != "PG":
        critic = PTable(ctx, [[x] for x in v[0]], False)
        args["critic"] = critic
        args["optim"] = StepOptim(ctx, (actor.table, critic.table), ([x for x in c[1:]], [[[y] for y in x] for x in v[1:]]))
    else:
        args["optim"] = StepOptim(ctx, (actor.table,), (c[1:],))
    return getattr(P, cls + "Policy")(**args, **kw), c, v


def batch_of(ctx, n, ppo=False):
    from tianshou.data import Batch
    np = ctx.np
    d = dict(act=ctx.reals("act", n), adv=ctx.reals("adv", n), returns=ctx.reals("ret", n), v_s=ctx.reals("vs", n), logp_old=ctx.reals("lpo", n, -3, 3))
    return Batch(obs=np.arange(n), info=Batch(), **{k: ctx.tensor(x) for k, x in d.items()}), d


def rows_seen(ctx, net, k):
    """the row ids of the k-th minibatch"""
    return [int(x) for x in net.calls[k]["obs"]]


def covers(ctx, seen, n, size, lab):
    """the minibatches of one pass are a partition of the rows in chunks of `size` (a short rest joins the last one)"""
    ctx.check(sorted(x for s in seen for x in s) == list(range(n)), f"{lab}: every row once per pass")
    k = max(n // size, 1) if size else 1
    ctx.check(len(seen) == k and all(len(s) == size for s in seen[:-1]), f"{lab}: minibatch sizes")


class raw_stats:
    """SequenceSummaryStats.from_sequence keeps the sequence itself (its statistics are decided by P39)"""

    def __enter__(self):
        from tianshou.data import SequenceSummaryStats as S
        self.S, self.old = S, S.__dict__["from_sequence"]

        class Seq(S):
            def __init__(self, seq):
                self.seq = list(seq)
        S.from_sequence = staticmethod(lambda seq: Seq(seq))

    def __exit__(self, *a):
        self.S.from_sequence = self.old


def stat_check(ctx, lab, got, vals):
    ctx.check(len(got.seq) == len(vals), f"{lab}: one entry per step")
    for k, (x, y) in enumerate(zip(got.seq, vals)):
        ctx.eq(x, y, f"{lab}: entry {k}", tol=1e-2)


def logp(ctx, c, i, a):
    return c[i, 0] + c[i, 1] * a


def tmin(ctx, a, b):
    return ctx.torch.where(a < b, a, b)


class clip_recorder:
    """records clip_grad_norm_ calls (the parameters' gradients live outside the stand-in tensors)"""

    def __init__(self, opt):
        import torch
        self.mod, self.opt, self.calls = torch.nn.utils, opt, []

    def __enter__(self):
        self.old = self.mod.clip_grad_norm_
        self.mod.clip_grad_norm_ = lambda ps, max_norm=None, *a, **k: self.calls.append((list(ps), max_norm, self.opt.steps, self.opt.zeroed))
        return self

    def __exit__(self, *a):
        self.mod.clip_grad_norm_ = self.old


@harness("P24", params=[dict(n=2, bs=None), dict(n=3, bs=1)], thorough=[dict(n=3, bs=2), dict(n=4, bs=2)])
def pg_learn(ctx, n, bs):
    """policy gradient: -mean(log pi(a) * return) on every minibatch, each row once per repetition"""
    pol, c, _ = make(ctx, "PG", n, moves=1)
    b, d = batch_of(ctx, n)
    b.act, b.returns = ctx.np.array(d["act"]), ctx.np.array(d["returns"])
    repeat = ctx.pick("repeat", [1, 2]) if bs is None else 1
    with raw_stats():
        st = pol.learn(b, bs, repeat)
    per = len(pol.optim.grads) // repeat
    ctx.check(per * repeat == len(pol.actor.calls) == pol.optim.zeroed, "one zero_grad and one step per minibatch")
    losses = []
    for k in range(len(pol.optim.grads)):
        rows = rows_seen(ctx, pol.actor, k)
        tab = c[min(k, 1)]
        losses.append(-sum(logp(ctx, tab, i, d["act"][i]) * d["returns"][i] for i in rows) / len(rows))
        (G,) = pol.optim.grads[k]
        for i in range(n):
            w = -d["returns"][i] / len(rows) if i in rows else 0.0
            ctx.eq_grad(G[i], [w, w * d["act"][i], 0.0], f"step {k}: gradient of row {i}", tol=1e-2)
    for r in range(repeat):
        covers(ctx, [rows_seen(ctx, pol.actor, k) for k in range(r * per, (r + 1) * per)], n, bs, f"pass {r}")
    stat_check(ctx, "loss", st.loss, losses)


@harness("P24", params=[dict(n=2, bs=None), dict(n=3, bs=1)], thorough=[dict(n=3, bs=2), dict(n=4, bs=2)])
def a2c_learn(ctx, n, bs):
    """A2C: actor loss + vf_coef * value regression - ent_coef * entropy, gradients clipped between backward and step"""
    norm = ctx.pick("max_grad_norm", [None, 0.5])
    pol, c, v = make(ctx, "A2C", n, moves=1, vf_coef=0.25, ent_coef=0.125, max_grad_norm=norm)
    b, d = batch_of(ctx, n)
    repeat = ctx.pick("repeat", [1, 2]) if bs is None else 1
    with clip_recorder(pol.optim) as rec, raw_stats():
        st = pol.learn(b, bs, repeat)
    steps = len(pol.optim.grads)
    ctx.check(steps % repeat == 0 and steps == len(pol.actor.calls) == pol.optim.zeroed, "one zero_grad and one step per minibatch")
    if norm:
        ps = {id(pol.actor.table), id(pol.critic.table)}
        ctx.check([({id(p) for p in x[0]}, x[1], x[2], x[3]) for x in rec.calls] == [(ps, norm, k, k + 1) for k in range(steps)], "all gradients are clipped before every step")
    else:
        ctx.check(not rec.calls, "no clipping without max_grad_norm")
    al, vl, el, tl = [], [], [], []
    for k in range(steps):
        rows = rows_seen(ctx, pol.actor, k)
        m = len(rows)
        t, u = c[min(k, 1)], v[min(k, 1)]
        al.append(-sum(logp(ctx, t, i, d["act"][i]) * d["adv"][i] for i in rows) / m)
        vl.append(sum((u[i] - d["returns"][i]) * (u[i] - d["returns"][i]) for i in rows) / m)
        el.append(sum(t[i, 2] for i in rows) / m)
        tl.append(al[-1] + 0.25 * vl[-1] - 0.125 * el[-1])
        G, H = pol.optim.grads[k]
        for i in range(n):
            on = i in rows
            ctx.eq_grad(G[i], [-d["adv"][i] / m, -d["adv"][i] * d["act"][i] / m, -0.125 / m] if on else [0.0] * 3, f"step {k}: policy gradient of row {i}", tol=1e-2)
            ctx.eq_grad(H[i], [0.25 * 2 * (u[i] - d["returns"][i]) / m if on else 0.0], f"step {k}: value gradient of row {i}", tol=1e-2)
    per = steps // repeat
    for r in range(repeat):
        covers(ctx, [rows_seen(ctx, pol.actor, k) for k in range(r * per, (r + 1) * per)], n, bs, f"pass {r}")
    for lab, got, vals in (("actor", st.actor_loss, al), ("value", st.vf_loss, vl), ("entropy", st.ent_loss, el), ("total", st.loss, tl)):
        stat_check(ctx, lab, got, vals)


@harness("P24", params=[dict(n=1), dict(n=2)], thorough=[dict(n=2, full=True)], budget=60)
def ppo_learn(ctx, n, full=False):
    """PPO: clipped (dual-clipped) surrogate, clipped value loss, entropy bonus; optional advantage normalisation"""
    if n > 1 and not full:
        dual, vclip, norm = ctx.pick("config", [(None, False, True), (2.0, True, False)])
    else:
        dual, vclip = ctx.pick("dual", [None, 2.0]), ctx.pick("vclip", [False, True])
        norm = ctx.pick("norm", [False, True]) if n > 1 else False
    pol, c, v = make(ctx, "PPO", n, eps_clip=0.25, dual_clip=dual, value_clip=vclip, advantage_normalization=norm, vf_coef=0.25, ent_coef=0.125, max_grad_norm=0.5)
    b, d = batch_of(ctx, n)
    with clip_recorder(pol.optim) as rec, raw_stats():
        st = pol.learn(b, None, 1)
    ctx.check(len(rec.calls) == 1 and rec.calls[0][1:] == (0.5, 0, 1) and {id(p) for p in rec.calls[0][0]} == {id(pol.actor.table), id(pol.critic.table)}, "all gradients are clipped before the step")
    T = ctx.torch
    rows = rows_seen(ctx, pol.actor, 0)
    ctx.check(sorted(rows) == list(range(n)), "every row once")
    tab, val = pol.actor.table, pol.critic.table
    t = lambda k: ctx.tensor(ctx.np.array(d[k][ctx.np.array(rows)]))
    act, adv, ret, vs, lpo = (t(k) for k in ("act", "adv", "returns", "v_s", "logp_old"))
    if norm:
        mean = adv.sum() / n
        std = T.sqrt(((adv - mean) ** 2).sum() / (n - 1))
        adv = (adv - mean) / (std + 1e-8)
    ratio = T.exp(tab[rows, 0] + tab[rows, 1] * act - lpo)
    clipped = T.where(ratio < 0.75, ratio * 0 + 0.75, T.where(ratio > 1.25, ratio * 0 + 1.25, ratio))
    obj = tmin(ctx, ratio * adv, clipped * adv)
    if dual:
        bound = 2.0 * adv
        obj = T.where(adv < 0, T.where(obj > bound, obj, bound), obj)
    al = -obj.mean()
    u = val[rows, 0]
    e1 = (ret - u) ** 2
    if vclip:
        dv = u - vs
        e2 = (ret - (vs + T.where(dv < -0.25, dv * 0 - 0.25, T.where(dv > 0.25, dv * 0 + 0.25, dv)))) ** 2
        e1 = T.where(e1 > e2, e1, e2)
    vl, el = e1.mean(), tab[:, 2].mean()
    tot = al + 0.25 * vl - 0.125 * el
    for lab, got, x in (("actor", st.clip_loss, al), ("value", st.vf_loss, vl), ("entropy", st.ent_loss, el)):
        stat_check(ctx, lab, got, [x.item()])
    stat_check(ctx, "total", st.loss, [st.clip_loss.seq[0] + 0.25 * st.vf_loss.seq[0] - 0.125 * st.ent_loss.seq[0]])
    ctx.eq(st.gradient_steps, 1, "reported gradient steps")
    g1, g2 = ctx.grad(tot, [tab, val])
    ctx.eq_grad(pol.optim.grads[0][0], g1, "gradient of the policy", tol=2e-2)
    ctx.eq_grad(pol.optim.grads[0][1], g2, "gradient of the values", tol=2e-2)


@harness("P24", params=[dict(n=2)], thorough=[dict(n=3)])
def ppo_process(ctx, n):
    """PPO: old log-probabilities of the taken actions, values and advantages are those of the policy before the update, in row order,
    whatever the evaluation batch size; recompute_advantage refreshes returns and advantages but keeps the old log-probabilities"""
    np = ctx.np
    rec = ctx.pick("recompute", [False, True])
    buf, logs = fill(ctx, (n,), n, flags="one")
    obs_ids(ctx, buf, n)
    act = ctx.reals("act", n)
    buf._meta.__dict__["act"] = np.array(act)
    pol, c, v = make(ctx, "PPO", 2 * n, moves=1, recompute_advantage=rec, advantage_normalization=False, discount_factor=0.5, gae_lambda=0.5,
                     max_batchsize=ctx.pick("mb", [1, 256]), eps_clip=0.25, vf_coef=0.5, ent_coef=0.0)
    batch, idx = buf.sample(0)
    b = pol.process_fn(batch, buf, idx)
    adv = gae_ref(ctx, logs, lambda p: v[0][p], lambda p: v[0][n + p], 0.5, 0.5)
    rows = [p for _, _, p, _ in slots(logs)]
    for r, p in enumerate(rows):
        ctx.eq(b.logp_old[r], logp(ctx, c[0], p, act[p]), f"row {r}: old log-probability", tol=1e-2)
        ctx.eq(b.v_s[r], v[0][p], f"row {r}: old value", tol=1e-2)
        ctx.eq(b.adv[r], adv[p], f"row {r}: advantage", tol=1e-2)
        ctx.eq(b.returns[r], adv[p] + v[0][p], f"row {r}: return", tol=1e-2)
    ctx.check(not any(getattr(b, k).requires_grad for k in ("logp_old", "v_s", "adv", "returns")), "nothing of it carries gradients")
    pol.actor.calls.clear()
    with raw_stats():
        st = pol.learn(b, None, 2)
    # second pass: value targets of the moved or of the original critic
    adv2 = gae_ref(ctx, logs, lambda p: v[1][p], lambda p: v[1][n + p], 0.5, 0.5) if rec else adv
    base = v[1] if rec else v[0]
    _, H = pol.optim.grads[1]
    for p in rows:
        ctx.eq_grad(H[p], [0.5 * 2 * (v[1][p] - (adv2[p] + base[p])) / n], f"second pass: value gradient of slot {p}", tol=1e-2)
    (G, _) = pol.optim.grads[1]
    for p in rows:
        T = ctx.torch
        one = lambda x: ctx.tensor(np.array([x]))
        ratio, a2 = T.exp(one(logp(ctx, c[1], p, act[p]) - logp(ctx, c[0], p, act[p]))), one(adv2[p])
        used = T.where(a2 > 0, T.where(ratio < 1.25, ratio, ratio * 0), T.where(ratio > 0.75, ratio, ratio * 0))
        ctx.eq_grad(G[p, 0], (-used * a2 / n)[0], f"second pass: policy gradient of slot {p}", tol=2e-2)


# ------------------------------------------------------------------------------------------------ NPG / TRPO
def register_kl():
    from torch.distributions import register_kl as reg
    from torch.distributions.kl import _KL_REGISTRY
    if (Dist, Dist) not in _KL_REGISTRY:
        reg(Dist, Dist)(lambda p, q: (q.rows[:, 2] - p.rows[:, 2]) ** 2 / 2)
        from torch.distributions import kl
        kl._KL_MEMOIZE.clear()


def natural(ctx, cls, n, **kw):
    """policy whose natural-gradient direction and curvature product are arbitrary"""
    import torch
    register_kl()
    pol, c, v = make(ctx, cls, n, advantage_normalization=False, **kw)
    d, m = ctx.reals("d", 3 * n, -2, 2), ctx.reals("m", 3 * n, -2, 2)
    curv = sum(x * y for x, y in zip(d, m))
    ctx.assume(curv > 0.0625)           # positive definite Fisher matrix
    asked = []
    flat = lambda y: ctx.grad(y, [pol.actor.table])[0].flatten()

    def get_flat_grad(y, model, **k):
        ctx.check(model is pol.actor, "policy gradients are taken with respect to the actor")
        asked.append(y)
        return flat(y)

    pol._get_flat_grad = get_flat_grad
    pol._conjugate_gradients = lambda g, kl, nsteps=10: (asked.append(g), -ctx.tensor(d))[1]
    pol._MVP = lambda x, kl: ctx.tensor(m)
    return pol, c[0], v[0], d, curv, asked


def old_table(pol):
    return pol.actor.table.detach().clone()


@harness("P24", params=[dict(n=1), dict(n=2)], thorough=[dict(n=3)])
def npg_learn(ctx, n):
    """NPG: one natural step of the configured size along the direction solved for the loss gradient; critic regressed n times"""
    iters = ctx.pick("iters", [1, 2])
    pol, c, v, d, curv, asked = natural(ctx, "NPG", n, actor_step_size=0.25, optim_critic_iters=iters)
    b, q = batch_of(ctx, n)
    with raw_stats():
        st = pol.learn(b, None, 1)
    loss = -sum(logp(ctx, c, i, q["act"][i]) * q["adv"][i] for i in range(n)) / n
    stat_check(ctx, "actor loss", st.actor_loss, [loss])
    G = asked[2].reshape(n, 3)
    for i in range(n):
        ctx.eq(G[i], [-q["adv"][i] / n, -q["adv"][i] * q["act"][i] / n, 0.0], f"the direction is solved for the loss gradient, row {i}", tol=1e-2)
    new = pol.actor.table.detach().flatten()
    for k in range(3 * n):
        ctx.eq(new[k], c.reshape(-1)[k] + 0.25 * d[k], f"parameter {k} after the step", tol=1e-2)
    stat_check(ctx, "kl", st.kl, [sum((0.25 * d[3 * i + 2]) ** 2 / 2 for i in range(n)) / n])
    ctx.check(pol.optim.steps == iters == pol.optim.zeroed, "critic iterations")
    for G in pol.optim.grads:
        for i in range(n):
            ctx.eq_grad(G[1][i], [2 * (v[i] - q["returns"][i]) / n], f"value gradient of row {i}", tol=1e-2)
    stat_check(ctx, "vf", st.vf_loss, [sum((v[i] - q["returns"][i]) ** 2 for i in range(n)) / n])


@harness("P24", params=[dict(n=1, tries=2)], thorough=[dict(n=2, tries=2), dict(n=1, tries=3)], budget=60)
def trpo_learn(ctx, n, tries):
    """TRPO: the first step (largest, then shrunk) inside the trust region that lowers the surrogate loss is taken; if there is none the
    policy is left as it was"""
    import warnings
    pol, c, v, d, curv, asked = natural(ctx, "TRPO", n, max_kl=0.125, backtrack_coeff=0.5, max_backtracks=tries, optim_critic_iters=1)
    b, q = batch_of(ctx, n)
    T = ctx.torch
    with warnings.catch_warnings(), raw_stats():
        warnings.simplefilter("ignore")
        st = pol.learn(b, None, 1)
    one = lambda x: ctx.tensor(ctx.np.array([x]))
    s0 = T.sqrt(2 * 0.125 / one(curv))[0]
    new = pol.actor.table.detach().flatten()
    base = c.reshape(-1)

    def surrogate(tab):
        return -sum(T.exp(one(tab[3 * i] + tab[3 * i + 1] * q["act"][i] - q["logp_old"][i]))[0] * q["adv"][i] for i in range(n)) / n

    l0 = surrogate(base)
    rest, ok_any = True, False
    sz = s0
    for k in range(tries):
        cand = [base[j] + sz * d[j] for j in range(3 * n)]
        kl = sum((sz * d[3 * i + 2]) ** 2 / 2 for i in range(n)) / n
        l1 = surrogate(cand)
        good = bool(ctx.And(kl < 0.125, l1 < l0)) if not ctx.sym else (bool(kl < 0.125) and bool(l1 < l0))
        if good:
            break
        sz = sz * 0.5
    if good:
        ctx.eq([new[j] for j in range(3 * n)], cand, "parameters after the accepted step", tol=1e-2)
        stat_check(ctx, "step size", st.step_size, [sz])
    else:
        ctx.eq([new[j] for j in range(3 * n)], [base[j] for j in range(3 * n)], "no acceptable step: the policy is unchanged", tol=1e-2)
        stat_check(ctx, "step size", st.step_size, [0.0])
    stat_check(ctx, "actor loss", st.actor_loss, [l0])
    ctx.check(pol.optim.steps == 1, "critic iterations")


@harness("P24", params=[dict(n=1)] + [dict(n=2, F=k) for k in range(3)], thorough=[dict(n=2)])
def conjugate_gradients(ctx, n, F=None):
    """the direction solves F x = g for positive definite F and every g, including g = 0"""
    register_kl()
    pol, c, v = make(ctx, "NPG", 1)
    if F is None:
        f = [ctx.real(f"f{i}", 0.5, 2) for i in range(n)]
        M = [[f[i] if i == j else 0.0 for j in range(n)] for i in range(n)]
        g = [ctx.real(f"g{i}", -2, 2) for i in range(n)]
        if n > 1 and not ctx.maybe(g[0] == 0):
            ctx.assume(g[0] != 0)
    else:
        M = [[[1.0, 0.0], [0.0, 2.0]], [[2.0, 1.0], [1.0, 2.0]], [[1.0, -0.5], [-0.5, 3.0]]][F]
        g = [ctx.pick(f"g{i}", [-2.0, 0.0, 0.75, 1.0]) for i in range(n)]     # the rational functions of a symbolic g are beyond the solver
    pol._MVP = lambda x, kl: ctx.torch.stack([sum(M[i][j] * x[j] for j in range(n)) for i in range(n)])
    x = pol._conjugate_gradients(ctx.tensor(ctx.np.array(g)), None, nsteps=10 if F is None else 2)
    for i in range(n):
        d = sum(M[i][j] * x[j] for j in range(n)) - g[i]
        ctx.check(ctx.And(d <= 1e-4, d >= -1e-4), f"component {i}")
