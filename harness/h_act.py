"""P45: policies return exactly the action their networks and their mode prescribe."""
from harness.h_actor import mk_ddpg, mk_dsac, mk_redq, mk_sac, set_step, squash
from harness.h_onpolicy import make
from harness.nets import ActCritic, GaussActor, Optim, PTable
from symx.ctx import harness


def modes(ctx):
    """deterministic_eval and whether a training step is running -> (det, within, stochastic)"""
    det, within = ctx.pick("deterministic_eval", [True, False]), ctx.pick("within", [True, False])
    return det, within, within or not det


def batch_of(ctx, n, rows):
    """observations (ids of rows in any order, repeats allowed), infos and a hidden state"""
    from tianshou.data import Batch
    np = ctx.np
    ix = [ctx.pick(f"row{i}", list(range(rows))) for i in range(n)]
    state = ctx.pick("state", [True, False])
    h = np.array(ctx.reals("h", (n, 2))) if state else None
    return ix, Batch(obs=np.array(ix), info=Batch(k=np.arange(n))), h


def handed(ctx, net, b, h, out):
    """the network got the observations, infos and state; its state is returned"""
    c = net.calls[-1]
    ctx.check([int(x) for x in c["obs"]] == [int(x) for x in b.obs], "the network sees the observations")
    ctx.check(c["state"] is h, "the network sees the hidden state")
    ctx.check("info" not in c or c["info"] is b.info, "the network sees the infos")
    got = out.state
    ctx.check(got is h if h is not None else got is None or len(got.get_keys()) == 0, "the network's state is returned")


class Draw:
    """distribution whose mode and sample are arbitrary different values per row"""

    def __init__(self, ctx, x, log):
        self.ctx, self.x, self.log = ctx, x, log

    @property
    def mode(self):
        return self.x[:, 0].detach()

    def sample(self):
        self.log.append("sample")
        return self.x[:, 1].detach()


@harness("P45", params=[dict(cls=c, n=2) for c in ("PG", "A2C", "PPO", "NPG", "TRPO")], thorough=[dict(cls=c, n=3) for c in ("PG", "A2C", "PPO", "NPG", "TRPO")])
def on_policy(ctx, cls, n):
    """the distribution's mode when evaluating deterministically, a sample otherwise"""
    det, within, stoch = modes(ctx)
    pol, c, _ = make(ctx, cls, 2, deterministic_eval=det)
    log, dists = [], []
    pol.dist_fn = lambda x: dists.append(Draw(ctx, x, log)) or dists[-1]
    set_step(pol, within)
    pol.train(ctx.pick("train mode", [True, False]))
    ix, b, h = batch_of(ctx, n, 2)
    out = pol(b, h)
    ctx.eq(out.act, [c[0][i, 1 if stoch else 0] for i in ix], "the action")
    ctx.check(log == ["sample"] * stoch, "sampled exactly when asked to")
    ctx.eq(out.logits.detach(), [[c[0][i, j] for j in range(3)] for i in ix], "the network's output")
    ctx.check(out.dist is dists[-1] and len(dists) == 1, "the distribution")
    handed(ctx, pol.actor, b, h, out)


def one_of(ctx, out, logits, ix, stoch, A):
    """categorical choice: drawn index or most probable one"""
    d = list(ctx.draws("multinomial"))
    ctx.check(len(d) == (len(ix) if stoch else 0), "sampled exactly when asked to")
    for r, i in enumerate(ix):
        a = out.act[r]
        ctx.check(ctx.And(a >= 0, a < A), "a valid action")
        if stoch:
            ctx.eq(a, d[r], f"row {r}: the drawn action")
        else:
            for k in range(A):
                for l in range(A):
                    ctx.implies(a == k, logits[i, k] >= logits[i, l] - (0 if ctx.sym else 1e-4), f"row {r}: the most probable action")
    pr = ctx.torch.distributions.Categorical(logits=ctx.tensor(ctx.np.array([[logits[i, k] for k in range(A)] for i in ix]))).probs
    ctx.eq(out.dist.probs.detach(), pr, "the distribution", tol=1e-3)


@harness("P45", params=[dict(cls=c, n=2, A=2) for c in ("DiscreteSAC", "PG", "DiscreteCRR")] + [dict(cls="DiscreteSAC", n=1, A=3)],
         thorough=[dict(cls=c, n=2, A=3) for c in ("DiscreteSAC", "PG", "DiscreteCRR")])
def categorical(ctx, cls, n, A):
    """categorical policies: the most probable action when evaluating deterministically, otherwise one drawn from softmax(logits)"""
    import gymnasium as gym
    import tianshou.policy as P
    det, within, stoch = modes(ctx)
    if cls == "DiscreteSAC":
        ctx.assume(det)                            # takes no such argument: it evaluates deterministically
        pol, t = mk_dsac(ctx, 2, A, False)
        logits = t["l"]
    else:
        logits = ctx.reals("l", (2, A), -4, 4)
        actor = PTable(ctx, logits)
        kw = dict(actor=actor, optim=Optim(ctx, actor.table), action_space=gym.spaces.Discrete(A))
        if cls == "PG":
            pol = P.PGPolicy(dist_fn=lambda x: ctx.torch.distributions.Categorical(logits=x), action_scaling=False, deterministic_eval=det, **kw)
        else:
            pol = P.DiscreteCRRPolicy(critic=PTable(ctx, ctx.reals("q", (2, A)), False), **kw)
            ctx.assume(not det)
            stoch = True                           # takes no such argument: it always samples
    set_step(pol, within)
    ix, b, h = batch_of(ctx, n, 2)
    ctx.draws("multinomial")
    out = pol(b, h)
    one_of(ctx, out, logits, ix, stoch, A)
    ctx.eq(out.logits.detach(), [[logits[i, k] for k in range(A)] for i in ix], "the network's output")
    handed(ctx, pol.actor, b, h, out)


class StateGauss(GaussActor):
    """keeps what it is called with"""

    def forward(self, obs, state=None, info=None):
        self.calls.append(dict(obs=obs, state=state, info=info))
        return super().forward(obs, state, info)


@harness("P45", params=[dict(cls=c, n=n) for c in ("SAC", "REDQ", "CQL") for n in (1, 2)], thorough=[dict(cls=c, n=3) for c in ("SAC", "REDQ", "CQL")])
def squashed(ctx, cls, n):
    """squashed Gaussian policies: tanh of the mean (deterministic evaluation) or of mean + deviation * noise, with its log-probability"""
    import tianshou.policy as P
    from harness.h_actor import box, opt
    det, within, stoch = modes(ctx)
    if cls == "SAC":
        pol, t = mk_sac(ctx, 2, False, deterministic_eval=det)
    elif cls == "REDQ":
        pol, t = mk_redq(ctx, 2, 2, False, deterministic_eval=det, subset_size=1)
    else:
        t = dict(mu=ctx.reals("mu", 2), sd=[0.5, 1.0])
        actor, c1, c2 = GaussActor(ctx, t["mu"], t["sd"]), ActCritic(ctx, [0.0, 0.0], [0.0, 0.0]), ActCritic(ctx, [0.0, 0.0], [0.0, 0.0])
        ctx.assume(det)                            # CQL takes no such argument: it evaluates deterministically
        pol = P.CQLPolicy(actor=actor, actor_optim=opt(ctx, actor), critic=c1, critic_optim=opt(ctx, c1), critic2=c2, critic2_optim=opt(ctx, c2),
                          cql_alpha_lr=1e-3, action_space=box(), action_scaling=False)
    pol.actor.__class__ = StateGauss
    set_step(pol, within)
    ix, b, h = batch_of(ctx, n, 2)
    ctx.draws("trandn")
    out = pol(b, h)
    z = list(ctx.draws("trandn"))
    ctx.check(len(z) == (n if stoch else 0), "sampled exactly when asked to")
    z = z if stoch else [0.0] * n
    for r, i in enumerate(ix):
        a, lp = squash(ctx, ctx.tensor(ctx.np.array([t["mu"][i]])), ctx.tensor(ctx.np.array([t["sd"][i]])), ctx.tensor(ctx.np.array([z[r]])))
        ctx.eq(out.act[r].detach().reshape(-1), a, f"row {r}: the action", tol=1e-3)
        dlt = out.log_prob[r].detach().reshape(-1)[0] - lp[0]
        ctx.check(ctx.And(dlt <= 0.02, dlt >= -0.02), f"row {r}: its log-probability")
    ctx.check(tuple(out.act.shape) == (n, 1) and tuple(out.log_prob.shape) == (n, 1), "shapes")
    handed(ctx, pol.actor, b, h, out)


@harness("P45", params=[dict(cls=c, n=2) for c in ("DDPG", "TD3", "TD3BC")])
def deterministic(ctx, cls, n):
    """deterministic actors: the network's own action in every mode; the target actor only on request"""
    import tianshou.policy as P
    from harness.h_actor import box, opt
    if cls == "TD3BC":
        t = dict(a=ctx.reals("a", 2), ao=ctx.reals("ao", 2))
        actor, c1, c2 = PTable(ctx, [[x] for x in t["a"]]), ActCritic(ctx, [0.0, 0.0], [0.0, 0.0]), ActCritic(ctx, [0.0, 0.0], [0.0, 0.0])
        pol = P.TD3BCPolicy(actor=actor, actor_optim=opt(ctx, actor), critic=c1, critic_optim=opt(ctx, c1), critic2=c2, critic2_optim=opt(ctx, c2),
                            action_space=box(), action_scaling=False, action_bound_method=None)
        pol.actor_old = PTable(ctx, [[x] for x in t["ao"]])
    else:
        pol, t = mk_ddpg(ctx, 2, cls)
    set_step(pol, ctx.pick("within", [True, False]))
    pol.train(ctx.pick("train mode", [True, False]))
    ix, b, h = batch_of(ctx, n, 2)
    old = ctx.pick("target actor", [True, False])
    out = pol(b, h, model="actor_old") if old else pol(b, h)
    ctx.eq(out.act.detach().reshape(-1), [t["ao" if old else "a"][i] for i in ix], "the action")
    handed(ctx, pol.actor_old if old else pol.actor, b, h, out)
    ctx.check(not ctx.draws("trandn") and not ctx.draws("randn"), "nothing is drawn")
