"""P41: exploration noise, exploration policies and the small helpers every update goes through."""
import copy

import numpy as real_np

from symx.ctx import harness


def draws(ctx, k):
    d = ctx.draws("randn")
    ctx.check(len(d) == k, f"{k} normal draws")
    return d


@harness("P41", [dict(n=1, d=1), dict(n=2, d=2)], [dict(n=3, d=2)])
def gaussian(ctx, n, d):
    """mu + sigma * z with a fresh draw for every element; independent of earlier calls"""
    from tianshou.exploration import GaussianNoise
    mu, sigma = ctx.real("mu"), ctx.real("sigma", 0, 3)
    noise = GaussianNoise(mu, sigma) if ctx.pick("given", [True, False]) else None
    if noise is None:
        mu, sigma, noise = 0.0, 1.0, GaussianNoise()
    out = []
    for t in range(2):
        out.append(noise((n, d)))
        if ctx.pick(f"reset{t}", [False, True]):
            noise.reset()
    z = draws(ctx, 2 * n * d)
    for t in range(2):
        ctx.eq(out[t], ctx.np.array([[mu + sigma * z[(t * n + i) * d + j] for j in range(d)] for i in range(n)]), "mean plus scaled normal draws")
    ctx.raises(AssertionError, lambda: GaussianNoise(0.0, -ctx.real("neg", 0.125, 3)), "negative deviations are refused")


@harness("P41", [dict(k=2), dict(k=3, d=1)], [dict(k=4, d=1), dict(k=3)])
def ornstein_uhlenbeck(ctx, k, d=2):
    """x' = x + theta dt (mu - x) + sigma sqrt(dt) z, from x0, restarted by reset, from zero when the shape changes"""
    from tianshou.exploration import OUNoise
    np = ctx.np
    mu, sigma, theta = ctx.real("mu"), ctx.real("sigma", 0, 3), ctx.pick("theta", [0.5, 1.0])
    dt = ctx.pick("dt", [0.25, 1.0])
    start = ctx.pick("x0", ["none", "scalar", "array", "other"])
    x0 = {"none": lambda: None, "scalar": lambda: ctx.real("x0v"), "array": lambda: ctx.reals("x0a", (1, d)), "other": lambda: ctx.reals("x0b", (3, d))}[start]()
    keep = copy.deepcopy(x0)
    noise = OUNoise(mu=mu, sigma=sigma, theta=theta, dt=dt, x0=x0)

    def first(shape):
        if start == "none" or start in ("array", "other") and tuple(x0.shape) != shape:
            return np.zeros(shape)
        return np.zeros(shape) + x0
    x, outs = None, []
    for t in range(k):
        op = ctx.pick(f"op{t}", ["same", "reset", "resize", "mean"] if t else ["same"])
        shape = (2, d) if op == "resize" else (1, d)
        if op == "reset":
            noise.reset()
            x = None
        m = ctx.real(f"mu{t}") if op == "mean" else None
        if x is None:
            x = first(shape)
        elif x.shape != shape:
            x = np.zeros(shape)
        got = noise(shape, m) if op == "mean" else noise(shape)
        z = ctx.draws("randn")
        ctx.check(len(z) == shape[0] * d, "one draw per element")
        x = x + theta * dt * ((mu if m is None else m) - x) + sigma * (0.5 if dt == 0.25 else 1.0) * np.array(z).reshape(shape)
        ctx.eq(got, x, "one step of the process")
        outs.append((got, x))
    for g, w in outs:
        ctx.eq(g, w, "noise given out earlier does not change")
    if keep is not None:
        ctx.eq(x0, keep, "the initial value is left alone")


@harness("P41", [dict(n=1), dict(n=2)], [dict(n=3)])
def actor_noise(ctx, n):
    """policies for continuous actions add their noise to array actions, and only then; it can be exchanged"""
    import warnings

    from harness.h_actor import mk_ddpg
    from tianshou.data import Batch
    from tianshou.exploration import GaussianNoise, OUNoise
    np = ctx.np
    mode = ctx.pick("noise", ["default", "given", "none", "ou"])
    sigma, mu = ctx.real("sigma", 0, 2), ctx.real("mu")
    kw = {} if mode == "default" else dict(exploration_noise=GaussianNoise(mu, sigma) if mode == "given" else OUNoise(mu=0.0, sigma=sigma, theta=0.0, dt=1.0) if mode == "ou" else None)
    pol, _ = mk_ddpg(ctx, 2, ctx.pick("cls", ["DDPG", "TD3"]), **kw)
    act = ctx.reals("act", (n, 1), -3, 3)
    keep = copy.deepcopy(act)
    b = Batch(obs=np.zeros(n), info=Batch())
    got = pol.exploration_noise(act, b)
    z = ctx.draws("randn")
    ctx.check(len(z) == (0 if mode == "none" else n), "one draw per action")
    s, m = {"default": (0.1, 0), "given": (sigma, mu), "ou": (sigma, 0), "none": (0, 0)}[mode]
    ctx.eq(got, keep + np.array([[m + s * zz] for zz in z]) if z else keep, "action plus noise")
    ctx.eq(act, keep, "the action given is left alone")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        t = ctx.tensor(keep)
        r = pol.exploration_noise(t, b)
        ctx.check(r is t and not ctx.draws("randn") and (mode == "none") == (not w), "tensors are returned as they are, with a warning")
    pol.set_exp_noise(None)
    ctx.eq(pol.exploration_noise(act, b), keep, "no noise after it was removed")
    s2 = ctx.real("sigma2", 0, 2)
    pol.set_exp_noise(GaussianNoise(0.0, s2))
    got = pol.exploration_noise(act, b)
    ctx.eq(got, keep + np.array([[s2 * zz] for zz in ctx.draws("randn")]), "exchanged noise")


@harness("P41")
def discrete_sac_noise(ctx):
    """discrete soft actor-critic samples its actions already: exploration leaves them alone"""
    from harness.h_actor import mk_dsac
    from tianshou.data import Batch
    pol = mk_dsac(ctx, 2, 2, False)[0]
    act = ctx.ints("act", 3, 0, 1)
    keep = copy.deepcopy(act)
    ctx.eq(pol.exploration_noise(act, Batch(obs=ctx.np.zeros(3))), keep, "actions unchanged")
    ctx.check(not ctx.draws("randn") and not ctx.draws("rand"), "nothing is drawn")


@harness("P41", [dict(n=1, d=2), dict(n=3, d=1)], [dict(n=3, d=3)])
def uniform_actions(ctx, n, d):
    """the distribution from which random actions are drawn covers exactly the action space, once per row"""
    import torch
    from gymnasium import spaces

    from tianshou.utils.torch_utils import create_uniform_action_dist
    box = spaces.Box(-1.0, 1.0, shape=(d,))
    lo, hi = ctx.reals("low", d, -4, -1), ctx.reals("high", d, 0, 4)
    box.low, box.high = lo, hi
    u = create_uniform_action_dist(box, n)
    ctx.check(isinstance(u, torch.distributions.Uniform), "uniform distribution")
    ctx.eq(u.low, ctx.np.array([lo] * n), "lower bounds in every row")
    ctx.eq(u.high, ctx.np.array([hi] * n), "upper bounds in every row")
    A = ctx.pick("A", [1, 3])
    c = create_uniform_action_dist(spaces.Discrete(A), n)
    ctx.check(isinstance(c, torch.distributions.Categorical) and tuple(c.probs.shape) == (n, A), "categorical distribution")
    ctx.eq(c.probs, real_np.full((n, A), 1 / A), "all actions equally likely")
    ctx.raises(ValueError, lambda: create_uniform_action_dist(spaces.MultiBinary(2), n), "other spaces are refused")


@harness("P41")
def temporary_modes(ctx):
    """the training mode of modules and the policy's training-step flag are switched inside the block only, however it ends"""
    from torch import nn

    from harness.h_policy import dummy
    from tianshou.utils.torch_utils import policy_within_training_step, torch_train_mode

    class Stop(Exception):
        pass
    m = nn.Sequential(nn.Dropout(0.5), nn.Sequential(nn.Identity()))
    pol = dummy(ctx, __import__("gymnasium").spaces.Discrete(2))
    T = lambda nm: bool(ctx.maybe(ctx.bool(nm)))
    o1, i1, i2, p1, p2, boom = T("outer"), T("in1"), T("in2"), T("pol"), T("step"), T("boom")
    m.train(o1)
    pol.is_within_training_step = p1
    state = lambda: ([x.training for x in m.modules()], pol.is_within_training_step)
    before = state()
    try:
        with torch_train_mode(m, i1), policy_within_training_step(pol, p2):
            ctx.check(state() == ([i1] * 4, p2), "switched inside the block")
            with torch_train_mode(m, i2):
                ctx.check(state() == ([i2] * 4, p2), "switched inside the inner block")
                if boom:
                    raise Stop
            ctx.check(state() == ([i1] * 4, p2), "restored after the inner block")
    except Stop:
        ctx.check(boom, "exceptions come through")
    ctx.check(state() == before, "restored afterwards")
    with torch_train_mode(m), policy_within_training_step(pol):
        ctx.check(state() == ([True] * 4, True), "on by default")
    ctx.check(state() == before, "restored afterwards")


@harness("P41")
def optimisation(ctx):
    """one step: gradients cleared, computed, clipped (only if asked) and applied, in this order; clones keep the configuration, schedulers go together"""
    import torch

    from tianshou.utils import MultipleLRSchedulers
    import tianshou.utils.optim as mod
    log = []

    class Opt:
        def zero_grad(self, *a, **k):
            log.append("zero")

        def step(self, *a, **k):
            log.append("step")

    class Loss:
        def backward(self, *a, **k):
            log.append("backward")
    net = torch.nn.Linear(2, 1)
    limit = ctx.pick("limit", [None, "sym"])
    limit = limit and ctx.real("max_norm", 0, 5)
    old = torch.nn.utils.clip_grad_norm_
    torch.nn.utils.clip_grad_norm_ = lambda ps, max_norm=None, *a, **k: log.append(("clip", [id(p) for p in ps], max_norm))
    try:
        mod.optim_step(Loss(), Opt(), net, limit)
    finally:
        torch.nn.utils.clip_grad_norm_ = old
    clipped = [e for e in log if isinstance(e, tuple)]
    ctx.check([e for e in log if isinstance(e, str)] == ["zero", "backward", "step"], "order of the step")
    if limit is None:
        ctx.check(not clipped, "no clipping unless asked for")
    else:
        ctx.check(ctx.Or(limit == 0, len(clipped) == 1), "gradients are clipped if asked for")
        if clipped:
            ctx.check(clipped[0][1] == [id(p) for p in net.parameters()] and log.index(clipped[0]) == 2, "all parameters, between computing and applying")
            ctx.eq(clipped[0][2], limit, "to the norm given")
        ctx.raises(ValueError, lambda: mod.optim_step(Loss(), Opt(), None, 1.0), "clipping without parameters is refused")
    lr = ctx.real("lr", 0.125, 1)
    other = torch.nn.Linear(1, 1)
    for cls, kw in ((torch.optim.Adam, dict(eps=0.25, betas=(0.5, 0.25))), (torch.optim.SGD, dict(momentum=0.5)), (torch.optim.RMSprop, dict(alpha=0.5)), (torch.optim.AdamW, dict(weight_decay=0.5))):
        o = cls(net.parameters(), lr=lr, **kw)
        c = mod.clone_optimizer(o, other.parameters())
        ctx.check(type(c) is cls and [id(p) for g in c.param_groups for p in g["params"]] == [id(p) for p in other.parameters()], "same class, new parameters")
        ctx.check(ctx.And(c.param_groups[0]["lr"] == lr), "same learning rate")
        ctx.check(all(c.param_groups[0][k] == v for k, v in kw.items()), "same further settings")
        ctx.check([id(p) for g in o.param_groups for p in g["params"]] == [id(p) for p in net.parameters()], "the original keeps its parameters")

    class Custom(torch.optim.SGD):
        pass
    ctx.raises(ValueError, lambda: mod.clone_optimizer(Custom(net.parameters(), lr=0.5), other.parameters()), "unknown optimizers are refused")

    class Sched:
        def __init__(self, v):
            self.v, self.n = v, 0

        def step(self):
            self.n += 1

        def state_dict(self):
            return dict(v=self.v, n=self.n)
    a, b = [Sched(ctx.real(f"s{i}")) for i in range(2)], [Sched(0.0), Sched(0.0)]
    s = MultipleLRSchedulers(*a)
    k = ctx.pick("steps", [0, 1, 3])
    for _ in range(k):
        s.step()
    ctx.check([x.n for x in a] == [k, k], "every scheduler steps every time")
    MultipleLRSchedulers(*b).load_state_dict(s.state_dict())
    ctx.check(ctx.And(*[x.v == y.v for x, y in zip(a, b)], *[x.n == y.n for x, y in zip(a, b)]), "states are restored in order")
    ctx.raises(ValueError, lambda: MultipleLRSchedulers(b[0]).load_state_dict(s.state_dict()), "a different number of schedulers is refused")
