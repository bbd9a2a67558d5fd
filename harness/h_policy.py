"""P19, P20: from network output to environment action; action masks and exploration."""
from harness.nets import Table, TableActor, Optim, Cat
from symx.ctx import harness


def dummy(ctx, space, **kw):
    """a policy whose forward returns a prepared action"""
    from tianshou.policy import BasePolicy
    from tianshou.data import Batch

    class Pol(BasePolicy):
        def forward(self, batch, state=None, **k):
            self.seen = (batch, state)
            return Batch(act=self.out, state=state)

        def learn(self, batch, *a, **k):
            raise NotImplementedError
    return Pol(action_space=space, **kw)


def box(ctx, d, name="", sym=True):
    import gymnasium as gym
    np = ctx.np
    lo = ctx.reals(f"{name}low", d, -20, 20)
    hi = ctx.reals(f"{name}high", d, -20, 20)
    for i in range(d):
        ctx.assume(hi[i] >= lo[i] + 0.25)
    sp = gym.spaces.Box(-1.0, 1.0, (d,))
    sp.low, sp.high = np.array(lo).astype(np.float32), np.array(hi).astype(np.float32)
    return sp, lo, hi


# ------------------------------------------------------------------ P19
@harness("P19", params=[dict(n=1, d=1), dict(n=2, d=2)], thorough=[dict(n=3, d=3)])
def map_clip(ctx, n, d):
    """clipping and scaling, symbolic bounds"""
    sp, lo, hi = box(ctx, d)
    scaling = ctx.pick("scaling", [True, False])
    pol = dummy(ctx, sp, action_scaling=scaling, action_bound_method="clip")
    form = ctx.pick("form", ["numpy", "torch"])
    a = ctx.reals("a", (n, d), -5, 5)
    raw = ctx.np.array(a) if form == "numpy" else ctx.tensor(a)
    got = pol.map_action(raw)
    ctx.check(got.shape == (n, d), "shape is kept")
    for i in range(n):
        for j in range(d):
            x = ctx.np.minimum(ctx.np.maximum(a[i, j], -1.0), 1.0)
            if scaling:
                ctx.eq(got[i, j], lo[j] + (x + 1) * (hi[j] - lo[j]) / 2, "affine image of the clipped action", tol=2e-3)
                ctx.check(ctx.And(got[i, j] >= lo[j] - 1e-4, got[i, j] <= hi[j] + 1e-4), "within the action space")
            else:
                ctx.eq(got[i, j], x, "clipped action")
    ctx.eq(raw, a, "the policy's own action is not modified")
    ctx.eq(sp.low, lo, "the action space is not modified")
    ctx.eq(sp.high, hi, "the action space is not modified")


@harness("P19", params=[dict(n=2, d=2)], thorough=[dict(n=3, d=3)])
def map_tanh(ctx, n, d):
    """tanh bounding"""
    sp, lo, hi = box(ctx, d)
    scaling = ctx.pick("scaling", [True, False])
    pol = dummy(ctx, sp, action_scaling=scaling, action_bound_method="tanh")
    a = ctx.reals("a", (n, d), -3, 3)
    got = pol.map_action(ctx.np.array(a))
    th = ctx.np.tanh(ctx.np.array(a))
    for i in range(n):
        for j in range(d):
            if scaling:
                ctx.eq(got[i, j], lo[j] + (th[i, j] + 1) * (hi[j] - lo[j]) / 2, "affine image of the squashed action", tol=2e-3)
                ctx.check(ctx.And(got[i, j] >= lo[j] - 1e-4, got[i, j] <= hi[j] + 1e-4), "within the action space")
            else:
                ctx.eq(got[i, j], th[i, j], "squashed action")


@harness("P19", params=[dict(n=2, d=2)], thorough=[dict(n=3, d=3)])
def inverse(ctx, n, d):
    """mapping back an action of the environment and forth again gives the same action"""
    sp, lo, hi = box(ctx, d)
    scaling = ctx.pick("scaling", [True, False])
    bound = ctx.pick("bound", ["clip", "tanh", None])
    pol = dummy(ctx, sp, action_scaling=scaling, action_bound_method=bound)
    t = ctx.reals("t", (n, d), 0.0625, 0.9375)
    env = ctx.np.array([[lo[j] + t[i, j] * (hi[j] - lo[j]) if scaling else 2 * t[i, j] - 1 for j in range(d)] for i in range(n)])
    given = ctx.np.array(env)
    raw = pol.map_action_inverse(given)
    for i in range(n):
        for j in range(d):
            u = 2 * t[i, j] - 1
            exp = u if bound != "tanh" else (ctx.np.log(1 + u) - ctx.np.log(1 - u)) / 2
            ctx.eq(raw[i, j], exp, "raw action for an environment action", tol=5e-3)
    if bound != "tanh":
        back = pol.map_action(raw)
        for i in range(n):
            for j in range(d):
                ctx.eq(back[i, j], env[i, j], "round trip", tol=5e-3)
    ctx.eq(given, env, "the environment action is not modified")
    ctx.eq(sp.low, lo, "the action space is not modified")


@harness("P19", params=[dict()])
def identity_cases(ctx):
    """discrete actions and unbounded policies are passed through; illegal settings are rejected"""
    import gymnasium as gym
    np = ctx.np
    kind = ctx.pick("kind", ["discrete", "multi", "binary", "box"])
    sp = dict(discrete=gym.spaces.Discrete(4), multi=gym.spaces.MultiDiscrete([3, 3]), binary=gym.spaces.MultiBinary(2), box=gym.spaces.Box(-2.0, 3.0, (2,)))[kind]
    bound = ctx.pick("bound", ["clip", "tanh", None]) if kind != "box" else None
    pol = dummy(ctx, sp, action_bound_method=bound)
    ctx.check(pol.action_type == ("continuous" if kind == "box" else "discrete"), "action type")
    a = ctx.reals("a", (2, 2), -5, 5) if kind == "box" else ctx.ints("a", (2, 2) if kind != "discrete" else (2,), 0, 2)
    ctx.eq(pol.map_action(np.array(a)), a, "passed through")
    ctx.eq(pol.map_action_inverse(np.array(a)), a, "passed back")
    if kind != "box":
        ctx.raises(ValueError, lambda: dummy(ctx, sp, action_scaling=True), "scaling needs a box")
    ctx.raises(ValueError, lambda: dummy(ctx, sp, action_bound_method="sigmoid"), "unknown bounding")


@harness("P19", params=[dict()])
def single_action(ctx):
    """compute_action: one observation in, one environment action out"""
    import gymnasium as gym
    np = ctx.np
    obs = ctx.reals("obs", 2)
    if ctx.pick("kind", ["discrete", "box"]) == "discrete":
        pol = dummy(ctx, gym.spaces.Discrete(5))
        a = ctx.int("a", 0, 4)
        pol.out = np.array([a]) if ctx.pick("form", ["numpy", "torch"]) == "numpy" else ctx.tensor(np.array([a]), ctx.torch.int64)
        got = pol.compute_action(np.array(obs))
        ctx.eq(got, a, "action")
        ctx.check(np.ndim(got) == 0, "a scalar")
    else:
        sp, lo, hi = box(ctx, 2)
        pol = dummy(ctx, sp, action_scaling=True, action_bound_method="clip")
        a = ctx.reals("a", (1, 2), -1, 1)
        pol.out = ctx.tensor(a)
        got = pol.compute_action(np.array(obs), state="s")
        for j in range(2):
            ctx.eq(got[j], lo[j] + (a[0, j] + 1) * (hi[j] - lo[j]) / 2, "action", tol=2e-3)
        ctx.check(pol.seen[1] == "s", "state is handed on")
    ctx.eq(pol.seen[0].obs, [list(obs)] if not ctx.sym else [obs], "the observation becomes a batch of one")


# ------------------------------------------------------------------ P20
def masks(ctx, n, A, name="mask"):
    """per row, at least one legal action"""
    m = ctx.bools(name, (n, A))
    for i in range(n):
        ctx.assume(ctx.Or(*[m[i, k] for k in range(A)]))
    return m


def dqn(ctx, table, A, **kw):
    import gymnasium as gym
    from tianshou.policy import DQNPolicy
    return DQNPolicy(model=Table(ctx, table), optim=Optim(), action_space=gym.spaces.Discrete(A), **kw)


def obs_batch(ctx, n, mask=None, ids=None):
    from tianshou.data import Batch
    np = ctx.np
    o = np.arange(n) if ids is None else ids
    return Batch(obs=Batch(obs=o, mask=mask) if mask is not None else o, info=Batch())


@harness("P20", params=[dict(n=2, A=2), dict(n=1, A=3)], thorough=[dict(n=2, A=3)])
def dqn_mask(ctx, n, A):
    """greedy DQN action under a mask"""
    q = ctx.reals("q", (n, A))
    m = masks(ctx, n, A)
    pol = dqn(ctx, q, A)
    dt = ctx.pick("mask type", [bool, int, float])
    out = pol(obs_batch(ctx, n, mask=ctx.np.array(m).astype(dt)))
    for i in range(n):
        a = out.act[i]
        for k in range(A):
            ctx.implies(a == k, m[i, k], f"row {i}: the chosen action is legal")
            for l in range(A):
                ctx.implies(ctx.And(a == k, m[i, l]), q[i, k] >= q[i, l] - (0 if ctx.sym else 1e-4), f"row {i}: the chosen action is the best legal one")
    ctx.eq(out.logits, q, "logits are the network's output")


@harness("P20", params=[dict(n=2, A=3)])
def dqn_plain(ctx, n, A):
    """greedy DQN action without a mask"""
    q = ctx.reals("q", (n, A))
    pol = dqn(ctx, q, A)
    out = pol(obs_batch(ctx, n))
    for i in range(n):
        for k in range(A):
            for l in range(A):
                ctx.implies(out.act[i] == k, q[i, k] >= q[i, l] - (0 if ctx.sym else 1e-4), f"row {i}: greedy")
        ctx.check(ctx.And(out.act[i] >= 0, out.act[i] < A), "a valid action")


@harness("P20", params=[dict(n=2, A=2), dict(n=1, A=3)], thorough=[dict(n=2, A=3)])
def eps_greedy(ctx, n, A):
    """exploration keeps the greedy action or replaces it by a legal one"""
    np = ctx.np
    masked = ctx.pick("masked", [True, False])
    m = masks(ctx, n, A) if masked else None
    q = ctx.reals("q", (n, A))
    pol = dqn(ctx, q, A)
    b = obs_batch(ctx, n, mask=np.array(m) if masked else None)
    act = pol(b).act
    greedy = [act[i] for i in range(n)]
    eps = ctx.pick("eps", [0.0, 0.5, 1.0])
    pol.set_eps(eps)
    out = pol.exploration_noise(act, b)
    ctx.check(out.shape == (n,), "one action per row")
    for i in range(n):
        ctx.check(ctx.And(out[i] >= 0, out[i] < A), "a valid action")
        if masked:
            for k in range(A):
                ctx.implies(out[i] == k, m[i, k], f"row {i}: legal after exploration")
        if eps == 0.0:
            ctx.eq(out[i], greedy[i], "no exploration for eps = 0")
            continue
        if eps < 1:
            ctx.reach(ctx.And(*[out[r] == greedy[r] if r != i else out[r] != greedy[r] for r in range(n)]), f"eps={eps}: only row {i} explores")
        for k in range(A):
            for l in range(A):
                ok = m[i, k] if masked else True
                ctx.reach(ctx.And(ok, greedy[i] == l, out[i] == k), f"eps={eps} masked={masked} row {i}: {k} in place of {l}")


@harness("P20", params=[dict(n=2, A=2), dict(n=1, A=3)], thorough=[dict(n=2, A=3)])
def marl_random(ctx, n, A):
    """the random multi-agent policy picks legal actions"""
    import gymnasium as gym
    from tianshou.policy import MARLRandomPolicy
    m = masks(ctx, n, A)
    pol = MARLRandomPolicy(action_space=gym.spaces.Discrete(A))
    mask = ctx.np.array(m)
    out = pol(obs_batch(ctx, n, mask=mask))
    for i in range(n):
        for k in range(A):
            ctx.implies(out.act[i] == k, m[i, k], f"row {i}: legal")
        ctx.check(ctx.And(out.act[i] >= 0, out.act[i] < A), "a valid action")
        for k in range(A):
            for j in range(A):
                ctx.reach(ctx.And(m[i, k], m[i, j], out.act[i] == k), f"row {i}: action {k} although {j} is legal")
    ctx.eq(mask, m, "mask untouched")
