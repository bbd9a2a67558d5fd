"""P42: network building blocks compute, for every input, what their documentation promises - row by row.

The weights are fixed to small binary fractions, the inputs (observations, actions, states, draws) are symbolic. Recurrent cells
are replaced by a stand-in with the documented interface of torch's LSTM."""
import numpy as real_np
import torch as T
from torch import nn

from symx.ctx import harness

VALS = [0.5, -1.0, 0.75, 1.0, -0.5, 0.25, -0.75, 1.5, -0.25, 2.0]


def fix(net, k=0):
    """deterministic weights, different everywhere"""
    for p in net.parameters():
        with T.no_grad():
            flat = [VALS[(7 * (k + i) + 3 * ((k + i) // 10)) % 10] for i in range(p.numel())]
            p.copy_(T.tensor(flat, dtype=p.dtype).reshape(p.shape))
        k += p.numel() + 1
    return net


def linears(net):
    return [m for m in net.modules() if isinstance(m, nn.Linear)]


def lin(m, x):
    """one row (list of scalars) through a linear layer"""
    w, b = m.weight.detach().numpy().tolist(), (m.bias.detach().numpy().tolist() if m.bias is not None else [0] * m.out_features)
    return [sum(wi * xi for wi, xi in zip(row, x, strict=True)) + bb for row, bb in zip(w, b)]


def act(ctx, kind, xs):
    if kind == "relu":
        return [ctx.ite(x >= 0, x, 0.0) for x in xs]
    if kind == "tanh":
        return [v for v in ctx.np.tanh(ctx.np.array(xs))]
    return list(xs)


def run_mlp(ctx, layers, x, kind="relu", final=True):
    """reference: linear layers with the activation between them (and after the last one if there is no output layer)"""
    for i, m in enumerate(layers):
        x = lin(m, x)
        if i < len(layers) - 1 or not final:
            x = act(ctx, kind, x)
    return x


def softmax(ctx, xs):
    e = [v for v in ctx.np.exp(ctx.np.array(xs))]
    s = sum(e)
    return [v / s for v in e]


def rows(ctx, name, n, d, lo=-3, hi=3):
    return [[ctx.real(f"{name}{i}_{j}", lo, hi) for j in range(d)] for i in range(n)]


def arr(ctx, r, how):
    a = ctx.np.array(r)
    return a if how == "array" else ctx.tensor(a)


@harness("P42", [dict(n=2, hidden=(2,), out=2), dict(n=1, hidden=(2, 2), out=0), dict(n=2, hidden=(), out=3)], [dict(n=3, hidden=(3, 2), out=2), dict(n=2, hidden=(2,), out=0)])
def mlp(ctx, n, hidden, out):
    """the given layer sizes, activations in between, inputs flattened per row"""
    from tianshou.utils.net.common import MLP
    kind = ctx.pick("act", ["relu", "tanh", "none"])
    A = {"relu": nn.ReLU, "tanh": nn.Tanh, "none": None}[kind]
    net = fix(MLP(4, out, hidden, activation=A))
    L = linears(net)
    sizes = [4, *hidden, *([out] if out else [])]
    ctx.check([(m.in_features, m.out_features) for m in L] == list(zip(sizes[:-1], sizes[1:])), "sizes of the layers")
    ctx.check(net.output_dim == sizes[-1], "reported output size")
    x = rows(ctx, "x", n, 4)
    flat = ctx.pick("shape", [(4,), (2, 2)])
    got = net(arr(ctx, x, ctx.pick("how", ["array", "tensor"])).reshape(n, *flat))
    ctx.eq(got, ctx.np.array([run_mlp(ctx, L, r, kind, bool(out)) for r in x]), "rows through the layers")


@harness("P42", [dict(n=2, kind="plain"), dict(n=1, kind="softmax"), dict(n=2, kind="atoms"), dict(n=1, kind="concat")], [dict(n=2, kind="softmax")])
def net(ctx, n, kind):
    """action values, probabilities over the last dimension, atoms per action; the state is passed through"""
    from tianshou.utils.net.common import Net
    kw = dict(softmax=dict(softmax=True), atoms=dict(num_atoms=2, softmax=True), concat=dict(concat=True), plain={})[kind]
    net = fix(Net(2, 2, hidden_sizes=[2], **kw))
    d = 4 if kind == "concat" else 2
    x, L = rows(ctx, "x", n, d), linears(net)
    state = object()
    got, s = net(ctx.np.array(x), state, {})
    ctx.check(s is state, "state passed through")
    y = [run_mlp(ctx, L, r, final=kind != "concat") for r in x]
    if kind == "softmax":
        y = [softmax(ctx, r) for r in y]
    elif kind == "atoms":
        y = [[softmax(ctx, r[:2]), softmax(ctx, r[2:])] for r in y]
    ctx.eq(got, ctx.np.array(y), "network output")
    ctx.check(net.output_dim == {"plain": 2, "softmax": 2, "atoms": 4, "concat": 2}[kind], "reported output size")


@harness("P42", [dict(n=1, atoms=1), dict(n=2, atoms=1), dict(n=1, atoms=2)], [dict(n=2, atoms=2)])
def dueling(ctx, n, atoms):
    """value plus advantage minus the mean advantage over the actions (per atom)"""
    from tianshou.utils.net.common import Net
    q, v = dict(hidden_sizes=[2]), dict(hidden_sizes=[])
    net = fix(Net(2, 3, hidden_sizes=[2], num_atoms=atoms, dueling_param=(q, v)))
    ctx.check(q == dict(hidden_sizes=[2]) and v == dict(hidden_sizes=[]), "the parameters given are left alone")
    x = rows(ctx, "x", n, 2)
    got, _ = net(ctx.np.array(x))
    base, Q, V = linears(net.model), linears(net.Q), linears(net.V)
    out = []
    for r in x:
        h = run_mlp(ctx, base, r, final=False)
        a, b = run_mlp(ctx, Q, h), run_mlp(ctx, V, h)
        o = [[a[i * atoms + k] - sum(a[j * atoms + k] for j in range(3)) / 3 + b[k] for k in range(atoms)] for i in range(3)]
        out.append(o if atoms > 1 else [r[0] for r in o])
    ctx.eq(got, ctx.np.array(out), "dueling output")
    ctx.check(net.output_dim == 3 * atoms, "reported output size")


@harness("P42", [dict(n=1), dict(n=2)], [dict(n=3)])
def branching(ctx, n):
    """every branch: value plus its own advantages minus their mean"""
    from tianshou.utils.net.common import BranchingNet
    net = fix(BranchingNet(2, num_branches=2, action_per_branch=3, common_hidden_sizes=[2], value_hidden_sizes=[2], action_hidden_sizes=[2]))
    x = rows(ctx, "x", n, 2)
    got, s = net(ctx.np.array(x), None)
    out = []
    for r in x:
        h = run_mlp(ctx, linears(net.common), r, final=False)
        v = run_mlp(ctx, linears(net.value), h)[0]
        o = []
        for b in net.branches:
            a = run_mlp(ctx, linears(b), h)
            o.append([v + e - sum(a) / 3 for e in a])
        out.append(o)
    ctx.eq(got, ctx.np.array(out), "branch output")
    ctx.check(s is None, "state passed through")


@harness("P42", [dict(n=2)], [dict(n=3)])
def ensemble(ctx, n):
    """every member applies its own weights; members do not mix"""
    from tianshou.utils.net.common import EnsembleLinear
    bias = ctx.pick("bias", [True, False])
    m = fix(EnsembleLinear(2, 2, 3, bias=bias))
    shared = ctx.pick("shared", [False, True])
    x = [rows(ctx, f"x{e}_", n, 2) for e in range(1 if shared else 2)]
    got = m(ctx.tensor(ctx.np.array(x[0] if shared else x)))
    w = m.weight.detach().numpy().tolist()
    b = m.bias_weights.detach().numpy().tolist() if bias else [[[0] * 3]] * 2
    ctx.eq(got, ctx.np.array([[[sum(r[i] * w[e][i][o] for i in range(2)) + b[e][0][o] for o in range(3)] for r in x[0 if shared else e]] for e in range(2)]), "every member on its input")


# ------------------------------------------------------------------------------------------------------------------ recurrent networks
class Cell(nn.Module):
    """stand-in for nn.LSTM with batch_first=True: (output, (hidden, cell)), states [layers, batch, size]"""

    def __init__(self, ctx, layers, size):
        super().__init__()
        self.__dict__["ctx"] = ctx
        self.layers, self.size, self.flat = layers, size, 0

    def flatten_parameters(self):
        self.flat += 1

    def step(self, x, h, c):
        """one time step of one row: lists"""
        for l in range(self.layers):
            c[l] = [0.5 * cc + 0.25 * xx * (l + 1) for cc, xx in zip(c[l], x)]
            h[l] = [0.5 * hh + cc + 1 for hh, cc in zip(h[l], c[l])]
            x = h[l]
        return x

    def forward(self, x, state=None):
        n, t = x.shape[0], x.shape[1]
        z = lambda s, i: [[s[l][i][j] for j in range(self.size)] for l in range(self.layers)]
        if state is not None and any(tuple(s.shape) != (self.layers, n, self.size) for s in state):
            raise RuntimeError(f"Expected hidden size ({self.layers}, {n}, {self.size})")
        hs = [z(state[0], i) if state is not None else [[0.0] * self.size for _ in range(self.layers)] for i in range(n)]
        cs = [z(state[1], i) if state is not None else [[0.0] * self.size for _ in range(self.layers)] for i in range(n)]
        out = [[self.step([x[i][k][j] for j in range(self.size)], hs[i], cs[i]) for k in range(t)] for i in range(n)]
        mk = lambda a: self.ctx.torch.stack([self.ctx.torch.stack([self.ctx.torch.stack([self.ctx.torch.as_tensor(v, dtype=T.float32) for v in r]) for r in m]) for m in a])
        return mk(out), (mk(hs).transpose(0, 1), mk(cs).transpose(0, 1))


@harness("P42", [dict(kind="net"), dict(kind="actor")], [dict(kind="net", t=3, layers=2), dict(kind="actor", t=3, layers=2)])
def recurrent(ctx, kind, t=2, layers=1):
    """stepping through a sequence with the returned state gives the same as the whole sequence at once; states are stored batch first"""
    from tianshou.utils.net.common import Recurrent
    from tianshou.utils.net.continuous import RecurrentActorProb
    n, size = 2, 2
    if kind == "net":
        m = fix(Recurrent(layers, 2, 2, hidden_layer_size=size))
    else:
        m = fix(RecurrentActorProb(layers, (2,), (2,), hidden_layer_size=size, unbounded=True, conditioned_sigma=ctx.pick("csigma", [True, False])))
    m.nn = Cell(ctx, layers, size)
    x = [[[ctx.real(f"x{i}_{k}_{j}", -3, 3) for j in range(2)] for k in range(t)] for i in range(n)]
    start = ctx.pick("start", ["none", "given"])
    st = None
    ref = [([[0.0] * size for _ in range(layers)], [[0.0] * size for _ in range(layers)]) for _ in range(n)]
    if start == "given":
        ref = [([[ctx.real(f"h{i}_{l}_{j}", -2, 2) for j in range(size)] for l in range(layers)], [[ctx.real(f"c{i}_{l}_{j}", -2, 2) for j in range(size)] for l in range(layers)]) for i in range(n)]
        st = {"hidden": ctx.tensor(ctx.np.array([h for h, _ in ref])), "cell": ctx.tensor(ctx.np.array([c for _, c in ref]))}
    first = dict(st) if st else None
    out_seq, st_seq = m(ctx.np.array(x), st)
    for k in range(t):
        out, st = m(ctx.np.array([r[k] for r in x]), st)
    ctx.eq(out_seq, out, "whole sequence and step by step give the same output")
    for key in ("hidden", "cell"):
        ctx.eq(st_seq[key], st[key], f"whole sequence and step by step give the same {key} state")
        ctx.check(tuple(st[key].shape) == (n, layers, size) and not st[key].requires_grad, "states are stored batch first, without gradients")
    y = []
    for i in range(n):
        h, c = ref[i]
        h, c = [list(r) for r in h], [list(r) for r in c]
        for k in range(t):
            o = m.nn.step(lin(m.fc1, x[i][k]) if kind == "net" else x[i][k], h, c)
        y.append((o, h, c))
    ctx.eq(st["hidden"], ctx.np.array([e[1] for e in y]), "hidden state")
    ctx.eq(st["cell"], ctx.np.array([e[2] for e in y]), "cell state")
    if kind == "net":
        ctx.eq(out, ctx.np.array([lin(m.fc2, e[0]) for e in y]), "output of the last step")
        ctx.raises(ValueError, lambda: m(ctx.np.array([r[0] for r in x]), {"hidden": st["hidden"]}), "incomplete states are refused")
    else:
        ctx.eq(out[0], ctx.np.array([lin(m.mu, e[0]) for e in y]), "mean of the last step")
    if first:
        ctx.eq(first["hidden"], ctx.np.array([r[0] for r in ref]), "the state given is left alone")


@harness("P42")
def recurrent_critic(ctx):
    from tianshou.utils.net.continuous import RecurrentCritic
    with_act = ctx.pick("act", [True, False])
    m = fix(RecurrentCritic(1, (2,), (1,) if with_act else [0], hidden_layer_size=2))
    m.nn = Cell(ctx, 1, 2)
    n, t = 2, 2
    x = [[[ctx.real(f"x{i}_{k}_{j}", -3, 3) for j in range(2)] for k in range(t)] for i in range(n)]
    a = rows(ctx, "a", n, 1)
    got = m(ctx.np.array(x), ctx.np.array(a) if with_act else None)
    out = []
    for i in range(n):
        h, c = [[0.0] * 2], [[0.0] * 2]
        for k in range(t):
            o = m.nn.step(x[i][k], h, c)
        out.append(lin(m.fc2, [*o, *a[i]] if with_act else o))
    ctx.eq(got, ctx.np.array(out), "value of the last step and the action")


# ------------------------------------------------------------------------------------------------------------------ actors and critics
def pre_of(ctx):
    """preprocessing network with a state of its own"""
    class P(nn.Module):
        output_dim = 2

        def __init__(self):
            super().__init__()
            self.calls = []

        def forward(self, obs, state=None, info=None):
            self.calls.append((obs, state))
            return ctx.torch.as_tensor(obs, dtype=T.float32) * 2, ("next", state)
    return P()


@harness("P42", [dict(n=1), dict(n=2)], [dict(n=3)])
def actor(ctx, n):
    """deterministic actor: max_action * tanh(...), hence within the bounds; the new state of the preprocessing network is returned"""
    from tianshou.utils.net.continuous import Actor
    pre = pre_of(ctx)
    mx = ctx.pick("max", [1.0, 2.5])
    m = fix(Actor(pre, (2,), hidden_sizes=[2], max_action=mx))
    x = rows(ctx, "x", n, 2)
    got, s = m(ctx.np.array(x), "state")
    y = [act(ctx, "tanh", run_mlp(ctx, linears(m.last), [2 * v for v in r])) for r in x]
    ctx.eq(got, ctx.np.array([[mx * v for v in r] for r in y]), "scaled and squashed action")
    ctx.check(ctx.And(*[ctx.And(got[i, j] <= mx, got[i, j] >= -mx) for i in range(n) for j in range(2)]), "within the bounds")
    ctx.check(s == ("next", "state") and m.get_output_dim() == 2 and m.get_preprocess_net() is pre, "state and sizes")


@harness("P42", [dict(n=1), dict(n=2)], [dict(n=3)])
def actor_prob(ctx, n):
    """mean and standard deviation: bounded mean unless unbounded, positive deviation with its exponent clamped, the new state returned"""
    from tianshou.utils.net.continuous import ActorProb
    pre = pre_of(ctx)
    unb, cs = ctx.pick("unbounded", [False, True]), ctx.pick("csigma", [False, True])
    mx = 1.0 if unb else ctx.pick("max", [1.0, 2.5])
    m = fix(ActorProb(pre, (2,), max_action=mx, unbounded=unb, conditioned_sigma=cs))
    x = rows(ctx, "x", n, 2)
    (mu, sd), s = m(ctx.np.array(x), "state")
    ref = [run_mlp(ctx, linears(m.mu), [2 * v for v in r]) for r in x]
    if not unb:
        ref = [[mx * v for v in act(ctx, "tanh", r)] for r in ref]
        ctx.check(ctx.And(*[ctx.And(mu[i, j] <= mx, mu[i, j] >= -mx) for i in range(n) for j in range(2)]), "mean within the bounds")
    ctx.eq(mu, ctx.np.array(ref), "mean")
    if cs:
        e = [[ctx.ite(v > 2, 2.0, ctx.ite(v < -20, -20.0, v)) for v in run_mlp(ctx, linears(m.sigma), [2 * v for v in r])] for r in x]
    else:
        e = [[float(p) for p in m.sigma_param.detach().flatten()] for r in x]
    ctx.eq(sd, ctx.np.exp(ctx.np.array(e)), "standard deviation")
    ctx.check(ctx.And(*[sd[i, j] > 0 for i in range(n) for j in range(2)]), "standard deviation is positive")
    ctx.check(s == ("next", "state"), "the new state is returned")
    ctx.check(m.get_output_dim() == 2 and m.get_preprocess_net() is pre, "sizes")


@harness("P42", [dict(n=1), dict(n=2)], [dict(n=3)])
def discrete_actor(ctx, n):
    """probabilities (or values) of all actions and the new state; critics give the requested number of values"""
    from tianshou.utils.net.discrete import Actor, Critic
    pre = pre_of(ctx)
    sm = ctx.pick("softmax", [True, False])
    m = fix(Actor(pre, 3, softmax_output=sm))
    x = rows(ctx, "x", n, 2)
    got, s = m(ctx.np.array(x), "state")
    y = [run_mlp(ctx, linears(m.last), [2 * v for v in r]) for r in x]
    ctx.eq(got, ctx.np.array([softmax(ctx, r) for r in y] if sm else y), "output for every action")
    ctx.check(s == ("next", "state") and m.get_output_dim() == 3 and m.get_preprocess_net() is pre, "state and sizes")
    size = ctx.pick("last", [1, 3])
    c = fix(Critic(pre, last_size=size))
    ctx.eq(c(ctx.np.array(x)), ctx.np.array([run_mlp(ctx, linears(c.last), [2 * v for v in r]) for r in x]), "values")
    c(ctx.np.array(x), state="st")
    ctx.check(pre.calls[-1][1] == "st" and pre.calls[-2][1] is None, "state handed to the preprocessing network")


@harness("P42", [dict(n=1), dict(n=2)], [dict(n=3)])
def critic(ctx, n):
    """the value of observation and action: concatenated before the network, or after preprocessing the observation only"""
    from tianshou.utils.net.continuous import Critic
    pre = pre_of(ctx)
    mode = ctx.pick("mode", ["both", "obs_only", "no_action"])
    d = {"both": 2, "obs_only": 3, "no_action": 2}[mode]
    pre.output_dim = d
    m = fix(Critic(pre, hidden_sizes=[2], apply_preprocess_net_to_obs_only=mode == "obs_only"))
    x, a = rows(ctx, "x", n, 1 if mode == "both" else 2), rows(ctx, "a", n, 1)
    how = ctx.pick("how", ["array", "tensor"])
    got = m(arr(ctx, x, how), arr(ctx, a, how) if mode != "no_action" else None)
    inp = {"both": lambda r, q: [2 * v for v in r + q], "obs_only": lambda r, q: [2 * v for v in r] + q, "no_action": lambda r, q: [2 * v for v in r]}[mode]
    ctx.eq(got, ctx.np.array([run_mlp(ctx, linears(m.last), inp(r, q)) for r, q in zip(x, a)]), "value of observation and action")


@harness("P42", [dict(n=1), dict(n=2)], [dict(n=3)])
def perturbation(ctx, n):
    """action plus at most phi * max_action of noise, clipped to the action range"""
    from tianshou.utils.net.continuous import Perturbation
    mx = ctx.pick("max", [1.0, 2.0])
    pre = fix(nn.Linear(3, 1))
    m = Perturbation(_tup(pre), mx, phi=0.25)
    s, a = rows(ctx, "s", n, 2), rows(ctx, "a", n, 1)
    got = m(ctx.tensor(ctx.np.array(s)), ctx.tensor(ctx.np.array(a)))
    for i in range(n):
        t = act(ctx, "tanh", lin(pre, s[i] + a[i]))[0]
        v = a[i][0] + 0.25 * mx * t
        ctx.eq(got[i, 0], ctx.ite(v > mx, mx, ctx.ite(v < -mx, -mx, v)), "perturbed action")
        ctx.check(ctx.And(got[i, 0] <= mx, got[i, 0] >= -mx), "within the action range")
        ctx.check(ctx.Or(a[i][0] > mx, a[i][0] < -mx, ctx.And(got[i, 0] - a[i][0] <= 0.25 * mx, a[i][0] - got[i, 0] <= 0.25 * mx)), "at most the allowed perturbation")


class _tup(nn.Module):
    def __init__(self, m):
        super().__init__()
        self.m = m

    def forward(self, x):
        return self.m(x), None


@harness("P42", [dict(n=1), dict(n=2)], [dict(n=3)])
def vae(ctx, n):
    """encode, reparametrise with one draw per latent entry, decode within the action range; free latents are clipped draws"""
    from tianshou.utils.net.continuous import VAE
    mx = ctx.pick("max", [1.0, 2.0])
    m = fix(VAE(nn.Linear(3, 2), nn.Linear(4, 1), 2, 2, mx))
    s, a = rows(ctx, "s", n, 2), rows(ctx, "a", n, 1)
    rec, mean, std = m(ctx.tensor(ctx.np.array(s)), ctx.tensor(ctx.np.array(a)))
    z = ctx.draws("trandn")
    ctx.check(len(z) == 2 * n, "one draw per latent entry")
    for i in range(n):
        e = lin(m.encoder, s[i] + a[i])
        mu, ls = lin(m.mean, e), [ctx.ite(v > 15, 15.0, ctx.ite(v < -4, -4.0, v)) for v in lin(m.log_std, e)]
        sd = [v for v in ctx.np.exp(ctx.np.array(ls))]
        ctx.eq(mean[i], ctx.np.array(mu), "mean")
        ctx.eq(std[i], ctx.np.array(sd), "standard deviation")
        lat = [mu[j] + sd[j] * z[2 * i + j] for j in range(2)]
        ctx.eq(rec[i], ctx.np.array([mx * v for v in act(ctx, "tanh", lin(m.decoder, s[i] + lat))]), "reconstruction")
    free = m.decode(ctx.tensor(ctx.np.array(s)))
    z = ctx.draws("trandn")
    for i in range(n):
        lat = [ctx.ite(v > 0.5, 0.5, ctx.ite(v < -0.5, -0.5, v)) for v in z[2 * i:2 * i + 2]]
        ctx.eq(free[i], ctx.np.array([mx * v for v in act(ctx, "tanh", lin(m.decoder, s[i] + lat))]), "decoded draw")
        ctx.check(ctx.And(free[i, 0] <= mx, free[i, 0] >= -mx, rec[i, 0] <= mx, rec[i, 0] >= -mx), "within the action range")
    lat = rows(ctx, "lat", n, 2)
    got = m.decode(ctx.tensor(ctx.np.array(s)), ctx.tensor(ctx.np.array(lat)))
    ctx.eq(got, ctx.np.array([[mx * v for v in act(ctx, "tanh", lin(m.decoder, s[i] + lat[i]))] for i in range(n)]), "decoded latent")


# ------------------------------------------------------------------------------------------------------------------ distributional networks
def embed(ctx, em, tau):
    c = [v for v in ctx.np.cos(ctx.np.array([tau * (real_np.pi * (i + 1)) for i in range(em.num_cosines)]))]
    return act(ctx, "relu", lin(linears(em)[0], c))


@harness("P42", [dict(n=1, k=2), dict(n=2, k=1)], [dict(n=2, k=2)])
def implicit_quantiles(ctx, n, k):
    """every quantile is computed from its own row and its own fraction; the fractions used are returned"""
    from tianshou.utils.net.discrete import ImplicitQuantileNetwork
    pre = pre_of(ctx)
    m = fix(ImplicitQuantileNetwork(pre, 2, num_cosines=2))
    x = rows(ctx, "x", n, 2)
    (out, taus), h = m(ctx.np.array(x), sample_size=k, state="st")
    z = ctx.draws("trand")
    ctx.eq(taus, ctx.np.array(z).reshape(n, k), "fractions drawn and returned")
    ctx.check(tuple(out.shape) == (n, 2, k) and h == ("next", "st"), "shape and state")
    for i in range(n):
        for j in range(k):
            e = embed(ctx, m.embed_model, z[i * k + j])
            ctx.eq(out[i, :, j], ctx.np.array(run_mlp(ctx, linears(m.last), [2 * v * w for v, w in zip(x[i], e)])), "quantile of its own row and fraction")


@harness("P42", [dict(n=1), dict(n=2, train=False)], [dict(n=2, N=3)])
def full_quantiles(ctx, n, N=2, train=None):
    """proposed fractions rise from 0 to 1, quantiles are taken at their midpoints, and at the inner fractions when training"""
    from tianshou.utils.net.discrete import FractionProposalNetwork, FullQuantileFunction
    pre = pre_of(ctx)
    m, prop = fix(FullQuantileFunction(pre, 2, num_cosines=2)), fix(FractionProposalNetwork(N, 2), 3)
    train = ctx.pick("train", [True, False]) if train is None else train
    m.train(train)
    x = rows(ctx, "x", n, 2)
    (q, fr, qt), h = m(ctx.np.array(x), prop)
    ctx.check(tuple(fr.taus.shape) == (n, N + 1) and tuple(fr.tau_hats.shape) == (n, N) and tuple(q.shape) == (n, 2, N), "shapes")
    ctx.check((qt is None) == (not train) and h == ("next", None), "inner quantiles when training only")
    for i in range(n):
        p = T.distributions.Categorical(logits=ctx.tensor(ctx.np.array([lin(prop.net, [2 * v for v in x[i]])]))).probs[0].tolist()
        cum = [0]
        for v in p:
            cum.append(cum[-1] + v)
        ctx.eq(fr.taus[i], ctx.np.array(cum), "cumulated fractions")
        ctx.eq(fr.tau_hats[i], (fr.taus[i][1:] + fr.taus[i][:-1]) / 2, "midpoints")
        for j in range(N):
            e = embed(ctx, m.embed_model, fr.tau_hats[i, j].item())
            ctx.eq(q[i, :, j], ctx.np.array(run_mlp(ctx, linears(m.last), [2 * v * w for v, w in zip(x[i], e)])), "quantiles at the midpoints")
        if train:
            for j in range(N - 1):
                e = embed(ctx, m.embed_model, fr.taus[i, j + 1].item())
                ctx.eq(qt[i, :, j], ctx.np.array(run_mlp(ctx, linears(m.last), [2 * v * w for v, w in zip(x[i], e)])), "quantiles at the inner fractions")
    (q2, fr2, _), _ = m(ctx.np.array(x), prop, fractions=fr)
    ctx.check(fr2 is fr, "given fractions are used")
    ctx.eq(q2, q, "quantiles at given fractions")


@harness("P42", [dict(n=1), dict(n=2)], [dict(n=3)])
def noisy_linear(ctx, n):
    """mean weights in evaluation; when training plus deviation times factorised noise f(p) f(q), f(x) = sign(x) sqrt|x|, redrawn by sample()"""
    from tianshou.utils.net.discrete import NoisyLinear
    m = NoisyLinear(2, 1)
    fix(m)
    p = {k: v.detach().numpy().tolist() for k, v in m.named_parameters()}
    x = rows(ctx, "x", n, 2)
    ctx.draws("trandn")
    zero = ctx.pick("drawn", [False, True])
    if zero:
        m.eps_p, m.eps_q = ctx.tensor(ctx.np.array([0.0, 0.0])), ctx.tensor(ctx.np.array([0.0]))
        m.sample()
        z = ctx.draws("trandn")
        ctx.check(len(z) == 3, "one draw per input and output")
        f = lambda v: ctx.ite(v > 0, 1.0, ctx.ite(v < 0, -1.0, 0.0))
        for got, v in zip([m.eps_p[0], m.eps_p[1], m.eps_q[0]], z):
            ctx.eq(got * got, abs(v), "size of the noise")
            ctx.check(ctx.And(ctx.Or(v <= 0, got > 0), ctx.Or(v >= 0, got < 0)), "sign of the noise")
        return
    ep, eq = [0.5, -1.5], [ctx.real("eq", -2, 2)]
    m.eps_p, m.eps_q = ctx.tensor(ctx.np.array(ep)), ctx.tensor(ctx.np.array(eq))
    for train in (True, False):
        m.train(train)
        got = m(ctx.tensor(ctx.np.array(x)))
        k = 1 if train else 0
        y = [[sum(r[i] * (p["mu_W"][0][i] + k * p["sigma_W"][0][i] * eq[0] * ep[i]) for i in range(2)) + p["mu_bias"][0] + k * p["sigma_bias"][0] * eq[0]] for r in x]
        ctx.eq(got, ctx.np.array(y), "training output" if train else "evaluation output")


@harness("P42", [dict(n=1), dict(n=2)], [dict(n=3)])
def curiosity(ctx, n):
    """half the squared error of the predicted next features, and action scores from both feature vectors"""
    from tianshou.utils.net.discrete import IntrinsicCuriosityModule
    class F(nn.Module):
        def forward(self, s):
            return s * 2
    m = fix(IntrinsicCuriosityModule(F(), 2, 2))
    s1, s2 = rows(ctx, "s", n, 2, -2, 2), rows(ctx, "t", n, 2, -2, 2)
    a = [ctx.conc(ctx.int(f"a{i}", 0, 1)) for i in range(n)]
    loss, hat = m(ctx.np.array(s1), real_np.array(a), ctx.np.array(s2))
    for i in range(n):
        f1, f2 = [2 * v for v in s1[i]], [2 * v for v in s2[i]]
        pred = run_mlp(ctx, linears(m.forward_model), f1 + [1.0 if a[i] == j else 0.0 for j in range(2)])
        ctx.eq(loss[i], 0.5 * sum((u - v) * (u - v) for u, v in zip(pred, f2)), "prediction error")
        ctx.eq(hat[i], ctx.np.array(run_mlp(ctx, linears(m.inverse_model), f1 + f2)), "action scores")


# ------------------------------------------------------------------------------------------------------------------ helpers
@harness("P42", [dict()])
def dict_observations(ctx):
    """dict observations are flattened and concatenated in the order of the keys, with or without a batch dimension"""
    from tianshou.data import Batch
    from tianshou.utils.net.common import MLP, get_dict_state_decorator
    shapes = {"a": (2,), "b": (1,), "c": (2, 1)}
    keys = ctx.pick("keys", [["a", "b"], ["b", "c", "a"], ["a"]])
    deco, size = get_dict_state_decorator(shapes, keys)
    ctx.check(size == sum(int(real_np.prod(shapes[k])) for k in keys), "size of the flattened observation")

    class Id(nn.Module):
        def forward(self, obs, *a, **k):
            return obs, a, k
    m = deco(Id)()
    n = ctx.pick("rows", [None, 1, 2])
    flat = {k: [[ctx.real(f"{k}{i}_{j}") for j in range(int(real_np.prod(s)))] for i in range(n or 1)] for k, s in shapes.items()}
    o = {k: ctx.np.array(v).reshape(*([n] if n else []), *shapes[k]) for k, v in flat.items()}
    obs = Batch(**o) if ctx.pick("how", ["dict", "batch"]) == "batch" else o
    got, a, k = m(obs, 1, x=2)
    y = [[v for kk in keys for v in flat[kk][i]] for i in range(n or 1)]
    ctx.eq(got, ctx.np.array(y if n else y[0]), "flattened in order")
    ctx.check(a == (1,) and k == {"x": 2}, "other arguments are passed on")
    z = ctx.reals("z", (2, size))
    ctx.eq(m(z)[0], z, "flat observations are taken as they are")


@harness("P42")
def helpers(ctx):
    """random actors, parameter collections and output sizes"""
    from gymnasium import spaces

    from tianshou.utils.net.common import ActorCritic, RandomActor, get_output_dim
    A = ctx.pick("A", [2, 3])
    m = RandomActor(spaces.Discrete(A))
    n = ctx.pick("n", [1, 3])
    p, s = m(real_np.zeros((n, 2)), "st")
    ctx.eq(p, real_np.full((n, A), 1 / A), "all actions equally likely")
    ctx.check(s == "st" and m.is_discrete and m.get_output_dim() == A, "state, kind and size")
    a = m.compute_action_batch(real_np.zeros((n, 2)))
    ctx.check(ctx.And(*[ctx.And(a[i] >= 0, a[i] < A) for i in range(n)]) if len(a) == n else False, "one legal action per row")
    box = spaces.Box(-1.0, 2.0, shape=(2,))
    k = RandomActor(box)
    b, _ = k(real_np.zeros((n, 2)))
    ctx.check(b.shape == (n, 2) and all(box.contains(r) for r in b) and not k.is_discrete, "one action of the space per row")
    x, y = nn.Linear(1, 1), nn.Linear(2, 2)
    ctx.check([id(q) for q in ActorCritic(x, y).parameters()] == [id(q) for q in [*x.parameters(), *y.parameters()]], "parameters of both networks")

    class O(nn.Module):
        output_dim = ctx.pick("dim", [None, 3])
    alt = ctx.pick("alt", [None, 3, 4])
    if O.output_dim is None and alt is None or O.output_dim is not None and alt == 4:
        ctx.raises(ValueError, lambda: get_output_dim(O(), alt), "missing or contradicting sizes are refused")
    else:
        ctx.check(get_output_dim(O(), alt) == (O.output_dim or alt), "output size")
