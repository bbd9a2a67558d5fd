"""Stand-in networks: every input is an integer id, the output a row of a table of symbolic values, so the code
under test is checked for every function a network could compute on those inputs."""
import torch as _t
from torch import nn


def ids(ctx, obs):
    """observation (array / tensor / batch of ids) -> integer index tensor/array"""
    if hasattr(obs, "obs"):
        obs = obs.obs
    if hasattr(obs, "detach"):
        return obs.long().flatten()
    return ctx.np.array(obs).astype(int).reshape(-1)


class Net(nn.Module):
    max_action = 1.0

    def __init__(self, ctx, grad=True):
        super().__init__()
        self.__dict__["ctx"] = ctx
        self.grad_on = grad
        self.calls = []

    def __deepcopy__(self, memo):
        new = type(self).__new__(type(self))
        nn.Module.__init__(new)
        memo[id(self)] = new
        for k, v in self.__dict__.items():
            if k not in ("_parameters", "_modules", "_buffers"):
                new.__dict__[k] = v if k in ("ctx", "table", "fn") else ([] if k == "calls" else v)
        new._parameters = {}
        for k, p in self._parameters.items():
            new._parameters[k] = nn.Parameter(p.detach().clone()) if not self.ctx.sym else p.detach().clone().requires_grad_(True)
        return new


    def par(self, name, value):
        """a registered parameter with the given (symbolic) values"""
        t = self.ctx.param(self.ctx.np.array(value))
        self._parameters[name] = t
        return t


class Table(Net):
    """forward(obs) -> (table[id(obs)], state)"""

    def __init__(self, ctx, table, ret_state=True, grad=True):
        super().__init__(ctx, grad)
        self.ret_state = ret_state
        self.table = ctx.param(ctx.np.array(table)) if grad else ctx.tensor(ctx.np.array(table), _t.float32)

    def forward(self, obs, state=None, info=None, **k):
        ix = ids(self.ctx, obs)
        self.calls.append(dict(obs=obs, state=state, info=info, training=self.training))
        out = self.table[ix]
        return (out, state) if self.ret_state else out


class TableActor(Table):
    pass


class TableCritic(Table):
    """values: list -> (n, 1)"""

    def __init__(self, ctx, values):
        super().__init__(ctx, [[v] for v in values], ret_state=False)

    def forward(self, obs, *a, **k):
        return super().forward(obs)


class Optim:
    """optimizer stand-in: records, at every step, the gradients its parameters have accumulated"""

    def __init__(self, ctx=None, *params):
        self.ctx, self.params = ctx, params
        self.grads = []
        self.zeroed = 0
        self.param_groups = [{"lr": 1.0}]
        for p in params:
            ctx.stale_grad(p)

    @property
    def steps(self):
        return len(self.grads)

    def zero_grad(self, *a, **k):
        self.zeroed += 1
        for p in self.params:
            self.ctx.leaf_grad(p, zero=True)

    def step(self, *a, **k):
        self.grads.append([self.ctx.leaf_grad(p) for p in self.params])

    def state_dict(self):
        return {}


def Cat(ctx):
    return lambda logits: ctx.torch.distributions.Categorical(logits=logits)


class PTable(Table):
    """a table registered as a parameter of the module (target networks are synchronised with it)"""

    def __init__(self, ctx, table, ret_state=True, name="table"):
        Net.__init__(self, ctx)
        self.ret_state = ret_state
        self.par("table", table)


class ActCritic(Net):
    """Q(s, a) = w[s] + k[s] a: an arbitrary affine function of the (one-dimensional) action for each state; (n, 1) values"""

    def __init__(self, ctx, w, k):
        super().__init__(ctx)
        self.par("w", w)
        self.par("k", k)

    def forward(self, obs, act, info=None):
        ix = ids(self.ctx, obs)
        a = self.ctx.torch.as_tensor(act).reshape(-1)
        self.calls.append(dict(training=self.training))
        return (self.w[ix] + self.k[ix] * a).reshape(-1, 1)


class GaussActor(Net):
    """((mean[s], std[s]), state)"""

    def __init__(self, ctx, mu, sigma):
        super().__init__(ctx)
        self.par("mu", mu)
        self.par("sigma", sigma)

    def forward(self, obs, state=None, info=None):
        ix = ids(self.ctx, obs)
        return (self.mu[ix].reshape(-1, 1), self.sigma[ix].reshape(-1, 1)), state
