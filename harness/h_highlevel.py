"""P43, P44: the high-level interface: configuration objects become the policies, optimizers, schedules, collectors and
trainers they describe.

The reference for a policy is the low-level policy constructed directly from the documented arguments; all attributes of
the two that are numbers, flags or strings must agree for every value of the parameters."""
from symx.ctx import harness


def same_attrs(ctx, a, b, msg, seen=None, depth=0):
    """every scalar attribute of a and b (recursively through plain tianshou objects) is the same"""
    seen = seen if seen is not None else set()
    if id(a) in seen:
        return
    seen.add(id(a))
    ka = {k for k in vars(a) if scalar(ctx, vars(a)[k]) or plain(vars(a)[k])}
    kb = {k for k in vars(b) if scalar(ctx, vars(b)[k]) or plain(vars(b)[k])}
    ctx.check(ka == kb, f"{msg}: same attributes {sorted(ka ^ kb)}")
    for k in sorted(ka):
        x, y = vars(a)[k], vars(b)[k]
        if plain(x):
            ctx.check(type(x) is type(y), f"{msg}.{k}: same kind")
            same_attrs(ctx, x, y, f"{msg}.{k}", seen, depth + 1)
        elif x is None or isinstance(x, str) or y is None or isinstance(y, str):
            ctx.check(type(x) is type(y) and x == y, f"{msg}.{k}: {x!r} {y!r}")
        else:
            ctx.eq(x, y, f"{msg}.{k}")


def scalar(ctx, v):
    from symx import core
    return v is None or isinstance(v, (int, float, str, bool)) or isinstance(v, core.Sym)


def plain(v):
    m = type(v).__module__
    return m.startswith("tianshou.exploration") or m.startswith("tianshou.utils.statistics")


def make_envs(ctx, cont, d=2):
    import gymnasium as gym
    from tianshou.env import DummyVectorEnv
    from tianshou.highlevel.env import ContinuousEnvironments, DiscreteEnvironments

    class E(gym.Env):
        def __init__(self):
            self.observation_space = gym.spaces.Box(-1.0, 1.0, (3,))
            self.action_space = gym.spaces.Box(-2.0, 2.0, (d,)) if cont else gym.spaces.Discrete(3)

    envs = (ContinuousEnvironments if cont else DiscreteEnvironments)(E(), DummyVectorEnv([E]), DummyVectorEnv([E]))
    if cont:
        ctx.check(float(envs.max_action) == 2.0, "max_action is the action bound of the environment")
        ctx.check(tuple(envs.get_action_shape()) == (d,), "action shape")
        envs.max_action = ctx.real("max_action", 0.25, 4)
    else:
        ctx.check(int(envs.get_action_shape()) == 3, "number of actions")
    return envs


def make_factories(ctx, made):
    """factories for stand-in modules which remember what they created"""
    from torch import nn
    from tianshou.highlevel.module.actor import ActorFactory
    from tianshou.highlevel.module.core import ModuleFactory
    from tianshou.highlevel.module.critic import CriticEnsembleFactory, CriticFactory

    class M(nn.Module):
        def __init__(self, name):
            super().__init__()
            self.name = name
            self.max_action = 1.0
            self.num_quantiles = 5
            self.lin = nn.Linear(2, 1)

    def new(name, **kw):
        m = M(name)
        made.append((name, m, kw))
        return m

    class AF(ActorFactory):
        def create_module(self, envs, device):
            return new("actor")

        def create_dist_fn(self, envs):
            return dist_fn

    class CF(CriticFactory):
        def __init__(self, name):
            self.name = name

        def create_module(self, envs, device, use_action, discrete_last_size_use_action_shape=False):
            return new(self.name, use_action=use_action, sized=discrete_last_size_use_action_shape)

    class EF(CriticEnsembleFactory):
        def create_module(self, envs, device, ensemble_size, use_action):
            return new("critic", use_action=use_action, size=ensemble_size)

    class MF(ModuleFactory):
        def create_module(self, envs, device):
            return new("model")

    def dist_fn(x):
        raise NotImplementedError

    return AF(), CF, EF(), MF(), dist_fn, M


class Lin:
    """a schedule which tells which optimizer it was created for"""

    def __init__(self, tag):
        self.tag = tag


KINDS = ["pg", "a2c", "ppo", "npg", "trpo", "dqn", "iqn", "ddpg", "redq", "sac", "dsac", "td3"]
FLAGS = dict(pg=["reward_normalization", "deterministic_eval"], ppo=["value_clip", "advantage_normalization", "recompute_advantage"], npg=["advantage_normalization"],
             dqn=["reward_normalization", "is_double", "clip_loss_grad"], sac=["deterministic_eval"], redq=["deterministic_eval"])
FAMILY = dict(pg=["pg"], a2c=["pg", "a2c"], ppo=["pg", "a2c", "ppo"], npg=["pg", "npg"], trpo=["pg", "npg", "trpo"], dqn=["dqn"], iqn=["dqn", "iqn"],
              ddpg=["ddpg"], redq=["ddpg", "redq"], sac=["ddpg", "sac"], dsac=["ddpg", "dsac"], td3=["ddpg", "td3"])


def choose(ctx, kind, envs, deep=False):
    """documented parameters with arbitrary values: (keyword arguments of the Params class, of the low-level policy)"""
    from tianshou.exploration import GaussianNoise
    from tianshou.highlevel.params.env_param import MaxActionScaled
    from tianshou.highlevel.params.noise import MaxActionScaledGaussian
    fam = FAMILY[kind]
    kw = {}
    cont = envs.get_type().is_continuous()
    groups = {}

    def option(name, options):
        groups[name] = options
        return None
    flags = sum([FLAGS.get(f, []) for f in fam], [])
    if flags:
        option("flag", ["all", "none"] + flags)
    if "a2c" in fam:
        option("mgn", [1, None])
    if "ppo" in fam:
        option("dual", [1, None])
    if "redq" in fam:
        option("ensemble", [3, 4])
        option("subset", [1, 2])
        option("target_mode", ["mean", "min"])
    if "pg" in fam or ("ddpg" in fam and kind != "dsac"):
        option("scaling", ["default", False] + ([True] if cont else []))
        option("bound", ["clip", None] + (["tanh"] if "pg" in fam else []))
    if "ddpg" in fam and kind != "dsac":
        option("noise", ["factory", "none", "default", "given"])
    if "td3" in fam:
        option("policy_noise?", ["scaled", "number"])
        option("noise_clip?", ["number", "scaled"])
    if deep:
        chosen = {n: ctx.pick(n, o) for n, o in groups.items()}
    else:       # at most one option differs from the first alternative
        chosen = {n: o[0] for n, o in groups.items()}
        alts = [None] + [(n, v) for n, o in groups.items() for v in o[1:]]
        alt = ctx.pick("variant", alts)
        if alt:
            chosen[alt[0]] = alt[1]
    unit = lambda *ns: kw.update({n: ctx.real(n, 0, 1) for n in ns})
    ints = lambda lo, hi, *ns: kw.update({n: ctx.int(n, lo, hi) for n in ns})
    if flags:
        on = chosen["flag"]
        kw.update({f: on in ("all", f) for f in flags})
    if "pg" in fam:
        unit("discount_factor")
    if "a2c" in fam or "npg" in fam:
        unit("gae_lambda")
        ints(1, 9, "max_batchsize")
    if "a2c" in fam:
        unit("vf_coef", "ent_coef")
        kw["max_grad_norm"] = chosen["mgn"] and ctx.real("max_grad_norm", 0.125, 2)
    if "ppo" in fam:
        unit("eps_clip")
        kw["dual_clip"] = chosen["dual"] and ctx.real("dual_clip", 1.125, 4)
    if "npg" in fam:
        ints(1, 9, "optim_critic_iters")
        unit("actor_step_size")
    if "trpo" in fam:
        unit("max_kl", "backtrack_coeff")
        ints(1, 9, "max_backtracks")
    if "dqn" in fam:
        unit("discount_factor")
        ints(1, 5, "estimation_step")
        ints(0, 9, "target_update_freq")
    if "iqn" in fam:
        ints(2, 9, "sample_size", "online_sample_size", "target_sample_size", "num_quantiles")
    if "ddpg" in fam:
        unit("tau", "gamma")
        ints(1, 5, "estimation_step")
    if "redq" in fam:
        kw["ensemble_size"] = chosen["ensemble"]
        kw["subset_size"] = chosen["subset"]
        ints(1, 9, "actor_delay")
        kw["target_mode"] = chosen["target_mode"]
    if "td3" in fam:
        ints(1, 9, "update_actor_freq")
    low = dict(kw)
    if "pg" in fam or ("ddpg" in fam and kind != "dsac"):
        scal = chosen["scaling"]
        kw["action_scaling"], low["action_scaling"] = scal, (cont if scal == "default" else scal)
        kw["action_bound_method"] = low["action_bound_method"] = chosen["bound"]
    if "ddpg" in fam and kind != "dsac":
        which = chosen["noise"]
        if which == "none":
            kw["exploration_noise"] = low["exploration_noise"] = None
        elif which == "default":
            kw["exploration_noise"] = low["exploration_noise"] = "default"
        elif which == "given":
            mu, sg = ctx.real("mu", -1, 1), ctx.real("sigma", 0, 1)
            kw["exploration_noise"], low["exploration_noise"] = GaussianNoise(mu, sg), GaussianNoise(mu, sg)
        else:
            fr = ctx.real("fraction", 0, 1)
            kw["exploration_noise"], low["exploration_noise"] = MaxActionScaledGaussian(fr), GaussianNoise(0.0, envs.max_action * fr)
    if "td3" in fam:
        for n in ("policy_noise", "noise_clip"):
            v = ctx.real(n, 0, 1)
            if chosen[n + "?"] == "scaled":
                kw[n], low[n] = MaxActionScaled(v), envs.max_action * v
            else:
                kw[n] = low[n] = v
    if kind in ("redq", "sac", "dsac"):
        kw["alpha"] = low["alpha"] = ctx.real("alpha", 0, 1)
    return kw, low


LRS = dict(pg=["lr"], a2c=["lr"], ppo=["lr"], npg=["lr"], trpo=["lr"], dqn=["lr"], iqn=["lr"], ddpg=["actor_lr", "critic_lr"], redq=["actor_lr", "critic_lr"],
           sac=["actor_lr", "critic1_lr", "critic2_lr"], dsac=["actor_lr", "critic1_lr", "critic2_lr"], td3=["actor_lr", "critic1_lr", "critic2_lr"])
CLS = dict(pg="PG", a2c="A2C", ppo="PPO", npg="NPG", trpo="TRPO", dqn="DQN", iqn="IQN", ddpg="DDPG", redq="REDQ", sac="SAC", dsac="DiscreteSAC", td3="TD3")


def agent(ctx, kind, params, made, optf=None):
    """the agent factory for the given parameters"""
    import torch
    from tianshou.highlevel import agent as ag
    from tianshou.highlevel.config import SamplingConfig
    from tianshou.highlevel.optim import OptimizerFactoryTorch
    af, CF, ef, mf, dist_fn, M = make_factories(ctx, made)
    optf = optf or OptimizerFactoryTorch(torch.optim.SGD)
    sc = SamplingConfig(num_train_envs=1)
    cls = getattr(ag, CLS[kind] + "AgentFactory")
    if kind == "pg":
        return cls(params, sc, af, optf), dist_fn
    if kind in ("dqn", "iqn"):
        return cls(params, sc, mf, optf), dist_fn
    if kind == "redq":
        return cls(params, sc, af, ef, optf), dist_fn
    if len(LRS[kind]) == 3:
        return cls(params, sc, af, CF("critic"), CF("critic2"), optf), dist_fn
    return cls(params, sc, af, CF("critic"), optf), dist_fn


def optimizers(kind, pol):
    """module name -> (module, optimizer) of a policy"""
    if kind == "pg":
        return {"lr": (pol.optim, ["actor"])}
    if kind in ("a2c", "ppo", "npg", "trpo"):
        return {"lr": (pol.optim, ["actor", "critic"])}
    if kind in ("dqn", "iqn"):
        return {"lr": (pol.optim, ["model"])}
    out = {"actor_lr": (pol.actor_optim, ["actor"])}
    c1 = "critic_lr" if len(LRS[kind]) == 2 else "critic1_lr"
    out[c1] = (pol.critic_optim, ["critic"])
    if len(LRS[kind]) == 3:
        out["critic2_lr"] = (pol.critic2_optim, ["critic2"])
    return out


def low_level(kind, made, low, envs, dist_fn, optim=None):
    import torch
    import tianshou.policy as tp
    mods = {n: m for n, m, _ in made}
    opt = lambda *ms: torch.optim.SGD([p for m in ms for p in m.parameters()], lr=1.0)
    kw = dict(low, action_space=envs.get_action_space())
    if "observation_space" not in kw:
        kw["observation_space"] = envs.get_observation_space()
    if kind == "pg":
        kw.update(actor=mods["actor"], optim=opt(mods["actor"]), dist_fn=dist_fn)
    elif kind in ("a2c", "ppo", "npg", "trpo"):
        kw.update(actor=mods["actor"], critic=mods["critic"], optim=opt(mods["actor"], mods["critic"]), dist_fn=dist_fn)
    elif kind in ("dqn", "iqn"):
        kw.update(model=mods["model"], optim=opt(mods["model"]))
    else:
        kw.update(actor=mods["actor"], actor_optim=opt(mods["actor"]), critic=mods["critic"], critic_optim=opt(mods["critic"]))
        if "critic2" in mods:
            kw.update(critic2=mods["critic2"], critic2_optim=opt(mods["critic2"]))
    return getattr(tp, CLS[kind] + "Policy")(**kw)


@harness("P43", [dict(kind=k, cont=c) for k in KINDS for c in ((True, False) if k in ("pg", "a2c", "ppo") else (k not in ("dqn", "iqn", "dsac"),))],
         [dict(kind=k, cont=k not in ("dqn", "iqn", "dsac"), deep=True) for k in KINDS] + [dict(kind=k, cont=False, deep=True) for k in ("npg", "trpo")])
def policy(ctx, kind, cont, deep=False):
    """the policy has exactly the given parameters, modules and learning rates"""
    from tianshou.highlevel.params import policy_params as pp
    envs = make_envs(ctx, cont)
    kw, low = choose(ctx, kind, envs, deep)
    lrs = {n: ctx.real(n, 0.0625, 1) for n in LRS[kind]}
    made = []
    fac, dist_fn = agent(ctx, kind, getattr(pp, CLS[kind] + "Params")(**kw, **lrs), made)
    pol = fac.create_policy(envs, "cpu")
    names = [n for n, _, _ in made]
    ctx.check(sorted(names) == sorted(sum([m for _, m in optimizers(kind, pol).values()], [])), f"one module of each sort: {names}")
    mods = {n: m for n, m, _ in made}
    for n, m in mods.items():
        ctx.check(getattr(pol, n) is m, f"the policy uses the {n} of its factory")
    for lr, (opt, ms) in optimizers(kind, pol).items():
        ps = [p for g in opt.param_groups for p in g["params"]]
        want = [p for m in ms for p in mods[m].parameters()]
        ctx.check(len(ps) == len(want) and {id(p) for p in ps} == {id(p) for p in want}, f"{lr}: the optimizer owns exactly the parameters of {ms}")
        for g in opt.param_groups:
            ctx.eq(g["lr"], lrs[lr], f"{lr}: learning rate")
    for n, _, m in made:
        if n.startswith("critic"):
            ctx.check(m["use_action"] == (cont and kind not in ("a2c", "ppo", "npg", "trpo")), "action-value critics get the action, unless they output one value per action")
            if "size" in m:
                ctx.check(m["size"] == kw["ensemble_size"], "ensemble size")
            if "sized" in m and not cont:
                ctx.check(m["sized"] == (kind == "dsac"), "discrete critics have one output per action only where Q-values are needed")
    if hasattr(pol, "dist_fn"):
        ctx.check(pol.dist_fn is dist_fn or not hasattr(fac, "actor_factory") or kind in ("dqn",), "the actor's distribution function")
    if kind in ("a2c", "ppo", "npg", "trpo"):
        low["observation_space"] = None
    ctx.check(pol.lr_scheduler is None, "no schedule unless one is asked for")
    ctx.check(pol.action_space == envs.get_action_space(), "action space")
    same_attrs(ctx, pol, low_level(kind, made, low, envs, dist_fn), kind)


@harness("P43", [dict(kind=k) for k in ("ppo", "dqn", "ddpg", "redq", "sac", "dsac", "td3")], [dict(kind=k, steps=4) for k in ("pg", "iqn", "ddpg", "sac", "td3")])
def schedules(ctx, kind, steps=2):
    """learning rates fall linearly to zero over the training steps of the whole run, for exactly the modules they are asked for"""
    from tianshou.highlevel.config import SamplingConfig
    from tianshou.highlevel.params import policy_params as pp
    from tianshou.highlevel.params.lr_scheduler import LRSchedulerFactoryLinear
    envs = make_envs(ctx, kind not in ("dqn", "iqn", "dsac"))
    spe, spc, ep = ctx.pick("step_per_epoch", [4, 7]), ctx.pick("step_per_collect", [1, 3]), ctx.pick("epochs", [1, 2])
    if ep * spe < steps:
        return
    sc = SamplingConfig(num_epochs=ep, step_per_epoch=spe, step_per_collect=spc, num_train_envs=1)
    lrs = {n: ctx.real(n, 0.0625, 1) for n in LRS[kind]}
    on = {n: ctx.pick(n + " scheduled", [False, True]) for n in LRS[kind]}
    made = []
    params = getattr(pp, CLS[kind] + "Params")(**lrs, **{n + "_scheduler_factory": LRSchedulerFactoryLinear(sc) if on[n] else None for n in lrs})
    fac, _ = agent(ctx, kind, params, made)
    pol = fac.create_policy(envs, "cpu")
    if not any(on.values()):
        ctx.check(pol.lr_scheduler is None, "no schedule unless one is asked for")
        return
    opts = optimizers(kind, pol)
    total = -(-spe // spc) * ep
    for k in range(min(steps, total) + 1):
        for n in lrs:
            for g in opts[n][0].param_groups:
                ctx.eq(g["lr"], lrs[n] * (1 - k / total) if on[n] else lrs[n], f"{n} after {k} of {total} training steps", tol=1e-6)
        for o, _ in opts.values():
            o.step()
        pol.lr_scheduler.step()


@harness("P43", [dict()])
def optimizer_settings(ctx):
    """optimizers get the parameters, the learning rate and the settings of their factory"""
    import torch
    from tianshou.highlevel.optim import OptimizerFactoryAdam, OptimizerFactoryRMSprop, OptimizerFactoryTorch
    lr, eps, wd = ctx.real("lr", 0.0625, 1), ctx.real("eps", 0.0625, 1), ctx.real("weight_decay", 0, 1)
    which = ctx.pick("optimizer", ["Adam", "RMSprop", "torch", "defaults"])
    if which == "Adam":
        kw = dict(betas=(ctx.real("beta1", 0, 0.75), ctx.real("beta2", 0, 0.75)), eps=eps, weight_decay=wd)
        fac, cls = OptimizerFactoryAdam(**kw), torch.optim.Adam
    elif which == "RMSprop":
        kw = dict(alpha=ctx.real("alpha", 0, 1), eps=eps, weight_decay=wd, momentum=ctx.real("momentum", 0, 1), centered=ctx.pick("centered", [False, True]))
        fac, cls = OptimizerFactoryRMSprop(**kw), torch.optim.RMSprop
    elif which == "torch":
        kw = dict(momentum=ctx.real("momentum", 0, 1), weight_decay=wd)
        fac, cls = OptimizerFactoryTorch(torch.optim.SGD, **kw), torch.optim.SGD
    else:
        cls = ctx.pick("class", [torch.optim.Adam, torch.optim.RMSprop])
        kw, fac = {}, OptimizerFactoryAdam() if cls is torch.optim.Adam else OptimizerFactoryRMSprop()
    m = torch.nn.Linear(2, 1)
    opt = fac.create_optimizer(m, lr)
    ref = cls(m.parameters(), lr=lr, **kw)
    ctx.check(type(opt) is type(ref), "the class asked for")
    ctx.check(len(opt.param_groups) == 1 and [id(p) for p in opt.param_groups[0]["params"]] == [id(p) for p in m.parameters()], "all parameters of the module")
    for k in ref.defaults:
        a, b = opt.param_groups[0][k], ref.param_groups[0][k]
        if k == "betas":
            ctx.eq(a[0], b[0], k), ctx.eq(a[1], b[1], k)
        elif b is None or isinstance(b, bool):
            ctx.check(a is b, k)
        else:
            ctx.eq(a, b, k)


@harness("P43", [dict(kind=k) for k in ("redq", "sac", "dsac")])
def auto_alpha(ctx, kind):
    """automatic entropy tuning: target -prod(action shape), log alpha starting at 0, its own optimizer with its own learning rate"""
    from tianshou.highlevel.params import policy_params as pp
    from tianshou.highlevel.params.alpha import AutoAlphaFactoryDefault
    d = ctx.pick("dims", [1, 2, 3])
    envs = make_envs(ctx, kind != "dsac", d)
    lr = ctx.real("alpha_lr", 0.0625, 1)
    kw, low = choose(ctx, kind, envs)
    made = []
    fac, dist_fn = agent(ctx, kind, getattr(pp, CLS[kind] + "Params")(**{**kw, "alpha": AutoAlphaFactoryDefault(lr)}), made)
    tgt, log_alpha, opt = AutoAlphaFactoryDefault(lr).create_auto_alpha(envs, fac.optim_factory, "cpu")
    ctx.check(tgt == -(d if kind != "dsac" else 3), "target entropy")
    ctx.check(log_alpha.requires_grad and tuple(log_alpha.shape) == (1,) and float(log_alpha.detach()) == 0.0, "log alpha is a trainable zero")
    ps = [p for g in opt.param_groups for p in g["params"]]
    ctx.check(len(ps) == 1 and ps[0] is log_alpha, "the optimizer moves log alpha")
    for g in opt.param_groups:
        ctx.eq(g["lr"], lr, "learning rate of alpha")
    pol = fac.create_policy(envs, "cpu")
    ref = low_level(kind, made, {**low, "alpha": (tgt, log_alpha, opt)}, envs, dist_fn)
    same_attrs(ctx, pol, ref, kind)


@harness("P43", [dict(kind=k, hidden=h) for k in ("gauss", "gauss_cond", "det", "probs", "logits") for h in ((2,),)] + [dict(kind="logits", hidden=(2, 2)), dict(kind="det", hidden=())],
         [dict(kind=k, hidden=(2, 2), n=2) for k in ("gauss", "det", "probs", "logits")])
def default_actors(ctx, kind, hidden, n=1):
    """the default actor: layers of the given sizes and activation; its distribution function fits its output"""
    import torch as T
    from torch import nn
    from harness.h_nets import act, fix, linears, rows, run_mlp, softmax
    from tianshou.highlevel.module.actor import ActorFactoryDefault, ContinuousActorType, IntermediateModuleFactoryFromActorFactory
    envs = make_envs(ctx, kind in ("gauss", "gauss_cond", "det"))
    a = ctx.pick("activation", ["relu", "tanh"])
    unb = ctx.pick("unbounded", [False, True]) if "gauss" in kind else False
    fac = ActorFactoryDefault(ContinuousActorType.DETERMINISTIC if kind == "det" else ContinuousActorType.GAUSSIAN, hidden,
                              hidden_activation={"relu": nn.ReLU, "tanh": nn.Tanh}[a], continuous_unbounded=unb,
                              continuous_conditioned_sigma=kind == "gauss_cond", discrete_softmax=kind != "logits")
    net = fix(fac.create_module(envs, "cpu"))
    L = linears(net)
    k = len(hidden)
    outs = 2 if kind in ("gauss", "gauss_cond", "det") else 3
    sizes = [3, *hidden, outs]
    ctx.check([(m.in_features, m.out_features) for m in L[:k + 1]] == list(zip(sizes[:-1], sizes[1:])), f"layer sizes {L}")
    x = rows(ctx, "x", n, 3)
    got, _ = net(ctx.np.array(x))
    h = [act(ctx, a, run_mlp(ctx, L[:k], r, a, True)) if k else r for r in x]
    y = [run_mlp(ctx, L[k:k + 1], r, a, True) for r in h]
    fn = fac.create_dist_fn(envs)
    if "gauss" in kind:
        mu = ctx.np.array(y) if unb else ctx.np.array([[v for v in ctx.np.tanh(ctx.np.array(r))] for r in y])
        ctx.eq(got[0], mu, "means")
        if kind == "gauss_cond":
            ctx.check((L[k + 1].in_features, L[k + 1].out_features) == (sizes[-2], outs), "deviation computed from the features")
        d = fn(got)
        ctx.check(tuple(d.event_shape) == (outs,) and tuple(d.batch_shape) == (n,), "one action per row")
        ctx.eq(d.mean, got[0], "mean"), ctx.eq(d.stddev, got[1], "deviation")
    elif kind == "det":
        ctx.check(fn is None, "no distribution")
        ctx.eq(got, ctx.np.array([[v for v in ctx.np.tanh(ctx.np.array(r))] for r in y]), "actions between -1 and 1")
    else:
        d = fn(got)
        ctx.check(tuple(d.batch_shape) == (n,), "one action per row")
        p = T.distributions.Categorical(logits=ctx.tensor(ctx.np.array(y))).probs
        if kind == "logits":
            ctx.eq(got, ctx.np.array(y), "logits")
            ctx.eq(d.probs, p, "probabilities of the logits")
        else:
            ctx.eq(got, ctx.np.array([softmax(ctx, r) for r in y]), "probabilities")
            ctx.eq(d.probs, T.distributions.Categorical(probs=got).probs, "probabilities")
    if kind != "gauss_cond" and kind != "gauss":
        im = IntermediateModuleFactoryFromActorFactory(fac).create_intermediate_module(envs, "cpu")
        ctx.check(im.output_dim == outs, "size of the output when used as a feature network")


@harness("P43", [dict(kind=k, hidden=(2,)) for k in ("q", "v", "dq", "dv", "ensemble")] + [dict(kind="q", hidden=(2, 2))], [dict(kind=k, hidden=(2, 2), n=2) for k in ("q", "dq", "ensemble")])
def default_critics(ctx, kind, hidden, n=1):
    """the default critics: state values, action values of the given action, or one value per discrete action"""
    from torch import nn
    from harness.h_nets import act, fix, linears, rows, run_mlp
    from tianshou.highlevel.module.critic import CriticEnsembleFactoryDefault, CriticFactoryDefault
    envs = make_envs(ctx, kind in ("q", "v", "ensemble"))
    with_act = kind in ("q", "ensemble")
    if kind == "ensemble":
        net, a = CriticEnsembleFactoryDefault(hidden).create_module(envs, "cpu", 2, True), "tanh"
    else:
        a = ctx.pick("activation", ["relu", "tanh"])
        net = CriticFactoryDefault(hidden, {"relu": nn.ReLU, "tanh": nn.Tanh}[a]).create_module(envs, "cpu", with_act, discrete_last_size_use_action_shape=kind == "dq")
    fix(net)
    x = rows(ctx, "x", n, 3)
    u = rows(ctx, "u", n, 2) if with_act else None
    got = net(ctx.np.array(x), ctx.np.array(u)) if with_act else net(ctx.np.array(x))
    full = [r + (s or []) for r, s in zip(x, u or [None] * n)]
    sizes = [5 if with_act else 3, *hidden, 3 if kind == "dq" else 1]
    if kind == "ensemble":
        from tianshou.utils.net.common import EnsembleLinear
        E = [m for m in net.modules() if isinstance(m, EnsembleLinear)]
        ctx.check([tuple(m.weight.shape) for m in E] == [(2, i, o) for i, o in zip(sizes[:-1], sizes[1:])], "layer sizes of the ensemble")
        out = []
        for e in range(2):
            rows_e = []
            for r in full:
                for i, m in enumerate(E):
                    w = m.weight.detach().numpy()[e].tolist()
                    b = m.bias_weights.detach().numpy()[e].reshape(-1).tolist()
                    r = [sum(r[p] * w[p][q] for p in range(len(r))) + b[q] for q in range(len(b))]
                    if i < len(E) - 1:
                        r = act(ctx, a, r)
                rows_e.append(r)
            out.append(rows_e)
        ctx.eq(got, ctx.np.array(out), "values of every member")
        return
    L = linears(net)
    ctx.check([(m.in_features, m.out_features) for m in L] == list(zip(sizes[:-1], sizes[1:])), f"layer sizes {L}")
    k = len(hidden)
    y = [run_mlp(ctx, L[k:], act(ctx, a, run_mlp(ctx, L[:k], r, a, True)), a, True) for r in full]
    ctx.eq(got, ctx.np.array(y), "values")


@harness("P43", [dict(cont=True), dict(cont=False)])
def shared_critic(ctx, cont):
    """critics that reuse the actor share its preprocessing network and nothing else"""
    from tianshou.highlevel.module.actor import ActorFactoryDefault, ActorFactoryTransientStorageDecorator, ActorFuture, ContinuousActorType
    from tianshou.highlevel.module.critic import CriticFactoryReuseActor
    from harness.h_nets import act, fix, linears, rows, run_mlp
    envs = make_envs(ctx, cont)
    future = ActorFuture()
    actor = ActorFactoryTransientStorageDecorator(ActorFactoryDefault(ContinuousActorType.DETERMINISTIC, (2,)), future).create_module(envs, "cpu")
    use, sized = (ctx.pick("use_action", [False, True]) if cont else False), ctx.pick("sized", [False, True])
    critic = CriticFactoryReuseActor(future).create_module(envs, "cpu", use, discrete_last_size_use_action_shape=sized)
    fix(actor), fix(critic, 50)
    shared = {id(p) for p in actor.parameters()} & {id(p) for p in critic.parameters()}
    ctx.check(shared == {id(p) for p in actor.get_preprocess_net().parameters()}, "the preprocessing network is shared, the rest is not")
    x = rows(ctx, "x", 1, 3)
    pre = linears(actor.get_preprocess_net())
    h = [act(ctx, "relu", run_mlp(ctx, pre, r)) for r in x]
    rest = [m for m in linears(critic) if all(m is not p for p in pre)]
    ctx.check(rest[-1].out_features == (3 if sized and not cont else 1), "number of values")
    if cont and use:
        return      # the head of an action-value critic on a shared network has to be configured by the user (sizes do not include the action)
    ctx.eq(critic(ctx.np.array(x)), ctx.np.array([run_mlp(ctx, rest, r) for r in h]), "values computed from the actor's features")


@harness("P43", [dict()])
def curiosity_wrapper(ctx):
    """the intrinsic curiosity wrapper: the given policy, networks of the given sizes on the given features, its own optimizer, the given scales"""
    import torch
    from tianshou.highlevel.module.actor import ActorFactoryDefault, ContinuousActorType, IntermediateModuleFactoryFromActorFactory
    from tianshou.highlevel.params.policy_params import DQNParams
    from tianshou.highlevel.params.policy_wrapper import PolicyWrapperFactoryIntrinsicCuriosity
    from tianshou.policy import ICMPolicy
    from tianshou.utils.net.discrete import IntrinsicCuriosityModule
    from harness.h_nets import linears
    envs = make_envs(ctx, False)
    made = []
    fac, _ = agent(ctx, "dqn", DQNParams(lr=ctx.real("lr", 0.0625, 1)), made)
    feat = IntermediateModuleFactoryFromActorFactory(ActorFactoryDefault(ContinuousActorType.UNSUPPORTED, (4,), discrete_softmax=False))
    icm_lr, ls, rs, fw = ctx.real("icm_lr", 0.0625, 1), ctx.real("lr_scale", 0, 4), ctx.real("reward_scale", 0, 4), ctx.real("forward_loss_weight", 0, 1)
    hidden = ctx.pick("hidden", [(2,), (2, 5)])
    wrap = ctx.pick("wrapped", [True, False])
    if wrap:
        fac.set_policy_wrapper_factory(PolicyWrapperFactoryIntrinsicCuriosity(feature_net_factory=feat, hidden_sizes=hidden, lr=icm_lr, lr_scale=ls, reward_scale=rs, forward_loss_weight=fw))
    pol = fac.create_policy(envs, "cpu")
    if not wrap:
        ctx.check(not isinstance(pol, ICMPolicy) and pol.model is made[0][1], "no wrapper unless one is asked for")
        return
    ctx.check(isinstance(pol, ICMPolicy) and pol.policy.model is made[0][1], "the policy itself is wrapped")
    ps = [p for g in pol.optim.param_groups for p in g["params"]]
    ctx.check({id(p) for p in ps} == {id(p) for p in pol.model.parameters()} and len(ps) == len(list(pol.model.parameters())), "the optimizer owns the curiosity networks")
    ctx.check(not {id(p) for p in ps} & {id(p) for p in made[0][1].parameters()}, "the policy keeps its own optimizer")
    for g in pol.optim.param_groups:
        ctx.eq(g["lr"], icm_lr, "learning rate")
    L = [(m.in_features, m.out_features) for m in linears(pol.model)]
    f, h = 3, list(hidden)
    chain = lambda s: list(zip(s[:-1], s[1:]))
    want = [(3, 4), (4, f)] + chain([f + 3, *h, f]) + chain([2 * f, *h, 3])
    ctx.check(sorted(L) == sorted(want), f"layer sizes {L} {want}")
    m = torch.nn.Linear(1, 1)
    ref = ICMPolicy(policy=pol.policy, model=pol.model, optim=torch.optim.SGD(m.parameters(), lr=1.0), lr_scale=ls, reward_scale=rs, forward_loss_weight=fw, action_space=envs.get_action_space())
    same_attrs(ctx, pol, ref, "icm")


@harness("P43", [dict()])
def iqn_model(ctx):
    """the implicit quantile network: the given preprocessing network, hidden sizes and number of cosines"""
    from tianshou.highlevel.config import SamplingConfig
    from tianshou.highlevel.experiment import IQNExperimentBuilder
    from tianshou.highlevel.module.actor import ActorFactoryDefault, ContinuousActorType, IntermediateModuleFactoryFromActorFactory
    from tianshou.highlevel.params.policy_params import IQNParams
    from harness.h_nets import linears
    envs = make_envs(ctx, False)
    hidden, cos = ctx.pick("hidden", [(), (2,), (5, 2)]), ctx.pick("cosines", [2, 7])
    b = IQNExperimentBuilder(None, sampling_config=SamplingConfig(num_train_envs=1)).with_iqn_params(IQNParams(hidden_sizes=hidden, num_cosines=cos))
    b.with_preprocess_network_factory(IntermediateModuleFactoryFromActorFactory(ActorFactoryDefault(ContinuousActorType.UNSUPPORTED, (6,), discrete_softmax=False)))
    pol = b.build().agent_factory.create_policy(envs, "cpu")
    chain = lambda s: list(zip(s[:-1], s[1:]))
    want = [(3, 6), (6, 3)] + [(cos, 3)] + chain([3, *hidden, 3])
    L = [(m.in_features, m.out_features) for m in linears(pol.model)]
    ctx.check(sorted(L) == sorted(want), f"layer sizes {L} {want}")


@harness("P43", [dict(kind=k) for k in KINDS if k != "iqn"])
def builders(ctx, kind):
    """experiment builders hand parameters, factories, optimizer settings and callbacks to the agent's factory"""
    import torch
    from torch import nn
    from tianshou.highlevel import experiment as ex
    from tianshou.highlevel.config import SamplingConfig
    from tianshou.highlevel.params import policy_params as pp
    from tianshou.highlevel.trainer import EpochStopCallbackRewardThreshold, EpochTestCallbackDQNSetEps, EpochTrainCallbackDQNSetEps
    from harness.h_nets import linears
    cont = kind not in ("dqn", "dsac")
    envs = make_envs(ctx, cont)
    lrs = {n: ctx.real(n, 0.0625, 1) for n in LRS[kind]}
    eps, wd = ctx.real("eps", 0.0625, 1), ctx.real("weight_decay", 0, 1)
    cbs = EpochTrainCallbackDQNSetEps(0.5), EpochTestCallbackDQNSetEps(0.25), EpochStopCallbackRewardThreshold(1.0)
    sc, ec = SamplingConfig(num_train_envs=1), ex.ExperimentConfig(device="cpu")
    b = getattr(ex, CLS[kind] + "ExperimentBuilder")(None, ec, sc)
    params = getattr(pp, CLS[kind] + "Params")(**lrs)
    getattr(b, f"with_{'sac' if kind == 'dsac' else kind}_params")(params)
    which = ctx.pick("modules", ["given", "default", "shared"])
    made = []
    af, CF, ef, mf, dist_fn, M = make_factories(ctx, made)
    n_c = 0 if kind in ("pg", "dqn", "redq") else 2 if len(lrs) == 3 else 1
    if which == "shared" and n_c == 0:
        return
    acts = {"relu": nn.ReLU, "tanh": nn.Tanh}
    a_act, c_act = ctx.pick("actor activation", ["relu", "tanh"]), ctx.pick("critic activation", ["relu", "tanh"])
    sizes = dict(actor=[4], critic=[5, 6], critic2=[7])
    if which == "given":
        if kind == "dqn":
            b.with_model_factory(mf)
        else:
            b.with_actor_factory(af)
        if n_c == 1:
            b.with_critic_factory(CF("critic"))
        elif n_c == 2:
            b.with_critic1_factory(CF("critic"))
            b.with_critic2_factory(CF("critic2"))
        elif kind == "redq":
            b.with_critic_ensemble_factory(ef)
    else:
        if kind == "dqn":
            b.with_model_factory_default(sizes["actor"], acts[a_act])
        else:
            b.with_actor_factory_default(sizes["actor"], acts[a_act])
        if which == "shared":
            b.with_common_critic_factory_use_actor() if n_c == 2 else b.with_critic_factory_use_actor()
        elif n_c == 1:
            b.with_critic_factory_default(sizes["critic"], acts[c_act])
        elif n_c == 2:
            b.with_critic1_factory_default(sizes["critic"], acts[c_act])
            b.with_critic2_factory_default(sizes["critic2"], acts[c_act])
        elif kind == "redq":
            b.with_critic_ensemble_factory_default(sizes["critic"])
    b.with_optim_factory_default(betas=(0.5, 0.75), eps=eps, weight_decay=wd)
    b.with_epoch_train_callback(cbs[0]).with_epoch_test_callback(cbs[1]).with_epoch_stop_callback(cbs[2]).with_name("some name")
    e = b.build()
    ctx.check(e.name == "some name" and e.config is ec and e.sampling_config is sc and e.agent_factory.sampling_config is sc, "name and configuration")
    t = e.agent_factory.trainer_callbacks
    ctx.check(t.epoch_train_callback is cbs[0] and t.epoch_test_callback is cbs[1] and t.epoch_stop_callback is cbs[2], "callbacks")
    pol = e.agent_factory.create_policy(envs, "cpu")
    for lr, (opt, ms) in optimizers(kind, pol).items():
        ctx.check(type(opt) is torch.optim.Adam and len(opt.param_groups) == 1, "the default optimizer")
        g = opt.param_groups[0]
        ctx.eq(g["lr"], lrs[lr], f"{lr}: learning rate"), ctx.eq(g["eps"], eps, "eps"), ctx.eq(g["weight_decay"], wd, "weight decay")
        ctx.check(tuple(g["betas"]) == (0.5, 0.75), "betas")
        mods = [getattr(pol, m) for m in ms]
        ctx.check({id(p) for p in g["params"]} == {id(p) for m in mods for p in m.parameters()}, "the optimizer owns its modules")
    if which == "given":
        for n, m, _ in made:
            ctx.check(getattr(pol, n) is m, f"the {n} given")
        return
    n_in, n_out = 3, 2 if cont else 3
    names = {"actor": "model"} if kind == "dqn" else {"actor": "actor", **({"critic": "critic"} if n_c else {}), **({"critic2": "critic2"} if n_c == 2 else {})}
    for role, attr in names.items():
        m = getattr(pol, attr)
        L = linears(m)
        if role != "actor" and which == "shared":
            shared = {id(p) for p in pol.actor.parameters()} & {id(p) for p in m.parameters()}
            ctx.check(shared == {id(p) for p in pol.actor.get_preprocess_net().parameters()} and shared, f"{role} shares the actor's preprocessing network")
            continue
        hid = sizes[role]
        got = [x.out_features for x in L[:len(hid)]]
        ctx.check(got == hid and len(L) in (len(hid) + 1, len(hid) + 2), f"{role}: hidden layers {L}")
        want = acts[a_act if role == "actor" else c_act]
        got = {type(x) for x in m.modules() if isinstance(x, (nn.ReLU, nn.Tanh))}
        ctx.check(got == {want}, f"{role}: activations {got}")


@harness("P43", [dict(kind=k, how=h) for k in ("ppo", "ddpg", "td3") for h in ("pickle", "copy", "builder copy")])
def stored_sharing(ctx, kind, how):
    """experiments which were stored or copied still share the network of the actor that is created, whatever was created before"""
    import copy
    import pickle
    from tianshou.highlevel import experiment as ex
    from tianshou.highlevel.config import SamplingConfig
    envs = make_envs(ctx, True)
    b = getattr(ex, CLS[kind] + "ExperimentBuilder")(None, ex.ExperimentConfig(device="cpu"), SamplingConfig(num_train_envs=1))
    b.with_actor_factory_default([4])
    b.with_common_critic_factory_use_actor() if kind == "td3" else b.with_critic_factory_use_actor()
    e = b.build()
    for _ in range(ctx.pick("created before", [0, 1, 2])):
        e.agent_factory.create_policy(envs, "cpu")
    if how == "pickle":
        e = pickle.loads(pickle.dumps(e))
    elif how == "copy":
        e = copy.deepcopy(e)
    else:
        e = b.copy().build()
    for _ in range(2):
        pol = e.agent_factory.create_policy(envs, "cpu")
        own = {id(p) for p in pol.actor.get_preprocess_net().parameters()}
        for n in ("critic", "critic2")[:2 if kind == "td3" else 1]:
            ps = {id(p) for p in getattr(pol, n).parameters()}
            ctx.check(own and own <= ps and not (ps - own) & {id(p) for p in pol.actor.parameters()}, f"{n} shares the actor's preprocessing network")
