"""P44: experiments run exactly what their configuration says: environments, seeds, collectors, prefilling, training
schedule, callbacks, persistence, results.

Environments and policies are stand-ins with arbitrary symbolic observations and rewards that log how they are used; the
expected log is derived here from the documented configuration alone."""
from symx.ctx import harness

from harness.h_collect import World


def make_world(ctx, n_train, n_test):
    """environments with episodes of length 2, one policy"""
    W = World(ctx, n_train + n_test + 1, max_len=2, flags="never", info=None, entry=False)
    return W


class Factories:
    def __init__(self, ctx, kind, sc, callbacks=None):
        import gymnasium as gym
        from tianshou.env import DummyVectorEnv
        from tianshou.highlevel.agent import OffPolicyAgentFactory, OnPolicyAgentFactory
        from tianshou.highlevel.env import DiscreteEnvironments, EnvFactory, VectorEnvType
        from tianshou.highlevel.optim import OptimizerFactoryAdam
        from tianshou.policy.base import TrainingStats
        F = self
        self.ev = []
        nt, ns = sc.num_train_envs, sc.num_test_envs
        self.W = W = make_world(ctx, nt, ns)
        self.train, self.test, self.watch = W.envs[:nt], W.envs[nt:nt + ns], W.envs[nt + ns:]

        class EF(EnvFactory):
            def create_env(self, mode):
                raise NotImplementedError

            def create_envs(self, num_training_envs, num_test_envs, create_watch_env=False):
                F.ev.append(("envs", num_training_envs, num_test_envs, create_watch_env))
                mk = lambda es: DummyVectorEnv([(lambda e=e: e) for e in es])
                F.envs = DiscreteEnvironments(F.train[0], mk(F.train), mk(F.test), mk(F.watch) if create_watch_env else None)
                return F.envs

        base = OnPolicyAgentFactory if kind == "on" else OffPolicyAgentFactory

        class AF(base):
            def _create_policy(self, envs, device):
                import torch
                import numpy
                seeds = [v for k, v in ctx.events if k == "np_seed"][-1:] or [int(numpy.random.get_state()[1][0])]
                F.ev.append(("policy", envs, device, torch.initial_seed(), seeds))
                return W.policy

        def update(sample_size, buffer, **kw):
            F.ev.append(("update", sample_size, len(buffer), kw))
            return TrainingStats()

            def create_trainer(self, world, policy_persistence):
                t = super().create_trainer(world, policy_persistence)
                t.show_progress = False
                return t
        W.policy.update = update
        self.env_factory = EF(VectorEnvType.DUMMY)
        self.agent_factory = AF(sc, OptimizerFactoryAdam())
        if callbacks:
            self.agent_factory.set_trainer_callbacks(callbacks)

    def steps(self, envs):
        return [sum(e["kind"] == "step" for e in env.log) for env in envs]

    def episodes(self, envs):
        return [sum(e["kind"] == "step" and e["over"] for e in env.log) for env in envs]


def ceil(a, b):
    return -(-a // b)


@harness("P44", [dict(kind=k, by=b, part=p) for k in ("on", "off") for b in ("step", "episode") for p in range(3)],
         [dict(kind=k, by=b, part=p, deep=True) for k in ("on", "off") for b in ("step", "episode") for p in range(3)])
def run(ctx, kind, by, part, deep=False):
    """a run prefills, trains, tests, stops and watches as configured, and returns the trainer's result"""
    import torch
    from tianshou.data import InfoStats
    from tianshou.highlevel.config import SamplingConfig
    from tianshou.highlevel.experiment import Experiment, ExperimentConfig
    from tianshou.highlevel.trainer import EpochStopCallback, EpochTestCallback, EpochTrainCallback, TrainerCallbacks
    np = ctx.np
    options = dict(epochs=[1, 2], spe=[3, 4], nt=[1, 2], ns=[1, 2], tests=[2, 1], start=[0, 3, 1], random=[True, False], seed=[7], ups=[0.5, 1.0], repeat=[2, 1], watch=[True, False], per=[2, 3], stop=[False, True], train=[True, False])
    alts = [{}] + [{n: v} for n, o in options.items() for v in o[1:]] + [dict(nt=2, start=3), dict(epochs=2, nt=2, start=3, random=False), dict(epochs=2, stop=True), dict(epochs=2, per=1, ups=1.0), dict(nt=2, per=3)]
    chosen = {**{n: o[0] for n, o in options.items()}, **ctx.pick("variant", alts[part::3])}
    if deep:        # two options at once
        chosen.update(ctx.pick("other variant", [a for a in alts if a]))
        if chosen["per"] == 1:
            chosen["ups"] = 1.0
    c = type("C", (), chosen)
    bs = ctx.int("batch_size", 1, 9)
    sc = SamplingConfig(num_epochs=c.epochs, step_per_epoch=c.spe, batch_size=bs, num_train_envs=c.nt, num_test_envs=c.ns, num_test_episodes=c.tests, buffer_size=24,
                        step_per_collect=c.per if by == "step" else None, episode_per_collect=c.per if by == "episode" else None,
                        repeat_per_collect=c.repeat, update_per_step=c.ups, start_timesteps=c.start, start_timesteps_random=c.random)
    calls = []

    class Tr(EpochTrainCallback):
        def callback(self, epoch, env_step, context):
            calls.append(("train", epoch, env_step, context))

    class Te(EpochTestCallback):
        def callback(self, epoch, env_step, context):
            calls.append(("test", epoch, env_step, context))

    class St(EpochStopCallback):
        def should_stop(self, mean_rewards, context):
            calls.append(("stop", mean_rewards, None, context))
            return c.stop and sum(x[0] == "test" for x in calls) == 2

    F = Factories(ctx, kind, sc, TrainerCallbacks(Tr(), Te(), St()))
    W = F.W
    ec = ExperimentConfig(seed=c.seed, device="cpu", train=c.train, watch=c.watch, watch_num_episodes=2, persistence_enabled=False)
    e = Experiment(ec, F.env_factory, F.agent_factory, sc, "name")
    torch.manual_seed(1), np.random.seed(1)
    res = e.run()
    ctx.check(F.ev[0] == ("envs", c.nt, c.ns, c.watch), f"environments as configured {F.ev[0]}")
    ctx.check(F.ev[1][0] == "policy" and F.ev[1][1] is F.envs and F.ev[1][2] == "cpu", "one policy for these environments")
    ctx.check(F.ev[1][3] == c.seed and F.ev[1][4] == [c.seed], "random number generators are seeded before the policy is created")
    ctx.check(res.world.policy is W.policy and res.world.envs is F.envs, "the result's world")
    # watching
    ctx.check(sum(F.episodes(F.watch)) == (2 if c.watch else 0), "watched episodes")
    if not c.train:
        ctx.check(res.trainer_result is None and res.world.trainer is None, "no training, no result")
        ctx.check(sum(F.steps(F.train)) + sum(F.steps(F.test)) == 0 and not calls and len(F.ev) == 2, "nothing is trained")
        return
    # expected schedule: (epoch, steps so far, episodes collected)
    pre = ceil(c.start, c.nt) * c.nt if c.start else 0
    # episodes have length 2; after prefilling with k steps per environment, each environment is at t = k mod 2 (trainers do not reset)
    t = [(ceil(c.start, c.nt) if c.start else 0) % 2] * c.nt
    updates, trains, tests, per_env = [], [], [0], [(pre // c.nt)] * c.nt
    total, stopped, size = 0, False, pre
    for ep in range(1, c.epochs + 1):
        done = 0
        while done < c.spe:
            trains.append((ep, total))
            if by == "step":
                k = [ceil(c.per, c.nt)] * c.nt
            else:                       # the environments step in rounds until enough episodes are over
                k, got = [0] * c.nt, 0
                ready = list(range(min(c.nt, c.per)))
                t = [0] * c.nt
                while got < c.per:
                    for j in list(ready):
                        k[j] += 1
                        t[j] += 1
                        if t[j] == 2:
                            t[j] = 0
                            got += 1
                            if c.per - got < len(ready):
                                ready.remove(j)
            n = sum(k)
            done, total, size = done + n, total + n, size + n
            per_env = [a + b for a, b in zip(per_env, k)]
            if kind == "on":
                updates.append((0, size))
                size = 0
            else:
                updates += [(None, min(size, 24 // c.nt * c.nt))] * round(c.ups * n)
        tests.append(ep)
        if c.stop and ep == 1:
            stopped = True
            break
    got = F.steps(F.train)
    ctx.check(sum(got) == sum(per_env) and (by == "episode" or got == per_env), f"steps of the training environments {F.steps(F.train)} {per_env}")
    n_random = len([1 for i, a in W.samples])
    ctx.check(n_random == (pre if c.random else 0), f"random steps {n_random}")
    ctx.check(sum(F.episodes(F.test)) == len(tests) * c.tests, f"test episodes {F.episodes(F.test)}")
    ups = F.ev[2:]
    ctx.check(len(ups) == len(updates), f"number of updates {len(ups)} {len(updates)}")
    for (_, ss, n, kw), (want_ss, size_) in zip(ups, updates):
        if kind == "on":
            ctx.check(ss == 0 or ss is None, "the whole buffer is used")
            ctx.eq(kw["batch_size"], bs, "batch size"), ctx.check(kw["repeat"] == c.repeat, "repeat")
        else:
            ctx.eq(ss, bs, "sample size")
        ctx.check(n == size_, f"transitions in the buffer {n} {size_}")
    got = [(a, b) for k, a, b, _ in calls if k == "train"]
    ctx.check([a for a, _ in got] == [a for a, _ in trains] and [int(b) for _, b in got] == [b for _, b in trains], f"training callback {got} {trains}")
    got = [a for k, a, b, _ in calls if k == "test"]
    ctx.check(got == tests, f"test callback {got} {tests}")
    ctx.check(all(x.policy is W.policy and x.envs is F.envs and x.logger is res.world.logger for _, _, _, x in calls), "context of the callbacks")
    # mean test returns, in order of the test episodes per test
    means = returns(ctx, F, c, len(tests))
    got = [a for k, a, b, _ in calls if k == "stop"]
    if means is not None:
        ctx.check(len(got) in (len(tests), len(tests) - 1), "stop callback after each test")
        best = [means[0]]
        for m in means[1:]:
            best.append(ctx.ite(m > best[-1], m, best[-1]))
        for a, b in zip(reversed(got), reversed(best)):
            ctx.eq(a, b, "best mean return so far handed to the stop callback", tol=1e-6)
        r = res.trainer_result
        ctx.check(isinstance(r, InfoStats), "the trainer's result is returned")
        ctx.eq(r.best_reward, best[-1], "best mean test return", tol=1e-6)
    ctx.check(int(res.trainer_result.train_step) == total, f"training steps {res.trainer_result.train_step} {total}")
    ctx.check(int(res.trainer_result.test_episode) == len(tests) * c.tests, "test episodes")


def returns(ctx, F, c, n):
    """mean returns per test (None if it cannot be told from the logs of several environments which test an episode belongs to)"""
    if len(F.test) > 1:
        return None
    out, cur = [], 0
    for e in F.test[0].log:
        if e["kind"] == "step":
            cur = cur + e["rew"]
            if e["over"]:
                out.append(cur)
                cur = 0
    return [sum(out[i * c.tests:(i + 1) * c.tests][1:], out[i * c.tests]) / c.tests for i in range(n)]


@harness("P44", [dict(n=1), dict(n=2)])
def collectors(ctx, n):
    """buffers of the configured size and kind, exploration in training only, resets only if asked for"""
    from tianshou.data import VectorReplayBuffer
    from tianshou.highlevel.config import SamplingConfig
    stack, ign, last = ctx.pick("stack", [1, 3]), ctx.pick("ignore_obs_next", [False, True]), ctx.pick("only_last", [False, True])
    size = ctx.pick("size", [4, 6])
    sc = SamplingConfig(num_train_envs=n, buffer_size=size, replay_buffer_stack_num=stack, replay_buffer_ignore_obs_next=ign, replay_buffer_save_only_last_obs=last, step_per_collect=1)
    F = Factories(ctx, ctx.pick("kind", ["on", "off"]), sc)
    envs = F.env_factory.create_envs(n, 1)
    reset = ctx.pick("reset", [True, False, "default"])
    tr, te = F.agent_factory.create_train_test_collector(F.W.policy, envs, **({} if reset == "default" else dict(reset_collectors=reset)))
    b = tr.buffer
    ctx.check(b.maxsize == size and isinstance(b, VectorReplayBuffer) == (n > 1), "size and kind of the buffer")
    for x in [b] + list(getattr(b, "buffers", [])):
        ctx.check(x.options.get("stack_num", 1) == stack and x.options.get("ignore_obs_next", False) == ign and x.options.get("save_only_last_obs", False) == last, "options of the buffer")
        ctx.check(x.stack_num == stack, "frames stacked")
    ctx.check(tr.env is envs.train_envs and te.env is envs.test_envs and tr.policy is F.W.policy and te.policy is F.W.policy, "environments and policy")
    ctx.check(tr.exploration_noise is True and te.exploration_noise is False, "noise in training only")
    k = [len(e.log) for e in F.W.envs[:n + 1]]
    ctx.check(k == [0 if reset is False else 1] * (n + 1), "environments are reset if asked for")


@harness("P44", [dict()])
def eps_decay(ctx):
    """the epsilon of DQN policies: constant, or from the first to the final value linearly over the decay steps; test epsilon in tests"""
    from tianshou.highlevel import trainer as tr

    class Pol:
        def set_eps(self, e):
            got.append(e)

    class Log:
        def write(self, kind, step, data):
            written.append((kind, step, data))
    got, written = [], []
    cx = tr.TrainingContext(Pol(), None, Log())
    a, b = ctx.real("first", 0, 1), ctx.real("final", 0, 1)
    tr.EpochTrainCallbackDQNSetEps(a).get_trainer_fn(cx)(3, 4)
    tr.EpochTestCallbackDQNSetEps(b).get_trainer_fn(cx)(3, ctx.pick("step given", [None, 4]))
    ctx.check(len(got) == 2, "epsilon is set")
    ctx.eq(got[0], a, "training epsilon"), ctx.eq(got[1], b, "test epsilon")
    n = ctx.pick("decay", [1, 4, 10])
    step = ctx.int("step", 0, 12)
    tr.EpochTrainCallbackDQNEpsLinearDecay(a, b, n).get_trainer_fn(cx)(ctx.int("epoch", 1, 9), step)
    frac = ctx.ite(step < n, step / n, 1.0)
    want = a + (b - a) * frac
    ctx.check(len(got) == 3, "epsilon is set once")
    ctx.eq(got[2], want, "epsilon after the steps", tol=1e-9)
    ctx.check(len(written) == 1, "logged once")
    ctx.eq(written[0][1], step, "logged at the step"), ctx.eq(written[0][2]["train/eps"], want, "logged value", tol=1e-9)


@harness("P44", [dict()])
def reward_threshold(ctx):
    """stop when the mean return reaches the threshold given, or else that of the environment"""
    from types import SimpleNamespace as N
    from tianshou.highlevel import trainer as tr
    own, env, m = ctx.real("own", -4, 4), ctx.real("environment's", -4, 4), ctx.real("mean", -5, 5)
    given = ctx.pick("given", ["own", "zero", None])
    thr = {"own": own, "zero": 0.0, None: None}[given]
    envs = N(env=N(spec=N(reward_threshold=env)))
    got = tr.EpochStopCallbackRewardThreshold(thr).get_trainer_fn(tr.TrainingContext(None, envs, None))(m)
    ctx.check(got == (m >= (env if thr is None else thr)), "threshold reached")


@harness("P44", [dict()], [dict(n=4)])
def seeded_collection(ctx, n=3):
    """experiments of a collection differ in their seeds only; no training environment's seed is used twice"""
    from tianshou.highlevel.config import SamplingConfig
    from tianshou.highlevel.experiment import ExperimentConfig, RandomActionExperimentBuilder
    s, t = ctx.pick("seed", [0, 42]), ctx.pick("train_seed", [0, 42, -3])
    k = ctx.pick("num_train_envs", [1, 2, 5])
    bs = ctx.int("batch_size", 1, 9)
    kt = ctx.pick("num_test_envs", [1, 2, 5])
    rest = dict(num_test_episodes=ctx.int("test_episodes", 1, 9), num_epochs=ctx.int("epochs", 1, 9), step_per_epoch=ctx.int("per_epoch", 1, 9), buffer_size=ctx.int("buffer", 1, 9), step_per_collect=ctx.int("per_collect", 1, 9))
    b = RandomActionExperimentBuilder(None, ExperimentConfig(seed=s, device="cpu"), SamplingConfig(train_seed=t, num_train_envs=k, num_test_envs=kt, batch_size=bs, **rest)).with_name("n")
    m = ctx.pick("experiments", [1, n])
    es = b.build_seeded_collection(m).experiments
    ctx.check(len(es) == m and b.experiment_config.seed == s and b.sampling_config.train_seed == t, "number of experiments; the builder keeps its seeds")
    ctx.check(len({e.config.seed for e in es}) == m and es[0].config.seed == s, "experiment seeds")
    used = [e.sampling_config.train_seed + i for e in es for i in range(k)]
    ctx.check(len(set(used)) == m * k and es[0].sampling_config.train_seed == t, "seeds of the training environments")
    ctx.check(len({e.name for e in es}) == m and all(e.name.startswith("n") for e in es), "unique names")
    for e in es:
        ctx.check(e.sampling_config is e.agent_factory.sampling_config, "one configuration per experiment")
        ctx.check(e.sampling_config.test_seed not in range(e.sampling_config.train_seed, e.sampling_config.train_seed + k), "test environments have other seeds")
        ctx.eq(e.sampling_config.batch_size, bs, "everything else stays")
        ctx.check(e.sampling_config.num_train_envs == k and e.sampling_config.num_test_envs == kt, "everything else stays")
        ctx.eq([getattr(e.sampling_config, a) for a in rest], list(rest.values()), "everything else stays")


@harness("P44", [dict(how=h) for h in ("factory", "registered", "from_factory")])
def environments(ctx, how):
    """as many environments as asked for, each created for its purpose, training and test environments with seeds of their own"""
    import gymnasium as gym
    from tianshou.highlevel import env as he
    cont = ctx.pick("continuous", [False, True])
    made = []

    class E(gym.Env):
        def __init__(self, mode):
            self.mode, self.seeds = mode, []
            self.observation_space = gym.spaces.Box(-1.0, 1.0, (3,))
            self.action_space = gym.spaces.Box(-2.0, 2.0, (2,)) if cont else gym.spaces.Discrete(3)
            made.append(self)

        def reset(self, seed=None, **kw):
            self.seeds.append(seed)
            return self.observation_space.low, {}

        def step(self, a):
            raise NotImplementedError

    nt, ns, watch = ctx.pick("train", [1, 3]), ctx.pick("test", [1, 2]), ctx.pick("watch", [False, True])
    M = he.EnvMode
    s1, s2 = ctx.pick("train_seed", [0, 42]), ctx.pick("test_seed", [0, 45])
    old = gym.make
    try:
        if how == "factory":
            class F(he.EnvFactory):
                def create_env(self, mode):
                    return E(mode)
            envs = F(he.VectorEnvType.DUMMY).create_envs(nt, ns, watch)
        elif how == "registered":
            modes = {"a": M.TRAIN, "b": M.TEST, "c": M.WATCH}

            def make(task, **kw):
                ctx.check(task == "T" and kw.pop("x") == 5, "task and arguments")
                m = modes[kw.pop("render_mode")]
                ctx.check(not kw, "no other arguments")
                return E(m)
            gym.make = make
            envs = he.EnvFactoryRegistered(task="T", train_seed=s1, test_seed=s2, venv_type=he.VectorEnvType.DUMMY, render_mode_train="a", render_mode_test="b", render_mode_watch="c", x=5).create_envs(nt, ns, watch)
        else:
            envs = he.Environments.from_factory_and_type(E, he.EnvType.CONTINUOUS if cont else he.EnvType.DISCRETE, he.VectorEnvType.DUMMY, nt, ns, watch)
    finally:
        gym.make = old
    ctx.check(isinstance(envs, he.ContinuousEnvironments if cont else he.DiscreteEnvironments), "kind of environments")
    ctx.check(len(envs.train_envs) == nt and len(envs.test_envs) == ns and (envs.watch_env is not None) == watch, "numbers of environments")
    ctx.check(len(made) == nt + ns + watch + 1, "no other environments, each of its own")
    groups = [(envs.train_envs, M.TRAIN, s1), (envs.test_envs, M.TEST, s2)] + ([(envs.watch_env, M.WATCH, s2)] if watch else [])
    ctx.check(envs.env.mode == M.TRAIN, "the single environment is one for training")
    seen = [envs.env]
    for v, m, s in groups:
        ms = v.get_env_attr("mode")
        ctx.check(list(ms) == [m] * len(v), "created for their purpose")
        if how == "registered":
            for i, x in enumerate(v.get_env_attr("seeds")):
                ctx.check(len(x) == 1, "seeded once")
                ctx.eq(x[0], s + i, "seeds count up from the seed given")
    ctx.check(envs.get_action_shape() == ((2,) if cont else 3) and tuple(envs.get_observation_shape()) == (3,), "shapes")
    ctx.check(envs.get_action_space() is envs.env.action_space and envs.get_observation_space() is envs.env.observation_space, "spaces")


DISK = {}


def to_disk(o, path, **k):
    """stand-in for torch.save"""
    import copy
    DISK[str(path)] = {k: v.clone() for k, v in o.items()} if isinstance(o, dict) else copy.deepcopy(o)


def from_disk(path, map_location=None, **k):
    """stand-in for torch.load"""
    import copy
    assert map_location == "cpu", "loaded to the device given"
    o = DISK[str(path)]
    return {k: v.clone() for k, v in o.items()} if isinstance(o, dict) else copy.deepcopy(o)


@harness("P44", [dict(mode=m) for m in ("POLICY", "POLICY_STATE_DICT")])
def persistence(ctx, mode):
    """what is restored is what was last persisted; nothing is written if persistence is disabled; checkpoints have files of their own"""
    import os
    import torch
    from harness.nets import Net
    from tianshou.highlevel.persistence import PersistEvent, Persistence, PersistenceGroup, PolicyPersistence, RestoreEvent
    from tianshou.highlevel.world import World as HWorld
    disk, ev = {}, []

    class Extra(Persistence):
        def __init__(self, n):
            self.n = n

        def persist(self, event, world):
            ev.append(("persist", self.n, event, world))

        def restore(self, event, world):
            ev.append(("restore", self.n, event, world))

    class Pol(Net):
        def __init__(self, k):
            super().__init__(ctx)
            self.v = [ctx.real(f"w{k}"), ctx.real(f"b{k}")]
            self.par("w", [[self.v[0]]]), self.par("b", [self.v[1]])

        def set(self, v):
            self.v = v
            with torch.no_grad():
                self.w.copy_(ctx.tensor(ctx.np.array([[v[0]]]))), self.b.copy_(ctx.tensor(ctx.np.array([v[1]])))

        def check(self, v, lab):
            ctx.eq(self.w.detach(), ctx.np.array([[v[0]]]), lab), ctx.eq(self.b.detach(), ctx.np.array([v[1]]), lab)

    global DISK
    DISK = disk
    enabled = ctx.pick("enabled", [True, False])
    group = PersistenceGroup(Extra(0), Extra(1), enabled=enabled) if ctx.pick("additional", [True, False]) else None
    pp = PolicyPersistence(group, enabled=enabled, mode=getattr(PolicyPersistence.Mode, mode))
    world = lambda pol, restore: HWorld(envs=None, policy=pol, logger=None, persist_directory="/nowhere/p", restore_directory=restore)
    old = torch.save, torch.load
    torch.save, torch.load = to_disk, from_disk
    try:
        a = Pol(0)
        w = world(a, None)
        best, chk = pp.get_save_best_fn(w), pp.get_save_checkpoint_fn(w)
        ctx.check((chk is None) == (not enabled), "checkpoints only if enabled")
        want = []
        vals = {}
        for k in range(2):
            v = a.v
            best(a)
            if enabled:
                vals["best"] = v
                if chk is not None:
                    p = chk(10 * k + 1, ctx.int("step", 0, 9), 7)
                    vals[p] = v
                    ctx.check(p in disk, "the checkpoint's path is returned")
            a.set([ctx.real(f"w{k + 1}'"), ctx.real(f"b{k + 1}'")])
        n = 4 if enabled and group else 0
        ctx.check([e[:3] for e in ev] == [("persist", i, PersistEvent.PERSIST_POLICY) for _ in range(n) for i in (0, 1)] and all(e[3] is w for e in ev), "additional data is persisted along")
        if not enabled:
            ctx.check(not disk, "nothing is written")
            return
        ctx.check(len(disk) == 3 and all(os.path.dirname(p) == "/nowhere/p" for p in disk), f"files {sorted(disk)}")
        name = getattr(PolicyPersistence.Mode, mode).get_filename()
        ctx.check(f"/nowhere/p/{name}" in disk, "file of the best policy")
        ev.clear()
        b = Pol(9)
        ctx.raises(ValueError, lambda: pp.restore(b, world(b, None), "cpu"), "there must be a directory to restore from")
        b.check(b.v, "unchanged")
        w2 = world(b, "/nowhere/p")
        pp.restore(b, w2, "cpu")
        b.check(vals["best"], "restored is what was persisted last")
        ctx.check([e[:3] for e in ev] == ([("restore", i, RestoreEvent.RESTORE_POLICY) for i in (0, 1)] if group else []), "additional data is restored along")
        for p, v in vals.items():
            if p != "best":
                o = disk[p]
                c = Pol(9)
                c.load_state_dict(o if isinstance(o, dict) else o.state_dict())
                c.check(v, "a checkpoint is the policy at that time")
    finally:
        torch.save, torch.load = old


@harness("P44", [dict(kind=k, mode=m) for k in ("on", "off") for m in ("POLICY", "POLICY_STATE_DICT")])
def stored_run(ctx, kind, mode):
    """a run stores the best policy (and the environments' data along with it) in the experiment's directory; a later run, with or without training and persistence, starts from it"""
    import os
    import tempfile
    import torch
    from harness.nets import Net
    from tianshou.highlevel.config import SamplingConfig
    from tianshou.highlevel.experiment import Experiment, ExperimentConfig
    from tianshou.highlevel.logger import LoggerFactory
    from tianshou.highlevel.persistence import Persistence, PolicyPersistence
    from tianshou.policy.base import TrainingStats
    from tianshou.utils import LazyLogger
    global DISK
    disk = DISK = {}
    np = ctx.np
    sc = lambda: SamplingConfig(num_epochs=2, step_per_epoch=2, batch_size=4, num_train_envs=1, num_test_envs=1, num_test_episodes=1, buffer_size=24, step_per_collect=2, repeat_per_collect=1, update_per_step=0.5)

    class Logs(LoggerFactory):
        def create_logger(self, log_dir, experiment_name, run_id, config_dict):
            logs.append((str(log_dir), experiment_name, run_id))
            return LazyLogger()

        def get_logger_class(self):
            return LazyLogger

    class Ex(Experiment):
        def save(self, directory):
            saved.append(str(directory))

    class Extra(Persistence):
        def __init__(self, n):
            self.n = n

        def persist(self, event, world):
            extra.append(("persist", self.n, str(world.persist_directory)))

        def restore(self, event, world):
            extra.append(("restore", self.n, str(world.restore_directory)))

    def setup(config, v0):
        F = Factories(ctx, kind, sc())
        holder = Net(ctx)
        holder.par("w", [v0])
        F.W.policy.holder = holder
        seen = []

        def update(sample_size, buffer, **kw):
            v = ctx.real(f"w{len(seen)}")
            seen.append(v)
            with torch.no_grad():
                holder.w.copy_(ctx.tensor(np.array([v])))
            return TrainingStats()
        F.W.policy.update = update
        make = F.env_factory.create_envs

        def create_envs(*a, **k):
            envs = make(*a, **k)
            envs.persistence = [Extra(0), Extra(1)]
            return envs
        F.env_factory.create_envs = create_envs
        return F, holder, seen, Ex(config, F.env_factory, F.agent_factory, sc(), "first", Logs())
    logs, saved, extra = [], [], []
    old = torch.save, torch.load
    def save(o, path, **k):
        if mode == "POLICY":        # the stand-in policy is a local class holding the whole test environment: keep its parameters
            o = Stored(o.state_dict())
        DISK[str(path)] = o if mode == "POLICY" else {n: v.clone() for n, v in o.items()}
    torch.save, torch.load = save, lambda path, map_location=None, **k: DISK[str(path)]
    pm = getattr(PolicyPersistence.Mode, mode)
    run_id, name, later = ctx.pick("variant", [(None, None, (False, False)), ("r", "other", (False, True)), ("r", None, (True, False))])
    with tempfile.TemporaryDirectory() as tmp:
        try:
            cfg = dict(device="cpu", watch=False, persistence_base_dir=tmp, log_file_enabled=False, policy_persistence_mode=pm)
            v0 = ctx.real("start")
            F, holder, seen, e = setup(ExperimentConfig(**cfg), v0)
            res = e.run(*([name] if name else []), logger_run_id=run_id)
            d = os.path.join(tmp, name or "first")
            ctx.check(os.path.isdir(d) and saved == [d], "the experiment is stored in its directory")
            ctx.check(logs == [(d, name or "first", run_id)], f"the logger is told directory, name and id {logs}")
            ctx.check(os.path.abspath(res.world.persist_directory) == d, "directory of the world")
            means = returns(ctx, F, type("C", (), dict(tests=1)), 3)
            ctx.check(len(seen) == 2, "an update per epoch")
            at = [v0, seen[0], seen[1]]
            best, b = at[0], means[0]
            n = 1
            for m, v in zip(means[1:], at[1:]):
                better = ctx.maybe(m > b)
                n += better
                best, b = (v, m) if better else (best, b)
            f = os.path.join(d, pm.get_filename())
            ctx.check(f in DISK, "file of the best policy")
            got = DISK[f]
            got = got if isinstance(got, dict) else got.state_dict()
            ctx.eq(got["holder.w"], np.array([best]), "the best policy is stored")
            if kind == "off":
                ctx.check(extra == [("persist", i, str(res.world.persist_directory)) for _ in range(n) for i in (0, 1)], "the environments' data are stored along with it")
            ctx.raises(FileExistsError, lambda: setup(ExperimentConfig(**cfg), v0)[3].run(name or "first"), "a directory is not used twice unasked")
            # a later run
            train, persist = later
            cfg.update(train=train, persistence_enabled=persist, policy_restore_directory=d)
            F, holder, seen, e = setup(ExperimentConfig(**cfg), ctx.real("unused"))
            files = {k: v for k, v in DISK.items()}
            saved.clear(), logs.clear(), extra.clear()
            w = e.create_experiment_world(override_experiment_name="later")
            ctx.eq(holder.w.detach(), np.array([best]), "a later run starts from the best policy")
            ctx.check(extra == [("restore", i, d) for i in (0, 1)], f"the environments' data are restored along with it, persistence or not {extra}")
            ctx.check(saved == ([os.path.join(tmp, "later")] if persist else []) and os.path.isdir(os.path.join(tmp, "later")) == persist, "stored only if asked for")
            ctx.check(bool(logs) == persist, "logged only if asked for")
            ctx.check((w.trainer is not None) == train and (w.train_collector is not None) == train, "trainer and collectors only for training")
            if train:
                w.trainer.run()
            ctx.check(DISK == files or all(DISK[k] is files[k] for k in files) and len(DISK) == len(files), "nothing else is written")
        finally:
            torch.save, torch.load = old


class Stored:
    def __init__(self, d):
        self.d = {k: v.clone() for k, v in d.items()}

    def state_dict(self):
        return self.d


@harness("P44", [dict(kind="sequential"), dict(kind="joblib")])
def launchers(ctx, kind):
    """results of the experiments that succeeded, in order; an error only if all fail"""
    from tianshou.evaluation.launcher import JoblibConfig, JoblibExpLauncher, SequentialExpLauncher
    n = ctx.pick("experiments", [1, 2, 3])
    vals = [ctx.real(f"r{i}") for i in range(n)]
    kinds = [ctx.pick(f"outcome{i}", ["result", "none", "fails"]) for i in range(n)]
    ran = []

    def runner(i):
        ran.append(i)
        if kinds[i] == "fails":
            raise RuntimeError("failed")
        return None if kinds[i] == "none" else Res(vals[i])
    la = SequentialExpLauncher(runner) if kind == "sequential" else JoblibExpLauncher(JoblibConfig(n_jobs=1, verbose=0), runner)
    want = [i for i in range(n) if kinds[i] != "fails"]
    if not want:
        ctx.raises(RuntimeError, lambda: la.launch(list(range(n))), "an error if all experiments fail")
        return
    out = la.launch(list(range(n)))
    ctx.check(ran == list(range(n)), "each experiment runs once")
    ctx.check(len(out) == len(want), "one result per experiment that succeeded")
    for o, i in zip(out, want):
        ctx.check((o is None) == (kinds[i] == "none"), "results in order")
        if o is not None:
            ctx.eq(o.v, vals[i], "results in order")


class Res:
    def __init__(self, v):
        self.v = v


@harness("P44", [dict(runs=2)], [dict(runs=3)])
def logged_results(ctx, runs):
    """results of several runs read from their logs: per run the mean returns at each test up to the maximum number of steps asked for"""
    import os
    import tempfile
    from tianshou.evaluation.rliable_evaluation_hl import RLiableExperimentResult
    from tianshou.utils import TensorboardLogger
    from tianshou.utils.logger.base import DataScope
    np = ctx.np
    order, data = [], {}
    steps = [0, 3, 4, 9]
    extra = ctx.pick("other entries", [False, True])
    mx = ctx.pick("max_env_step", [None, 3, 4, 5, 20])
    for r in range(runs):
        lens = [ctx.pick(f"tests{r}", [2, 4]) if r else 3, 3]
        data[f"run{r}"] = {}
        for scope, k in zip((DataScope.TEST, DataScope.TRAIN), lens):
            d = {"env_step": np.array(steps[:k]), "returns_stat": {m: ctx.reals(f"{scope.value}{r}{m}", (k,)) for m in ("mean", "std", "max", "min")}}
            if extra:
                d = {"pred_dist_std_array_stat": {"0": np.array([1.0] * k)}, **d, "something": np.array([2.0] * k)}
            data[f"run{r}"][scope] = d

    def restore(path):
        order.append(os.path.basename(path))
        return {k: dict(v) for k, v in data[order[-1]].items()}
    old = TensorboardLogger.restore_logged_data
    TensorboardLogger.restore_logged_data = staticmethod(restore)
    try:
        with tempfile.TemporaryDirectory() as tmp:
            for r in data:
                os.mkdir(os.path.join(tmp, r))
            os.mkdir(os.path.join(tmp, ".hidden"))
            res = RLiableExperimentResult.load_from_disk(tmp, max_env_step=mx)
    finally:
        TensorboardLogger.restore_logged_data = old
    ctx.check(sorted(order) == sorted(data), "each run is read once")
    for scope, ret, st in ((DataScope.TEST, res.test_episode_returns_RE, res.env_steps_E), (DataScope.TRAIN, res.train_episode_returns_RE, res.env_steps_train_E)):
        k = min(len(data[r][scope]["env_step"]) for r in data)
        st = [int(x) for x in st]
        ctx.check(st == steps[:len(st)] and len(st) <= k, "steps of the tests all runs have in common")
        if mx is None:
            ctx.check(len(st) == k, "all tests the runs have in common")
        else:
            ctx.check(all(s <= mx for s in st) and all(s >= mx for s in steps[len(st):k]), f"tests up to the maximum {st} {mx}")
        ctx.check(tuple(ret.shape) == (runs, len(st)), "one row per run")
        for row, r in zip(ret, order):
            ctx.eq(row, data[r][scope]["returns_stat"]["mean"][:len(st)], "mean returns of the run")
