"""P29-P31: what collectors put into the buffer, how long they run, and what they hand to the policy.

Environments are stand-ins with arbitrary symbolic observations, rewards and flags; each logs its own interactions, and the
log (not the collector) is the oracle. The first component of every observation names the environment it came from."""
from symx.ctx import harness


class World:
    """environments, policy and their logs"""

    def __init__(self, ctx, n, max_len=None, state=None, adim=None, noise=False, mask=False, info="sym", flags="sym", table=None, entry=True):
        import gymnasium as gym
        from tianshou.policy import BasePolicy
        from tianshou.data import Batch
        np = ctx.np
        self.ctx, self.n, self.state, self.adim, self.entry = ctx, n, state, adim, entry
        self.calls = []          # policy calls
        self.noise = []
        self.clock = 0           # environment rounds seen so far = policy calls (or sampled actions) so far
        self.samples = []        # actions sampled from the action space
        W = self

        class Space(gym.spaces.Discrete):
            def __init__(self, i):
                super().__init__(9)
                self.i = i

            def sample(self, mask=None):
                a = W.action(f"smp{self.i}")
                W.samples.append((self.i, a))
                return a if W.adim is None else np.array(a)

        class Env(gym.Env):
            def __init__(self, i):
                self.i, self.k, self.ep, self.log, self.fresh = i, 0, 0, [], False
                self.observation_space = gym.spaces.Box(-9.0, 9.0, (2,))
                self.action_space = Space(i)
                self.cur = None

            def _obs(self):
                self.k += 1
                self.cur = [float(self.i), ctx.real(f"obs{self.i}_{self.k}")]
                return np.array(self.cur)

            def _info(self):
                if info is None:
                    return {}
                return {"x": ctx.real(f"info{self.i}_{self.k}")}

            def reset(self, **kw):
                o = self._obs()
                inf = self._info()
                self.t = 0
                self.log.append(dict(kind="reset", obs=self.cur, info=dict(inf), kw=kw))
                return o, inf

            def step(self, act):
                if self.cur is None or (self.log and self.log[-1]["kind"] == "step" and self.log[-1]["over"]):
                    ctx.check(False, "an environment whose episode is over is not stepped before it is reset")
                prev, previnfo = self.cur, self.log[-1]["info"]
                o = self._obs()
                rew = ctx.real(f"rew{self.i}_{self.k}", -8, 8)
                self.t += 1
                last = max_len is not None and self.t >= max_len
                if last:
                    term = ctx.bool(f"term{self.i}_{self.k}") if flags == "sym" else True
                    trunc = ctx.Or(ctx.Not(term), ctx.bool(f"trunc{self.i}_{self.k}")) if flags == "sym" else False
                else:
                    term = ctx.bool(f"term{self.i}_{self.k}") if flags != "never" else False
                    trunc = ctx.bool(f"trunc{self.i}_{self.k}") if flags == "sym" else False
                over = ctx.maybe(ctx.Or(term, trunc))
                inf = self._info()
                self.log.append(dict(kind="step", pre=prev, preinfo=previnfo, act=act, obs=self.cur, rew=rew, term=term, trunc=trunc,
                                     over=over, info=dict(inf), clock=W.clock))
                return o, rew, term, trunc, inf

        class Pol(BasePolicy):
            def forward(self, batch, state=None, **kw):
                W.clock += 1
                rows = len(batch)
                r = dict(obs=batch.obs, info=batch.info, state=W.snap(state), training=self.training, rows=rows)
                r["act"] = [W.action(f"act{len(W.calls)}_{j}") for j in range(rows)]
                r["ent"] = [ctx.real(f"ent{len(W.calls)}_{j}") for j in range(rows)]
                r["ids"] = [int(ctx.conc(batch.obs[j][0])) for j in range(rows)]
                r["out"], st = W.new_state(len(W.calls), rows)
                W.calls.append(r)
                a = np.array(r["act"])
                out = Batch(act=a if table != "torch" else ctx.tensor(a), **(dict(policy=Batch(e=np.array(r["ent"]))) if entry else {}))
                if W.state is not None:
                    out.state = st
                return out

            def exploration_noise(self, act, batch):
                r = W.calls[-1]
                r["noise"] = [W.action(f"noise{len(W.calls)}_{j}") for j in range(r["rows"])]
                ctx.eq(act, np.array(r["act"]), "noise is added to the policy's action")
                ctx.eq(batch.obs, r["obs"], "noise gets the observations")
                return act + np.array(r["noise"])

            def map_action(self, act):
                return act * 2 + 1

            def map_action_inverse(self, act):
                return act * 3 - 2

            def learn(self, batch, *a, **k):
                raise NotImplementedError

        self.envs = [Env(i) for i in range(n)]
        self.policy = Pol(action_space=gym.spaces.Discrete(9))
        self.policy.train()

    def action(self, name):
        if self.adim is None:
            return self.ctx.int(name, -9, 9)
        return [self.ctx.real(f"{name}_{d}") for d in range(self.adim)]

    def venv(self, **kw):
        from tianshou.env import DummyVectorEnv
        return DummyVectorEnv([(lambda e=e: e) for e in self.envs], **kw)

    # hidden states: reals h (never zero, so that a zeroed state is recognisable)
    def new_state(self, c, rows):
        from tianshou.data import Batch
        ctx, np = self.ctx, self.ctx.np
        if self.state is None:
            return None, None
        h = [ctx.real(f"h{c}_{j}", 1, 5) for j in range(rows)]
        if self.state == "numpy":
            return h, np.array([[x] for x in h])
        if self.state == "torch":
            return h, ctx.tensor(np.array([[x] for x in h]))
        if self.state == "batch":
            return h, Batch(h=np.array([[x] for x in h]), c=Batch(z=ctx.tensor(np.array([x + 1 for x in h]))))
        if self.state == "object":
            o = np.empty(rows, dtype=object)
            for j in range(rows):
                o[j] = ("state", c, j)
            return [("state", c, j) for j in range(rows)], o
        raise ValueError(self.state)

    def snap(self, s):
        import copy
        return copy.deepcopy(s)

    def check_state(self, got, j, h, lab):
        """the state handed to the policy for row j is h (None: fresh)"""
        ctx = self.ctx
        if self.state == "object":
            ctx.check((got[j] is None) if h is None else (got[j] == h), lab)
            return
        h0 = 0 if h is None else h
        if self.state == "batch":
            ctx.eq(got.h[j][0], h0, lab)
            ctx.eq(got.c.z[j], 0 if h is None else h + 1, lab)
        else:
            ctx.eq(got[j][0], h0, lab)

    # ---- oracle
    def steps(self, i, since=0):
        return [e for e in self.envs[i].log[since:] if e["kind"] == "step"]

    def check_calls(self, random=False, mode=False, state0=None):
        """every environment step used the action computed for that environment from its current observation and state"""
        ctx = self.ctx
        used = {}
        for i, env in enumerate(self.envs):
            hid = (state0 or {}).get(i)
            for e in env.log:
                if e["kind"] == "reset":
                    hid = None
                    continue
                c = self.calls[e["clock"] - 1]
                ctx.check(c["ids"].count(i) == 1, f"env {i}: one row per stepped environment")
                j = c["ids"].index(i)
                used.setdefault(e["clock"], []).append(i)
                ctx.eq(c["obs"][j], e["pre"], f"env {i}: the policy sees the current observation")
                if e["preinfo"]:
                    ctx.eq(c["info"][j].x, e["preinfo"]["x"], f"env {i}: the policy sees the current info")
                raw = c["act"][j] if "noise" not in c else ctx.np.array(c["act"][j]) + ctx.np.array(c["noise"][j])
                ctx.eq(e["act"], ctx.np.array(raw) * 2 + 1, f"env {i}: receives its mapped action")
                e["raw"] = raw
                if self.entry:
                    e["entry"] = c["ent"][j]
                if self.state is not None:
                    if c["state"] is None:
                        ctx.check(hid is None, f"env {i}: the hidden state is not lost")
                    else:
                        self.check_state(c["state"], j, hid, f"env {i}: hidden state of its own last step, reset after an episode")
                    hid = c["out"][j]
                    e["hid"] = hid
                    if e["over"]:
                        hid = None
        for k, c in enumerate(self.calls):
            if not mode:
                ctx.check(sorted(used.get(k + 1, [])) == sorted(c["ids"]), "every computed action is executed")
            ctx.check(c["training"] is False, "the policy acts in evaluation mode")

    def check_calls_async(self):
        self.check_calls(mode=True)

    def check_buffer(self, buf, since=None, extra=None, lens=None):
        """the (sub-)buffers hold exactly the steps of their environments"""
        from tianshou.data import ReplayBufferManager
        ctx = self.ctx
        subs = buf.buffers if isinstance(buf, ReplayBufferManager) else [buf]
        for i, env in enumerate(self.envs):
            st = self.steps(i, 0 if since is None else since[i])
            sub = subs[i]
            ctx.check(len(sub) == len(st), f"env {i}: as many transitions as steps")
            for t, e in enumerate(st):
                row = sub[t]
                lab = f"env {i}: stored"
                ctx.eq(row.obs, e["pre"], f"{lab} observation")
                ctx.eq(row.obs_next, e["obs"], f"{lab} next observation")
                ctx.eq(row.act, ctx.np.array(e["raw"]), f"{lab} action is the policy's own")
                ctx.eq(row.rew, e["rew"], f"{lab} reward")
                ctx.eq(row.terminated, e["term"], f"{lab} terminated flag")
                ctx.eq(row.truncated, e["trunc"], f"{lab} truncated flag")
                ctx.eq(row.done, e["over"], f"{lab} done flag")
                if e["info"]:
                    ctx.eq(row.info.x, e["info"]["x"], f"{lab} info")
                if "entry" in e:
                    ctx.eq(row.policy.e, e["entry"], f"{lab} policy entry")
                if e.get("hid") is not None:
                    hs = row.policy.hidden_state
                    if self.state == "object":
                        ctx.check(hs == e["hid"], f"{lab} hidden state")
                    elif self.state == "batch":
                        ctx.eq(hs.h[0], e["hid"], f"{lab} hidden state")
                    else:
                        ctx.eq(hs[0], e["hid"], f"{lab} hidden state")

    def episodes(self, since=None, carry=None):
        """finished episodes (env, return, length) in order of completion; the part before `since` counts towards return and length"""
        done = []
        for i, env in enumerate(self.envs):
            ret, ln = 0, 0
            for k, e in enumerate(env.log):
                if e["kind"] == "reset":
                    ret, ln = 0, 0
                    continue
                ret, ln = ret + e["rew"], ln + 1
                if e["over"]:
                    if since is None or k >= since[i]:
                        done.append((e["clock"], i, ret, ln))
                    ret, ln = 0, 0
        return sorted(done, key=lambda d: d[:2])

    def check_stats(self, stats, since=None, first_clock=0):
        ctx = self.ctx
        eps = self.episodes(since)
        n = sum(len(self.steps(i, 0 if since is None else since[i])) for i in range(self.n))
        ctx.check(int(stats.n_collected_steps) == n, "number of steps in the statistics")
        ctx.check(int(stats.n_collected_episodes) == len(eps), "number of episodes in the statistics")
        ctx.check(len(stats.returns) == len(eps) and len(stats.lens) == len(eps), "one return and length per episode")
        if len(stats.returns) == len(eps):
            for k, (_, i, ret, ln) in enumerate(eps):
                ctx.eq(stats.returns[k], ret, "episode return")
                ctx.eq(stats.lens[k], ln, "episode length")
        ctx.check((stats.returns_stat is not None) == (len(eps) > 0), "summary of returns")
        if eps and stats.returns_stat is not None:
            ctx.eq(stats.returns_stat.mean, sum(e[2] for e in eps) / len(eps), "mean return")
            ctx.eq(stats.lens_stat.mean, sum(e[3] for e in eps) / len(eps), "mean length")
        return n, len(eps)

    def mark(self):
        return [len(e.log) for e in self.envs]


def buffer(ctx, W, cap, kind="vector"):
    from tianshou.data import ReplayBuffer, VectorReplayBuffer, CachedReplayBuffer
    if kind == "single":
        return ReplayBuffer(cap)
    return VectorReplayBuffer(cap * W.n, W.n)


# ------------------------------------------------------------------ P29: n_step
@harness("P29", params=[dict(n=1, first=2, second=1), dict(n=2, first=2, second=1)], thorough=[dict(n=2, first=2, second=3), dict(n=2, first=4, second=2), dict(n=3, first=3, second=3), dict(n=1, first=3, second=3)])
def steps(ctx, n, first, second):
    """two consecutive n_step collections without a reset in between"""
    from tianshou.data import Collector
    W = World(ctx, n, adim=ctx.pick("action dims", [None, 1]) if n == 1 else None, noise=True, flags="sym" if n == 1 else "one")
    noise = ctx.pick("noise", [True, False])
    buf = buffer(ctx, W, 6)
    col = Collector(W.policy, W.venv(), buf, exploration_noise=noise)
    ctx.raises(ValueError, lambda: col.collect(n_step=n), "collecting needs a reset first")
    col.reset()
    m = W.mark()
    k1 = -(-first // n)
    s1 = col.collect(n_step=first)
    for i in range(n):
        ctx.check(len(W.steps(i)) == k1, f"env {i}: the requested steps are spread evenly")
    ctx.check(W.policy.training is True, "training mode is restored")
    W.check_stats(s1, m)
    m2 = W.mark()
    s2 = col.collect(n_step=second)
    k2 = -(-second // n)
    for i in range(n):
        ctx.check(len(W.steps(i, m2[i])) == k2, f"env {i}: the second collection's steps")
    W.check_calls()
    ctx.check(all(("noise" in c) == noise for c in W.calls), "exploration noise iff requested")
    W.check_buffer(buf)
    W.check_stats(s2, m2)
    ctx.eq(col.collect_step, (k1 + k2) * n, "steps are accumulated")
    ctx.eq(col.collect_episode, len(W.episodes()), "episodes are accumulated")
    for i in range(n):
        res = [e for e in W.envs[i].log if e["kind"] == "reset"]
        ctx.check(len(res) == 1 + sum(1 for e in W.steps(i) if e["over"]), f"env {i}: reset exactly after its episodes")


@harness("P29", params=[dict(n=2)])
def random_actions(ctx, n):
    """random=True draws from each environment's own action space and stores the inverse-mapped action"""
    from tianshou.data import Collector
    W = World(ctx, n, flags="one", info=None)
    buf = buffer(ctx, W, 4)
    col = Collector(W.policy, W.venv(), buf, exploration_noise=True)
    s = col.collect(n_step=2 * n, random=True, reset_before_collect=True)
    ctx.check(not W.calls, "the policy is not asked")
    for i in range(n):
        mine = [a for j, a in W.samples if j == i]
        st = W.steps(i)
        ctx.check(len(mine) == len(st) == 2, f"env {i}: one sample per step")
        for a, e in zip(mine, st):
            ctx.eq(e["act"], a, f"env {i}: receives the sampled action")
            e["raw"] = a * 3 - 2
    W.check_buffer(buf)
    W.clock = 0
    ctx.check(int(s.n_collected_steps) == 2 * n, "number of steps")
    # afterwards the policy takes over from the current observations
    m = W.mark()
    col.collect(n_step=n)
    for i in range(n):
        st = W.steps(i, m[i])
        ctx.check(len(st) == 1, f"env {i}: one more step")
        j = W.calls[0]["ids"].index(i)
        ctx.eq(W.calls[0]["obs"][j], st[0]["pre"], f"env {i}: the policy continues from the current observation")
        st[0]["raw"] = W.calls[0]["act"][j]
        st[0]["raw"] = ctx.np.array(st[0]["raw"]) + ctx.np.array(W.calls[0]["noise"][j])
    W.check_buffer(buf)


@harness("P29", params=[dict()])
def single_env(ctx):
    """an unvectorised environment with a plain replay buffer (or the default buffer)"""
    import warnings
    from tianshou.data import Collector, VectorReplayBuffer
    W = World(ctx, 1, adim=2)
    warnings.simplefilter("ignore")
    own = ctx.pick("buffer", [True, False])
    col = Collector(W.policy, W.envs[0], buffer(ctx, W, 4, "single") if own else None)
    if not own:
        ctx.check(isinstance(col.buffer, VectorReplayBuffer) and col.buffer.buffer_num == 1 and col.buffer.maxsize == 10000, "default buffer")
    s = col.collect(n_step=2, reset_before_collect=True)
    W.check_calls()
    W.check_buffer(col.buffer)
    W.check_stats(s)


@harness("P29", params=[dict(n=2), dict(n=1)])
def step_hook(ctx, n):
    """the step hook sees actions and outcome of each step before storage; its changes are stored"""
    from tianshou.data import Collector
    np = ctx.np
    W = World(ctx, n, flags="one", info=None)
    buf = buffer(ctx, W, 4, "vector" if n > 1 else "single")
    seen = []

    def hook(actions, rollout):
        k = len(seen)
        seen.append((np.array(actions.act), np.array(actions.act_normalized), np.array(rollout.obs), np.array(rollout.rew)))
        rollout.rew = rollout.rew * 2 + k
        if n == 1:
            rollout.extra = np.array([ctx.real(f"extra{k}_{j}") for j in range(len(rollout))])
            seen[-1] += (np.array(rollout.extra),)
    how = ctx.pick("how", ["init", "setter"])
    col = Collector(W.policy, W.venv(), buf, on_step_hook=hook if how == "init" else None)
    if how == "setter":
        col.set_on_step_hook(hook)
        ctx.check(col.get_on_step_hook() is hook, "getter")
    col.collect(n_step=2 * n, reset_before_collect=True)
    W.check_calls()
    ctx.check(len(seen) == 2, "called once per vectorised step")
    for i in range(n):
        for k, e in enumerate(W.steps(i)):
            a, an, o, r, *ex = seen[k]
            ctx.eq(a[i], e["raw"], "hook: the policy's action")
            ctx.eq(an[i], e["act"], "hook: the environment's action")
            ctx.eq(o[i], e["pre"], "hook: observation")
            ctx.eq(r[i], e["rew"], "hook: reward")
            if ex:
                ctx.eq(buf[k].extra, ex[0][i], "entries added by the hook are stored")
            e["rew"] = e["rew"] * 2 + k
    W.check_buffer(buf)


@harness("P29", params=[dict()])
def step_hook_vector(ctx):
    """entries added by a step hook reach a vectorised buffer"""
    from tianshou.data import Collector
    np = ctx.np
    W = World(ctx, 2, flags="never", info=None)
    buf = buffer(ctx, W, 4)
    added = []

    def hook(actions, rollout):
        rollout.extra = np.array([ctx.real(f"extra{len(added)}_{j}") for j in range(len(rollout))])
        added.append(rollout.extra)
    col = Collector(W.policy, W.venv(), buf, on_step_hook=hook)
    col.collect(n_step=4, reset_before_collect=True)
    for i in range(2):
        for k in range(2):
            row = buf[k + 4 * i]
            ctx.check("extra" in row, "a step hook's additional entries are stored in a vectorised buffer")
            if "extra" in row:
                ctx.eq(row.extra, added[k][i], "entries added by the hook are stored")


@harness("P29", params=[dict(n=2)])
def resets(ctx, n):
    """what reset, reset_before_collect and the pieces of reset keep or clear"""
    from tianshou.data import Collector
    W = World(ctx, n, flags="one", info=None)
    buf = buffer(ctx, W, 4)
    col = Collector(W.policy, W.venv(), buf)
    col.reset(gym_reset_kwargs={"options": {"a": 1}})
    for e in W.envs:
        ctx.check(e.log[0]["kw"] == {"options": {"a": 1}}, "reset arguments reach the environments")
    col.collect(n_step=n)
    how = ctx.pick("how", ["before", "env", "all", "nobuf", "buf", "stat"])
    if how == "before":
        W.mid = W.mark()
        col.collect(n_step=n, reset_before_collect=True, gym_reset_kwargs={"options": {"b": 2}})
        for i, e in enumerate(W.envs):
            r = e.log[W.mid[i]]
            ctx.check(r["kind"] == "reset" and r["kw"] == {"options": {"b": 2}}, "collection starts with a reset")
            for x in e.log[W.mid[i]:]:
                ctx.check(x["kind"] == "step" or x["kw"] == {"options": {"b": 2}}, "later resets get the same arguments")
        W.check_calls()
        W.check_buffer(buf)
        ctx.eq(col.collect_step, n, "statistics restart")
        return
    m = W.mark()
    if how == "env":
        col.reset_env()
    elif how == "all":
        col.reset()
    elif how == "nobuf":
        col.reset(reset_buffer=False)
    elif how == "buf":
        col.reset_buffer()
    else:
        col.reset_stat()
    again = how in ("env", "all", "nobuf")
    for i, e in enumerate(W.envs):
        ctx.check(len(e.log) - m[i] == int(again), "environments are reset iff asked")
    ctx.check(len(buf) == (0 if how in ("all", "buf") else n), "the buffer is cleared iff asked")
    ctx.eq(col.collect_step, 0 if how in ("all", "nobuf", "stat") else n, "step counter")
    eps = len(W.episodes())
    ctx.eq(col.collect_episode, 0 if how in ("all", "nobuf", "stat") else eps, "episode counter")
    m = W.mark()
    col.collect(n_step=n)
    W.check_calls()
    W.check_buffer(buf, since=m if how in ("all", "buf") else None)


@harness("P29", params=[dict()])
def arguments(ctx):
    """a collection is either by steps or by episodes; buffers must fit the environments"""
    from tianshou.data import Collector, ReplayBuffer, VectorReplayBuffer, CachedReplayBuffer
    import warnings
    warnings.simplefilter("ignore")
    W = World(ctx, 2, max_len=1, flags="never", info=None)
    v = W.venv()
    ctx.raises(ValueError, lambda: Collector(W.policy, v, ReplayBuffer(4)), "one plain buffer for two environments")
    ctx.raises(ValueError, lambda: Collector(W.policy, v, VectorReplayBuffer(4, 1)), "too few sub-buffers")
    ctx.raises(ValueError, lambda: Collector(W.policy, v, CachedReplayBuffer(ReplayBuffer(4), 1, 2)), "too few caches")
    col = Collector(W.policy, v, buffer(ctx, W, 4))
    col.reset()
    for kw in (dict(), dict(n_step=0), dict(n_episode=0), dict(n_step=0, n_episode=0), dict(n_step=2, n_episode=2)):
        m = W.mark()
        ctx.raises(ValueError, lambda: col.collect(**kw), f"exactly one of n_step and n_episode: {sorted(kw)}")
        ctx.check(W.mark() == m, "a refused collection does nothing")
    col.collect(n_step=2)
    ctx.check(len(col.buffer) == 2, "accepted")


@harness("P29", params=[dict()])
def nan_check(ctx):
    """missing values in the buffer are reported, unless that is switched off"""
    from tianshou.data import Collector
    from tianshou.data.buffer.base import MalformedBufferError
    W = World(ctx, 1, flags="one", info=None)
    check = ctx.pick("check", [True, False])
    bad = ctx.pick("bad", [True, False])
    buf = buffer(ctx, W, 4, "single")

    def hook(actions, rollout):
        rollout.extra = ctx.np.array([float("nan") if bad else 1.0])
    col = Collector(W.policy, W.venv(), buf, on_step_hook=hook, raise_on_nan_in_buffer=check)
    col.reset()
    if bad and check:
        ctx.raises(MalformedBufferError, lambda: col.collect(n_step=1), "missing values are reported")
        ctx.check(W.policy.training is True, "training mode is restored")
    else:
        s = col.collect(n_step=1)
        ctx.check(int(s.n_collected_steps) == 1, "collected")


# ------------------------------------------------------------------ P30: n_episode
@harness("P30", params=[dict(n=1, k=2, L=2), dict(n=2, k=1, L=2), dict(n=2, k=2, L=2), dict(n=2, k=3, L=1)], thorough=[dict(n=2, k=3, L=2), dict(n=3, k=4, L=2), dict(n=2, k=2, L=3)])
def episodes(ctx, n, k, L):
    """exactly k episodes; every participating environment contributes; the environments are reset afterwards"""
    from tianshou.data import Collector
    W = World(ctx, n, max_len=L, flags="one" if n > 1 else "sym", info="sym" if n == 1 else None)
    buf = buffer(ctx, W, 8)
    col = Collector(W.policy, W.venv(), buf)
    col.reset()
    m = W.mark()
    s = col.collect(n_episode=k)
    W.check_calls()
    W.check_buffer(buf)
    ns, ne = W.check_stats(s, m)
    ctx.check(ne == k, "exactly the requested number of episodes")
    ctx.eq(col.collect_step, ns, "steps are accumulated")
    ctx.eq(col.collect_episode, k, "episodes are accumulated")
    for i, env in enumerate(W.envs):
        st = W.steps(i)
        if i < min(n, k):
            ctx.check(any(e["over"] for e in st), f"env {i}: contributes an episode")
            ctx.check(st[-1]["over"], f"env {i}: no unfinished episode is left in the buffer")
        else:
            ctx.check(not st, f"env {i}: is not needed")
        ctx.check(env.log[-1]["kind"] == "reset", f"env {i}: is reset afterwards")
    # the next collection starts from that reset
    m = W.mark()
    s2 = col.collect(n_episode=1)
    W.check_calls()
    W.check_buffer(buf)
    ctx.check(W.check_stats(s2, m)[1] == 1, "one more episode")
    ctx.eq(col.collect_episode, k + 1, "episodes are accumulated")


@harness("P30", params=[dict(n=2, k=2, L=2)], thorough=[dict(n=2, k=3, L=2), dict(n=3, k=3, L=2)])
def episode_hook(ctx, n, k, L):
    """the episode hook sees exactly the finished episode; what it returns is stored with those transitions"""
    from tianshou.data import Collector
    np = ctx.np
    W = World(ctx, n, max_len=L, flags="one", info=None)
    buf = buffer(ctx, W, 8)
    got = []

    def hook(ep):
        got.append((np.array(ep.obs), np.array(ep.rew), np.array(ep.act), np.array(ep.done), np.array(ep.obs_next)))
        v = np.array([ctx.real(f"add{len(got)}_{t}") for t in range(len(ep))])
        got[-1] += (v,)
        return {"added": v}
    col = Collector(W.policy, W.venv(), buf, on_episode_done_hook=hook)
    col.reset()
    s = col.collect(n_episode=k)
    W.check_calls()
    W.check_buffer(buf)
    eps = []
    for i in range(n):
        cur = []
        for e in W.steps(i):
            cur.append(e)
            if e["over"]:
                eps.append((e["clock"], i, cur))
                cur = []
    eps.sort(key=lambda x: x[:2])
    ctx.check(len(eps) == len(got) == k, "once per episode")
    pos = {i: 0 for i in range(n)}
    for (_, i, ep), (o, r, a, d, on, v) in zip(eps, got):
        ctx.check(len(r) == len(ep), "hook: the whole episode")
        if len(r) != len(ep):
            continue
        for t, e in enumerate(ep):
            ctx.eq(o[t], e["pre"], "hook: observations")
            ctx.eq(on[t], e["obs"], "hook: next observations")
            ctx.eq(r[t], e["rew"], "hook: rewards")
            ctx.eq(a[t], e["raw"], "hook: actions")
            ctx.eq(d[t], t == len(ep) - 1, "hook: only the last transition ends the episode")
            ctx.eq(buf[pos[i] + 8 * i].added, v[t], "the addition is stored with its transition")
            pos[i] += 1


@harness("P30", params=[dict()])
def hook_ring(ctx):
    """episodes that wrap around the ring are handed to the hook in order"""
    from tianshou.data import Collector
    np = ctx.np
    W = World(ctx, 2, max_len=2, flags="one", info=None)
    buf = buffer(ctx, W, 3)
    got = []

    def hook(ep):
        v = np.array([ctx.real(f"add{len(got)}_{t}") for t in range(len(ep))])
        got.append((np.array(ep.obs), v))
        return {"added": v}
    col = Collector(W.policy, W.venv(), buf, on_episode_done_hook=hook)
    col.reset()
    col.collect(n_episode=2)
    a = len(got)
    col.collect(n_episode=2)
    eps = []
    for i in range(2):
        cur = []
        for e in W.steps(i):
            cur.append(e)
            if e["over"]:
                eps.append((e["clock"], i, cur))
                cur = []
    eps.sort(key=lambda x: x[:2])
    ctx.check(len(got) == len(eps), "once per episode")
    for (_, i, ep), (o, v) in zip(eps, got):
        ctx.check(len(o) == len(ep), "the whole episode")
        for t in range(min(len(o), len(ep))):
            ctx.eq(o[t], ep[t]["pre"], "in order")
            ep[t]["add"] = v[t]
    for i in range(2):
        st = W.steps(i)
        for t, e in enumerate(st):
            if t >= len(st) - 3:
                row = buf[t % 3 + 3 * i]
                ctx.eq(row.obs, e["pre"], "ring content")
                ctx.eq(row.added, e["add"], "additions follow the ring")


@harness("P30", params=[dict()])
def hook_then_entry(ctx):
    """additions of episode hooks survive when policy entries appear later (random warm-up first)"""
    from tianshou.data import Collector
    np = ctx.np
    W = World(ctx, 2, max_len=1, flags="never", info=None)
    buf = buffer(ctx, W, 4)
    got = []

    def hook(ep):
        got.append(np.array([ctx.real(f"add{len(got)}_{t}") for t in range(len(ep))]))
        return {"added": got[-1]}
    col = Collector(W.policy, W.venv(), buf, on_episode_done_hook=hook)
    col.reset()
    col.collect(n_episode=2, random=True)
    col.collect(n_episode=2)
    for i in range(2):
        for t in range(2):
            row = buf[t + 4 * i]
            ctx.eq(row.added, got[2 * t + i][0], "addition")
            ctx.eq(row.rew, W.steps(i)[t]["rew"], "reward")
        ctx.eq(buf[1 + 4 * i].policy.e, W.calls[0]["ent"][W.calls[0]["ids"].index(i)], "policy entry")


@harness("P30", params=[dict()])
def hook_steps(ctx):
    """episode additions are refused when collecting steps; hooks without additions are fine"""
    from tianshou.data import Collector
    W = World(ctx, 1, flags="one", info=None)
    buf = buffer(ctx, W, 4)
    adds = ctx.pick("adds", [True, False])
    seen = []

    def hook(ep):
        seen.append(len(ep))
        return {"x": ctx.np.zeros(len(ep))} if adds else None
    col = Collector(W.policy, W.venv(), buf)
    col.set_on_episode_done_hook(hook)
    ctx.check(col.get_on_episode_done_hook() is hook, "getter")
    col.reset()
    kind, val = ctx.outcome(lambda: col.collect(n_step=2))
    ends = [e for e in W.steps(0) if e["over"]]
    if ends and adds:
        ctx.check(kind == "err" and val == "ValueError", "refused")
    else:
        ctx.check(kind == "ok", "accepted")
        ctx.check(len(seen) == len(ends), "one call per episode")


@harness("P30", params=[dict(L=3)])
def mc_return_hook(ctx, L):
    """the Monte-Carlo return hook and merged hooks"""
    from tianshou.data import Collector
    from tianshou.data.collector import EpisodeRolloutHookMCReturn, EpisodeRolloutHookMerged
    np = ctx.np
    W = World(ctx, 1, max_len=L, flags="one", info=None)
    buf = buffer(ctx, W, 8)
    gamma = ctx.pick("gamma", [0.5, 1.0, 0.0])
    mc = EpisodeRolloutHookMCReturn(gamma)

    def other(ep):
        return {"other": ep.rew * 2}

    def none(ep):
        return None
    form = ctx.pick("hook", ["mc", "merged", "none"])
    if form == "none":
        ctx.check(EpisodeRolloutHookMerged(none, none)(None) is None, "no additions")
        for check in (True, False):
            dup = EpisodeRolloutHookMerged(other, none, other, check_overlapping_keys=check)
            from tianshou.data import Batch
            ep = Batch(rew=np.array([1.0]))
            if check:
                ctx.raises(KeyError, lambda: dup(ep), "entries computed twice are refused")
            else:
                ctx.eq(dup(ep)["other"], [2.0], "the last one wins")
        return
    col = Collector(W.policy, W.venv(), buf, on_episode_done_hook=mc if form == "mc" else EpisodeRolloutHookMerged(mc, none, other))
    col.reset()
    col.collect(n_episode=2)
    st = W.steps(0)
    ep = 0
    for t, e in enumerate(st):
        end = next(u for u in range(t, len(st)) if st[u]["over"])
        first = max([u + 1 for u in range(t) if st[u]["over"]], default=0)
        ret = lambda a: sum(st[u]["rew"] * gamma ** (u - a) for u in range(a, end + 1))
        row = buf[t]
        ctx.eq(row.mc_return_to_go, ret(t), "discounted rewards to go")
        ctx.eq(row.full_episode_mc_return, ret(first), "return of the whole episode")
        if form == "merged":
            ctx.eq(row.other, e["rew"] * 2, "other hook's entry")


# ------------------------------------------------------------------ P31: hidden state, asynchronous collection
@harness("P31", params=[dict(n=2, k=2, state=s) for s in ("numpy", "torch", "batch", "object")],
         thorough=[dict(n=2, k=3, state=s) for s in ("numpy", "torch", "batch", "object")] + [dict(n=3, k=2, state="torch")])
def hidden_steps(ctx, n, k, state):
    """each environment's policy state is carried along, stored, and reset at the end of an episode"""
    from tianshou.data import Collector
    W = World(ctx, n, state=state, flags="one", info=None, table="torch" if state == "torch" else None)
    buf = buffer(ctx, W, 4)
    col = Collector(W.policy, W.venv(), buf, raise_on_nan_in_buffer=False)
    col.reset()
    split = ctx.pick("split", [True, False]) if state != "object" else True
    if split:
        col.collect(n_step=n)
        col.collect(n_step=(k - 1) * n)
    else:
        col.collect(n_step=k * n)
    W.check_calls()
    W.check_buffer(buf)
    if split:
        col.reset_env()
        c = len(W.calls)
        col.collect(n_step=n)
        ctx.check(W.calls[c]["state"] is None, "a reset of the environments forgets the hidden state")


@harness("P31", params=[dict(n=2, k=2, L=2, state=s) for s in ("torch", "batch")], thorough=[dict(n=2, k=3, L=2, state=s) for s in ("numpy", "torch", "batch", "object")] + [dict(n=3, k=3, L=2, state="batch")])
def hidden_episodes(ctx, n, k, L, state):
    """hidden states stay with their environments when surplus environments are retired"""
    from tianshou.data import Collector
    W = World(ctx, n, max_len=L, state=state, flags="one", info=None)
    buf = buffer(ctx, W, 5)
    col = Collector(W.policy, W.venv(), buf, raise_on_nan_in_buffer=False)
    col.reset()
    col.collect(n_episode=k)
    W.check_calls()
    W.check_buffer(buf)
    c = len(W.calls)
    col.collect(n_episode=1)
    ctx.check(W.calls[c]["state"] is None, "the next collection starts without hidden state")


class Sched:
    """asynchronous vector environment under an arbitrary schedule"""

    @staticmethod
    def venv(ctx, W, wait_num=1, order=False, patience=2):
        from tianshou.env.venvs import BaseVectorEnv
        from tianshou.env.worker import DummyEnvWorker

        class Worker(DummyEnvWorker):
            rounds = 0

            @staticmethod
            def wait(workers, wait_num, timeout=None):
                Worker.rounds += 1
                ready = [w for j, w in enumerate(workers) if ctx.maybe(ctx.bool(f"ready{Worker.rounds}_{j}"))]
                if len(ready) < min(wait_num, len(workers)):
                    for w in workers:                # at least the requested number
                        if w not in ready and len(ready) < min(wait_num, len(workers)):
                            ready.append(w)
                if order and len(ready) > 1 and ctx.maybe(ctx.bool(f"swap{Worker.rounds}")):
                    ready = ready[::-1]
                return ready
        Worker.rounds = 0
        return BaseVectorEnv([(lambda e=e: e) for e in W.envs], Worker, wait_num=wait_num)


def drop_inflight(W, venv):
    """steps that were started but not yet fetched are not part of the collected data"""
    for i in venv.waiting_id:
        assert W.envs[i].log[-1]["kind"] == "step"
        W.envs[i].flight = W.envs[i].log.pop()


def async_checks(ctx, W, v, buf, col, stats):
    drop_inflight(W, v)
    W.check_calls_async()
    W.check_buffer(buf)
    ctx.eq(col.collect_step, sum(len(b) for b in buf.buffers), "steps are accumulated")
    eps = W.episodes()
    ctx.eq(col.collect_episode, len(eps), "episodes are accumulated")
    ctx.check(sum(int(s.n_collected_steps) for s in stats) == sum(len(b) for b in buf.buffers), "all stored steps are counted")
    ctx.check(sum(int(s.n_collected_episodes) for s in stats) == len(eps), "episodes are counted")
    ctx.check(sum(len(s.returns) for s in stats) == len(eps), "one return per episode")
    ctx.eq(sum(sum(s.lens) for s in stats), sum(e[3] for e in eps), "lengths of the finished episodes")
    ctx.eq(sum(sum(s.returns) for s in stats), sum(e[2] for e in eps), "returns of the finished episodes")


@harness("P31", params=[dict(n=2, k=2, state=None), dict(n=2, k=2, state="numpy"), dict(n=2, k=2, state="torch"), dict(n=2, k=2, state="batch")],
         thorough=[dict(n=2, k=4, state=None)] + [dict(n=2, k=3, state=s) for s in ("numpy", "torch", "batch", "object")] + [dict(n=3, k=3, state=None)])
def async_steps(ctx, n, k, state):
    """asynchronous collection under every schedule: each environment's data is complete, in order and its own"""
    import warnings
    from tianshou.data import AsyncCollector
    warnings.simplefilter("ignore")
    W = World(ctx, n, state=state, flags="one", info=None)
    v = Sched.venv(ctx, W, 1, order=state is None and n == 2)
    buf = buffer(ctx, W, 5)
    col = AsyncCollector(W.policy, v, buf, raise_on_nan_in_buffer=False)
    col.reset()
    s = col.collect(n_step=k)
    ctx.check(sum(len(b) for b in buf.buffers) >= k, "at least the requested steps")
    async_checks(ctx, W, v, buf, col, [s])


@harness("P31", params=[dict()])
def async_again(ctx):
    """consecutive asynchronous collections continue where the environments are; a reset starts afresh"""
    import warnings
    from tianshou.data import AsyncCollector
    warnings.simplefilter("ignore")
    entry = ctx.pick("entry", [True, False])
    W = World(ctx, 2, flags="never", adim=None if entry else 1, entry=entry)
    v = Sched.venv(ctx, W, 1)
    buf = buffer(ctx, W, 5)
    col = AsyncCollector(W.policy, v, buf, raise_on_nan_in_buffer=False)
    col.reset()
    stats = [col.collect(n_step=1)]
    if ctx.pick("reset", [False, True]):
        for i in v.waiting_id:
            W.envs[i].flight = True
        col.reset()
        for e in W.envs:
            ctx.check(e.log[-1]["kind"] == "reset", "all environments are reset, also those that were stepping")
        ctx.check(len(buf) == 0, "the buffer is cleared")
        m = W.mark()
        s = col.collect(n_step=1)
        drop_inflight(W, v)
        W.check_calls_async()
        W.check_buffer(buf, since=m)
    else:
        stats += [col.collect(n_step=1), col.collect(n_step=1)]
        async_checks(ctx, W, v, buf, col, stats)


@harness("P31", params=[dict(n=2, k=1, flags="never")], thorough=[dict(n=2, k=2, flags="never"), dict(n=2, k=2, flags="one"), dict(n=2, k=3, flags="one"), dict(n=3, k=2, flags="never")])
def async_episodes(ctx, n, k, flags):
    """asynchronous collection of episodes"""
    import warnings
    from tianshou.data import AsyncCollector
    warnings.simplefilter("ignore")
    W = World(ctx, n, max_len=2, flags=flags, info=None)
    v = Sched.venv(ctx, W, 1)
    buf = buffer(ctx, W, 5)
    col = AsyncCollector(W.policy, v, buf, exploration_noise=True, raise_on_nan_in_buffer=False)
    col.reset()
    s = col.collect(n_episode=k)
    ctx.check(int(s.n_collected_episodes) >= k, "at least the requested episodes")
    async_checks(ctx, W, v, buf, col, [s])


@harness("P31", params=[dict(state="numpy")], thorough=[dict(state="torch"), dict(state="batch"), dict(state="object")])
def async_random(ctx, state):
    """random warm-up before an asynchronous policy takes over"""
    import warnings
    from tianshou.data import AsyncCollector
    warnings.simplefilter("ignore")
    W = World(ctx, 2, state=state, flags="never", info=None)
    v = Sched.venv(ctx, W, 1)
    buf = buffer(ctx, W, 5)
    col = AsyncCollector(W.policy, v, buf, raise_on_nan_in_buffer=False)
    col.reset()
    col.collect(n_step=1, random=True)
    flight = set(v.waiting_id)
    warm = {i: len(W.steps(i)) for i in range(2)}
    nsm = {i: [a for j, a in W.samples if j == i] for i in range(2)}
    col.collect(n_step=2)
    drop_inflight(W, v)
    for i in range(2):
        st = W.steps(i)
        sub = buf.buffers[i]
        ctx.check(len(sub) == len(st), f"env {i}: as many transitions as fetched steps")
        calls = [(c, c["ids"].index(i)) for c in W.calls if i in c["ids"]]
        hid = None
        for t, e in enumerate(st):
            row = sub[t]
            ctx.eq(row.obs, e["pre"], "stored observation")
            ctx.eq(row.obs_next, e["obs"], "stored next observation")
            ctx.eq(row.rew, e["rew"], "stored reward")
            if t < warm[i]:
                ctx.eq(row.act, nsm[i][t] * 3 - 2, "stored action")
                continue
            c, j = calls[t - warm[i]]
            ctx.eq(row.act, c["act"][j], "stored action")
            ctx.eq(row.policy.e, c["ent"][j], "stored policy entry")
            if c["state"] is not None:
                W.check_state(c["state"], j, hid, "hidden state")
            hid = c["out"][j]
