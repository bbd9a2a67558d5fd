# planted bugs for P23-P42 (see seed.py)
NETS = H + '''
import warnings; warnings.filterwarnings("ignore")
from torch import nn
from gymnasium import spaces
class A(nn.Module):
    max_action = 1.0
    def __init__(self):
        super().__init__()
        self.l = nn.Linear(2, 1)
    def forward(self, obs, state=None, info={}):
        return torch.tanh(self.l(torch.as_tensor(obs, dtype=torch.float32))), state
class C(nn.Module):
    def __init__(self):
        super().__init__()
        self.l = nn.Linear(3, 1)
    def forward(self, obs, act=None, info={}):
        return self.l(torch.cat([torch.as_tensor(obs, dtype=torch.float32), torch.as_tensor(act, dtype=torch.float32)], -1))
box = spaces.Box(-1.0, 1.0, (1,))
def flat(*ns):
    return torch.cat([p.detach().flatten().clone() for n in ns for p in n.parameters()])
'''
ENV = H + '''
import warnings; warnings.filterwarnings("ignore")
from tianshou.env import *
from tianshou.policy import BasePolicy
class E(gym.Env):
    observation_space = gym.spaces.Box(-100, 100, (1,))
    action_space = gym.spaces.Discrete(5)
    def __init__(self, k, n):
        self.k, self.n, self.t, self.ep = k, n, 0, 0
    def o(self):
        return np.array([self.k * 100 + self.ep * 10 + self.t], dtype=float)
    def reset(self, **kw):
        self.ep += 1
        self.t = 0
        return self.o(), {"t": 0}
    def step(self, a):
        self.t += 1
        return self.o(), float(self.k + 1), self.t >= self.n, False, {"t": self.t}
class Pol(BasePolicy):
    def __init__(self, **k):
        super().__init__(action_space=gym.spaces.Discrete(5), **k)
    def forward(self, batch, state=None, **k):
        return Batch(act=np.zeros(len(batch.obs), dtype=int), state=None)
    def learn(self, batch, *a, **k):
        return None
'''

bug("t01_td3_sync", "P23", [("policy/modelfree/td3.py",
    "            self.actor_optim.step()\n            self.sync_weight()\n",
    "            self.actor_optim.step()\n        self.sync_weight()\n")],
    "TD3 with update_actor_freq > 1, in an update that skips the actor",
    "the target networks move in every update instead of with the delayed actor updates",
    NETS + '''
from tianshou.policy import TD3Policy
a, c = A(), C()
p = TD3Policy(actor=a, actor_optim=torch.optim.SGD(a.parameters(), 0.1), critic=c, critic_optim=torch.optim.SGD(c.parameters(), 0.1), action_space=box, update_actor_freq=2, tau=0.5)
def b():
    return Batch(obs=np.random.randn(4, 2), act=np.random.uniform(-1, 1, (4, 1)), returns=torch.randn(4), info=Batch())
p.learn(b())
t = flat(p.actor_old, p.critic_old, p.critic2_old)
p.learn(b())
assert torch.equal(t, flat(p.actor_old, p.critic_old, p.critic2_old)), "targets moved without an actor update"
p.learn(b())
assert not torch.equal(t, flat(p.actor_old, p.critic_old, p.critic2_old))
''')

bug("t02_ppo_value_clip", "P24", [("policy/modelfree/ppo.py",
    "                    vf_loss = torch.max(vf1, vf2).mean()\n",
    "                    vf_loss = torch.max(vf1.mean(), vf2.mean())\n")],
    "PPO with value_clip and a minibatch in which clipping raises the error of one row and lowers that of another",
    "the clipped value loss (the maximum is taken per batch instead of per row)",
    NETS + '''
from tianshou.policy import PPOPolicy
class V(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.tensor([1.0]))
    def forward(self, obs, **k):
        return torch.as_tensor(obs, dtype=torch.float32)[:, :1] * self.w
class Ac(nn.Module):
    def __init__(self):
        super().__init__()
        self.l = nn.Linear(2, 2)
    def forward(self, obs, state=None, info={}):
        return self.l(torch.as_tensor(obs, dtype=torch.float32)), state
a, v = Ac(), V()
p = PPOPolicy(actor=a, critic=v, optim=torch.optim.SGD([*a.parameters(), *v.parameters()], 0.0), dist_fn=lambda l: torch.distributions.Categorical(logits=l),
              action_space=spaces.Discrete(2), action_scaling=False, value_clip=True, eps_clip=0.2, advantage_normalization=False)
obs = np.array([[1.0, 0.0], [-1.0, 0.0]])
val, vs, ret = torch.tensor([1.0, -1.0]), torch.tensor([0.0, 0.0]), torch.tensor([1.0, 0.5])
with torch.no_grad():
    lp = torch.distributions.Categorical(logits=a(obs)[0]).log_prob(torch.tensor([0, 1]))
b = Batch(obs=obs, act=torch.tensor([0, 1]), adv=torch.tensor([0.3, -0.2]), returns=ret, v_s=vs, logp_old=lp, info=Batch())
s = p.learn(b, batch_size=None, repeat=1)
clip = vs + (val - vs).clamp(-0.2, 0.2)
want = torch.max((ret - val) ** 2, (ret - clip) ** 2).mean().item()
assert abs(s.vf_loss.mean - want) < 1e-5, (s.vf_loss.mean, want)
''')

bug("t03_dqn_sync_order", "P25", [("policy/modelfree/dqn.py",
    "        if self._target and self._iter % self.freq == 0:\n            self.sync_weight()\n        self.optim.zero_grad()\n        weight = batch.pop(\"weight\", 1.0)\n        q = self(batch).logits\n        q = q[np.arange(len(q)), batch.act]\n        returns",
    "        self.optim.zero_grad()\n        weight = batch.pop(\"weight\", 1.0)\n        q = self(batch).logits\n        q = q[np.arange(len(q)), batch.act]\n        returns"),
    ("policy/modelfree/dqn.py",
    "        self.optim.step()\n        self._iter += 1\n\n        return DQNTrainingStats",
    "        self.optim.step()\n        if self._target and self._iter % self.freq == 0:\n            self.sync_weight()\n        self._iter += 1\n\n        return DQNTrainingStats")],
    "DQN with a target network; compare the target network with the weights around the synchronising update",
    "the target network gets the weights from after the update in which it is synchronised",
    NETS + '''
from tianshou.policy import DQNPolicy
class Q(nn.Module):
    def __init__(self):
        super().__init__()
        self.l = nn.Linear(2, 2)
    def forward(self, obs, state=None, info={}):
        return self.l(torch.as_tensor(obs, dtype=torch.float32)), state
n = Q()
p = DQNPolicy(model=n, optim=torch.optim.SGD(n.parameters(), 0.1), action_space=spaces.Discrete(2), target_update_freq=2)
for i in range(4):
    before = flat(n)
    p.learn(Batch(obs=np.random.randn(3, 2), act=np.array([0, 1, 0]), returns=torch.randn(3), info=Batch()))
    if i % 2 == 0:
        last = before
    assert torch.equal(flat(p.model_old), last), i
''')

bug("t04_ma_noise_break", "P26", [("policy/multiagent/mapolicy.py",
    "            if len(agent_index) == 0:\n                continue\n            act[agent_index] = policy",
    "            if len(agent_index) == 0:\n                break\n            act[agent_index] = policy")],
    "exploration noise for a batch in which an agent has no rows and a later one does",
    "the agents after the one without rows act without exploration noise",
    H + '''
import types
from tianshou.policy import BasePolicy, MultiAgentPolicyManager
class P(BasePolicy):
    def __init__(self, k):
        super().__init__(action_space=gym.spaces.Box(-9, 9, (1,)))
        self.k = k
    def forward(self, batch, state=None, **kw):
        return Batch(act=np.zeros((len(batch), 1)))
    def learn(self, *a, **k):
        return None
    def exploration_noise(self, act, batch):
        return act + self.k
env = types.SimpleNamespace(agents=["a", "b", "c"], agent_idx={"a": 0, "b": 1, "c": 2}, action_space=gym.spaces.Box(-9, 9, (1,)), observation_space=None)
m = MultiAgentPolicyManager(policies=[P(1), P(2), P(3)], env=env)
for who in (["a", "b", "c"], ["c", "a", "c"], ["b"], ["c", "b"]):
    act = m.exploration_noise(np.zeros((len(who), 1)), Batch(obs=Batch(agent_id=np.array(who), obs=np.zeros((len(who), 2)))))
    assert act.flatten().tolist() == [" abc".index(w) for w in who], (who, act)
''')

bug("t05_psrl_std_late", "P27", [("policy/modelbased/psrl.py",
    "        self.rew_square_sum += rew_square_sum\n        raw_std2 = self.rew_square_sum / sum_count - self.rew_mean**2\n",
    "        raw_std2 = np.maximum(self.rew_square_sum / sum_count - self.rew_mean**2, 0.0)\n        self.rew_square_sum += rew_square_sum\n")],
    "posterior deviation of the rewards after observing rewards that differ from the earlier ones",
    "the newest rewards enter the posterior deviation one update late",
    H + '''
from tianshou.policy.modelbased.psrl import PSRLModel
def model():
    return PSRLModel(trans_count_prior=np.ones((1, 1, 1)), rew_mean_prior=np.zeros((1, 1)), rew_std_prior=np.ones((1, 1)), discount_factor=0.9, epsilon=0.01)
def obs(m, rs):
    r = np.array(rs)
    m.observe(np.full((1, 1, 1), float(len(r))), r.sum().reshape(1, 1), (r ** 2).sum().reshape(1, 1), np.full((1, 1), float(len(r))))
a, b = model(), model()
obs(a, [1.0, 5.0, -2.0, 4.0])
obs(b, [1.0, 5.0]); obs(b, [-2.0, 4.0])
assert np.allclose(a.rew_mean, b.rew_mean) and np.allclose(a.rew_std, b.rew_std), (a.rew_std, b.rew_std)
''')

bug("t06_td3bc_detach", "P28", [("policy/imitation/td3_bc.py",
    "self.alpha / q_value.abs().mean().detach()", "self.alpha / q_value.detach().mean().abs()")],
    "TD3+BC on a batch whose action values have different signs",
    "the weight of the behaviour-cloning trade-off (mean of absolute values)",
    NETS + '''
from tianshou.policy import TD3BCPolicy
a, c = A(), C()
with torch.no_grad():
    c.l.weight.copy_(torch.tensor([[1.0, 0.0, 0.5]])); c.l.bias.zero_()
p = TD3BCPolicy(actor=a, actor_optim=torch.optim.SGD(a.parameters(), 0.0), critic=c, critic_optim=torch.optim.SGD(c.parameters(), 0.0), action_space=box, alpha=2.0)
obs, act = np.array([[3.0, 0.5], [-2.0, 0.3], [1.0, -1.0]]), np.array([[0.1], [0.2], [-0.4]])
s = p.learn(Batch(obs=obs, act=act, returns=torch.zeros(3), info=Batch()))
with torch.no_grad():
    pi = a(obs)[0]
    q = c(obs, pi)
    want = (-2.0 / q.abs().mean() * q.mean() + ((pi - torch.as_tensor(act)) ** 2).mean()).item()
assert abs(s.actor_loss - want) < 1e-4, (s.actor_loss, want)
''')

bug("t07_info_after_reset", "P29", [("data/collector.py",
    "                last_obs_RO[env_done_local_idx_D] = obs_reset_DO\n                last_info_R[env_done_local_idx_D] = info_reset_D\n\n                # Step 13",
    "                last_obs_RO[env_done_local_idx_D] = obs_reset_DO\n\n                # Step 13")],
    "a policy that reads batch.info (e.g. a legal-action hint) in the first step after an episode ended within a collect",
    "the first action of an episode is computed from the final info of the previous one",
    ENV + '''
seen = []
class P2(Pol):
    def forward(self, batch, state=None, **k):
        seen.append([(int(o[0]) % 10, int(t)) for o, t in zip(batch.obs, batch.info.t)])
        return super().forward(batch, state)
c = Collector(P2(), DummyVectorEnv([lambda: E(0, 2), lambda: E(1, 3)]), VectorReplayBuffer(40, 2))
c.reset()
c.collect(n_step=16)
assert all(a == b for r in seen for a, b in r), seen
''')

bug("t08_surplus_order", "P30", [("data/collector.py",
    "                    surplus_env_num = len(ready_env_ids_R) - remaining_episodes_to_collect\n",
    "                    surplus_env_num = min(\n                        len(ready_env_ids_R) - remaining_episodes_to_collect,\n                        self.env_num - int(num_collected_episodes),\n                    )\n")],
    "collecting more episodes than environments, the last ones still running when the last surplus environment should be retired",
    "surplus environments keep running, their short episodes are preferred and transitions of unfinished episodes are stored",
    ENV + '''
for n in (2, 3, 4, 5):
    envs = DummyVectorEnv([lambda: E(0, 1), lambda: E(1, 6)])
    buf = VectorReplayBuffer(100, 2)
    c = Collector(Pol(), envs, buf)
    c.reset()
    s = c.collect(n_episode=n)
    assert s.n_collected_episodes == n
    assert sorted(s.lens.tolist()) == sorted([6] + [1] * (n - 1)), (n, s.lens)
    assert s.n_collected_steps == int(s.lens.sum()), (n, s.n_collected_steps, s.lens)
''')

bug("t09_async_info", "P31", [("data/collector.py",
    "            for idx, ready_env_id in enumerate(ready_env_ids_R):\n                self._current_info_in_all_envs_E[ready_env_id] = last_info_R[idx]\n",
    "            for ready_env_id, info in zip(sorted(ready_env_ids_R), last_info_R, strict=True):\n                self._current_info_in_all_envs_E[ready_env_id] = info\n")],
    "AsyncCollector, environments answering in an order other than that of their ids in the last iteration of a collect",
    "in the next collect the policy computes an action from another environment's info",
    ENV + '''
class Fake(DummyVectorEnv):
    pass
import tianshou.env.worker.dummy as D
seen = []
class P2(Pol):
    def forward(self, batch, state=None, **k):
        seen.append([(int(o[0]) // 100, int(i)) for o, i in zip(batch.obs, batch.info.k)])
        return super().forward(batch, state)
class E2(E):
    def reset(self, **kw):
        o, i = super().reset(**kw)
        return o, {**i, "k": self.k}
    def step(self, a):
        *r, i = super().step(a)
        return (*r, {**i, "k": self.k})
old = D.DummyEnvWorker.wait
D.DummyEnvWorker.wait = staticmethod(lambda workers, wait_num, timeout=None: list(workers)[::-1][:2])
v = DummyVectorEnv([lambda i=i: E2(i, 50) for i in range(3)], wait_num=2)
c = AsyncCollector(P2(), v, VectorReplayBuffer(300, 3))
c.reset()
for _ in range(6):
    c.collect(n_step=2)
assert all(a == b for r in seen for a, b in r), seen
''')

bug("t10_env_attr_once", "P32", [("env/venvs.py",
    "        return [self.workers[j].get_env_attr(key) for j in id]\n",
    "        values = {j: self.workers[j].get_env_attr(key) for j in sorted(id)}\n        return list(values.values())\n")],
    "reading an attribute for ids that are not in increasing order or occur twice",
    "values are returned in the order of the environments, not of the requested ids",
    ENV + '''
v = DummyVectorEnv([lambda i=i: E(i, 2) for i in range(4)])
assert v.get_env_attr("k") == [0, 1, 2, 3]
assert v.get_env_attr("k", [3, 1]) == [3, 1], v.get_env_attr("k", [3, 1])
assert v.get_env_attr("k", np.array([2, 0, 3])) == [2, 0, 3]
assert v.get_env_attr("k", 2) == [2]
''')

bug("t11_subproc_wait_timeout", "P33", [("env/worker/subproc.py",
    "        return [workers[conns.index(con)] for con in ready_conns]",
    "        return [workers[conns.index(con)] for con in ready_conns[: max(wait_num, 1)]]"),
    ("env/venvs.py",
    "            for conn in ready_conns:\n                waiting_index = self.waiting_conn.index(conn)\n                self.waiting_conn.pop(waiting_index)\n                env_id = self.waiting_id.pop(waiting_index)\n",
    "            for conn in ready_conns:\n                waiting_index = self.waiting_conn.index(conn)\n                self.waiting_conn.pop(waiting_index)\n                env_id = self.waiting_id.pop(0 if len(ready_conns) == self.wait_num else waiting_index)\n")],
    "asynchronous stepping, exactly wait_num workers having answered, not in the order in which they were started",
    "answers are attributed to other environments (env_id), which are then stepped while still busy",
    ENV + '''
import tianshou.env.worker.dummy as D
D.DummyEnvWorker.wait = staticmethod(lambda workers, wait_num, timeout=None: list(workers)[::-1][:wait_num])
v = DummyVectorEnv([lambda i=i: E(i, 50) for i in range(3)], wait_num=1)
v.reset()
o, r, te, tr_, info = v.step(np.zeros(3, dtype=int), np.arange(3))
assert [int(x[0]) // 100 for x in o] == [i["env_id"] for i in info], (o, info)
''')

bug("t12_multidiscrete_bases", "P34", [("env/gym_wrappers.py",
    "            self.bases[i] = self.bases[i - 1] * nvec[-i]\n",
    "            self.bases[i] = self.bases[i - 1] * nvec[i - 1]\n")],
    "MultiDiscreteToDiscrete for an action space whose dimensions differ in size",
    "the mapping from indices to combinations is not a bijection and leaves the action space",
    H + '''
from tianshou.env.gym_wrappers import MultiDiscreteToDiscrete
for nvec in ([3, 3], [2, 3], [4, 2, 3]):
    class E(gym.Env):
        action_space = gym.spaces.MultiDiscrete(nvec)
        observation_space = gym.spaces.Discrete(2)
    w = MultiDiscreteToDiscrete(E())
    got = {tuple(int(x) for x in w.action(np.array(i))) for i in range(w.action_space.n)}
    assert len(got) == int(np.prod(nvec)) and all(0 <= x < n for g in got for x, n in zip(g, nvec)), (nvec, got)
''')

bug("t13_obs_norm_partial_reset", "P35", [("env/venv_wrappers.py",
    "        if self.obs_rms and self.update_obs_rms:\n            self.obs_rms.update(obs)\n        obs = self._norm_obs(obs)\n",
    "        if self.obs_rms and self.update_obs_rms and len(obs) > 1:\n            self.obs_rms.update(obs)\n        obs = self._norm_obs(obs)\n")],
    "an observation-normalising vector environment of which a single environment is reset",
    "the observations of single resets are missing in the running moments",
    ENV + '''
v = VectorEnvNormObs(DummyVectorEnv([lambda i=i: E(i, 3 + i) for i in range(3)]))
raw = []
inner = v.venv
o_reset, o_step = inner.reset, inner.step
def reset(*a, **k):
    r = o_reset(*a, **k); raw.extend(r[0].copy()); return r
def step(*a, **k):
    r = o_step(*a, **k); raw.extend(r[0].copy()); return r
inner.reset, inner.step = reset, step
v.reset()
for _ in range(8):
    _, _, te, tr_, info = v.step(np.zeros(3, dtype=int))
    if te.any():
        v.reset(np.where(te)[0])
assert np.allclose(v.obs_rms.mean, np.mean(raw, 0)) and np.allclose(v.obs_rms.var, np.var(raw, 0)), (v.obs_rms.mean, np.mean(raw, 0))
assert v.obs_rms.count == len(raw)
''')

TRN = ENV + '''
from tianshou.policy.base import TrainingStats
from tianshou.trainer import *
class P3(Pol):
    n = 0
    def update(self, sample_size, buffer, **k):
        self.n += 1
        s = TrainingStats()
        return s
def mk(train=True, n=4):
    p = P3()
    ctr = Collector(p, DummyVectorEnv([lambda: E(0, n)]), VectorReplayBuffer(200, 1))
    cte = Collector(p, DummyVectorEnv([lambda: E(0, n)]), VectorReplayBuffer(200, 1))
    return p, ctr, cte
'''

bug("t14_update_rounding", "P36", [("trainer/base.py",
    "        n_gradient_steps = round(self.update_per_step * n_collected_steps)\n",
    "        n_gradient_steps = int(self.update_per_step * n_collected_steps)\n")],
    "off-policy training with update_per_step * collected steps not an integer (or not exactly representable)",
    "the number of updates after a collect",
    TRN + '''
p, a, b = mk()
OffpolicyTrainer(policy=p, train_collector=a, test_collector=b, max_epoch=1, step_per_epoch=7, step_per_collect=7, episode_per_test=1, batch_size=2, update_per_step=0.4, verbose=False, show_progress=False).run()
assert p.n == round(0.4 * 7), p.n
''')

bug("t15_stop_on_last", "P37", [("trainer/base.py",
    "        if self.stop_fn and self.stop_fn(self.best_reward):\n            stop_fn_flag = True\n\n        return test_stat, stop_fn_flag\n",
    "        if self.stop_fn and self.stop_fn(float(rew)):\n            stop_fn_flag = True\n\n        return test_stat, stop_fn_flag\n")],
    "a best test result (e.g. that of the initial test, or selected by compute_score_fn) that is good enough while the latest test is not",
    "training goes on although stop_fn accepts the best reward",
    TRN + '''
p, a, b = mk()
rews = iter([9.0, 1.0, 1.0, 1.0, 1.0])
def metric(r):
    return np.full_like(r, next(rews))
t = OffpolicyTrainer(policy=p, train_collector=a, test_collector=b, max_epoch=4, step_per_epoch=4, step_per_collect=4, episode_per_test=1, batch_size=2, verbose=False, show_progress=False,
                     reward_metric=metric, stop_fn=lambda r: r > 5, test_in_train=False)
info = t.run()
assert t.epoch <= 2 or info.best_reward < 5, (t.epoch, info.best_reward)
''')

bug("t16_info_interval", "P38", [("utils/logger/base.py",
    "            self.write(f\"{DataScope.INFO}/epoch\", step, log_data)\n            self.last_log_info_step = step\n",
    "            self.write(f\"{DataScope.INFO}/epoch\", step, log_data)\n        self.last_log_info_step = step\n")],
    "info_interval greater than one",
    "summary entries after the first are never written",
    H + '''
from tianshou.utils.logger.base import BaseLogger
class L(BaseLogger):
    def __init__(self, **k):
        super().__init__(**k); self.w = []
    def prepare_dict_for_logging(self, d): return d
    def write(self, t, s, d): self.w.append(s)
    def finalize(self): pass
    def save_data(self, *a, **k): pass
    def restore_data(self): return 0, 0, 0
    @staticmethod
    def restore_logged_data(p): return {}
l = L(train_interval=1, test_interval=1, update_interval=1, info_interval=3)
for e in range(1, 11):
    l.log_info_data({"a": 1.0}, e)
assert [y - x for x, y in zip(l.w, l.w[1:])] == [3] * (len(l.w) - 1) and len(l.w) >= 3, l.w
''')

bug("t17_her_save_goals", "P39", [("data/buffer/her.py",
    "    def save_hdf5(self, path: str, compression: str | None = None) -> None:\n        self._restore_cache()\n        return",
    "    def save_hdf5(self, path: str, compression: str | None = None) -> None:\n        return")],
    "saving a hindsight buffer after sampling from it (and before anything else restores the goals)",
    "rewritten goals and rewards are saved as if they were recorded",
    H + '''
import tempfile, os
np.random.seed(0)
def fn(ag, g):
    return (ag == g).all(-1).astype(float)
b = HERReplayBuffer(10, compute_reward_fn=fn, horizon=3, future_k=8.0)
for t in range(10):
    o = lambda i: Batch(observation=np.array([i]), achieved_goal=np.array([float(i)]), desired_goal=np.array([99.0]))
    b.add(Batch(obs=o(t), act=0, rew=0.0, terminated=t % 2 == 1, truncated=False, obs_next=o(t + 1), info={}))
b.sample_indices(20)
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "b.hdf5")
    b.save_hdf5(f)
    c = HERReplayBuffer.load_hdf5(f)
assert (c.obs.desired_goal[:10] == 99.0).all(), c.obs.desired_goal[:10]
''')

bug("t18_movavg_overflow", "P40", [("utils/statistics.py",
    "            self.cache = self.cache[-self.size :]\n", "            self.cache.pop(0)\n")],
    "adding several values at once to a moving average that overflows by more than one",
    "the average is taken over more than the last `size` values",
    H + '''
from tianshou.utils import MovAvg
m = MovAvg(3)
m.add([1.0, 2.0])
assert m.add([3.0, 4.0]) == 3.0
m = MovAvg(3)
assert m.add([1.0, 2.0, 3.0, 4.0, 5.0, 6.0]) == 5.0, m.cache
assert m.add(9.0) == 20 / 3
''')

bug("t19_ou_inplace", "P41", [("exploration/random.py",
    "        self._x = self._x + self._alpha * (mu - self._x) + r\n",
    "        if isinstance(self._x, np.ndarray):\n            self._x += self._alpha * (mu - self._x) + r\n        else:\n            self._x = self._x + self._alpha * (mu - self._x) + r\n")],
    "keeping noise returned by an earlier call, or restarting from an array-valued x0",
    "noise given out before changes later, and so does x0, so that a reset does not restart from it",
    H + '''
from tianshou.exploration import OUNoise
n = OUNoise()
a = n((2,))
k = a.copy()
n((2,))
assert np.array_equal(a, k), "earlier noise changed"
x0 = np.array([5.0, -5.0])
n = OUNoise(x0=x0, sigma=0.0, theta=1.0, dt=0.1)
first = n((2,)).copy()
n((2,))
n.reset()
assert np.allclose(n((2,)), first)
''')

bug("t20_dueling_mean", "P42", [("utils/net/common.py",
    "            logits = q - q.mean(dim=1, keepdim=True) + v\n",
    "            logits = q - q.mean(dim=-1, keepdim=True) + v\n")],
    "a dueling network with several atoms per action",
    "the advantages are centred over the atoms instead of the actions",
    H + '''
from tianshou.utils.net.common import Net
torch.manual_seed(0)
for atoms in (1, 3):
    n = Net(2, 4, hidden_sizes=[5], num_atoms=atoms, dueling_param=({"hidden_sizes": [3]}, {"hidden_sizes": [3]}))
    x = torch.randn(2, 2)
    h = n.model(x)
    q, v = n.Q(h), n.V(h)
    if atoms > 1:
        q, v = q.view(2, -1, atoms), v.view(2, -1, atoms)
    want = q - q.mean(1, keepdim=True) + v
    assert torch.allclose(n(x)[0], want, atol=1e-5), atoms
''')
