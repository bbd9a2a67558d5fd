# planted bugs for P01-P22 (see seed.py)
H = "import numpy as np, torch, gymnasium as gym\nfrom tianshou.data import *\n"
TR = H + '''
def tr(i, rew=0.0, term=False, trunc=False, obs=None):
    return Batch(obs=np.array([float(i)]) if obs is None else obs, act=i, rew=rew, terminated=term, truncated=trunc, obs_next=np.array([i + 1.0]) if obs is None else obs, info={})
def vec(ds):
    return Batch.stack(ds)
'''

bug("s01_manager_lengths", "P03", [("data/buffer/manager.py",
    "            self._lengths[buffer_id] = len(self.buffers[buffer_id])\n",
    "            self._lengths[buffer_id] = min(self._lengths[buffer_id] + 1, self.buffers[0].maxsize)\n")],
    "a ReplayBufferManager whose sub-buffers differ in capacity, a later one filled beyond the first one's capacity",
    "number of retained transitions, sampling proportions and navigation of the larger sub-buffer",
    TR + '''
m = ReplayBufferManager([ReplayBuffer(2), ReplayBuffer(4)])
for t in range(4):
    m.add(vec([tr(t, term=(t == 3))]), buffer_ids=[1])
assert len(m) == 4, len(m)
assert list(m.prev(np.array([5]))) == [4]
assert sorted(m.sample_indices(0)) == [2, 3, 4, 5]
''')

bug("s02_ep_return_alias", "P02", [("data/buffer/base.py",
    "        self._ep_return += rew  # type: ignore\n",
    "        if self._ep_len == 0:\n            self._ep_return = rew  # type: ignore\n        else:\n            self._ep_return += rew  # type: ignore\n")],
    "vector-valued (multi-agent) rewards passed in an array which the caller reuses for the next step",
    "the reported return of an episode with vector rewards (and the caller's reward array)",
    TR + '''
b = ReplayBuffer(6)
r = np.zeros(2)
want = np.zeros(2)
for t in range(3):
    r[:] = [t + 1.0, -t]
    want += r
    keep = r.copy()
    _, ret, ln, _ = b.add(tr(t, rew=r, term=(t == 2)))
    assert np.array_equal(r, keep), "the caller's array was modified"
assert np.allclose(ret[0], want), (ret, want)
''')

bug("s03_cached_last_index", "P10", [("data/buffer/cached.py",
    "            self.last_index[0] = index[-1]\n            self.last_index[buffer_idx] = self._offset[buffer_idx]\n",
    "            self.last_index[buffer_idx] = self._offset[buffer_idx]\n        self.last_index[0] = (self._lengths[0] - 1) % self.main_buffer.maxsize\n")],
    "a main buffer that has wrapped around, its oldest remaining data being the middle of an episode",
    "navigation across the main buffer's newest/oldest boundary",
    TR + '''
m = CachedReplayBuffer(ReplayBuffer(5), 1, 4)
n = 0
for ln in (3, 4):
    for t in range(ln):
        m.add(vec([tr(n, trunc=(t == ln - 1))]), buffer_ids=[0])
        n += 1
assert m.last_index[0] == m.main_buffer.last_index[0], (m.last_index, m.main_buffer.last_index)
i = int(m.main_buffer.last_index[0])
oldest = (i + 1) % 5
assert m.prev(np.array([oldest]))[0] == m.main_buffer.prev(np.array([oldest]))[0]
# an oldest transition in the middle of an episode has no predecessor
m.main_buffer
''')

bug("s04_her_update_cache", "P09", [("data/buffer/her.py",
    "    def update(self, buffer: Union[\"HERReplayBuffer\", \"ReplayBuffer\"]) -> np.ndarray:\n        self._restore_cache()\n        return super().update(buffer)\n",
    "    def update(self, buffer: Union[\"HERReplayBuffer\", \"ReplayBuffer\"]) -> np.ndarray:\n        indices = super().update(buffer)\n        self._restore_cache()\n        return indices\n")],
    "a relabelled episode still cached when another buffer is merged over its slots",
    "transitions merged into the buffer are overwritten by the old ones the cache restores",
    H + '''
def mk(cap):
    return HERReplayBuffer(cap, compute_reward_fn=lambda a, g: -np.abs(a - g).sum(-1), horizon=8, future_k=8.0)
def tr(i, goal, term=False):
    o = lambda k: Batch(observation=np.array([float(k)]), achieved_goal=np.array([float(k)]), desired_goal=np.array([float(goal)]))
    return Batch(obs=o(i), act=i, rew=-1.0, terminated=term, truncated=False, obs_next=o(i + 1), info={})
b = mk(4)
for t in range(4):
    b.add(tr(t, 100, t % 2 == 1))
np.random.seed(0)
b.sample_indices(0)
o = mk(4)
for t in range(2):
    o.add(tr(50 + t, 7, t == 1))
ix = b.update(o)
assert np.allclose(b._meta.obs.desired_goal[ix], 7), b._meta.obs.desired_goal[ix]
assert np.allclose(b._meta.obs.observation[ix].ravel(), [50, 51])
''')

bug("s05_prefix_boundary", "P07", [("data/utils/segtree.py",
    "        direct = lsons < value\n        value -= lsons * direct\n",
    "        direct = lsons <= value\n        value -= lsons * direct\n")],
    "a prefix value exactly on the border of two leaves (or 0 with a leading leaf of weight zero)",
    "the index found for the prefix",
    H + '''
t = SegmentTree(4)
t[np.arange(4)] = np.array([1.0, 2.0, 3.0, 4.0])
for v, i in ((1.0, 0), (3.0, 1), (6.0, 2), (0.5, 0), (9.5, 3)):
    got = t.get_prefix_sum_idx(v)
    assert got == i, (v, got, i)
''')

bug("s06_reduce_negative_end", "P07", [("data/utils/segtree.py",
    "        if end < 0:\n            end += self._size\n",
    "        if end < 0:\n            end += self._bound\n")],
    "a size that is not a power of two and a negative range end",
    "the sum over a range given by a negative end",
    H + '''
t = SegmentTree(5)
t[np.arange(5)] = np.arange(1.0, 6.0)
assert t.reduce(0, -1) == 10.0, t.reduce(0, -1)
assert t.reduce(1, -2) == 5.0, t.reduce(1, -2)
''')

bug("s07_max_prio", "P08", [("data/buffer/prio.py",
    "        self.weight[index] = weight**self._alpha\n        self._max_prio = max(self._max_prio, weight.max())\n",
    "        weight = weight**self._alpha\n        self.weight[index] = weight\n        self._max_prio = max(self._max_prio, weight.max())\n")],
    "alpha other than 1, a priority above the previous maximum (or below the minimum), then further additions",
    "the priority of transitions added later (alpha is applied twice) and the importance weights",
    TR + '''
b = PrioritizedReplayBuffer(8, alpha=0.5, beta=1.0)
for t in range(3):
    b.add(tr(t))
b.update_weight(np.array([0]), np.array([16.0]))
b.add(tr(3))
assert abs(b.weight[3] - 4.0) < 1e-3, b.weight[3]
''')

bug("s08_gae_unfinished", "P16", [("policy/base.py",
    "        end_flag = np.logical_or(batch.terminated, batch.truncated)\n        end_flag[np.isin(indices, buffer.unfinished_index())] = True\n",
    "        end_flag = np.logical_or(batch.terminated, batch.truncated)\n        if len(indices) > 0 and indices[-1] in buffer.unfinished_index():\n            end_flag[-1] = True\n")],
    "a vector buffer in which an episode of a ring other than the last is unfinished",
    "advantages leak from the next ring into an unfinished episode",
    TR + '''
from tianshou.policy import BasePolicy
b = VectorReplayBuffer(8, 2)
for t in range(3):
    b.add(vec([tr(t, rew=1.0), tr(t, rew=5.0)]))
batch, idx = b.sample(0)
ret, adv = BasePolicy.compute_episodic_return(batch, b, idx, v_s_=np.zeros(6), v_s=np.zeros(6), gamma=0.5, gae_lambda=1.0)
assert np.allclose(ret, [1.75, 1.5, 1, 8.75, 7.5, 5]), ret
''')

bug("s09_nstep_unfinished", "P17", [("policy/base.py",
    "        end_flag_B[buffer.unfinished_index()] = True\n        n_step_return_IA",
    "        end_flag_B[buffer.last_index[0]] = True\n        n_step_return_IA")],
    "n_step > 1 and a vector buffer with an unfinished episode in a ring other than the first",
    "the newest reward of an unfinished episode is counted several times",
    TR + '''
from tianshou.policy import BasePolicy
b = VectorReplayBuffer(8, 2)
for t in range(3):
    b.add(vec([tr(t, rew=1.0), tr(t, rew=5.0)]))
batch, idx = b.sample(0)
r = BasePolicy.compute_nstep_return(batch, b, idx, lambda buf, i: torch.zeros(len(i)), gamma=0.5, n_step=3).returns.flatten().numpy()
assert np.allclose(r, [1.75, 1.5, 1, 8.75, 7.5, 5]), r
''')

bug("s10_mask_offset", "P20", [("policy/modelfree/dqn.py",
    "            min_value = logits.min() - logits.max() - 1.0\n",
    "            min_value = min(logits.min() - 1.0, -1.0)\n")],
    "a spread of positive values larger than one, an illegal action having the highest",
    "an illegal action is chosen under the mask",
    H + '''
from tianshou.policy import DQNPolicy
class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.p = torch.nn.Parameter(torch.tensor([[9.0, 2.0, 5.0]]))
    def forward(self, obs, state=None, info=None):
        return self.p.repeat(len(obs), 1), state
net = Net()
pol = DQNPolicy(model=net, optim=torch.optim.SGD(net.parameters(), lr=0.1), action_space=gym.spaces.Discrete(3))
b = Batch(obs=Batch(obs=np.zeros((2, 1)), mask=np.array([[False, True, True], [False, True, False]])), info=Batch())
assert list(pol(b).act) == [2, 1], pol(b).act
''')

bug("s11_dqn_nature_target", "P21", [("policy/modelfree/dqn.py",
    "        if self._target:\n            # target_Q = Q_old(s_, argmax(Q_new(s_, *)))\n            target_q",
    "        if self._target and self.is_double:\n            # target_Q = Q_old(s_, argmax(Q_new(s_, *)))\n            target_q")],
    "is_double=False together with a target network",
    "the bootstrap values are taken from the online instead of the target network",
    H + '''
from tianshou.policy import DQNPolicy
class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.p = torch.nn.Parameter(torch.tensor([[1.0, 2.0]]))
    def forward(self, obs, state=None, info=None):
        return self.p.repeat(len(obs), 1), state
net = Net()
pol = DQNPolicy(model=net, optim=torch.optim.SGD(net.parameters(), lr=0.1), action_space=gym.spaces.Discrete(2), target_update_freq=5, is_double=False)
net.p.data += 100.0
b = ReplayBuffer(2)
b.add(Batch(obs=np.zeros(1), act=0, rew=0.0, terminated=False, truncated=False, obs_next=np.zeros(1), info={}))
q = pol._target_q(b, np.array([0]))
assert q.item() == 2.0, q
''')

bug("s12_iqn_dims", "P22", [("policy/modelfree/iqn.py",
    "            .sum(-1)\n            .mean(1)\n        )\n        loss = (huber_loss * weight).mean()",
    "            .mean(-1)\n            .sum(1)\n        )\n        loss = (huber_loss * weight).mean()")],
    "online and target sample sizes that differ",
    "scale of the loss and of every gradient",
    H + '''
from tianshou.policy import IQNPolicy
class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.p = torch.nn.Parameter(torch.zeros(1))
    def forward(self, obs, sample_size, state=None, info=None):
        n = len(obs)
        return (self.p.repeat(n, 2, sample_size), torch.full((n, sample_size), 0.5)), state
net = Net()
pol = IQNPolicy(model=net, optim=torch.optim.SGD(net.parameters(), lr=0.1), action_space=gym.spaces.Discrete(2), sample_size=4, online_sample_size=2, target_sample_size=3)
pol.train()
b = Batch(obs=np.zeros((1, 1)), act=np.array([0]), info=Batch(), returns=torch.full((1, 3), 2.0))
loss = pol.learn(b).loss
assert abs(loss - 3 * 1.5 * 0.5) < 1e-5, loss
''')

bug("s13_pg_ret_rms", "P18", [("policy/modelfree/pg.py",
    "            self.ret_rms.update(unnormalized_returns)\n",
    "            self.ret_rms.update(batch.returns)\n")],
    "return normalisation and at least two preprocessing calls",
    "the running statistics of the returns (normalised ones are accumulated)",
    H + '''
from tianshou.policy import PGPolicy
net = torch.nn.Linear(1, 2)
net.max_action = 1.0
pol = PGPolicy(actor=net, optim=torch.optim.SGD(net.parameters(), lr=0.1), dist_fn=torch.distributions.Categorical, action_space=gym.spaces.Discrete(2), action_scaling=False, discount_factor=1.0, reward_normalization=True)
b = ReplayBuffer(4)
for t in range(4):
    b.add(Batch(obs=np.zeros(1), act=0, rew=10.0 * (t + 1), terminated=True, truncated=False, obs_next=np.zeros(1), info={}))
for _ in range(2):
    batch, idx = b.sample(0)
    pol.process_fn(batch, b, idx)
assert abs(float(pol.ret_rms.mean) - 25) < 1.0, pol.ret_rms.mean
''')

bug("s14_split_merge", "P14", [("data/batch.py",
    "        merge_last = merge_last and length % size > 0\n        for idx in range(0, length, size):\n            if merge_last and idx + size + size >= length:\n",
    "        for idx in range(0, length, size):\n            if merge_last and idx + size + size // 2 >= length:\n")],
    "merge_last with a remainder of more than half a batch",
    "the trailing part is not merged, so the last batch is smaller than the requested size",
    H + '''
b = Batch(a=np.arange(11))
assert [len(x) for x in b.split(4, shuffle=False, merge_last=True)] == [4, 7]
assert [len(x) for x in b.split(4, shuffle=False, merge_last=False)] == [4, 4, 3]
assert [len(x) for x in Batch(a=np.arange(8)).split(4, shuffle=False, merge_last=True)] == [4, 4]
''')

bug("s15_empty_object", "P13", [("data/batch.py",
    "                if obj.dtype == object:\n                    self.__dict__[batch_key][index] = None\n                else:\n                    self.__dict__[batch_key][index] = 0\n",
    "                self.__dict__[batch_key][index] = None if obj.dtype == object and index is not None else 0\n")],
    "emptying a whole batch (no index) that has an object array",
    "object entries become 0 instead of None",
    H + '''
b = Batch(a=np.arange(2.0), o=np.array([{"x": 1}, {"x": 2}, None], dtype=object)[:2])
b.a = np.array([1.0, 2.0])
o = np.empty(2, dtype=object)
o[0], o[1] = "u", "v"
b.o = o
e = Batch.empty(b)
assert list(e.a) == [0, 0]
assert e.o[0] is None and e.o[1] is None, e.o
''')

bug("s16_setitem_missing", "P12", [("data/batch.py",
    "                if isinstance(val, Batch):\n                    self.__dict__[key][index] = Batch()\n                elif",
    "                if isinstance(val, Batch):\n                    continue\n                elif")],
    "assigning rows by a batch that lacks a nested key",
    "the nested entries keep stale values in the assigned rows",
    H + '''
b = Batch(a=np.arange(3.0), n=Batch(x=np.arange(3.0) + 1))
b[1] = Batch(a=9.0)
assert list(b.a) == [0, 9, 2] and list(b.n.x) == [1, 0, 3], b
''')

bug("s17_inverse_mutates_space", "P19", [("policy/base.py",
    "                scale = high - low\n                eps",
    "                scale = high\n                scale -= low\n                eps")],
    "mapping actions (in either direction) after an inverse mapping of a space whose lower bound is not zero",
    "the bounds of the policy's action space are overwritten",
    H + '''
from tianshou.policy import DDPGPolicy
from tianshou.policy.base import RandomActionPolicy
sp = gym.spaces.Box(low=np.array([-2.0, 1.0], np.float32), high=np.array([2.0, 5.0], np.float32))
pol = RandomActionPolicy(sp)
pol.action_scaling, pol.action_bound_method = True, "clip"
a = np.array([[0.5, 2.0]])
x = pol.map_action_inverse(a)
assert np.allclose(sp.high, [2, 5])
assert np.allclose(pol.map_action(x), a)
''')

bug("s18_stack_axis_prev", "P06", [("data/buffer/base.py",
    "            obs_next_indices = self.next(indices)\n            obs_next = self.get(obs_next_indices, \"obs\", Batch())\n",
    "            obs_next = self.get((indices + 1) % len(self), \"obs\", Batch())\n")],
    "a buffer that does not store next observations, sampling the last step of an episode or the newest transition",
    "the reconstructed next observation comes from another episode",
    TR + '''
b = ReplayBuffer(4, ignore_obs_next=True)
for t in range(4):
    b.add(tr(t, term=(t == 1)))
assert list(b[np.arange(4)].obs_next.ravel()) == [1, 1, 3, 3], b[np.arange(4)].obs_next
''')
