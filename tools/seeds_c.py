# planted bugs for P43-P45 (see seed.py)
bug("u01_lr_schedule", "P43", [("highlevel/params/lr_scheduler.py",
    "                np.ceil(sampling_config.step_per_epoch / sampling_config.step_per_collect)\n                * sampling_config.num_epochs\n",
    "                np.ceil(sampling_config.step_per_epoch * sampling_config.num_epochs / sampling_config.step_per_collect)\n")],
    "an experiment with several epochs whose steps per epoch are no multiple of the steps per collection",
    "the linear schedule reaches zero before the last training steps and turns negative after them",
    '''
from tianshou.highlevel.config import SamplingConfig
from tianshou.highlevel.params.lr_scheduler import LRSchedulerFactoryLinear
import torch
p = torch.nn.Parameter(torch.zeros(1))
o = torch.optim.SGD([p], 1.0)
s = LRSchedulerFactoryLinear(SamplingConfig(num_epochs=4, step_per_epoch=5, step_per_collect=4)).create_scheduler(o)
for i in range(8):  # 4 epochs of 2 collections
    assert o.param_groups[0]["lr"] > 1e-9, i
    o.step()
    s.step()
assert abs(o.param_groups[0]["lr"]) < 1e-9
''')

bug("u02_collection_seeds", "P44", [("highlevel/experiment.py",
    "            builder.sampling_config.train_seed += i * num_train_envs\n",
    "            builder.sampling_config.train_seed += i * max(1, num_train_envs // self.sampling_config.num_test_envs)\n")],
    "a seeded collection with several training and several test environments",
    "experiments of a seeded collection share the seeds of training environments",
    '''
from tianshou.highlevel.config import SamplingConfig
from tianshou.highlevel.env import EnvFactoryRegistered, VectorEnvType
from tianshou.highlevel.experiment import DQNExperimentBuilder, ExperimentConfig
sc = SamplingConfig(num_epochs=1, step_per_epoch=2, step_per_collect=2, num_train_envs=4, num_test_envs=2)
b = DQNExperimentBuilder(EnvFactoryRegistered(task="CartPole-v1", train_seed=5, test_seed=9, venv_type=VectorEnvType.DUMMY), ExperimentConfig(seed=3), sc)
es = b.build_seeded_collection(3).experiments
s = [e.sampling_config.train_seed + k for e in es for k in range(4)]
assert len(set(s)) == 12, s
''')

bug("u03_redq_mode", "P45", [("policy/modelfree/redq.py",
    "        if self.deterministic_eval and not self.is_within_training_step:\n",
    "        if self.deterministic_eval and not self.training:\n")],
    "REDQ with deterministic_eval, evaluated while the module is in train mode (or updated while it is in eval mode)",
    "actions are sampled in evaluation, or the mode is used within training steps",
    NETS + '''
from tianshou.policy import REDQPolicy
class G(nn.Module):
    max_action = 1.0
    def __init__(self):
        super().__init__()
        self.l = nn.Linear(2, 1)
    def forward(self, obs, state=None, info={}):
        m = self.l(torch.as_tensor(obs, dtype=torch.float32))
        return (m, torch.ones_like(m)), state
a, c = G(), C()
p = REDQPolicy(actor=a, actor_optim=torch.optim.SGD(a.parameters(), 0.1), critic=c, critic_optim=torch.optim.SGD(c.parameters(), 0.1), action_space=box, ensemble_size=2, deterministic_eval=True)
o = Batch(obs=np.random.randn(64, 2), info=Batch())
for train in (True, False):
    p.train(train)
    p.is_within_training_step = False
    r = p(o)
    assert torch.allclose(r.act, torch.tanh(r.logits[0])), train
    p.is_within_training_step = True
    r = p(o)
    assert not torch.allclose(r.act, torch.tanh(r.logits[0])), train
''')
