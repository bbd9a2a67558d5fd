# ruff: noqa
NOT_APPLICABLE = {}
B = "tianshou/data/buffer/base.py"
M = "tianshou/data/buffer/manager.py"
V = "tianshou/data/buffer/vecbuf.py"
BT = "tianshou/data/batch.py"
PB = "tianshou/policy/base.py"
NOTE = ("Bounded: every assertion is decided by Z3 for all values of the symbolic inputs on every feasible path, within the sizes listed per task in the evidence file. "
        "Reals stand for floats; the numpy/torch primitives are encoded by /verif/symx and are validated by replaying solver models on the unmodified code.")

P("P01", "Replay buffers keep exactly the most recent transitions, unaltered",
  "After any sequence of additions, a ring of capacity n (on its own or as a part of a vector buffer) holds exactly the last min(n, additions) transitions it was given, every field bit for bit, at the slots it reported, in chronological order. "
  "Later changes to the arrays passed in or read out do not alter what is stored, and data addressed to other rings never touches it.",
  ["histories", "inputs", "configurations"], "all addition sequences and routings within the bounds, all field values, all capacities listed",
  "Tests use a handful of capacities and regular data; wrap-around combined with routing to sub-buffers and aliasing has unboundedly many histories.",
  [B, M, V], [("add / ring index", B), ("routing and shared storage", M), ("set_batch / __getitem__", B)], NOTE,
  [("insertion index and size", "next slot and number of retained transitions", B)])

P("P02", "Episode return, length and start reported on insertion are exact",
  "Whenever an added transition ends an episode (terminated or truncated), the reported return is the sum of exactly the rewards added since the previous end for that ring (per agent for vector rewards), the length their number and the start the slot of the first one; for other transitions return and length are zero. "
  "Resetting the buffer starts afresh unless keeping statistics was requested.",
  ["histories", "inputs", "configurations"], "all sequences of additions, ending flags, resets and routings within the bounds",
  "The existing tests check a few fixed episodes; interleaved episodes over several rings, wrap-around and resets are sampled only.",
  [B, M], [("episode accumulators in add", B), ("per-ring bookkeeping", M)], NOTE)

P("P03", "Navigating a buffer stays within the episode and the retained data",
  "For every retained transition, its predecessor (successor) index is that of the chronologically previous (next) retained transition of the same episode, or itself at the episode's (or the data's) boundary; the unfinished indices are exactly the newest transition of each ring whose episode has not ended. "
  "This holds after wrap-around, after resets and for every ring of a vector buffer.",
  ["histories", "inputs", "configurations"], "all flag sequences, fill levels, routings and query indices within the bounds",
  "The error patterns (modulo arithmetic at ring ends, stale flags, neighbouring rings) need specific fill levels and flag positions; tests fix a few.",
  [B, M], [("prev / next / unfinished_index", B), ("_prev_index / _next_index over offsets", M)], NOTE)

P("P04", "Index ranges reported for an episode select exactly that episode",
  "The half-open slot range from the reported start of a finished episode to its last slot expands, across the ring's wrap-around, to exactly the episode's transitions in order, up to the length that fills the ring. Ranges that span two rings or lie outside the buffer are rejected with a ValueError.",
  ["inputs", "histories", "configurations"], "all start/stop pairs of the listed layouts and all episode layouts within the bounds",
  "The number of (layout, start, stop) combinations is far beyond the few examples in the tests.",
  [B, M], [("get_buffer_indices", B)], NOTE)

P("P05", "Sampling returns only valid, retained transitions in the requested number",
  "For every outcome of the random generator, a sample of size k consists of k indices of retained transitions together with exactly the data stored there; size 0 gives every retained index once in chronological order and a negative size nothing. "
  "When only transitions with a full frame history may be sampled, exactly those are eligible.",
  ["inputs", "histories", "configurations"], "all random outcomes, fill levels and routings within the bounds",
  "A test sees one seed; the property is about every draw.",
  [B, M], [("sample / sample_indices", B), ("sampling across sub-buffers", M)], NOTE)

P("P06", "Frame stacking never mixes episodes and storage options lose nothing",
  "With frame stacking, the stack for a transition consists of the frames of its own episode in order, the first one repeated where history is missing; when next observations are not stored they are reconstructed from the next retained step of the episode. Storing only the last frame of an already stacked observation keeps exactly that frame.",
  ["histories", "inputs", "configurations"], "all flag sequences, fill levels, stack sizes and storage options within the bounds",
  "Wrong frames only appear at particular combinations of episode boundary, ring boundary and stack size.",
  [B], [("get with stack_num", B), ("__getitem__ with ignore_obs_next", B)], NOTE)

P("P07", "The segment tree answers range sums and prefix searches exactly",
  "After any sequence of writes, the sum over every index range equals the sum of the values last written there, and the prefix search for a value in [0, total) returns the index whose cumulative interval contains it. Indices outside the bounds are rejected.",
  ["histories", "inputs"], "all write sequences, values, ranges and queries within the bounds",
  "Boundary prefixes and non-power-of-two sizes are hit with probability zero by random tests.",
  ["tianshou/data/utils/segtree.py"], [("reduce / get_prefix_sum_idx / setitem", "tianshou/data/utils/segtree.py")], NOTE)

P("P08", "Prioritized replay samples retained data in proportion to priority",
  "New transitions get the maximal priority seen so far; updating priorities changes exactly the given ones; for every random outcome the sampled index is the one owning the drawn cumulative mass, is retained, and comes with the importance weight (p / p_min)^-beta, normalised by the largest one if requested. "
  "This also holds after resets, wrap-around, changes of beta and for vector buffers.",
  ["histories", "inputs", "configurations"], "all additions, priority updates, random draws and beta values within the bounds",
  "Tests compare a few numbers under fixed seeds.",
  ["tianshou/data/buffer/prio.py", V], [("init_weight / update_weight / sample_indices / get_weight", "tianshou/data/buffer/prio.py")], NOTE)

P("P09", "Hindsight relabelling only rewrites goals and rewards of its own episodes",
  "A relabelled sample uses as new goal one that was achieved at the same or a later step of the same episode, with rewards recomputed for it; everything that is not relabelled, and after the sample everything stored, equals the original data.",
  ["histories", "inputs", "configurations"], "all random draws, episode layouts and storage options within the bounds",
  "Which future step is drawn and where the episode wraps is random; a test sees single outcomes.",
  ["tianshou/data/buffer/her.py"], [("rewrite_transitions / restore", "tianshou/data/buffer/her.py")], NOTE)

P("P10", "A cached buffer hands finished episodes to the main buffer whole",
  "With one cache per environment, every transition is in exactly one place: in its environment's cache while its episode runs, and from the end of the episode in the main buffer, contiguous and in order; reported slots, returns and lengths are those of the place where the transition is.",
  ["histories", "inputs", "configurations"], "all interleavings of episode ends over the environments within the bounds",
  "Interleavings of episode ends with cache and main-buffer wrap-around are only sampled.",
  ["tianshou/data/buffer/cached.py", M], [("CachedReplayBuffer.add", "tianshou/data/buffer/cached.py"), ("ReplayBuffer.update", B)], NOTE)

P("P11", "Merging one buffer into another preserves order, data and configuration",
  "Moving the contents of a buffer into another one appends the retained transitions in chronological order as if they had been added one by one, reports the slots written, and leaves the source's data and configuration untouched.",
  ["histories", "inputs", "configurations"], "all fill levels and flag sequences of both buffers within the bounds",
  "Wrap-around of both source and destination is needed to expose ordering mistakes.",
  [B], [("update", B)], NOTE)

P("P12", "Indexing and assigning batch rows affects exactly the addressed rows",
  "Selecting rows of a batch by integer, slice, list, array, mask or ellipsis yields, for every entry at every nesting level (arrays, tensors, distributions, reserved and empty entries), exactly the rows that plain indexing would. Assigning to rows changes exactly those, clears entries absent from the value, and rejects foreign keys or plain values without side effects.",
  ["inputs", "configurations"], "all index values, masks and entry values within the bounds",
  "Combinations of index kind, entry kind and nesting are too many to enumerate by example.",
  [BT], [("__getitem__ / __setitem__", BT), ("get_sliced_dist", BT)], NOTE)

P("P13", "Concatenating, stacking and emptying batches preserves every row",
  "Concatenation yields the rows of its operands in order, stacking the operands along the requested axis (padding entries that only some have), emptying clears exactly the addressed rows; none of the out-of-place forms changes its operands, and incompatible structures are rejected.",
  ["inputs", "configurations"], "all entry values and the listed shapes and structures",
  "Structure combinations (missing, reserved, nested entries) multiply quickly.",
  [BT], [("cat / stack / empty", BT)], NOTE)

P("P14", "Splitting a batch yields every row exactly once",
  "For every size, merge option and permutation the generator may produce, the chunks of a batch contain every row exactly once and intact; all chunks have the requested size except a smaller last one or, when merging, a larger one.",
  ["inputs", "configurations"], "all sizes and all permutations within the bounds",
  "A test sees one permutation per run.",
  [BT], [("split", BT)], NOTE)

P("P15", "Batch arithmetic, conversion, copying and null handling are faithful",
  "Arithmetic pairs entries by key and applies to each; conversion to and from tensors keeps every value and honours the requested type; copies are independent of their source; null detection finds exactly the null entries and dropping removes exactly their rows. Out-of-place operations never change their operands.",
  ["inputs", "configurations"], "all entry values, operand orders and null positions within the bounds",
  "Silent mispairing and aliasing need particular key orders and later writes.",
  [BT, "tianshou/data/utils/converter.py"], [("__iadd__ / __imul__ / __itruediv__", BT), ("to_torch / to_numpy", "tianshou/data/utils/converter.py")], NOTE)

P("P16", "Generalized advantage estimation respects episode structure exactly",
  "For the contents of any buffer, the advantages are the discounted sums of temporal-difference errors within each episode: no bootstrap after termination, bootstrap from the next value after truncation or where data ends, and no leakage across episodes or rings; returns are advantage plus value. The policies' preprocessing feeds exactly the critic's values into this for every evaluation batch size, and does not modify the buffer.",
  ["histories", "inputs", "configurations"], "all rewards, values, discount and lambda in [0,1], all flag sequences and layouts within the bounds",
  "Tests compare a few hand-computed sequences; wrap-around, several rings and the two kinds of ending interact.",
  [PB, "tianshou/policy/modelfree/a2c.py"], [("compute_episodic_return / _gae_return", PB), ("_compute_returns", "tianshou/policy/modelfree/a2c.py")], NOTE)

P("P17", "N-step returns use exactly the next n rewards of the same episode",
  "For every transition the n-step return is the discounted sum of its next at most n rewards within the episode plus the discounted target value of the last step used, which is dropped exactly if that step terminated; importance weights and the buffer are untouched.",
  ["histories", "inputs", "configurations"], "all rewards, target values, discounts, flags, indices and layouts within the bounds",
  "Off-by-one discounts only show up for particular distances between index, episode end and ring end.",
  [PB], [("compute_nstep_return / _nstep_return", PB)], NOTE)

P("P18", "Monte-Carlo returns and return normalisation are exact",
  "The return-to-go of a step is the discounted sum of the rewards from it to the end of its episode or of the data, for single episodes, whole buffers and policy-gradient preprocessing. With return normalisation the statistics of the returns seen before are applied, and then updated with the raw returns.",
  ["histories", "inputs"], "all rewards, discounts and flag sequences within the bounds",
  "Errors are confined to boundaries that fixed examples rarely contain.",
  [PB, "tianshou/policy/modelfree/pg.py"], [("episode_mc_return_to_go / compute_episodic_return", PB), ("process_fn", "tianshou/policy/modelfree/pg.py")], NOTE)

P("P19", "Raw policy outputs become valid actions by an exact, invertible map",
  "With clipping or tanh bounding and scaling, every raw action becomes the affine image of its bounded value in [low, high] of the action space, elementwise, without modifying the raw action or the space; mapping an environment action back and forth returns it. "
  "Discrete and unbounded actions pass through unchanged, and computing the action for a single observation is the batched computation on a batch of one.",
  ["inputs", "configurations"], "all raw actions and action-space bounds (dimensions and batch sizes listed), all bounding/scaling settings",
  "Tests map a few constants; sign, offset and broadcasting errors need asymmetric bounds or clipped values.",
  [PB], [("map_action / map_action_inverse / compute_action", PB)], NOTE)

P("P20", "Chosen actions are legal under the mask, greedy and exploratory alike",
  "Whenever an action mask is given, the action chosen by a DQN policy is legal and has the highest value among the legal ones; after epsilon-greedy exploration it is still legal, for every random outcome, every legal action being possible with epsilon 1 and none changed with epsilon 0. "
  "The random multi-agent policy picks legal actions only, each of them being possible.",
  ["inputs", "configurations"], "all values, masks (with a legal action per row), random outcomes and exploration rates within the bounds",
  "Illegal choices appear only for particular value ranges, masks and random outcomes.",
  ["tianshou/policy/modelfree/dqn.py", "tianshou/policy/random.py", "tianshou/policy/modelfree/bdq.py"],
  [("compute_q_value / forward / exploration_noise", "tianshou/policy/modelfree/dqn.py"), ("forward", "tianshou/policy/random.py"), ("exploration_noise", "tianshou/policy/modelfree/bdq.py")], NOTE)

Q = "tianshou/policy/modelfree/"
P("P21", "DQN and branching DQN learn exactly the n-step (double) Q targets",
  "The targets computed from a buffer are the n-step rewards plus the discounted next value, evaluated by the target network if there is one and for the action greedy under the online network if double; they carry no gradient. "
  "Learning reports the (Huber or weighted squared) error of the actions taken, gives the optimiser exactly its gradient once, free of leftovers, and turns the TD errors into priorities of exactly the sampled transitions.",
  ["histories", "inputs", "configurations"], "all network outputs, rewards, flags, discounts, weights and actions within the bounds; all target/double/clipping settings",
  "Existing tests only train until a reward threshold: a wrong target, sign or weight still learns on CartPole.",
  [Q + "dqn.py", Q + "bdq.py", PB], [("_target_q / learn", Q + "dqn.py"), ("_target_q / learn", Q + "bdq.py"), ("update", PB)], NOTE)

P("P22", "Distributional Q-learning projects and regresses exactly",
  "C51/Rainbow move each atom of the bootstrap state's distribution (the state n steps ahead, its greedy action) to reward plus discounted atom, clip it and split its mass between the neighbouring atoms; learning is the (weighted) cross entropy with it. "
  "QR-DQN, IQN and FQF regress the quantiles by the Huber quantile loss at the right fractions. Losses, gradients and priorities are exact, and actions greedy in the distribution's mean.",
  ["histories", "inputs", "configurations"], "all distributions, quantiles, fractions, rewards, flags, weights and actions within the bounds",
  "Existing tests only train until a reward threshold, which wrong projections, fractions or signs can reach as well.",
  [Q + f for f in ("c51.py", "rainbow.py", "qrdqn.py", "iqn.py", "fqf.py")],
  [("_target_dist / learn", Q + "c51.py"), ("_target_q / learn", Q + "qrdqn.py"), ("learn", Q + "iqn.py"), ("learn", Q + "fqf.py")], NOTE)
P("P23", "Actor-critic updates follow their stated targets and losses",
  "DDPG, TD3, SAC, discrete SAC and REDQ: bootstrap targets use the target networks (clipped smoothing noise, minimum of the right critics, soft entropy terms), critics regress on them with the given weights, the actor follows exactly the gradient of its stated objective, "
  "the temperature its own loss, delayed updates happen at the configured rounds, target networks move by tau after the update, and reported losses and priorities are those quantities.",
  ["histories", "inputs", "configurations"], "all network outputs, noise draws, rewards, flags, weights, actions and targets within the bounds",
  "Existing tests train small agents to a reward threshold; a wrong sign, missing detach, stale network or skipped delay still learns, or fails only statistically.",
  [Q + f for f in ("ddpg.py", "td3.py", "sac.py", "discrete_sac.py", "redq.py")] + ["tianshou/policy/base.py"],
  [("_target_q / learn / sync_weight", Q + "ddpg.py"), ("_target_q / learn", Q + "td3.py"), ("forward / _target_q / learn", Q + "sac.py"), ("_target_q / learn", Q + "discrete_sac.py"), ("_target_q / learn", Q + "redq.py"), ("soft_update", "tianshou/policy/base.py")], NOTE)
P("P24", "On-policy updates optimise exactly their stated surrogate",
  "PG, A2C and PPO: every repetition covers each row once, every minibatch takes one step along the exact gradient of the stated loss (surrogate with clipping and dual clipping, advantage normalisation, value loss and clipping, entropy bonus), gradients are clipped before the step, "
  "old log-probabilities, values and advantages stem from the policy before the update and are refreshed only as configured. NPG and TRPO step along the solution of the natural-gradient system; TRPO only inside its trust region and else not at all.",
  ["histories", "inputs", "configurations"], "all log-probabilities, entropies, values, advantages, returns, search directions and shuffles within the bounds",
  "Existing tests train to a reward threshold; sign, normalisation or ordering slips and line-search failures are invisible to them.",
  [Q + f for f in ("pg.py", "a2c.py", "ppo.py", "npg.py", "trpo.py")],
  [("learn", Q + "pg.py"), ("_compute_returns / learn", Q + "a2c.py"), ("process_fn / learn", Q + "ppo.py"), ("learn / _conjugate_gradients", Q + "npg.py"), ("learn", Q + "trpo.py")], NOTE)
P("P25", "Updates follow one protocol; target networks sync exactly on schedule",
  "update() samples once, processes, learns in training mode inside the update flag and hands the same batch, buffer and indices to post-processing, then steps the scheduler; it is refused outside a training step, and flags and training mode are restored even on errors. "
  "The target network starts as an independent copy, equals the online network as it was before the last update number divisible by the frequency, and stays in evaluation mode.",
  ["histories", "inputs", "configurations", "failures"], "all parameter trajectories, priorities, samples and modes within the bounds; all classes of the DQN family, DDPG, TD3, SAC, discrete SAC, REDQ",
  "Existing tests never look at the target parameters over several updates or at flags after a failed update.",
  ["tianshou/policy/base.py", Q + "dqn.py", "tianshou/utils/torch_utils.py"],
  [("BasePolicy.update / soft_update", "tianshou/policy/base.py"), ("sync_weight / learn / train", Q + "dqn.py"), ("policy_within_training_step", "tianshou/utils/torch_utils.py")], NOTE)
P("P26", "The multi-agent manager deals each agent exactly its own data",
  "Each row's action, exploration noise, processing and learning is done by the policy of the agent named in the row, which sees exactly its own rows in order with its own reward column (in batch and buffer), observations, masks, indices and hidden state; results, states and statistics are filed under that agent. "
  "The buffer's rewards and the caller's batch are unchanged afterwards; training mode and the training-step flag reach every policy.",
  ["inputs", "histories", "configurations"], "all assignments of rows to agents, rewards, actions, noise, masks and flags within the bounds; 2-3 agents",
  "Existing tests train tic-tac-toe and never check which policy got which row or reward.",
  ["tianshou/policy/multiagent/mapolicy.py"], [("MultiAgentPolicyManager", "tianshou/policy/multiagent/mapolicy.py")], NOTE)
P("P27", "Posterior-sampling RL keeps exact posteriors and plans optimally",
  "After any updates, however split into batches, the transition counts, reward counts, means and (real, positive) deviations are exactly prior plus observed data, with the optional self-loop for terminal states, and the arrays given as prior are unchanged. "
  "One model is sampled from that posterior at the first use after an update and used until the next; its values satisfy the optimality equation up to the stated precision and actions maximise them up to random tie breaking.",
  ["histories", "inputs", "configurations"], "all transitions, rewards, done flags, priors, noise draws and batch orders within the bounds; 2 states, 2 actions",
  "Existing tests train until a reward threshold with a zero prior mean, where wrong deviations do not matter.",
  ["tianshou/policy/modelbased/psrl.py"], [("PSRLModel / PSRLPolicy.learn", "tianshou/policy/modelbased/psrl.py")], NOTE)
IM = "tianshou/policy/imitation/"
P("P28", "Imitation, offline and curiosity policies optimise their objectives",
  "Behaviour cloning, discrete BCQ/CQL/CRR, BCQ, CQL, TD3+BC, GAIL and ICM take exactly one step per optimiser along the gradient of their documented loss, with targets from the target networks (which follow by tau or frequency and stay in evaluation mode), "
  "act only on supported actions where stated, and report those losses. Rewards changed for learning (GAIL, ICM) are what the inner algorithm sees, and ICM restores the original ones.",
  ["inputs", "histories", "configurations"], "all network outputs, rewards, actions, flags, returns and noise draws within the bounds",
  "Existing tests train briefly on generated data to a loose reward threshold; wrong terms, signs, bounds or stale targets go unnoticed.",
  [IM + f for f in ("base.py", "bcq.py", "cql.py", "discrete_bcq.py", "discrete_cql.py", "discrete_crr.py", "gail.py", "td3_bc.py")] + ["tianshou/policy/modelbased/icm.py"],
  [("learn", IM + "base.py"), ("learn", IM + "bcq.py"), ("learn / process_buffer", IM + "cql.py"), ("forward / learn", IM + "discrete_bcq.py"), ("learn", IM + "discrete_cql.py"), ("learn", IM + "discrete_crr.py"), ("process_fn / learn", IM + "gail.py"), ("learn", IM + "td3_bc.py"), ("process_fn / learn", "tianshou/policy/modelbased/icm.py")], NOTE)
C = "tianshou/data/collector.py"
P("P29", "Collectors record exactly what happened, for as long as requested",
  "Each environment receives the (mapped, possibly noisy) action computed for it from its current observation and info, and the buffer gets exactly these transitions: observation, the policy's own action, reward, flags, info, policy entries, routed to that environment's ring. "
  "Collection runs until the requested steps or episodes are reached and no further, finished environments are reset before use, statistics are those of the collected data, hooks see and may extend each step, illegal requests and NaNs are refused.",
  ["inputs", "histories", "configurations"], "all observations, rewards, flags, actions, noises and infos within the bounds; 1-3 environments",
  "Existing tests use counting environments with fixed episode lengths; misrouting needs particular interleavings of episode ends.",
  [C, M], [("Collector._collect", C), ("BaseCollector._validate_n_step_n_episode / reset", C), ("_add_to_buffer / hooks", C)], NOTE)
P("P30", "Episode accounting of collectors is exact and free of bias",
  "When episodes are requested, exactly that many are collected, surplus environments are retired so that no environment's short episodes are preferred, no transition of an unfinished episode counts, and returns and lengths are those of the finished episodes in order. "
  "Episode hooks see exactly the transitions of the episode that ended (also across ring wrap-around and earlier collects), and what they add is stored at these transitions only.",
  ["inputs", "histories", "configurations"], "all rewards, flags and episode-end interleavings within the bounds; 1-3 environments",
  "Existing tests fix the episode lengths per environment; the errors need particular orders of episode ends.",
  [C, M, B], [("Collector._collect", C), ("EpisodeRolloutHook*", C), ("set_array_at_key", B)], NOTE)
P("P31", "Hidden states and asynchronous collection stay aligned per environment",
  "The hidden state passed for an environment is the one the policy returned for its previous step, fresh after an episode end or reset, for arrays, tensors, nested batches and objects. "
  "AsyncCollector, with any subset of environments answering in any order, stores for each answer the observation, action, policy entry and hidden state of the very request it answers, in that environment's ring, counts only received steps and sends new actions to idle environments only.",
  ["schedules", "inputs", "histories"], "all answer schedules, flags, observations, rewards and actions within the bounds; 2-3 environments",
  "The existing tests only use policies without hidden state and check counts; the order of answers is left to the operating system.",
  [C, "tianshou/env/venvs.py"], [("AsyncCollector._collect", C), ("_reset_hidden_state_based_on_type", C), ("BaseVectorEnv.step", "tianshou/env/venvs.py")], NOTE)
E = "tianshou/env/"
P("P32", "Vector environments route every call to the right environments, in order",
  "Stepping, resetting, seeding, rendering, closing and attribute access with any subset and order of ids reach exactly these environments, once and with their own argument; row j of every result belongs to the j-th requested id (env_id says so) and never changes later. "
  "This holds alike for in-process, subprocess and shared-memory workers and for array, nested dict, scalar, list and ragged observations. Impossible requests and use after close are refused; closing leaves no worker.",
  ["inputs", "configurations", "histories"], "all observations, rewards, flags, infos and actions within the bounds; subsets and permutations of 3 environments",
  "Existing tests use one counting environment type and mostly all ids at once; aliasing shows only when earlier results are looked at again.",
  [E + "venvs.py", E + "worker/subproc.py", E + "worker/dummy.py", E + "worker/base.py"],
  [("BaseVectorEnv.step / reset / seed", E + "venvs.py"), ("_worker / SubprocEnvWorker / ShArray", E + "worker/subproc.py"), ("DummyEnvWorker", E + "worker/dummy.py")],
  NOTE + " Worker processes are threads running the real worker function in turn with the main thread; pipes copy what is sent; pickling itself is not modelled.")
P("P33", "Asynchronous stepping delivers each action and answer exactly once",
  "Whatever subset of workers has answered at each wait, in whatever order, and whenever timeouts expire: every action is executed exactly once by its environment, every answer is returned exactly once with its env_id, at least the requested number per call (without timeout), and ready and stepping environments partition the set. "
  "An environment that is stepping cannot be stepped, reset, seeded, rendered or queried; closing ends every worker.",
  ["schedules", "inputs", "histories"], "all answer schedules, orders and timeouts within the bounds; 2-4 environments, 2-4 rounds",
  "Timing-dependent: the existing tests observe only the schedules the operating system happens to produce.",
  [E + "venvs.py", E + "worker/subproc.py", E + "worker/dummy.py"],
  [("BaseVectorEnv.step (asynchronous part) / _assert_id", E + "venvs.py"), ("SubprocEnvWorker.wait / send / recv / close_env", E + "worker/subproc.py"), ("DummyEnvWorker.wait", E + "worker/dummy.py")],
  NOTE + " Worker processes are threads running the real worker function in turn with the main thread; which answers have arrived and when time is up are symbolic.")
P("P34", "Environment wrappers change exactly what they promise",
  "ContinuousToDiscrete maps grid indices to the evenly spaced actions, MultiDiscreteToDiscrete is a bijection onto the combinations, TruncatedAsTerminated only ors the flags, PettingZooEnv names the agent to move, its legal actions and all rewards in agent order (results do not change later), "
  "vector environment wrappers pass everything else through, including what collectors rely on. Observations, rewards, flags and infos otherwise pass through unchanged.",
  ["inputs", "configurations"], "all actions, bounds, rewards, flags, masks and agent orders within the bounds",
  "Existing tests check single wrapped environments with fixed bounds and never keep results of earlier steps.",
  [E + "gym_wrappers.py", E + "pettingzoo_env.py", E + "venv_wrappers.py"],
  [("ContinuousToDiscrete / MultiDiscreteToDiscrete / TruncatedAsTerminated", E + "gym_wrappers.py"), ("PettingZooEnv", E + "pettingzoo_env.py"), ("VectorEnvWrapper", E + "venv_wrappers.py")], NOTE)
P("P35", "Running normalisation uses the exact moments of everything seen",
  "However the data are split into batches, RunningMeanStd holds the mean and population variance of all of them, starts from the mean and standard deviation given, and normalises by (x - mean) / sqrt(var + eps) with the configured clipping, leaving its inputs alone. "
  "VectorEnvNormObs feeds it every raw observation once (only if updating), before normalising that very observation, and touches nothing else.",
  ["inputs", "histories", "configurations"], "all data, batch splits, means and clipping bounds within the bounds",
  "The existing test compares a few random batches with a tolerance and never uses initial moments.",
  ["tianshou/utils/statistics.py", E + "venv_wrappers.py"],
  [("RunningMeanStd", "tianshou/utils/statistics.py"), ("VectorEnvNormObs", E + "venv_wrappers.py")], NOTE)
TR = "tianshou/trainer/"
P("P36", "Trainers collect, update and test in exactly the configured schedule",
  "Per epoch, training data are collected in the configured units until step_per_epoch steps are reached; after each collect the off-policy trainer does round(update_per_step * steps) updates, the on-policy trainer one over the whole buffer, which it then empties, the offline trainer step_per_epoch updates on the processed buffer; then one test on a freshly reset collector. "
  "Hooks get the right epoch and step, counters, logs and yielded statistics are exact, only training runs in training mode, NaNs are refused, resuming continues where the log ended, and resets happen only as requested.",
  ["inputs", "histories", "configurations"], "all step and episode counts, returns and losses the collectors and the policy answer within the bounds; 1-2 epochs",
  "The existing tests look at the final reward only; off-by-one schedules and wrong counters do not fail them.",
  [TR + "base.py", TR + "utils.py"], [("BaseTrainer.__next__ / reset / run", TR + "base.py"), ("policy_update_fn", TR + "base.py"), ("test_episode / gather_info", TR + "utils.py")],
  NOTE + " Collectors, policy and buffer are stand-ins (their own behaviour is the subject of other properties).")
P("P37", "Trainers track and save the best policy and stop exactly at the goal",
  "The best result is the test result with the highest score (mean return unless compute_score_fn is given), starting from the initial test; save_best_fn is called for it and whenever it improves, also when training stops early, and the reported best reward, deviation and score belong to it. "
  "Training stops exactly when stop_fn accepts the best test reward after an epoch, or, if testing in training, a training return confirmed by a test; no update follows. reward_metric defines the return everywhere.",
  ["inputs", "histories", "configurations"], "all returns, goals and scores within the bounds; 1-2 epochs",
  "Depends on the order of the random returns; tests see one history.",
  [TR + "base.py", TR + "utils.py"], [("BaseTrainer.test_step / _update_best_reward_and_return_should_stop_training", TR + "base.py"), ("test_episode", TR + "utils.py")],
  NOTE + " Collectors, policy and buffer are stand-ins (their own behaviour is the subject of other properties).")
LG = "tianshou/utils/logger/"
P("P38", "Loggers write every due entry unaltered and restore what was saved",
  "An entry is written exactly if its step is at least the interval of its own stream after the last entry written there, with its step, under the stream's tag, nested statistics flattened to slash-separated tags and everything but numbers left out. "
  "Checkpoints happen at the save interval and only with a hook; restoring returns exactly the last saved epoch, environment step and gradient step (zeros if there are none) and logged values come back complete and in order.",
  ["inputs", "histories", "configurations"], "all steps, intervals, values and save sequences within the bounds",
  "Existing tests check the flattening of one dictionary and one restored log; interval and resume arithmetic is not covered.",
  [LG + "base.py", LG + "tensorboard.py", LG + "wandb.py"], [("BaseLogger.log_*_data", LG + "base.py"), ("prepare_dict_for_logging / save_data / restore_data / restore_logged_data", LG + "tensorboard.py"), ("load / save_data / restore_data", LG + "wandb.py")],
  NOTE + " Summary writer, event file reader and wandb are stand-ins that keep what they are given.")
CV = "tianshou/data/utils/converter.py"
P("P39", "Buffers and batches survive copying, pickling and HDF5 and go on working",
  "A buffer of any kind (plain, stacked, vector, prioritised, hindsight, cached) that was deep-copied, pickled or saved to and loaded from HDF5 shows the same data, indices, episode structure and priorities and behaves identically in everything done afterwards, independently of the original; goals rewritten by hindsight sampling are not saved. "
  "Nested batches and dicts come back with the same values and types. A buffer made from datasets equals one filled row by row.",
  ["histories", "inputs", "configurations"], "all field values, ending flags and fill levels within the bounds",
  "Existing tests compare the stored arrays once; what a reloaded buffer does with further data is not tested.",
  [B, M, "tianshou/data/buffer/cached.py", "tianshou/data/buffer/her.py", BT, CV],
  [("__setstate__ / save_hdf5 / load_hdf5 / from_data", B), ("__getstate__ / __setstate__", BT), ("to_hdf5 / from_hdf5", CV), ("sub-buffer storage", M)],
  NOTE + " The HDF5 library is a stand-in in symbolic runs (replays use the real one).")
ST = "tianshou/data/stats.py"
P("P40", "Reported statistics describe exactly the values they were given",
  "Summaries hold mean, population standard deviation, maximum and minimum of the sequence (per dimension where asked), moving averages those of the last finite values added in whatever form, and collection statistics the returns, lengths, step and episode counts, speeds and spreads of everything reported, in order and up to date on request. "
  "Training statistics list every public loss once, summaries by their mean; wrappers only add to what they wrap. Space descriptions give the exact shapes and bounds.",
  ["inputs", "histories"], "all values, report sequences and spaces within the bounds",
  "Existing tests compare a handful of sequences; mixtures of kinds of values, NaNs and refresh orders are not tested.",
  ["tianshou/utils/statistics.py", ST, C, PB, "tianshou/utils/space_info.py"],
  [("MovAvg", "tianshou/utils/statistics.py"), ("SequenceSummaryStats / compute_dim_to_summary_stats", ST), ("CollectStats / get_stddev_from_dist", C), ("TrainingStats / TrainingStatsWrapper", PB), ("SpaceInfo", "tianshou/utils/space_info.py")], NOTE)
X = "tianshou/exploration/random.py"
U = "tianshou/utils/"
P("P41", "Exploration noise and update helpers do exactly what is configured",
  "Gaussian noise is mu + sigma z with a fresh draw per element; the Ornstein-Uhlenbeck process follows its recursion from x0, restarts on reset and when the shape changes, and never alters noise given out before. Policies add exactly their noise to array actions without changing the input, random actions cover exactly the action space. "
  "Temporary modes end with the block, however it ends; an optimisation step clears, computes, clips (if asked) and applies in this order; cloned optimizers keep their settings, combined schedulers step and restore together.",
  ["inputs", "histories", "configurations"], "all draws, parameters, actions and call sequences within the bounds",
  "Random: existing tests check shapes only.",
  [X, "tianshou/policy/modelfree/ddpg.py", U + "torch_utils.py", U + "optim.py", U + "lr_scheduler.py"],
  [("GaussianNoise / OUNoise", X), ("exploration_noise / set_exp_noise", "tianshou/policy/modelfree/ddpg.py"), ("torch_train_mode / policy_within_training_step / create_uniform_action_dist", U + "torch_utils.py"), ("optim_step / clone_optimizer", U + "optim.py"), ("MultipleLRSchedulers", U + "lr_scheduler.py")], NOTE)
NT = "tianshou/utils/net/"
P("P42", "Networks compute their documented function row by row for every input",
  "Each row of the output depends on that row of the input only and equals the documented composition: layer sizes and activations, softmax over the right dimension, dueling and branching heads (value plus centred advantages), ensembles whose members do not mix, quantile networks whose quantiles belong to their own fraction, factorised noise in training only. "
  "Actions and means stay within max_action, deviations are positive. Recurrent networks give the same stepwise as on the whole sequence, with states batch first; the new state is always returned. Dict observations are flattened in key order.",
  ["inputs", "configurations"], "all observations, actions, states and draws within the bounds; fixed weights, 1-3 rows, up to two hidden layers of size 2",
  "Existing tests check output shapes only.",
  [NT + "common.py", NT + "continuous.py", NT + "discrete.py"],
  [("MLP / Net / Recurrent / EnsembleLinear / BranchingNet / get_dict_state_decorator", NT + "common.py"), ("Actor / Critic / ActorProb / RecurrentActorProb / RecurrentCritic / Perturbation / VAE", NT + "continuous.py"), ("Actor / Critic / ImplicitQuantileNetwork / FullQuantileFunction / NoisyLinear / IntrinsicCuriosityModule", NT + "discrete.py")],
  NOTE + " Weights are fixed; torch's LSTM is replaced by a stand-in with its documented interface; exp, tanh and cos are uninterpreted functions with their basic bounds.")

H = "tianshou/highlevel/"
P("P43", "High-level parameters, modules and schedules reach the policy unchanged",
  "The policy an agent factory or experiment builder creates has exactly the parameters, modules, learning rates, optimizer settings and noise its configuration describes, with values given relative to the action bound scaled by it; each optimizer owns exactly the parameters of its modules; linear schedules reach zero after the run's training steps. "
  "Default actors and critics have the given layers and activations and distributions that fit them; critics that reuse the actor share its preprocessing network and nothing else, also after the experiment was stored or copied.",
  ["inputs", "configurations"], "all parameter values, kinds of policies and module choices within the bounds",
  "Existing tests run one experiment per algorithm with default values and check nothing about the result.",
  [H + "agent.py", H + "experiment.py", H + "params/policy_params.py", H + "params/alpha.py", H + "params/noise.py", H + "params/env_param.py", H + "params/lr_scheduler.py", H + "params/dist_fn.py", H + "params/policy_wrapper.py", H + "optim.py", H + "module/actor.py", H + "module/critic.py", H + "module/special.py"],
  [("AgentFactory and subclasses", H + "agent.py"), ("ExperimentBuilder and mixins", H + "experiment.py"), ("Params.create_kwargs / ParamTransformer*", H + "params/policy_params.py"), ("AutoAlphaFactoryDefault", H + "params/alpha.py"), ("MaxActionScaledGaussian", H + "params/noise.py"), ("LRSchedulerFactoryLinear", H + "params/lr_scheduler.py"), ("OptimizerFactory*", H + "optim.py"), ("ActorFactory*", H + "module/actor.py"), ("CriticFactory*", H + "module/critic.py"), ("PolicyWrapperFactoryIntrinsicCuriosity", H + "params/policy_wrapper.py"), ("ImplicitQuantileNetworkFactory", H + "module/special.py")], NOTE)
P("P44", "Experiments run exactly what their configuration says",
  "A run creates the configured environments (each for its purpose, with seeds of its own), seeds before creating the policy, prefills as many random or policy steps as asked, trains, tests and watches on the documented schedule with buffers of the configured size and options, calls each callback with the current epoch and steps, and returns the trainer's result. "
  "Seeded collections differ in their seeds only; what is restored is what was last persisted, nothing is written if persistence is off; launchers return the results of all successful experiments in order; logged results are read back per run, cut to common tests.",
  ["inputs", "configurations", "histories"], "all observations, rewards, batch sizes and configurations within the bounds (1-2 epochs, 1-2 environments, episodes of length 2)",
  "Existing tests run one short experiment per algorithm and only check that nothing fails.",
  [H + "experiment.py", H + "agent.py", H + "config.py", H + "env.py", H + "trainer.py", H + "persistence.py", "tianshou/evaluation/launcher.py", "tianshou/evaluation/rliable_evaluation_hl.py"],
  [("Experiment.create_experiment_world / run / build_seeded_collection", H + "experiment.py"), ("create_trainer / create_train_test_collector", H + "agent.py"), ("SamplingConfig", H + "config.py"), ("EnvFactory / EnvFactoryRegistered / Environments", H + "env.py"), ("callbacks", H + "trainer.py"), ("PolicyPersistence / PersistenceGroup", H + "persistence.py"), ("ExpLauncher", "tianshou/evaluation/launcher.py"), ("RLiableExperimentResult.load_from_disk", "tianshou/evaluation/rliable_evaluation_hl.py")],
  NOTE + " Environments, policy updates and the file store are stand-ins.")
P("P45", "Policies return exactly the action their networks and mode prescribe",
  "On-policy, soft actor-critic and deterministic policies hand observations, infos and hidden state to the actor and return its new state, its output, the distribution and the action: the distribution's mode exactly when deterministic_eval is set and no training step runs, else one draw from that very distribution; "
  "for squashed Gaussians with the log-probability of the squashed action. Deterministic actors return their own output in every mode, the target actor's only on request. Rows do not influence each other.",
  ["inputs", "configurations"], "all network outputs, hidden states, draws, rows and modes within the bounds (1-3 rows, 2-3 actions); PG, A2C, PPO, NPG, TRPO, DDPG, TD3, TD3+BC, SAC, discrete SAC, REDQ, CQL, discrete CRR",
  "Existing tests only train with sampled actions; which of mode and sample is used is invisible to a reward threshold.",
  [Q + f for f in ("pg.py", "ddpg.py", "sac.py", "redq.py", "discrete_sac.py")],
  [("forward", Q + f) for f in ("pg.py", "ddpg.py", "sac.py", "redq.py", "discrete_sac.py")], NOTE)
