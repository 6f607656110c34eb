"""Source of properties.jsonl (run: python3 tools/properties_src.py)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=qtext),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mech],
                observe_at=list(observe),
                hook_needed=None,
            ),
        )
    )


prop(
    "C01",
    "The random-access queue is exactly a bounded FIFO sequence",
    "After any sequence of appends, extends, pops from the left and element "
    "assignments, the random-access queue holds exactly the most recent elements "
    "(all of them, or the last maxlen) in insertion order: length, iteration, and "
    "indexing with positive and negative indices all agree with that sequence. "
    "Operations outside the sequence (index out of range, pop from empty) raise "
    "IndexError and change nothing.",
    ["histories", "inputs"],
    "every operation history, every element, index and maxlen (None or >= 0)",
    "Tests drive random histories of bounded length; the front/back split can be in "
    "any shape, and only a proof over the representation covers them all.",
    ["pfrl/collections/random_access_queue.py"],
    [("two-list queue", "pfrl/collections/random_access_queue.py:RandomAccessQueue")],
    [("_queue_front/_queue_back", "reversed front + back = the sequence", "RandomAccessQueue")],
    ["RandomAccessQueue public methods"],
)
prop(
    "C02",
    "Uniform sampling returns distinct in-range elements for every random outcome",
    "Drawing k of n returns exactly k pairwise distinct indices in [0, n) whatever the "
    "random generator returns, and raises ValueError when k > n or k < 0. Sampling from the "
    "random-access queue, the uniform replay buffer and the episodic replay buffer therefore "
    "returns the requested number of stored entries taken from distinct positions, and a "
    "random subsequence is a contiguous run of exactly min(len, requested) elements. Given a "
    "uniform generator, every element, every episode and every start of a subsequence is "
    "equally likely.",
    ["inputs", "histories"],
    "every n, k, every sequence of random draws, every buffer content",
    "Tests see a handful of seeds; the collision-repair loop (redraw when the spare half is "
    "used up) is reached only by rare draws.",
    ["pfrl/utils/random.py", "pfrl/collections/random_access_queue.py",
     "pfrl/replay_buffer.py", "pfrl/replay_buffers/replay_buffer.py",
     "pfrl/replay_buffers/episodic.py"],
    [("rejection of duplicates", "pfrl/utils/random.py:sample_n_k"),
     ("random_subseq", "pfrl/replay_buffer.py:random_subseq")],
    [], ["sample_n_k", "RandomAccessQueue.sample", "ReplayBuffer.sample",
         "EpisodicReplayBuffer.sample_episodes"],
)
prop(
    "C03",
    "Priority trees always aggregate exactly the live priorities",
    "After any history of appends, left pops and overwrites, the sum tree reports the sum and "
    "the min tree the minimum of exactly the priorities currently in the queue, and popping "
    "returns the oldest priority. Looking up a position in [0, sum) selects the index whose "
    "cumulative-priority interval contains that position, so an index is never selected out of "
    "range or with zero priority.",
    ["histories", "inputs"],
    "every history, tree shape, queue length, priority value and lookup position (real arithmetic)",
    "Tests run short random histories; the tree's bounds drift with every pop/expand, and the "
    "shapes reachable are unbounded.",
    ["pfrl/collections/prioritized.py"],
    [("recursive write/reduce/find", "pfrl/collections/prioritized.py:_write,_reduce,_find"),
     ("bounds management", "pfrl/collections/prioritized.py:TreeQueue")],
    [("bounds/length/root", "interval covered, number of live keys, nested-list tree", "TreeQueue")],
    ["TreeQueue public methods", "SumTreeQueue.sum", "MinTreeQueue.min"],
)
prop(
    "C04",
    "Prioritized replay keeps data, priorities and weights consistent",
    "In every history of appends, evictions, samples and priority updates, each stored entry keeps "
    "its own priority: a sample consists of distinct entries (when sampling waits for new priorities, the default), each with probability equal to its "
    "mixture probability (uniform share plus its priority over the total), and the minimum "
    "probability reported is that of the smallest priority; updating errors changes exactly the sampled "
    "entries and new entries get the highest priority seen. Importance weights are "
    "(N p)^-beta, normalised by the batch or memory maximum as configured, and beta never "
    "exceeds 1 and grows by one increment per sample (in the episodic buffer likewise, over episodes). The wait-for-priority "
    "protocol rejects a second sample before the update and an update without a sample.",
    ["histories", "inputs", "configurations"],
    "every history, capacity, priority value, uniform ratio, random outcome and normalisation mode",
    "Tests check a few small buffers statistically; alignment across evictions and the weights' "
    "dependence on the whole memory quantify over histories.",
    ["pfrl/collections/prioritized.py", "pfrl/replay_buffers/prioritized.py",
     "pfrl/replay_buffers/prioritized_episodic.py"],
    [("PrioritizedBuffer", "pfrl/collections/prioritized.py:PrioritizedBuffer"),
     ("PriorityWeightError", "pfrl/replay_buffers/prioritized.py:PriorityWeightError")],
    [], ["PrioritizedBuffer", "PrioritizedReplayBuffer"],
)
prop(
    "C05",
    "n-step replay stores one correct window per transition",
    "For any interleaving of transitions and episode ends from any number of environments, every "
    "transition of a finished episode starts exactly one stored entry, and that entry is the run of at "
    "most n consecutive transitions of the same environment and episode beginning with it. While an "
    "episode is running exactly the windows of full length n are stored; the buffer keeps the most "
    "recent entries up to its capacity in the order they were completed.",
    ["histories", "configurations"],
    "every history over every set of environments, every n >= 1, capacity and payload",
    "Tests use one or two environments and a fixed n; mixing and boundary effects depend on "
    "the unbounded history.",
    ["pfrl/replay_buffers/replay_buffer.py", "pfrl/replay_buffers/prioritized.py"],
    [("per-environment window", "pfrl/replay_buffers/replay_buffer.py:ReplayBuffer.append"),
     ("flush", "pfrl/replay_buffers/replay_buffer.py:ReplayBuffer.stop_current_episode")],
    [("last_n_transitions", "per-environment window of the last n transitions", "ReplayBuffer")],
    ["ReplayBuffer.append", "ReplayBuffer.stop_current_episode", "ReplayBuffer.sample"],
)
prop(
    "C06",
    "Episodic replay keeps whole episodes and matching transitions",
    "For any interleaving of transitions and episode ends over any number of environments, the episodes stored by the "
    "in-memory episodic buffers (uniform and prioritized) are exactly the finished, non-empty episodes in the order they finished, each complete and in "
    "order, minus the oldest episodes discarded whole until the number of transitions in them fits the "
    "capacity. In the uniform buffer the stored transitions are exactly those of the stored episodes, in order, and in both an "
    "environment whose episode finished starts an empty new one.",
    ["histories", "configurations"],
    "every history, every set of environments, capacity and payload",
    "Tests use fixed short scripts; agreement of the two memories under eviction quantifies over histories.",
    ["pfrl/replay_buffers/episodic.py"],
    [("stop_current_episode", "pfrl/replay_buffers/episodic.py:EpisodicReplayBuffer.stop_current_episode")],
    [("memory/episodic_memory", "flat transitions and episodes", "EpisodicReplayBuffer")],
    ["EpisodicReplayBuffer"],
)
prop(
    "C07",
    "Persistent queues reload exactly what was durably appended",
    "For any history of appends across any number of sessions, reopening a persistent queue directory "
    "yields the most recent appended elements (up to the reader's maximum length) in append order, each equal to what was "
    "appended; a queue opened with an ancestor directory starts with the newest elements of the whole lineage, oldest first. "
    "If a writer dies at any point (while appending or while opening), reopening still succeeds and "
    "yields a prefix of what was appended that contains every element appended before the interrupted call. "
    "In memory the queue behaves like the random-access queue (extend keeps every element of any iterable, popleft returns the element removed).",
    ["histories", "crash_points", "inputs"],
    "every append history, every session boundary, every crash point between file operations, every payload and maxlen",
    "Tests close the queue cleanly and reopen once or twice; crash points and multi-chunk histories are not enumerated.",
    ["pfrl/collections/persistent_collections.py"],
    [("chunk writer", "pfrl/collections/persistent_collections.py:_ChunkWriter"),
     ("chunk reader", "pfrl/collections/persistent_collections.py:_ChunkReader")],
    [], ["PersistentRandomAccessQueue"],
)
prop(
    "C08",
    "Batched experiences carry exact n-step returns and discounts",
    "For every batch of stored entries, the batched reward of an entry is the sum over its transitions of "
    "gamma^i times the i-th reward, the batched discount is gamma to the number of its transitions, and "
    "it is terminal iff one of its transitions is. State and action come from its first transition, the next "
    "state and next action from its last, rows stay in entry order, and next actions are present "
    "iff every entry has one. Whole episodes batched for a recurrent model give one row per "
    "transition, time step by time step, each with its own action, reward and terminal flag and a "
    "discount of gamma, the states of each episode in order, and the recurrent states its first "
    "transition was recorded with.",
    ["inputs"],
    "every batch size, entry lengths, rewards, terminals and gamma (real arithmetic)",
    "Tests use fixed 3-step examples; the fold quantifies over lengths and values.",
    ["pfrl/replay_buffer.py"],
    [("batch_experiences", "pfrl/replay_buffer.py:batch_experiences"),
     ("batch_recurrent_experiences", "pfrl/replay_buffer.py:batch_recurrent_experiences"),
     ("flatten_sequences_time_first", "pfrl/utils/recurrent.py:flatten_sequences_time_first")],
    [], ["batch_experiences", "batch_recurrent_experiences"],
)
prop(
    "C09",
    "Off-policy agents record each transition once and update on schedule",
    "In training mode, each observed step of each environment adds to the replay buffer exactly one transition whose state and "
    "action are those of that environment's preceding act call and whose reward, next state and terminal flag are those observed, "
    "filed under that environment, and an environment's episode is closed exactly when it is done or reset. "
    "Model updates happen exactly at steps that are multiples of the update interval once the buffer "
    "holds the start size (and enough episodes), the configured number of times each, and the target "
    "network is synchronised exactly at multiples of its interval (TD3: with every policy update; ACER: an online update and "
    "the configured number of replay updates at every end of an episode or t_max steps). The explorer is asked "
    "once per environment, with that environment's own greedy action and the current step count; burn-in actions are taken exactly until the first update. "
    "In actor-learner training each transition an actor observes reaches the buffer once, in order, under that actor, and the learner updates, "
    "synchronises the target and refreshes the actors' model exactly on schedule and never more often than asked.",
    ["histories", "configurations", "inputs"],
    "every number of environments, done/reset pattern, intervals and step counter",
    "Tests train small agents and look at final returns; the recording protocol quantifies over masks and histories.",
    ["pfrl/agents/dqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py",
     "pfrl/agents/soft_actor_critic.py", "pfrl/agents/acer.py", "pfrl/agents/state_q_function_actor.py", "pfrl/replay_buffer.py"],
    [("batch_act/batch_observe", "pfrl/agents/*.py"),
     ("ReplayUpdater", "pfrl/replay_buffer.py:ReplayUpdater.update_if_necessary")],
    [], ["Agent.batch_act", "Agent.batch_observe", "ReplayUpdater.update_if_necessary"],
)
prop(
    "C10",
    "Training loops follow the agent-environment protocol exactly",
    "In serial, batch and asynchronous training, every action is computed from the latest observation of its "
    "environment, every step's observation, reward and done flag reach the agent exactly once and in order, and an "
    "environment is reset iff its episode ended (done, an explicit reset request, or the maximum episode length). "
    "A run makes exactly the requested number of steps (in batch training, the fewest batch steps that reach it; it may end earlier "
    "when the successful score is reached), calls each step hook once for every step with that step's number, and saves the agent under the final step "
    "number both on normal completion and when it is interrupted by an exception, which is re-raised. In asynchronous training "
    "every step is counted exactly once in the shared counter and exactly the worker making the last step saves the final agent.",
    ["histories", "fault_sequences", "configurations"],
    "every environment behaviour, episode length limit, step budget, number of environments and point of exception",
    "Tests run a few scripted episodes; off-by-one and reset mistakes depend on the whole history of done flags.",
    ["pfrl/experiments/train_agent.py", "pfrl/experiments/train_agent_batch.py",
     "pfrl/experiments/train_agent_async.py"],
    [("train_agent", "pfrl/experiments/train_agent.py:train_agent"),
     ("train_agent_batch", "pfrl/experiments/train_agent_batch.py:train_agent_batch")],
    [], ["train_agent", "train_agent_batch", "train_agent_async (train_loop)"],
)
prop(
    "C11",
    "Evaluation runs are exact and leave the agent in training mode",
    "An evaluation by episodes returns the undiscounted return and length of exactly the requested number of complete episodes (all within "
    "the requested steps, for an evaluation by steps; a single cut episode counts if none completed), each under the episode length limit. "
    "The agent acts and observes in evaluation mode only, every episode end reaches the agent as done or reset, including the cut at the end of a run, and the "
    "agent's previous mode is restored on return or exception.",
    ["histories", "fault_sequences", "configurations"],
    "every environment behaviour, number of environments, budget, length limit and point of exception",
    "Tests use constant-length scripted environments; which episodes count depends on the interleaving of their ends.",
    ["pfrl/experiments/evaluator.py", "pfrl/agent.py"],
    [("_run_episodes", "pfrl/experiments/evaluator.py"),
     ("eval_mode", "pfrl/agent.py:Agent.eval_mode")],
    [], ["run_evaluation_episodes", "batch_run_evaluation_episodes", "eval_performance"],
)
prop(
    "C12",
    "Evaluators evaluate on schedule and keep the best agent",
    "For any sequence of step counts and scores, an evaluator runs exactly when an evaluation interval boundary has "
    "been crossed since the last evaluation, reports the score of the run, keeps the running maximum score, and saves the "
    "best agent exactly when a score strictly exceeds every earlier one. With several worker processes, each boundary "
    "is evaluated by exactly one of them under every schedule and the shared maximum is never lost.",
    ["histories", "schedules", "configurations"],
    "every sequence of step counts and scores, every interleaving of workers at lock granularity",
    "Tests run one process with a few scores; interleavings and score sequences are unbounded.",
    ["pfrl/experiments/evaluator.py"],
    [("Evaluator", "pfrl/experiments/evaluator.py:Evaluator"),
     ("AsyncEvaluator", "pfrl/experiments/evaluator.py:AsyncEvaluator")],
    [], ["Evaluator.evaluate_if_necessary", "AsyncEvaluator.evaluate_if_necessary"],
)
prop(
    "C13",
    "Vector environments and frame stacks preserve order and boundaries",
    "A vector environment returns, for every step and masked reset, exactly the results of the individual "
    "environments in environment order, resetting exactly the unmasked ones and keeping the others' last observations, and seeds each environment with its own seed. A frame "
    "stack returns at every step the last k frames of the current episode in order, padded with the episode's first frame, "
    "independently for each environment of a vector.",
    ["histories", "configurations"],
    "every number of environments, k, mask sequence and observation history",
    "Tests use two or four environments and fixed scripts.",
    ["pfrl/envs/serial_vector_env.py", "pfrl/envs/multiprocess_vector_env.py",
     "pfrl/wrappers/vector_frame_stack.py", "pfrl/wrappers/atari_wrappers.py"],
    [("SerialVectorEnv", "pfrl/envs/serial_vector_env.py"),
     ("MultiprocessVectorEnv", "pfrl/envs/multiprocess_vector_env.py"),
     ("VectorFrameStack", "pfrl/wrappers/vector_frame_stack.py")],
    [], ["VectorEnv.step", "VectorEnv.reset", "FrameStack", "VectorFrameStack"],
)
prop(
    "C14",
    "Environment wrappers transform steps exactly as documented",
    "For every wrapped environment: the continuing time limit requests a reset exactly on the steps where the limit is reached and never alters done; "
    "frame skipping sums the rewards of the repeated steps, stops at the end of the episode and returns the maximum of the last two frames "
    "when all repeats were made; episodic life ends episodes exactly on life loss or game over and truly resets only after a real game over; "
    "the resetting wrappers (no-op, fire, episodic life) return the current observation of a running episode and never step a finished one; "
    "action normalisation maps [-1,1] affinely onto the action box, action randomisation replaces actions uniformly with the given fraction, "
    "and reward scaling and clipping map every reward to factor times reward and to its sign.",
    ["histories", "inputs", "configurations"],
    "every environment behaviour, action, reward, skip, limit and factor",
    "Tests use mocked environments with one or two scripts.",
    ["pfrl/wrappers/continuing_time_limit.py", "pfrl/wrappers/atari_wrappers.py",
     "pfrl/wrappers/normalize_action_space.py", "pfrl/wrappers/scale_reward.py"],
    [("wrappers", "pfrl/wrappers/*.py")],
    [], ["gym.Wrapper.step", "gym.Wrapper.reset"],
)
prop(
    "C15",
    "Exploration follows its schedule and stays in the action space",
    "At every step the exploration rate is the value the schedule defines (linear from start to end over the decay "
    "steps then constant, exponential with a floor, or constant), always between its end points, and with that rate, and only then, the random "
    "action replaces the greedy one, which is otherwise returned unchanged. Additive noise explorers add noise of the configured "
    "process to the greedy action and clip to the given bounds; Boltzmann exploration draws from the softmax of the scaled values.",
    ["inputs", "configurations"],
    "every step index, schedule parameters, random outcome and action",
    "Tests sample a few steps of a few schedules.",
    ["pfrl/explorers/epsilon_greedy.py", "pfrl/explorers/additive_gaussian.py",
     "pfrl/explorers/additive_ou.py"],
    [("epsilon schedules", "pfrl/explorers/epsilon_greedy.py")],
    [], ["Explorer.select_action"],
)
prop(
    "C16",
    "Value targets bootstrap correctly and never past a terminal step",
    "For every batch, each value-based agent's regression target is the n-step reward plus discount times the bootstrap value its algorithm "
    "defines (maximum, double, entropy-regularised or twin-minimum, from the target network where the algorithm says so) when the "
    "transition is not terminal, and exactly the reward (plus the algorithm's own action-gap term) when it is. The "
    "learned prediction compared with it is the value of the action actually taken.",
    ["inputs"],
    "every batch, network output, reward, discount and terminal pattern (real arithmetic)",
    "Tests train small problems to convergence and cannot see a wrong term in individual rows.",
    ["pfrl/agents/dqn.py", "pfrl/agents/double_dqn.py", "pfrl/agents/al.py", "pfrl/agents/pal.py",
     "pfrl/agents/double_pal.py", "pfrl/agents/dpp.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py",
     "pfrl/agents/soft_actor_critic.py", "pfrl/agents/iqn.py", "pfrl/agents/categorical_dqn.py"],
    [("target computation", "pfrl/agents/*.py")],
    [], ["loss of one update"],
)
prop(
    "C17",
    "Categorical projection conserves probability mass and mean",
    "For every batch of target atoms and probabilities, projecting onto the fixed support yields nonnegative "
    "probabilities with the same total mass per row, splits each atom's mass between the two neighbouring support points in "
    "proportion to proximity, and puts atoms outside the support on its end points; a target on a support point "
    "keeps all its mass there.",
    ["inputs", "configurations"],
    "every support size and range, batch, target location and probability vector (real arithmetic)",
    "Tests compare a few random batches with a reference up to tolerance.",
    ["pfrl/agents/categorical_dqn.py"],
    [("projection", "pfrl/agents/categorical_dqn.py:_apply_categorical_projection")],
    [], ["_apply_categorical_projection"],
)
prop(
    "C18",
    "On-policy returns and advantages follow their recurrences",
    "For every episode, the advantages and value targets computed for PPO and TRPO satisfy the generalised advantage recurrence "
    "with the given gamma and lambda, A2C's and A3C's returns satisfy the discounted-return recurrence cut at terminal steps and bootstrapped otherwise, and REINFORCE "
    "weights every action by the return that follows it. Every optimiser step follows exactly the documented loss of its own minibatch: "
    "PPO's clipped surrogate, value and entropy terms (advantages standardised over the whole dataset when asked), TRPO's value regression, and the policy-gradient losses of "
    "A2C, A3C and REINFORCE, with gradients cleared in between and no gradient through targets.",
    ["inputs"],
    "every episode length, reward, value and termination pattern (real arithmetic)",
    "Tests check single fixed episodes or only learning progress.",
    ["pfrl/agents/ppo.py", "pfrl/agents/trpo.py", "pfrl/agents/a2c.py", "pfrl/agents/a3c.py",
     "pfrl/agents/reinforce.py"],
    [("GAE", "pfrl/agents/ppo.py:_add_advantage_and_value_target_to_episode"),
     ("PPO update", "pfrl/agents/ppo.py:PPO._update"), ("TRPO value update", "pfrl/agents/trpo.py:TRPO._update_vf"),
     ("REINFORCE", "pfrl/agents/reinforce.py:REINFORCE.accumulate_grad")],
    [], ["update of the agents"],
)
prop(
    "C19",
    "Minibatch and sequence splitting loses and duplicates nothing",
    "For any dataset, the minibatches of an epoch schedule use every element exactly once per pass in batches of the requested size, and "
    "splitting episodes to a maximum sequence length yields non-empty consecutive pieces within the limit whose concatenation is the original; grouping them into subsets with "
    "a given number of transitions yields consecutive pieces with exactly that number each and drops only an incomplete remainder. Every transition collected enters exactly one update's dataset.",
    ["inputs", "configurations"],
    "every dataset size, batch size, number of epochs, sequence length and random order",
    "Tests use fixed sizes.",
    ["pfrl/agents/ppo.py", "pfrl/agents/trpo.py"],
    [("splitting and datasets", "pfrl/agents/ppo.py"), ("TRPO datasets", "pfrl/agents/trpo.py")],
    [], ["PPO update"],
)
prop(
    "C20",
    "Recurrent states of different environments never mix",
    "Splitting, masking and concatenating batched recurrent states are inverse to each other for every nesting of states, "
    "and resetting the states of some environments leaves every other environment's state unchanged while the reset ones "
    "become fresh. A recurrent agent therefore meets each environment's observation with exactly the state produced by that "
    "environment's own observations since its episode began (and records that state with the transition), whatever the other "
    "environments do and whether or not evaluations are run in between.",
    ["inputs", "histories"],
    "every state structure, batch size and mask",
    "Tests use fixed small structures.",
    ["pfrl/utils/recurrent.py", "pfrl/agents/dqn.py", "pfrl/agents/ppo.py", "pfrl/agents/trpo.py", "pfrl/agents/a3c.py", "pfrl/agents/acer.py"],
    [("recurrent utilities", "pfrl/utils/recurrent.py")],
    [], ["pfrl.utils.recurrent functions"],
)
prop(
    "C21",
    "Saving and loading restores every saved attribute",
    "For every agent class, loading a directory saved by an agent of the same configuration restores its networks, target networks, optimizers, "
    "temperature and observation normaliser (asynchronous agents: also the shared network), and changes nothing else; saving changes nothing. "
    "The same holds for every attribute listed as saved by a class using AttributeSavingMixin, including nested savers, absent (None) attributes "
    "and networks wrapped for data parallelism, whose files load into unwrapped ones and vice versa. A DQN snapshot also restores its counters and replay buffer; "
    "replay buffers reload the stored contents in order.",
    ["configurations", "inputs"],
    "every agent with every nesting of saved attributes",
    "Tests save and load once per agent class and compare few tensors.",
    ["pfrl/agent.py", "pfrl/agents/*.py", "pfrl/replay_buffers/replay_buffer.py", "pfrl/replay_buffers/episodic.py"],
    [("AttributeSavingMixin", "pfrl/agent.py:AttributeSavingMixin"), ("saved_attributes, load, save_snapshot", "pfrl/agents/*.py"),
     ("save, load", "pfrl/replay_buffers/*.py")],
    [], ["Agent.save", "Agent.load"],
)
prop(
    "C22",
    "Target synchronisation copies exactly as specified",
    "A hard synchronisation makes every parameter and buffer of the target equal to the source; a soft one with coefficient "
    "tau makes every floating-point entry, of any precision, (1-tau) target + tau source and every other (integer or boolean) entry equal to the source; neither changes "
    "the source. Entries are assumed not to share storage with one another or with the source; copying gradients replaces the target's gradients by copies of the source's.",
    ["inputs", "configurations"],
    "every state dictionary, value and tau",
    "Tests use one linear layer.",
    ["pfrl/utils/copy_param.py"],
    [("copy_param", "pfrl/utils/copy_param.py")],
    [], ["synchronize_parameters"],
)
prop(
    "C23",
    "Running normalisation statistics equal those of all data seen",
    "After any sequence of batches, the empirical normaliser's mean and variance equal the population mean and variance of "
    "all the samples seen up to its limit (whole batches: a batch is absorbed iff fewer than the limit were seen before it). Normalisation maps x to (x - mean) / sqrt(var + eps) "
    "with the current statistics (also after its state was loaded or copied), clipped to the threshold when one is set; without clipping the inverse undoes it exactly. "
    "The mean and std it returns are copies. PPO and TRPO feed it each training observation exactly once and never one seen in evaluation mode.",
    ["histories", "inputs"],
    "every sequence of batches of every size (real arithmetic)",
    "Tests compare a few random sequences with tolerance.",
    ["pfrl/nn/empirical_normalization.py"],
    [("streaming update", "pfrl/nn/empirical_normalization.py:EmpiricalNormalization.experience")],
    [], ["EmpiricalNormalization"],
)
prop(
    "C24",
    "Acting in evaluation mode never changes what training depends on",
    "Between entering and leaving evaluation mode, any sequence of act and observe calls of any agent (DQN family, IQN, DDPG, TD3, SAC, A2C, A3C, "
    "ACER, PPO, TRPO, REINFORCE, the asynchronous Q-function actor) leaves everything training depends on as it was: replay memory, step counters, "
    "last training observation and action, training recurrent states, learned parameters and network buffers, optimizer state, observation "
    "statistics. Networks run in evaluation mode and every module is back in the mode it had afterwards, even after an exception; no exploration "
    "is applied, the action is the greedy one or comes from the policy (its mode where the agent acts deterministically); leaving eval_mode "
    "restores the training flag it found, even after an exception.",
    ["histories", "configurations"],
    "every sequence of evaluation calls at every point of training",
    "Tests check returned actions only.",
    ["pfrl/agents/*.py", "pfrl/agent.py", "pfrl/utils/contexts.py"],
    [("training flag", "pfrl/agents/*.py"), ("evaluating", "pfrl/utils/contexts.py")],
    [], ["Agent.act", "Agent.observe", "Agent.batch_act", "Agent.batch_observe", "Agent.eval_mode", "evaluating"],
)
prop(
    "C25",
    "A TRPO policy update never leaves the trust region",
    "After every update the policy's parameters are either exactly what they were or the old ones plus s times the computed full step with 0 < s <= 1 (halved at "
    "each backtrack, at most the configured number of times), and then, on the whole dataset and in evaluation mode, the mean KL divergence from the old to the new policy is finite and "
    "at most max_kl and the surrogate objective (mean of probability ratio times advantage, plus entropy_coef times the mean entropy) is finite and not lower than before. "
    "The full step is the conjugate-gradient solution for the damped Fisher matrix and the gradient of that objective, scaled so that the quadratic model of the KL divergence "
    "equals max_kl. Advantages are standardised over the dataset exactly when asked.",
    ["inputs", "histories", "configurations"],
    "every dataset, policy, step, KL bound, number of backtracks and evaluation outcome, including non-finite ones (real arithmetic)",
    "Tests only look at learning progress on a toy environment; the acceptance conditions quantify over all candidate steps.",
    ["pfrl/agents/trpo.py", "pfrl/utils/conjugate_gradient.py"],
    [("line search", "pfrl/agents/trpo.py:TRPO._line_search"),
     ("step", "pfrl/agents/trpo.py:TRPO._compute_kl_constrained_step"),
     ("objective", "pfrl/agents/trpo.py:TRPO._update_policy")],
    [], ["TRPO.batch_observe", "TRPO.policy parameters"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
