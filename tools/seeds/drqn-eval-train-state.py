property = "C24"
needs = "a recurrent DQN evaluated in the middle of a training episode"
breaks = "the end of an evaluation episode also resets the recurrent state of the training episode in progress"
edits = [("pfrl/agents/dqn.py", """        if self.recurrent:
            # Reset recurrent states when episodes end
            self.test_recurrent_states = (
""", """        if self.recurrent:
            # Reset recurrent states when episodes end
            if any(batch_done) and self.train_recurrent_states is not None:
                self.train_recurrent_states = None
            self.test_recurrent_states = (
""")]
demo = '''
import numpy as np
import torch
import pfrl
from pfrl.agents import DQN

torch.manual_seed(0)
q = pfrl.nn.RecurrentSequential(torch.nn.LSTM(2, 3), torch.nn.Linear(3, 2), pfrl.q_functions.DiscreteActionValueHead())
rb = pfrl.replay_buffers.EpisodicReplayBuffer(100)
a = DQN(q, torch.optim.SGD(q.parameters(), lr=0.1), rb, 0.9,
        pfrl.explorers.ConstantEpsilonGreedy(0.0, lambda: 0), replay_start_size=50, minibatch_size=2, recurrent=True)
o = np.ones(2, dtype=np.float32)
for t in range(3):
    a.act(o)
    a.observe(o, 0.0, False, False)
flat = lambda s: [y for x in s for y in flat(x)] if isinstance(s, (tuple, list)) else [s]
before = [x.clone() for x in flat(a.train_recurrent_states)]
with a.eval_mode():
    for t in range(3):
        a.act(o)
        a.observe(o, 0.0, t == 2, False)
assert a.train_recurrent_states is not None, "training state lost"
assert all(torch.equal(x, y) for x, y in zip(before, flat(a.train_recurrent_states)))
'''
