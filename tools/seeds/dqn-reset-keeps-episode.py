property = "C09"
needs = "an episode that is cut by a reset without being done, with n-step returns or an episodic buffer"
breaks = "the replay buffer is not told that the episode ended, so the next episode's transitions continue the old window"
edits = [("pfrl/agents/dqn.py", """                    self.batch_last_action[i] = None
                    self.replay_buffer.stop_current_episode(env_id=i)
""", """                    self.batch_last_action[i] = None
                    if batch_done[i]:
                        self.replay_buffer.stop_current_episode(env_id=i)
""")]
demo = '''
import numpy as np
import torch
import pfrl
from pfrl.agents import DQN

q = torch.nn.Sequential(torch.nn.Linear(2, 2), pfrl.q_functions.DiscreteActionValueHead())
rb = pfrl.replay_buffers.ReplayBuffer(100, num_steps=3)
a = DQN(q, torch.optim.SGD(q.parameters(), lr=0.1), rb, 0.9,
        pfrl.explorers.ConstantEpsilonGreedy(0.0, lambda: 0), replay_start_size=50, minibatch_size=2)
k = 0
for ep in range(3):
    for t in range(2):
        a.act(np.array([ep, t], dtype=np.float32))
        a.observe(np.array([ep, t + 1], dtype=np.float32), float(ep), False, t == 1)
for w in list(rb.memory):
    assert len({e["reward"] for e in w}) == 1, [e["reward"] for e in w]
assert len(rb) == 6, len(rb)
'''
