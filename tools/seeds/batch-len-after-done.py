property = "C10"
needs = "batch training with max_episode_len where an environment first finishes on its own and a later episode runs into the limit"
breaks = "the length of an episode is cleared only after a reset, so after a natural end the next episode is cut too early or never cut"
edits = [("pfrl/experiments/train_agent_batch.py", "            episode_len[end] = 0\n", "            episode_len[resets] = 0\n")]
demo = '''
import tempfile
import numpy as np
import pfrl
from pfrl.experiments.train_agent_batch import train_agent_batch


class Env(pfrl.env.VectorEnv):
    """environment 0 ends by itself after 2 steps in its first episode only; nothing else ever ends"""
    num_envs = 2
    t = [0, 0]
    ep = [0, 0]
    starts = []

    def reset(self, mask=None):
        mask = [False] * 2 if mask is None else mask
        for i in range(2):
            if not mask[i]:
                self.starts.append((i, self.ep[i], self.t[i]))
                self.t[i] = 0
                self.ep[i] += 1
        return [0, 0]

    def step(self, actions):
        self.t = [x + 1 for x in self.t]
        done = [self.ep[0] == 1 and self.t[0] == 2, False]
        return [0, 0], [0.0, 0.0], done, [{}, {}]

    def seed(self, s):
        pass

    def close(self):
        pass


class Agent:
    def batch_act(self, o):
        return [0, 0]

    def batch_observe(self, o, r, d, reset):
        pass

    def get_statistics(self):
        return []

    def save(self, d):
        pass


with tempfile.TemporaryDirectory() as d:
    env = Env()
    train_agent_batch(Agent(), env, steps=40, outdir=d, max_episode_len=5)
# (environment, episode that ended, its length)
ended = [x for x in env.starts if x[1] > 0]
for i, ep, n in ended:
    assert n == (2 if (i, ep) == (0, 1) else 5), ended
assert len([x for x in ended if x[0] == 0]) >= 3, ended
'''
