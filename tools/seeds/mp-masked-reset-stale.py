property = "C13"
needs = "two masked resets in a row of a multiprocess vector environment: one that resets an environment and one that keeps it"
breaks = "the observation of an environment reset by a masked reset is not remembered, so the next masked reset returns its last step observation"
edits = [("pfrl/envs/multiprocess_vector_env.py", "        self.last_obs = obs\n        return obs\n", "        if not np.any(mask):\n            self.last_obs = obs\n        return obs\n")]
demo = '''
import gym
import numpy as np
from pfrl.envs import MultiprocessVectorEnv


class E(gym.Env):
    observation_space = gym.spaces.Discrete(10000)
    action_space = gym.spaces.Discrete(2)
    ep = t = 0

    def reset(self):
        self.ep, self.t = self.ep + 1, 0
        return self.ep * 100

    def step(self, a):
        self.t += 1
        return self.ep * 100 + self.t, 0.0, False, {}


env = MultiprocessVectorEnv([E, E])
try:
    env.reset()
    env.step([0, 0])
    a = list(env.reset(np.array([False, True])))
    b = list(env.reset(np.array([True, True])))
finally:
    env.close()
assert a == [200, 101], a
assert b == [200, 101], b
'''
