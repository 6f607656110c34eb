property = "C14"
needs = "an episode ending inside the skipped frames because of a needs_reset request rather than done"
breaks = "frame skipping goes on stepping past a requested reset"
edits = [("pfrl/wrappers/atari_wrappers.py", """            total_reward += reward
            if done or info.get("needs_reset", False):
                break
""", """            total_reward += reward
            if done:
                break
""")]
demo = '''
import gym
import numpy as np
from pfrl.wrappers.atari_wrappers import MaxAndSkipEnv


class E(gym.Env):
    observation_space = gym.spaces.Box(0, 255, (1,), np.uint8)
    action_space = gym.spaces.Discrete(2)
    t = 0

    def reset(self):
        self.t = 0
        return np.zeros(1, np.uint8)

    def step(self, a):
        self.t += 1
        return np.full(1, self.t, np.uint8), 1.0, False, {"needs_reset": self.t == 2}


e = E()
w = MaxAndSkipEnv(e, skip=4)
w.reset()
o, r, d, info = w.step(0)
assert info.get("needs_reset"), info
assert r == 2.0 and e.t == 2, (r, e.t)
'''
