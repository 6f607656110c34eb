property = "C15"
needs = "an Ornstein-Uhlenbeck explorer that is asked more than once at step zero"
breaks = "the noise process does not move at step zero, so the same noise is added again"
edits = [("pfrl/explorers/additive_ou.py", "        else:\n            self.evolve()\n", "        elif t > 0:\n            self.evolve()\n")]
demo = '''
import numpy as np
from pfrl.explorers import AdditiveOU
np.random.seed(0)
e = AdditiveOU(sigma=0.3)
a, b = [e.select_action(0, lambda: np.zeros(3, dtype=np.float32)).copy() for _ in range(2)]
assert not np.allclose(a, b), (a, b)
'''
