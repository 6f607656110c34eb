property = "C19"
needs = "a minibatch size that does not divide the number of transitions, and more than one epoch"
breaks = "the rest of an epoch waits behind the next one, so within the first epochs some transitions are used twice before others are used once"
edits = [("pfrl/agents/ppo.py", "            buf = random.sample(dataset, k=len(dataset)) + buf\n", "            buf = buf + random.sample(dataset, k=len(dataset))\n")]
demo = '''
import collections
import random
from pfrl.agents import ppo

for seed in range(50):
    random.seed(seed)
    data = list(range(5))
    used = collections.Counter({i: 0 for i in data})
    for b in ppo._yield_minibatches(data, 3, 4):
        used.update(b)
        assert max(used.values()) - min(used.values()) <= 1, (seed, used)
'''
