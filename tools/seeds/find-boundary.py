property = "C03"
needs = "a lookup position that falls exactly on the boundary of two intervals"
breaks = "a position equal to the left subtree's sum selects the left subtree, so an entry whose priority was zeroed can be chosen again"
edits = [("pfrl/collections/prioritized.py", "        if pos < left_value:\n", "        if pos <= left_value:\n")]
demo = '''
import numpy as np
from pfrl.collections.prioritized import SumTreeQueue
real = np.random.uniform
np.random.uniform = lambda low=0.0, high=1.0, size=None: low  # the smallest draw
try:
    q = SumTreeQueue()
    for v in [1.0, 2.0, 4.0, 8.0]:
        q.append(v)
    ixs, vals = q.prioritized_sample(4, remove=True)
finally:
    np.random.uniform = real
assert sorted(ixs) == [0, 1, 2, 3], ixs
assert all(v > 0 for v in vals), vals
'''
