property = "C02"
needs = "random draws that use up the spare half of the draws in the repair loop"
breaks = "when the spare draws are used up the last candidate is accepted without checking it, so an index can repeat"
edits = [("pfrl/utils/random.py",
"""                x = result[i] = result[j]
                j += 1
                if j == 2 * k:
                    # This is slow, but it rarely happens.
                    result[k:] = np.random.choice(n, k)
                    j = k
""",
"""                if j == 2 * k:
                    # All spares are used up. It rarely happens.
                    x = result[i] = np.random.choice(n)
                    break
                x = result[i] = result[j]
                j += 1
""")]
demo = '''
import numpy as np
from pfrl.utils.random import sample_n_k
np.random.seed(0)
for _ in range(100000):
    s = sample_n_k(7, 2)
    assert len(set(int(i) for i in s)) == 2, s
'''
