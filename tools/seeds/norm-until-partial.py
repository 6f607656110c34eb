property = "C23"
needs = "a limit on the number of samples that is not a multiple of the batch size"
breaks = "a batch that would cross the limit is dropped instead of absorbed"
edits = [("pfrl/nn/empirical_normalization.py", "        self.count += count_x\n", "        if self.until is not None and self.count + count_x > self.until:\n            return\n\n        self.count += count_x\n")]
demo = '''
import torch
from pfrl.nn import EmpiricalNormalization
n = EmpiricalNormalization(1, until=5)
xs = [torch.randn(3, 1) for _ in range(3)]
for x in xs:
    n.experience(x)
seen = torch.cat(xs[:2])
assert int(n.count) == 6, n.count
assert torch.allclose(n.mean, seen.mean(0), atol=1e-6)
'''
