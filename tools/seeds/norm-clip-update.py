property = "C23"
needs = "a clipping threshold and a batch that is normalised and learned from in the same call"
breaks = "while the statistics are being updated the normalised values are not clipped"
edits = [("pfrl/nn/empirical_normalization.py", "        if update:\n            self.experience(x)\n\n        normalized = (x - self._mean) * self._std_inverse\n", "        if update:\n            self.experience(x)\n            return (x - self._mean) * self._std_inverse\n\n        normalized = (x - self._mean) * self._std_inverse\n")]
demo = '''
import torch
from pfrl.nn import EmpiricalNormalization
n = EmpiricalNormalization(1, clip_threshold=1.0)
x = torch.tensor([[0.0]] * 20 + [[100.0]])
assert float(n(x).abs().max()) <= 1.0
assert float(n(x, update=False).abs().max()) <= 1.0
'''
