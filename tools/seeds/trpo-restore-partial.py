property = "C25"
needs = "a line search in which every candidate step is rejected"
breaks = "the policy keeps the parameters of the last rejected candidate instead of getting its old ones back"
edits = [("pfrl/agents/trpo.py", "                    flat_params, sizes=policy_params_sizes, shapes=policy_params_shapes\n", "                    flat_params + step_size * full_step,\n                    sizes=policy_params_sizes,\n                    shapes=policy_params_shapes,\n")]
demo = '''
import numpy as np
import torch
import pfrl
from pfrl.agents import TRPO

torch.manual_seed(0)
pol = torch.nn.Sequential(torch.nn.Linear(2, 3), pfrl.policies.SoftmaxCategoricalHead())
vf = torch.nn.Linear(2, 1)
a = TRPO(pol, vf, torch.optim.SGD(vf.parameters(), lr=0.01), update_interval=20, max_kl=0.01, line_search_max_backtrack=3, entropy_coef=0)
old = [p.detach().clone() for p in pol.parameters()]
real = a._compute_gain
n = [0]


def gain(*args, **kw):
    n[0] += 1
    g = real(*args, **kw)
    return g if n[0] == 1 else g - 1e3  # every candidate looks worse


a._compute_gain = gain
rng = np.random.RandomState(0)
for t in range(20):
    a.act(rng.randn(2).astype(np.float32))
    a.observe(rng.randn(2).astype(np.float32), float(rng.randn()), t % 7 == 6, False)
assert n[0] == 5, n
for p, o in zip(pol.parameters(), old):
    assert torch.allclose(p, o, atol=1e-7), (p, o)
'''
