property = "C18"
needs = "A3C with keep_loss_scale_same on a sequence cut by a terminal state before t_max steps"
breaks = "the value loss of a truncated sequence is not rescaled although the policy loss is"
edits = [("pfrl/agents/a3c.py", "            v_loss_factor *= factor\n", "            v_loss_factor = self.v_loss_coef * min(factor, 1.0)\n")]
demo = '''
import numpy as np
import torch
import pfrl
from pfrl.agents import A3C


def grads(keep, t_max):
    torch.manual_seed(0)
    m = pfrl.nn.Branched(torch.nn.Sequential(torch.nn.Linear(2, 3), pfrl.policies.SoftmaxCategoricalHead()), torch.nn.Linear(2, 1))
    m.share_memory()
    opt = torch.optim.SGD(m.parameters(), lr=0.0)
    a = A3C(m, opt, t_max=t_max, gamma=0.9, keep_loss_scale_same=keep, max_grad_norm=None)
    for t in range(2):
        a.act(np.array([t, 1.0], np.float32))
        a.observe(np.array([t + 1, 1.0], np.float32), 1.0, t == 1, False)
    return [p.grad.clone() for p in a.shared_model.child_modules[1].parameters()]


for g, h in zip(grads(False, 2), grads(True, 6)):
    assert torch.allclose(3 * g, h, rtol=1e-4), (g, h)
'''
