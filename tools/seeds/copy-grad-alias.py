property = "C22"
needs = "the source's gradients are changed in place (zeroed, clipped) after they were copied"
breaks = "the target shares its gradient tensors with the source instead of holding copies"
edits = [("pfrl/utils/copy_param.py", "            target_param.grad = source_param.grad.clone()\n", "            target_param.grad = source_param.grad.detach()\n")]
demo = '''
import torch
from pfrl.utils.copy_param import copy_grad
a, b = torch.nn.Linear(2, 2), torch.nn.Linear(2, 2)
b(torch.ones(1, 2)).sum().backward()
copy_grad(target_link=a, source_link=b)
want = [p.grad.clone() for p in b.parameters()]
for p in b.parameters():
    p.grad.zero_()
for p, w in zip(a.parameters(), want):
    assert torch.equal(p.grad, w), (p.grad, w)
'''
