property = "C16"
needs = "DoublePAL after the online and target networks diverged, on a transition where the next state's advantage is the larger one"
breaks = "the persistent-advantage term of the next state is taken from the online network instead of the target network"
edits = [("pfrl/agents/double_pal.py", "                target_next_qout.compute_advantage(batch_actions), (batch_size,)\n", "                next_qout.compute_advantage(batch_actions), (batch_size,)\n")]
demo = '''
import torch
import pfrl
from pfrl.agents import DoublePAL

torch.manual_seed(0)
q = torch.nn.Sequential(torch.nn.Linear(2, 3), pfrl.q_functions.DiscreteActionValueHead())
a = DoublePAL(q, torch.optim.SGD(q.parameters(), lr=0.1), pfrl.replay_buffers.ReplayBuffer(100), 0.9,
              pfrl.explorers.ConstantEpsilonGreedy(0.0, lambda: 0), replay_start_size=50, alpha=0.7)
with torch.no_grad():
    for p in a.target_model.parameters():
        p.copy_(torch.randn(p.shape))
s, ns = torch.randn(64, 2), torch.randn(64, 2)
act = torch.randint(0, 3, (64,))
e = dict(state=s, next_state=ns, action=act, reward=torch.randn(64), is_state_terminal=torch.zeros(64), discount=torch.full((64,), 0.9))
_, t = a._compute_y_and_t(e)
lin = a.target_model[0]
row = torch.arange(64)
with torch.no_grad():
    tq, tn, on = lin(s), lin(ns), a.model[0](ns)
    want = e["reward"] + 0.9 * tn[row, on.argmax(1)] + 0.7 * torch.max(tq[row, act] - tq.max(1)[0], tn[row, act] - tn.max(1)[0])
assert torch.allclose(t.reshape(-1), want, atol=1e-5), (t.reshape(-1) - want).abs().max()
'''
