"""Small real networks and batches shared by the replay harnesses of the agents."""
import copy

import numpy as np
import torch
from torch import nn

CPU = torch.device("cpu")
OBS = 3


def rand_batch(h, B, act, n_max=3, gamma=0.9, weights=False):
    """[[transition]] with n-step entries; reference columns."""
    exps, cols = [], []
    for e in range(B):
        n = h.rng.choice([1, 1, 2, n_max])
        term = h.rng.random() < 0.4
        ts = []
        for i in range(n):
            ts.append(dict(
                state=np.asarray([h.rng.uniform(-1, 1) for _ in range(OBS)], dtype=np.float32),
                next_state=np.asarray([h.rng.uniform(-1, 1) for _ in range(OBS)], dtype=np.float32),
                action=act(), reward=h.rng.choice([0.0, 1.0, -2.0, h.rng.uniform(-3, 3)]),
                next_action=None, is_state_terminal=bool(term and i == n - 1)))
        if weights:
            ts[0]["weight"] = h.rng.uniform(0.1, 1.0)
        exps.append(ts)
        cols.append(dict(
            s=torch.as_tensor(ts[0]["state"]), a=ts[0]["action"], ns=torch.as_tensor(ts[-1]["next_state"]),
            r=sum(gamma ** i * t["reward"] for i, t in enumerate(ts)), d=gamma ** n, term=term,
            w=ts[0].get("weight", 1.0)))
    return exps, cols


def mlp(h, n_in, n_out, hidden=4):
    torch.manual_seed(h.rng.randrange(10 ** 6))
    m = nn.Sequential(nn.Linear(n_in, hidden), nn.Tanh(), nn.Linear(hidden, n_out))
    with torch.no_grad():
        for q in m.parameters():
            q.mul_(2.0)
    return m


def scramble(h, m):
    with torch.no_grad():
        for q in m.parameters():
            q.add_(torch.as_tensor(np.asarray([h.rng.gauss(0, 0.7) for _ in range(q.numel())], dtype=np.float32)).reshape(q.shape))


def sgd(m, lr=0.05):
    return torch.optim.SGD(m.parameters(), lr=lr)


def ref_step(net, loss, lr=0.05, extra=(), clip=None):
    """parameters of net after one plain gradient step on loss"""
    ps = list(net.parameters())
    gs = torch.autograd.grad(loss, ps, allow_unused=True, retain_graph=True)
    if clip is not None:
        norm = sum(float((g ** 2).sum()) for g in gs if g is not None) ** 0.5
        if norm > clip:
            gs = [None if g is None else g * (clip / norm) for g in gs]
    return [(q - lr * (g if g is not None else 0)).detach().clone() for q, g in zip(ps, gs)]


def check_step(h, net, want, what):
    for i, (q, w) in enumerate(zip(net.parameters(), want)):
        h.close(q.detach().numpy(), w.numpy(), what, 2e-4, param=i)


def clone(net):
    return copy.deepcopy(net)


class PairQ(nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, x):
        return self.net(torch.cat(x, dim=-1))


class Det(torch.distributions.Distribution):
    """a distribution whose sample is its location (so that the reference can repeat it)"""
    arg_constraints = {}
    has_rsample = True

    def __init__(self, loc):
        self.loc = loc
        super().__init__(validate_args=False)

    def rsample(self, sample_shape=()):
        return self.loc

    def sample(self, sample_shape=()):
        return self.loc.detach()

    def log_prob(self, a):
        return -((a - 0.3) ** 2).sum(-1) - (self.loc ** 2).sum(-1) * 0.5

    def entropy(self):
        return self.loc.sum(-1)


class Policy(nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, x):
        return Det(torch.tanh(self.net(x)))


class DiscreteQ(nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, x):
        from pfrl.action_value import DiscreteActionValue

        return DiscreteActionValue(self.net(x))


def recording_buffer(out):
    """a prioritized buffer that records the errors it is given"""
    import pfrl

    class Rec(pfrl.replay_buffers.PrioritizedReplayBuffer):
        def update_errors(self, errors):
            out.append(list(errors))

    return Rec(100)
