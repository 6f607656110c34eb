"""C17 replay: categorical projection and one update of the categorical agents against a per-atom reference."""
import numpy as np
import torch
from agents_util import OBS, check_step, clone, mlp, rand_batch, recording_buffer, ref_step, scramble, sgd
from torch import nn

LR = 0.05


def project(y, probs, z):
    """one row: mass of every atom split between its neighbours on the support"""
    n = len(z)
    out = np.zeros(n)
    dz = (z[-1] - z[0]) / (n - 1)
    for v, pr in zip(y, probs):
        v = min(max(v, z[0]), z[-1])
        pos = (v - z[0]) / dz
        if abs(pos - round(pos)) < 1e-5:
            out[int(round(pos))] += pr
            continue
        k = int(np.floor(pos))
        k = min(max(k, 0), n - 2)
        f = pos - k
        out[k] += pr * (1 - f)
        out[k + 1] += pr * f
    return out


def part_projection(h):
    from pfrl.agents.categorical_dqn import _apply_categorical_projection as proj

    h.rule = "random supports (2-51 atoms), rewards/discounts in and out of range, on-support atoms"
    for it in range(h.n(400)):
        n = h.rng.choice([2, 3, 5, 11, 51])
        lo = h.rng.choice([-10.0, 0.0, -1.0, 2.0])
        hi = lo + h.rng.choice([1.0, 5.0, 20.0])
        z = np.linspace(lo, hi, n, dtype=np.float32)
        B = h.rng.choice([1, 2, 5])
        rows, ps = [], []
        for _ in range(B):
            kind = h.rng.choice(["shift", "point", "grid", "wild"])
            if kind == "shift":
                y = h.rng.uniform(-3, 3) + h.rng.choice([0.9, 0.99, 1.0]) * z
            elif kind == "point":
                y = np.full(n, h.rng.choice([float(h.rng.choice(z)), h.rng.uniform(lo - 5, hi + 5)]))
            elif kind == "grid":
                y = np.asarray([h.rng.choice(z) for _ in range(n)])
            else:
                y = np.asarray([h.rng.uniform(lo - 5, hi + 5) for _ in range(n)])
            pr = np.asarray([h.rng.random() ** 3 for _ in range(n)])
            rows.append(y.astype(np.float32))
            ps.append((pr / pr.sum()).astype(np.float32))
        y, pr = np.stack(rows), np.stack(ps)
        h.case((it, n, lo, hi, y.tolist(), pr.tolist()))
        got = proj(torch.as_tensor(y), torch.as_tensor(pr), torch.as_tensor(z)).numpy()
        h.eq(got.shape, (B, n), "shape of the projection")
        h.check(bool((got >= -1e-7).all()), "negative probability")
        h.close(got.sum(1), pr.sum(1), "mass of a row", 1e-4)
        # mean is preserved up to clipping
        h.close((got * z).sum(1), (pr * np.clip(y, lo, hi)).sum(1), "mean of a row", 2e-3 * max(1.0, hi - lo))
        for b in range(B):
            h.close(got[b], project(y[b].astype(float), pr[b], z.astype(float)), "projection of a row", 2e-3, row=b)


class CatQ(nn.Module):
    def __init__(self, net, A, z):
        super().__init__()
        self.net, self.A, self.z = net, A, z

    def dist(self, s):
        return torch.softmax(self.net(s).reshape(-1, self.A, len(self.z)), 2)

    def forward(self, s):
        from pfrl.action_value import DistributionalDiscreteActionValue

        return DistributionalDiscreteActionValue(self.dist(s), self.z)


def part_agents(h):
    import pfrl
    from pfrl import agents

    for it in range(h.n(40)):
        for name in ("CategoricalDQN", "CategoricalDoubleDQN"):
            B, A, n = h.rng.choice([1, 2, 4]), h.rng.choice([2, 3]), h.rng.choice([2, 5, 8])
            z = torch.linspace(-2, 2, n)
            gamma = h.rng.choice([0.5, 0.9, 1.0])
            acc, weighted = h.rng.choice(["mean", "sum"]), h.rng.random() < 0.5
            m = CatQ(mlp(h, OBS, A * n), A, z)
            out = []
            ag = getattr(agents, name)(
                m, sgd(m, LR), recording_buffer(out), gamma, pfrl.explorers.ConstantEpsilonGreedy(0.1, lambda: 0),
                batch_accumulator=acc, replay_start_size=1, minibatch_size=1)
            scramble(h, ag.target_model)
            exps, cols = rand_batch(h, B, lambda: h.rng.randrange(A), gamma=gamma, weights=weighted)
            h.case((name, it, B, n, gamma, acc, weighted, [(c["r"], c["d"], c["term"]) for c in cols]))
            net, tnet = clone(m), clone(ag.target_model)
            loss, errs = 0.0, []
            for c in cols:
                with torch.no_grad():
                    td = tnet.dist(c["ns"][None])[0]
                    sel = net.dist(c["ns"][None])[0] if "Double" in name else td
                    g = int((sel * z).sum(1).argmax())
                y = c["r"] + (0.0 if c["term"] else c["d"]) * z.numpy().astype(float)
                t = torch.as_tensor(project(y, td[g].numpy(), z.numpy().astype(float)), dtype=torch.float32)
                pr = net.dist(c["s"][None])[0][int(c["a"])]
                l = -(t * torch.log(torch.clamp(pr, 1e-10, 1.0))).sum()
                errs.append(float(l))
                loss = loss + c["w"] * l
            if acc == "mean":
                loss = loss / B
            want = ref_step(net, loss, LR)
            ag.update(exps)
            for q, w in zip(m.parameters(), want):
                h.close(q.detach().numpy(), w.numpy(), "%s: parameters after one update" % name, 2e-3)
            h.eq(len(out), int(weighted), "%s: errors handed back once per weighted update" % name)
            if weighted:
                h.close(np.asarray(out[0]).ravel(), errs, "%s: errors handed back" % name, 5e-3)


PARTS = [part_projection, part_agents]
