"""C25 replay: real TRPO updates on random data; the policy before and after is compared with
the trust region and with a reference natural-gradient direction. conjugate_gradient against
the exact Krylov solution."""
import copy

import numpy as np
import torch
from agents_util import OBS, mlp, sgd
from c18 import CatPolicy, drive, gae
from torch import nn
from torch.distributions import Categorical, Independent, Normal, kl_divergence

D = torch.float64


def part_cg(h):
    from pfrl.utils import conjugate_gradient

    h.rule = "random symmetric positive definite systems; random on-policy datasets, KL bounds, dampings, backtracking limits; feed-forward and recurrent policies"
    for it in range(h.n(60)):
        d = h.rng.randint(1, 6)
        k = h.rng.randint(0, d)
        rs = np.random.RandomState(h.rng.randrange(10 ** 6))
        B = rs.randn(d, d)
        A = B @ B.T + np.eye(d) * h.rng.choice([0.5, 1.0])
        b = rs.randn(d)
        h.case(("cg", it, d, k))
        x = conjugate_gradient(lambda v: torch.as_tensor(A) @ v, torch.as_tensor(b), max_iter=k)
        # minimiser of the A-norm error over span(b, Ab, ..)
        K = np.stack([np.linalg.matrix_power(A, i) @ b for i in range(k)], 1) if k else np.zeros((d, 0))
        if k:
            q, _ = np.linalg.qr(K)
            want = q @ np.linalg.solve(q.T @ A @ q, q.T @ b)
        else:
            want = np.zeros(d)
        h.close(x.numpy(), want, "conjugate gradient iterate", 1e-4)


class Gauss(nn.Module):
    def __init__(self, m):
        super().__init__()
        self.m = m
        self.s = nn.Parameter(torch.zeros(2))

    def forward(self, x):
        return Independent(Normal(self.m(x), torch.exp(self.s) + 0.1), 1)


class Head(nn.Module):
    def forward(self, x):
        return Categorical(logits=x)


def flat(m):
    return torch.cat([q.detach().reshape(-1) for q in m.parameters()])


def dists(pol, eps, recurrent):
    """action distribution of every transition, episode by episode"""
    out = []
    for ep in eps:
        if not recurrent:
            out += [pol(torch.as_tensor(s[0], dtype=D)[None]) for s in ep]
        else:
            rs = None
            for s in ep:
                from pfrl.utils.recurrent import one_step_forward

                d, rs = one_step_forward(pol, torch.as_tensor(s[0], dtype=D)[None], rs)
                out.append(d)
    return out


def part_update(h):
    import pfrl
    from pfrl.agents import TRPO

    kept = moved = 0
    for it in range(h.n(60)):
        torch.manual_seed(h.rng.randrange(10 ** 6))
        kind = h.rng.choice(["cat", "cat", "gauss", "rnn"])
        n_envs, steps = h.rng.choice([1, 2]), h.rng.choice([4, 8])
        gamma, lambd = h.rng.choice([0.5, 0.9]), h.rng.choice([0.0, 0.95])
        N = n_envs * steps
        rec = kind == "rnn"
        if kind == "cat":
            pol, vf = CatPolicy(mlp(h, OBS, 3)), mlp(h, OBS, 1)
        elif kind == "gauss":
            pol, vf = Gauss(mlp(h, OBS, 2)), mlp(h, OBS, 1)
        else:
            pol = pfrl.nn.RecurrentSequential(nn.GRU(OBS, 3), nn.Linear(3, 3), Head())
            vf = pfrl.nn.RecurrentSequential(nn.GRU(OBS, 3), nn.Linear(3, 1))
        pol, vf = pol.double(), vf.double()
        mk = h.rng.choice([1e-3, 1e-2, 0.1, 0.5])
        ec = h.rng.choice([0.0, 0.01, 0.1])
        damp = h.rng.choice([1e-2, 0.1])
        bt = h.rng.choice([0, 0, 1, 10])
        std = h.rng.random() < 0.7
        used = []

        def batch(xs, device, phi):
            used.append(len(xs))
            return torch.as_tensor(np.stack([phi(x) for x in xs])).to(D)

        ag = TRPO(pol, vf, sgd(vf, 0.05), gamma=gamma, lambd=lambd, update_interval=N, vf_batch_size=max(1, N // 2), vf_epochs=1,
                  max_kl=mk, entropy_coef=ec, conjugate_gradient_damping=damp, line_search_max_backtrack=bt,
                  conjugate_gradient_max_iter=h.rng.choice([3, 10, 40]), standardize_advantages=std, recurrent=rec,
                  batch_states=batch)
        h.case(("update", it, kind, n_envs, steps, mk, ec, damp, bt, std))
        eps, last = drive(h, ag, n_envs, steps)
        old, oldv = copy.deepcopy(pol), copy.deepcopy(vf)
        ag.batch_observe(*last)
        o, n = flat(old), flat(pol)
        ctx = dict(kind=kind, max_kl=mk, max_backtrack=bt)
        if torch.equal(o, n):
            kept += 1
            continue
        moved += 1
        with torch.no_grad():
            do, dn = dists(old, eps, rec), dists(pol, eps, rec)
            kl = float(torch.stack([kl_divergence(a, b)[0] for a, b in zip(do, dn)]).mean())
            if rec:
                adv = None
            else:
                V = lambda s: oldv(torch.as_tensor(s, dtype=D)[None])[0, 0]  # noqa
                adv = np.asarray([a for ep in eps for a in gae(ep, V, gamma, lambd)])
                if std:
                    adv = (adv - adv.mean()) / (adv.std() + 1e-8)
        h.check(np.isfinite(kl) and kl <= mk * (1 + 1e-3) + 1e-7, "KL divergence of an accepted step exceeds max_kl", kl=kl, **ctx)
        if adv is None:
            continue
        acts = [torch.as_tensor(np.asarray(s[1]))[None] for ep in eps for s in ep]

        def gain(ds, base):
            r = [torch.exp(d.log_prob(a) - b.log_prob(a).detach())[0] * float(x) for d, b, a, x in zip(ds, base, acts, adv)]
            return torch.stack(r).mean() + ec * torch.stack([d.entropy()[0] for d in ds]).mean()

        with torch.no_grad():
            g0, g1 = float(gain(do, do)), float(gain(dn, do))
        h.check(np.isfinite(g1) and g1 >= g0 - 1e-5, "surrogate objective decreased by an accepted step", before=g0, after=g1, **ctx)
        if ag.conjugate_gradient_max_iter == 40:
            # direction: (F + damping) x = gradient of the objective
            ps = list(old.parameters())
            do = dists(old, eps, False)
            g = torch.cat([q.reshape(-1) for q in torch.autograd.grad(gain(do, do), ps)])
            with torch.no_grad():
                base = dists(old, eps, False)
            do = dists(old, eps, False)
            klm = torch.stack([kl_divergence(b, a)[0] for b, a in zip(base, do)]).mean()
            gk = torch.cat([q.reshape(-1) for q in torch.autograd.grad(klm, ps, create_graph=True)])
            F = torch.stack([torch.cat([q.reshape(-1) for q in torch.autograd.grad(gk[i], ps, retain_graph=True)]) for i in range(len(gk))])
            F = F + damp * torch.eye(len(gk), dtype=D)
            x = torch.linalg.solve(F, g)
            full = x * (2 * mk / (float(x @ F @ x) + 1e-8)) ** 0.5
            s = float((n - o) @ full / (full @ full))
            h.check(0 < s <= 1 + 1e-3, "step is at most the full step", s=s, **ctx)
            err = float((n - o - s * full).norm() / (s * full).norm())
            h.check(err < 2e-2, "step is along the natural gradient", error=err, **ctx)
            j = np.log2(1 / s)
            h.check(j < bt + 0.1, "at most the configured number of backtracks", s=s, **ctx)
        h.check(sorted(set(used)) != [] and max(used) >= N, "the given batch_states function batches the whole dataset", used=used, **ctx)
    h.check(moved > 0, "no update was ever accepted", kept=kept)


PARTS = [part_cg, part_update]
