"""C19 replay: splitting functions, and which transitions PPO/TRPO updates really use."""
import random

import numpy as np
import torch
from torch import nn


def part_limit(h):
    from pfrl.agents import ppo

    f = getattr(ppo, "_limit_sequence_length", None)
    if f is None:
        return
    for it in range(h.n(400)):
        k, ml = h.rng.randint(0, 5), h.rng.randint(1, 7)
        flat, seqs = [], []
        for i in range(k):
            s = [object() for _ in range(h.rng.choice([1, 2, ml, ml + 1, 2 * ml, 2 * ml + 1, h.rng.randint(1, 20)]))]
            seqs.append(s)
            flat += s
        copy = [list(s) for s in seqs]
        h.case(("limit", ml, tuple(len(s) for s in seqs)))
        r = f(seqs, ml)
        ctx = dict(max_len=ml, lengths=[len(s) for s in copy], got=[len(s) for s in r])
        got = [x for s in r for x in s]
        h.check(len(got) == len(flat) and all(a is b for a, b in zip(got, flat)), "concatenation of the pieces is the original", **ctx)
        h.check(all(0 < len(s) <= ml for s in r), "pieces within the limit", **ctx)
        # a piece never spans two sequences
        own = {id(x): i for i, s in enumerate(copy) for x in s}
        h.check(all(len({own[id(x)] for x in s}) == 1 for s in r), "a piece never spans two sequences", **ctx)
        h.check([list(s) for s in seqs] == copy, "given sequences not modified", **ctx)


def part_subsets(h):
    from pfrl.agents import ppo

    f = getattr(ppo, "_yield_subset_of_sequences_with_fixed_number_of_items", None)
    if f is None:
        return
    for it in range(h.n(600)):
        k, n = h.rng.randint(0, 6), h.rng.randint(1, 9)
        seqs = [[object() for _ in range(h.rng.choice([1, n, h.rng.randint(1, 12)]))] for _ in range(k)]
        flat = [x for s in seqs for x in s]
        copy = [list(s) for s in seqs]
        own = {id(x): i for i, s in enumerate(copy) for x in s}
        h.case(("subset", n, tuple(len(s) for s in seqs)))
        r = list(f(seqs, n))
        ctx = dict(n_items=n, lengths=[len(s) for s in copy], got=[[len(s) for s in sub] for sub in r])
        got = [x for sub in r for s in sub for x in s]
        h.check(all(sum(len(s) for s in sub) == n for sub in r), "each subset has the requested number of items", **ctx)
        h.check(all(len(s) > 0 and len({own[id(x)] for x in s}) == 1 for sub in r for s in sub), "pieces are non-empty parts of one sequence", **ctx)
        h.check(all(a is b for a, b in zip(got, flat)), "pieces are consecutive", **ctx)
        h.eq(len(got), len(flat) // n * n, "only an incomplete remainder is dropped", **ctx)
        h.check([list(s) for s in seqs] == copy, "given sequences not modified", **ctx)


def passes(h, batches, ids, mb, epochs, what):
    n = len(ids)
    ctx = dict(n=n, minibatch_size=mb, epochs=epochs, batches=[list(b)[:12] for b in batches[:8]], what=what)
    h.check(all(len(b) == mb for b in batches), "batches of the requested size", **ctx)
    total = sum(len(b) for b in batches)
    h.check(n * epochs <= total < n * epochs + mb, "every epoch completed, none added", total=total, **ctx)
    # within a batch the order is free where it spans two passes: count uses per prefix
    stream = [x for b in batches for x in b]
    done = {i: 0 for i in ids}
    used = 0
    for b in batches:
        for x in b:
            h.check(x in done, "only elements of the dataset", **ctx)
            done[x] += 1
        used += len(b)
        lo, hi = used // n, -(-used // n)
        h.check(all(lo <= c <= hi for c in done.values()), "every element once per pass", used=used, counts=sorted(done.values()), **ctx)
    return stream


def part_minibatches(h):
    from pfrl.agents import ppo

    f = getattr(ppo, "_yield_minibatches", None)
    if f is None:
        return
    for it in range(h.n(400)):
        n, mb, ep = h.rng.randint(1, 12), h.rng.randint(1, 15), h.rng.randint(1, 4)
        random.seed(h.rng.randrange(10**6))
        h.case(("minibatch", n, mb, ep))
        data = list(range(n))
        r = [list(b) for b in f(data, minibatch_size=mb, num_epochs=ep)]
        passes(h, r, data, mb, ep, "minibatches")
        h.eq(data, list(range(n)), "dataset not modified")


class Rec(nn.Module):
    """records which observations pass while gradients are enabled"""

    def __init__(self):
        super().__init__()
        self.calls = []

    def forward(self, x):
        if torch.is_grad_enabled():
            self.calls.append([int(round(float(v))) for v in x.reshape(-1, x.shape[-1])[:, 0]])
        y = x.clone()
        y[..., 0] = torch.sin(y[..., 0])
        return y


class Two(nn.Module):
    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def forward(self, x):
        return self.a(x), self.b(x)


def pi_v():
    from pfrl.policies import SoftmaxCategoricalHead

    return nn.Sequential(nn.Linear(3, 3), SoftmaxCategoricalHead()), nn.Linear(3, 1)


def drive(h, agent, n_env, steps, counter, on_update, p_done=0.2, serial=False):
    """random episodes with unique observation ids; on_update(ids collected since the last update)"""
    fresh = []
    held = [None] * n_env

    def ob():
        counter[0] += 1
        return np.array([counter[0], h.rng.uniform(-1, 1), 1.0], dtype=np.float32)

    obs = [ob() for _ in range(n_env)]
    for t in range(steps):
        ids = [int(o[0]) for o in obs]
        if serial:
            agent.act(obs[0])
        else:
            agent.batch_act(obs)
        nxt = [ob() for _ in range(n_env)]
        dones = [h.rng.random() < p_done for _ in range(n_env)]
        resets = [h.rng.random() < 0.1 for _ in range(n_env)]
        rs = [h.rng.uniform(-1, 1) for _ in range(n_env)]
        fresh += ids
        n0 = on_update(None)
        if serial:
            agent.observe(nxt[0], rs[0], dones[0], resets[0])
        else:
            agent.batch_observe(nxt, rs, dones, resets)
        if on_update(None) != n0:
            on_update(fresh)
            fresh = []
        obs = [ob() if d or r else o for o, d, r in zip(nxt, dones, resets)]
    return fresh


def part_ppo(h):
    from pfrl.agents import PPO

    for it in range(h.n(12, 60)):
        torch.manual_seed(h.rng.randrange(10**6))
        random.seed(h.rng.randrange(10**6))
        rec = Rec()
        model = nn.Sequential(rec, Two(*pi_v()))
        serial = it % 3 == 0
        n_env = 1 if serial else h.rng.randint(1, 4)
        ui, mb, ep = h.rng.randint(3, 14), h.rng.randint(1, 9), h.rng.randint(1, 3)
        ag = PPO(model, torch.optim.SGD(model.parameters(), lr=0.001), update_interval=ui, minibatch_size=mb, epochs=ep, gamma=0.9)
        h.case(("ppo", n_env, ui, mb, ep))

        def on(ids):
            if ids is None:
                return len(rec.calls)
            h.check(len(ids) >= ui, "update only when enough transitions are there", n=len(ids), update_interval=ui)
            h.check(len(ids) < ui + n_env, "update as soon as enough transitions are there", n=len(ids), update_interval=ui)
            passes(h, rec.calls, ids, mb, ep, "PPO update")
            rec.calls = []

        left = drive(h, ag, n_env, 60, [0], on, serial=serial)
        h.check(len(left) < ui + n_env, "updates happen", left=len(left), update_interval=ui)


def part_ppo_recurrent(h):
    import pfrl
    from pfrl.agents import PPO

    for it in range(h.n(12, 60)):
        torch.manual_seed(h.rng.randrange(10**6))
        random.seed(h.rng.randrange(10**6))
        rec = Rec()
        pi, v = pi_v()
        model = pfrl.nn.RecurrentSequential(rec, nn.LSTM(3, 3), pfrl.nn.Branched(pi, v)) if it % 2 else \
            pfrl.nn.RecurrentSequential(rec, nn.GRU(3, 3), pfrl.nn.Branched(pi, v))
        n_env = h.rng.randint(1, 4)
        mb = h.rng.randint(1, 6)
        ui, ep = h.rng.randint(mb, 14), h.rng.randint(1, 3)
        ml = h.rng.choice([None, 1, 2, 3, 5])
        ag = PPO(model, torch.optim.SGD(model.parameters(), lr=0.001), update_interval=ui, minibatch_size=mb, epochs=ep, gamma=0.9,
                 recurrent=True, max_recurrent_sequence_len=ml)
        h.case(("ppo-recurrent", n_env, ui, mb, ep, ml))

        def on(ids):
            if ids is None:
                return len(rec.calls)
            n, per = len(ids), len(ids) // mb
            ctx = dict(n=n, minibatch_size=mb, epochs=ep, max_len=ml, calls=rec.calls[:10])
            h.eq(len(rec.calls), per * ep, "number of minibatches", **ctx)
            h.check(all(len(c) == mb for c in rec.calls), "minibatches have the requested number of transitions", **ctx)
            for e in range(ep):
                got = [x for c in rec.calls[e * per:(e + 1) * per] for x in c]
                h.check(len(set(got)) == len(got) and set(got) <= set(ids), "every transition at most once per epoch, none but the collected ones", **ctx)
            rec.calls = []

        left = drive(h, ag, n_env, 50, [0], on)
        h.check(len(left) < ui + n_env, "updates happen", left=len(left), update_interval=ui)


def part_trpo(h):
    from pfrl.agents import TRPO

    for it in range(h.n(8, 40)):
        torch.manual_seed(h.rng.randrange(10**6))
        random.seed(h.rng.randrange(10**6))
        rec, rec2 = Rec(), Rec()
        pi, v = pi_v()
        vf = nn.Sequential(rec, v)
        n_env = h.rng.randint(1, 3)
        ui, mb, ep = h.rng.randint(3, 12), h.rng.randint(1, 9), h.rng.randint(1, 3)
        ag = TRPO(nn.Sequential(rec2, pi), vf, torch.optim.SGD(vf.parameters(), lr=0.001), update_interval=ui, vf_batch_size=mb, vf_epochs=ep, gamma=0.9,
                  conjugate_gradient_max_iter=2)
        h.case(("trpo", n_env, ui, mb, ep))

        def on(ids):
            if ids is None:
                return len(rec.calls)
            passes(h, rec.calls, ids, mb, ep, "TRPO value function update")
            full = [c for c in rec2.calls if len(c) == len(ids)]
            h.check(all(sorted(c) == sorted(ids) for c in rec2.calls) and full, "the policy is updated on the whole dataset",
                    ids=ids, calls=[c[:12] for c in rec2.calls[:4]])
            rec.calls, rec2.calls = [], []

        drive(h, ag, n_env, 40, [0], on)


PARTS = [part_limit, part_subsets, part_minibatches, part_ppo, part_ppo_recurrent, part_trpo]
