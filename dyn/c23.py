"""C23 replay: real normalisers on random histories against the statistics of all the
samples, computed in double precision."""
import copy
import pickle

import numpy as np
import torch
from torch import nn


def stats(samples, shape):
    if not samples:
        return np.zeros(shape), np.ones(shape)
    a = np.stack(samples).astype(np.float64)
    return a.mean(axis=0), a.var(axis=0)


def rand_shape(h):
    return h.rng.choice([(), (1,), (3,), (2, 3), 3, (2, 1, 2)])


def tup(shape):
    return (shape,) if isinstance(shape, int) else tuple(shape)


def gen(h, shape, n, g):
    loc, scale = h.rng.choice([(0.0, 1.0), (5.0, 0.1), (-2.0, 3.0), (0.5, 0.0)])
    return [(loc + scale * g.normal(size=shape)).astype(np.float32) for _ in range(n)]


def stack(samples, shape, ax):
    if not samples:
        return torch.zeros(shape[:ax] + (0,) + shape[ax:])
    return torch.as_tensor(np.stack(samples, axis=ax))


def check(h, norm, samples, shape, ax, eps, clip, g, rule):
    m, v = stats(samples, shape)
    h.rule = rule
    h.close(norm.mean.numpy(), m, "mean", 1e-3)
    h.close(norm.std.numpy() ** 2, v, "variance", 2e-3)
    h.eq(int(norm.count), len(samples), "count")
    k = h.rng.randint(1, 4)
    x = gen(h, shape, k, g)
    xt = stack(x, shape, ax)
    x0 = xt.clone()
    before = {a: b.clone() for a, b in norm.state_dict().items()}
    y = norm(xt, update=False)
    want = np.stack([(a.astype(np.float64) - m) / np.sqrt(v + eps) for a in x], axis=ax)
    if clip is not None:
        want = np.clip(want, -clip, clip)
    h.close(y.numpy(), want, "normalised", 5e-3)
    h.check(torch.equal(xt, x0), "input changed")
    for a, b in norm.state_dict().items():
        h.check(torch.equal(before[a], b), "statistics changed without update", name=a)
    if clip is None:
        h.close(norm.inverse(y).numpy(), xt.numpy(), "inverse(normalise(x))", 5e-3)
        z = norm(norm.inverse(xt), update=False)
        h.close(z.numpy(), xt.numpy(), "normalise(inverse(y))", 2e-2)
    h.check(list(y.shape) == list(xt.shape), "shape")
    norm.mean.add_(1)
    norm.std.add_(1)
    h.close(norm.mean.numpy(), m, "mean is a copy", 1e-3)
    h.close(norm.std.numpy() ** 2, v, "std is a copy", 2e-3)


def histories(h):
    from pfrl.nn import EmpiricalNormalization as EN

    for _ in range(h.n(150)):
        g = np.random.RandomState(h.rng.randrange(10 ** 6))
        s0 = rand_shape(h)
        shape = tup(s0)
        ax = h.rng.randint(0, len(shape)) if len(shape) else 0
        eps = h.rng.choice([1e-2, 1e-1, 1.0])
        until = h.rng.choice([None, None, 1, 5, 9])
        clip = h.rng.choice([None, None, 0.5, 5])
        norm = EN(s0, batch_axis=ax, eps=eps, until=until, clip_threshold=clip)
        samples = []
        ops = []
        h.case(dict(shape=s0, axis=ax, eps=eps, until=until, clip=clip, ops=ops))
        for _ in range(h.rng.randint(0, 7)):
            op = h.rng.choice(["experience", "experience", "forward", "use", "check", "reload", "into-used", "soft", "copy", "pickle", "train-flag"])
            n = h.rng.choice([0, 1, 1, 2, 5, 17])
            ops.append((op, n))
            if op in ("experience", "forward"):
                if op == "forward" and n == 0:
                    n = 1
                xs = gen(h, shape, n, g)
                if op == "experience":
                    norm.experience(stack(xs, shape, ax))
                else:
                    y = norm(stack(xs, shape, ax))
                if until is None or len(samples) < until:
                    samples.extend(xs)
                if op == "forward":     # by the statistics that include this batch
                    m, v = stats(samples, shape)
                    want = np.stack([(a.astype(np.float64) - m) / np.sqrt(v + eps) for a in xs], axis=ax)
                    if clip is not None:
                        want = np.clip(want, -clip, clip)
                    h.rule = "forward with update"
                    h.close(y.detach().numpy(), want, "normalised", 5e-3)
            elif op == "use":
                norm(stack(gen(h, shape, 2, g), shape, ax), update=False)
            elif op == "reload":
                other = EN(s0, batch_axis=ax, eps=eps, until=until, clip_threshold=clip)
                other.load_state_dict(norm.state_dict())
                norm = other
            elif op == "into-used":
                # a normaliser already in use takes over the statistics
                other = EN(s0, batch_axis=ax, eps=eps, until=until, clip_threshold=clip)
                other.experience(stack(gen(h, shape, 3, g), shape, ax))
                other(stack(gen(h, shape, 1, g), shape, ax), update=False)
                other.load_state_dict(norm.state_dict())
                norm = other
            elif op == "soft":
                import pfrl

                other = EN(s0, batch_axis=ax, eps=eps, until=until, clip_threshold=clip)
                other(stack(gen(h, shape, 3, g), shape, ax))
                pfrl.utils.copy_param.copy_param(target_link=other, source_link=norm)
                norm = other
            elif op == "copy":
                norm = copy.deepcopy(norm)
            elif op == "pickle":
                norm = pickle.loads(pickle.dumps(norm))
            elif op == "train-flag":
                norm.train(h.rng.random() < 0.5)
            check(h, norm, samples, shape, ax, eps, clip, g, "after " + op)
        check(h, norm, samples, shape, ax, eps, clip, g, "at the end")


def many_small(h):
    from pfrl.nn import EmpiricalNormalization as EN

    for _ in range(h.n(4)):
        g = np.random.RandomState(h.rng.randrange(10 ** 6))
        norm = EN((2,))
        xs = [g.normal(size=2).astype(np.float32) + 3 for _ in range(400)]
        h.case(dict(batches=400))
        for x in xs:
            norm.experience(torch.as_tensor(x[None]))
        check(h, norm, xs, (2,), 0, 1e-2, None, g, "single samples")


def agents(h):
    """PPO and TRPO show every training observation to the normaliser exactly once"""
    import pfrl
    from agents_util import OBS, mlp
    from c18 import ActorCritic, CatPolicy, drive

    for _ in range(h.n(12)):
        g = np.random.RandomState(h.rng.randrange(10 ** 6))
        norm = pfrl.nn.EmpiricalNormalization((OBS,), clip_threshold=5)
        interval = h.rng.randint(2, 6)
        n_envs = h.rng.randint(1, 3)
        kind = h.rng.choice(["ppo", "trpo"])
        rec = h.rng.random() < 0.4
        h.case(dict(kind=kind, interval=interval, n_envs=n_envs, recurrent=rec))
        pi, v = mlp(h, OBS, 3), mlp(h, OBS, 1)
        if kind == "ppo":
            model = ActorCritic(pi, v)
            if rec:
                model = pfrl.nn.RecurrentSequential(nn.LSTM(OBS, OBS), model)
            ag = pfrl.agents.PPO(model, torch.optim.SGD(model.parameters(), 0.01), obs_normalizer=norm, gpu=-1,
                                 update_interval=interval, minibatch_size=2, epochs=2, recurrent=rec)
        else:
            pol = CatPolicy(pi)
            if rec:
                pol = pfrl.nn.RecurrentSequential(nn.LSTM(OBS, OBS), pol)
                v = pfrl.nn.RecurrentSequential(nn.LSTM(OBS, OBS), v)
            ag = pfrl.agents.TRPO(pol, v, torch.optim.SGD(v.parameters(), 0.01), obs_normalizer=norm, gpu=-1,
                                  update_interval=interval, vf_epochs=2, vf_batch_size=2, recurrent=rec)
        seen = []
        real_exp = norm.experience

        def spy(x):
            seen.extend([r.numpy().copy() for r in x])
            return real_exp(x)

        norm.experience = spy
        shown = []
        act = ag.batch_act

        def bact(obss):
            shown.extend([np.asarray(o) for o in obss])
            return act(obss)

        ag.batch_act = bact
        for _ in range(h.rng.randint(1, 3)):
            drive(h, ag, n_envs, h.rng.randint(4, 12))
            ag.batch_observe([np.zeros(OBS, dtype=np.float32)] * n_envs, [0.0] * n_envs, [True] * n_envs, [False] * n_envs)
            n = len(shown)
            with ag.eval_mode():
                for _ in range(3):
                    ag.batch_act([g.normal(size=OBS).astype(np.float32) + 9 for _ in range(n_envs)])
                    ag.batch_observe([g.normal(size=OBS).astype(np.float32) for _ in range(n_envs)], [0.0] * n_envs,
                                     [False] * n_envs, [True] * n_envs)
            del shown[n:]
        h.rule = "observations of the training data, each exactly once"
        a = sorted(tuple(np.round(x, 6)) for x in seen)
        b = [tuple(np.round(x, 6)) for x in shown]
        h.check(len(set(a)) == len(a), "an observation was learned twice")
        h.check(set(a) <= set(b), "learned what was not observed")
        h.check(len(b) - len(a) < interval + n_envs, "observations missing", learned=len(a), shown=len(b))
        h.eq(int(norm.count), len(a), "count")
        if len(a):
            h.close(norm.mean.numpy(), np.asarray(a).mean(axis=0), "mean", 1e-3)


PARTS = [histories, many_small, agents]
