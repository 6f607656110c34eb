"""C15 replay: explorers against their schedules, with frequency bounds of more than 6 sigma."""
import logging
import math

import numpy as np


def freq(h, ex, step, eps, N, **ctx):
    n = dict(r=0, g=0)

    def rnd():
        n["r"] += 1
        return "random"

    ex.random_action_func = rnd
    k = 0
    for _ in range(N):
        c = [0]

        def g():
            c[0] += 1
            return "greedy"

        b = n["r"]
        a = ex.select_action(step, g)
        h.check(a in ("random", "greedy"), "action is the random or the greedy one", a=repr(a), **ctx)
        h.check((n["r"] - b, c[0]) == ((1, 0) if a == "random" else (0, 1)), "only the chosen action is computed", **ctx)
        k += a == "random"
    sd = math.sqrt(N * eps * (1 - eps))
    h.check(abs(k - N * eps) <= 6.5 * sd + 1e-9, "random actions occur with the scheduled rate", observed=k / N, expected=eps, **ctx)


def eps_case(h, rng):
    from pfrl import explorers as E

    a, b = [rng.choice([0.0, 1.0, 0.5, 0.1, 0.05, rng.random()]) for _ in range(2)]
    kind = rng.choice(["constant", "linear", "linear", "exponential"])
    rf = lambda: "random"
    if kind == "constant":
        ex, sched, ts = E.ConstantEpsilonGreedy(a, rf), lambda t: a, [0, 5, 10**6]
    elif kind == "linear":
        d = rng.choice([0, 1, 2, 3, 10, 1000, 10**6, 10**6])
        ex = E.LinearDecayEpsilonGreedy(a, b, d, rf)
        sched = lambda t: b if t >= d else a + (b - a) * t / d
        ts = [0, 1, 2, d - 1, d, d + 1, d // 2, 10 * d + 3, rng.randint(0, d + 1)]
    else:
        dec = rng.choice([0.5, 0.9, 0.99, 0.9999, rng.uniform(0.01, 0.99)])
        ex = E.ExponentialDecayEpsilonGreedy(a, b, dec, rf)
        sched = lambda t: max(a * dec**t, b)
        ts = [0, 1, 2, 10, 1000, 10**5, rng.randint(0, 500)]
    ts = [t for t in ts if t >= 0]
    rng.shuffle(ts)
    for t in ts:
        e = sched(t)
        ctx = dict(kind=kind, start=a, end=b, t=t, steps=d if kind == "linear" else dec if kind == "exponential" else None)
        h.case((kind, a, b, t, e))
        ex.random_action_func = lambda: "random"
        ex.select_action(t, lambda: "greedy")
        h.check(abs(ex.epsilon - e) <= 1e-9, "epsilon follows the schedule", observed=ex.epsilon, expected=e, **ctx)
        h.check(-1e-9 <= ex.epsilon <= 1 + 1e-9, "epsilon is a probability", **ctx)
        freq(h, ex, t, e, 60 if e in (0.0, 1.0) else 400, **ctx)


def part_epsilon(h):
    for _ in range(h.n(60)):
        np.random.seed(h.rng.randint(0, 2**31))
        eps_case(h, h.rng)


def part_greedy(h):
    from pfrl.explorers import Greedy

    x = object()
    h.case("greedy")
    h.check(Greedy().select_action(3, lambda: x) is x, "greedy returns the greedy action")


def moments(h, z, what, **ctx):
    """z should be standard normal draws"""
    z = np.asarray(z, dtype=np.float64).ravel()
    n = len(z)
    h.check(abs(z.mean()) <= 6.5 / math.sqrt(n), what + ": mean", mean=z.mean(), n=n, **ctx)
    h.check(abs(z.var() - 1) <= 6.5 * math.sqrt(2.0 / n), what + ": scale", var=z.var(), n=n, **ctx)


def part_gaussian(h):
    from pfrl.explorers import AdditiveGaussian

    rng = h.rng
    for it in range(h.n(60)):
        np.random.seed(rng.randint(0, 2**31))
        d = rng.randint(1, 4)
        scale = rng.choice([0.0, 0.5, np.array([rng.uniform(0.1, 2) for _ in range(d)])])
        mk = lambda s: rng.choice([None, s * rng.uniform(0.1, 1.0), s * np.array([rng.uniform(0.1, 1.0) for _ in range(d)])])
        low, high = mk(-1), mk(1)
        ex = AdditiveGaussian(scale, low=low, high=high)
        h.case((d, repr(scale), repr(low), repr(high)))
        zs, hits, exp, var = [], 0, 0.0, 0.0
        ctx = dict(scale=repr(scale), low=repr(low), high=repr(high))
        for k in range(300):
            a = np.array([rng.uniform(-1.5, 1.5) for _ in range(d)], dtype=np.float32)
            c = a.copy()
            r = ex.select_action(k, lambda: a)
            h.check(np.array_equal(a, c), "greedy action not modified", **ctx)
            h.check(r.shape == a.shape, "shape kept", **ctx)
            lo = -np.inf if low is None else low
            hi = np.inf if high is None else high
            h.check(np.all(r >= np.asarray(lo) - 1e-6) and np.all(r <= np.asarray(hi) + 1e-6), "within the bounds", r=r.tolist(), **ctx)
            if np.all(np.asarray(scale) == 0):
                h.check(np.allclose(r, np.clip(a, lo, hi), atol=1e-6), "no noise at scale 0", **ctx)
            elif low is None and high is None:
                zs.append((r - a) / scale)
            elif high is not None:
                # how often the upper bound is hit
                for i in range(d):
                    b, s = float(np.broadcast_to(hi, (d,))[i]), float(np.broadcast_to(scale, (d,))[i])
                    q = 0.5 * math.erfc((b - float(a[i])) / s / math.sqrt(2))
                    hits, exp, var = hits + (r[i] >= b - 1e-6), exp + q, var + q * (1 - q)
        h.check(abs(hits - exp) <= 6.5 * math.sqrt(var) + 1, "the sum of action and noise is clipped", hits=int(hits), expected=exp, **ctx)
        if zs:
            moments(h, zs, "noise distribution", **ctx)


def part_ou(h):
    from pfrl.explorers import AdditiveOU

    rng = h.rng
    lg = logging.getLogger("c15")
    for it in range(h.n(60)):
        np.random.seed(rng.randint(0, 2**31))
        d = rng.randint(1, 3)
        mu, th = rng.choice([0.0, 0.7, -1.3]), rng.choice([0.15, 0.5, 1.0, 1.5])
        sg = rng.choice([0.0, 0.3, np.array([rng.uniform(0.1, 2) for _ in range(d)])])
        start = rng.random() < 0.5
        ex = AdditiveOU(mu=mu, theta=th, sigma=sg, start_with_mu=start, logger=lg)
        ctx = dict(mu=mu, theta=th, sigma=repr(sg), start=start)
        h.case(repr(ctx))
        x, zs = None, []
        for k in range(300):
            a = np.array([rng.uniform(-1.5, 1.5) for _ in range(d)], dtype=np.float32)
            c = a.copy()
            r = ex.select_action(k, lambda: a)
            h.check(np.array_equal(a, c), "greedy action not modified", **ctx)
            y = (np.asarray(r, dtype=np.float64) - a)
            if x is None and start:
                h.check(np.allclose(y, mu, atol=1e-5), "starts at the mean", y=y.tolist(), **ctx)
            elif x is not None:
                res = y - (x + th * (mu - x))
                if np.all(np.asarray(sg) == 0):
                    h.check(np.allclose(res, 0, atol=1e-4), "noiseless process", res=res.tolist(), **ctx)
                else:
                    zs.append(res / sg)
            x = y
        if zs:
            moments(h, zs, "process noise", **ctx)
    # the process moves at every call, whatever the step number
    for t in (0, 1, 7, 10 ** 6):
        ex = AdditiveOU(mu=0.0, theta=0.15, sigma=0.3, start_with_mu=bool(t % 2), logger=lg)
        ys = [ex.select_action(t, lambda: np.zeros(3, dtype=np.float32)).copy() for _ in range(6)]
        h.case(("moves", t))
        h.check(all(not np.allclose(u, v, atol=1e-6) for u, v in zip(ys, ys[1:])), "noise evolves at every call", t=t)
    # stationary start
    for mu, th, sg in ((0.0, 0.15, 0.3), (1.0, 0.5, 1.0), (-2.0, 1.2, 0.1)):
        ys = []
        for k in range(800):
            ex = AdditiveOU(mu=mu, theta=th, sigma=sg, logger=lg)
            a = np.zeros(2, dtype=np.float32)
            ys.append(ex.select_action(0, lambda: a))
        h.case(("stationary", mu, th, sg))
        s = sg / math.sqrt(2 * th - th * th)
        moments(h, (np.array(ys) - mu) / s, "stationary start", mu=mu, theta=th, sigma=sg)


def part_boltzmann(h):
    import torch

    from pfrl.action_value import DiscreteActionValue
    from pfrl.explorers import Boltzmann

    rng = h.rng
    for it in range(h.n(15)):
        np.random.seed(rng.randint(0, 2**31))
        n, T = rng.randint(1, 5), rng.choice([0.5, 1.0, 3.0])
        q = torch.tensor([[rng.uniform(-2, 2) for _ in range(n)]], dtype=torch.float32)
        ex = Boltzmann(T=T)
        N = 600
        h.case((n, T, q.tolist()))
        cnt = np.zeros(n)
        for _ in range(N):
            a = ex.select_action(0, lambda: None, action_value=DiscreteActionValue(q))
            h.check(0 <= int(a) < n, "valid action", a=int(a), n=n)
            cnt[int(a)] += 1
        w = np.exp(q.numpy()[0].astype(np.float64) / T)
        w /= w.sum()
        for i in range(n):
            h.check(abs(cnt[i] - N * w[i]) <= 6.5 * math.sqrt(N * w[i] * (1 - w[i])) + 1e-6, "softmax frequencies",
                    counts=cnt.tolist(), expected=(N * w).tolist())


PARTS = [part_epsilon, part_greedy, part_gaussian, part_ou, part_boltzmann]
