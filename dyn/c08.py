"""C08 replay: random n-step batches against a plain reference."""
import numpy as np
import torch


def make_entry(h, length, next_mode, dim, int_action):
    out = []
    term = h.rng.random() < 0.4
    where = h.rng.choice([length - 1, h.rng.randrange(length)])
    for i in range(length):
        st = np.asarray([h.rng.uniform(-5, 5) for _ in range(dim)], dtype=np.float32)
        ns = np.asarray([h.rng.uniform(-5, 5) for _ in range(dim)], dtype=np.float32)
        act = (lambda: h.rng.randrange(5)) if int_action else (
            lambda: np.asarray([h.rng.uniform(-1, 1) for _ in range(2)], dtype=np.float32))
        na = None
        if next_mode == "all" or (next_mode == "mixed" and h.rng.random() < 0.7):
            na = act()
        out.append(dict(state=st, action=act(), reward=h.rng.choice([0.0, 1.0, -2.0, h.rng.uniform(-3, 3)]),
                        next_state=ns, next_action=na, is_state_terminal=bool(term and i == where)))
    return out


def reference(h, exps, r, phi, gamma):
    B = len(exps)
    for k in ("reward", "discount", "is_state_terminal"):
        h.eq(tuple(r[k].shape), (B,), "shape of " + k)
    for e, ts in enumerate(exps):
        want = sum(gamma ** i * t["reward"] for i, t in enumerate(ts))
        h.close(float(r["reward"][e]), want, "reward of entry", 1e-4, entry=e)
        h.close(float(r["discount"][e]), gamma ** len(ts), "discount of entry", 1e-5, entry=e)
        h.eq(float(r["is_state_terminal"][e]), float(any(t["is_state_terminal"] for t in ts)), "terminal flag", entry=e)
        h.close(r["state"][e].numpy(), phi(ts[0]["state"]), "state of entry", 1e-6, entry=e)
        h.close(r["next_state"][e].numpy(), phi(ts[-1]["next_state"]), "next state of entry", 1e-6, entry=e)
        h.close(r["action"][e].numpy(), ts[0]["action"], "action of entry", 1e-6, entry=e)
    have = all(ts[-1]["next_action"] is not None for ts in exps)
    h.eq("next_action" in r, have, "next_action is present exactly when every entry has one")
    if have:
        for e, ts in enumerate(exps):
            h.close(r["next_action"][e].numpy(), ts[-1]["next_action"], "next action of entry", 1e-6, entry=e)


def part_batch(h):
    from pfrl.replay_buffer import batch_experiences

    h.rule = "random batches of 1-6 entries of 1-5 transitions, terminal anywhere, gamma in {0, .., 1}, with/without next actions"
    for it in range(h.n(600)):
        B = h.rng.choice([1, 2, 3, 6])
        mode, ia = h.rng.choice(["none", "all", "mixed"]), h.rng.random() < 0.5
        gamma = h.rng.choice([0.0, 0.5, 0.9, 0.99, 1.0])
        exps = [make_entry(h, h.rng.choice([1, 1, 2, 3, 5]), mode, 3, ia) for _ in range(B)]
        k = h.rng.choice([1.0, 2.0])
        phi = lambda s, k=k: s * k  # noqa
        h.case((it, mode, ia, gamma, [[(t["reward"], t["is_state_terminal"]) for t in e] for e in exps]))
        r = batch_experiences(exps, torch.device("cpu"), phi, gamma)
        reference(h, exps, r, phi, gamma)


def part_states(h):
    from pfrl.utils.batch_states import batch_states

    for it in range(h.n(60)):
        n = h.rng.choice([1, 2, 5])
        tup = h.rng.random() < 0.5
        h.case(("states", it, n, tup))
        seq = h.rng.choice([list, tuple])
        if tup:
            ar = h.rng.choice([1, 2, 3, 4])
            ss = seq(tuple(np.float32(h.rng.random()) * np.ones(j, dtype=np.float32) if j else np.float32(h.rng.random()) for j in range(ar)) for i in range(n))
            f = h.rng.choice([lambda x: x, lambda x: tuple(y * 3 for y in x)])
            r = batch_states(ss, torch.device("cpu"), f)
            h.check(isinstance(r, tuple), "a tuple of batches for tuple observations")
            h.eq(len(r), ar, "tuple observation")
            for i in range(n):
                for j in range(ar):
                    h.close(np.asarray(r[j][i]), f(ss[i])[j], "component", 1e-6)
        else:
            ss = seq(np.ones((2, 2), dtype=np.float32) * h.rng.random() for i in range(n))
            r = batch_states(ss, torch.device("cpu"), lambda x: x * 2)
            for i in range(n):
                h.close(r[i].numpy(), ss[i] * 2, "state", 1e-6)


def part_buffer(h):
    from pfrl.replay_buffer import batch_experiences
    from pfrl.replay_buffers import ReplayBuffer

    for it in range(h.n(40)):
        n = h.rng.choice([1, 2, 3])
        rb = ReplayBuffer(50, num_steps=n)
        tid = 0
        log = {}
        for _ in range(40):
            t = h.rng.random() < 0.2
            log[tid] = (h.rng.uniform(-1, 1), t)
            rb.append(np.float32([tid]), tid, log[tid][0], np.float32([tid + 1]), None, t)
            tid += 1
        h.case(("buffer", it, n))
        exps = rb.sample(8)
        r = batch_experiences(exps, torch.device("cpu"), lambda x: x, 0.9)
        for e in range(8):
            s, ns = int(r["state"][e][0]), int(r["next_state"][e][0])
            rs = [log[i] for i in range(s, ns)]
            h.check(1 <= len(rs) <= n, "window", s=s, ns=ns)
            h.close(float(r["reward"][e]), sum(0.9 ** i * x for i, (x, _) in enumerate(rs)), "sampled reward", 1e-4)
            h.close(float(r["discount"][e]), 0.9 ** len(rs), "sampled discount", 1e-5)
            h.eq(bool(r["is_state_terminal"][e]), any(t for _, t in rs), "sampled terminal")


def part_recurrent(h):
    """whole episodes batched for recurrent models"""
    from pfrl.replay_buffer import batch_recurrent_experiences
    from pfrl.utils.recurrent import flatten_sequences_time_first

    for it in range(h.n(150)):
        lens = sorted([h.rng.choice([1, 1, 2, 3, 6]) for _ in range(h.rng.choice([1, 2, 3, 5]))], reverse=True)
        mode, kind = h.rng.choice(["none", "all", "mixed"]), h.rng.choice(["array", "tuple", "none", "some"])
        h.case(("recurrent", it, lens, mode, kind))
        eps = [make_entry(h, n, mode, 2, True) for n in lens]

        def state():
            a = lambda: np.float32([[h.rng.random(), h.rng.random()]])  # noqa
            if kind == "none" or (kind == "some" and h.rng.random() < 0.5):
                return None
            return (a(), a()) if kind == "tuple" else a()

        for ep in eps:
            for t in ep:
                t["recurrent_state"], t["next_recurrent_state"] = state(), state()
        gamma = h.rng.choice([0.0, 0.9, 1.0])
        r = batch_recurrent_experiences(eps, torch.device("cpu"), lambda x: x * 2, gamma)
        order = [(e, t) for t in range(max(lens)) for e in range(len(eps)) if t < lens[e]]
        h.eq([tuple(x) for x in flatten_sequences_time_first([[(e, t) for t in range(n)] for e, n in enumerate(lens)])],
             order, "time-first order")
        for k in ("action", "reward", "is_state_terminal"):
            h.close(r[k].numpy(), [float(eps[e][t][k]) for e, t in order], "recurrent " + k, 1e-6)
        h.close(r["discount"].numpy(), [gamma] * len(order), "recurrent discount", 1e-6)
        for k in ("state", "next_state"):
            h.eq(len(r[k]), len(eps), "recurrent " + k + " per episode")
            for e, ep in enumerate(eps):
                h.close(r[k][e].numpy(), np.stack([t[k] * 2 for t in ep]), "recurrent " + k, 1e-6)
        have = all(eps[e][t]["next_action"] is not None for e, t in order)
        h.eq("next_action" in r, have, "recurrent next actions present exactly when all are")
        if have:
            h.close(r["next_action"].numpy(), [eps[e][t]["next_action"] for e, t in order], "recurrent next action", 1e-6)
        for k in ("recurrent_state", "next_recurrent_state"):
            first = [ep[0][k] for ep in eps]
            if all(x is None for x in first):
                h.check(r[k] is None, "no recurrent state when no episode has one")
                continue
            got = r[k] if isinstance(r[k], tuple) else (r[k],)
            for j, g in enumerate(got):
                for e, x in enumerate(first):
                    x = (x[j] if isinstance(x, tuple) else x) if x is not None else np.zeros((1, 2), dtype=np.float32)
                    h.close(g[:, e].numpy(), x, "recurrent state of the episode's first step", 1e-6, episode=e)


PARTS = [part_batch, part_states, part_buffer, part_recurrent]
