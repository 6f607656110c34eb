"""C04 replay: histories of the prioritized buffers against a shadow list."""
import numpy as np


def part_buffer(h):
    from pfrl.collections.prioritized import PrioritizedBuffer

    h.rule = "random histories of append/popleft/sample/set_last_priority with shadow priorities; batches up to the whole memory"
    np.random.seed(h.seed)
    for it in range(h.n(250)):
        cap = h.rng.choice([None, 1, 3, 8, 20])
        wait = h.rng.random() < 0.7
        b = PrioritizedBuffer(capacity=cap) if wait and h.rng.random() < 0.5 else PrioritizedBuffer(capacity=cap, wait_priority_after_sampling=wait)
        data, pri, mx, uid = [], [], 1.0, 0
        hist = []
        h.case(("buffer", cap, wait, it))
        h.raises((AssertionError, AttributeError), lambda: b.set_last_priority([1.0]), "update without a sample") if wait else None
        for _ in range(40):
            r = h.rng.random()
            if r < 0.5 or not data:
                p = h.rng.choice([None, None, 0.5, 3.0, 10.0, 1e-3])
                hist.append(("append", uid, p))
                b.append(uid, p) if p is not None else b.append(uid)
                if cap is not None and len(data) == cap:
                    data.pop(0), pri.pop(0)
                data.append(uid)
                pri.append(mx if p is None else p)
                uid += 1
            elif r < 0.6:
                hist.append(("popleft",))
                x = b.popleft()
                h.eq(x, data.pop(0), "popleft", history=hist[-8:])
                pri.pop(0)
            else:
                k = h.rng.choice([1, len(data), h.rng.randrange(0, len(data) + 1)])
                ur = h.rng.choice([0, 0, 0.3, 1.0]) if wait else 0
                hist.append(("sample", k, ur))
                s, probs, mp = b.sample(k, uniform_ratio=ur)
                s, probs = list(s), list(probs)
                h.eq(len(s), k, "sample size", history=hist[-8:])
                h.eq(len(set(s)), k, "distinct entries", sample=s, history=hist[-8:])
                h.check(set(s) <= set(data), "sampled entries are stored", sample=s, data=data)
                tot = sum(pri)
                want = [ur / len(data) + (1 - ur) * pri[data.index(x)] / tot for x in s]
                h.close(probs, want, "probability of each sampled entry", 1e-6, sample=s, priorities=pri, data=data, history=hist[-8:])
                h.close(mp, ur / len(data) + (1 - ur) * min(pri) / tot, "minimum probability", 1e-6, priorities=pri)
                if wait:
                    h.raises(AssertionError, lambda: b.sample(1), "second sample before the update")
                    if k > 0 and h.rng.random() < 0.3:
                        h.raises(AssertionError, lambda: b.set_last_priority([0.0] * k), "non-positive priority")
                        h.raises(AssertionError, lambda: b.set_last_priority([1.0] * (k + 1)), "wrong number of priorities")
                if wait or h.rng.random() < 0.5:
                    new = [h.rng.choice([0.01, 0.7, 2.0, 5.0, 50.0]) for _ in s]
                    hist.append(("update", new))
                    b.set_last_priority(new)
                    for x, p in zip(s, new):
                        pri[data.index(x)] = p
                        mx = max(mx, p)
                    if wait:
                        h.raises(AssertionError, lambda: b.set_last_priority(new), "second update")
            h.eq(len(b), len(data), "length", history=hist[-8:])


def part_replay(h):
    from pfrl.replay_buffers import PrioritizedReplayBuffer

    np.random.seed(h.seed + 1)
    for it in range(h.n(120)):
        norm = h.rng.choice([True, "batch", "memory", False])
        alpha, beta0, steps, eps = h.rng.choice([0.0, 0.6, 1.0]), h.rng.choice([0.0, 0.4, 1.0]), h.rng.choice([None, 3, 10]), 0.01
        cap = h.rng.choice([None, 4, 9])
        emin, emax = h.rng.choice([(0, 1), (None, 2), (0.1, None)])
        rb = PrioritizedReplayBuffer(cap, alpha=alpha, beta0=beta0, betasteps=steps, eps=eps,
                                     normalize_by_max=norm, error_min=emin, error_max=emax)
        ids, pri, mx, beta, uid = [], [], 1.0, beta0, 0
        h.case(("replay", norm, alpha, beta0, steps, cap, emin, emax))
        for _ in range(25):
            for _ in range(h.rng.randrange(1, 4)):
                rb.append(uid, uid, float(uid), uid + 1, is_state_terminal=h.rng.random() < 0.2)
                if cap is not None and len(ids) == cap:
                    ids.pop(0), pri.pop(0)
                ids.append(uid)
                pri.append(mx)
                uid += 1
            h.eq(len(rb), len(ids), "length")
            k = h.rng.randrange(1, len(ids) + 1)
            s = rb.sample(k)
            got = [e[0]["state"] for e in s]
            h.eq(len(set(got)), k, "distinct entries", got=got)
            h.check(set(got) <= set(ids), "entries stored", got=got, ids=ids)
            tot = sum(pri)
            p = [pri[ids.index(x)] / tot for x in got]
            n = len(ids)
            w = [(n * q) ** -beta for q in p]
            if norm in (True, "batch"):
                w = [x / max(w) for x in w]
            elif norm == "memory":
                m = (n * min(pri) / tot) ** -beta
                w = [x / m for x in w]
            h.close([e[0]["weight"] for e in s], w, "importance weights", 1e-5, beta=beta, priorities=pri, ids=ids, got=got)
            if steps is not None:
                beta = min(1.0, beta + (1.0 - beta0) / steps)
            err = [h.rng.choice([0.0, 0.05, 0.5, 1.0, 3.0]) for _ in s]
            rb.update_errors(err)
            for x, e in zip(got, err):
                if emin is not None:
                    e = max(emin, e)
                if emax is not None:
                    e = min(emax, e)
                pri[ids.index(x)] = (e + eps) ** alpha
                mx = max(mx, (e + eps) ** alpha)


def part_episodic(h):
    from pfrl.replay_buffers import PrioritizedEpisodicReplayBuffer

    np.random.seed(h.seed + 2)
    for it in range(h.n(80)):
        norm = h.rng.choice([True, "batch", "memory", False])
        alpha, beta0, steps, eps = h.rng.choice([0.0, 0.6, 1.0]), h.rng.choice([0.0, 0.4, 1.0]), h.rng.choice([None, 3, 10]), 0.01
        ur = h.rng.choice([0, 0, 0.3, 1.0])
        emin, emax = h.rng.choice([(0, 1), (None, 2), (0.1, None)])
        ret = h.rng.random() < 0.8
        own = h.rng.choice([None, lambda ep: 0.5 + len(ep)])
        cap = h.rng.choice([None, 12, 30])
        rb = PrioritizedEpisodicReplayBuffer(cap, alpha=alpha, beta0=beta0, betasteps=steps, eps=eps, normalize_by_max=norm, error_min=emin,
                                             error_max=emax, uniform_ratio=ur, return_sample_weights=ret, default_priority_func=own)
        eps_, pri, mx, beta, uid = [], [], 1.0, beta0, 0
        h.case(("episodic", norm, alpha, beta0, steps, cap, emin, emax, ur, ret))
        for _ in range(12):
            for _ in range(h.rng.randrange(1, 4)):
                n = h.rng.randint(1, 5)
                ep = list(range(uid, uid + n))
                uid += n
                for x in ep:
                    rb.append(x, x, 0.0, x + 1, is_state_terminal=x == ep[-1])
                eps_.append(ep)
                pri.append(mx if own is None else 0.5 + n)
                while cap is not None and sum(map(len, eps_)) > cap:
                    eps_.pop(0), pri.pop(0)
            h.eq(rb.n_episodes, len(eps_), "number of episodes")
            k = h.rng.randrange(1, len(eps_) + 1)
            ml = h.rng.choice([None, 1, 2, 3])
            r = rb.sample_episodes(k, ml)
            got, w = r if ret else (r, None)
            h.eq(len(got), k, "number of episodes drawn")
            ix = []
            for e in got:
                ids = [t["state"] for t in e]
                i = [i for i, q in enumerate(eps_) if ids[0] in q]
                h.check(len(i) == 1, "episode stored", got=ids, episodes=eps_)
                q = eps_[i[0]]
                m = len(q) if ml is None else min(ml, len(q))
                h.check(len(ids) == m and ids == list(range(ids[0], ids[0] + m)), "run of the episode", got=ids, episode=q, max_len=ml)
                ix += i
            h.eq(len(set(ix)), k, "distinct episodes", got=ix)
            tot, n = sum(pri), len(eps_)
            pr = [ur / n + (1 - ur) * q / tot for q in pri]
            if ret:
                want = [(n * pr[i]) ** -beta for i in ix]
                if norm in (True, "batch"):
                    want = [x / max(want) for x in want]
                elif norm == "memory":
                    want = [x / (n * min(pr)) ** -beta for x in want]
                h.close(list(w), want, "importance weights", 1e-5, beta=beta, priorities=pri, episodes=eps_, got=ix, normalize_by_max=norm)
                if steps is not None:
                    beta = min(1.0, beta + (1.0 - beta0) / steps)
            h.raises(AssertionError, lambda: rb.sample_episodes(1), "second sample before the update")
            err = [h.rng.choice([0.0, 0.05, 0.5, 1.0, 3.0]) for _ in got]
            rb.update_errors(err)
            for i, e in zip(ix, err):
                if emin is not None:
                    e = max(emin, e)
                if emax is not None:
                    e = min(emax, e)
                pri[i] = (e + eps) ** alpha
                mx = max(mx, pri[i])


PARTS = [part_buffer, part_replay, part_episodic]
