"""C02 replay: adversarial random draws."""
import itertools

import numpy as np


REAL_CHOICE = np.random.choice


class FakeRandom:
    """numpy.random replacement: plays scripted draws, then random ones"""

    def __init__(self, rng, script=None):
        self.rng = rng
        self.script = list(script or [])
        self.real = REAL_CHOICE

    def choice(self, a, size=None, replace=True, p=None):
        if not replace or size is None or p is not None:
            return self.real(a, size, replace, p)
        out = []
        for _ in range(int(np.prod(size))):
            if self.script:
                out.append(self.script.pop(0) % a)
            else:
                # adversarial: mostly repeats
                out.append(self.rng.randrange(a) if self.rng.random() < 0.4 else self.rng.randrange(min(3, a)))
        return np.array(out, dtype=np.int64).reshape(size)


def ok_sample(h, r, n, k):
    r = [int(x) for x in r]
    h.eq(len(r), k, "sample size", sample=r)
    h.check(all(0 <= x < n for x in r), "index out of range", sample=r)
    h.eq(len(set(r)), k, "repeated index", sample=r)


def part_sample(h):
    from pfrl.utils.random import sample_n_k

    h.rule = "(n,k) x scripted draw sequences (exhaustive for small n,k), then random repeats; buffers with random contents"
    orig = np.random.choice
    try:
        for n, k in [(0, 0), (1, 0), (1, 1), (5, 5), (5, 2), (100, 33), (3, 1), (7, 2), (8, 2), (4, 1), (12, 3)]:
            h.case(("sample", n, k))
            ok_sample(h, sample_n_k(n, k), n, k)
        for n, k in [(0, 1), (3, 4), (3, -1), (0, -1), (10, 11)]:
            h.case(("bad", n, k))
            h.raises(ValueError, lambda: sample_n_k(n, k), "k out of range", n=n, k=k)
        # k=2,n=7: first draw of 4, then refills of 2
        for script in itertools.product(range(7), repeat=4):
            if h.tier == "quick" and script[0] > 2:
                continue
            for tail in ((0, 0, 1, 1), (1, 2, 3, 4), (0, 1, 0, 5)):
                h.case(("script", 7, 2, script, tail))
                np.random.choice = FakeRandom(h.rng, list(script) + list(tail)).choice
                ok_sample(h, sample_n_k(7, 2), 7, 2)
        while h.time_left(0.25):
            k = h.rng.randrange(1, 9)
            n = h.rng.randrange(k, 6 * k + 3)
            np.random.choice = FakeRandom(h.rng).choice
            h.case(("rand", n, k, h.rng.random()))
            ok_sample(h, sample_n_k(n, k), n, k)
    finally:
        np.random.choice = orig


def part_buffers(h):
    from pfrl.collections.random_access_queue import RandomAccessQueue
    from pfrl.replay_buffer import random_subseq
    from pfrl.replay_buffers import EpisodicReplayBuffer, ReplayBuffer

    np.random.seed(h.seed)
    for it in range(h.n(150)):
        n = h.rng.randrange(0, 30)
        q = RandomAccessQueue(range(100, 100 + n))
        for _ in range(h.rng.randrange(0, n + 1) // 2):
            q.append(q[-1] + 1)
            q.popleft()
        cont = list(q)
        k = h.rng.randrange(0, n + 1)
        h.case(("queue.sample", tuple(cont), k))
        r = q.sample(k)
        h.eq(len(r), k, "queue sample size")
        h.check(set(r) <= set(cont) and len(set(r)) == k, "queue sample not distinct entries", got=list(map(int, r)))
        h.eq(list(q), cont, "queue changed by sample")
        h.raises(ValueError, lambda: q.sample(n + 1), "oversized sample")

        rb = ReplayBuffer(h.rng.choice([None, 5, 50]))
        for i in range(n):
            rb.append(i, i, float(i), i + 1)
        m = len(rb)
        k = h.rng.randrange(0, m + 1)
        h.case(("replay.sample", n, k))
        r = rb.sample(k)
        h.eq(len(r), k, "replay sample size")
        ids = [e[0]["state"] for e in r]
        h.check(len(set(ids)) == k and set(ids) <= set(range(n - m, n)), "replay sample entries", ids=ids)

        eb = EpisodicReplayBuffer()
        lens = [h.rng.randrange(1, 7) for _ in range(h.rng.randrange(1, 6))]
        s = 0
        eps = []
        for L in lens:
            eps.append(list(range(s, s + L)))
            for j in range(L):
                eb.append(s, 0, 0.0, s + 1, is_state_terminal=(j == L - 1))
                s += 1
        k = h.rng.randrange(0, len(lens) + 1)
        ml = h.rng.choice([None, 1, 2, 3, 10])
        h.case(("episodes", tuple(lens), k, ml))
        r = eb.sample_episodes(k, ml)
        h.eq(len(r), k, "episode sample size")
        seen = set()
        for e in r:
            ids = [t["state"] for t in e]
            src = [x for x in eps if ids and ids[0] in x]
            h.check(len(src) == 1, "episode not stored", ids=ids)
            src = src[0]
            h.check(tuple(src) not in seen, "episode repeated", ids=ids)
            seen.add(tuple(src))
            want = len(src) if ml is None else min(len(src), ml)
            o = src.index(ids[0])
            h.eq(ids, src[o:o + want], "not a contiguous part of the episode")
        r2 = eb.sample(min(3, s))
        h.eq(len({e[0]["state"] for e in r2}), min(3, s), "episodic transition sample")
        seq = list(range(n))
        L = h.rng.randrange(0, 12)
        h.case(("subseq", n, L))
        sub = list(random_subseq(seq, L))
        h.eq(len(sub), min(n, L), "subseq length")
        if sub:
            h.eq(sub, seq[sub[0]:sub[0] + len(sub)], "subseq contiguous")


def even(h, counts, keys, per, what, **kw):
    """every key drawn about equally often (8 standard deviations)"""
    M = sum(counts.values()) / per if per else 0
    q = per / len(keys)
    for k in keys:
        dev = 8 * (M * q * (1 - q)) ** 0.5 + 1
        h.check(abs(counts.get(k, 0) - M * q) <= dev, what, key=k, count=counts.get(k, 0), expected=M * q, **kw)


def part_uniform(h):
    """each element, position and subsequence start is drawn equally often"""
    from collections import Counter

    from pfrl.collections.random_access_queue import RandomAccessQueue
    from pfrl.replay_buffer import random_subseq
    from pfrl.replay_buffers import EpisodicReplayBuffer, ReplayBuffer
    from pfrl.utils.random import sample_n_k

    np.random.seed(h.seed)
    h.rule = "frequencies of 2000 draws against the uniform distribution, 8 standard deviations"
    for n, k in [(5, 2), (8, 2), (30, 3), (3, 3), (4, 1), (1, 1), (9, 4)]:
        h.case(("uniform", n, k))
        c = Counter()
        for _ in range(2000):
            c.update(int(i) for i in sample_n_k(n, k))
        even(h, c, range(n), k, "an index is drawn more or less often than the others", n=n, k=k)
    q = RandomAccessQueue(range(9))
    q.append(9), q.popleft(), q.append(10)
    rb, eb = ReplayBuffer(6), EpisodicReplayBuffer()
    for i in range(9):
        rb.append(i, 0, 0.0, i + 1)
        eb.append(i, 0, 0.0, i + 1, is_state_terminal=i % 3 == 2)
    c, d, e = Counter(), Counter(), Counter()
    for _ in range(2000):
        c.update(q.sample(2))
        d.update(x[0]["state"] for x in rb.sample(2))
        e.update(x[0]["state"] for x in eb.sample_episodes(1))
    h.case(("uniform", "buffers"))
    even(h, c, range(1, 11), 2, "an element of the queue is drawn more or less often")
    even(h, d, range(3, 9), 2, "an entry of the buffer is drawn more or less often")
    even(h, e, (0, 3, 6), 1, "an episode is drawn more or less often")
    for n, L in [(4, 2), (3, 2), (5, 1), (6, 5)]:
        h.case(("uniform", "subseq", n, L))
        c = Counter(random_subseq(list(range(n)), L)[0] for _ in range(2000))
        even(h, c, range(n - L + 1), 1, "a start is drawn more or less often", n=n, L=L)


PARTS = [part_sample, part_buffers, part_uniform]
