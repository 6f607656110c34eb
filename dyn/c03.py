"""C03 replay: histories of the tree queues against a list."""
import itertools

import numpy as np


def part_histories(h):
    from pfrl.collections.prioritized import MinTreeQueue, SumTreeQueue

    h.rule = "all op histories up to length 7 from {append,popleft,setitem}, then random long ones; lookup of every boundary position"

    def check(s, m, lst, hist):
        tot = sum(lst) if lst else 0.0
        h.close(s.sum(), tot, "sum tree total", history=hist, content=list(lst))
        if lst:
            h.close(m.min(), min(lst), "min tree minimum", history=hist, content=list(lst))
        else:
            h.check(m.min() == np.inf, "min of empty")
        h.eq(s.length, len(lst), "length") if hasattr(s, "length") else None

    def step(s, m, lst, op, val, pos):
        if op == "a":
            s.append(val)
            m.append(val)
            lst.append(val)
        elif op == "p":
            a, b = s.popleft(), m.popleft()
            w = lst.pop(0)
            h.eq(a, w, "sum tree popleft")
            h.eq(b, w, "min tree popleft")
        else:
            s[pos] = val
            m[pos] = val
            lst[pos] = val

    n = h.n(7, 9)
    for hist in itertools.product("aps", repeat=n):
        s, m, lst = SumTreeQueue(), MinTreeQueue(), []
        vals = []
        ok = True
        for j, op in enumerate(hist):
            if op != "a" and not lst:
                ok = False
                break
            v = float([5, 3, 8, 1, 9, 2, 7, 4, 6][j % 9])
            pos = (j * 7) % len(lst) if lst else 0
            vals.append((op, v, pos))
            if j == 0:
                h.case(("hist", hist))
            step(s, m, lst, op, v, pos)
            check(s, m, lst, vals)
        if not ok:
            continue
    for _ in range(h.n(60)):
        s, m, lst = SumTreeQueue(), MinTreeQueue(), []
        hist = []
        bias = h.rng.choice([0.35, 0.5, 0.7])
        for _ in range(120):
            r = h.rng.random()
            op = "a" if r < bias or not lst else ("p" if r < bias + (1 - bias) * 0.6 else "s")
            v = h.rng.choice([0.0, float(h.rng.randrange(1, 50)), h.rng.random()])
            pos = h.rng.randrange(len(lst)) if lst else 0
            hist.append((op, v, pos))
            step(s, m, lst, op, v, pos)
            check(s, m, lst, hist[-12:])
        h.case(("random", tuple(hist)))
        if lst:
            h.raises((AssertionError, IndexError), lambda: s.__setitem__(len(lst), 1.0), "setitem beyond the end")
            h.raises((AssertionError, IndexError), lambda: s.__setitem__(-1, 1.0), "setitem negative")


def part_lookup(h):
    """positions on and around every cumulative boundary, via the public sampler"""
    from pfrl.collections.prioritized import SumTreeQueue

    orig = np.random.uniform
    try:
        for it in range(h.n(60)):
            s, lst = SumTreeQueue(), []
            for _ in range(h.rng.randrange(1, 14)):
                v = float(h.rng.choice([0, 0, 1, 2, 3, 5]))
                s.append(v)
                lst.append(v)
            for _ in range(h.rng.randrange(0, len(lst))):
                s.popleft()
                lst.pop(0)
                v = float(h.rng.choice([1, 2, 4]))
                s.append(v)
                lst.append(v)
            tot = sum(lst)
            if tot == 0:
                continue
            cum = list(itertools.accumulate([0.0] + lst))
            for pos in sorted({c for c in cum if c < tot} | {c - 0.5 for c in cum if c > 0} | {c + 0.25 for c in cum if c + 0.25 < tot}):
                want = next(i for i in range(len(lst)) if cum[i] <= pos < cum[i + 1])
                h.case(("lookup", tuple(lst), pos))
                asked = []

                def uni(lo=0.0, hi=1.0, size=None):
                    asked.append((float(lo), float(hi)))
                    return pos

                np.random.uniform = uni
                ixs, vals = s.prioritized_sample(1, remove=False)
                np.random.uniform = orig
                if asked != [(0.0, tot)]:
                    h.rule += " (sampler does not draw by uniform(0,total); lookup not scripted)"
                    return
                h.eq(list(ixs), [want], "index selected", priorities=lst, pos=pos)
                h.eq(list(vals), [lst[want]], "value of the selected index")
                h.close(s.sum(), tot, "sum after a non-removing sample")
    finally:
        np.random.uniform = orig


PARTS = [part_histories, part_lookup]
