"""C01 replay: operation histories of the real queue against a list."""
import itertools
from dynmain import Violation


def apply(h, Q, init, maxlen, ops):
    ref = list(init)
    if maxlen is not None and len(ref) > maxlen:
        ref = ref[len(ref) - maxlen:]
    q = Q(list(init), maxlen=maxlen) if maxlen is not None else Q(list(init))

    def same(tag):
        h.eq(len(q), len(ref), tag + ": len")
        h.eq(list(q), ref, tag + ": iteration")
        h.eq([q[i] for i in range(len(ref))], ref, tag + ": positive indices")
        h.eq([q[i - len(ref)] for i in range(len(ref))], ref, tag + ": negative indices")
        h.eq(q.maxlen, maxlen, tag + ": maxlen")

    same("init")
    c = itertools.count(1000)
    for op in ops:
        k = op[0]
        if k == "append":
            x = next(c)
            q.append(x)
            ref.append(x)
        elif k == "extend":
            xs = [next(c) for _ in range(op[1])]
            q.extend(iter(xs) if op[2] else xs)
            ref.extend(xs)
        elif k == "popleft":
            if not ref:
                h.raises(IndexError, q.popleft, "popleft of empty")
            else:
                h.eq(q.popleft(), ref.pop(0), "popleft returns oldest")
        elif k == "set":
            i = op[1]
            x = next(c)
            if -len(ref) <= i < len(ref):
                q[i] = x
                ref[i] = x
            else:
                def st():
                    q[i] = x
                h.raises(IndexError, st, "setitem out of range")
        elif k == "get":
            i = op[1]
            if -len(ref) <= i < len(ref):
                h.eq(q[i], ref[i], "getitem")
            else:
                h.raises(IndexError, lambda: q[i], "getitem out of range")
        if maxlen is not None and len(ref) > maxlen:
            del ref[:len(ref) - maxlen]
        same("after %r" % (op,))


def run(h):
    from pfrl.collections.random_access_queue import RandomAccessQueue as Q

    h.rule = "operation histories: exhaustive up to length 4 over a small alphabet, then random longer ones; distinct = distinct (init, maxlen, ops)"
    alpha = [("append",), ("popleft",), ("extend", 2, False), ("extend", 3, True),
             ("set", 0), ("set", -1), ("set", 2), ("get", -3), ("extend", 0, False)]
    for maxlen in (None, 0, 1, 2, 3):
        for n0 in (0, 1, 3):
            for L in range(0, h.n(3, 5)):
                for ops in itertools.product(alpha, repeat=L):
                    h.case(("ops", n0, maxlen, ops))
                    apply(h, Q, list(range(n0)), maxlen, ops)
    while h.time_left(0.25):
        maxlen = h.rng.choice([None, None, 1, 2, 3, 5, 8, 17])
        n0 = h.rng.randrange(0, 12)
        ops = []
        for _ in range(h.rng.randrange(1, 40)):
            r = h.rng.random()
            if r < 0.35:
                ops.append(("append",))
            elif r < 0.6:
                ops.append(("popleft",))
            elif r < 0.7:
                ops.append(("extend", h.rng.randrange(0, 7), h.rng.random() < 0.5))
            elif r < 0.85:
                ops.append(("set", h.rng.randrange(-14, 14)))
            else:
                ops.append(("get", h.rng.randrange(-14, 14)))
        h.case(("rand", n0, maxlen, tuple(ops)))
        apply(h, Q, list(range(n0)), maxlen, ops)
