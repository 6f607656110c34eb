"""C07 replay: real queues in scratch directories.

Crash points: while an operation runs, every executed line of the module is a point
at which the process may die; what it leaves behind is what the operating system has
received by then.  Every file that has grown since the last point is also cut at
every byte boundary class (nothing of it, a part, all but a byte)."""
import os
import shutil
import sys
import tempfile

import numpy as np


def read_tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
        for x in fs:
            q = os.path.join(r, x)
            with open(q, "rb") as f:
                out[os.path.relpath(q, d)] = f.read()
    return out


def write_tree(t, d):
    os.makedirs(d)
    for k in sorted(t):
        q = os.path.join(d, k)
        if t[k] is None:
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(t[k])


class Images:
    """crash images of a directory while the module runs"""

    def __init__(self, d):
        self.d = d
        self.cur = read_tree(d) if os.path.isdir(d) else None
        self.images = []
        self.files = ("persistent_collections.py", "random_access_queue.py")

    def sig(self):
        s = []
        for r, ds, fs in os.walk(self.d):
            for x in fs:
                try:
                    st = os.stat(os.path.join(r, x))
                except OSError:
                    continue
                s.append((r, x, st.st_size, st.st_mtime_ns, st.st_ino))
            s.append((r, tuple(sorted(ds))))
        return s

    def point(self):
        sg = self.sig()
        if sg == getattr(self, "last", None):
            return
        self.last = sg
        if not os.path.isdir(self.d):
            return
        new = read_tree(self.d)
        old = dict(self.cur or {})
        # a renamed file is not written again
        ino = {k: os.stat(os.path.join(self.d, k)).st_ino for k in new if new[k] is not None}
        was = {i: k for k, i in getattr(self, "ino", {}).items()}
        for k, i in ino.items():
            if i in was and was[i] != k and was[i] in old:
                old[k] = old[was[i]]
        self.ino = ino
        mt = {k: os.stat(os.path.join(self.d, k)).st_mtime_ns for k in ino}
        for k in mt:
            if mt[k] != getattr(self, "mt", {}).get(k, mt[k]) and new[k] and (new[k] == old.get(k) or not new[k].startswith(old.get(k) or b"")):
                old[k] = b""  # truncated and written again
        self.mt = mt
        grown = [k for k, v in new.items() if v and v != old.get(k) and v.startswith(old.get(k) or b"")]
        for k in grown:
            a, b = len(old.get(k) or b""), len(new[k])
            for c in sorted({a, a + 1, (a + b) // 2, b - 1}):
                if a <= c < b:
                    im = dict(new)
                    im[k] = new[k][:c]
                    # files that grew in the same step may or may not have reached the system
                    self.images.append(im)
                    if len(grown) > 1:
                        im2 = dict(im)
                        for o in grown:
                            if o != k:
                                im2[o] = old.get(o) or b""
                        self.images.append(im2)
        self.images.append(new)
        self.cur = new

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.files):
            return None
        self.point()
        return self.line

    def line(self, frame, event, arg):
        self.point()
        return self.line

    def run(self, f):
        self.point()
        self.images = []
        sys.settrace(self.trace)
        try:
            r = f()
        finally:
            sys.settrace(None)
            self.point()
        return r


def payload(h):
    k = h.rng.randrange(7)
    if k == 0:
        return h.rng.randrange(1000)
    if k == 1:
        return None
    if k == 2:
        return dict(state=np.arange(h.rng.randint(0, 4)), reward=h.rng.random(), state_terminal=False)
    if k == 3:
        return ("x" * h.rng.choice([0, 1, 300, 9000]), h.rng.randrange(100))
    if k == 4:
        return [h.rng.random() for _ in range(3)]
    if k == 5:
        return b"\x00" * h.rng.choice([1, 31, 32, 33, 64])
    return frozenset([h.rng.randrange(5)])


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def eq_list(h, got, want, what):
    got = list(got)
    h.check(len(got) == len(want) and all(same(x, y) for x, y in zip(got, want)), what, got=got, want=want)


def open_q(d, maxlen, chunk=None, ancestor=None):
    from pfrl.collections import persistent_collections as pc

    cls = pc.PersistentRandomAccessQueue
    if chunk is not None:
        cls = type("SmallChunks", (cls,), dict(chunk_size=property(lambda self: chunk)))
    return cls(d, maxlen, ancestor=ancestor)


def last(xs, maxlen):
    return list(xs) if maxlen is None else list(xs)[-maxlen:]


def images_ok(h, im, upto, extra, maxlen, chunk):
    """every crash image reopens to a prefix holding everything appended before"""
    allx = upto + extra
    for j, t in enumerate(im.images):
        d = os.path.join(h.scratch, "image")
        write_tree(t, d)
        try:
            try:
                q = open_q(d, None, chunk)
                got = list(q)
                q.close()
            except Exception as e:
                h.check(False, "reopening after a crash raised %r" % (e,), image={k: (len(v) if v is not None else None) for k, v in t.items()})
                return
            h.check(len(upto) <= len(got) <= len(allx) and all(same(x, y) for x, y in zip(got, allx)),
                    "reopened contents after a crash", got=got, appended_before=upto, interrupted=extra)
            # and the reopened queue goes on working
            q = open_q(d, maxlen, chunk)
            q.append("after")
            q.close()
            q = open_q(d, maxlen, chunk)
            eq_list(h, q, last(got + ["after"], maxlen), "appending after a crash")
            q.close()
        finally:
            shutil.rmtree(d)


def part_histories(h):
    h.rule = "random append histories over sessions, chunk sizes and reader lengths; every crash point of every operation"
    for it in range(h.n(40)):
        if not h.time_left(0.6):
            break
        d = os.path.join(h.scratch, "q%d" % it)
        log = []
        ops = []
        crash = it % 2 == 0
        maxlen0 = h.rng.choice([None, 1, 2, 3, 7, 100])
        h.case(("history", it, maxlen0, ops))
        for s in range(h.rng.randint(1, 4)):
            maxlen = maxlen0 if h.rng.random() < 0.5 else h.rng.choice([None, 1, 2, 3, 7])
            chunk = h.rng.choice([None, None, 1, 40, 100])
            ops.append(("open", maxlen, chunk))
            im = Images(d)
            if crash:
                q = im.run(lambda: open_q(d, maxlen, chunk))
                images_ok(h, im, log, [], maxlen, chunk)
            else:
                q = open_q(d, maxlen, chunk)
            mem = last(log, maxlen)
            eq_list(h, q, mem, "reopened contents")
            for _ in range(h.rng.randint(0, 5)):
                k = h.rng.random()
                if k < 0.6:
                    new = [payload(h)]
                    ops.append(("append",))
                    f = lambda: q.append(new[0])
                elif k < 0.85:
                    new = [payload(h) for _ in range(h.rng.randint(0, 3))]
                    how = h.rng.choice(["list", "tuple", "generator", "iter"])
                    ops.append(("extend", how, len(new)))
                    arg = dict(list=list, tuple=tuple, generator=lambda v: (x for x in v), iter=iter)[how](new)
                    f = lambda: q.extend(arg)
                else:
                    new = []
                    if mem:
                        ops.append(("popleft",))
                        x = q.popleft()
                        h.check(same(x, mem[0]), "popleft returns the oldest element", got=x, want=mem[0])
                        mem = mem[1:]
                    f = lambda: None
                if crash:
                    im.run(f)
                    images_ok(h, im, log, new, maxlen, chunk)
                else:
                    f()
                log = log + new
                mem = last(mem + new, maxlen)
                eq_list(h, q, mem, "contents in memory")
                h.check(len(q) == len(mem), "len")
                if mem:
                    i = h.rng.randrange(-len(mem), len(mem))
                    h.check(same(q[i], mem[i]), "indexing")
                    eq_list(h, [y for y in q.sample(1)][:0], [], "sample")
            if h.rng.random() < 0.7:
                q.close()
            else:
                # the writer dies here: its files as the system has them
                t = read_tree(d)
                q.close()
                shutil.rmtree(d)
                write_tree(t, d)
        shutil.rmtree(d, ignore_errors=True)


def part_mutation(h):
    """elements changed after they were appended are reloaded as appended"""
    for it in range(h.n(5)):
        d = os.path.join(h.scratch, "m%d" % it)
        h.case(("mutated after append", it))
        q = open_q(d, 4)
        x = dict(v=[1])
        q.append(x)
        x["v"].append(2)
        q.close()
        q = open_q(d, 4)
        eq_list(h, q, [dict(v=[1])], "reload")
        q.close()
        shutil.rmtree(d)


def part_ancestors(h):
    h.rule = "chains of ancestor directories of random sizes and session counts"
    for it in range(h.n(40)):
        if not h.time_left(0.9):
            break
        ds, logs = [], []
        desc = []
        h.case(("ancestors", it, desc))
        for level in range(h.rng.randint(1, 4)):
            d = os.path.join(h.scratch, "a%d_%d" % (it, level))
            log = []
            maxlen = h.rng.choice([None, 1, 3, 5, 10, 50])
            chunk = h.rng.choice([None, 1, 60])
            anc = ds[-1] if ds else None
            for s in range(h.rng.randint(1, 3)):
                q = open_q(d, maxlen, chunk, ancestor=anc)
                want = last([x for l in logs for x in l] + log, maxlen)
                desc.append((level, maxlen, len(log)))
                eq_list(h, q, want, "contents with ancestors")
                for _ in range(h.rng.choice([0, 1, 2, 6])):
                    v = (level, len(log))
                    q.append(v)
                    log.append(v)
                q.close()
            ds.append(d)
            logs.append(log)
        for d in ds:
            shutil.rmtree(d)


def part_buffers(h):
    """replay buffers on persistent storage"""
    from pfrl.replay_buffers import PersistentEpisodicReplayBuffer, PersistentReplayBuffer

    for it in range(h.n(10)):
        d = os.path.join(h.scratch, "b%d" % it)
        cap = h.rng.choice([3, 5, 30])
        h.case(("buffer", it, cap))
        log = []
        for s in range(2):
            rb = PersistentReplayBuffer(d, cap)
            h.eq(len(rb), min(cap, len(log)), "reloaded size")
            h.check([t[0]["state"] for t in rb.memory] == log[-cap:], "reloaded transitions", got=[t[0]["state"] for t in rb.memory], want=log)
            for _ in range(h.rng.randint(1, 6)):
                v = len(log)
                rb.append(state=v, action=1, reward=0.0, next_state=v + 1, is_state_terminal=False)
                log.append(v)
            rb.memory.close()
        # a buffer that descends from it
        d2 = os.path.join(h.scratch, "c%d" % it)
        cap2 = h.rng.choice([2, 7, 40])
        rb = PersistentReplayBuffer(d2, cap2, ancestor=d)
        h.check([t[0]["state"] for t in rb.memory] == log[-cap2:], "transitions of the ancestor", got=[t[0]["state"] for t in rb.memory], want=log, cap=cap2)
        for v in range(1000, 1003):
            rb.append(state=v, action=1, reward=0.0, next_state=v + 1, is_state_terminal=False)
        h.check([t[0]["state"] for t in rb.memory] == (log + [1000, 1001, 1002])[-cap2:], "transitions after the ancestor's", got=[t[0]["state"] for t in rb.memory], cap=cap2)
        rb.memory.close()
        shutil.rmtree(d2)
        shutil.rmtree(d)
        h.case(("episodic buffer", it, cap))
        rb = PersistentEpisodicReplayBuffer(d, cap)
        n = 0
        for e in range(h.rng.randint(2, 6)):
            ln = h.rng.randint(1, 3)
            for i in range(ln):
                rb.append(state=n, action=1, reward=0.0, next_state=n + 1, is_state_terminal=i == ln - 1)
                n += 1
            rb.stop_current_episode()
        h.check(len(rb) <= cap, "episodic capacity", size=len(rb))
        rb.memory.close()
        rb.episodic_memory.close()
        shutil.rmtree(d)


PARTS = [part_histories, part_mutation, part_ancestors, part_buffers]
