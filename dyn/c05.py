"""C05 replay: interleaved environments, windows against a specification."""
import numpy as np


def spec(events, n):
    """entries in completion order: lists of transition ids"""
    cur, out = {}, []
    for ev in events:
        if ev[0] == "t":
            _, env, tid, term = ev
            ep = cur.setdefault(env, [])
            ep.append(tid)
            if len(ep) >= n:
                out.append(ep[-n:])
            if term:
                lo = 0 if len(ep) < n else len(ep) - n + 1
                out += [ep[i:] for i in range(lo, len(ep))]
                cur[env] = []
        else:
            ep = cur.get(ev[1], [])
            lo = 0 if len(ep) < n else len(ep) - n + 1
            out += [ep[i:] for i in range(lo, len(ep))]
            cur[ev[1]] = []
    return out


def contents(rb):
    mem = rb.memory
    return [list(e) for e in (mem.data if hasattr(mem, "data") else mem)]


def drive(h, rb, n, cap, nenv, steps, hold):
    events, tid = [], 0
    stopped = {}
    kept = {}
    for _ in range(steps):
        env = h.rng.randrange(nenv)
        if h.rng.random() < 0.15 and not stopped.get(env, True):
            if env == 0 and h.rng.random() < 0.5:
                rb.stop_current_episode()
            else:
                rb.stop_current_episode(env_id=env)
            events.append(("stop", env))
            stopped[env] = True
        else:
            term = h.rng.random() < 0.2
            kw = dict(state=("s", tid), action=tid, reward=float(tid), next_state=("s", tid + 1),
                      next_action=h.rng.choice([None, tid + 1]), is_state_terminal=term, mark=tid * 7)
            kept[tid] = dict(kw)
            if not term and h.rng.random() < 0.5:
                del kw["is_state_terminal"]
            if env == 0 and h.rng.random() < 0.5:
                rb.append(**kw)
            else:
                rb.append(env_id=env, **kw)
            events.append(("t", env, tid, term))
            stopped[env] = term
            tid += 1
        want = spec(events, n)
        if cap is not None:
            want = want[-cap:]
        got = contents(rb) if hold is None else None
        if got is not None and (h.rng.random() < 0.2 or len(events) == steps):
            ids = [[t["action"] for t in e] for e in got]
            h.eq(ids, want, "stored windows", events=events[-20:], n=n, cap=cap)
            for e in got:
                for t in e:
                    w = kept[t["action"]]
                    h.check(all(t.get(k) == v for k, v in w.items()), "stored transition fields", stored=repr(t), given=repr(w))
        h.eq(len(rb), len(want), "length", events=events[-20:], n=n, cap=cap)
    return events


def part_windows(h):
    from pfrl.replay_buffers import PersistentReplayBuffer, PrioritizedReplayBuffer, ReplayBuffer

    h.rule = "random interleavings of appends / terminals / stops over 1-3 envs, n in 1..5, with and without capacity"
    for it in range(h.n(400)):
        n, cap, nenv = h.rng.choice([1, 2, 3, 3, 4, 5]), h.rng.choice([None, 1, 4, 15]), h.rng.choice([1, 2, 3])
        which = h.rng.choice(["plain", "plain", "prio", "pers"])
        if which == "pers" and it % 4:
            which = "plain"
        h.case((which, n, cap, nenv, it))
        if which == "plain":
            rb = ReplayBuffer(cap, num_steps=n)
        elif which == "prio":
            rb = PrioritizedReplayBuffer(cap, num_steps=n)
        else:
            import os

            n, cap = 1, cap or 20
            rb = PersistentReplayBuffer(os.path.join(h.scratch, "p%d" % it), cap)
        ev = drive(h, rb, n, cap, nenv, h.rng.choice([5, 30, 60]), None)
        if which == "plain" and len(rb) > 0:
            h.check(len(rb.sample(min(3, len(rb)))) == min(3, len(rb)), "sample")


PARTS = [part_windows]
