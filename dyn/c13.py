"""C13 replay: vector environments and frame stacks over random masks and histories."""
import functools
import time

import gym
import numpy as np


class E(gym.Env):
    """observation, reward, done and info all name the environment, episode and step"""

    observation_space = gym.spaces.Box(low=0, high=255, shape=(2, 3, 1), dtype=np.int64)
    action_space = gym.spaces.Discrete(5)

    def __init__(self, idx, slow=False):
        self.idx, self.ep, self.t, self.slow = idx, 0, 0, slow
        self.seeds = []

    def obs(self):
        return np.full((2, 3, 1), self.idx * 1000000 + self.ep * 1000 + self.t, dtype=np.int64)

    def reset(self):
        self.ep += 1
        self.t = 0
        self.nap()
        return self.obs()

    def nap(self):
        if self.slow:
            time.sleep(0.002 * ((self.idx * 7 + self.t * 3 + self.ep) % 4))

    def step(self, a):
        self.t += 1
        self.nap()
        return self.obs(), (self.idx, self.ep, self.t, a), (self.t % 3 == 0), {"i": self.idx, "a": a}

    def seed(self, s=None):
        self.seeds.append(s)
        return [self.idx, s]

    def close(self):
        pass


def mk(idx, slow):
    return E(idx, slow)


def drive(h, env, n, rounds, kind, check_obs):
    ep, t = [0] * n, [0] * n

    def val(i):
        return i * 1000000 + ep[i] * 1000 + t[i]

    obs = env.reset()
    for i in range(n):
        ep[i], t[i] = 1, 0
    hist = ["reset"]
    check_obs(obs, val, [True] * n, hist)
    for _ in range(rounds):
        h.case((kind, n, tuple(map(str, hist[-6:]))))
        if h.rng.random() < 0.6:
            acts = [h.rng.randint(0, 4) for _ in range(n)]
            hist.append(("step", tuple(acts)))
            obs, rews, dones, infos = env.step(acts)
            h.check(len(obs) == len(rews) == len(dones) == len(infos) == n, "one result per environment", hist=hist)
            for i in range(n):
                t[i] += 1
            for i in range(n):
                h.eq(tuple(rews[i]), (i, ep[i], t[i], acts[i]), "reward of environment i for its own action", i=i, hist=hist)
                h.eq(bool(dones[i]), t[i] % 3 == 0, "done of environment i", i=i, hist=hist)
                h.eq(infos[i], {"i": i, "a": acts[i]}, "info of environment i", i=i, hist=hist)
            check_obs(obs, val, [False] * n, hist)
        else:
            mask = h.rng.choice([None, np.zeros(n), np.ones(n, dtype=bool), [h.rng.random() < 0.5 for _ in range(n)],
                                 np.array([h.rng.random() < 0.5 for _ in range(n)])])
            m = [False] * n if mask is None else [bool(x) for x in mask]
            hist.append(("reset", tuple(m)))
            obs = env.reset(mask) if mask is not None else env.reset()
            for i in range(n):
                if not m[i]:
                    ep[i] += 1
                    t[i] = 0
            check_obs(obs, val, [not x for x in m], hist)


def plain(h, n):
    def chk(obs, val, was_reset, hist):
        h.eq(len(obs), n, "one observation per environment", hist=hist)
        for i in range(n):
            o = np.asarray(obs[i])
            h.check(o.shape == (2, 3, 1) and np.all(o == val(i)), "observation of environment i", i=i, observed=o.ravel()[:2].tolist(),
                    expected=val(i), hist=hist)

    return chk


def stacked(h, n, k, axis, single=False):
    fr = [[] for _ in range(n)]
    kept = []

    def chk(obs, val, was_reset, hist):
        for i in range(n):
            if was_reset[i]:
                fr[i] = [val(i)] * k
            elif hist[-1][0] == "step":
                fr[i] = (fr[i] + [val(i)])[-k:]
            o = obs if single else obs[i]
            a = np.asarray(o)
            want = np.concatenate([np.full((2, 3, 1), v, dtype=np.int64) for v in fr[i]], axis=axis)
            h.check(a.shape == want.shape and np.array_equal(a, want), "last k frames of the current episode in order", i=i, k=k, axis=axis,
                    frames=fr[i], observed=a.ravel()[:12].tolist(), hist=hist[-8:])
            kept.append((o, want, i, len(hist)))
        for o, want, i, at in kept[-6 * n:]:
            h.check(np.array_equal(np.asarray(o), want), "earlier observation unchanged", i=i, at=at, now=len(hist))

    return chk


def part_serial(h):
    from pfrl.envs import SerialVectorEnv

    for it in range(h.n(60)):
        n = h.rng.randint(1, 5)
        drive(h, SerialVectorEnv([E(i) for i in range(n)]), n, 20, "serial", plain(h, n))
    es = [E(i) for i in range(4)]
    SerialVectorEnv(es).seed([5, 6, 7, 8])
    h.case("serial seed")
    h.eq([e.seeds for e in es], [[5], [6], [7], [8]], "seed i goes to environment i")


def part_multi(h):
    from pfrl.envs import MultiprocessVectorEnv

    for it in range(h.n(6, 20)):
        n = h.rng.randint(1, 4)
        env = MultiprocessVectorEnv([functools.partial(mk, i, it % 2 == 0) for i in range(n)])
        try:
            drive(h, env, n, 25, "multiprocess", plain(h, n))
            r = env.seed([10 + i for i in range(n)])
            h.eq([list(x) for x in r], [[i, 10 + i] for i in range(n)], "seed i goes to environment i")
            r = env.seed(77)
            h.eq([list(x) for x in r], [[i, 77] for i in range(n)], "one seed given: every environment gets it")
            r = env.seed()
            h.eq([list(x) for x in r], [[i, None] for i in range(n)], "no seed given: no environment gets one")
            for k in (n - 1, n + 1):
                try:
                    env.seed([1] * k)
                except ValueError:
                    continue
                h.check(False, "a list of seeds of the wrong length is refused", n=n, k=k)
            drive_more = env.reset(np.ones(n))
            h.eq(len(drive_more), n, "masked reset after seeding")
        finally:
            env.close()
        for p in env.ps if hasattr(env, "ps") else []:
            h.check(not p.is_alive(), "workers stop on close")


def part_vstack(h):
    from pfrl.envs import MultiprocessVectorEnv, SerialVectorEnv
    from pfrl.wrappers import VectorFrameStack

    for it in range(h.n(80)):
        n, k, axis = h.rng.randint(1, 4), h.rng.randint(1, 5), h.rng.randint(0, 2)
        env = VectorFrameStack(SerialVectorEnv([E(i) for i in range(n)]), k=k, stack_axis=axis)
        drive(h, env, n, 20, "vstack", stacked(h, n, k, axis))
    n = 3
    env = VectorFrameStack(MultiprocessVectorEnv([functools.partial(mk, i, True) for i in range(n)]), k=3, stack_axis=0)
    try:
        drive(h, env, n, 15, "vstack-mp", stacked(h, n, 3, 0))
    finally:
        env.close()


def part_stack(h):
    from pfrl.wrappers.atari_wrappers import FrameStack

    for it in range(h.n(80)):
        k, order = h.rng.randint(1, 5), h.rng.choice(["hwc", "chw"])
        env = FrameStack(E(0), k, channel_order=order)
        chk = stacked(h, 1, k, {"hwc": 2, "chw": 0}[order], True)
        ep = t = 0
        val = lambda i: ep * 1000 + t
        hist = []
        for s in range(15):
            if s == 0 or h.rng.random() < 0.25:
                o = env.reset()
                ep, t = ep + 1, 0
                hist.append(("reset",))
                chk(o, val, [True], hist)
            else:
                o, r, d, info = env.step(s)
                t += 1
                hist.append(("step", s))
                h.case(("stack", k, order, tuple(hist[-5:])))
                h.eq((tuple(r), d, info), ((0, ep, t, s), t % 3 == 0, {"i": 0, "a": s}), "reward, done and info passed on")
                chk(o, val, [False], hist)


PARTS = [part_serial, part_stack, part_vstack, part_multi]
