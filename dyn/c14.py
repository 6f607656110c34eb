"""C14 replay: wrappers over random environments, histories and parameters."""
import gym
import numpy as np

from dynmain import Violation


class Rand(gym.Env):
    """random episodes; stepping after the end of an episode is an error"""

    observation_space = gym.spaces.Box(low=0, high=255, shape=(2, 3), dtype=np.uint8)
    action_space = gym.spaces.Discrete(6)

    def __init__(self, rng, p_done=0.15, p_nr=0.1, info_kinds=3):
        self.rng, self.p_done, self.p_nr, self.kinds = rng, p_done, p_nr, info_kinds
        self.over, self.log, self.resets = True, [], 0
        self.cur = None
        self.n_lives = 3
        self.np_random = np.random.RandomState(rng.randint(0, 10**6))
        if not hasattr(self.np_random, "integers"):
            class G:
                def __init__(s, r):
                    s.r = r

                def integers(s, a, b=None):
                    return s.r.randint(a, b)

                randint = integers

                def rand(s):
                    return s.r.rand()
            self.np_random = G(self.np_random)

    class _Ale:
        def __init__(self, e):
            self.e = e

        def lives(self):
            return self.e.n_lives

    @property
    def ale(self):
        return self._Ale(self)

    def get_action_meanings(self):
        return ["NOOP", "FIRE", "UP", "DOWN", "LEFT", "RIGHT"]

    def frame(self):
        return np.array([self.rng.randint(0, 255) for _ in range(6)], dtype=np.uint8).reshape(2, 3)

    def reset(self, **k):
        self.over = False
        self.cur = self.frame()
        self.n_lives = self.rng.randint(1, 4)
        self.resets += 1
        self.log.append(("reset", self.cur))
        return self.cur

    def step(self, a):
        if self.over:
            raise Violation("environment stepped after the end of an episode", last=str(self.log[-1:])[:300])
        r = self.rng.choice([-2.5, -1.0, -0.25, 0.0, 0.0, 0.5, 1.0, 7.25])
        done = self.rng.random() < self.p_done
        info = {"k": len(self.log)}
        x = self.rng.randint(0, self.kinds)
        nr = False
        if x == 1:
            info["needs_reset"] = False
        elif x >= 2 and self.rng.random() < self.p_nr * 2:
            nr = info["needs_reset"] = True
        self.over = done or nr
        self.n_lives = max(0, self.n_lives + self.rng.choice([0, 0, 0, -1, -1, 1]))
        self.cur = self.frame()
        self.log.append(("step", a, self.cur, r, done, dict(info), info, nr))
        return self.cur, r, done, info


def over(done, info):
    return done or info.get("needs_reset", False)


def part_limit(h):
    from pfrl.wrappers import ContinuingTimeLimit

    for it in range(h.n(150)):
        mx = h.rng.randint(1, 7)
        e = Rand(h.rng, p_done=h.rng.choice([0.0, 0.1]), p_nr=h.rng.choice([0.0, 0.1]))
        w = ContinuingTimeLimit(e, mx)
        try:
            w.step(0)
            h.check(False, "no step before the first reset")
        except AssertionError:
            pass
        for ep in range(4):
            h.eq(w.reset().tolist(), e.cur.tolist(), "reset observation")
            stop = h.rng.randint(1, 10)
            for t in range(1, stop + 1):
                if e.over:
                    break
                a = h.rng.randint(0, 5)
                o, r, d, info = w.step(a)
                s = e.log[-1]
                h.case(("limit", mx, t, ep, s[4], s[7]))
                h.eq((s[1], o.tolist(), r, d), (a, s[2].tolist(), s[3], s[4]), "step passed on unaltered")
                h.eq(bool(info.get("needs_reset", False)), s[7] or t >= mx, "reset requested exactly at the limit", mx=mx, t=t)
                h.eq({k: v for k, v in info.items() if k != "needs_reset"}, {k: v for k, v in s[5].items() if k != "needs_reset"}, "info passed on")


def part_skip(h):
    from pfrl.wrappers.atari_wrappers import MaxAndSkipEnv

    for it in range(h.n(200)):
        skip = h.rng.randint(1, 5)
        e = Rand(h.rng, p_done=h.rng.choice([0.0, 0.1]))
        w = MaxAndSkipEnv(e, skip=skip)
        for ep in range(3):
            h.eq(w.reset().tolist(), e.cur.tolist(), "reset observation")
            for t in range(6):
                if e.over:
                    break
                a, n0 = h.rng.randint(0, 5), len(e.log)
                o, r, d, info = w.step(a)
                ss = e.log[n0:]
                h.case(("skip", skip, len(ss), t, d))
                h.check(all(s[0] == "step" and s[1] == a for s in ss), "the action is repeated", actions=[s[:2] for s in ss])
                h.check(len(ss) == skip or (len(ss) < skip and e.over), "repeated skip times unless the episode ends", skip=skip, steps=len(ss))
                h.close(r, sum(s[3] for s in ss), "rewards summed")
                h.eq((d, info), (ss[-1][4], ss[-1][5]), "done and info of the last step")
                if len(ss) == skip:
                    want = np.maximum(ss[-1][2], ss[-2][2]) if skip >= 2 else ss[-1][2]
                    h.eq(o.tolist(), want.tolist(), "maximum of the last two frames", skip=skip)


def part_lives(h):
    from pfrl.wrappers.atari_wrappers import EpisodicLifeEnv

    for it in range(h.n(250)):
        e = Rand(h.rng, p_done=0.2)
        w = EpisodicLifeEnv(e)
        must = True
        for ep in range(12):
            n0 = len(e.log)
            o = w.reset()
            ev = e.log[n0:]
            h.case(("lives-reset", must, len(ev)))
            h.eq(o.tolist(), e.cur.tolist(), "reset returns the current observation")
            h.check(not e.over, "reset leaves a running episode", events=[x[0] for x in ev])
            if must:
                h.eq([x[0] for x in ev], ["reset"], "a real reset after the game is over")
            else:
                h.check(ev[0][:2] == ("step", 0), "a no-op leaves the lost life", events=[x[:2] for x in ev])
                if len(ev) > 1:
                    h.check(ev[1][0] == "reset" and (ev[0][4] or ev[0][7]) and len(ev) == 2, "no real reset while the game goes on")
            for t in range(20):
                before, a = e.n_lives, h.rng.randint(0, 5)
                o, r, d, info = w.step(a)
                s = e.log[-1]
                h.case(("lives", before, e.n_lives, s[4], s[7]))
                h.eq((s[1], o.tolist(), r, info), (a, s[2].tolist(), s[3], s[5]), "step passed on")
                h.eq(bool(d), s[4] or 0 < e.n_lives < before, "episode ends exactly on a lost life or game over", before=before, now=e.n_lives, done=s[4])
                must = e.over
                if d or info.get("needs_reset", False):
                    break
            else:
                must = None
            if must is None:
                break


def part_resets(h):
    from pfrl.wrappers.atari_wrappers import FireResetEnv, NoopResetEnv

    for it in range(h.n(200)):
        mx = h.rng.randint(1, 6)
        e = Rand(h.rng, p_done=0.25)
        w = NoopResetEnv(e, noop_max=mx)
        if h.rng.random() < 0.4:
            w.override_num_noops = h.rng.randint(1, 9)
        for _ in range(4):
            n0 = len(e.log)
            o = w.reset()
            ev = e.log[n0:]
            steps = [x for x in ev if x[0] == "step"]
            h.case(("noop", mx, w.override_num_noops, len(steps), len(ev)))
            h.check(ev[0][0] == "reset" and all(x[1] == 0 for x in steps), "no-ops after a reset")
            if w.override_num_noops is None:
                h.check(1 <= len(steps) <= mx, "between 1 and noop_max no-ops", n=len(steps), mx=mx)
            else:
                h.eq(len(steps), w.override_num_noops, "the given number of no-ops")
            h.check(not e.over and o is not None, "reset leaves a running episode")
            h.eq(np.asarray(o).tolist(), e.cur.tolist(), "reset returns the current observation")
        e = Rand(h.rng, p_done=0.3)
        w = FireResetEnv(e)
        for _ in range(3):
            n0 = len(e.log)
            o = w.reset()
            ev = e.log[n0:]
            h.case(("fire", tuple(x[0] for x in ev)))
            h.eq([x[1] for x in ev if x[0] == "step"], [1, 2], "fires and moves")
            h.check(not e.over, "reset leaves a running episode")
            h.eq(o.tolist(), e.cur.tolist(), "reset returns the current observation", events=[x[0] for x in ev])
            a = h.rng.randint(0, 5)
            o, r, d, info = w.step(a)
            h.eq((e.log[-1][1], o.tolist(), r, d), (a, e.cur.tolist(), e.log[-1][3], e.log[-1][4]), "step passed on")


def part_noop_range(h):
    """every count in [1, noop_max] occurs"""
    from pfrl.wrappers.atari_wrappers import NoopResetEnv

    seen = set()
    e = Rand(h.rng, p_done=0.0, p_nr=0.0)
    w = NoopResetEnv(e, noop_max=3)
    for _ in range(80):
        n0 = len(e.log)
        w.reset()
        seen.add(len(e.log) - n0 - 1)
    h.case("noop-range")
    h.eq(sorted(seen), [1, 2, 3], "every number of no-ops in [1, noop_max] occurs")


class BoxEnv(gym.Env):
    observation_space = gym.spaces.Box(low=-5, high=5, shape=(3,), dtype=np.float64)

    def __init__(self, space):
        self.action_space = space
        self.got = None
        self.o = np.arange(3, dtype=np.float64)

    def reset(self):
        return self.o

    def step(self, a):
        self.got = a
        self.o = self.o + 0.1
        return self.o, 2.5, False, {"x": 1}


def part_values(h):
    import pfrl.wrappers as W
    from pfrl.wrappers.atari_wrappers import ClipRewardEnv, ScaledFloatFrame

    for it in range(h.n(120)):
        n = h.rng.randint(1, 4)
        low = np.array([h.rng.uniform(-5, 5) for _ in range(n)], dtype=np.float32)
        high = low + np.array([h.rng.uniform(0, 6) for _ in range(n)], dtype=np.float32)
        e = BoxEnv(gym.spaces.Box(low=low.copy(), high=high.copy()))
        w = W.NormalizeActionSpace(e)
        h.eq((w.action_space.low.tolist(), w.action_space.high.tolist()), ([-1.0] * n, [1.0] * n), "normalised action space")
        for _ in range(3):
            a = np.array([h.rng.choice([-1, 1, 0, h.rng.uniform(-1, 1)]) for _ in range(n)], dtype=np.float32)
            a0 = a.copy()
            w.reset()
            w.step(a)
            h.case(("normalize", n, a0.tobytes()))
            h.close(e.got, low + (a0 + 1) * (high - low) / 2, "affine map onto the action box", tol=1e-4)
            h.eq(a.tolist(), a0.tolist(), "the given action is not modified")
            h.eq((e.action_space.low.tolist(), e.action_space.high.tolist()), (low.tolist(), high.tolist()), "the action box is not modified")
        k = h.rng.choice([0.0, 0.1, -2.0, 3.5])
        e = Rand(h.rng, p_done=0.0, p_nr=0.0)
        w = W.ScaleReward(e, k)
        w.reset()
        for _ in range(3):
            a = h.rng.randint(0, 5)
            o, r, d, info = w.step(a)
            s = e.log[-1]
            h.case(("scale", k, s[3]))
            h.close(r, k * s[3], "reward times the factor")
            h.eq(w.original_reward, s[3], "original reward kept")
            h.eq((s[1], o.tolist(), d, info), (a, s[2].tolist(), s[4], s[5]), "the rest of the step passed on")
        w = ClipRewardEnv(e)
        for _ in range(3):
            o, r, d, info = w.step(1)
            s = e.log[-1]
            h.eq(float(r), float((s[3] > 0) - (s[3] < 0)), "reward binned by sign")
            h.eq((o.tolist(), d, info), (s[2].tolist(), s[4], s[5]), "the rest of the step passed on")
        b = BoxEnv(gym.spaces.Box(low=low, high=high))
        w = W.CastObservationToFloat32(b)
        for get in (w.reset, lambda: w.step(None)[0]):
            o = get()
            h.check(o.dtype == np.float32, "cast to float32")
            h.close(o, b.o, "observation cast", tol=1e-6)
            h.check(w.original_observation.dtype == np.float64 and np.array_equal(w.original_observation, b.o), "original observation kept")
        e = Rand(h.rng, p_done=0.0, p_nr=0.0)
        w = ScaledFloatFrame(e)
        for get in (w.reset, lambda: w.step(0)[0]):
            o = get()
            h.check(o.dtype == np.float32, "scaled frames are float32")
            h.close(o, e.cur / 255.0, "frames divided by 255", tol=1e-6)


def part_random_action(h):
    import pfrl.wrappers as W

    for frac in (0.0, 0.25, 1.0):
        e = Rand(h.rng, p_done=0.0, p_nr=0.0)
        w = W.RandomizeAction(e, frac)
        w.seed(h.rng.randint(0, 10**6)) if frac == 0.25 and hasattr(e, "seed") else None
        w.reset()
        cnt, N = [0] * 6, 3000
        for _ in range(N):
            w.step(5)
            cnt[e.log[-1][1]] += 1
        h.case(("random-action", frac))
        want = [frac / 6] * 5 + [1 - frac * 5 / 6]
        for a in range(6):
            sd = (want[a] * (1 - want[a]) / N) ** 0.5
            h.check(abs(cnt[a] / N - want[a]) <= 6 * sd + 1e-9, "actions replaced with the given fraction", frac=frac, counts=cnt)


PARTS = [part_limit, part_skip, part_lives, part_resets, part_noop_range, part_values, part_random_action]
