"""C10 replay: training loops against a scripted environment and a recording agent."""
import os

import numpy as np


class Boom(Exception):
    pass


class World:
    """one event log shared by the environments, the agent and the hooks"""

    def __init__(self, h, p_done, p_reset, fault=None):
        self.h, self.p_done, self.p_reset = h, p_done, p_reset
        self.log, self.calls, self.fault = [], 0, fault
        self.uid = 0
        self.raised = None

    def tick(self, where):
        self.calls += 1
        if self.fault is not None and self.calls == self.fault[0]:
            self.raised = (KeyboardInterrupt if self.fault[1] else Boom)(where)
            raise self.raised

    def obs(self):
        self.uid += 1
        return ("o", self.uid)


class Env:
    def __init__(self, w, i=0):
        self.w, self.i, self.closed = w, i, 0

    def reset(self):
        self.w.tick("reset")
        self.last = self.w.obs()
        self.w.log.append(("reset", self.i, self.last))
        return self.last

    def step(self, a):
        self.w.tick("step")
        w = self.w
        self.last = w.obs()
        d, nr = w.h.rng.random() < w.p_done, w.h.rng.random() < w.p_reset
        r = float(w.h.rng.choice([0, 1, -2, 3]))
        info = {"needs_reset": nr} if (nr or w.h.rng.random() < 0.3) else {}
        w.log.append(("step", self.i, a, self.last, r, d, nr))
        return self.last, r, d, info

    def close(self):
        self.closed += 1


class Vec:
    """a vector environment of its own (the repository's are the subject of C13)"""

    def __init__(self, w, n):
        self.w, self.num_envs, self.envs, self.closed = w, n, [Env(w, i) for i in range(n)], 0
        self.last = [None] * n

    def reset(self, mask=None):
        mask = [False] * self.num_envs if mask is None else mask
        assert len(mask) == self.num_envs
        for i, e in enumerate(self.envs):
            if not mask[i]:
                self.last[i] = e.reset()
        return tuple(self.last)

    def step(self, acts):
        res = [e.step(a) for e, a in zip(self.envs, acts)]
        self.last, rs, ds, infos = [list(x) for x in zip(*res)]
        return tuple(self.last), rs, ds, infos

    def close(self):
        self.closed += 1


def vec_env(w, n):
    return Vec(w, n)


class Agent:
    training = True

    def __init__(self, w, has_t=True, n=1):
        self.w, self.saves, self.n = w, [], n
        self.k = 0
        if has_t:
            self.t = 12345

    def _a(self):
        self.k += 1
        return ("a", self.k)

    def act(self, obs):
        self.w.tick("act")
        a = self._a()
        self.w.log.append(("act", 0, obs, a))
        return a

    def observe(self, obs, r, done, reset):
        self.w.tick("observe")
        self.w.log.append(("observe", 0, obs, r, bool(done), bool(reset)))

    def batch_act(self, obss):
        self.w.tick("act")
        out = []
        for i, o in enumerate(obss):
            out.append(self._a())
            self.w.log.append(("act", i, o, out[-1]))
        return out

    def batch_observe(self, obss, rs, dones, resets):
        self.w.tick("observe")
        for i in range(len(obss)):
            self.w.log.append(("observe", i, obss[i], rs[i], bool(dones[i]), bool(resets[i])))

    def get_statistics(self):
        return []

    def save(self, path):
        self.saves.append(os.path.basename(path))


class FakeEvaluator:
    def __init__(self, w, agent, good=None):
        self.w, self.agent, self.calls, self.max_score, self.good = w, agent, [], -1e9, good
        self.env = Env(w)

    def evaluate_if_necessary(self, t, episodes, env=None, agent=None):
        self.w.tick("evaluate")
        self.calls.append(t)
        self.w.log.append(("evaluate", t))
        if self.w.h.rng.random() < 0.5:
            s = self.w.h.rng.uniform(0, 10)
            self.max_score = max(s, self.max_score)
            return s


def check_protocol(h, w, n_env, mx, complete, hooks, off=0):
    """the log of one run follows the protocol; returns the number of steps"""
    st = [dict(open=False, obs=None, act=None, pend=None, n=0) for _ in range(n_env)]
    total = 0
    for e in w.log:
        if e[0] in ("hook", "evaluate"):
            continue
        s = st[e[1]]
        if e[0] == "reset":
            h.check(not s["open"] and s["pend"] is None, "reset only after the episode ended", event=e, tail=w.log[-12:])
            s.update(open=True, obs=e[2], act=None, n=0)
        elif e[0] == "act":
            h.check(s["open"] and s["pend"] is None, "act within an episode, after observing", event=e)
            h.eq(e[2], s["obs"], "acts on the latest observation", event=e)
            s["act"] = e[3]
        elif e[0] == "step":
            h.check(s["open"] and s["pend"] is None, "step within an episode", event=e)
            h.eq(e[2], s["act"], "the action chosen for the latest observation", event=e)
            s.update(obs=e[3], pend=e, act=None)
            s["n"] += 1
            total += 1
        elif e[0] == "observe":
            h.check(s["pend"] is not None, "each step observed exactly once", event=e)
            _, _, _, o, r, d, nr = s["pend"]
            want = nr or (mx is not None and s["n"] == mx)
            h.eq(e[2:], (o, r, d, want), "observed step", event=e, n=s["n"], max_len=mx)
            s["pend"] = None
            if d or want:
                s["open"] = False
    if complete:
        for s in st:
            h.check(s["pend"] is None, "the last step is observed")
        hk = [e[2] for e in w.log if e[0] == "hook" and e[1] == 0]
        for k in range(hooks):
            h.eq([e[2] for e in w.log if e[0] == "hook" and e[1] == k], list(range(off + 1, off + total + 1)), "hook calls", hook=k, all=hk[:30])
    return total


def mkhook(w, k, env, agent, h):
    def hook(e, a, t):
        h.check(e is env and a is agent, "hook receives env and agent")
        w.tick("hook")
        w.log.append(("hook", k, t))

    return hook


def one(h, mode, it):
    from pfrl.experiments.train_agent import train_agent
    from pfrl.experiments.train_agent_batch import train_agent_batch

    n = h.rng.choice([1, 2, 3]) if mode == "batch" else 1
    mx = h.rng.choice([None, None, 1, 2, 5])
    steps, off = h.rng.choice([1, 2, 3, 7, 20]), h.rng.choice([0, 0, 0, 1, 4])
    fault = (h.rng.randrange(1, 60), h.rng.random() < 0.3) if h.rng.random() < 0.4 else None
    w = World(h, h.rng.choice([0.0, 0.2, 0.6, 1.0]), h.rng.choice([0.0, 0.0, 0.3]), fault)
    has_t = h.rng.random() < 0.7
    h.case((mode, n, mx, steps, off, fault, w.p_done, w.p_reset, it))
    env = vec_env(w, n) if mode == "batch" else Env(w)
    agent = Agent(w, has_t, n)
    hooks = [mkhook(w, k, env, agent, h) for k in range(2)]
    ev = FakeEvaluator(w, agent) if h.rng.random() < 0.5 else None
    good = h.rng.choice([None, 5.0, 9.0]) if ev else None
    during = h.rng.random() < 0.5
    kw = dict(agent=agent, env=env, steps=steps, outdir=h.scratch, max_episode_len=mx, step_offset=off,
              evaluator=ev, successful_score=good, step_hooks=hooks)
    if mode == "serial":
        kw["eval_during_episode"] = during
    caught = None
    try:
        (train_agent if mode == "serial" else train_agent_batch)(**kw)
    except (Boom, KeyboardInterrupt) as e:
        caught = e
    h.check(caught is w.raised, "an exception is re-raised, and only then", caught=repr(caught), raised=repr(w.raised))
    total = check_protocol(h, w, n, mx, caught is None, 2, off)
    if caught is not None:
        if len(w.log) > n:
            h.check(agent.saves and agent.saves[-1].endswith("_except"), "saved on exception", saves=agent.saves)
            if mode == "serial":
                h.eq(agent.saves[-1], "%d_except" % (off + total), "name of the saved agent")
        return
    h.eq(agent.saves[-1], "%d_finish" % (off + total), "final save", saves=agent.saves)
    stopped = ev is not None and good is not None and ev.max_score >= good
    if mode == "serial":
        want = max(steps - off, 0)
        h.check(total == want or (stopped and total < want), "number of steps", total=total, steps=steps, off=off)
    else:
        h.check(off + total >= steps or stopped, "enough steps", total=total, steps=steps, off=off)
        h.check(total == n or off + total - n < steps, "no batch step beyond the request", total=total, steps=steps, off=off)
    if has_t:
        h.eq(agent.t, off, "agent.t at the start")
    if ev is not None:
        per = [i for i, e in enumerate(w.log) if e[0] == "evaluate"]
        for i in per:
            done = sum(1 for e in w.log[:i] if e[0] == "step")
            h.eq(w.log[i][1], off + done, "step number given to the evaluator")
    # every episode that ended before the last step was followed by a reset
    for i in range(n):
        ev_i = [e for e in w.log if e[0] in ("reset", "observe", "act") and e[1] == i]
        for a, b in zip(ev_i, ev_i[1:]):
            if a[0] == "observe":
                ended = a[4] or a[5]
                h.eq(b[0] == "reset", ended, "reset iff the episode ended", after=a)


def part_serial(h):
    h.rule = "random scripted environments, limits, offsets, faults, hooks and evaluators"
    for it in range(h.n(1500)):
        one(h, "serial", it)


def part_batch(h):
    for it in range(h.n(1500)):
        one(h, "batch", it)


class Counter:
    def __init__(self, v=0):
        self.value = v

    def get_lock(self):
        import contextlib

        return contextlib.nullcontext()


class Ev:
    def __init__(self, at=None):
        self.n, self.at, self.on = 0, at, False

    def is_set(self):
        self.n += 1
        if self.at is not None and self.n >= self.at:
            self.on = True
        return self.on

    def set(self):
        self.on = True


def part_async(h):
    """one worker of asynchronous training; the others only advance the counter"""
    import importlib

    m = importlib.import_module("pfrl.experiments.train_agent_async")

    class Killed(BaseException):
        pass

    def kill(*a):
        raise Killed()

    # stand-in for the signal to the process group: nothing is ever killed
    real_kill, os.killpg = os.killpg, kill
    real_kill1, os.kill = os.kill, kill
    try:
        for it in range(h.n(1500)):
            mx, steps = h.rng.choice([None, None, 1, 3]), h.rng.choice([1, 3, 10, 25])
            fault = (h.rng.randrange(1, 60), h.rng.random() < 0.3) if h.rng.random() < 0.4 else None
            w = World(h, h.rng.choice([0.0, 0.2, 0.6]), h.rng.choice([0.0, 0.3]), fault)
            idx = h.rng.choice([0, 1])
            h.case(("async", idx, mx, steps, fault, it))
            env, agent = Env(w), Agent(w, False)
            other = h.rng.choice([0, 0, 1, 2])
            cnt, ep = Counter(), Counter()

            def hook(e, a, t):
                h.eq(t, cnt.value, "hook gets the global step")
                w.tick("hook")
                w.log.append(("hook", 0, t))

            real_tick = w.tick

            def tick(where):
                if where == "step":
                    cnt.value += h.rng.randint(0, other)
                real_tick(where)

            w.tick = tick
            ev = FakeEvaluator(w, agent) if h.rng.random() < 0.5 else None
            good = 7.0 if ev else None
            stop, exn = Ev(h.rng.choice([None, 5])), Ev(h.rng.choice([None, None, 6]))
            caught = killed = None
            c0 = 0
            try:
                m.train_loop(process_idx=idx, env=env, agent=agent, steps=steps, outdir=h.scratch, counter=cnt,
                             episodes_counter=ep, stop_event=stop, exception_event=exn, max_episode_len=mx,
                             evaluator=ev, eval_env=None, successful_score=good, global_step_hooks=[hook])
            except Killed:
                killed = True
            except (Boom, KeyboardInterrupt) as e:
                caught = e
            check_protocol(h, w, 1, mx, False, 0)
            h.check(caught is w.raised, "an exception is re-raised, and only then", caught=repr(caught))
            if killed:
                h.check(idx == 0 and exn.on and agent.saves and agent.saves[-1].endswith("_except"), "saved before killing", saves=agent.saves)
                continue
            if caught is not None:
                if idx == 0:
                    h.check(agent.saves and agent.saves[-1].endswith("_except"), "saved on exception", saves=agent.saves)
                continue
            hk = [e[2] for e in w.log if e[0] == "hook"]
            h.eq(len(hk), sum(1 for e in w.log if e[0] == "step"), "hook once per step")
            h.check(all(b > a for a, b in zip([c0] + hk, hk)), "global step numbers increase", hk=hk)
            h.eq(sum(1 for s in agent.saves if s == "%d_finish" % steps), int(hk[-1] == steps), "final save", saves=agent.saves, last=hk[-1])
            h.check(hk[-1] >= steps or stop.on, "stops only at the step budget or on a stop event", last=hk[-1], steps=steps)
            h.check(all(t < steps for t in hk[:-1]), "no step after the budget", hk=hk[-4:], steps=steps)
    finally:
        os.killpg, os.kill = real_kill, real_kill1


PARTS = [part_serial, part_batch, part_async]
