"""C11 replay: evaluation runs against scripted environments and a recording agent."""
import statistics

from c10 import Boom, Env, Vec, World


def make_agent(w, training):
    from pfrl.agent import Agent as Base

    class A(Base):
        def __init__(self):
            self.k = 0
            self.training = training
            self.modes = set()

        def _a(self):
            self.k += 1
            self.modes.add(self.training)
            return ("a", self.k)

        def act(self, obs):
            w.tick("act")
            a = self._a()
            w.log.append(("act", 0, obs, a))
            return a

        def observe(self, obs, r, done, reset):
            w.tick("observe")
            self.modes.add(self.training)
            w.log.append(("observe", 0, obs, r, bool(done), bool(reset)))

        def batch_act(self, obss):
            w.tick("act")
            out = []
            for i, o in enumerate(obss):
                out.append(self._a())
                w.log.append(("act", i, o, out[-1]))
            return out

        def batch_observe(self, obss, rs, dones, resets):
            w.tick("observe")
            self.modes.add(self.training)
            for i in range(len(obss)):
                w.log.append(("observe", i, obss[i], rs[i], bool(dones[i]), bool(resets[i])))

        def save(self, d):
            pass

        load = save

        def get_statistics(self):
            return []

    return A()


def protocol(h, w, n_env, mx, complete):
    st = [dict(open=False, obs=None, act=None, pend=None, n=0, told=True) for _ in range(n_env)]
    for e in w.log:
        s = st[e[1]]
        if e[0] == "reset":
            h.check(not s["open"] and s["pend"] is None, "reset only after the episode ended", event=e)
            s.update(open=True, obs=e[2], act=None, n=0, told=False)
        elif e[0] == "act":
            h.check(s["open"] and s["pend"] is None and not s["told"], "act within an episode", event=e)
            h.eq(e[2], s["obs"], "acts on the latest observation", event=e)
            s["act"] = e[3]
        elif e[0] == "step":
            h.check(s["open"] and s["pend"] is None, "step within an episode", event=e)
            h.eq(e[2], s["act"], "action for the latest observation", event=e)
            s.update(obs=e[3], pend=e, act=None, n=s["n"] + 1)
        elif e[0] == "observe":
            h.check(s["pend"] is not None, "each step observed once", event=e)
            _, _, _, o, r, d, nr = s["pend"]
            h.eq(e[2:5], (o, r, d), "observed step", event=e)
            over = d or nr or (mx is not None and s["n"] == mx)
            told = e[4] or e[5]
            h.check(told or not over, "an episode end is observed as done or reset", event=e)
            s.update(pend=None, told=told, open=not over)
    if complete:
        for i, s in enumerate(st):
            h.check(s["pend"] is None, "the last step is observed")
            h.check(s["told"], "the run ends with a reset seen by the agent", env=i, tail=w.log[-4:])


def episodes(w, n_env, mx):
    """per batch step: list of (number, return, length) finished; and running state"""
    num, nxt = list(range(n_env)), n_env
    cur = [[0.0, 0] for _ in range(n_env)]
    fin = {}
    steps = [e for e in w.log if e[0] == "step"]
    assert len(steps) % n_env == 0
    out = []
    for b in range(len(steps) // n_env):
        for e in steps[b * n_env:(b + 1) * n_env]:
            i = e[1]
            cur[i][0] += e[4]
            cur[i][1] += 1
            if e[5] or e[6] or (mx is not None and cur[i][1] == mx):
                fin[num[i]] = (cur[i][0], cur[i][1])
                num[i] = None
                cur[i] = [0.0, 0]
        for i in range(n_env):
            if num[i] is None:
                num[i] = nxt
                nxt += 1
        out.append((dict(fin), {num[i]: tuple(cur[i]) for i in range(n_env)}))
    return out


def expected(hist, n_steps, n_eps):
    """(index of the terminating step, [(return, length)])"""
    for t, (fin, run) in enumerate(hist):
        k = 0
        while k in fin:
            k += 1
        if n_eps is not None:
            if k >= n_eps:
                return t, [fin[i] for i in range(n_eps)]
            continue
        tot, res = 0, []
        for i in range(k):
            tot += fin[i][1]
            if tot > n_steps:
                break
            res.append(fin[i])
        if tot >= n_steps:
            return t, res
        if tot + run[k][1] >= n_steps:
            return t, res if k else [run[k]]
    return None, None


def one(h, mode, it):
    from pfrl.experiments import evaluator as m

    n = h.rng.choice([1, 2, 3, 4]) if mode == "batch" else 1
    mx = h.rng.choice([None, 1, 2, 5])
    by_steps = h.rng.random() < 0.5
    k = h.rng.choice([1, 2, 3, 7, 12])
    fault = (h.rng.randrange(1, 50), h.rng.random() < 0.3) if h.rng.random() < 0.3 else None
    w = World(h, h.rng.choice([0.1, 0.3, 0.7, 1.0]), h.rng.choice([0.0, 0.0, 0.3]), fault)
    tr = h.rng.random() < 0.7
    h.case((mode, n, mx, by_steps, k, fault, w.p_done, w.p_reset, tr, it))
    env = Vec(w, n) if mode == "batch" else Env(w)
    ag = make_agent(w, tr)
    kw = dict(n_steps=k if by_steps else None, n_episodes=None if by_steps else k, max_episode_len=mx)
    run = m.batch_run_evaluation_episodes if mode == "batch" else m.run_evaluation_episodes
    caught, r = None, None
    try:
        r = run(env, ag, **kw)
    except (Boom, KeyboardInterrupt) as e:
        caught = e
    h.eq(ag.training, tr, "mode restored")
    h.check(ag.modes <= {False}, "acts and observes in evaluation mode only", modes=str(ag.modes))
    h.check(caught is w.raised, "exceptions propagate", caught=repr(caught), raised=repr(w.raised))
    protocol(h, w, n, mx, caught is None)
    if caught is not None:
        return
    hist = episodes(w, n, mx)
    if mode == "batch":
        t, res = expected(hist, kw["n_steps"], kw["n_episodes"])
        h.eq(t, len(hist) - 1, "ends at the first step where the request is fulfilled", steps=len(hist))
    else:
        fin = hist[-1][0]
        if by_steps:
            h.eq(len(hist), k, "number of steps")
            res = [fin[i] for i in sorted(fin)] or [list(hist[-1][1].values())[0]]
        else:
            h.eq(len(fin), k, "number of episodes")
            res = [fin[i] for i in sorted(fin)]
    sc, ln = r
    h.eq([float(x) for x in sc], [float(a) for a, _ in res], "returns", got_lengths=str(ln), want_lengths=str([b for _, b in res]))
    h.eq([float(x) for x in ln], [float(b) for _, b in res], "lengths")


def part_serial(h):
    h.rule = "random scripted environments, budgets, limits and faults"
    for it in range(h.n(1500)):
        one(h, "serial", it)


def part_batch(h):
    for it in range(h.n(2000)):
        one(h, "batch", it)


def part_performance(h):
    import pfrl
    from pfrl.experiments import evaluator as m

    class VE(pfrl.env.VectorEnv):
        def __init__(self, v):
            self.v, self.num_envs = v, v.num_envs

        def reset(self, mask=None):
            return self.v.reset(mask)

        def step(self, a):
            return self.v.step(a)

        def seed(self, s):
            pass

        def close(self):
            pass

    for it in range(h.n(200)):
        w = World(h, 0.3, 0.1)
        vec = h.rng.random() < 0.5
        h.case(("performance", vec, it))
        env = VE(Vec(w, 2)) if vec else Env(w)
        k = h.rng.choice([1, 2, 5])
        by_steps = h.rng.random() < 0.5
        got = []
        nm = "batch_run_evaluation_episodes" if vec else "run_evaluation_episodes"
        st = m.eval_performance(env, make_agent(w, True), k if by_steps else None, None if by_steps else k, max_episode_len=6)
        hist = episodes(w, 2 if vec else 1, 6)
        if vec:
            _, res = expected(hist, k if by_steps else None, None if by_steps else k)
        else:
            fin = hist[-1][0]
            res = [fin[i] for i in sorted(fin)] or [list(hist[-1][1].values())[0]]
        s, ln = [float(a) for a, _ in res], [float(b) for _, b in res]
        h.eq(st["episodes"], len(s), "episodes")
        for pre, x in (("", s), ("length_", ln)):
            h.close(st[pre + "mean"], statistics.mean(x), pre + "mean")
            h.close(st[pre + "median"], statistics.median(x), pre + "median")
            h.close(st[pre + "stdev"], statistics.stdev(x) if len(x) > 1 else 0.0, pre + "stdev")
            h.close(st[pre + "max"], max(x), pre + "max")
            h.close(st[pre + "min"], min(x), pre + "min")


PARTS = [part_serial, part_batch, part_performance]
