"""C12 replay: evaluators driven over random step sequences, sequentially and from threads."""
import logging
import os
import shutil
import tempfile
import threading

logging.disable(logging.CRITICAL)


class ScoreEnv:
    """one-step episodes whose reward is the next scripted score"""

    def __init__(self, nxt):
        self.nxt = nxt

    def reset(self):
        return 0

    def step(self, a):
        return 0, self.nxt(), True, {}

    def close(self):
        pass


def make_agent(saves, stats=()):
    from pfrl.agent import Agent as Base

    class A(Base):
        training = True

        def act(self, obs):
            return 0

        def observe(self, *a):
            pass

        def save(self, d):
            os.makedirs(d, exist_ok=True)
            saves.append(d)

        def load(self, d):
            pass

        def get_statistics(self):
            return list(stats)

    return A()


def lines(out):
    with open(os.path.join(out, "scores.txt")) as f:
        return f.read().splitlines()


def one_sync(h, rng, i):
    from pfrl.experiments.evaluator import Evaluator

    out = tempfile.mkdtemp(prefix="c12-")
    try:
        Iv = rng.choice([1, 2, 3, 5, 7, 10, 100])
        off = rng.choice([0, 0, rng.randint(0, 3 * Iv)])
        scores, saves, hooked = [], [], []

        def nxt():
            scores.append(rng.choice([-1e30, rng.randint(-5, 5), rng.randint(-5, 5) + 0.5, -0.0, 1e20]))
            return scores[-1]

        agent, env = make_agent(saves, [("a", 1.5)]), ScoreEnv(nxt)
        sv = rng.random() < 0.8
        kw = dict(n_steps=None, n_episodes=1) if rng.random() < 0.5 else dict(n_steps=1, n_episodes=None)

        def hook(env, agent, evaluator, step, eval_stats, agent_stats, env_stats):
            hooked.append((step, eval_stats["mean"]))

        hook.support_train_agent = True
        ev = Evaluator(agent=agent, env=env, eval_interval=Iv, outdir=out, step_offset=off, evaluation_hooks=[hook],
                       save_best_so_far_agent=sv, **kw)
        t, q, best = off, off // Iv, None
        trace = []
        for _ in range(rng.randint(1, 25)):
            t += rng.choice([0, 1, 1, 1, rng.randint(0, 2 * Iv), rng.randint(0, 5 * Iv)])
            n, ns, nh = len(scores), len(saves), len(hooked)
            r = ev.evaluate_if_necessary(t=t, episodes=len(trace))
            trace.append((t, r))
            ctx = dict(interval=Iv, offset=off, trace=trace, save_best=sv)
            h.case((Iv, off, sv, list(trace)))
            if t // Iv > q:
                h.check(len(scores) == n + 1, "evaluates once when a boundary was crossed", **ctx)
                h.eq(r, scores[-1], "reports the mean score", **ctx)
                h.check(agent.training is True, "training mode restored", **ctx)
                better = best is None or r > best
                h.eq(len(saves) - ns, int(better and sv), "saves the agent exactly on improvement", **ctx)
                h.check(all(os.path.basename(s) == "best" and os.path.dirname(s) == out for s in saves), "saved as best", saves=saves)
                best = r if better else best
                h.eq(hooked[nh:], [(t, r)], "hook called once with the statistics", **ctx)
                q = t // Iv
            else:
                h.check(len(scores) == n and r is None and len(saves) == ns and len(hooked) == nh, "no evaluation between boundaries", **ctx)
            if best is not None:
                h.eq(ev.max_score, best, "max_score is the best score so far", **ctx)
        rows = lines(out)
        h.eq(len(rows), 1 + len(scores), "one line of scores.txt per evaluation, after one header", rows=rows)
        for row, s, (st, _) in zip(rows[1:], scores, hooked):
            f = row.split("\t")
            h.check(int(f[0]) == st and float(f[3]) == s and float(f[-1]) == 1.5, "recorded line", row=row, score=s, step=st)
            h.eq(len(f), len(rows[0].split("\t")), "columns match the header", rows=rows[:2])
    finally:
        shutil.rmtree(out)


def one_async(h, rng, i):
    from pfrl.experiments.evaluator import AsyncEvaluator

    out = tempfile.mkdtemp(prefix="c12-")
    try:
        Iv = rng.choice([1, 2, 3, 5, 10])
        off = rng.choice([0, 0, rng.randint(0, 3 * Iv)])
        sv = rng.random() < 0.8
        threads = i % 3 == 0
        W = 4 if threads else rng.randint(1, 3)
        order, evals = [], []
        mu = threading.Lock()
        saved = []
        ev = AsyncEvaluator(n_steps=None, n_episodes=1, eval_interval=Iv, outdir=out, step_offset=off, save_best_so_far_agent=sv)
        seeds = [rng.randint(0, 10**9) for _ in range(W)]

        class Worker:
            def __init__(self, k):
                import random

                self.r = random.Random(seeds[k])
                self.cur = None
                self.saves = []
                self.agent = make_agent(self.saves)
                base = self.agent.save

                def save(d, base=base, me=self):
                    base(d)
                    with mu:
                        saved.append(me.cur)

                self.agent.save = save
                self.env = ScoreEnv(self.nxt)

            def nxt(self):
                self.cur = self.r.randint(-50, 50)
                with mu:
                    evals.append(self.cur)
                return self.cur

        ws = [Worker(k) for k in range(W)]
        if not threads:
            t, prev, best = off, off - off % Iv, None
            for _ in range(rng.randint(1, 25)):
                t += rng.choice([0, 1, 1, rng.randint(0, 3 * Iv)])
                w = rng.choice(ws)
                tt = max(0, t - rng.randint(0, 2))        # workers see the counter slightly late
                n, ns = len(evals), len(saved)
                r = ev.evaluate_if_necessary(t=tt, episodes=0, env=w.env, agent=w.agent)
                order.append((tt, r))
                h.case((Iv, off, sv, list(order)))
                ctx = dict(interval=Iv, offset=off, trace=order, save_best=sv)
                if tt >= prev + Iv:
                    prev += Iv
                    h.check(len(evals) == n + 1, "a reached boundary is evaluated once", **ctx)
                    h.eq(r, evals[-1], "reports the mean score", **ctx)
                    better = best is None or r > best
                    h.eq(len(saved) - ns, int(better and sv), "saves exactly on improvement", **ctx)
                    best = r if better else best
                else:
                    h.check(len(evals) == n and r is None and len(saved) == ns, "no evaluation between boundaries", **ctx)
                if best is not None:
                    h.eq(ev.max_score, best, "max_score is the best score so far", **ctx)
        else:
            T = off + rng.randint(20, 60)
            cnt = [off]
            errs = []

            def go(w):
                try:
                    while True:
                        with mu:
                            cnt[0] += 1
                            t = cnt[0]
                        if t > T:
                            return
                        ev.evaluate_if_necessary(t=t, episodes=0, env=w.env, agent=w.agent)
                except Exception as e:  # noqa: BLE001
                    errs.append(repr(e))

            import sys

            si = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            ths = [threading.Thread(target=go, args=(w,)) for w in ws]
            [x.start() for x in ths]
            [x.join(60) for x in ths]
            sys.setswitchinterval(si)
            h.case((Iv, off, T, list(evals)))
            ctx = dict(interval=Iv, offset=off, T=T, evals=evals, saved=saved)
            h.check(not errs, "no error", errs=errs, **ctx)
            h.check(len(evals) <= T // Iv - off // Iv, "each boundary is evaluated at most once", **ctx)
            if evals:
                h.eq(ev.max_score, max(evals), "shared maximum is the best score", **ctx)
                if sv:
                    h.eq(saved[-1], max(evals), "the agent saved last is the best", **ctx)
                    h.check(all(a < b for a, b in zip(saved, saved[1:])), "saved scores strictly improve", **ctx)
        if evals:
            rows = lines(out)
            h.eq(len(rows), 1 + len(evals), "one header and one line per evaluation", rows=rows[:3], evals=len(evals))
            h.check(sum(r.startswith("steps") for r in rows) == 1 and rows[0].startswith("steps"), "one header, first", rows=rows[:3])
    finally:
        shutil.rmtree(out)


def part_sync(h):
    for i in range(h.n(150)):
        one_sync(h, h.rng, i)


def part_async(h):
    for i in range(h.n(120)):
        one_async(h, h.rng, i)


PARTS = [part_sync, part_async]
