"""C09 replay: real off-policy agents driven through random act/observe histories of N
environments with a recording replay buffer and explorer; the expected log is computed
from the history alone."""
import os
import threading
import time

import numpy as np
import torch
from torch import nn

from agents_util import OBS, DiscreteQ, PairQ, Policy, mlp, sgd
from dynmain import Violation


def obs_of(h):
    return np.asarray([h.rng.uniform(-1, 1) for _ in range(OBS)], dtype=np.float32)


def make_buffer(log, episodic):
    from pfrl.replay_buffers import EpisodicReplayBuffer, ReplayBuffer

    base = EpisodicReplayBuffer if episodic else ReplayBuffer

    inside = []  # what the buffer does by itself is not the agent's call

    class Rec(base):
        def append(self, state, action, reward, next_state=None, next_action=None, is_state_terminal=False, env_id=0, **kw):
            log.append(("append", env_id, state, action, reward, next_state, next_action, bool(is_state_terminal), kw))
            inside.append(1)
            try:
                return self._append(state=state, action=action, reward=reward, next_state=next_state, next_action=next_action,
                                    is_state_terminal=is_state_terminal, env_id=env_id, **kw)
            finally:
                inside.pop()

        def _append(self, **kw):
            return super().append(**kw)

        def stop_current_episode(self, env_id=0):
            if not inside:
                log.append(("stop", env_id))
            return super().stop_current_episode(env_id)

        def sample(self, n, *a, **kw):
            log.append(("sample", n))
            return super().sample(n, *a, **kw)

        def sample_episodes(self, n_episodes, max_len=None, *a, **kw):
            log.append(("sample", n_episodes, max_len))
            return super().sample_episodes(n_episodes, max_len, *a, **kw)

    return Rec(10 ** 4)


class Explorer:
    def __init__(self, log):
        self.log = log
        self.n = 0

    def select_action(self, t, greedy_action_func, action_value=None):
        self.n += 1
        self.log.append(("explore", t, np.array(greedy_action_func())))
        return ("action", self.n)


class Tagged(nn.Module):
    """a network with a parameter that tells how often it was 'updated'"""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner
        self.tag = nn.Parameter(torch.zeros(1))

    def forward(self, *a):
        return self.inner(*a)


def rnn_q(h):
    from pfrl.nn import RecurrentSequential

    torch.manual_seed(h.rng.randrange(10 ** 6))

    class Head(nn.Module):
        def forward(self, x):
            from pfrl.action_value import DiscreteActionValue

            return DiscreteActionValue(x)

    return RecurrentSequential(nn.Linear(OBS, 3), nn.GRU(3, 3), nn.Linear(3, 3), Head())


class Counting:
    def __init__(self, opt):
        self.opt, self.n = opt, 0

    def step(self, *a, **k):
        self.n += 1
        return self.opt.step(*a, **k)

    def __getattr__(self, k):
        return getattr(self.opt, k)


def tag(m, v):
    with torch.no_grad():
        for q in [x.tag for x in m.modules() if isinstance(x, Tagged)]:
            q.fill_(float(v))


def tags(m):
    return [float(x.tag) for x in m.modules() if isinstance(x, Tagged)]


def config(h):
    U = h.rng.choice([1, 1, 2, 3, 4, 7])
    bs = h.rng.randint(1, 3)
    return dict(U=U, T=U * h.rng.randint(1, 4), bs=bs, start=bs + h.rng.choice([0, 0, 1, 3, 8]), times=h.rng.choice([1, 1, 2, 3]),
                maxlen=h.rng.choice([None, 2, 3]))


def build(h, kind, c, log):
    """(agent, names of the greedy networks, update-function name)"""
    from pfrl import agents

    cur = {}
    episodic = kind == "DRQN"
    buf = make_buffer(log, episodic)
    ex = Explorer(log)
    nup = [0]
    kw = dict(replay_start_size=c["start"], minibatch_size=c["bs"], update_interval=c["U"], phi=lambda x: x)
    if kind in ("DQN", "DRQN", "DoubleDQN"):
        base = agents.DoubleDQN if kind == "DoubleDQN" else agents.DQN
        net = rnn_q(h) if episodic else Tagged(DiscreteQ(mlp(h, OBS, 3)))

        class A(base):
            def update(self, exps, errors_out=None):
                log.append(("update",))
                nup[0] += 1
                tag(self.model, nup[0])

            def update_from_episodes(self, episodes, errors_out=None):
                log.append(("update",))
                nup[0] += 1

        a = A(net, sgd(net), buf, 0.9, ex, target_update_interval=c["T"], n_times_update=c["times"], recurrent=episodic,
              episodic_update_len=c["maxlen"] if episodic else None, **kw)
        greedy = None if episodic else (lambda xs: net(xs).greedy_actions.numpy())
        return a, buf, ex, nup, greedy
    if c["burnin"]:
        kw["burnin_action_func"] = lambda: (log.append(("burnin",)), ("burn", len(log)))[1]
    pol = Tagged(Policy(mlp(h, OBS, 2)))
    if kind == "DDPG":
        q = Tagged(PairQ(mlp(h, OBS + 2, 1)))

        class A(agents.DDPG):
            def update(self, exps, errors_out=None):
                log.append(("update",))
                nup[0] += 1
                self.n_updates += 1
                tag(self.model, nup[0])

        a = A(pol, q, sgd(pol), sgd(q), buf, 0.9, ex, target_update_interval=c["T"], n_times_update=c["times"], **kw)
    elif kind == "TD3":
        q1, q2 = Tagged(PairQ(mlp(h, OBS + 2, 1))), Tagged(PairQ(mlp(h, OBS + 2, 1)))

        class A(agents.TD3):
            def update(self, exps, errors_out=None):
                log.append(("update",))
                nup[0] += 1
                self.policy_n_updates += 1

        a = A(pol, q1, q2, sgd(pol), sgd(q1), sgd(q2), buf, 0.9, ex, n_times_update=c["times"], **kw)
    else:
        q1, q2 = Tagged(PairQ(mlp(h, OBS + 2, 1))), Tagged(PairQ(mlp(h, OBS + 2, 1)))

        class A(agents.SoftActorCritic):
            def update(self, exps, errors_out=None):
                log.append(("update",))
                nup[0] += 1
                self.n_policy_updates += 1

        a = A(pol, q1, q2, sgd(pol), sgd(q1), sgd(q2), buf, 0.9, **kw)
    return a, buf, ex, nup, (lambda xs: pol(xs).sample().numpy())


def same(a, b):
    return a is b or (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)) or (
        not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) and a == b)


KINDS = ["DQN", "DRQN", "DoubleDQN", "DDPG", "TD3", "SAC"]


def part_cycle(h):
    for it in range(h.n(90)):
        kind = KINDS[it % len(KINDS)]
        c = config(h)
        c["burnin"] = kind in ("DDPG", "TD3", "SAC") and h.rng.random() < 0.5
        log = []
        ag, buf, ex, nup, greedy = build(h, kind, c, log)
        times = 1 if kind == "SAC" else c["times"]
        N = h.rng.randint(1, 4)
        single = N == 1 and h.rng.random() < 0.5
        steps = h.rng.randint(4, 22)
        ctx = dict(agent=kind, num_envs=N, config=c)
        h.case((kind, N, steps, tuple(sorted(c.items(), key=str)), single))
        t, target, calls, stored, neps, fresh = 0, 0.0, 0, 0, 0, [0] * N
        cur = [obs_of(h) for _ in range(N)]
        for s in range(steps):
            ctx["cycle"] = s
            del log[:]
            batch = list(cur)
            acts = [ag.act(batch[0])] if single else ag.batch_act(batch)
            h.eq(len(acts), N, "one action per environment", **ctx)
            acts = [x for x in acts]
            if c["burnin"] and nup[0] == 0:
                h.eq([e[0] for e in log], ["burnin"] * N, "burn-in actions before the first update", **ctx)
                h.check(all(a[0] == "burn" for a in acts), "burn-in action taken", **ctx)
            elif kind != "SAC":
                h.eq([e[0] for e in log], ["explore"] * N, "explorer asked once per environment", **ctx)
                h.check(all(e[1] == t for e in log), "explorer gets the step count", got=[e[1] for e in log], t=t, **ctx)
                h.eq(acts, [("action", ex.n - N + 1 + i) for i in range(N)], "explored actions in order", **ctx)
            if greedy is not None and not (c["burnin"] and nup[0] == 0):
                with torch.no_grad():
                    g = greedy(torch.as_tensor(np.asarray(batch)))
                got = [e[2] for e in log] if kind != "SAC" else acts
                h.check(all(np.allclose(x, y, atol=1e-5) for x, y in zip(got, g)), "greedy action of the environment", **ctx)
            # the caller goes on using its own list
            given = [np.array(x) for x in batch]
            if not single:
                for i in range(N):
                    batch[i] = None
            nxt = [obs_of(h) for _ in range(N)]
            rew = [h.rng.choice([0.0, 1.0, h.rng.uniform(-2, 2)]) for _ in range(N)]
            done = [h.rng.random() < 0.25 for _ in range(N)]
            reset = [h.rng.random() < 0.2 for _ in range(N)]
            del log[:]
            if single:
                ag.observe(nxt[0], rew[0], done[0], reset[0])
            else:
                ag.batch_observe(nxt, rew, done, reset)
            want, reach = [], {target}
            for i in range(N):
                t += 1
                want.append(("append", i))
                fresh[i] += 1
                if kind == "DRQN":
                    if done[i] or reset[i]:
                        stored, neps, fresh[i] = stored + fresh[i], neps + 1, 0
                else:
                    stored += 1
                if done[i] or reset[i]:
                    want.append(("stop", i))
                before = calls
                if t % c["U"] == 0 and stored >= c["start"] and (kind != "DRQN" or neps >= c["bs"]):
                    for _ in range(times):
                        want += [("sample",), ("update",)]
                        calls += 1
                if t % c["T"] == 0:
                    # before or after this step's own update
                    reach = {float(before), float(calls)}
            got = [e[:2] if e[0] in ("append", "stop") else e[:1] for e in log]
            h.eq(got, want, "recording and updates in order", step=t, done=done, reset=reset, **ctx)
            for e in log:
                if e[0] == "append":
                    i = e[1]
                    ok = same(e[2], given[i]) and same(e[3], acts[i]) and e[4] == rew[i] and same(e[5], nxt[i]) and e[6] is None and e[7] == done[i]
                    h.check(ok, "transition recorded as it happened", observed=repr(e)[:300], done=done, reset=reset, env=i, **ctx)
                    if kind == "DRQN":
                        h.check("recurrent_state" in e[8] and "next_recurrent_state" in e[8], "recurrent states recorded", **ctx)
                if e[0] == "sample":
                    h.eq(e[1], c["bs"], "minibatch size", **ctx)
                    if kind == "DRQN":
                        h.eq(e[2], c["maxlen"], "episode length limit", **ctx)
            if kind in ("DQN", "DoubleDQN", "DDPG"):
                now = set(tags(ag.target_model))
                h.check(len(now) == 1 and now <= reach, "target synchronised exactly on schedule", observed=sorted(now), expected=sorted(reach), step=t, **ctx)
                target = now.pop()
            h.eq(ag.t, t, "steps counted", **ctx)
            if hasattr(ag, "cumulative_steps"):
                h.eq(ag.cumulative_steps, t, "cumulative steps", **ctx)
            cur = [obs_of(h) if (done[i] or reset[i]) else nxt[i] for i in range(N)]


def part_delay(h):
    """TD3: policy and targets every delay-th update; SAC: targets after every update"""
    from pfrl import agents

    for it in range(h.n(16)):
        d = h.rng.randint(1, 4)
        log = []
        pol, q1, q2 = Tagged(Policy(mlp(h, OBS, 2))), Tagged(PairQ(mlp(h, OBS + 2, 1))), Tagged(PairQ(mlp(h, OBS + 2, 1)))
        po, o1, o2 = Counting(sgd(pol)), Counting(sgd(q1)), Counting(sgd(q2))
        buf = make_buffer(log, False)
        times = h.rng.choice([1, 1, 2]) if it % 2 == 0 else 1
        if it % 2 == 0:
            ag = agents.TD3(pol, q1, q2, po, o1, o2, buf, 0.9, Cont(h), replay_start_size=2, minibatch_size=2, phi=lambda x: x,
                            policy_update_delay=d, soft_update_tau=1.0, n_times_update=times)
            targets = [(pol, ag.target_policy), (q1, ag.target_q_func1), (q2, ag.target_q_func2)]
        else:
            d = 1
            ag = agents.SoftActorCritic(pol, q1, q2, po, o1, o2, buf, 0.9, replay_start_size=2, minibatch_size=2, phi=lambda x: x,
                                        soft_update_tau=1.0)
            targets = [(q1, ag.target_q_func1), (q2, ag.target_q_func2)]
        h.case(("delay", type(ag).__name__, d, times))
        n = 0
        for s in range(9):
            x = obs_of(h)
            ag.batch_act([x])
            ag.batch_observe([obs_of(h)], [h.rng.uniform(-1, 1)], [False], [False])
            k = times if s >= 1 else 0
            n += k
            h.eq((o1.n, o2.n, po.n), (n, n, n // d), "critics every update, policy every %d" % d, step=s)
            if k and n % d == 0:
                for src, dst in targets:
                    h.check(all(torch.allclose(a, b) for a, b in zip(src.parameters(), dst.parameters())),
                            "targets follow the policy update", step=s)
            elif k and (n // d) == ((n - k) // d):
                q, tq = targets[-1]
                h.check(not all(torch.equal(a, b) for a, b in zip(q.parameters(), tq.parameters())),
                        "targets stay between policy updates", step=s)


class Cont:
    def __init__(self, h):
        self.h = h

    def select_action(self, t, greedy_action_func, action_value=None):
        return np.asarray([self.h.rng.uniform(-1, 1) for _ in range(2)], dtype=np.float32)


def part_updater(h):
    from pfrl.replay_buffer import ReplayUpdater

    for it in range(h.n(200)):
        epi = h.rng.random() < 0.5
        c = config(h)
        log = []
        buf = make_buffer(log, epi)
        for i in range(h.rng.randint(0, 12)):
            buf.append(state=0, action=0, reward=0.0, next_state=0, is_state_terminal=False)
            if h.rng.random() < 0.3:
                buf.stop_current_episode()
        up = ReplayUpdater(replay_buffer=buf, update_func=lambda e: log.append(("update",)), batchsize=c["bs"], episodic_update=epi,
                           episodic_update_len=c["maxlen"], n_times_update=c["times"], replay_start_size=c["start"], update_interval=c["U"])
        h.case(("updater", epi, tuple(sorted(c.items(), key=str)), len(buf)))
        for t in range(1, 15):
            del log[:]
            r = up.update_if_necessary(t)
            due = t % c["U"] == 0 and len(buf) >= c["start"] and (not epi or buf.n_episodes >= c["bs"])
            want = ["sample", "update"] * c["times"] if due else []
            h.eq([e[0] for e in log], want, "update exactly when due", iteration=t, config=c, stored=len(buf))
            h.eq(bool(r), due, "tells whether it updated", iteration=t, config=c)


class FakePipe:
    def __init__(self):
        self.sent, self.replies = [], 0

    def send(self, m):
        self.sent.append(m)
        if m[0] != "transition":
            self.replies += 1

    def recv(self):
        if not self.replies:
            raise Violation("the actor waits for a reply nobody sends")
        self.replies -= 1
        return []


def part_actor(h):
    from pfrl.agents import StateQFunctionActor

    for it in range(h.n(40)):
        rec = it % 2 == 1
        log = []
        pipe, ex = FakePipe(), Explorer(log)
        net = rnn_q(h) if rec else DiscreteQ(mlp(h, OBS, 3))
        ac = StateQFunctionActor(pipe, net, ex, recurrent=rec, phi=lambda x: x)
        h.case(("actor", rec, it))
        cur, prev, t = obs_of(h), None, 0
        for s in range(12):
            del log[:], pipe.sent[:]
            a = ac.act(cur)
            h.eq(([e[:2] for e in log], pipe.sent), ([("explore", t)], []), "explorer asked once", step=s)
            n = obs_of(h)
            r, d, z = h.rng.uniform(-1, 1), h.rng.random() < 0.25, h.rng.random() < 0.25
            ac.observe(n, r, d, z)
            t += 1
            h.eq([m[0] for m in pipe.sent], ["transition"] + (["stop_episode"] if d or z else []), "messages", step=s, done=d, reset=z)
            h.eq(pipe.replies, 0, "reply read", step=s)
            e = pipe.sent[0][1]
            h.check(same(e["state"], cur) and e["action"] == a and e["reward"] == r and same(e["next_state"], n) and bool(e["is_state_terminal"]) == d,
                    "transition sent as it happened", step=s, done=d, reset=z)
            if rec:
                x = torch.as_tensor(cur)[None]
                with torch.no_grad():
                    from pfrl.utils.recurrent import one_step_forward

                    _, nx = one_step_forward(net, x, prev)
                for key, w in (("recurrent_state", prev), ("next_recurrent_state", nx)):
                    def flat(v):
                        return [] if v is None else [np.asarray(v)] if not isinstance(v, tuple) else [y for q in v for y in flat(q)]
                    g, w_ = flat(e[key]), [y[:, 0] for y in flat(w)]
                    h.check(len(g) == len(w_) and all(np.allclose(p, q, atol=1e-5) for p, q in zip(g, w_)), key + " of this step", step=s)
                prev = None if d or z else nx
            cur = n if not (d or z) else obs_of(h)


def part_actor_learner(h):
    """actors in this process, poller and learner threads, real pipes"""
    from pfrl import agents

    for it in range(h.n(2, 6)):
        log = []
        net = Tagged(DiscreteQ(mlp(h, OBS, 3)))
        U, T, A, limit = h.rng.choice([1, 2]), 4, h.rng.choice([1, 2, 3]), h.rng.randint(5, 12)
        buf = make_buffer(log, False)
        seen = []

        class Ag(agents.DQN):
            def update(self, exps, errors_out=None):
                seen.append((float(self.target_model.tag), float(shared[0].tag) if shared else None))
                super().update([[dict(t, action=0) for t in e] for e in exps], errors_out)
                tag(self.model, len(seen))

        shared = []
        ex = Explorer([])
        ag = Ag(net, sgd(net), buf, 0.9, ex, replay_start_size=3, minibatch_size=2, update_interval=U, target_update_interval=T, phi=lambda x: x)
        make_actor, learner, poller, err = ag.setup_actor_learner_training(2, n_updates=limit, actor_update_interval=A)
        acs = [make_actor(i) for i in range(2)]
        shared.append(acs[0].model)
        h.case(("actor-learner", U, A, limit))
        poller.start()
        sent = [[], []]
        for s in range(20):
            for i, ac in enumerate(acs):
                x, n = obs_of(h), obs_of(h)
                a = ac.act(x)
                d, z = h.rng.random() < 0.3, h.rng.random() < 0.2
                r = h.rng.uniform(-1, 1)
                stuck(h, lambda: ac.observe(n, r, d, z))
                sent[i].append((x, a, r, n, d, d or z))
        end = time.time() + 20
        while sum(e[0] == "append" for e in log) < 40 and time.time() < end:
            time.sleep(0.01)
        h.progress = time.time()
        poller.stop()
        poller.join()
        for i in range(2):
            got = [e for e in log if e[1] == i and e[0] in ("append", "stop")]
            want = [k for x in sent[i] for k in (["append", "stop"] if x[5] else ["append"])]
            h.eq([e[0] for e in got], want, "everything an actor sent is filed under it, in order", actor=i)
            for e, x in zip([e for e in got if e[0] == "append"], sent[i]):
                h.check(same(e[2], x[0]) and e[3] == x[1] and e[4] == x[2] and same(e[5], x[3]) and e[7] == x[4], "transition stored as sent", actor=i)
        h.eq(ag.cumulative_steps, 40, "steps counted")
        learner.start()
        learner.join(60)
        h.check(not learner.is_alive(), "the learner ends after its updates")
        h.check(not err.is_set(), "no failure")
        h.eq(len(seen), limit, "as many updates as asked")
        tgt, sh = 0.0, 0.0
        for k, (a, b) in enumerate(seen):
            # k updates were made before this one
            h.eq((a, b), (tgt, sh), "targets and shared model before update %d" % k, U=U, T=T, A=A)
            if ((k + 1) * U) % T == 0:
                tgt = float(k + 1)
            if (k + 1) % A == 0:
                sh = float(k + 1)
        for ac in acs:
            ac.pipe.close()


def stuck(h, fn):
    box = []

    def run():
        try:
            fn()
        except Exception as e:  # noqa
            box.append(e)

    th = threading.Thread(target=run, daemon=True)
    th.start()
    th.join(30)
    h.check(not th.is_alive(), "the actor is not left waiting for the learner")
    if box:
        raise box[0]


def part_acer(h):
    from pfrl.agents.acer import ACER, ACERDiscreteActionHead
    from pfrl.policies import SoftmaxCategoricalHead
    from pfrl.q_functions import DiscreteActionValueHead
    import warnings

    warnings.simplefilter("ignore")
    for it in range(h.n(8)):
        log = []
        buf = make_buffer(log, True)
        model = nn.Sequential(nn.Linear(OBS, 4), ACERDiscreteActionHead(
            pi=nn.Sequential(nn.Linear(4, 3), SoftmaxCategoricalHead()), q=nn.Sequential(nn.Linear(4, 3), DiscreteActionValueHead())))
        model.share_memory()
        tmax, nrep, start = h.rng.randint(1, 4), h.rng.randint(0, 2), 3

        class A(ACER):
            def update_from_replay(self):
                log.append(("replay",))
                return super().update_from_replay()

            def update_on_policy(self, statevar):
                log.append(("online", statevar is None))
                return super().update_on_policy(statevar)

        ag = A(model, sgd(model, 1e-3), tmax, 0.9, buf, n_times_replay=nrep, replay_start_size=start, phi=lambda x: x)
        h.case(("acer", tmax, nrep))
        cur, since = obs_of(h), 0
        for s in range(14):
            del log[:]
            a = ag.act(cur)
            n, r = obs_of(h), h.rng.uniform(-1, 1)
            d, z = h.rng.random() < 0.2, h.rng.random() < 0.15
            ag.observe(n, r, d, z)
            since += 1
            app = [e for e in log if e[0] == "append"]
            h.eq(len(app), 1, "one transition per step", step=s)
            e = app[0]
            h.check(same(e[2], cur) and same(np.asarray(e[3]), np.asarray(a)) and e[4] == r and same(e[5], n) and e[7] == d and "mu" in e[8],
                    "transition recorded as it happened", step=s, done=d, reset=z)
            h.eq(sum(e[0] == "stop" for e in log), int(d or z), "episode closed exactly when done or reset", step=s, done=d, reset=z)
            due = d or z or since == tmax
            h.eq([e for e in log if e[0] == "online"], [("online", d)] if due else [], "online update when due", step=s, done=d, reset=z, t_max=tmax)
            h.eq(sum(e[0] == "replay" for e in log), nrep if due else 0, "replay updates when due", step=s, done=d, reset=z, t_max=tmax)
            if due:
                since = 0
            cur = n if not (d or z) else obs_of(h)


PARTS = [part_cycle, part_delay, part_updater, part_actor, part_actor_learner, part_acer]
