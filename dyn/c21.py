"""C21 replay: every agent class saved in a random state and loaded into another one;
user-defined nested savers; replay buffers."""
import copy
import os
import shutil
import tempfile
import warnings

import numpy as np
import torch
from torch import nn

from agents_util import OBS, DiscreteQ, PairQ, Policy, mlp, scramble

warnings.simplefilter("ignore")


def opt(h, m):
    o = torch.optim.Adam(m.parameters(), lr=h.rng.uniform(1e-4, 1e-2))
    if h.rng.random() < 0.9:
        for _ in range(h.rng.randint(1, 3)):
            for q in m.parameters():
                q.grad = torch.as_tensor(np.asarray([h.rng.gauss(0, 1) for _ in range(q.numel())], dtype=np.float32)).reshape(q.shape)
            o.step()
        o.zero_grad()
    return o


def branched(h):
    import pfrl
    from pfrl.policies import SoftmaxCategoricalHead

    return nn.Sequential(mlp(h, OBS, 4), pfrl.nn.Branched(nn.Sequential(nn.Linear(4, 3), SoftmaxCategoricalHead()), nn.Linear(4, 1)))


class Dist(nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, x):
        from pfrl.action_value import DistributionalDiscreteActionValue

        return DistributionalDiscreteActionValue(torch.softmax(self.net(x).reshape(-1, 2, 3), dim=2), torch.linspace(-1, 1, 3))


def build(h, kind):
    import pfrl
    from pfrl import agents as A

    buf = pfrl.replay_buffers.ReplayBuffer(10 ** 6)
    ex = pfrl.explorers.Greedy()
    if kind in ("DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "CategoricalDQN", "CategoricalDoubleDQN", "IQN"):
        if kind.startswith("Categorical"):
            net = Dist(mlp(h, OBS, 6))
        elif kind == "IQN":
            from pfrl.agents.iqn import CosineBasisLinear, ImplicitQuantileQFunction

            net = ImplicitQuantileQFunction(nn.Linear(OBS, 4), nn.Sequential(CosineBasisLinear(3, 4), nn.ReLU()), nn.Linear(4, 2))
        else:
            net = DiscreteQ(mlp(h, OBS, 2))
        ag = getattr(A, kind)(net, opt(h, net), buf, 0.9, ex)
        return ag, ["model", "target_model", "optimizer"]
    if kind == "DDPG":
        p, q = Policy(mlp(h, OBS, 2)), PairQ(mlp(h, OBS + 2, 1))
        return A.DDPG(p, q, opt(h, p), opt(h, q), buf, 0.9, ex), ["policy", "q_function", "target_policy", "target_q_function", "actor_optimizer", "critic_optimizer"]
    if kind in ("TD3", "SAC", "SACT"):
        p, q1, q2 = Policy(mlp(h, OBS, 2)), PairQ(mlp(h, OBS + 2, 1)), PairQ(mlp(h, OBS + 2, 1))
        at = ["policy", "q_func1", "q_func2", "target_q_func1", "target_q_func2", "policy_optimizer", "q_func1_optimizer", "q_func2_optimizer"]
        if kind == "TD3":
            return A.TD3(p, q1, q2, opt(h, p), opt(h, q1), opt(h, q2), buf, 0.9, ex), at + ["target_policy"]
        kw = dict(entropy_target=-2.0, temperature_optimizer_lr=h.rng.choice([None, 1e-3])) if kind == "SACT" else {}
        ag = A.SoftActorCritic(p, q1, q2, opt(h, p), opt(h, q1), opt(h, q2), buf, 0.9, **kw)
        return ag, at + (["temperature_holder", "temperature_optimizer"] if kw else [])
    if kind in ("A2C", "A3C", "PPO", "PPON"):
        m = branched(h)
        o = opt(h, m)
        if kind == "A2C":
            return A.A2C(m, o, 0.9, 2), ["model", "optimizer"]
        if kind == "A3C":
            m.share_memory()
            return A.A3C(m, o, 5, 0.9), ["model", "optimizer", "shared_model"]
        n = pfrl.nn.EmpiricalNormalization(OBS) if kind == "PPON" else None
        return A.PPO(m, o, obs_normalizer=n), ["model", "optimizer"] + (["obs_normalizer"] if n is not None else [])
    if kind == "ACER":
        from pfrl.agents.acer import ACERDiscreteActionHead
        from pfrl.policies import SoftmaxCategoricalHead
        from pfrl.q_functions import DiscreteActionValueHead

        m = nn.Sequential(mlp(h, OBS, 4), ACERDiscreteActionHead(
            pi=nn.Sequential(nn.Linear(4, 3), SoftmaxCategoricalHead()), q=nn.Sequential(nn.Linear(4, 3), DiscreteActionValueHead())))
        m.share_memory()
        return A.ACER(m, opt(h, m), 5, 0.9, pfrl.replay_buffers.EpisodicReplayBuffer(10)), ["model", "optimizer", "shared_model"]
    if kind == "REINFORCE":
        from pfrl.policies import SoftmaxCategoricalHead

        m = nn.Sequential(mlp(h, OBS, 3), SoftmaxCategoricalHead())
        return A.REINFORCE(m, opt(h, m)), ["model", "optimizer"]
    if kind in ("TRPO", "TRPON"):
        from pfrl.policies import SoftmaxCategoricalHead

        m, v = nn.Sequential(mlp(h, OBS, 3), SoftmaxCategoricalHead()), mlp(h, OBS, 1)
        n = pfrl.nn.EmpiricalNormalization(OBS) if kind == "TRPON" else None
        return A.TRPO(m, v, opt(h, v), obs_normalizer=n), ["policy", "vf", "vf_optimizer"] + (["obs_normalizer"] if n is not None else [])
    raise AssertionError(kind)


KINDS = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "CategoricalDQN", "CategoricalDoubleDQN", "IQN", "DDPG", "TD3", "SAC", "SACT",
         "A2C", "A3C", "PPO", "PPON", "ACER", "REINFORCE", "TRPO", "TRPON"]


def flat(x):
    if isinstance(x, dict):
        return {(k,) + kk: v for k, y in x.items() for kk, v in flat(y).items()}
    if isinstance(x, (list, tuple)):
        return {(i,) + kk: v for i, y in enumerate(x) for kk, v in flat(y).items()}
    return {(): x}


def snap(o):
    return {k: (v.clone() if torch.is_tensor(v) else v) for k, v in flat(copy.deepcopy(o.state_dict())).items()}


def eq(a, b):
    return set(a) == set(b) and all(torch.equal(a[k], b[k]) if torch.is_tensor(a[k]) and torch.is_tensor(b[k]) else a[k] == b[k] for k in a)


def shuffle(h, ag, attrs):
    for a in attrs:
        m = getattr(ag, a)
        if isinstance(m, nn.Module):
            if type(m).__name__ == "EmpiricalNormalization":
                m.experience(torch.as_tensor(np.asarray([[h.rng.gauss(1, 2) for _ in range(OBS)] for _ in range(h.rng.randint(1, 5))], dtype=np.float32)))
            else:
                scramble(h, m)
    if "temperature_optimizer" in attrs:
        for q in ag.temperature_holder.parameters():
            q.grad = torch.full_like(q, h.rng.uniform(-1, 1))
        ag.temperature_optimizer.step()
    if "shared_model" in attrs:
        ag.model.load_state_dict(ag.shared_model.state_dict())


def scalars(ag):
    return {k: v for k, v in vars(ag).items() if isinstance(v, (int, float, str, bool, type(None)))}


def part_agents(h):
    for it in range(h.n(3 * len(KINDS))):
        kind = KINDS[it % len(KINDS)]
        a, attrs = build(h, kind)
        b, _ = build(h, kind)
        shuffle(h, a, attrs)
        shuffle(h, b, attrs)
        h.case((kind, it))
        d = os.path.join(tempfile.mkdtemp(dir=h.scratch), "new", "dir")
        want = {x: snap(getattr(a, x)) for x in attrs}
        keep = scalars(b)
        ids = {k: id(v) for k, v in vars(b).items()}
        a.save(d)
        for x in attrs:
            h.check(eq(snap(getattr(a, x)), want[x]), "saving changes nothing", agent=kind, attribute=x)
        shuffle(h, a, attrs)  # what is saved stays what it was
        before = sorted((q, os.path.getsize(os.path.join(p, q))) for p, _, f in os.walk(d) for q in f)
        b.load(d)
        for x in attrs:
            h.check(eq(snap(getattr(b, x)), want[x]), "attribute restored", agent=kind, attribute=x)
        h.eq(scalars(b), keep, "nothing else changed", agent=kind)
        h.eq({k: id(v) for k, v in vars(b).items() if isinstance(v, (nn.Module, torch.optim.Optimizer))},
             {k: i for k, i in ids.items() if isinstance(vars(b).get(k), (nn.Module, torch.optim.Optimizer))}, "no component replaced", agent=kind)
        h.eq(sorted((q, os.path.getsize(os.path.join(p, q))) for p, _, f in os.walk(d) for q in f), before, "loading writes nothing", agent=kind)
        # saving again over the same directory
        shuffle(h, b, attrs)
        want = {x: snap(getattr(b, x)) for x in attrs}
        b.save(d)
        a.load(d)
        for x in attrs:
            h.check(eq(snap(getattr(a, x)), want[x]), "attribute restored from a directory saved twice", agent=kind, attribute=x)
        shutil.rmtree(os.path.dirname(os.path.dirname(d)))


def part_snapshot(h):
    for it in range(h.n(4)):
        a, attrs = build(h, "DQN")
        b, _ = build(h, "DQN")
        for _ in range(h.rng.randint(1, 20)):
            x = [np.asarray([h.rng.gauss(0, 1)] * OBS, dtype=np.float32) for _ in range(2)]
            a.batch_act(x)
            a.batch_observe(x, [h.rng.random(), 0.5], [h.rng.random() < 0.3, False], [False, False])
        a.optim_t = h.rng.randint(0, 99)
        d = tempfile.mkdtemp(dir=h.scratch)
        h.case(("snapshot", a.t))
        want = {x: snap(getattr(a, x)) for x in attrs}
        mem = [[(float(t["reward"]), bool(t["is_state_terminal"])) for t in e] for e in a.replay_buffer.memory]
        n = (a.t, a.optim_t, a.cumulative_steps)
        a.save_snapshot(d)
        b.load_snapshot(d)
        for x in attrs:
            h.check(eq(snap(getattr(b, x)), want[x]), "attribute restored", attribute=x)
        h.eq((b.t, b.optim_t, b.cumulative_steps), n, "counters restored")
        h.eq([[(float(t["reward"]), bool(t["is_state_terminal"])) for t in e] for e in b.replay_buffer.memory], mem, "buffer restored in order")
        shutil.rmtree(d)


def part_nested(h):
    from pfrl.agent import AttributeSavingMixin

    class Saver(AttributeSavingMixin):
        def __init__(self, names, vals, extra):
            self.names = names
            self.extra = extra
            for k, v in zip(names, vals):
                setattr(self, k, v)

        saved_attributes = property(lambda self: tuple(self.names))

    def make(shape, wrap):
        leaves, other, inner = [], [], []

        def go(s, depth):
            vals = []
            for k in s:
                if isinstance(k, list):
                    vals.append(go(k, depth + 1))
                    inner.append(vals[-1])
                elif k == "again":  # the same saver in another attribute
                    vals.append(inner[-1] if inner else None)
                elif k == "none":
                    vals.append(None)
                else:
                    m = mlp(h, 2, 1)
                    leaves.append(m)
                    vals.append(nn.DataParallel(m) if wrap and k == "wrap" else m)
            e = mlp(h, 2, 1)
            other.append(e)
            return Saver(["attr%d" % i for i in range(len(s))], vals, e)

        return go(shape, 0), leaves, other

    def shape(depth):
        return [shape(depth + 1) if depth < 3 and h.rng.random() < 0.35 else h.rng.choice(["none", "wrap", "net", "net", "again"]) for _ in range(h.rng.randint(1, 4))]

    for it in range(h.n(60)):
        s = shape(0)
        a, la, _ = make(s, h.rng.random() < 0.5)
        b, lb, ob = make(s, h.rng.random() < 0.5)
        h.case(("nested", repr(s)))
        d = tempfile.mkdtemp(dir=h.scratch)
        want = [snap(m) for m in la]
        keep = [snap(m) for m in ob]
        a.save(d)
        b.load(d)
        h.check(all(eq(snap(m), w) for m, w in zip(lb, want)), "every saved attribute restored", shape=repr(s))
        h.check(all(eq(snap(m), w) for m, w in zip(ob, keep)), "attributes not listed are left alone", shape=repr(s))
        h.check(all(eq(snap(m), w) for m, w in zip(la, want)), "saving changes nothing", shape=repr(s))
        shutil.rmtree(d)


def part_buffers(h):
    from pfrl import replay_buffers as R

    for it in range(h.n(60)):
        kind = h.rng.choice(["ReplayBuffer", "EpisodicReplayBuffer", "PrioritizedReplayBuffer", "PrioritizedEpisodicReplayBuffer"])
        cap = h.rng.choice([None, 5, 20, 50]) if kind != "PrioritizedEpisodicReplayBuffer" else None
        n = h.rng.choice([1, 3]) if kind in ("ReplayBuffer", "PrioritizedReplayBuffer") else None
        kw = dict(num_steps=n) if n else {}
        a, b = getattr(R, kind)(cap, **kw), getattr(R, kind)(cap, **kw)
        h.case((kind, cap, n, it))
        for buf, m in ((a, h.rng.randint(0, 60)), (b, h.rng.randint(0, 8))):
            for i in range(m):
                e = h.rng.randrange(2)
                buf.append(state=i, action=i, reward=float(i), next_state=i + 1, is_state_terminal=h.rng.random() < 0.1, env_id=e)
                if h.rng.random() < 0.1:
                    buf.stop_current_episode(env_id=e)
        if kind == "PrioritizedReplayBuffer" and len(a) >= 3:
            a.sample(3)
            a.update_errors([h.rng.uniform(0, 2) for _ in range(3)])

        def content(x):
            if isinstance(x, dict):
                return tuple(sorted((k, repr(v)) for k, v in x.items()))
            if isinstance(x, (list, tuple)):
                return tuple(content(y) for y in x)
            return repr(x)

        def view(buf):
            # the prioritized memory hands out its contents in order only through its queue
            ms = [buf.memory] + ([buf.episodic_memory] if hasattr(buf, "episodic_memory") else [])
            ms = [getattr(x, "data", x) for x in ms]
            return [content([x[i] for i in range(len(x))]) for x in ms]

        f = os.path.join(tempfile.mkdtemp(dir=h.scratch), "b.pkl")
        want, n = view(a), len(a)
        a.save(f)
        h.eq((view(a), len(a)), (want, n), "saving changes nothing", buffer=kind)
        b.load(f)
        h.eq((view(b), len(b)), (want, n), "contents restored in order", buffer=kind, capacity=cap)
        if n:
            b.append(state=-1, action=0, reward=0.0, next_state=0, is_state_terminal=True)
            h.eq(view(a), want, "memories not shared", buffer=kind)
        shutil.rmtree(os.path.dirname(f))


PARTS = [part_agents, part_snapshot, part_nested, part_buffers]
