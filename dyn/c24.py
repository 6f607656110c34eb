"""C24 replay: real agents with networks that have a training mode of their own (noise and
running statistics), a part of it kept in another mode; random training histories with
evaluation phases in between; everything reachable from the agent compared."""
import warnings

import numpy as np
import torch
from torch import nn

import agents_util
import c20
import c21
from agents_util import OBS

warnings.simplefilter("ignore")


class Moody(nn.Module):
    """noise and a running statistic in training mode (dropout and batch normalisation in one, for any batch size)"""

    def __init__(self):
        super().__init__()
        self.register_buffer("seen", torch.zeros(()))

    def forward(self, x):
        if self.training:
            self.seen += x.detach().sum() + 1
            return x + torch.randn_like(x)
        return x


def moody(h, n_in, n_out, hidden=4):
    return nn.Sequential(Moody(), agents_util.mlp(h, n_in, n_out, hidden), nn.Sequential(Moody()))


class Gauss(nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, x):
        m = torch.tanh(self.net(x))
        return torch.distributions.Independent(torch.distributions.Normal(m, torch.full_like(m, 0.3)), 1)


class Ex:
    """counts and changes every action"""

    def __init__(self):
        self.calls = 0

    def select_action(self, t, greedy, action_value=None):
        self.calls += 1
        a = greedy()
        return a + 1 if np.ndim(a) else (a + 1) % 2


class Pipe:
    def __init__(self):
        self.sent = []

    def send(self, m):
        self.sent.append(m)

    def recv(self):
        return None


def print_of(x, skip, seen, path="", out=None):
    """flat picture of everything reachable"""
    out = {} if out is None else out
    if isinstance(x, (int, float, str, bool, type(None), bytes, complex)):
        out[path] = repr(x)
    elif torch.is_tensor(x):
        out[path] = (tuple(x.shape), x.detach().numpy().tobytes())
    elif isinstance(x, np.ndarray):
        out[path] = (x.shape, x.tobytes())
    elif isinstance(x, np.generic):
        out[path] = repr(x)
    elif id(x) in seen:
        out[path] = "seen"
    else:
        seen[id(x)] = x
        if isinstance(x, nn.Module):
            for k, v in x.state_dict().items():
                print_of(v, skip, seen, path + ".sd." + k, out)
            for k, m in x.named_modules():
                out[path + ".mode." + k] = m.training
        elif isinstance(x, torch.optim.Optimizer):
            print_of(x.state_dict(), skip, seen, path + ".opt", out)
        elif isinstance(x, dict):
            out[path + "#"] = len(x)
            for k, v in x.items():
                print_of(v, skip, seen, path + "[%r]" % (k,), out)
        elif isinstance(x, (list, tuple)) or type(x).__name__ in ("deque", "RandomAccessQueue", "set"):
            out[path + "#"] = len(x)
            for i, v in enumerate(x):
                print_of(v, skip, seen, path + "[%d]" % i, out)
        elif hasattr(x, "__dict__") and type(x).__module__.split(".")[0] in ("pfrl", "c24", "__main__", "agents_util"):
            for k, v in vars(x).items():
                if k not in skip:
                    print_of(v, skip, seen, path + "." + k, out)
    return out


SERIAL = ("A3C", "ACER", "REINFORCE", "ACTOR")


def make(h, kind):
    c21.mlp = moody
    import pfrl

    if kind == "ACTOR":
        ag = pfrl.agents.StateQFunctionActor(Pipe(), c21.DiscreteQ(moody(h, OBS, 2)), Ex())
        return ag
    c21.Policy = Gauss if kind.startswith("SAC") else agents_util.Policy
    ag, _ = c21.build(h, kind)
    if kind in ("A3C", "ACER"):
        ag.optimizer = torch.optim.SGD(ag.shared_model.parameters(), lr=1e-3)
    if hasattr(ag, "explorer"):
        ag.explorer = Ex()
    if hasattr(ag, "act_deterministically"):
        ag.act_deterministically = h.rng.random() < 0.5
    if hasattr(ag, "replay_updater"):  # histories with and without updates
        ag.replay_updater.replay_start_size = h.rng.choice([4, 10 ** 6])
        ag.replay_updater.batchsize = 3
    return ag


def ob(h):
    return np.asarray([h.rng.gauss(0, 1) for _ in range(OBS)], dtype=np.float32)


def step(h, ag, kind, n, end=0.2):
    xs = [ob(h) for _ in range(n)]
    ys = [ob(h) for _ in range(n)]
    r = [h.rng.uniform(-1, 1) for _ in range(n)]
    d = [h.rng.random() < end for _ in range(n)]
    s = [not q and h.rng.random() < end / 2 and kind != "A2C" for q in d]
    if kind in SERIAL or n == 1:
        a = [ag.act(xs[0])]
        yield xs, a
        ag.observe(ys[0], r[0], d[0], s[0])
    else:
        a = ag.batch_act(xs)
        yield xs, a
        ag.batch_observe(ys, r, d, s)


def expected(ag, kind, xs):
    from pfrl.utils import evaluating
    from pfrl.utils.batch_states import batch_states
    from pfrl.utils.mode_of_distribution import mode_of_distribution

    net = ag.policy if kind in ("DDPG", "TD3", "SAC", "SACT", "TRPO", "TRPON") else ag.model
    if kind == "IQN" or not getattr(ag, "act_deterministically", True):
        return None
    x = batch_states(xs, torch.device("cpu"), lambda z: z)
    if getattr(ag, "obs_normalizer", None) is not None:
        x = ag.obs_normalizer(x, update=False)
    modes = [(m, m.training) for m in net.modules()]
    net.eval()
    with torch.no_grad():
        y = net(x)
    for m, t in modes:
        m.training = t
    if kind in ("DDPG", "TD3"):
        return y.loc.numpy()
    if isinstance(y, tuple):
        y = y[0]
    if hasattr(y, "greedy_actions"):
        return y.greedy_actions.numpy()
    return mode_of_distribution(y).numpy()


def part_agents(h):
    kinds = c21.KINDS + ["ACTOR"]
    for it in range(h.n(4 * len(kinds))):
        kind = kinds[it % len(kinds)]
        if not h.time_left():
            return
        ag = make(h, kind)
        n = 1 if kind in SERIAL else 2
        one = it // len(kinds) % 2 == 1 and kind != "A2C"
        n = 1 if one else n
        for p in range(h.rng.randint(1, 3)):
            for _ in range(h.rng.randint(0, 8)):
                for _x in step(h, ag, kind, n):
                    pass
            # a part of a network that the user keeps in another mode
            for m in [m for k, v in vars(ag).items() if isinstance(v, nn.Module) and "normalizer" not in k for m in v.modules()]:
                if isinstance(m, Moody) and h.rng.random() < 0.3:
                    m.training = not m.training
            h.case((kind, n, p, it))
            skip = {"test_recurrent_states"}
            before = print_of(ag, skip, {})
            fail = h.rng.random() < 0.3
            k = h.rng.randint(1, 5)
            ne = n if kind in SERIAL or one else h.rng.choice([1, 2, 3])
            try:
                with ag.eval_mode():
                    h.check(ag.training is False, "evaluation mode entered", agent=kind)
                    for _ in range(k):
                        for xs, a in step(h, ag, kind, ne, 0.4):
                            mid = print_of(ag, skip, {})
                            want = expected(ag, kind, xs)
                            if want is not None:
                                h.check(np.allclose(np.asarray(a), want[:len(a)], atol=1e-5), "evaluation action", agent=kind, got=repr(a), want=repr(want))
                            h.check({q: v for q, v in mid.items() if q != ".training"} == {q: v for q, v in before.items() if q != ".training"},
                                    "acting changes nothing", agent=kind, changed=diff(before, mid))
                    if fail:
                        raise KeyError("evaluation failed")
            except KeyError:
                h.check(fail, "no unexpected error", agent=kind)
            after = print_of(ag, skip, {})
            h.check(after.get(".training", "True") == before.get(".training", "True"), "training mode restored", agent=kind)
            h.check({q: v for q, v in after.items() if q != ".training"} == {q: v for q, v in before.items() if q != ".training"},
                    "evaluation changes nothing", agent=kind, changed=diff(before, after))


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k) and k != ".training")[:6]


def part_evaluating(h):
    from pfrl.utils import evaluating

    for it in range(h.n(60)):
        net = nn.Sequential(Moody(), nn.Sequential(Moody(), nn.Linear(1, 1)), nn.Linear(1, 1))
        for m in net.modules():
            m.training = h.rng.random() < 0.5
        modes = [m.training for m in net.modules()]
        fail = h.rng.random() < 0.5
        h.case((modes, fail))
        try:
            with evaluating(net):
                h.check(not any(m.training for m in net.modules()), "evaluation mode inside")
                if fail:
                    raise KeyError
        except KeyError:
            h.check(fail, "no unexpected error")
        h.eq([m.training for m in net.modules()], modes, "mode of every module restored")


def part_recurrent(h):
    import pfrl
    from pfrl.nn import RecurrentSequential
    from pfrl.q_functions import DiscreteActionValueHead

    key = "c24"
    log = c20.LOGS[key] = c20.Log()
    log.check = False
    kinds = ("dqn", "double_dqn", "ppo", "trpo", "a3c", "acer", "reinforce", "actor")
    for it in range(h.n(4 * len(kinds))):
        kind = kinds[it % len(kinds)]
        if kind == "actor":
            ag = pfrl.agents.StateQFunctionActor(Pipe(), RecurrentSequential(c20.Spy(3, key, h.rng.random() < 0.5), DiscreteActionValueHead()),
                                                 Ex(), recurrent=True)
        else:
            ag = c20.make_agent(h, kind, key)
        serial = kind in ("a3c", "acer", "reinforce", "actor")
        n = 1 if serial else h.rng.choice([1, 2])

        def go(m, k):
            for _ in range(k):
                xs, ys = ([np.asarray([0.0, h.rng.uniform(-1, 1)], dtype=np.float32) for _ in range(m)] for _ in range(2))
                r = [h.rng.uniform(-1, 1) for _ in range(m)]
                d = [h.rng.random() < 0.2 for _ in range(m)]
                s = [not q and h.rng.random() < 0.1 for q in d]
                if serial:
                    ag.act(xs[0])
                    ag.observe(ys[0], r[0], d[0], s[0])
                else:
                    ag.batch_act(xs)
                    ag.batch_observe(ys, r, d, s)

        h.case(("recurrent", kind, n, it))
        go(n, h.rng.randint(1, 7))
        before = print_of(ag, {"test_recurrent_states"}, {})
        with ag.eval_mode():
            if h.rng.random() < 0.3:
                with ag.eval_mode():
                    pass
                h.check(ag.training is False, "inner eval_mode leaves the outer one on", agent=kind)
            go(n, h.rng.randint(1, 4))
        after = print_of(ag, {"test_recurrent_states"}, {})
        after.pop(".training", None)
        before.pop(".training", None)
        h.check(after == before, "evaluation changes nothing", agent=kind, changed=diff(before, after))


def part_stochastic(h):
    """agents that do not act deterministically draw from the policy"""
    for it in range(h.n(6)):
        ag = make(h, "SAC")
        ag.act_deterministically = False
        h.case(("stochastic", it))
        with ag.eval_mode():
            x = ob(h)
            got = [ag.act(x) for _ in range(8)]
        h.check(len({g.tobytes() for g in got}) > 1, "actions are drawn from the policy", got=repr(got))


PARTS = [part_recurrent, part_stochastic, part_evaluating, part_agents]
