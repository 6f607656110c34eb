"""C20 replay: recurrent-state utilities on random nested states, and agents with a
recurrent module whose state is a record of the observations it has seen."""
import copy
import itertools

import numpy as np
import torch
from torch import nn

from dynmain import Violation


def rand_state(h, b, depth=0, as_np=False):
    """random state for a batch of b; structure is returned through nesting"""
    x = h.rng.random()
    if depth < 3 and x < (0.55 if depth == 0 else 0.35):
        return tuple(rand_state(h, b, depth + 1, as_np) for _ in range(h.rng.randint(1, 3)))
    if depth and x > 0.9:
        return None
    shape = [h.rng.randint(1, 2), b, h.rng.randint(1, 3)] + [2] * h.rng.randint(0, 1)
    a = np.asarray([h.rng.uniform(-5, 5) for _ in range(int(np.prod(shape)))], dtype=np.float32).reshape(shape)
    return a if as_np else torch.as_tensor(a)


def fmap(f, s):
    if s is None:
        return None
    if isinstance(s, tuple):
        return tuple(fmap(f, x) for x in s)
    return f(s)


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    return tuple(a.shape) == tuple(b.shape) and np.array_equal(np.asarray(a), np.asarray(b))


def part_mask(h):
    from pfrl.utils import recurrent as R

    for it in range(h.n(500)):
        b = h.rng.randint(1, 6)
        s = rand_state(h, b)
        s0 = copy.deepcopy(s)
        kind = h.rng.choice(["list", "int", "array", "all", "neg"])
        ix = [i for i in range(b) if h.rng.random() < 0.4]
        arg = ix
        if kind == "int":
            arg = h.rng.randrange(b)
            ix = [arg]
        elif kind == "array":
            arg = np.asarray(ix, dtype=np.int64)
        elif kind == "all":
            ix = arg = list(range(b))
        elif kind == "neg" and ix:
            arg = [i - b for i in ix]
        h.case(("mask", b, kind, tuple(ix), repr(fmap(lambda t: tuple(t.shape), s))))
        r = R.mask_recurrent_state_at(s, arg)

        def want(t):
            t = t.clone()
            t[:, ix] = 0
            return t

        ctx = dict(batch=b, indices=ix, shapes=repr(fmap(lambda t: tuple(t.shape), s)))
        h.check(same(fmap(lambda t: t + 0.0, r), fmap(want, s0)), "only the given environments are cleared", **ctx)
        h.check(same(s, s0), "argument not modified", **ctx)


def part_get_concat(h):
    from pfrl.utils import recurrent as R

    for it in range(h.n(500)):
        b = h.rng.randint(1, 6)
        s = rand_state(h, b)
        s0 = copy.deepcopy(s)
        shapes = repr(fmap(lambda t: tuple(t.shape), s))
        h.case(("get", b, shapes))
        detach = h.rng.random() < 0.5
        parts = [R.get_recurrent_state_at(s, i, detach) for i in range(b)]
        for i, q in enumerate(parts):
            h.check(same(q, fmap(lambda t: t[:, i], s0)), "state of one environment", batch=b, index=i, shapes=shapes)
        ix = [h.rng.randrange(b) for _ in range(h.rng.randint(1, 4))]
        h.check(same(R.get_recurrent_state_at(s, ix, detach), fmap(lambda t: t[:, ix], s0)), "states of several environments", indices=ix, shapes=shapes)
        r = R.concatenate_recurrent_states(parts)
        if any(x is not None for x in flat(s0)):
            h.check(same(r, s0), "concatenating split states gives the batch", batch=b, shapes=shapes)
        else:
            h.check(all(x is None for x in flat(r)), "no state stays none", shapes=shapes)
        # fresh states among the parts become zeros
        miss = [h.rng.random() < 0.4 for _ in range(b)]
        mixed = [None if m else q for m, q in zip(miss, parts)]
        if all(miss):
            h.check(R.concatenate_recurrent_states(mixed) is None, "all fresh gives none", batch=b)
        elif all(x is not None for x in flat(s0)):
            def want(t):
                t = t.clone()
                t[:, [i for i in range(b) if miss[i]]] = 0
                return t

            h.check(same(R.concatenate_recurrent_states(mixed), fmap(want, s0)), "fresh states become zeros, others kept", miss=miss, shapes=shapes)
        # numpy and back
        n = R.recurrent_state_as_numpy(s)
        h.check(same(n, fmap(lambda t: t.numpy(), s0)), "as numpy", shapes=shapes)
        h.check(same(R.recurrent_state_from_numpy(n, torch.device("cpu")), s0), "from numpy", shapes=shapes)
        nparts = [R.recurrent_state_as_numpy(q) for q in parts]
        if all(x is not None for x in flat(s0)):
            h.check(same(R.concatenate_recurrent_states(nparts), fmap(lambda t: t.numpy(), s0)), "concatenating numpy states", shapes=shapes)
            nm = [None if m else q for m, q in zip(miss, nparts)]
            if not all(miss):
                h.check(same(R.concatenate_recurrent_states(nm), fmap(lambda t: want(t).numpy(), s0)), "fresh numpy states become zeros", miss=miss, shapes=shapes)
        g = fmap(lambda t: t.clone().requires_grad_(), s0)
        h.check(all(not t.requires_grad for t in flat(R.detach_recurrent_state(g)) if t is not None), "detached", shapes=shapes)
        h.check(same(fmap(lambda t: t.detach(), g), R.detach_recurrent_state(g)), "detaching keeps the values", shapes=shapes)
        h.check(all(not t.requires_grad for t in flat(R.get_recurrent_state_at(g, 0, True)) if t is not None), "detached part", shapes=shapes)


def flat(s):
    if isinstance(s, tuple):
        return [y for x in s for y in flat(x)]
    return [s]


def part_reset(h):
    from pfrl.agents import dqn

    f = getattr(dqn, "_batch_reset_recurrent_states_when_episodes_end", None)
    if f is None:
        return
    for it in range(h.n(300)):
        b = h.rng.randint(1, 6)
        s = rand_state(h, b)
        s0 = copy.deepcopy(s)
        done = [h.rng.random() < 0.3 for _ in range(b)]
        reset = [h.rng.random() < 0.3 for _ in range(b)]
        h.case(("reset", tuple(done), tuple(reset), repr(fmap(lambda t: tuple(t.shape), s))))

        def want(t):
            t = t.clone()
            t[:, [i for i in range(b) if done[i] or reset[i]]] = 0
            return t

        r = f(batch_done=done, batch_reset=reset, recurrent_states=s)
        h.check(same(fmap(lambda t: t + 0.0, r), fmap(want, s0)), "states of ended episodes cleared, others kept", done=done, reset=reset)


def part_sequences(h):
    """packing, flattening and forwards on ragged batches against one-by-one forwards"""
    from pfrl.utils import recurrent as R
    from pfrl.nn import RecurrentBranched, RecurrentSequential

    for it in range(h.n(60)):
        lens = [h.rng.randint(1, 5) for _ in range(h.rng.randint(1, 5))]
        if h.rng.random() < 0.5:
            lens.sort(reverse=True)
        seqs = [[(i, t) for t in range(n)] for i, n in enumerate(lens)]
        h.case(("seqs", tuple(lens)))
        got = R.flatten_sequences_time_first(seqs)
        want = [(i, t) for t in range(max(lens)) for i, n in enumerate(lens) if t < n]
        h.eq(got, want, "flattened time first", lengths=lens)
        vals = [0, 0.0, False, "", (), 1, {}, -1]
        vs = [[h.rng.choice(vals) for _ in range(n)] for n in lens]
        got = R.flatten_sequences_time_first(vs)
        h.eq(got, [vs[i][t] for i, t in want], "flattened time first, whatever the items", lengths=lens)
        lens.sort(reverse=True)
        torch.manual_seed(it)
        xs = [torch.as_tensor(np.asarray([[h.rng.uniform(-1, 1) for _ in range(2)] for _ in range(n)], dtype=np.float32)) for n in lens]
        tup = h.rng.random() < 0.4
        kind = h.rng.choice(["lstm", "gru", "seq", "branched"])
        if kind == "lstm":
            net = nn.LSTM(2, 3, num_layers=h.rng.randint(1, 2))
        elif kind == "gru":
            net = nn.GRU(2, 3)
        elif kind == "seq":
            net = RecurrentSequential(nn.Linear(2, 2), nn.Tanh(), nn.LSTM(2, 3), nn.Linear(3, 2), nn.GRU(2, 2), nn.Linear(2, 1))
        else:
            net = RecurrentBranched(RecurrentSequential(nn.LSTM(2, 2), nn.Linear(2, 1)), RecurrentSequential(nn.Linear(2, 3), nn.GRU(3, 2)))
        wrap = lambda x: x
        if tup:
            # observations that are nested tuples of tensors
            class Join(nn.Module):
                def forward(self, ab):
                    return torch.cat([ab[0], ab[1][0]], dim=-1)

            if kind == "seq":
                net = RecurrentSequential(Join(), *list(net))
                wrap = lambda x: (x[:, :1], (x[:, 1:],))
            elif kind == "branched":
                net = RecurrentBranched(*[RecurrentSequential(Join(), *list(c)) for c in net])
                wrap = lambda x: (x[:, :1], (x[:, 1:],))
        ctx = dict(lengths=lens, net=kind, tuples=tup)
        with torch.no_grad():
            # per-sequence reference, one step at a time
            ref, states = [], []
            for x in xs:
                rs, ys = None, []
                for t in range(len(x)):
                    y, rs = R.one_step_forward(net, wrap(x[t:t + 1]), rs)
                    ys.append(y)
                ref.append(ys)
                states.append(rs)
            y, rs = R.pack_and_forward(net, [wrap(x) for x in xs], None)
            order = R.flatten_sequences_time_first([[(i, t) for t in range(n)] for i, n in enumerate(lens)])

            def cmp(a, b, what):
                if isinstance(a, tuple):
                    for p, q in zip(a, b):
                        cmp(p, q, what)
                else:
                    h.close(a.numpy(), b.numpy(), what, 1e-4, **ctx)

            def pick(y, k):
                return tuple(pick(z, k) for z in y) if isinstance(y, tuple) else y[k:k + 1]

            for k, (i, t) in enumerate(order):
                cmp(pick(y, k), ref[i][t], "packed outputs are those of each sequence, time first")
            for i in range(len(xs)):
                got = R.get_recurrent_state_at(rs, i, True)
                want = R.get_recurrent_state_at(states[i], 0, True)
                cmp(got, want, "final state of each sequence")
            # continuing from concatenated states
            cont = R.concatenate_recurrent_states([R.get_recurrent_state_at(s, 0, True) for s in states])
            x = torch.as_tensor(np.asarray([[h.rng.uniform(-1, 1) for _ in range(2)] for _ in xs], dtype=np.float32))
            y, _ = R.one_step_forward(net, wrap(x), cont)
            for i in range(len(xs)):
                yi, _ = R.one_step_forward(net, wrap(x[i:i + 1]), states[i])
                cmp(pick(y, i), yi, "one step of a batch is one step of each environment")


# ---- agents ---------------------------------------------------------------------
class Log:
    """what each observation's state must be"""

    def __init__(self):
        self.before = {}
        self.check = True
        self.calls = 0
        self.what = ""


LOGS = {}


def Spy(out, key, nested):
    from pfrl.nn import Recurrent

    class _Spy(Recurrent, nn.Module):
        def __init__(self):
            nn.Module.__init__(self)
            self.lin = nn.Linear(3, out)
            nn.init.normal_(self.lin.weight, std=0.01)
            self.key = key
            self.nested = nested

        def forward(self, packed, rs):
            log = LOGS[self.key]
            x, lens = nn.utils.rnn.pad_packed_sequence(packed)
            T, B = x.shape[0], x.shape[1]
            if rs is None:
                cnt, tot = torch.zeros(1, B, 1), torch.zeros(1, B, 1)
            elif self.nested:
                cnt, (tot,) = rs
            else:
                cnt, tot = rs[:, :, :1], rs[:, :, 1:]
            cnt, tot = cnt.clone(), tot.clone()
            log.calls += 1
            if log.check:
                for j in range(B):
                    o = int(x[0, j, 0])
                    want = log.before.get(o)
                    got = (int(cnt[0, j, 0]), int(tot[0, j, 0]))
                    if want is None or got != want:
                        raise Violation("recurrent state of an environment is not that of its own observations since its episode began",
                                        observation=o, got="(observations seen, their sum)=%r" % (got,), want=repr(want),
                                        batch=[int(v) for v in x[0, :, 0]], during=log.what)
            ys = []
            for t in range(T):
                live = (lens > t).float().reshape(1, B, 1)
                cnt = cnt + live
                tot = tot + live * x[t, :, :1].reshape(1, B, 1)
                f = torch.cat([x[t, :, 1:2], cnt[0] * 0.01, x[t, :, :1] * 0.001], dim=-1)
                ys.append(self.lin(f))
            y = nn.utils.rnn.pack_padded_sequence(torch.stack(ys), lens, enforce_sorted=packed.sorted_indices is None)
            y = nn.utils.rnn.PackedSequence(y.data, packed.batch_sizes, packed.sorted_indices, packed.unsorted_indices)
            return y, (cnt, (tot,)) if self.nested else torch.cat([cnt, tot], dim=2)

    return _Spy()


class World:
    """observation ids; the state each must be met with"""

    def __init__(self, h, log, n):
        self.h, self.log, self.n = h, log, n
        self.hist = [(0, 0)] * n
        self.next_id = 1

    def obs(self, i, fresh):
        o = self.next_id
        self.next_id += 1
        if fresh:
            self.hist[i] = (0, 0)
        self.log.before[o] = self.hist[i]
        c, s = self.hist[i]
        self.hist[i] = (c + 1, s + o)
        return np.asarray([o, self.h.rng.uniform(-1, 1)], dtype=np.float32)


def make_agent(h, kind, key):
    import pfrl
    from pfrl.nn import RecurrentBranched, RecurrentSequential
    from pfrl.policies import SoftmaxCategoricalHead
    from pfrl.q_functions import DiscreteActionValueHead

    nested = h.rng.random() < 0.5
    n_act = 3
    if kind in ("dqn", "double_dqn", "pal", "dpp", "al"):
        q = RecurrentSequential(Spy(n_act, key, nested), DiscreteActionValueHead())
        cls = {"dqn": pfrl.agents.DQN, "double_dqn": pfrl.agents.DoubleDQN, "pal": pfrl.agents.PAL,
               "dpp": pfrl.agents.DPP, "al": pfrl.agents.AL}[kind]
        return cls(
            q, torch.optim.SGD(q.parameters(), lr=1e-3), pfrl.replay_buffers.EpisodicReplayBuffer(200), gamma=0.9,
            explorer=pfrl.explorers.ConstantEpsilonGreedy(0.3, lambda: h.rng.randrange(n_act)),
            replay_start_size=h.rng.choice([6, 15]), minibatch_size=h.rng.randint(1, 3), update_interval=h.rng.randint(1, 4),
            target_update_interval=12, recurrent=True, episodic_update_len=h.rng.choice([None, 2, 4]))
    if kind in ("a3c", "ppo"):
        m = h.rng.random() < 0.5
        if m:
            model = RecurrentBranched(RecurrentSequential(Spy(n_act, key, nested), SoftmaxCategoricalHead()),
                                      RecurrentSequential(Spy(1, key, nested)))
        else:
            model = RecurrentSequential(Spy(4, key, nested), pfrl.nn.Branched(
                nn.Sequential(nn.Linear(4, n_act), SoftmaxCategoricalHead()), nn.Linear(4, 1)))
        opt = torch.optim.SGD(model.parameters(), lr=1e-3)
        if kind == "ppo":
            return pfrl.agents.PPO(model, opt, gamma=0.9, update_interval=h.rng.randint(8, 20), minibatch_size=h.rng.randint(3, 8),
                                   epochs=2, recurrent=True, max_recurrent_sequence_len=h.rng.choice([None, 2, 3]),
                                   act_deterministically=h.rng.random() < 0.5)
        model.share_memory()
        return pfrl.agents.A3C(model, opt, t_max=h.rng.randint(1, 5), gamma=0.9, recurrent=True)
    if kind == "trpo":
        pi = RecurrentSequential(Spy(n_act, key, nested), SoftmaxCategoricalHead())
        vf = RecurrentSequential(Spy(1, key, nested))
        return pfrl.agents.TRPO(pi, vf, torch.optim.SGD(vf.parameters(), lr=1e-3), gamma=0.9, update_interval=h.rng.randint(8, 20),
                                vf_batch_size=h.rng.randint(3, 8), vf_epochs=2, recurrent=True,
                                max_recurrent_sequence_len=h.rng.choice([None, 2, 3]))
    if kind == "reinforce":
        pi = RecurrentSequential(Spy(n_act, key, nested), SoftmaxCategoricalHead())
        return pfrl.agents.REINFORCE(pi, torch.optim.SGD(pi.parameters(), lr=1e-3), batchsize=2, recurrent=True,
                                     backward_separately=h.rng.random() < 0.5)
    if kind == "acer":
        from pfrl.agents.acer import ACERDiscreteActionHead

        model = RecurrentSequential(Spy(4, key, nested), ACERDiscreteActionHead(
            pi=nn.Sequential(nn.Linear(4, n_act), SoftmaxCategoricalHead()),
            q=nn.Sequential(nn.Linear(4, n_act), DiscreteActionValueHead())))
        model.share_memory()
        return pfrl.agents.ACER(model, torch.optim.SGD(model.parameters(), lr=1e-4), t_max=h.rng.randint(1, 5), gamma=0.9,
                                replay_buffer=pfrl.replay_buffers.EpisodicReplayBuffer(50), n_times_replay=1, replay_start_size=10,
                                recurrent=True)
    raise AssertionError(kind)


BATCH = ("dqn", "double_dqn", "ppo", "trpo", "pal", "dpp", "al")
SERIAL = ("a3c", "acer", "reinforce") + BATCH


def drive(h, agent, log, kind, b, steps, serial, replay_ok):
    """random histories with evaluation phases in between"""
    import warnings

    world = World(h, log, b)
    cur = [None] * b
    done_p, reset_p = h.rng.choice([0.1, 0.3]), h.rng.choice([0.0, 0.15])
    if kind == "reinforce":
        done_p = 0.3

    def phase(world, cur, n, tag):
        for _ in range(n):
            for i in range(world.n):
                if cur[i] is None:
                    cur[i] = world.obs(i, True)
            log.what, log.check = tag + " act", True
            if serial:
                a = [agent.act(cur[0])]
            else:
                a = list(agent.batch_act(list(cur)))
            h.check(len(a) == world.n and all(0 <= int(x) < 3 for x in a), "one valid action per environment")
            nxt = [world.obs(i, False) for i in range(world.n)]
            done = [h.rng.random() < done_p for _ in range(world.n)]
            reset = [h.rng.random() < reset_p for _ in range(world.n)]
            rew = [h.rng.uniform(-1, 1) for _ in range(world.n)]
            log.what, log.check = tag + " observe", replay_ok
            if serial:
                agent.observe(nxt[0], rew[0], done[0], reset[0])
            else:
                agent.batch_observe(nxt, rew, done, reset)
            for i in range(world.n):
                cur[i] = None if done[i] or reset[i] else nxt[i]
        return cur

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        left = steps
        while left > 0:
            n = min(left, h.rng.randint(1, 9))
            left -= n
            phase(world, cur, n, "training")
            if h.rng.random() < 0.5:
                # an evaluation: fresh episodes, of as many or other environments
                be = 1 if serial else b
                ew = World(h, log, be)
                ew.next_id = world.next_id
                with agent.eval_mode():
                    c = [None] * be
                    phase(ew, c, h.rng.randint(1, 5), "evaluation")
                    # every evaluation ends by ending all episodes
                    for i in range(be):
                        if c[i] is None:
                            c[i] = ew.obs(i, True)
                    log.what, log.check = "evaluation act", True
                    agent.act(c[0]) if serial else agent.batch_act(c)
                    nx = [ew.obs(i, False) for i in range(be)]
                    if serial:
                        agent.observe(nx[0], 0.0, False, True)
                    else:
                        agent.batch_observe(nx, [0.0] * be, [False] * be, [True] * be)
                world.next_id = ew.next_id


def part_agents(h):
    k = 0
    for it in range(h.n(3)):
        for kind in SERIAL:
            for serial in ((True, False) if kind in BATCH else (True,)):
                k += 1
                key = "k%d" % k
                log = LOGS[key] = Log()
                np.random.seed(h.seed * 1000 + k)
                torch.manual_seed(h.seed * 1000 + k)
                b = 1 if serial else h.rng.randint(2, 4)
                agent = make_agent(h, kind, key)
                steps = 60 if kind != "trpo" else 30
                h.case(("agent", kind, serial, b))
                try:
                    drive(h, agent, log, kind, b, steps if serial else steps // 2, serial, kind != "acer")
                except Violation as v:
                    v.info.update(agent=kind, environments=b, batch_api=not serial)
                    raise
                h.check(log.calls > steps // 2, "the model was used", calls=log.calls)
                del LOGS[key]


def part_actor(h):
    """the actor of the actor-learner mode"""
    import pfrl
    from pfrl.agents.state_q_function_actor import StateQFunctionActor
    from pfrl.nn import RecurrentSequential
    from pfrl.q_functions import DiscreteActionValueHead
    from pfrl.utils.batch_states import batch_states
    import logging

    class Pipe:
        def __init__(self):
            self.sent = []

        def send(self, m):
            self.sent.append(m)

        def recv(self):
            return None

        def poll(self, *a):
            return False

    for it in range(h.n(4)):
        key = "actor%d" % it
        log = LOGS[key] = Log()
        q = RecurrentSequential(Spy(3, key, False), DiscreteActionValueHead())
        pipe = Pipe()
        agent = StateQFunctionActor(pipe=pipe, model=q, explorer=pfrl.explorers.Greedy(), recurrent=True, batch_states=batch_states)
        h.case(("actor", it))
        drive(h, agent, log, "actor", 1, 50, True, True)
        for name, tr in pipe.sent:
            if name != "transition":
                continue
            for s, r in (("state", "recurrent_state"), ("next_state", "next_recurrent_state")):
                got = tr[r]
                got = (0, 0) if got is None else tuple(int(v) for v in np.asarray(got[0]).reshape(-1))
                h.eq(got, log.before[int(tr[s][0])], "recorded " + r + " belongs to the recorded " + s)


PARTS = [part_mask, part_get_concat, part_reset, part_sequences, part_agents, part_actor]
