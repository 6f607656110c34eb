"""C16 replay: one update of every value-based agent on random n-step batches,
compared with one plain gradient step on a per-row reference loss."""
import numpy as np
import torch
from agents_util import (CPU, OBS, DiscreteQ, PairQ, Policy, check_step, clone, mlp, rand_batch, recording_buffer,
                         ref_step, scramble, sgd)
from torch import nn

LR = 0.05


def huber(d):
    a = abs(d)
    return 0.5 * d * d if float(a) < 1 else a - 0.5


def dqn_target(name, c, q, tq, alpha, eta):
    """target of one row: q, tq map a state to a vector of action values"""
    with torch.no_grad():
        ns, s, a = c["ns"], c["s"], int(c["a"])
        t_ns, t_s = tq(ns), tq(s)
        live = 0.0 if c["term"] else c["d"]
        adv = t_s[a] - t_s.max()
        nadv = t_ns[a] - t_ns.max()
        if name in ("DoubleDQN", "DoublePAL"):
            boot = t_ns[int(q(ns).argmax())]
        elif name == "DPP":
            boot = (torch.softmax(eta * t_ns, 0) * t_ns).sum()
        elif name == "DPPL":
            boot = torch.logsumexp(eta * t_ns, 0) / eta
        else:
            boot = t_ns.max()
        t = c["r"] + live * boot
        if name == "AL":
            t = t + alpha * adv
        elif name in ("PAL", "DoublePAL"):
            t = t + alpha * torch.max(adv, nadv)
        elif name == "DPP":
            t = t + t_s[a] - (torch.softmax(eta * t_s, 0) * t_s).sum()
        elif name == "DPPL":
            t = t + t_s[a] - torch.logsumexp(eta * t_s, 0) / eta
        elif name == "DPPGreedy":
            t = t + t_s[a] - t_s.max()
        return t


def part_dqn(h):
    import pfrl
    from pfrl import agents

    h.rule = "random n-step batches (1-5 rows, terminal mix, weights, mean/sum, huber/mse) per agent class; one SGD step"
    names = ["DQN", "DoubleDQN", "AL", "PAL", "DoublePAL", "DPP", "DPPL", "DPPGreedy"]
    for it in range(h.n(30)):
        for name in names:
            cls = getattr(agents, name, None) or getattr(__import__("pfrl.agents.dpp", fromlist=["x"]), name)
            B, A = h.rng.choice([1, 2, 5]), h.rng.choice([2, 3])
            gamma = h.rng.choice([0.0, 0.5, 0.9, 1.0])
            acc, clip, weighted = h.rng.choice(["mean", "sum"]), h.rng.random() < 0.5, h.rng.random() < 0.5
            alpha, eta = h.rng.uniform(0.1, 0.9), h.rng.choice([0.5, 1.0, 2.0])
            kw = {}
            if name in ("AL", "PAL", "DoublePAL"):
                kw["alpha"] = alpha
            if name in ("DPP", "DPPL"):
                kw["eta"] = eta
            out = []
            m = DiscreteQ(mlp(h, OBS, A))
            ag = cls(m, sgd(m, LR), recording_buffer(out), gamma,
                     pfrl.explorers.ConstantEpsilonGreedy(0.1, lambda: 0), batch_accumulator=acc, clip_delta=clip,
                     replay_start_size=1, minibatch_size=1, **kw)
            scramble(h, ag.target_model)
            exps, cols = rand_batch(h, B, lambda: h.rng.randrange(A), gamma=gamma, weights=weighted)
            h.case((name, it, B, gamma, acc, clip, weighted, [(c["r"], c["d"], c["term"]) for c in cols]))
            net, tnet = clone(m), clone(ag.target_model)
            q, tq = (lambda s: net.net(s[None])[0]), (lambda s: tnet.net(s[None])[0])
            loss, deltas = 0.0, []
            for c in cols:
                t = dqn_target(name, c, q, tq, alpha, eta)
                d = q(c["s"])[int(c["a"])] - t
                deltas.append(abs(float(d)))
                loss = loss + c["w"] * (huber(d) if clip else d * d / 2)
            if acc == "mean":
                loss = loss / B
            want = ref_step(net, loss, LR)
            ag.update(exps)
            check_step(h, m, want, "%s: parameters after one update" % name)
            for a, b in zip(ag.target_model.parameters(), tnet.parameters()):
                h.check(torch.equal(a, b), "%s: update changed the target network" % name)
            h.eq(len(out), int(weighted), "%s: errors handed back once per weighted update" % name)
            if weighted:
                h.close(np.asarray(out[0]).ravel(), deltas, "%s: TD errors handed back" % name, 1e-3)


class TauQ(nn.Module):
    def __init__(self, net, A, log):
        super().__init__()
        self.net, self.A, self.log = net, A, log

    def quant(self, s, taus):
        return torch.stack([self.net(torch.cat([s, taus[:, i:i + 1]], 1)) for i in range(taus.shape[1])], 1)

    def forward(self, s):
        from pfrl.action_value import QuantileDiscreteActionValue

        def f(taus):
            self.log.append((s.detach().clone(), taus.detach().clone(), torch.is_grad_enabled()))
            return QuantileDiscreteActionValue(self.quant(s, taus))

        return f


def part_iqn(h):
    import pfrl
    from pfrl.agents import IQN

    for it in range(h.n(40)):
        B, A, N, N2, K = h.rng.choice([1, 2, 4]), 2, 3, 5, 7
        gamma = h.rng.choice([0.5, 0.9, 1.0])
        acc, weighted = h.rng.choice(["mean", "sum"]), h.rng.random() < 0.5
        log, out = [], []
        m = TauQ(mlp(h, OBS + 1, A), A, log)
        ag = IQN(m, sgd(m, LR), recording_buffer(out), gamma,
                 pfrl.explorers.ConstantEpsilonGreedy(0.1, lambda: 0), batch_accumulator=acc,
                 quantile_thresholds_N=N, quantile_thresholds_N_prime=N2, quantile_thresholds_K=K,
                 replay_start_size=1, minibatch_size=1)
        ag.target_model.log = tlog = []
        scramble(h, ag.target_model)
        exps, cols = rand_batch(h, B, lambda: h.rng.randrange(A), gamma=gamma, weights=weighted)
        h.case(("IQN", it, B, gamma, acc, weighted, [(c["r"], c["d"], c["term"]) for c in cols]))
        net, tnet = clone(m), clone(ag.target_model)
        torch.manual_seed(it)
        ag.update(exps)
        taus = [t for _, t, _ in log if t.shape == (B, N)]
        kts = [t for _, t, _ in tlog if t.shape == (B, K)]
        tps = [t for _, t, _ in tlog if t.shape == (B, N2)]
        h.check(len(taus) == 1 and len(kts) == 1 and len(tps) == 1,
                "IQN: N thresholds for the prediction, K for the greedy action, N' for the target")
        for t in (taus[0], kts[0], tps[0]):
            h.check(bool(((t >= 0) & (t <= 1)).all()), "IQN: thresholds in [0, 1]")
        S = torch.stack([c["s"] for c in cols])
        NS = torch.stack([c["ns"] for c in cols])
        y = net.quant(S, taus[0])
        with torch.no_grad():
            g = tnet.quant(NS, kts[0]).mean(1).argmax(1)
            z = tnet.quant(NS, tps[0])
        loss, errs = 0.0, []
        for b, c in enumerate(cols):
            row = 0.0
            for i in range(N):
                cell = 0.0
                for j in range(N2):
                    t = c["r"] + (0.0 if c["term"] else c["d"]) * z[b, j, g[b]]
                    p = y[b, i, int(c["a"])]
                    wgt = abs(float(taus[0][b, i]) - (1.0 if float(t) < float(p) else 0.0))
                    cell = cell + wgt * huber(p - t)
                row = row + cell / N2
            errs.append(float(row) / N)
            loss = loss + c["w"] * row
        if acc == "mean":
            loss = loss / B
        check_step(h, m, ref_step(net, loss, LR), "IQN: parameters after one update")
        h.eq(len(out), int(weighted), "IQN: errors handed back once per weighted update")
        if weighted:
            h.close(np.asarray(out[0]).ravel(), errs, "IQN: errors handed back", 1e-3)


def part_actor_critic(h):
    import pfrl
    from pfrl.agents import DDPG, TD3, SoftActorCritic

    D = 2
    for it in range(h.n(40)):
        for name in ("DDPG", "TD3", "SAC"):
            B = h.rng.choice([1, 2, 5])
            gamma = h.rng.choice([0.5, 0.9, 1.0])
            pol = Policy(mlp(h, OBS, D))
            q1, q2 = PairQ(mlp(h, OBS + D, 1)), PairQ(mlp(h, OBS + D, 1))
            rb = pfrl.replay_buffers.ReplayBuffer(100)
            temp, delay = h.rng.choice([0.1, 0.5, 2.0]), h.rng.choice([1, 2])
            tau = h.rng.choice([0.01, 0.5])
            ex = pfrl.explorers.AdditiveGaussian(0.1)
            act = lambda: np.asarray([h.rng.uniform(-1, 1) for _ in range(D)], dtype=np.float32)  # noqa
            kw = dict(replay_start_size=1, minibatch_size=1, soft_update_tau=tau)
            if name == "DDPG":
                ag = DDPG(pol, q1, sgd(pol, LR), sgd(q1, LR), rb, gamma, ex, target_update_interval=10 ** 9,
                          replay_start_size=1, minibatch_size=1)
                tp, t1, t2 = ag.target_policy, ag.target_q_function, None
            elif name == "TD3":
                ag = TD3(pol, q1, q2, sgd(pol, LR), sgd(q1, LR), sgd(q2, LR), rb, gamma, ex,
                         policy_update_delay=delay, target_policy_smoothing_func=lambda a: a * 0.5 + 0.1, **kw)
                tp, t1, t2 = ag.target_policy, ag.target_q_func1, ag.target_q_func2
            else:
                ag = SoftActorCritic(pol, q1, q2, sgd(pol, LR), sgd(q1, LR), sgd(q2, LR), rb, gamma,
                                     initial_temperature=temp, **kw)
                tp, t1, t2 = pol, ag.target_q_func1, ag.target_q_func2
            for t in (t1, t2) + ((tp,) if tp is not pol else ()):
                if t is not None:
                    scramble(h, t)
            for step in range(2):
                exps, cols = rand_batch(h, B, act, gamma=gamma)
                h.case((name, it, step, B, gamma, temp, delay, [(c["r"], c["d"], c["term"]) for c in cols]))
                S, NS = torch.stack([c["s"] for c in cols]), torch.stack([c["ns"] for c in cols])
                Aa = torch.as_tensor(np.stack([c["a"] for c in cols]))
                with torch.no_grad():
                    dist = tp(NS)
                    na = dist.sample()
                    if name == "TD3":
                        na = na * 0.5 + 0.1
                    nq = t1((NS, na))[:, 0]
                    if t2 is not None:
                        nq = torch.min(nq, t2((NS, na))[:, 0])
                    if name == "SAC":
                        nq = nq - temp * dist.log_prob(na)
                    tgt = [c["r"] + (0.0 if c["term"] else c["d"]) * nq[b] for b, c in enumerate(cols)]
                wants = []
                for q in (q1, q2) if name != "DDPG" else (q1,):
                    c_ = clone(q)
                    y = c_((S, Aa))[:, 0]
                    loss = sum((y[b] - tgt[b]) ** 2 for b in range(B)) / B
                    if name == "SAC":
                        loss = loss / 2
                    wants.append(ref_step(c_, loss, LR))
                # the actor step sees the critics after their own step
                n1, n2, np_ = clone(q1), clone(q2), clone(pol)
                with torch.no_grad():
                    for net, w in zip((n1, n2), wants):
                        for a, b in zip(net.parameters(), w):
                            a.copy_(b)
                d = np_(S)
                on = d.rsample()
                pq = n1((S, on))[:, 0]
                if name == "SAC":
                    ploss = (temp * d.log_prob(on) - torch.min(pq, n2((S, on))[:, 0])).mean()
                else:
                    ploss = -pq.mean()
                wp = ref_step(np_, ploss, LR)
                if name == "TD3" and (step + 1) % delay:
                    wp = [q.detach().clone() for q in pol.parameters()]
                ag.update(exps)
                for k, (q, w) in enumerate(zip((q1, q2), wants)):
                    check_step(h, q, w, "%s: critic %d after one update" % (name, k + 1))
                check_step(h, pol, wp, "%s: policy after one update" % name)


PARTS = [part_dqn, part_iqn, part_actor_critic]
