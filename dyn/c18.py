"""C18 replay: on-policy agents driven through act/observe on random episodes; the
update is compared with one plain gradient step on losses built from reference
returns and advantages."""
import copy

import numpy as np
import torch
from agents_util import OBS, check_step, clone, mlp, ref_step, sgd
from torch import nn
from torch.distributions import Categorical

LR = 0.05


class ActorCritic(nn.Module):
    def __init__(self, pi, v):
        super().__init__()
        self.pi, self.v = pi, v

    def forward(self, x):
        return Categorical(logits=self.pi(x)), self.v(x)


class CatPolicy(nn.Module):
    def __init__(self, pi):
        super().__init__()
        self.pi = pi

    def forward(self, x):
        return Categorical(logits=self.pi(x))


class Head(nn.Module):
    def forward(self, x):
        return Categorical(logits=x)


def rec_net(h, value):
    """recurrent policy, with a value head if asked; same interface as the plain ones"""
    from pfrl.nn import RecurrentBranched, RecurrentSequential

    g = np.random.RandomState(h.rng.randrange(10 ** 6))
    torch.manual_seed(g.randint(10 ** 6))
    kind = h.rng.choice([nn.RNN, nn.GRU, nn.LSTM])
    pi = RecurrentSequential(nn.Linear(OBS, 4), kind(4, 4), nn.Linear(4, 3), Head())
    if not value:
        return pi
    return RecurrentBranched(pi, RecurrentSequential(nn.Linear(OBS, 3), nn.RNN(3, 3), nn.Linear(3, 1)))


def fwd(net, x, state, rec):
    """one observation through the network"""
    x = torch.as_tensor(x)[None]
    if not rec:
        return net(x), None
    from pfrl.utils.recurrent import one_step_forward

    return one_step_forward(net, x, state)


def detached(s):
    if s is None:
        return None
    return tuple(detached(x) for x in s) if isinstance(s, tuple) else s.detach()


def obs(h):
    return np.asarray([h.rng.uniform(-1, 1) for _ in range(OBS)], dtype=np.float32)


def reward(h):
    return h.rng.choice([0.0, 1.0, -1.0, h.rng.uniform(-2, 2)])


def t(xs):
    return torch.as_tensor(np.stack(xs))


def gae(ep, V, gamma, lambd):
    """advantage of every step of an episode [(s, a, r, s2, done)], by definition"""
    with torch.no_grad():
        td = [r + (0.0 if d else gamma * float(V(s2))) - float(V(s)) for s, a, r, s2, d in ep]
    return [sum((gamma * lambd) ** (j - i) * td[j] for j in range(i, len(ep))) for i in range(len(ep))]


def drive(h, ag, n_envs, steps, p_done=0.25, p_reset=0.1, allow_reset=True):
    """run the agent on random episodes -> list of episodes in completion order"""
    cur = [obs(h) for _ in range(n_envs)]
    eps, open_ = [], [[] for _ in range(n_envs)]
    for k in range(steps):
        acts = ag.batch_act(list(cur))
        nxt = [obs(h) for _ in range(n_envs)]
        rs = [reward(h) for _ in range(n_envs)]
        dones = [h.rng.random() < p_done for _ in range(n_envs)]
        resets = [allow_reset and h.rng.random() < p_reset for d in dones]
        for i in range(n_envs):
            open_[i].append((cur[i], acts[i], rs[i], nxt[i], dones[i]))
            if dones[i] or resets[i]:
                eps.append(open_[i])
                open_[i] = []
        yield_ = (list(nxt), list(rs), list(dones), list(resets))
        if k == steps - 1:
            eps += [e for e in open_ if e]
            return eps, yield_
        ag.batch_observe(*yield_)
        cur = [obs(h) if d or r else n for n, d, r in zip(nxt, dones, resets)]


def part_gae(h):
    from pfrl.agents import ppo

    h.rule = "random episodes (terminal / reset ends), gamma, lambda, 1-3 environments; whole-batch gradient step of each agent"
    f = getattr(ppo, "_add_advantage_and_value_target_to_episode", None)
    if f is None:
        return
    for it in range(h.n(300)):
        n = h.rng.choice([1, 2, 3, 7, 20])
        gamma, lambd = h.rng.choice([0.0, 0.5, 0.99, 1.0]), h.rng.choice([0.0, 0.5, 0.95, 1.0])
        term = h.rng.random() < 0.5
        ep = [dict(reward=h.rng.uniform(-2, 2), v_pred=h.rng.uniform(-2, 2), next_v_pred=h.rng.uniform(-2, 2),
                   nonterminal=0.0 if term and i == n - 1 else 1.0) for i in range(n)]
        h.case(("gae", it, n, gamma, lambd, term, [e["reward"] for e in ep]))
        old = copy.deepcopy(ep)
        f(ep, gamma, lambd)
        td = [e["reward"] + gamma * e["nonterminal"] * e["next_v_pred"] - e["v_pred"] for e in old]
        for i in range(n):
            a = sum((gamma * lambd) ** (j - i) * td[j] for j in range(i, n))
            h.close(ep[i]["adv"], a, "advantage", 1e-6, step=i)
            h.close(ep[i]["v_teacher"], a + old[i]["v_pred"], "value target", 1e-6, step=i)
            for k in old[i]:
                h.eq(ep[i][k], old[i][k], "transition field changed: " + k)


class Affine:
    """observation normaliser with fixed statistics that counts updates"""

    def __init__(self):
        self.updates = self.experienced = 0

    def to(self, device):
        return self

    def __call__(self, x, update=True):
        self.updates += bool(update)
        return 0.5 * x + 0.25

    def experience(self, x):
        self.experienced += 1


def part_ppo(h):
    from pfrl.agents import PPO

    for it in range(h.n(50)):
        n_envs, steps = h.rng.choice([1, 2, 3]), h.rng.choice([2, 4, 7])
        gamma, lambd = h.rng.choice([0.5, 0.9, 1.0]), h.rng.choice([0.0, 0.5, 0.95, 1.0])
        std, clipvf = h.rng.random() < 0.5, h.rng.choice([None, 0.05])
        ce, vc = h.rng.choice([0.0, 0.1]), h.rng.choice([0.5, 1.0])
        epochs, clip = h.rng.choice([1, 2, 3]), h.rng.choice([0.2, 0.02])
        norm = Affine() if h.rng.random() < 0.4 else None
        lr = 0.3
        N = n_envs * steps
        rec = h.rng.random() < 0.4
        cut = h.rng.choice([None, 1, 2, 3]) if rec else None
        m = rec_net(h, True) if rec else ActorCritic(mlp(h, OBS, 3), mlp(h, OBS, 1))
        ag = PPO(m, sgd(m, lr), obs_normalizer=norm, gamma=gamma, lambd=lambd, update_interval=N, minibatch_size=N,
                 epochs=epochs, clip_eps=clip,
                 standardize_advantages=std, clip_eps_vf=clipvf, entropy_coef=ce, value_func_coef=vc,
                 recurrent=rec, max_recurrent_sequence_len=cut)
        h.case(("ppo", it, n_envs, steps, gamma, lambd, std, clipvf, epochs, clip, norm is not None, rec, cut))
        torch.manual_seed(it)
        eps, last = drive(h, ag, n_envs, steps)
        net = clone(m)
        view = (lambda s: 0.5 * s + 0.25) if norm else (lambda s: s)
        advs, rows, vt, pieces = [], [], [], []
        for ep in eps:
            with torch.no_grad():
                st, vs, nvs = None, [], []
                for k, (s_, _, _, s2, _) in enumerate(ep):
                    if k % (cut or len(ep)) == 0:
                        pieces.append((st, []))
                    pieces[-1][1].append(len(rows) + k)
                    (_, v), st = fwd(net, view(s_), st, rec)
                    vs.append(float(v))
                    nvs.append(float(fwd(net, view(s2), st, rec)[0][1]))
            td = [r + (0.0 if d else gamma * nv) - v for (_, _, r, _, d), v, nv in zip(ep, vs, nvs)]
            g = [sum((gamma * lambd) ** (y - x) * td[y] for y in range(x, len(ep))) for x in range(len(ep))]
            advs += g
            rows += ep
            vt += [x + y for x, y in zip(g, vs)]

        def model(net):
            """log probabilities, entropies and values of all rows"""
            out = [None] * N
            for st, ixs in pieces:
                for x in ixs:
                    (d, v), st = fwd(net, view(rows[x][0]), st, rec)
                    out[x] = d.log_prob(acts[x:x + 1])[0], d.entropy()[0], v[0, 0]
            return [torch.stack(c) for c in zip(*out)]

        h.eq(len(rows), N, "harness")
        A = torch.as_tensor(advs)
        if std:
            A = (A - A.mean()) / (A.std(unbiased=False) + 1e-8)
        acts = torch.as_tensor([int(r[1]) for r in rows])
        vt = torch.as_tensor(vt)
        with torch.no_grad():
            lp0, _, v0 = model(net)
        for _ in range(epochs):
            lp, ent, v = model(net)
            ratio = torch.exp(lp - lp0)
            pol = torch.min(ratio * A, ratio.clamp(1 - clip, 1 + clip) * A)
            err = (v - vt) ** 2
            if clipvf is not None:
                err = torch.max(err, (torch.max(torch.min(v, v0 + clipvf), v0 - clipvf) - vt) ** 2)
            loss = -pol.mean() + vc * err.mean() - ce * ent.mean()
            with torch.no_grad():
                for q, w in zip(net.parameters(), ref_step(net, loss, lr)):
                    q.copy_(w)
        ag.batch_observe(*last)
        if norm is not None:
            h.eq(norm.updates, 0, "PPO: normaliser updated while predicting")
            h.eq(norm.experienced, 1, "PPO: normaliser fed once per update")
        if std and float(torch.as_tensor(advs).std(unbiased=False)) < 1e-2:
            continue
        for q, w in zip(m.parameters(), net.parameters()):
            h.close(q.detach().numpy(), w.detach().numpy(), "PPO: parameters after whole-batch updates", 2e-3)


def part_trpo(h):
    from pfrl.agents import TRPO

    for it in range(h.n(15)):
        n_envs, steps = h.rng.choice([1, 2]), h.rng.choice([3, 5])
        gamma, lambd = h.rng.choice([0.5, 0.9]), h.rng.choice([0.0, 0.5, 0.95])
        N = n_envs * steps
        pol, vf = CatPolicy(mlp(h, OBS, 3)), mlp(h, OBS, 1)
        ag = TRPO(pol, vf, sgd(vf, LR), gamma=gamma, lambd=lambd, update_interval=N, vf_batch_size=N, vf_epochs=1)
        h.case(("trpo", it, n_envs, steps, gamma, lambd))
        torch.manual_seed(it)
        eps, last = drive(h, ag, n_envs, steps)
        net = clone(vf)
        V = lambda s: net(torch.as_tensor(s)[None])[0, 0]  # noqa
        loss = 0.0
        for ep in eps:
            for a, s in zip(gae(ep, V, gamma, lambd), ep):
                with torch.no_grad():
                    tgt = a + float(V(s[0]))
                loss = loss + (V(s[0]) - tgt) ** 2
        want = ref_step(net, loss / N, LR)
        ag.batch_observe(*last)
        check_step(h, vf, want, "TRPO: value function after one whole-batch update")


def part_a2c(h):
    from pfrl.agents import A2C

    for it in range(h.n(60)):
        n_envs, steps = h.rng.choice([1, 2, 3]), h.rng.choice([1, 2, 5])
        gamma, tau, use = h.rng.choice([0.5, 0.9, 1.0]), h.rng.choice([0.0, 0.5, 0.95, 1.0]), h.rng.random() < 0.5
        ce, vc, pc = h.rng.choice([0.0, 0.1]), h.rng.choice([0.5, 1.0]), h.rng.choice([1.0, 0.3])
        m = ActorCritic(mlp(h, OBS, 3), mlp(h, OBS, 1))
        ag = A2C(m, sgd(m, LR), gamma=gamma, num_processes=n_envs, update_steps=steps, use_gae=use, tau=tau,
                 entropy_coeff=ce, v_loss_coef=vc, pi_loss_coef=pc)
        torch.manual_seed(it)
        cur = [obs(h) for _ in range(n_envs)]
        for rnd in range(3):
            h.case(("a2c", it, rnd, n_envs, steps, gamma, tau, use))
            net = clone(m)
            rows = [[] for _ in range(n_envs)]
            for k in range(steps):
                acts = ag.batch_act(list(cur))
                nxt, rs = [obs(h) for _ in range(n_envs)], [reward(h) for _ in range(n_envs)]
                dones = [h.rng.random() < 0.3 for _ in range(n_envs)]
                resets = [h.rng.random() < 0.15 for _ in range(n_envs)]
                ends = [d or r for d, r in zip(dones, resets)]  # documented: a reset counts as done
                for i in range(n_envs):
                    rows[i].append((cur[i], acts[i], rs[i], nxt[i], ends[i]))
                cur_n = [obs(h) if d else n for n, d in zip(nxt, ends)]
                if k == steps - 1:
                    break
                ag.batch_observe(nxt, rs, dones, resets)
                cur = cur_n
                # the value of the next state is masked when done, so that the
                # observation the agent sees next is irrelevant
            V = lambda s: net.v(torch.as_tensor(s)[None])[0, 0]  # noqa
            loss, n, ent = 0.0, n_envs * steps, 0.0
            for i in range(n_envs):
                with torch.no_grad():
                    vs = [float(V(r[0])) for r in rows[i]]
                    # value of the following state as the agent evaluates it
                    nv = [0.0 if r[4] else float(V(r[3])) for r in rows[i]]
                for j in range(steps):
                    if use:
                        g, c = 0.0, 1.0
                        for l in range(j, steps):
                            g += c * (rows[i][l][2] + gamma * nv[l] - vs[l])
                            c *= gamma * tau * (0.0 if rows[i][l][4] else 1.0)
                        R = g + vs[j]
                    else:
                        R, c = 0.0, 1.0
                        for l in range(j, steps):
                            R += c * rows[i][l][2]
                            c *= gamma * (0.0 if rows[i][l][4] else 1.0)
                        R += c * nv[-1]
                    d, v = net(torch.as_tensor(rows[i][j][0])[None])
                    adv = R - v[0, 0]
                    loss = loss + vc * adv ** 2 / n - pc * adv.detach() * d.log_prob(torch.as_tensor([int(rows[i][j][1])]))[0] / n
                    loss = loss - ce * d.entropy()[0] / n
            want = ref_step(net, loss, LR)
            ag.batch_observe(nxt, rs, dones, resets)
            cur = cur_n
            check_step(h, m, want, "A2C: parameters after one update")


def part_a3c(h):
    from pfrl.agents import A3C

    for it in range(h.n(40)):
        tmax = h.rng.choice([1, 2, 5])
        gamma, beta, vc, pc = h.rng.choice([0.5, 0.9, 1.0]), h.rng.choice([0.0, 0.1]), h.rng.choice([0.5, 1.0]), h.rng.choice([1.0, 0.5])
        keep, norm = h.rng.random() < 0.3, h.rng.random() < 0.3
        rec = h.rng.random() < 0.4
        clip = h.rng.choice([None, None, 0.3, 3.0])
        m = rec_net(h, True) if rec else ActorCritic(mlp(h, OBS, 3), mlp(h, OBS, 1))
        m.share_memory()
        opt = torch.optim.SGD(m.parameters(), lr=LR)
        ag = A3C(m, opt, t_max=tmax, gamma=gamma, beta=beta, pi_loss_coef=pc, v_loss_coef=vc,
                 keep_loss_scale_same=keep, normalize_grad_by_t_max=norm, recurrent=rec, max_grad_norm=clip)
        torch.manual_seed(it)
        cur, rows = obs(h), []
        start = state = None     # recurrent state before the first row, and now
        for k in range(12):
            a = ag.act(cur)
            with torch.no_grad():
                state = fwd(ag.model, cur, state, rec)[1]
            nxt, r = obs(h), reward(h)
            done = h.rng.random() < 0.25
            reset = (not done) and h.rng.random() < 0.1
            rows.append((cur, a, r))
            upd = len(rows) == tmax or done or reset
            h.case(("a3c", it, k, tmax, gamma, beta, keep, norm, done, reset, rec, clip))
            if upd:
                net = clone(ag.model)
                with torch.no_grad():
                    R0 = 0.0 if done else float(fwd(net, nxt, state, rec)[0][1])
                n = len(rows)
                pi, vl = 0.0, 0.0
                st = start
                for j in range(n):
                    R = sum(gamma ** (l - j) * rows[l][2] for l in range(j, n)) + gamma ** (n - j) * R0
                    (d, v), st = fwd(net, rows[j][0], st, rec)
                    adv = R - float(v)
                    pi = pi - adv * d.log_prob(torch.as_tensor([int(rows[j][1])]))[0] - beta * d.entropy()[0]
                    vl = vl + (v[0, 0] - R) ** 2 / 2
                fac = (tmax / n if keep and n < tmax else 1.0) / (n if norm else 1)
                want = ref_step(net, fac * (pc * pi + vc * vl), LR, clip=clip)
            else:
                want = [q.detach().clone() for q in m.parameters()]
            ag.observe(nxt, r, done, reset)
            check_step(h, m, want, "A3C: shared parameters after the step")
            check_step(h, ag.model, want, "A3C: local parameters after the step")
            if done or reset:
                state = None
            if upd:
                rows, start = [], state
            cur = obs(h) if done or reset else nxt


def part_reinforce(h):
    from pfrl.agents import REINFORCE

    for it in range(h.n(60)):
        bs, sep = h.rng.choice([1, 2, 3]), h.rng.random() < 0.5
        beta = h.rng.choice([0.0, 0.1])
        rec = h.rng.random() < 0.4
        clip = h.rng.choice([None, None, 0.3, 3.0])
        m = rec_net(h, False) if rec else CatPolicy(mlp(h, OBS, 3))
        ag = REINFORCE(m, sgd(m, LR), beta=beta, batchsize=bs, backward_separately=sep, recurrent=rec, max_grad_norm=clip)
        torch.manual_seed(it)
        eps, ep = [], []
        cur, net = obs(h), clone(m)
        for k in range(20):
            a = ag.act(cur)
            nxt, r = obs(h), reward(h)
            done = h.rng.random() < 0.3
            reset = (not done) and h.rng.random() < 0.08
            ep.append((cur, a, r))
            h.case(("reinforce", it, k, bs, sep, beta, done, reset))
            if done:
                eps.append(ep)
            if done or reset:
                ep = []
            if len(eps) == bs:
                loss = 0.0
                for e in eps:
                    st = None
                    for j, (s, act, _) in enumerate(e):
                        R = sum(x[2] for x in e[j:])
                        d, st = fwd(net, s, st, rec)
                        loss = loss - R * d.log_prob(torch.as_tensor([int(act)]))[0] - beta * d.entropy()[0]
                want = ref_step(net, loss / bs, LR, clip=clip)
                eps = []
            else:
                want = [q.detach().clone() for q in m.parameters()]
            ag.observe(nxt, r, done, reset)
            check_step(h, m, want, "REINFORCE: parameters after the step")
            net = clone(m)
            cur = obs(h) if done or reset else nxt


PARTS = [part_gae, part_ppo, part_trpo, part_a2c, part_a3c, part_reinforce]
