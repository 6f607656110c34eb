"""C22 replay: copies between real networks of random architecture."""
import copy

import numpy as np
import torch
from torch import nn


def rand_net(h):
    """a network with parameters and buffers of several types"""
    import pfrl

    layers = []
    d = h.rng.randint(1, 3)
    for _ in range(h.rng.randint(1, 4)):
        k = h.rng.choice(["linear", "nobias", "bn", "bn", "noisy", "norm", "lstm", "ln", "custom", "branched", "scalar"])
        n = h.rng.randint(1, 3)
        if k == "linear":
            layers.append(nn.Linear(d, n))
            d = n
        elif k == "nobias":
            layers.append(nn.Linear(d, n, bias=False))
            d = n
        elif k == "bn":
            layers.append(nn.BatchNorm1d(d, momentum=h.rng.choice([0.1, None])))
        elif k == "noisy":
            layers.append(pfrl.nn.FactorizedNoisyLinear(nn.Linear(d, n)))
            d = n
        elif k == "norm":
            layers.append(pfrl.nn.EmpiricalNormalization((d,)))
        elif k == "lstm":
            layers.append(nn.LSTM(d, n))
            d = n
        elif k == "ln":
            layers.append(nn.LayerNorm(d))
        elif k == "branched":
            layers.append(pfrl.nn.Branched(nn.Linear(d, n), nn.Linear(d, n)))
        elif k == "scalar":
            m = nn.Module()
            m.p = nn.Parameter(torch.tensor(0.5, dtype=h.rng.choice([torch.float32, torch.float64])))
            layers.append(m)
        else:
            m = nn.Module()
            m.register_buffer("flags", torch.zeros(3, dtype=torch.bool))
            m.register_buffer("count", torch.tensor(0, dtype=torch.int32))
            m.register_buffer("bytes_", torch.zeros(2, 2, dtype=torch.uint8))
            m.register_buffer("halfs", torch.zeros(2, dtype=h.rng.choice([torch.float16, torch.bfloat16, torch.float64])))
            layers.append(m)
    return nn.Sequential(*layers)


def fill(h, net):
    g = np.random.RandomState(h.rng.randrange(10 ** 6))
    with torch.no_grad():
        for v in list(net.parameters()) + list(net.buffers()):
            if v.dtype.is_floating_point:
                v.copy_(torch.as_tensor(np.asarray(g.normal(size=tuple(v.shape)))).to(v.dtype))
            elif v.dtype == torch.bool:
                v.copy_(torch.as_tensor(np.asarray(g.randint(0, 2, size=tuple(v.shape)) == 1)))
            else:
                v.copy_(torch.as_tensor(np.asarray(g.randint(0, 100, size=tuple(v.shape)))).to(v.dtype))


def snap(net):
    return {k: v.detach().clone() for k, v in net.state_dict().items()}


def expect(h, t0, s0, got, method, tau, **ctx):
    h.eq(set(got), set(t0), "same entries", **ctx)
    for k, v in got.items():
        if method == "soft" and v.dtype.is_floating_point:
            want = (1 - tau) * t0[k].double() + tau * s0[k].double()
            tol = {torch.float16: 5e-3, torch.bfloat16: 5e-2}.get(v.dtype, 1e-5)
            if not torch.allclose(v.double(), want, rtol=tol, atol=tol):
                h.check(False, "soft copy: weighted average of target and source", entry=k, dtype=str(v.dtype), tau=tau,
                        observed=v.tolist(), expected=want.tolist(), **ctx)
        else:
            if not torch.equal(v, s0[k]):
                h.check(False, "copied entry equals the source", entry=k, dtype=str(v.dtype), method=method,
                        observed=v.tolist(), expected=s0[k].tolist(), **ctx)
        h.eq(v.dtype, t0[k].dtype, "type kept", entry=k, **ctx)


def part_copy(h):
    from pfrl.utils import copy_param as C

    for it in range(h.n(250)):
        torch.manual_seed(it)
        src = rand_net(h)
        dst = copy.deepcopy(src)
        fill(h, src), fill(h, dst)
        s0, t0 = snap(src), snap(dst)
        ids = {k: v.data_ptr() for k, v in dst.state_dict().items()}
        method = h.rng.choice(["hard", "soft", "soft"])
        tau = h.rng.choice([0.0, 1.0, 0.5, h.rng.random(), 1e-2])
        api = h.rng.choice(["sync", "direct"])
        h.case(("copy", it, method, tau, api, [type(m).__name__ for m in src]))
        ctx = dict(layers=[type(m).__name__ for m in src], api=api)
        if h.rng.random() < 0.3:
            dst.eval()
        modes = [m.training for m in dst.modules()]
        if api == "sync":
            C.synchronize_parameters(src=src, dst=dst, method=method, tau=tau)
        elif method == "hard":
            C.copy_param(target_link=dst, source_link=src)
        else:
            C.soft_copy_param(target_link=dst, source_link=src, tau=tau)
        expect(h, t0, s0, snap(dst), method, tau, **ctx)
        for k, v in snap(src).items():
            h.check(torch.equal(v, s0[k]), "source unchanged", entry=k, **ctx)
        h.check({k: v.data_ptr() for k, v in dst.state_dict().items()} == ids, "target tensors updated in place", **ctx)
        h.eq([m.training for m in dst.modules()], modes, "mode of the target kept", **ctx)
        # no aliasing: changing the source later leaves the target alone
        t1 = snap(dst)
        fill(h, src)
        for k, v in snap(dst).items():
            h.check(torch.equal(v, t1[k]), "target independent of later changes of the source", entry=k, **ctx)


def part_grad(h):
    from pfrl.utils import copy_param as C

    for it in range(h.n(120)):
        torch.manual_seed(it)
        src = rand_net(h)
        dst = copy.deepcopy(src)
        for net in (src, dst):
            for q in net.parameters():
                q.grad = None if h.rng.random() < 0.3 else torch.randn(q.shape).to(q.dtype)
        g0 = [None if q.grad is None else q.grad.clone() for q in src.parameters()]
        s0, t0 = snap(src), snap(dst)
        h.case(("grad", it))
        C.copy_grad(target_link=dst, source_link=src)
        for q, g, r in zip(dst.parameters(), g0, src.parameters()):
            h.check((q.grad is None) == (g is None), "gradient present iff the source's is")
            if g is not None:
                h.check(torch.equal(q.grad, g), "gradient copied")
                h.check(torch.equal(r.grad, g), "source gradient unchanged")
                q.grad.mul_(2)
                h.check(torch.equal(r.grad, g), "gradients not aliased")
        h.check(all(torch.equal(v, s0[k]) for k, v in snap(src).items()) and all(torch.equal(v, t0[k]) for k, v in snap(dst).items()), "parameters unchanged")


def part_agents(h):
    """sync_target_network of real agents"""
    import pfrl
    from agents_util import DiscreteQ, PairQ, Policy

    def bn(i, o):
        return nn.Sequential(nn.Linear(i, 3), nn.BatchNorm1d(3), nn.Linear(3, o))

    for it in range(h.n(12)):
        torch.manual_seed(it)
        tau = h.rng.choice([0.3, 0.05, 1.0])
        method = h.rng.choice(["hard", "soft"])
        buf = pfrl.replay_buffers.ReplayBuffer(10)
        for kind in ("dqn", "ddpg", "td3", "sac"):
            h.case(("agent", kind, method, tau))
            sgd = lambda m: torch.optim.SGD(m.parameters(), lr=0.1)
            if kind == "dqn":
                q = DiscreteQ(bn(3, 2))
                a = pfrl.agents.DQN(q, sgd(q), buf, 0.9, pfrl.explorers.Greedy(), replay_start_size=5, minibatch_size=2,
                                    target_update_method=method, soft_update_tau=tau)
                pairs, m = [("model", "target_model")], method
            elif kind == "ddpg":
                pi, q = Policy(bn(3, 2)), PairQ(bn(5, 1))
                a = pfrl.agents.DDPG(pi, q, sgd(pi), sgd(q), buf, 0.9, pfrl.explorers.Greedy(), replay_start_size=5, minibatch_size=2,
                                     target_update_method=method, soft_update_tau=tau)
                pairs, m = [("model", "target_model")], method
            else:
                pi, q1, q2 = Policy(bn(3, 2)), PairQ(bn(5, 1)), PairQ(bn(5, 1))
                if kind == "td3":
                    a = pfrl.agents.TD3(pi, q1, q2, sgd(pi), sgd(q1), sgd(q2), buf, 0.9, pfrl.explorers.Greedy(), replay_start_size=5,
                                        minibatch_size=2, soft_update_tau=tau)
                    pairs = [("policy", "target_policy"), ("q_func1", "target_q_func1"), ("q_func2", "target_q_func2")]
                else:
                    a = pfrl.agents.SoftActorCritic(pi, q1, q2, sgd(pi), sgd(q1), sgd(q2), buf, 0.9, replay_start_size=5,
                                                    minibatch_size=2, soft_update_tau=tau)
                    pairs = [("q_func1", "target_q_func1"), ("q_func2", "target_q_func2")]
                m = "soft"
            # a fresh agent's targets are copies
            for s, t in pairs:
                s0 = snap(getattr(a, s))
                h.check(all(torch.allclose(v.double(), s0[k].double(), rtol=1e-5, atol=1e-6) for k, v in snap(getattr(a, t)).items()), "initial target equals the source", agent=kind, net=t)
            before = {}
            for s, t in pairs:
                fill(h, getattr(a, s)), fill(h, getattr(a, t))
                before[t] = (snap(getattr(a, s)), snap(getattr(a, t)))
            a.sync_target_network()
            for s, t in pairs:
                s0, t0 = before[t]
                expect(h, t0, s0, snap(getattr(a, t)), m, tau, agent=kind, net=t)
                h.check(all(torch.equal(v, s0[k]) for k, v in snap(getattr(a, s)).items()), "source unchanged", agent=kind, net=s)


PARTS = [part_copy, part_grad, part_agents]
