"""C18: returns and advantages of the on-policy agents."""
import z3

from pydv import seqs
from pydv.interp import exc
from pydv.tensor import T, fresh_t, zexp, zmax, zmin, zsquare
from pydv.unit import Unit
from pydv.values import Builtin, Model, Obj, Opaque, P, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num, real
from . import a2c, nets, onpolicy, reinforce
from .c16 import AgentUnit, check_loss, summ
from .nets import Optim
from .rows import I, R, Rows, RowNet, StateBatch, Suffix, SuffixFamily, SuffixUnit, batch_states

TRUSTED = [
    "torch operators compute the stated real-valued functions",
    "networks act on every row of a batch independently (uninterpreted functions of the observation)",
    "itertools.chain.from_iterable concatenates; numpy.cumsum gives prefix sums",
]
ASSUMPTIONS = ["real arithmetic", "nonterminal flags are 0 or 1"]
BOUNDED = [
    "the recurrent updates of PPO and TRPO and the act/observe path of A3C are exercised by the replay harness only",
]

PPO = "pfrl.agents.ppo"


def td_cols():
    return dict(reward=R, nonterminal=R, next_v_pred=R, v_pred=R)


def gae_of(p, rows, gamma, lambd, n):
    c = rows.col

    def step(i, nxt):
        boot = z3.If(real(c("nonterminal", i)) == 1, gamma * c("next_v_pred", i), z3.RealVal(0))
        return c("reward", i) + boot - c("v_pred", i) + gamma * lambd * nxt

    return Suffix(p, "GAE", 0, n, z3.RealVal(0), step)


def u_gae(ip, p):
    n = p.int("T")
    p.assume(n >= 0)
    rows = Rows("ep", n, td_cols())
    p.forall(n, lambda i: z3.Or(rows.f["nonterminal"](i) == 0, rows.f["nonterminal"](i) == 1))
    gamma, lambd = p.real("gamma"), p.real("lambda")
    before = dict(rows.f)
    g = gae_of(p, rows, gamma, lambd, n)
    p.ghost["suffix"] = g
    p.ghost["columns"] = dict(
        adv=(rows, "adv", lambda i: fold(rows.col("adv", i) == g(i))),
        v_teacher=(rows, "v_teacher", lambda i: fold(rows.col("v_teacher", i) == g(i) + rows.col("v_pred", i))))
    ip.call(ip.get_func(PPO, "_add_advantage_and_value_target_to_episode"), [rows.list(), gamma, lambd])
    if p.decide(n == 0):
        return
    p.prove("adv" in rows.f and "v_teacher" in rows.f, "advantage-and-target-added")
    p.prove_forall(n, lambda i: fold(rows.col("adv", i) == g(i)), "advantage-recurrence")
    p.prove_forall(n, lambda i: fold(rows.col("v_teacher", i) == g(i) + rows.col("v_pred", i)),
                   "value-target-is-advantage-plus-value")
    for k in before:
        p.prove_forall(n, lambda i: fold(rows.col(k, i) == before[k](i)), "other-fields-kept")


def two_episodes(p, cols):
    """two episodes of arbitrary lengths"""
    out = []
    for k in range(2):
        n = p.int("T%d" % k)
        p.assume(n >= 1)
        out.append(Rows("ep%d" % k, n, cols))
    return out


def u_gae_all(ip, p):
    a, b = two_episodes(p, td_cols())
    la, lb = a.list("ep0"), b.list("ep1")
    gamma, lambd = p.real("gamma"), p.real("lambda")
    calls = []

    def callee(ip, f, args, kw):
        pos = ("episode", "gamma", "lambd")
        d = dict(zip(pos, args), **kw)
        calls.append(d)

    ip.contracts[PPO + "._add_advantage_and_value_target_to_episode"] = callee
    ip.call(ip.get_func(PPO, "_add_advantage_and_value_target_to_episodes"), [PyList([la, lb], "episodes"), gamma, lambd])
    p.prove(len(calls) == 2 and {id(c["episode"]) for c in calls} == {id(la), id(lb)}, "every-episode-processed-once")
    for c in calls:
        p.prove(fold(real(c["gamma"]) == gamma), "gamma-passed")
        p.prove(fold(real(c["lambd"]) == lambd), "lambda-passed")


class Episodes(Model):
    """any number of episodes; `rows` is their concatenation"""

    def __init__(self, rows):
        self.rows = rows

    def length(self, ip):
        return P().int("n_episodes")


def chain_from_iterable(ip, x):
    if isinstance(x, Episodes):
        return x.rows.list("dataset")
    from pydv import ext_default

    return ext_default._chain(ip, *ip.collect(ip.iterate(x)))


def u_values(normalised):
    def run(ip, p):
        n = p.int("N")
        p.assume(n >= 1)
        e = Rows("dataset", n, dict(state=Obj, next_state=Obj, action=R, reward=R, nonterminal=R))
        net = RowNet("model")
        phi = Opaque("phi")
        tr0 = net.f["training"]
        norm = None
        view = lambda o: o  # noqa
        if normalised:
            view = p.fn("normalised", Obj, Obj)

            def nrm(ip, x, update=True):
                p.prove(update is False, "normaliser-not-updated")
                return StateBatch(x.n, lambda i: view(x.at(i)))

            norm = Builtin("obs_normalizer", nrm)
        fin = dict(
            v_pred=lambda i: fold(e.col("v_pred", i) == net.V(view(e.col("state", i)))),
            next_v_pred=lambda i: fold(e.col("next_v_pred", i) == net.V(view(e.col("next_state", i)))),
            log_prob=lambda i: fold(e.col("log_prob", i) == net.logp(view(e.col("state", i)), e.col("action", i))))
        p.ghost["columns"] = {k: (e, k, f) for k, f in fin.items()}
        ip.call(ip.get_func(PPO, "_add_log_prob_and_value_to_episodes"), [], dict(
            episodes=Episodes(e), model=net, phi=phi,
            batch_states=batch_states(phi), obs_normalizer=norm, device=Opaque("device")))
        p.prove(all(ng for _, ng, _ in net.calls), "no-gradient-while-predicting")
        p.prove(all(t is False for _, _, t in net.calls), "evaluation-mode-while-predicting")
        p.prove_eq(net.f["training"], tr0, "mode-restored")
        p.prove(all(k in e.f for k in fin), "fields-added")
        p.prove_forall(n, fin["v_pred"], "value-of-the-state")
        p.prove_forall(n, fin["next_v_pred"], "value-of-the-next-state")
        p.prove_forall(n, fin["log_prob"], "log-probability-of-the-action-taken")

    return run


class ForwardUnit(Unit):
    """columns filled front to back"""

    bmc_bound = 2

    def loop_qpreds(self, ctx, k):
        return {"col-" + key: (num(k), fn, 0)
                for key, (rows, col, fn) in P().ghost.get("columns", {}).items() if (rows.uid, col) in ctx.init}


# ------------------------------------------------------------------ PPO loss
def ppo_agent(ip, p, net, **kw):
    ip.contracts.update(nets.stubs())
    ip.contracts[PPO + "._yield_minibatches"] = lambda ip, f, a, k: Unsupported("minibatches")
    return ip.call(ip.get_func(PPO, "PPO"), [net, Optim(net)], kw)


def ppo_loss(p, n, clip, clip_vf, vc, ec, ent, v, lp, v_old, lp_old, adv, vt):
    def pol(i):
        r = zexp(fold(real(lp(i)) - real(lp_old(i))))
        c = zmin(zmax(r, fold(1 - clip)), fold(1 + clip))
        return zmin(fold(r * real(adv(i))), fold(c * real(adv(i))))

    def val(i):
        e = zsquare(fold(real(v(i)) - real(vt(i))))
        if clip_vf is None:
            return e
        cv = zmin(zmax(real(v(i)), fold(real(v_old(i)) - clip_vf)), fold(real(v_old(i)) + clip_vf))
        return zmax(e, zsquare(fold(cv - real(vt(i)))))

    mean = lambda f: fold(summ(p, n, f) / real(n))  # noqa
    return fold(-mean(pol) + vc * mean(val) - ec * mean(lambda i: real(ent(i))))


def u_ppo_loss(vf):
    def run(ip, p):
        n = p.int("B")
        p.assume(n >= 1)
        if p.unit.mode == "bmc":
            n = p.expand(n)
        clip, vc, ec = p.real("clip_eps"), p.real("value_func_coef"), p.real("entropy_coef")
        cvf = p.real("clip_eps_vf") if vf else None
        p.assume(clip >= 0)
        if vf:
            p.assume(cvf >= 0)
        net = RowNet("model")
        ag = ppo_agent(ip, p, net, clip_eps=clip, clip_eps_vf=cvf, value_func_coef=vc, entropy_coef=ec)
        t = {k: fresh_t(p, k, (n,), deps=("model",) if k in ("entropy", "log_probs") else ())
             for k in ("entropy", "log_probs", "log_probs_old", "advs")}
        m = {k: fresh_t(p, k, (n, 1), deps=("model",) if k == "vs_pred" else ())
             for k in ("vs_pred", "vs_pred_old", "vs_teacher")}
        loss = ip.call(ip.getattr(ag, "_lossfun"), [], dict(t, **m))
        col = lambda k: (lambda i: m[k].at(i, 0))  # noqa
        want = ppo_loss(p, n, clip, cvf, vc, ec, t["entropy"].at, col("vs_pred"), t["log_probs"].at,
                        col("vs_pred_old"), t["log_probs_old"].at, t["advs"].at, col("vs_teacher"))
        check_loss(p, loss.scalar(), want, "clipped-surrogate-value-and-entropy-loss")

    return run


# ------------------------------------------------------------------ A2C returns
def u_a2c(gae):
    def run(ip, p):
        S, N = p.int("update_steps"), p.int("num_processes")
        p.assume(z3.And(S >= 1, N >= 1))
        if p.unit.mode == "bmc":
            S, N = p.expand(S), p.expand(N)
        gamma, tau = p.real("gamma"), p.real("tau")
        net = RowNet("model")
        ip.contracts.update(nets.stubs())
        ag = ip.call(ip.get_func("pfrl.agents.a2c", "A2C"), [net, Optim(net), gamma, N],
                     dict(update_steps=S, use_gae=gae, tau=tau))
        r, m = fresh_t(p, "reward", (S, N)), fresh_t(p, "mask", (S, N))
        v, ret = fresh_t(p, "value_pred", (num(S) + 1, N)), fresh_t(p, "returns", (num(S) + 1, N))
        for k, t in (("rewards", r), ("masks", m), ("value_preds", v), ("returns", ret)):
            ag.set(k, t)
        nv = fresh_t(p, "next_value", (N,))
        j = p.int("process")
        p.assume(z3.And(j >= 0, j < num(N)))
        if p.unit.mode == "bmc":
            j = p.expand(j)
        r0, m0, v0 = r.snap(), m.snap(), v.snap()
        if gae:
            val = lambda i, j: fold(z3.If(num(i) == num(S), real(nv.at(j)), real(v0(i, j))))  # noqa
            boot = lambda i, j: z3.If(num(i) + 1 == num(S), gamma * real(m0(i, j)) * real(nv.at(j)),  # noqa
                                      gamma * real(m0(i, j)) * real(v0(seqs.add(i, 1), j)))
            step = lambda i, j, g: fold(real(r0(i, j)) + boot(i, j)  # noqa
                                        - val(i, j) + gamma * tau * real(m0(i, j)) * g)
            g = SuffixFamily(p, "A", 0, S, lambda j: z3.RealVal(0), step)
            want = lambda i: fold(g(i, j) + val(i, j))  # noqa
        else:
            g = SuffixFamily(p, "R", 0, S, lambda j: real(nv.at(j)),
                             lambda i, j, x: fold(real(r0(i, j)) + gamma * real(m0(i, j)) * x))
            want = lambda i: g(i, j)  # noqa
        p.ghost["a2c"] = (S, N, g, ret, lambda i: fold(real(ret.at(i, j)) == want(i)),
                          None if gae else lambda i: fold(real(ret.at(S, j)) == real(nv.at(j))))
        ip.call(ip.getattr(ag, "_compute_returns"), [nv])
        cur = ag.f["returns"]
        p.prove(isinstance(cur, T), "returns-stored")
        p.prove_forall(S, lambda i: fold(real(cur.at(i, j)) == want(i)), "return-recurrence-of-every-process")
        p.prove_forall(S, lambda i: fold(real(ag.f["rewards"].at(i, j)) == real(r0(i, j))), "rewards-kept")
        p.prove_forall(S, lambda i: fold(real(ag.f["value_preds"].at(i, j)) == real(v0(i, j))), "values-kept")

    return run


class A3CUnit(SuffixUnit):
    bmc_bound = 2


class A2CUnit(Unit):
    bmc_bound = 2

    def peel(self, key, ip, fr):
        return 1

    def loop_anchors(self, ctx, k, loc):
        p = P()
        iv = ctx.init.get(loc)
        if "a2c" not in p.ghost or not isinstance(iv, T) or len(iv.shape) != 1:
            return {}
        S, N, g = p.ghost["a2c"][:3]
        return {"G": lambda: T((N,), lambda j: g(fold(num(S) - num(k)), j), deps=iv.deps)}

    def loop_qpreds(self, ctx, k):
        p = P()
        if "a2c" not in p.ghost:
            return {}
        S, N, g, ret, fact, last = p.ghost["a2c"]
        if (ret.uid, "at") not in ctx.init:
            return {}
        out = {"returns": (S, fact, fold(num(S) - num(k)))}
        if last is not None:
            out["last"] = (1, last, 0)
        return out


# ------------------------------------------------------------------ A3C
class StepMap(Model):
    """dict keyed by the time steps lo <= t < hi"""

    def __init__(self, p, name, lo, hi, sort, wrap=None):
        self.lo, self.hi, self.fn, self.wrap = lo, hi, p.fn(name, I, sort), wrap or (lambda x: x)

    def getitem(self, ip, i):
        if not P().decide(fold(z3.And(num(i) >= num(self.lo), num(i) < num(self.hi)))):
            raise exc("KeyError", i)
        return self.wrap(self.fn(num(i)))

    def m_get(self, ip, i, d=None):
        return self.getitem(ip, i)


class LogNet(RowNet):
    def deepcopy(self, ip):
        n = LogNet(self.name + "'", self.head, self.f["training"], src=self)
        return n

    def m_zero_grad(self, ip, *a, **k):
        P().ghost.setdefault("ev", []).append(("zero", self.uid, len(P().ghost.setdefault("backward", []))))


class LogOptim(Optim):
    def m_zero_grad(self, ip, *a, **k):
        P().ghost.setdefault("ev", []).append(("zero", self.net.uid, len(P().ghost.setdefault("backward", []))))

    def m_step(self, ip, *a, **k):
        P().ghost.setdefault("ev", []).append(("step", self.net.uid, None))


def u_a3c(boot, scale):
    def run(ip, p):
        t0, t1, tmax = p.int("t_start"), p.int("t"), p.int("t_max")
        p.assume(z3.And(t0 >= 0, t1 > t0, tmax >= t1 - t0))
        if p.unit.mode == "bmc":
            t0, t1 = p.expand(t0), p.expand(t1)
        n = fold(num(t1) - num(t0))
        n = n if is_term(n) else int(n)
        if is_term(n) and z3.is_int_value(n):
            n = n.as_long()
        gamma, beta, pc, vc = p.real("gamma"), p.real("beta"), p.real("pi_loss_coef"), p.real("v_loss_coef")
        shared = LogNet("shared")
        phi = Opaque("phi")

        def copy(kind):
            def f(ip, fn, args, kw):
                d = dict(zip(("target_link", "source_link"), args), **kw)
                p.ghost.setdefault("ev", []).append((kind, d["target_link"].uid, (
                    d["source_link"].uid, len(p.ghost.setdefault("backward", [])))))
            return f

        ip.contracts.update(nets.stubs())
        ip.contracts["pfrl.utils.copy_param.copy_grad"] = copy("copy_grad")
        ip.contracts["pfrl.utils.copy_param.copy_param"] = copy("copy_param")
        ip.contracts["pfrl.agents.a3c.A3C.assert_shared_memory"] = lambda ip, f, a, k: None
        ag = ip.call(ip.get_func("pfrl.agents.a3c", "A3C"), [shared, LogOptim(shared), tmax, gamma], dict(
            beta=beta, phi=phi, pi_loss_coef=pc, v_loss_coef=vc, batch_states=batch_states(phi),
            normalize_grad_by_t_max=scale == "normalize", keep_loss_scale_same=scale == "keep"))
        local = ag.f["model"]
        p.prove(local is not shared, "thread-local-model")
        ag.set("process_idx", 1)
        ag.set("t", t1)
        ag.set("t_start", t0)
        obs, act = StepMap(p, "obs", t0, t1, Obj), StepMap(p, "act", t0, t1, R, lambda x: T((), lambda: x))
        rew = StepMap(p, "rew", t0, t1, R)
        for k, m in (("past_obs", obs), ("past_action", act), ("past_rewards", rew)):
            ag.set(k, m)
        last = p.obj("last_obs")
        G = Suffix(p, "R", t0, t1, local.V(last) if boot else z3.RealVal(0), lambda i, g: fold(rew.fn(num(i)) + gamma * g))
        p.ghost["suffix"] = G
        ip.call(ip.getattr(ag, "update"), [StateBatch(1, lambda i: last) if boot else None])
        bw = p.ghost.get("backward", [])
        p.prove(len(bw) == 1, "one-loss")
        if len(bw) != 1:
            return
        ev = p.ghost.get("ev", [])
        names = [e[0] for e in ev]
        p.prove(("zero", local.uid, 0) in ev, "local-gradients-cleared-before-backward")
        p.prove(("copy_grad", shared.uid, (local.uid, 1)) in ev, "gradients-copied-to-the-shared-model")
        p.prove(names.count("step") == 1 and "copy_grad" in names and names.index("copy_grad") < names.index("step"),
                "one-step-of-the-shared-model-after-copying")
        p.prove(ev[-1][:2] == ("copy_param", local.uid) and ev[-1][2][0] == shared.uid, "local-model-synchronised-last")
        p.prove(fold(num(ag.f["t_start"]) == num(t1)), "next-update-starts-here")
        p.prove(bw[0].deps == frozenset([local.uid]), "gradient-through-the-local-model")
        at = lambda f: (lambda i: f(seqs.add(t0, i)))  # noqa

        def pol(t):
            o, a = obs.fn(num(t)), act.fn(num(t))
            adv = fold(real(G(t)) - local.V(o))
            return fold(-adv * local.logp(o, a) - beta * local.ent(o))

        def val(t):
            return zsquare(fold(local.V(obs.fn(num(t))) - real(G(t))))

        k = {"plain": z3.RealVal(1), "normalize": 1 / real(n), "keep": real(tmax) / real(n)}[scale]
        want = fold(pc * k * summ(p, n, at(pol)) + vc * k * (summ(p, n, at(val)) / 2))
        check_loss(p, bw[0].scalar(), want, "loss-from-the-n-step-returns")

    return run


def units(tier):
    ext = nets.agent_ext()
    us = []
    us.append(SuffixUnit("GAE of an episode", u_gae, ext=dict(ext)))
    for nm in (False, True):
        us.append(ForwardUnit("values and log-probabilities" + ("[normalised]" if nm else ""), u_values(nm), ext=dict(ext, **{"itertools.chain.from_iterable": Builtin("chain.from_iterable", chain_from_iterable)})))
    us.append(Unit("GAE of every episode", u_gae_all, ext=dict(ext)))
    for vf in (False, True):
        us.append(AgentUnit("PPO loss" + ("[value clipping]" if vf else ""), u_ppo_loss(vf), ext=dict(ext)))
    for gae in (False, True):
        us.append(A2CUnit("A2C returns" + ("[GAE]" if gae else ""), u_a2c(gae), ext=dict(ext)))
    for boot in (False, True):
        for scale in ("plain", "normalize", "keep") if boot else ("plain", "normalize"):
            us.append(A3CUnit("A3C update[%s,%s]" % ("bootstrapped" if boot else "terminal", scale), u_a3c(boot, scale), ext=dict(ext)))
    us += reinforce.units(ext)
    us += onpolicy.units_c18(ext)
    us += a2c.units(ext)
    return us
