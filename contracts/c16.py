"""C16: value targets and losses of the value-based agents."""
import ast

import z3

from pydv import seqs
from pydv.tensor import T, as_t, elementwise, fresh_t, huber, zabs, zmin, zsquare
from pydv.unit import Unit
from pydv.values import (
    Builtin, Model, Opaque, P, PyDict, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num, real,
)
from . import nets
from .nets import Buffer, Net, Optim, Tok

R, I = z3.RealSort(), z3.IntSort()

TRUSTED = [
    "torch operators compute the stated real-valued functions; gradients flow exactly through the tensors' provenance "
    "(no_grad, detach, requires_grad_ as documented)",
    "networks are functions of their inputs and parameters (uninterpreted; train/eval mode not modelled in the value)",
    "batch_experiences / batch_recurrent_experiences by their contract (C08); pack_and_forward by contract (C20)",
    "distributions: sample, rsample, log_prob as uninterpreted functions",
]
ASSUMPTIONS = ["real arithmetic", "batch size, number of actions, atoms and quantiles >= 1"]


class W(Model):
    """transition dict of a sampled experience: only the importance weight is read"""

    def __init__(self, w, e, has):
        self.w, self.e, self.has = w, e, has

    def contains(self, ip, key):
        if key == "weight":
            return self.has
        return key in ("state", "action", "reward", "next_state", "next_action", "is_state_terminal")

    def getitem(self, ip, key):
        if key == "weight" and self.has:
            return self.w(num(self.e))
        raise Unsupported("raw transition field " + repr(key))


class Entry(Model):
    def __init__(self, w, e):
        self.w, self.e = w, e

    def getitem(self, ip, i):
        if not is_term(i) and i == 0:
            return W(self.w.w, self.e, self.w.weighted)
        raise Unsupported("raw transition")

    def length(self, ip):
        n = self.w.L(num(self.e))
        P().assume(n >= 1)
        return n


class World:
    def __init__(self, p, weighted=False, recurrent=False, action_dim=None):
        self.B = p.int("B")
        self.A = p.int("A")
        p.assume(z3.And(self.B >= 1, self.A >= 1))
        if p.unit.mode == "bmc":
            self.B, self.A = p.expand(self.B), p.expand(self.A)
        self.S, self.NS = Tok("S", self.B), Tok("NS", self.B)
        self.RS, self.NRS = Tok("RS"), Tok("NRS")
        self.r = fresh_t(p, "reward", (self.B,))
        self.disc = fresh_t(p, "discount", (self.B,))
        self.term = fresh_t(p, "terminal", (self.B,))
        self.recurrent = recurrent
        self.w = p.fn("weight", I, R)
        self.L = p.fn("episode_length", I, I)
        if action_dim is None:
            self.act = fresh_t(p, "action", (self.B,), I, lo=0, hi=self.A)
        else:
            self.act = fresh_t(p, "action", (self.B, action_dim))
        self.weighted = weighted
        p.forall(self.B, lambda i: z3.Or(self.term.f["at"](i) == 0, self.term.f["at"](i) == 1))
        self.gamma = p.real("gamma")
        self.exps = PyList(SymSeq(self.B, lambda e: Entry(self, e)), "experiences")

    def batch(self):
        d = dict(state=self.S, action=self.act, reward=self.r, next_state=self.NS,
                 is_state_terminal=self.term, discount=self.disc)
        if self.recurrent:
            d.update(recurrent_state=self.RS, next_recurrent_state=self.NRS)
        return PyDict(d, "exp_batch")

    def key(self, nxt):
        k = "NS" if nxt else "S"
        return k + ("|N" if nxt else "|") + "RS" if self.recurrent else k

    def target(self, boot):
        """reward plus discounted bootstrap when not terminal, the reward otherwise"""

        def at(b, *j):
            P().instantiate(b)
            t = real(self.term.at(b))
            if P().decide(t == 1):
                return real(self.r.at(b))
            return fold(real(self.r.at(b)) + real(self.disc.at(b)) * real(boot(b, *j)))

        return at


def stubs(w):
    def batch(ip, f, args, kw):
        p = P()
        exps = args[0] if args else kw["experiences"]
        ok = exps is w.exps or p.ghost.get("sorted") is exps
        if not ok and isinstance(exps, PyList):
            d = exps.f["data"]
            if isinstance(d, list) and not is_term(w.B) and all(isinstance(x, Entry) for x in d):
                ok = sorted(x.e for x in d) == list(range(w.B))
            elif isinstance(d, SymSeq):
                ok = p.all_cases(lambda: seqs.proves_equal(d, w.exps.f["data"]))
        p.prove(ok, "batch-made-from-the-given-experiences")
        g = args[3] if len(args) > 3 else kw.get("gamma")
        p.prove(fold(real(g) == w.gamma), "batch-made-with-gamma")
        return w.batch()

    def paf(ip, f, args, kw):
        m, x, rs = args
        return (m.m___call__(ip, x, rs), Opaque("recurrent_state"))

    c = nets.stubs()
    c["pfrl.replay_buffer.batch_experiences"] = batch
    c["pfrl.replay_buffer.batch_recurrent_experiences"] = batch
    c["pfrl.utils.recurrent.pack_and_forward"] = paf
    return c


class AgentUnit(Unit):
    bmc_bound = 2

    def sorted_sym(self, ip, it, key, reverse):
        p = P()
        r = PyList(it, "sorted")
        p.ghost["sorted"] = r
        return r


def run_update(ip, p, w, agent, recurrent=False):
    m = "update_from_episodes" if recurrent else "update"
    ip.call(ip.getattr(agent, m), [w.exps], {})


def make(ip, p, w, cls, net, **kw):
    ip.contracts.update(stubs(w))
    opt = Optim(net)
    buf = Buffer(prioritized=w.weighted, episodic=w.recurrent)
    agent = ip.call(cls, [net, opt, buf, w.gamma, Opaque("explorer")], dict(recurrent=w.recurrent, **kw))
    return agent, opt, buf


def one_step(p, opt, deps, name):
    st = opt.f["steps"]
    p.prove(len(st) == 1 and len(st[0]) == 1, name + ".one-gradient-step-on-one-loss")
    loss = st[0][0] if st and st[0] else None
    if loss is None:
        return None
    if len(loss.shape):
        p.fail(name + ".scalar-loss", "shape %r" % (loss.shape,))
        return None
    p.prove(loss.deps == frozenset(deps), name + ".gradient-through-the-prediction-only")
    return loss


def losses(p, ip, w, y, t, clip, acc):
    """expected loss term"""
    el = lambda b: (huber(fold(real(y(b)) - real(t(b)))) if clip
                    else fold(zsquare(fold(real(y(b)) - real(t(b)))) / 2))
    if w.weighted:
        s = p.sum_of(w.B, lambda b: fold(el(b) * w.w(num(b)))) if is_term(w.B) else sumc(w.B, lambda b: fold(el(b) * w.w(num(b))))
    else:
        s = p.sum_of(w.B, el) if is_term(w.B) else sumc(w.B, el)
    return fold(s / real(w.B)) if acc == "mean" else s


def sumc(n, at):
    r = z3.RealVal(0)
    for i in range(n):
        r = r + real(at(i))
    return fold(r)


def summ(p, n, at):
    return p.sum_of(n, at) if is_term(n) else sumc(n, at)


def check_loss(p, got, want, name):
    p.prove(fold(real(got) == real(want)), name)


def check_errors(ip, p, w, buf, err):
    if not w.weighted:
        return
    es = buf.f["errors"]
    p.prove(len(es) == 1, "errors-reported-once")
    if not es:
        return
    e = es[0]
    p.prove(fold(num(seqs.seq_len(e)) == num(w.B)), "one-error-per-sampled-entry")

    def val(i):
        x = seqs.seq_at(e, i)
        return x.to_float(ip) if isinstance(x, T) else x

    p.prove_forall(w.B, lambda i: fold(real(val(i)) == real(err(i))), "error-is-that-of-its-own-entry")


# ------------------------------------------------------------------ DQN family
def argmax(p, w, q):
    return lambda b: p.arg_of(w.A, lambda a: q(num(b), num(a)), True)


def boot_max(p, w, agent, model, target):
    q = target.fn(w.key(True), I, I, R)
    return lambda b: q(num(b), num(argmax(p, w, q)(b)))


def boot_double(p, w, agent, model, target):
    q, qt = model.fn(w.key(True), I, I, R), target.fn(w.key(True), I, I, R)
    return lambda b: qt(num(b), num(argmax(p, w, q)(b)))


def adv(p, w, q):
    return lambda b: fold(q(num(b), num(w.act.at(b))) - q(num(b), num(argmax(p, w, q)(b))))


def t_plain(boot):
    def f(p, w, ag, model, target, ip):
        return w.target(boot(p, w, ag, model, target))

    return f


def t_al(p, w, ag, model, target, ip):
    base = w.target(boot_max(p, w, ag, model, target))
    ca = adv(p, w, target.fn(w.key(False), I, I, R))
    return lambda b: fold(base(b) + w.alpha * ca(b))


def t_pal(boot):
    def f(p, w, ag, model, target, ip):
        base = w.target(boot(p, w, ag, model, target))
        ca = adv(p, w, target.fn(w.key(False), I, I, R))
        na = adv(p, w, target.fn(w.key(True), I, I, R))
        return lambda b: fold(base(b) + w.alpha * z3.If(ca(b) >= na(b), ca(b), na(b)))

    return f


def l_max(ip, p, w, q):
    return lambda b: q(num(b), num(argmax(p, w, q)(b)))


def _tens(p, w, q):
    return T((w.B, w.A), lambda b, a: q(num(b), num(a)))


def l_soft(ip, p, w, q):
    t = _tens(p, w, q)
    sc = elementwise(ip, lambda x: fold(w.eta * real(x)), [t])
    sm = ip.call(ip.ext["torch.nn.functional.softmax"], [sc], {"dim": 1})
    r = elementwise(ip, lambda x, y: fold(real(x) * real(y)), [sm, t]).m_sum(ip, 1)
    return lambda b: r.at(b)


def l_lse(ip, p, w, q):
    t = elementwise(ip, lambda x: fold(w.eta * real(x)), [_tens(p, w, q)])
    r = ip.call(ip.ext["torch.logsumexp"], [t], {"dim": 1})
    return lambda b: fold(real(r.at(b)) / w.eta)


def t_dpp(l):
    def f(p, w, ag, model, target, ip):
        qn, q = target.fn(w.key(True), I, I, R), target.fn(w.key(False), I, I, R)
        base = w.target(l(ip, p, w, qn))
        lq = l(ip, p, w, q)
        return lambda b: fold(q(num(b), num(w.act.at(b))) + base(b) - lq(b))

    return f


DQNS = {
    "DQN": ("pfrl.agents.dqn", t_plain(boot_max), {}),
    "DoubleDQN": ("pfrl.agents.double_dqn", t_plain(boot_double), {}),
    "AL": ("pfrl.agents.al", t_al, {"alpha": 1}),
    "PAL": ("pfrl.agents.pal", t_pal(boot_max), {"alpha": 1}),
    "DoublePAL": ("pfrl.agents.double_pal", t_pal(boot_double), {"alpha": 1}),
    "DPP": ("pfrl.agents.dpp", t_dpp(l_soft), {"eta": 1}),
    "DPPL": ("pfrl.agents.dpp", t_dpp(l_lse), {"eta": 1}),
    "DPPGreedy": ("pfrl.agents.dpp", t_dpp(l_max), {}),
}


def copy_of(p, net):
    cs = [o for o in p.objs.values() if isinstance(o, Net) and o.src is net]
    if len(cs) != 1:
        raise Unsupported("target network of %s" % net.name)
    return cs[0]


def u_dqn(name, clip, acc, weighted, recurrent):
    mod, tgt, extra = DQNS[name]

    def run(ip, p):
        w = World(p, weighted, recurrent)
        net = Net("model", nets.q_discrete(w.B, w.A))
        w.alpha, w.eta = p.real("alpha"), p.real("eta")
        p.assume(w.eta > 0)
        kw = {k: getattr(w, k) for k in extra}
        ag, opt, buf = make(ip, p, w, ip.get_class(mod, name), net, clip_delta=clip, batch_accumulator=acc, **kw)
        target = copy_of(p, net)
        modes = (net.f["training"], target.f["training"])
        run_update(ip, p, w, ag, recurrent)
        q = net.fn(w.key(False), I, I, R)
        y = lambda b: q(num(b), num(w.act.at(b)))
        t = tgt(p, w, ag, net, target, ip)
        loss = one_step(p, opt, {net.uid}, "update")
        if loss is not None:
            check_loss(p, loss.at(), losses(p, ip, w, y, t, clip, acc), "loss-of-prediction-against-target")
        check_errors(ip, p, w, buf, lambda b: zabs(fold(real(y(b)) - real(t(b)))))
        p.prove(same(p, net.f["training"], modes[0]) and same(p, target.f["training"], modes[1]),
                "network-modes-restored")

    return run


def same(p, a, b):
    if a is b:
        return True
    return p.entails(fold((a if is_term(a) else z3.BoolVal(a)) == (b if is_term(b) else z3.BoolVal(b))))


# ------------------------------------------------------------------ distributional
def u_iqn(acc, weighted, recurrent):
    def run(ip, p):
        w = World(p, weighted, recurrent)
        N, N2, K = p.int("N"), p.int("Np"), p.int("K")
        p.assume(z3.And(N >= 1, N2 >= 1, K >= 1))
        if p.unit.mode == "bmc":
            N, N2, K = [min(p.expand(x), 3) for x in (N, N2, K)]
        net = Net("model", nets.q_quantile(w.B, w.A))
        ag, opt, buf = make(ip, p, w, ip.get_class("pfrl.agents.iqn", "IQN"), net, batch_accumulator=acc,
                            quantile_thresholds_N=N, quantile_thresholds_N_prime=N2, quantile_thresholds_K=K)
        target = copy_of(p, net)
        run_update(ip, p, w, ag, recurrent)
        calls = p.ghost.get("taus", [])
        taus = [t for n, k, t in calls if n is net and k == w.key(False)]
        tt = [t for n, k, t in calls if n is target and k == w.key(True)]
        p.prove(len(taus) == 1, "prediction-evaluated-once")
        p.prove(len(calls) == 3 and len(tt) == 2, "target-network-evaluates-next-state-only")
        if len(taus) != 1 or len(tt) != 2:
            return
        tau = taus[0]
        greedy, prime = tt
        loss = one_step(p, opt, {net.uid}, "update")
        for t, n, nm in ((tau, N, "N"), (greedy, K, "K"), (prime, N2, "N-prime")):
            p.prove(len(t.shape) == 2 and p.entails(fold(z3.And(num(t.shape[0]) == num(w.B), num(t.shape[1]) == num(n)))),
                    "quantile-thresholds-" + nm)
        zf = net.fns[w.key(False) + "@" + nets.tensor_id(p, tau)]
        zg = target.fns[w.key(True) + "@" + nets.tensor_id(p, greedy)]
        zp = target.fns[w.key(True) + "@" + nets.tensor_id(p, prime)]
        best = lambda b: p.arg_of(w.A, lambda a: fold(summ(p, K, lambda k: zg(num(b), num(k), num(a))) / real(K)), True)
        t = w.target(lambda b, j: zp(num(b), num(j), num(best(b))))
        y = lambda b, i: zf(num(b), num(i), num(w.act.at(b)))

        def el(b, i, j):
            d = fold(real(y(b, i)) - real(t(b, j)))
            ind = z3.If(real(t(b, j)) < real(y(b, i)), z3.RealVal(1), z3.RealVal(0))
            return fold(zabs(fold(real(tau.at(b, i)) - ind)) * huber(d))

        if loss is not None:
            row = lambda b: summ(p, N, lambda i: fold(summ(p, N2, lambda j: el(b, i, j)) / real(N2)))
            if weighted:
                want = summ(p, w.B, lambda b: fold(row(b) * w.w(num(b))))
                want = fold(want / real(w.B)) if acc == "mean" else want
            elif acc == "sum":
                want = summ(p, w.B, row)
            else:
                want = summ(p, N, lambda i: fold(summ(p, w.B, lambda b: fold(
                    summ(p, N2, lambda j: el(b, i, j)) / real(N2))) / real(w.B)))
            check_loss(p, loss.at(), want, "quantile-loss-of-prediction-against-target")
        if weighted:
            check_errors(ip, p, w, buf, lambda b: fold(summ(p, N, lambda i: fold(
                summ(p, N2, lambda j: el(b, i, j)) / real(N2))) / real(N)))

    return run


# ------------------------------------------------------------------ actor-critic
def mse(p, w, y, t):
    return fold(summ(p, w.B, lambda b: zsquare(fold(real(t(b)) - real(y(b))))) / real(w.B))


def the_draw(p, net, x, kind):
    ds = [t for n, k, kd, t in p.ghost.get("draws", []) if n is net and k is x and kd == kind]
    p.prove(len(ds) == 1, "one-%s-from-%s" % (kind, net.name))
    return ds[0] if ds else None


def u_ddpg(ip, p):
    D = p.int("D")
    p.assume(D >= 1)
    w = World(p, action_dim=D)
    pol, qf = Net("policy", nets.policy(w.B, D)), Net("q", nets.q_pair(w.B))
    ip.contracts.update(stubs(w))
    po, qo = Optim(pol), Optim(qf)
    ip.contracts["pfrl.utils.copy_param.synchronize_parameters"] = lambda ip, f, a, k: None
    ag = ip.call(ip.get_class("pfrl.agents.ddpg", "DDPG"),
                 [pol, qf, po, qo, Buffer(), w.gamma, Opaque("explorer")])
    run_update(ip, p, w, ag)
    tpol, tq = copy_of(p, pol), copy_of(p, qf)
    na = the_draw(p, tpol, w.NS, "sample")
    on = the_draw(p, pol, w.S, "rsample")
    if na is None or on is None:
        return
    key = lambda s, a: s + "," + nets.tensor_id(p, a)
    nq = tq.fn(key("NS", na), I, R)
    y = qf.fn(key("S", w.act), I, R)
    t = w.target(lambda b: nq(num(b)))
    loss = one_step(p, qo, {qf.uid}, "critic")
    if loss is not None:
        check_loss(p, loss.at(), mse(p, w, lambda b: y(num(b)), t), "critic-loss-of-prediction-against-target")
    loss = one_step(p, po, {qf.uid, pol.uid}, "actor")
    if loss is not None:
        qa = qf.fn(key("S", on), I, R)
        check_loss(p, loss.at(), fold(-(summ(p, w.B, lambda b: qa(num(b))) / real(w.B))), "actor-loss-is-minus-mean-q")


def u_td3(do_policy):
    def run(ip, p):
        D = p.int("D")
        p.assume(D >= 1)
        w = World(p, action_dim=D)
        pol = Net("policy", nets.policy(w.B, D))
        q1, q2 = Net("q1", nets.q_pair(w.B)), Net("q2", nets.q_pair(w.B))
        ip.contracts.update(stubs(w))
        po, o1, o2 = Optim(pol), Optim(q1), Optim(q2)
        syncs = []
        ip.contracts["pfrl.utils.copy_param.synchronize_parameters"] = lambda ip, f, a, k: syncs.append((a, k))
        smoothed = []

        def smooth(ip, a):
            t = fresh_t(p, "smoothed", a.shape)
            smoothed.append((a, t))
            return t

        ag = ip.call(ip.get_class("pfrl.agents.td3", "TD3"),
                     [pol, q1, q2, po, o1, o2, Buffer(), w.gamma, Opaque("explorer")],
                     dict(target_policy_smoothing_func=Builtin("smooth", smooth),
                          policy_update_delay=1 if do_policy else 2))
        run_update(ip, p, w, ag)
        tpol, t1, t2 = copy_of(p, pol), copy_of(p, q1), copy_of(p, q2)
        na = the_draw(p, tpol, w.NS, "sample")
        if na is None:
            return
        p.prove(len(smoothed) == 1 and nets.tensor_id(p, smoothed[0][0]) == nets.tensor_id(p, na),
                "smoothing-applied-to-the-target-action")
        if not smoothed:
            return
        key = lambda s, a: s + "," + nets.tensor_id(p, a)
        k = key("NS", smoothed[0][1])
        n1, n2 = t1.fn(k, I, R), t2.fn(k, I, R)
        t = w.target(lambda b: zmin(n1(num(b)), n2(num(b))))
        for nm, qf, o in (("q1", q1, o1), ("q2", q2, o2)):
            y = qf.fn(key("S", w.act), I, R)
            loss = one_step(p, o, {qf.uid}, nm)
            if loss is not None:
                check_loss(p, loss.at(), mse(p, w, lambda b: y(num(b)), t), nm + "-loss-of-prediction-against-target")
        if do_policy:
            on = the_draw(p, pol, w.S, "rsample")
            loss = one_step(p, po, {q1.uid, pol.uid}, "policy")
            if loss is not None and on is not None:
                qa = q1.fn(key("S", on), I, R)
                check_loss(p, loss.at(), fold(-(summ(p, w.B, lambda b: qa(num(b))) / real(w.B))),
                           "policy-loss-is-minus-mean-q1")
            p.prove(len(syncs) == 3, "targets-synchronised-with-policy-update")
        else:
            p.prove(po.f["steps"] == [] and not syncs, "policy-update-delayed")

    return run


def u_sac(adaptive):
    def run(ip, p):
        D = p.int("D")
        p.assume(D >= 1)
        w = World(p, action_dim=D)
        pol = Net("policy", nets.policy(w.B, D))
        q1, q2 = Net("q1", nets.q_pair(w.B)), Net("q2", nets.q_pair(w.B))
        ip.contracts.update(stubs(w))
        po, o1, o2 = Optim(pol), Optim(q1), Optim(q2)
        syncs = []
        ip.contracts["pfrl.utils.copy_param.synchronize_parameters"] = lambda ip, f, a, k: syncs.append((a, k))
        temp = p.real("temperature")
        kw = {}
        if adaptive:
            def out(ip, net):
                return T((), lambda: temp, deps=nets.grad_deps(net))
            th = Net("temperature", out)
            to = Optim(th)
            ip.contracts["pfrl.agents.soft_actor_critic.TemperatureHolder"] = lambda ip, c, a, k: th
            ip.ext["torch.optim.Adam"] = Builtin("Adam", lambda ip, ps, **k: to)
            ip.ext["numpy.log"] = Builtin("log", lambda ip, x: p.real("log"))
            ent = p.real("entropy_target")
            kw = dict(entropy_target=ent, initial_temperature=p.real("t0"))
        else:
            kw = dict(initial_temperature=temp)
        ag = ip.call(ip.get_class("pfrl.agents.soft_actor_critic", "SoftActorCritic"),
                     [pol, q1, q2, po, o1, o2, Buffer(), w.gamma], kw)
        t1, t2 = copy_of(p, q1), copy_of(p, q2)
        run_update(ip, p, w, ag)
        na, on = the_draw(p, pol, w.NS, "sample"), the_draw(p, pol, w.S, "rsample")
        if na is None or on is None:
            return
        key = lambda s, a: s + "," + nets.tensor_id(p, a)
        k = key("NS", na)
        n1, n2, lp = t1.fn(k, I, R), t2.fn(k, I, R), pol.fn("logp(%s)" % k, I, R)
        t = w.target(lambda b: fold(zmin(n1(num(b)), n2(num(b))) - temp * lp(num(b))))
        for nm, qf, o in (("q1", q1, o1), ("q2", q2, o2)):
            y = qf.fn(key("S", w.act), I, R)
            loss = one_step(p, o, {qf.uid}, nm)
            if loss is not None:
                check_loss(p, loss.at(), fold(mse(p, w, lambda b: y(num(b)), t) / 2),
                           nm + "-loss-of-prediction-against-target")
        loss = one_step(p, po, {q1.uid, q2.uid, pol.uid}, "policy")
        ks = key("S", on)
        a1, a2, l2 = q1.fn(ks, I, R), q2.fn(ks, I, R), pol.fn("logp(%s)" % ks, I, R)
        if loss is not None:
            check_loss(p, loss.at(), fold(summ(p, w.B, lambda b: fold(
                temp * l2(num(b)) - zmin(a1(num(b)), a2(num(b))))) / real(w.B)), "policy-loss")
        if adaptive:
            loss = one_step(p, to, {th.uid}, "temperature")
            if loss is not None:
                check_loss(p, loss.at(), fold(-(summ(p, w.B, lambda b: fold(temp * (l2(num(b)) + ent))) / real(w.B))),
                           "temperature-loss")
        p.prove(len(syncs) == 2, "targets-synchronised-every-update")

    return run


def units(tier):
    ext = nets.agent_ext()
    us = []

    def add(nm, run):
        us.append(AgentUnit(nm, run, ext=dict(ext)))

    for name in DQNS:
        add(name + ".update", u_dqn(name, True, "mean", False, False))
        add(name + ".update[recurrent]", u_dqn(name, True, "mean", False, True))
    add("DQN.update[mse,sum]", u_dqn("DQN", False, "sum", False, False))
    add("DQN.update[sum]", u_dqn("DQN", True, "sum", False, False))
    add("DQN.update[weighted]", u_dqn("DQN", True, "mean", True, False))
    add("DQN.update[weighted,sum]", u_dqn("DQN", True, "sum", True, False))
    add("PAL.update[weighted]", u_dqn("PAL", True, "mean", True, False))
    for acc in ("mean", "sum"):
        for wt in (False, True):
            add("IQN.update[%s%s]" % (acc, ",weighted" if wt else ""), u_iqn(acc, wt, False))
    add("IQN.update[recurrent]", u_iqn("mean", False, True))
    add("DDPG.update", u_ddpg)
    add("TD3.update", u_td3(True))
    add("TD3.update[delayed]", u_td3(False))
    add("SAC.update", u_sac(False))
    add("SAC.update[adaptive]", u_sac(True))
    return us
