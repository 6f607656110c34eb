"""A2C: what is stored at every step, and the loss of its update.

S steps of N environments; an observation is identified by a number.  The network is an
arbitrary function of the observation and of the version of its parameters."""
import z3

from pydv import seqs
from pydv.tensor import T, detached, fresh_t, zsquare
from pydv.unit import Unit
from pydv.values import Builtin, Model, P, PyList, SymSeq, Unsupported, fold, is_term, num, real
from . import nets
from .c16 import check_loss, summ
from .onpolicy import StepOptim, clip_monitor, onp_ext
from .nets import Net

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
A2C = "pfrl.agents.a2c"
S_, D_, Z_ = z3.Function("reward", I, R), z3.Function("done", I, B), z3.Function("reset", I, B)
OB, NX = z3.Function("obs", I, R), z3.Function("next_obs", I, R)


def flat2(x):
    """(rows as a function, shape) of a batch of observations, flattened or not"""
    if isinstance(x, T) and x.flat_of is not None:
        return x.flat_of
    if isinstance(x, T) and len(x.shape) == 1:
        return x
    raise Unsupported("network input %r" % (x,))


def rows(base, f, deps, col=False):
    """elementwise result: one number per observation"""
    at = base.snap()
    g = lambda *i: f(at(*i))  # noqa
    if len(base.shape) == 1:
        return T((base.shape[0], 1), lambda i, _: g(i), deps=deps) if col else T(base.shape, g, deps=deps)
    two = T(base.shape, g, deps=deps)
    n = fold(num(base.shape[0]) * num(base.shape[1]))

    def none(*i):
        raise Unsupported("element of a flattened batch")

    r = T((n, 1) if col else (n,), none, deps=deps)
    r.flat_of = two
    return r


class Dist(Model):
    def __init__(self, net, base, ver, deps):
        self.net, self.base, self.ver, self.deps = net, base, ver, deps
        self.w = net.const()

    def m_entropy(self, ip):
        return rows(self.base, lambda o: self.w(self.net.ent(o, self.ver)), self.deps)

    def m_log_prob(self, ip, a):
        fa = flat2(a)
        if len(fa.shape) != len(self.base.shape):
            raise Unsupported("log_prob of %r" % (a,))
        for x, y in zip(fa.shape, self.base.shape):
            P().prove(fold(num(x) == num(y)), "one-action-per-observation")
        sa, so = fa.snap(), self.base.snap()
        two = T(fa.shape, lambda *i: self.w(self.net.logp(so(*i), sa(*i), self.ver)), deps=self.deps)
        if len(fa.shape) == 1:
            return two
        r = rows(self.base, lambda o: o, self.deps)
        r.flat_of = two
        return r

    def m_sample(self, ip):
        f = P().fn("action", I, R)
        if len(self.base.shape) != 1:
            raise Unsupported("sample")
        t = T(self.base.shape, lambda i: f(num(i)))
        P().ghost.setdefault("draws", []).append((self, t))
        return t


class ANet(Net):
    def __init__(self, name):
        Net.__init__(self, name, None, None)
        self.f["version"] = P().int("version")

    def const(self):
        p = P()
        return detached if p.ghost.get("nograd") else (lambda x: x)

    def ver(self, v):
        return num(self.f["version"] if v is None else v)

    def V(self, o, v=None):
        return self.fn("v", I, R, R)(self.ver(v), real(o))

    def logp(self, o, a, v=None):
        return self.fn("logp", I, R, R, R)(self.ver(v), real(o), real(a))

    def ent(self, o, v=None):
        return self.fn("entropy", I, R, R)(self.ver(v), real(o))

    def m_zero_grad(self, ip, *a, **k):
        P().ghost["optims"][self.uid].zero()

    def m___call__(self, ip, x):
        base, ver, w, deps = flat2(x), self.f["version"], self.const(), nets.grad_deps(self)
        return (Dist(self, base, ver, deps), rows(base, lambda o: w(self.V(o, ver)), deps, True))


def agent(ip, p, gae=False, expect=None, **kw):
    S, N = p.int("update_steps"), p.int("num_processes")
    p.assume(z3.And(S >= 1, N >= 1))
    if p.unit.mode == "bmc":
        S, N = p.expand(S), p.expand(N)
    p.ghost["track_detach"] = True
    net = ANet("model")
    opt = StepOptim(net, expect)
    ip.contracts.update(nets.stubs())
    ip.contracts["pfrl.utils.clip_l2_grad_norm.clip_l2_grad_norm_"] = clip_monitor(ip, p, None)

    def bs(ip, obs, device, phi):
        it = ip.iterate(obs)
        if not isinstance(it, (list, SymSeq)):
            it = ip.collect(it)
        return T((seqs.seq_len(it),), lambda i: real(seqs.seq_at(it, i)))

    ag = ip.call(ip.get_func(A2C, "A2C"), [net, opt, p.real("gamma"), N],
                 dict(update_steps=S, use_gae=gae, tau=p.real("tau"), batch_states=Builtin("batch_states", bs), **kw))
    return S, N, net, opt, ag


STORE = dict(states=1, actions=0, rewards=0, value_preds=1, returns=1, masks=0)


def storage(p, ag, S, N):
    ts = {k: fresh_t(p, k, (fold(num(S) + d), N)) for k, d in STORE.items()}
    for k, t in ts.items():
        ag.f[k] = t
    ag.f["obs_shape"] = ag.f["action_shape"] = ()
    return ts, {k: t.snap() for k, t in ts.items()}


def u_update(ip, p):
    mg = None if p.choose(2) == 0 else p.real("max_grad_norm")
    pc, vc, ec = p.real("pi_loss_coef"), p.real("v_loss_coef"), p.real("entropy_coeff")
    box = {}

    def expect(loss):
        S, N, net, b = box["S"], box["N"], box["net"], box["before"]
        ret = box["returns"]
        mean = lambda f: fold(summ(p, S, lambda i: fold(summ(p, N, lambda j: f(i, j)) / real(N))) / real(S))  # noqa
        o = lambda i, j: b["states"](i, j)  # noqa
        adv = lambda i, j: fold(real(ret.at(i, j)) - net.V(o(i, j)))  # noqa
        want = fold(vc * mean(lambda i, j: fold(adv(i, j) * adv(i, j)))
                    - pc * mean(lambda i, j: fold(detached(adv(i, j)) * net.logp(o(i, j), b["actions"](i, j))))
                    - ec * mean(lambda i, j: net.ent(o(i, j))))
        check_loss(p, loss.scalar(), want, "loss-of-all-steps-of-all-environments")
        cl = p.ghost.get("clips", [])
        p.prove((cl == []) if mg is None else (len(cl) >= 1 and cl[-1][1] == 1), "gradient-clipped-iff-asked")
        if mg is not None and cl:
            p.prove_eq(cl[-1][0], mg, "gradient-clipped-at-the-given-norm")

    S, N, net, opt, ag = agent(ip, p, False, expect, pi_loss_coef=pc, v_loss_coef=vc, entropy_coeff=ec, max_grad_norm=mg)
    ts, before = storage(p, ag, S, N)
    box.update(S=S, N=N, net=net, before=before)
    v0 = net.f["version"]

    def returns(ip, f, args, kw):
        nv = args[1] if len(args) > 1 else list(kw.values())[0]
        p.prove("returns" not in box, "returns-computed-once")
        ok = isinstance(nv, T) and len(nv.shape) == 1
        p.prove(ok, "value-of-the-last-state-of-every-environment")
        if ok:
            p.prove(fold(num(nv.shape[0]) == num(N)), "value-of-the-last-state-of-every-environment")
            # a constant: no gradient flows through the bootstrap value
            p.prove_forall(N, lambda j: fold(real(nv.at(j)) == detached(net.V(before["states"](S, j), v0))), "bootstrapped-from-the-last-state")
        r = box["returns"] = fresh_t(p, "computed_returns", (fold(num(S) + 1), N))
        ag.set("returns", r)

    ip.contracts[A2C + ".A2C._compute_returns"] = returns
    t, t0, s0 = p.int("t"), p.int("t_start"), opt.f["steps"]
    ag.f["t"], ag.f["t_start"] = t, t0
    ip.call(ip.getattr(ag, "update"), [])
    p.prove_eq(opt.f["steps"], fold(num(s0) + 1), "one-step-per-update")
    p.prove_eq(ag.f["t_start"], t, "next-rollout-starts-here")
    st = ag.f["states"]
    p.prove_forall(N, lambda j: fold(real(st.at(0, j)) == real(before["states"](S, j))), "next-rollout-starts-from-the-last-state")


def u_cycle(ip, p):
    """act and observe: everything stored under its own step and environment, update when S steps are there"""
    S, N, net, opt, ag = agent(ip, p)
    first = bool(p.choose(2))
    t, t0 = p.int("t"), p.int("t_start")
    if first:
        t = t0 = 0
        before = None
    else:
        p.assume(z3.And(t >= 1, t0 >= 0, t0 <= t, t - t0 < num(S)))
        ts, before = storage(p, ag, S, N)
    ag.f["t"], ag.f["t_start"] = t, t0
    k = fold(num(t) - num(t0))
    ups = []

    def update(ip, f, args, kw):
        ups.append({x: ag.f[x].snap() for x in STORE})
        # its contract
        ag.set("t_start", ag.f["t"])
        sn = ag.f["states"].snap()
        ag.set("states", T(ag.f["states"].shape, lambda i, j: fold(z3.If(num(i) == 0, real(sn(S, j)), real(sn(i, j))))))

    ip.contracts[A2C + ".A2C.update"] = update
    ip.contracts["warnings.warn"] = lambda ip, f, a, k: None
    seq = lambda f, nm: PyList(SymSeq(N, lambda i: f(num(i)), True), nm)  # noqa
    acts = ip.call(ip.getattr(ag, "batch_act"), [seq(OB, "obs")])
    if not isinstance(acts, T):
        raise Unsupported("actions %r" % (acts,))
    dr = p.ghost.get("draws", [])
    if not dr:
        raise Unsupported("action not drawn")
    d, drawn = dr[-1]
    p.prove_forall(N, lambda i: fold(real(d.base.at(i)) == OB(num(i))), "distribution-of-this-environments-observation")
    p.prove_forall(N, lambda i: fold(real(acts.at(i)) == real(drawn.at(i))), "action-drawn-for-this-environment")
    p.prove(ups == [], "no-update-before-enough-steps")
    ds = seq(D_, "done")
    ip.call(ip.getattr(ag, "batch_observe"), [seq(NX, "next_obs"), seq(S_, "reward"), ds, seq(Z_, "reset")])
    due = fold(num(k) + 1 == num(S))
    p.prove(len(ups) <= 1, "at-most-one-update-per-step")
    p.prove(due if ups else fold(z3.Not(due)), "update-exactly-after-the-given-number-of-steps")
    cur = ups[0] if ups else {x: ag.f[x].snap() for x in STORE}
    p.prove_forall(N, lambda j: fold(real(cur["states"](k, j)) == OB(num(j))), "observation-stored-under-its-step")
    p.prove_forall(N, lambda j: fold(real(cur["states"](fold(num(k) + 1), j)) == NX(num(j))), "next-observation-stored-after-it")
    p.prove_forall(N, lambda j: fold(real(cur["actions"](k, j)) == real(acts.at(j))), "action-stored-under-its-step")
    p.prove_forall(N, lambda j: fold(real(cur["rewards"](k, j)) == S_(num(j))), "reward-stored-under-its-step")
    p.prove_forall(N, lambda j: fold(real(cur["masks"](k, j)) == z3.If(z3.Or(D_(num(j)), Z_(num(j))), z3.RealVal(0), z3.RealVal(1))), "mask-zero-exactly-at-the-end-of-an-episode")
    p.prove_forall(N, lambda j: fold(real(cur["value_preds"](k, j)) == detached(net.V(OB(num(j))))), "value-stored-under-its-step")
    if before is not None:
        i = p.int("other_step")
        p.assume(z3.And(i >= 0, i < num(S), i != num(k)))
        for x in ("actions", "rewards", "masks", "value_preds"):
            p.prove_forall(N, lambda j: fold(real(cur[x](i, j)) == real(before[x](i, j))), "other-steps-kept")
        p.prove_forall(N, lambda j: fold(z3.Implies(i != num(k) + 1, real(cur["states"](i, j)) == real(before["states"](i, j)))), "other-steps-kept")
    p.prove_eq(ag.f["t"], fold(num(t) + 1), "one-step-counted")
    # the caller's flags are not changed
    p.prove_forall(N, lambda j: fold(_b(seqs.seq_at(ds.f["data"], j)) == D_(num(j))), "flags-of-the-caller-kept")


def _b(x):
    return x if is_term(x) else z3.BoolVal(bool(x))


class CUnit(Unit):
    bmc_bound = 2

    def loop_anchors(self, ctx, k, loc):
        p = P()
        o, iv = p.objs.get(loc[0]), ctx.init.get(loc)
        if not isinstance(o, PyList) or loc[1] != "data" or not isinstance(iv, (list, SymSeq)):
            return {}

        def upto():
            return SymSeq(seqs.seq_len(iv), lambda i: fold(z3.If(z3.And(num(i) < num(k), Z_(num(i))), z3.BoolVal(True), _b(seqs.seq_at(iv, i)))))

        return {"ended-so-far": upto}


def units(ext):
    ext = onp_ext(ext)
    return [
        Unit("A2C.update", u_update, ext=dict(ext), covers=[A2C + ".A2C.update"]),
        CUnit("A2C act/observe", u_cycle, ext=dict(ext), covers=[A2C + ".A2C._batch_act_train", A2C + ".A2C._batch_observe_train"]),
    ]
