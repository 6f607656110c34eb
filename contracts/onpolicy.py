"""PPO and TRPO: the losses of their updates, and the flow of transitions into them."""
import z3

from pydv import seqs
from pydv.interp import IterVal, exc
from pydv.tensor import T, detached, zexp, zmax, zmin, zsqrt, zsquare
from pydv.unit import Unit
from pydv.values import Builtin, HModel, Model, Obj, Opaque, P, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num, real
from . import nets
from .c16 import check_loss, summ
from .loops import Logger
from .rows import I, R, RowNet, Rows, StateBatch, batch_states

PPO, TRPO = "pfrl.agents.ppo", "pfrl.agents.trpo"


class VDist(Model):
    """distribution given by the parameters at the time of the call"""

    def __init__(self, net, x, deps):
        self.net, self.x, self.ver, self.deps = net, x, net.f["version"], deps
        self.w = net.const()

    def m_log_prob(self, ip, a):
        if not isinstance(a, T) or len(a.shape) != 1:
            raise Unsupported("log_prob of %r" % (a,))
        P().prove(fold(num(a.shape[0]) == num(self.x.n)), "log_prob.one-action-per-observation")
        s = a.snap()
        return T((self.x.n,), lambda i: self.w(self.net.logp(self.x.at(i), real(s(i)), self.ver)), deps=self.deps)

    def m_entropy(self, ip):
        return T((self.x.n,), lambda i: self.w(self.net.ent(self.x.at(i), self.ver)), deps=self.deps)

    def m_sample(self, ip):
        p = P()
        f = p.fn("action", I, R)
        t = T((self.x.n,), lambda i: f(num(i)))
        p.ghost.setdefault("draws", []).append((self.net, self.x, t))
        return t


class VNet(RowNet):
    """network whose parameters have a version, advanced by every optimiser step"""

    def __init__(self, name, head="both", training=None):
        RowNet.__init__(self, name, head, training)
        self.f["version"] = P().int(name + ".version")

    def const(self):
        """outputs computed without gradient are constants"""
        p = P()
        return detached if p.ghost.get("nograd") and p.ghost.get("track_detach") else (lambda x: x)

    def ver(self, v):
        return num(self.f["version"] if v is None else v)

    def V(self, o, v=None):
        return self.fn("v", I, Obj, R)(self.ver(v), o)

    def logp(self, o, a, v=None):
        return self.fn("logp", I, Obj, R, R)(self.ver(v), o, real(a))

    def ent(self, o, v=None):
        return self.fn("entropy", I, Obj, R)(self.ver(v), o)

    def m_zero_grad(self, ip, *a, **k):
        P().ghost["optims"][self.uid].zero()

    def m___call__(self, ip, x):
        if not isinstance(x, StateBatch):
            raise Unsupported("network input %r" % (x,))
        ver = self.f["version"]
        self.calls.append((x, P().ghost.get("nograd"), self.f["training"]))
        w = self.const()
        v = T((x.n, 1), lambda i, _z: w(self.V(x.at(i), ver)), deps=nets.grad_deps(self))
        d = VDist(self, x, nets.grad_deps(self))
        return {"both": (d, v), "pi": d, "v": v}[self.head]


class StepOptim(HModel):
    """optimiser: at every step, the gradient is that of exactly one loss computed since it was
    cleared, and that loss is the expected one"""

    ghost = True

    def __init__(self, net, expect=None):
        HModel.__init__(self, "optimizer:" + net.name)
        self.net, self.expect = net, expect
        self.f["stale"] = True
        self.f["steps"] = P().int("steps")
        P().ghost.setdefault("optims", {})[net.uid] = self

    def zero(self):
        self.set("stale", False)
        P().ghost["backward"] = []

    def m_zero_grad(self, ip, *a, **k):
        self.zero()

    def m_step(self, ip, *a, **k):
        p = P()
        st = self.f["stale"]
        p.prove(fold(z3.Not(st)) if is_term(st) else st is False, "gradients-cleared-since-the-last-step")
        bw = [t for t in p.ghost.setdefault("backward", []) if self.net.uid in t.deps]
        p.prove(len(bw) == 1 and len(p.ghost["backward"]) == 1, "one-loss-per-step")
        if len(bw) == 1 and self.expect is not None:
            p.prove(bw[0].deps == frozenset([self.net.uid]), "gradient-of-this-network-only")
            self.expect(bw[0])
        self.set("stale", True)
        self.set("steps", fold(num(self.f["steps"]) + 1))
        self.net.set("version", fold(num(self.net.f["version"]) + 1))

    def havoc_field(self, field, init):
        return P().bool("stale") if field == "stale" else P().int(field)


class Normaliser(HModel):
    """observation normaliser (its own contract is C23)"""

    ghost = True

    def __init__(self, p):
        HModel.__init__(self, "obs_normalizer")
        self.view = p.fn("normalised", I, Obj, Obj)
        self.f["epoch"] = 0
        self.fed = []

    def truth(self, ip):
        return True

    def m___call__(self, ip, x, update=True):
        P().prove(update is False, "normaliser-not-fed-while-predicting")
        if not isinstance(x, StateBatch):
            raise Unsupported("normalised %r" % (x,))
        e = num(self.f["epoch"])
        return StateBatch(x.n, lambda i: self.view(e, x.at(i)))

    def m_experience(self, ip, x):
        if not isinstance(x, StateBatch):
            raise Unsupported("experience of %r" % (x,))
        self.fed.append(x)
        self.set("epoch", fold(num(self.f["epoch"]) + 1))

    def see(self, o, epoch):
        return self.view(num(epoch), o)


def fed_once(p, norm, rows, n):
    p.prove(len(norm.fed) == 1, "normaliser-fed-once-per-update")
    if len(norm.fed) != 1:
        return
    x = norm.fed[0]
    p.prove(fold(num(x.n) == num(n)), "normaliser-fed-every-observation")
    p.prove_forall(n, lambda i: fold(x.at(i) == rows.col("state", i)), "normaliser-fed-every-observation-once")


def std_mean(ip, t, dim=None, unbiased=True, **kw):
    if not isinstance(t, T) or len(t.shape) != 1 or dim is not None or kw:
        raise Unsupported("std_mean")
    p = P()
    n, at = t.shape[0], t.snap()
    m = mean_of(p, n, at)
    v = fold(summ(p, n, lambda i: zsquare(fold(real(at(i)) - m))) / (real(n) - (1 if unbiased else 0)))
    s = zsqrt(v)
    return (T((), lambda: s, deps=t.deps), T((), lambda: m, deps=t.deps))


def mean_of(p, n, at):
    return fold(summ(p, n, lambda i: real(at(i))) / real(n))


def standardised(p, n, at):
    """(x - mean) / (population std + 1e-8) over the whole dataset"""
    m = mean_of(p, n, at)
    v = fold(summ(p, n, lambda i: zsquare(fold(real(at(i)) - m))) / real(n))
    s = zsqrt(v)
    return lambda x: fold((real(x) - m) / (s + z3.RealVal("1/100000000")))


COLS = dict(state=Obj, action=R, adv=R, log_prob=R, v_pred=R, v_teacher=R)


def minibatches(p, rows, n, mb, calls, bmc):
    """any number of minibatches of any rows of the dataset (which rows: C19)"""
    K = p.int("minibatches")
    p.assume(K >= 0)
    if bmc:
        K = p.expand(K)
    idx = p.fn("index", I, I, I)

    def row(k, i):
        j = idx(num(k), num(i))
        p.assume(z3.And(j >= 0, j < num(n)))
        return j

    def batch(k):
        p.ghost["turn"] = k
        el = lambda i: rows.row(row(k, i))  # noqa
        return PyList([el(i) for i in range(mb)] if not is_term(mb) else SymSeq(mb, el), "minibatch")

    def contract(ip, f, args, kw):
        calls.append(dict(zip(("dataset", "minibatch_size", "num_epochs"), args), **kw))
        return SymSeq(K, batch)

    return contract, row, K


class StepUnit(Unit):
    bmc_bound = 2

    def loop_preds(self, ctx, k):
        out = {}
        for o in P().ghost.get("optims", {}).values():
            if (o.uid, "stale") in ctx.init:
                out["clean-" + o.uid] = lambda o=o: fold(z3.Not(o.f["stale"])) if is_term(o.f["stale"]) else z3.BoolVal(o.f["stale"] is False)
            if (o.uid, "steps") in ctx.init:
                s0 = ctx.init[(o.uid, "steps")]
                out["one-step-each-" + o.uid] = lambda o=o: fold(num(o.f["steps"]) == num(s0) + num(k))
            for f, v in (P().ghost.get("counters") or {}).items():
                c, fld = v
                if (c.uid, fld) in ctx.init:
                    c0 = ctx.init[(c.uid, fld)]
                    out["count-" + f] = lambda c=c, fld=fld, c0=c0: fold(num(c.f[fld]) == num(c0) + num(k))
        return out


def clip_monitor(ip, p, fn):
    """gradient clipping happens between backward and step, with the given bound"""
    def clip(ip, f, args, kw):
        p.ghost.setdefault("clips", []).append((args[1] if len(args) > 1 else kw.get("max_norm"), len(p.ghost.setdefault("backward", []))))

    return clip


def u_ppo_update(normalised, standardise, vf):
    from .c18 import ppo_loss

    def run(ip, p):
        bmc = p.unit.mode == "bmc"
        p.ghost["track_detach"] = True
        n, mb, epochs = p.int("N"), p.int("minibatch_size"), p.int("epochs")
        p.assume(z3.And(n >= 1, mb >= 1, epochs >= 1))
        if bmc:
            n, mb = p.expand(n), p.expand(mb)
        rows = Rows("data", n, COLS)
        before = dict(rows.f)
        net = VNet("model", training=True)
        clip, vc, ec = p.real("clip_eps"), p.real("value_func_coef"), p.real("entropy_coef")
        cvf = p.real("clip_eps_vf") if vf else None
        p.assume(clip >= 0)
        if vf:
            p.assume(cvf >= 0)
        mg = None if p.choose(2) == 0 else p.real("max_grad_norm")
        norm = Normaliser(p) if normalised else None
        phi = Opaque("phi")
        calls = []
        contract, row, K = minibatches(p, rows, n, mb, calls, bmc)
        see = (lambda o: norm.see(o, 1)) if normalised else (lambda o: o)
        adv = standardised(p, n, lambda i: rows.f["adv"](i)) if standardise else (lambda x: x)

        def expect(loss):
            k = p.ghost["turn"]
            c = lambda key: (lambda i: before[key](row(k, i)))  # noqa
            o = lambda i: see(before["state"](row(k, i)))  # noqa
            want = ppo_loss(p, mb, clip, cvf, vc, ec, lambda i: net.ent(o(i)), lambda i: net.V(o(i)),
                            lambda i: net.logp(o(i), c("action")(i)), c("v_pred"), c("log_prob"),
                            lambda i: adv(c("adv")(i)), c("v_teacher"))
            check_loss(p, loss.scalar(), want, "loss-of-the-minibatch")
            cl = p.ghost.get("clips", [])
            p.prove((cl == []) if mg is None else (len(cl) >= 1 and cl[-1][1] == 1), "gradient-clipped-iff-asked")
            if mg is not None and cl:
                p.prove_eq(cl[-1][0], mg, "gradient-clipped-at-the-given-norm")
            p.prove(net.f["training"] is True, "training-mode-while-learning")

        opt = StepOptim(net, expect)
        ip.contracts.update(nets.stubs())
        ip.ext["torch.nn.utils.clip_grad_norm_"] = Builtin("clip_grad_norm_", lambda ip, ps, m, *a, **k: clip_monitor(ip, p, None)(ip, None, [ps, m], {}))
        ip.contracts[PPO + "._yield_minibatches"] = contract
        ag = ip.call(ip.get_func(PPO, "PPO"), [net, opt], dict(
            obs_normalizer=norm, phi=phi, batch_states=batch_states(phi), clip_eps=clip, clip_eps_vf=cvf,
            value_func_coef=vc, entropy_coef=ec, minibatch_size=mb, epochs=epochs,
            standardize_advantages=standardise, max_grad_norm=mg))
        s0, u0 = opt.f["steps"], p.int("n_updates")
        ag.set("n_updates", u0)
        p.ghost["counters"] = {"n_updates": (ag, "n_updates")}
        data = rows.list("dataset")
        ip.call(ip.getattr(ag, "_update"), [data])
        p.prove(len(calls) == 1 and calls[0]["dataset"] is data, "minibatches-of-the-dataset")
        if len(calls) == 1:
            p.prove_eq(calls[0]["minibatch_size"], mb, "minibatch-size-passed")
            p.prove_eq(calls[0]["num_epochs"], epochs, "epochs-passed")
        p.prove(fold(num(opt.f["steps"]) == num(s0) + num(K)), "one-step-per-minibatch")
        p.prove_eq(ag.f["n_updates"], fold(u0 + num(K)), "updates-counted")
        if normalised:
            fed_once(p, norm, rows, n)
        for k in before:
            p.prove(rows.f[k] is before[k], "dataset-kept")

    return run


def units_c18(ext):
    ext = onp_ext(ext)
    us = units_trpo(ext)
    for nm, st, vf in ((False, False, False), (True, True, False), (False, True, True), (True, False, True)):
        tag = ",".join(x for x, y in (("normaliser", nm), ("standardised", st), ("value clipping", vf)) if y) or "plain"
        us.append(StepUnit("PPO._update[%s]" % tag, u_ppo_update(nm, st, vf), ext=dict(ext), covers=[PPO + ".PPO._update"]))
    return us


# ------------------------------------------------------------------ TRPO
def trpo_agent(ip, p, pi, vf, opt, norm=None, **kw):
    ip.contracts.update(nets.stubs())
    for q in ("pfrl.nn.branched.Branched", "pfrl.nn.recurrent_branched.RecurrentBranched"):
        ip.contracts[q] = lambda ip, cls, a, k: VNet("model")

    def default(ip, f, a, k):
        p.prove(False, "batch_states.the-given-function-is-used")
        return ip.call(batch_states(None), a, k)

    ip.contracts["pfrl.utils.batch_states.batch_states"] = default
    ip.contracts["pfrl.utils.clip_l2_grad_norm.clip_l2_grad_norm_"] = clip_monitor(ip, p, None)
    phi = Opaque("phi")
    return ip.call(ip.get_func(TRPO, "TRPO"), [pi, vf, opt], dict(
        obs_normalizer=norm, phi=phi, batch_states=batch_states(phi), **kw))


def u_trpo_vf(normalised):
    """every step fits the value function to the targets of one minibatch"""

    def run(ip, p):
        bmc = p.unit.mode == "bmc"
        p.ghost["track_detach"] = True
        n, mb, epochs = p.int("N"), p.int("vf_batch_size"), p.int("vf_epochs")
        p.assume(z3.And(n >= 1, mb >= 1, epochs >= 1))
        if bmc:
            n, mb = p.expand(n), p.expand(mb)
        rows = Rows("data", n, COLS)
        before = dict(rows.f)
        pi, vf = VNet("policy", "pi"), VNet("vf", "v", training=True)
        mg = None if p.choose(2) == 0 else p.real("max_grad_norm")
        norm = Normaliser(p) if normalised else None
        calls = []
        contract, row, K = minibatches(p, rows, n, mb, calls, bmc)
        see = (lambda o: norm.see(o, 0)) if normalised else (lambda o: o)

        def expect(loss):
            k = p.ghost["turn"]
            o = lambda i: see(before["state"](row(k, i)))  # noqa
            want = fold(summ(p, mb, lambda i: zsquare(fold(vf.V(o(i)) - real(before["v_teacher"](row(k, i)))))) / real(mb))
            check_loss(p, loss.scalar(), want, "value-loss-of-the-minibatch")
            cl = p.ghost.get("clips", [])
            p.prove((cl == []) if mg is None else (len(cl) >= 1 and cl[-1][1] == 1), "gradient-clipped-iff-asked")
            if mg is not None and cl:
                p.prove_eq(cl[-1][0], mg, "gradient-clipped-at-the-given-norm")

        opt = StepOptim(vf, expect)
        ip.contracts[PPO + "._yield_minibatches"] = contract
        ag = trpo_agent(ip, p, pi, vf, opt, norm, vf_batch_size=mb, vf_epochs=epochs, max_grad_norm=mg)
        s0 = opt.f["steps"]
        v0 = pi.f["version"]
        data = rows.list("dataset")
        ip.call(ip.getattr(ag, "_update_vf"), [data])
        p.prove(len(calls) == 1 and calls[0]["dataset"] is data, "minibatches-of-the-dataset")
        if len(calls) == 1:
            p.prove_eq(calls[0]["minibatch_size"], mb, "minibatch-size-passed")
            p.prove_eq(calls[0]["num_epochs"], epochs, "epochs-passed")
        p.prove(fold(num(opt.f["steps"]) == num(s0) + num(K)), "one-step-per-minibatch")
        p.prove(pi.f["version"] is v0, "policy-untouched")
        if normalised:
            p.prove(norm.fed == [], "normaliser-not-fed")
        for k in before:
            p.prove(rows.f[k] is before[k], "dataset-kept")

    return run


def u_trpo_update(ip, p):
    """both models are updated once, after the normaliser saw the dataset once"""
    n = p.int("N")
    p.assume(n >= 1)
    rows = Rows("data", n, COLS)
    norm = Normaliser(p) if p.choose(2) else None
    pi, vf = VNet("policy", "pi"), VNet("vf", "v")
    ag = trpo_agent(ip, p, pi, vf, StepOptim(vf), norm)
    data = rows.list("dataset")
    ev = []

    def stub(name):
        def f(ip, fn, a, k):
            d = dict(zip(("self", "dataset"), a), **k)
            ev.append(name)
            p.prove(d.get("dataset") is data, "update-on-the-whole-dataset")
            if norm is not None:
                p.prove(len(norm.fed) == 1, "normaliser-fed-before-the-models-are-updated")
        return f

    for m in ("_update_policy", "_update_vf"):
        ip.contracts[TRPO + ".TRPO." + m] = stub(m)
    ip.call(ip.getattr(ag, "_update"), [data])
    p.prove(sorted(ev) == ["_update_policy", "_update_vf"], "policy-and-value-function-updated-once")
    if norm is not None:
        fed_once(p, norm, rows, n)


def units_trpo(ext):
    ext = onp_ext(ext)
    us = []
    for nm in (False, True):
        us.append(StepUnit("TRPO._update_vf" + ("[normaliser]" if nm else ""), u_trpo_vf(nm), ext=dict(ext), covers=[TRPO + ".TRPO._update_vf"]))
    us.append(Unit("TRPO._update", u_trpo_update, ext=dict(ext), covers=[TRPO + ".TRPO._update", TRPO + ".TRPO._update_obs_normalizer"]))
    return us


def onp_ext(ext):
    return dict(ext, **{"torch.std_mean": Builtin("std_mean", std_mean), "logging.getLogger": Builtin("getLogger", lambda ip, *a: Logger())})
