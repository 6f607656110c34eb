"""C24: acting in evaluation mode never changes what training depends on.

Frame condition.  The real constructor of every agent class runs on arbitrary
components; its state is then made arbitrary (any history of training), eval_mode is
entered, and one act and one observe call of N environments are executed.  Everything
that existed before must be as it was, except the recurrent state of the evaluation
episodes; buffer, explorer, optimizers and pipes must not be called at all.  As the
state before is arbitrary, this covers every sequence of evaluation calls."""
import os

import z3

from pydv import interp as _interp
from pydv import seqs
from pydv.interp import IterVal
from pydv.tensor import T
from pydv.unit import Unit
from pydv.values import (
    NONE, Builtin, HModel, Model, Obj, Opaque, P, PyDict, PyExc, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num, real,
)
from . import nets
from .c09 import AV, DONE, NEXT, OBS, RESET, REW, RS, b_, recurrent_stubs, seq
from .loops import Logger

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
_interp.LIBS["verif_evaluation"] = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixtures", "evaluation.py")

TRUSTED = [
    "networks are arbitrary functions that change nothing of theirs in evaluation mode (torch batch normalisation, dropout)",
    "phi, batch_states and the logger change nothing",
    "recurrent state helpers by their contracts (C20); mode_of_distribution by its documentation",
]
ASSUMPTIONS = ["statistics and logging of an agent are part of the frame; evaluation itself records none"]
BOUNDED = []


class ENet(nets.Net):
    """network with a mode of its own and one of a submodule"""

    def __init__(self, name, out, src=None):
        nets.Net.__init__(self, name, out, src=src)
        self.f["sub"] = P().bool(name + ".sub.training")
        self.f["state"] = P().obj(name + ".state")

    def deepcopy(self, ip):
        n = ENet(self.name + "'", self.out, src=self)
        n.f["state"] = self.f["state"]
        return n

    def m_eval(self, ip):
        self.set("training", False)
        self.set("sub", False)
        return self

    def m_train(self, ip, mode=True):
        self.set("training", mode)
        self.set("sub", mode)
        return self

    def m_modules(self, ip):
        return IterVal([self, Sub(self)])

    def m_children(self, ip):
        return IterVal([Sub(self)])

    def m_parameters(self, ip):
        return IterVal([Dev()])

    def m_load_state_dict(self, ip, d):
        P().prove(False, "no-parameter-changes-in-evaluation")

    def m___call__(self, ip, *a):
        p = P()
        p.prove(fold(z3.Not(b_(self.f["training"]))), "network-runs-in-evaluation-mode")
        p.prove(fold(z3.Not(b_(self.f["sub"]))), "every-part-of-the-network-runs-in-evaluation-mode")
        return self.out(ip, self, *a)


class Dev(Model):
    def p_device(self, ip):
        return Opaque("device")


class Sub(Model):
    def __init__(self, net):
        self.net = net

    def p_training(self, ip):
        return self.net.f["sub"]

    def setattr(self, ip, name, v):
        if name != "training":
            raise Unsupported("attribute of a submodule")
        self.net.set("sub", v)

    def m_train(self, ip, mode=True):
        self.net.set("sub", mode)
        return self

    def m_eval(self, ip):
        self.net.set("sub", False)
        return self


class EList(nets.ModuleList):
    def deepcopy(self, ip):
        return EList([x.deepcopy(ip) for x in self.xs])


class Never(HModel):
    """nothing of it may be called"""

    ghost = True

    def __init__(self, name, kinds=()):
        HModel.__init__(self, name)
        self.name, self.kinds, self.armed = name, kinds, False

    def getattr(self, ip, name):
        if not self.armed:
            if name == "capacity":
                return None
            raise Unsupported("%s.%s in a constructor" % (self.name, name))

        def call(ip, *a, **k):
            P().prove(False, "%s-not-used-in-evaluation" % self.name)
            raise Unsupported("result of " + name)

        return Builtin(name, call)

    def length(self, ip):
        return P().int("len")

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") in self.kinds


class Pol(Model):
    """distribution of N actions"""

    def __init__(self, net, n, d):
        self.net, self.n, self.d = net, n, d

    def m_sample(self, ip):
        f = self.net.fn("sampled", I, I, R)
        return T((self.n, self.d), lambda i, k: f(num(i), num(k)), "real")

    def mode(self):
        f = self.net.fn("mode", I, I, R)
        return T((self.n, self.d), lambda i, k: f(num(i), num(k)), "real")

    def m_entropy(self, ip):
        f = self.net.fn("entropy", I, R)
        return T((self.n,), lambda i: f(num(i)), "real")

    def m_log_prob(self, ip, a):
        f = self.net.fn("log_prob", I, R)
        return T((self.n,), lambda i: f(num(i)), "real")


class Norm(HModel):
    """observation normaliser"""

    ghost = True

    def __init__(self):
        HModel.__init__(self, "normalizer")
        self.f["state"] = P().obj("normalizer.state")

    def truth(self, ip):
        return True

    def m_to(self, ip, d):
        return self

    def m___call__(self, ip, x, update=True):
        P().prove(fold(z3.Not(b_(ip.truth_t(update)))), "normaliser-not-updated-in-evaluation")
        return x

    def m_experience(self, ip, x):
        P().prove(False, "normaliser-not-updated-in-evaluation")

    def m_parameters(self, ip):
        return IterVal([Dev()])


class Cfg:
    def __init__(self, p, recurrent, det, single):
        self.recurrent, self.det, self.single = recurrent, det, single
        self.N = 1 if single else p.int("num_envs")
        self.j = 0 if single else p.int("env")
        if not single:
            p.assume(z3.And(self.N >= 1, self.j >= 0, self.j < self.N))
        self.D = p.int("action_size")
        p.assume(self.D >= 1)
        self.osf = []

    def batch_states(self):
        def bs(ip, obs, device, phi):
            xs = ip.iterate(obs)
            P().prove_eq(xs, SymSeq(self.N, lambda i: OBS(num(i))), "networks-see-the-observations")
            return nets.Tok("xs", self.N)

        return bs


def build(ip, p, c, kind):
    """(agent, network that acts, kind of action)"""
    bs = Builtin("batch_states", c.batch_states())
    buf = Never("replay-buffer", ("AbstractReplayBuffer", "ReplayBuffer") + (("AbstractEpisodicReplayBuffer", "EpisodicReplayBuffer") if c.recurrent or kind == "ACER" else ()))
    ex = Never("explorer")
    o = [Never("optimizer") for _ in range(3)]
    never = [buf, ex] + o
    pol = lambda ip, net, x: Pol(net, c.N, c.D)
    two = lambda ip, net, x: (Pol(net, c.N, c.D), T((c.N, 1), lambda i, k: net.fn("v", I, R)(num(i)), "real"))
    three = lambda ip, net, x: (Pol(net, c.N, c.D), Opaque("q"), T((c.N, 1), lambda i, k: net.fn("v", I, R)(num(i)), "real"))
    av = lambda ip, net, x: AV(net, c.N, x)
    g = p.real("gamma")
    A = "pfrl.agents."

    def mk(mod, cls, args, **kw):
        ag = ip.call(ip.get_class(A + mod, cls), args, kw)
        return ag

    if kind in ("DQN", "DoubleDQN", "CategoricalDQN", "CategoricalDoubleDQN", "AL", "PAL", "DoublePAL", "DPP"):
        mod = {"DQN": "dqn", "DoubleDQN": "double_dqn", "CategoricalDQN": "categorical_dqn", "CategoricalDoubleDQN": "categorical_double_dqn",
               "AL": "al", "PAL": "pal", "DoublePAL": "double_pal", "DPP": "dpp"}[kind]
        n = ENet("model", av)
        return mk(mod, kind, [n, o[0], buf, g, ex], batch_states=bs, recurrent=c.recurrent), n, "greedy", never
    if kind == "IQN":
        def tau2av(ip, net, x):
            return Builtin("tau2av", lambda ip, taus: AV(net, c.N, x))

        n = ENet("model", tau2av)
        return mk("iqn", "IQN", [n, o[0], buf, g, ex], batch_states=bs, recurrent=c.recurrent), n, "greedy", never
    if kind in ("DDPG", "TD3", "SoftActorCritic"):
        n = ENet("policy", pol)
        qs = [ENet("q%d" % i, None) for i in range(1 if kind == "DDPG" else 2)]
        args = [n] + qs + o[:1 + len(qs)] + [buf, g]
        if kind != "SoftActorCritic":
            args.append(ex)
        mod = {"DDPG": "ddpg", "TD3": "td3", "SoftActorCritic": "soft_actor_critic"}[kind]
        kw = dict(burnin_action_func=Never("burn-in"))
        never.append(kw["burnin_action_func"])
        if kind == "SoftActorCritic":
            kw["act_deterministically"] = c.det
        return mk(mod, kind, args, batch_states=bs, **kw), n, ("mode" if c.det else "sampled") if kind == "SoftActorCritic" else "sampled", never
    what = "mode" if c.det else "sampled"
    if kind == "A2C":
        n = ENet("model", two)
        return mk("a2c", "A2C", [n, o[0], g, p.int("num_processes")], batch_states=bs, act_deterministically=c.det), n, what, never
    if kind == "PPO":
        n = ENet("model", two)
        return mk("ppo", "PPO", [n, o[0]], obs_normalizer=Norm(), batch_states=bs, recurrent=c.recurrent, act_deterministically=c.det), n, what, never
    if kind == "TRPO":
        n = ENet("policy", pol)
        v = ENet("vf", lambda ip, net, x: T((c.N, 1), lambda i, k: net.fn("v", I, R)(num(i)), "real"))

        def both(ip, net, x):
            return (n.m___call__(ip, x), v.m___call__(ip, x))

        class Two(ENet):
            def m_eval(self, ip):
                for y in (n, v):
                    y.m_eval(ip)
                return ENet.m_eval(self, ip)

            def m_train(self, ip, mode=True):
                for y in (n, v):
                    y.m_train(ip, mode)
                return ENet.m_train(self, ip, mode)

            def m_modules(self, ip):
                return IterVal([self, Sub(self), n, Sub(n), v, Sub(v)])

        for q in ("pfrl.nn.branched.Branched", "pfrl.nn.recurrent_branched.RecurrentBranched"):
            ip.contracts[q] = lambda ip, cls, a, k: Two("model", both)
        ag = mk("trpo", "TRPO", [n, v, o[0]], obs_normalizer=Norm(), batch_states=bs, recurrent=c.recurrent, act_deterministically=c.det)
        return ag, n, what, never
    if kind == "REINFORCE":
        n = ENet("model", pol)
        return mk("reinforce", "REINFORCE", [n, o[0]], batch_states=bs, recurrent=c.recurrent, act_deterministically=c.det), n, what, never
    if kind == "A3C":
        n = ENet("model", two)
        ag = mk("a3c", "A3C", [n, o[0], p.int("t_max"), g], batch_states=bs, recurrent=c.recurrent, act_deterministically=c.det)
        return ag, ag.f["model"], what, never
    if kind == "ACER":
        n = ENet("model", three)
        ip.contracts["pfrl.utils.batch_states.batch_states"] = lambda ip, f, a, k: c.batch_states()(ip, *a, **k)
        ag = mk("acer", "ACER", [n, o[0], p.int("t_max"), g, buf], recurrent=c.recurrent, act_deterministically=c.det)
        return ag, ag.f["model"], what, never
    if kind == "StateQFunctionActor":
        n = ENet("model", av)
        pipe = Never("pipe")
        never.append(pipe)
        return mk("state_q_function_actor", kind, [pipe, n, ex], batch_states=bs, recurrent=c.recurrent), n, "greedy", never
    raise AssertionError(kind)


KEEP = {"training", "process_idx"}


def havoc(p, ag):
    """any state training can have left the agent in"""
    for k, v in list(ag.f.items()):
        if isinstance(v, bool) or k in KEEP:
            continue
        if isinstance(v, int):
            ag.f[k] = p.int(k)
        elif isinstance(v, float):
            ag.f[k] = p.real(k)
        elif v is None and ("last_" in k or k.startswith("last")):
            ag.f[k] = p.obj(k)
        elif k.startswith("train_") and "recurrent" in k:
            ag.f[k] = RS(k)
        elif isinstance(v, PyList) and isinstance(v.f["data"], list):
            n = p.int("n_" + k)
            p.assume(n >= 0)
            g = p.fn("item_" + k, I, Obj)
            v.f["data"] = SymSeq(n, lambda i, g=g: g(num(i)))


def frozen(p):
    return {u: (o, dict(o.f)) for u, o in p.objs.items()}


def same(a, b):
    if a is b:
        return True
    if is_term(a) and is_term(b):
        return a.eq(b) or (a.sort() == b.sort() and P().entails(fold(a == b)))
    if is_term(a) or is_term(b):
        c = a if is_term(b) else b
        t = b if is_term(b) else a
        if isinstance(c, bool) and t.sort() == B:
            return P().entails(t if c else z3.Not(t))
        return False
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if type(a) is not type(b) or isinstance(a, (HModel, Model, PyObj)):
        return False
    return a == b


def check_frame(p, before, ag, allowed):
    for u, (o, f) in before.items():
        if type(o).__name__ in ("Frame", "IterVal"):
            continue
        for k in set(f) | set(o.f):
            if o is ag and k in allowed:
                continue
            ok = k in f and k in o.f and same(f[k], o.f[k])
            nm = "attribute-%s-unchanged" % k if o is ag else "%s-unchanged" % (getattr(o, "name", None) or type(o).__name__)
            p.prove(ok, nm)


def u_agent(kind, recurrent, single):
    def run(ip, p):
        det = bool(p.choose(2)) if kind in ("SoftActorCritic", "A2C", "PPO", "TRPO", "REINFORCE", "A3C", "ACER") else True
        c = Cfg(p, recurrent, det, single)

        for nm in ("synchronize_parameters", "copy_param", "soft_copy_param"):
            ip.contracts["pfrl.utils.copy_param." + nm] = lambda ip, f, a, k: p.prove(not p.ghost.get("eval"), "no-parameter-changes-in-evaluation")
        ip.contracts["pfrl.utils.mode_of_distribution.mode_of_distribution"] = lambda ip, f, a, k: (a[0] if a else k["distrib"]).mode()
        held = RS("evaluation state") if p.choose(2) else None

        def osf(ip, model, x, rs):
            c.osf.append((rs, None))
            y = model.m___call__(ip, x)
            after = RS("after")
            c.osf[-1] = (rs, after)
            return (y, after)

        st = recurrent_stubs(c, osf)
        st["pfrl.utils.recurrent.mask_recurrent_state_at"] = lambda ip, f, a, k: RS("masked", (a[0],))
        ip.contracts.update(st)
        ag, net, what, never = build(ip, p, c, kind)
        havoc(p, ag)
        if recurrent:
            if "test_recurrent_states" not in ag.f:
                raise Unsupported("recurrent states")
            ag.f["test_recurrent_states"] = held
        for x in never:
            x.armed = True
        for x in list(p.objs.values()):
            if isinstance(x, nets.Net):
                x.f["training"], x.f["sub"] = p.bool(x.name + ".mode"), p.bool(x.name + ".submode")
        before = frozen(p)
        was = ip.getattr(ag, "training")
        p.ghost["eval"] = True

        def phase(ip):
            p.prove(ip.getattr(ag, "training") is False, "evaluation-mode-entered")
            if single:
                a = ip.call(ip.getattr(ag, "act"), [OBS(z3.IntVal(0))])
            else:
                acts = ip.call(ip.getattr(ag, "batch_act"), [seq(c.N, OBS, "obs")])
                a = ip.getitem(acts, c.j)
            j = num(c.j)
            if what == "greedy":
                p.prove(fold(value(a) == net.fn("greedy", I, R)(j)), "greedy-action")
            else:
                ok = isinstance(a, T) and len(a.shape) == 1
                p.prove(ok, "action-of-the-policy")
                if ok:
                    k = p.int("component")
                    p.assume(z3.And(k >= 0, k < c.D))
                    p.prove(fold(real(a.at(k)) == net.fn(what, I, I, R)(j, k)), "action-of-the-policy")
            if recurrent:
                p.prove(len(c.osf) == 1 and c.osf[0][0] is held, "network-continues-from-the-evaluation-state")
                p.prove(ag.f["test_recurrent_states"] is c.osf[0][1], "evaluation-state-kept")
            if single:
                z = z3.IntVal(0)
                ip.call(ip.getattr(ag, "observe"), [NEXT(z), REW(z), DONE(z), RESET(z)])
            else:
                ip.call(ip.getattr(ag, "batch_observe"), [seq(c.N, NEXT, "next"), seq(c.N, REW, "rew"), seq(c.N, DONE, "done"), seq(c.N, RESET, "reset")])

        ip.call(ip.get_func("verif_evaluation", "around"), [ag, Builtin("body", phase)])
        p.prove(same(ip.getattr(ag, "training"), was), "training-mode-restored")
        check_frame(p, before, ag, {"test_recurrent_states", "training"})

    return run


def value(x):
    if isinstance(x, T):
        return real(x.at()) if not x.shape else real(x.at(0))
    return real(x)


def u_mode(ip, p):
    """eval_mode: restores the mode it found, whatever happens inside"""
    cls = ip.get_class("pfrl.agents.dqn", "DQN")
    for fn, n, fails in (("nothing", 1, False), ("failing", 1, True), ("nested", 2, False), ("leave_early", 1, False)):
        o = PyObj(cls, "agent")
        m = p.bool("mode")
        o.f["training"] = m
        seen = []
        f = ip.get_func("verif_evaluation", fn)
        try:
            ip.call(f, [o, Builtin("seen", lambda ip, x: seen.append(x))])
            p.prove(not fails, fn + ".exceptions-reach-the-caller")
        except PyExc as e:
            p.prove(fails and e.value.cls.name == "RuntimeError", fn + ".exceptions-reach-the-caller")
        p.prove(len(seen) == n and all(x is False for x in seen), fn + ".evaluation-inside")
        p.prove(same(o.f["training"], m), fn + ".mode-restored")


def u_evaluating(ip, p):
    """evaluating: every module in evaluation mode inside, as it was afterwards"""
    for fn, fails in (("within", False), ("within_failing", True)):
        n = ENet("net", None)
        n.f["training"] = p.bool("mode")
        before = dict(n.f)
        seen = []

        def body(ip):
            p.prove(fold(z3.Not(z3.Or(b_(n.f["training"]), b_(n.f["sub"])))), fn + ".evaluation-inside")
            seen.append(1)

        try:
            ip.call(ip.get_func("verif_evaluation", fn), [n, Builtin("body", body)])
            p.prove(not fails, fn + ".exceptions-reach-the-caller")
        except PyExc as e:
            p.prove(fails and e.value.cls.name == "RuntimeError", fn + ".exceptions-reach-the-caller")
        p.prove(len(seen) == 1, fn + ".body-runs")
        p.prove(all(same(before[k], n.f[k]) for k in before), fn + ".every-mode-restored")


def units(tier):
    ext = nets.agent_ext()
    ext["logging.getLogger"] = Builtin("getLogger", lambda ip, *a: Logger())
    ext["torch.nn.ModuleList"] = Builtin("ModuleList", lambda ip, xs: EList(list(ip.iterate(xs))))
    us = [Unit("eval_mode", u_mode, ext=dict(ext)), Unit("evaluating", u_evaluating, ext=dict(ext))]
    serial = ("REINFORCE", "A3C", "ACER", "StateQFunctionActor")
    rec = ("DQN", "DoubleDQN", "IQN", "PPO", "TRPO") + serial
    for kind in ("DQN", "DoubleDQN", "CategoricalDQN", "CategoricalDoubleDQN", "IQN", "AL", "PAL", "DoublePAL", "DPP", "DDPG", "TD3",
                 "SoftActorCritic", "A2C", "PPO", "TRPO") + serial:
        for r in ((False, True) if kind in rec else (False,)):
            for single in ((True,) if kind in serial else (False, True)):
                nm = kind + ("[recurrent]" if r else "") + ("" if single is (kind in serial) else "[one environment]")
                us.append(Unit(nm, u_agent(kind, r, single), ext=dict(ext)))
    return us
