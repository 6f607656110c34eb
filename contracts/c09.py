"""C09: off-policy agents record every transition once and update on schedule.

One act/observe cycle of N environments from an arbitrary step count, for one
arbitrary environment j; the replay buffer, the explorer and the update function are
monitors that prove at every call that it is the one the property asks for.  The real
constructors, batch_act, batch_observe, ReplayUpdater and their helpers are executed;
the networks are arbitrary functions."""
import z3

from pydv import seqs
from pydv.interp import exc
from pydv.tensor import T
from pydv.unit import Unit
from pydv.values import (
    NONE, Builtin, HModel, Model, Obj, Opaque, P, PyDict, PyExc, PyList, SymSeq, Unsupported, fold, is_term, num, real,
)
from . import nets
from .loops import Event, Logger, Not, b_
from .nets import Net, Optim

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()

TRUSTED = [
    "networks, explorers, burn-in functions and batch_states are arbitrary functions; torch as in C16",
    "the replay buffer by its contract (C01-C06): append, stop_current_episode, sample, sample_episodes, len, n_episodes",
    "recurrent state helpers by their contracts (C20); synchronize_parameters by its contract (C22)",
]
ASSUMPTIONS = [
    "agents are used through the protocol of C10: batch_act before each batch_observe, same environments",
    "update intervals positive; machine integers as integers",
]
BOUNDED = [
    "actor-learner training with real processes and pipes is covered by contracts on its functions, not end to end",
]

_OBS = z3.Function("observation", I, Obj)
NEXT = z3.Function("next_observation", I, Obj)
REW = z3.Function("reward", I, R)
DONE = z3.Function("done", I, B)
RESET = z3.Function("reset", I, B)
_EXPLORED = z3.Function("explored", R, Obj)


def some(t):
    """observations and actions are not None"""
    P().assume(t != NONE)
    return t


def OBS(i):
    return some(_OBS(num(i)))


def EXPLORED(v):
    return some(_EXPLORED(v))


def ended(i):
    return z3.Or(DONE(num(i)), RESET(num(i)))


class AV(Model):
    """action value of N states"""

    def __init__(self, net, n, x):
        self.net, self.n, self.x = net, n, x

    def p_greedy_actions(self, ip):
        f = self.net.fn("greedy", I, R)
        return T((self.n,), lambda i: f(num(i)), "real")

    def getitem(self, ip, i):
        return Opaque("action value of one environment")

    def length(self, ip):
        return self.n


class Rows(Model):
    """distribution of N actions"""

    def __init__(self, net, n, d):
        self.net, self.n, self.d = net, n, d

    def m_sample(self, ip):
        f = self.net.fn("sampled", I, I, R)
        return T((self.n, self.d), lambda i, k: f(num(i), num(k)), "real")


class PNet(Net):
    def m_parameters(self, ip):
        return seqs_iter([Param()])

    def deepcopy(self, ip):
        n = PNet(self.name + "'", self.out, self.f["training"], src=self)
        return n


class Param(Model):
    def p_device(self, ip):
        return Opaque("device")


def seqs_iter(xs):
    from pydv.interp import IterVal

    return IterVal(xs)


def value(x):
    """the number that identifies a greedy action"""
    if isinstance(x, T):
        if len(x.shape) == 0:
            return real(x.at())
        if len(x.shape) == 1:
            return real(x.at(0))
        raise Unsupported("greedy action %r" % (x.shape,))
    return real(x)


class Expl(HModel):
    ghost = True

    def __init__(self, agent_t):
        HModel.__init__(self, "explorer")
        self.t = agent_t

    def m_select_action(self, ip, t, greedy_action_func, action_value=None):
        p = P()
        p.prove_eq(t, self.t, "explorer-gets-the-step-count")
        return EXPLORED(value(ip.call(greedy_action_func, [])))


class Sampled(Model):
    """what the buffer returned"""

    def __init__(self, kind, k, n, ml):
        self.kind, self.k, self.n, self.ml = kind, k, n, ml

    def truth(self, ip):
        raise Unsupported("truth of a sample")


class Buf(HModel):
    """replay buffer seen from one environment j"""

    ghost = True

    def __init__(self, p, N, j, w):
        HModel.__init__(self, "replay_buffer")
        self.N, self.j, self.w = N, j, w
        self.len0, self.nep0 = p.int("len0"), p.int("nep0")
        p.assume(z3.And(self.len0 >= 0, self.nep0 >= 0))
        self.LA, self.LS, self.NA, self.NS = (p.fn(x, I, I) for x in ("lenA", "lenS", "nepA", "nepS"))
        self.f.update(app=0, stop=0, tot=0, len=self.len0, nep=self.nep0, upd=0, sync=0, draws=0)
        self.acts = None

    def isinstance_(self, ip, t):
        nm = getattr(t, "name", "")
        if nm == "AbstractEpisodicReplayBuffer":
            return self.w.recurrent
        return nm in ("AbstractReplayBuffer", "ReplayBuffer")

    def p_capacity(self, ip):
        return None

    def length(self, ip):
        return self.f["len"]

    def p_n_episodes(self, ip):
        return self.f["nep"]

    def m_append(self, ip, state, action, reward, next_state=None, next_action=None,
                 is_state_terminal=False, env_id=0, **extra):
        p, w, j = P(), self.w, num(self.j)
        p.prove(fold(z3.And(num(env_id) >= 0, num(env_id) < num(self.N))), "recorded-under-an-environment")
        if p.decide(fold(num(env_id) == j)):
            p.prove_eq(state, OBS(j), "state-is-the-observation-acted-on")
            p.prove_eq(action, w.act_at(j), "action-is-the-one-chosen")
            p.prove_eq(reward, REW(j), "reward-observed")
            p.prove_eq(next_state, NEXT(j), "next-state-observed")
            p.prove(fold(b_(ip.truth_t(is_state_terminal)) == DONE(j)), "terminal-iff-done")
            p.prove(next_action is None, "no-next-action")
            p.prove(fold(num(self.f["app"]) == 0), "recorded-once")
            p.prove(fold(num(self.f["stop"]) == 0), "recorded-before-its-episode-is-closed")
            w.check_extra(ip, p, extra)
            self.set("app", seqs.add(self.f["app"], 1))
        self.set("tot", seqs.add(self.f["tot"], 1))
        self.set("len", self.LA(num(self.f["tot"])))
        self.set("nep", self.NA(num(self.f["tot"])))

    def m_stop_current_episode(self, ip, env_id=0):
        p = P()
        if p.decide(fold(num(env_id) == num(self.j))):
            p.prove(fold(ended(self.j)), "episode-closed-only-when-done-or-reset")
            p.prove(fold(num(self.f["app"]) == 1), "last-transition-recorded-before-the-episode-is-closed")
            p.prove(fold(num(self.f["stop"]) == 0), "episode-closed-once")
            self.set("stop", seqs.add(self.f["stop"], 1))
        self.set("len", self.LS(num(self.f["tot"])))
        self.set("nep", self.NS(num(self.f["tot"])))

    def m_sample(self, ip, n):
        P().prove(not self.w.recurrent, "sampled-by-transition")
        return self.draw("transitions", n, None)

    def m_sample_episodes(self, ip, n_episodes, max_len=None):
        P().prove(self.w.recurrent, "sampled-by-episode")
        return self.draw("episodes", n_episodes, max_len)

    def draw(self, kind, n, ml):
        P().prove_eq(n, self.w.batchsize, "minibatch-size")
        self.set("draws", seqs.add(self.f["draws"], 1))
        return Sampled(kind, self.f["draws"], n, ml)

    def updated(self, ip, sample):
        p = P()
        ok = isinstance(sample, Sampled)
        p.prove(ok, "update-from-a-sample-of-the-buffer")
        if ok:
            p.prove_eq(sample.k, self.f["draws"], "each-update-from-a-new-sample")
            if sample.kind == "episodes":
                p.prove_eq(sample.ml, self.w.maxlen, "episode-length-limit")
        self.set("upd", seqs.add(self.f["upd"], 1))

    # ---- specification -----------------------------------------------------------
    def len_at(self, k):
        """stored when the first k environments of this cycle have been recorded"""
        k = num(k)
        return z3.If(k == 0, self.len0, z3.If(ended(k - 1), self.LS(k), self.LA(k)))

    def nep_at(self, k):
        k = num(k)
        return z3.If(k == 0, self.nep0, z3.If(ended(k - 1), self.NS(k), self.NA(k)))


class World:
    """configuration of an agent; the definition of its schedule"""

    def __init__(self, p, recurrent=False, target=True):
        self.recurrent = recurrent
        self.N, self.j = p.int("num_envs"), p.int("env")
        p.assume(z3.And(self.N >= 1, self.j >= 0, self.j < self.N))
        if p.unit.mode == "bmc":
            self.N = p.expand(self.N)
            self.j = p.expand(self.j)
        self.batchsize, self.start = p.int("minibatch_size"), p.int("replay_start_size")
        self.U, self.T, self.times = p.int("update_interval"), p.int("target_update_interval"), p.int("n_times_update")
        p.assume(z3.And(self.batchsize >= 1, self.batchsize <= self.start, self.U >= 1, self.T >= 1, self.times >= 0))
        if p.unit.mode == "bmc":
            self.times = p.expand(self.times)
        p.assume(mod(self.T, self.U) == 0)
        self.maxlen = p.int("episodic_update_len") if recurrent else None
        self.t0 = p.int("t0")
        p.assume(self.t0 >= 0)
        self.target = target
        self.UPD, self.SYN = p.fn("updates", I, I), p.fn("syncs", I, I)
        self.buf = Buf(p, self.N, self.j, self)
        p.assume(z3.And(self.UPD(z3.IntVal(0)) == 0, self.SYN(z3.IntVal(0)) == 0))
        p.ghost["w"] = self
        if not is_term(self.N):
            for i in range(self.N):
                p.assume(self.step_def(i))
        self.actions = None
        self.states = None

    def step(self, k):
        return fold(num(self.t0) + num(k))

    def due(self, k):
        """an update is due once the first k environments of the cycle were recorded"""
        c = [self.buf.len_at(k) >= num(self.start), mod(self.step(k), self.U) == 0]
        if self.recurrent:
            c.append(self.buf.nep_at(k) >= num(self.batchsize))
        return z3.And(*c)

    def step_def(self, k):
        k1 = fold(num(k) + 1)
        return z3.And(
            self.UPD(k1) == self.UPD(num(k)) + z3.If(self.due(k1), num(self.times), 0),
            self.SYN(k1) == self.SYN(num(k)) + z3.If(mod(self.step(k1), self.T) == 0, 1, 0))

    def act_at(self, j):
        return seqs.seq_at(self.actions, j) if not isinstance(self.actions, T) else self.ip.getitem(self.actions, j)

    def check_extra(self, ip, p, extra):
        if not self.recurrent:
            return
        before, after = self.states
        for key, tok in (("recurrent_state", before), ("next_recurrent_state", after)):
            v = extra.get(key)
            if tok is None:
                p.prove(v is None, key + ".none-before-the-first-step")
                continue
            ok = isinstance(v, At) and v.np
            p.prove(ok, key + ".recorded-as-array")
            if ok:
                p.prove(v.tok is tok, key + ".of-this-step")
                p.prove_eq(v.i, self.j, key + ".of-this-environment")


class At(Model):
    def __init__(self, tok, i, np=False):
        self.tok, self.i, self.np = tok, i, np


class RS(Model):
    """recurrent state of the batch"""

    def __init__(self, name, why=None):
        self.name, self.why = name, why

    def isinstance_(self, ip, t):
        raise Unsupported("structure of a recurrent state")


def recurrent_stubs(w, osf):
    def names(f, args, kw):
        d = dict(zip([a.arg for a in f.node.args.args], args))
        d.update(kw)
        return d

    def get(ip, f, args, kw):
        d = names(f, args, kw)
        if d["recurrent_state"] is None:
            return None
        return At(d["recurrent_state"], d["indices"])

    def np_(ip, f, args, kw):
        x = args[0] if args else kw["recurrent_state"]
        return None if x is None else At(x.tok, x.i, True)

    def osf_(ip, f, args, kw):
        return osf(ip, *args, **kw)

    def reset(ip, f, args, kw):
        d = names(f, args, kw)
        return RS("reset", (d["recurrent_states"], d["batch_done"], d["batch_reset"]))

    return {
        "pfrl.utils.recurrent.get_recurrent_state_at": get,
        "pfrl.utils.recurrent.recurrent_state_as_numpy": np_,
        "pfrl.utils.recurrent.one_step_forward": osf_,
        "pfrl.agents.dqn._batch_reset_recurrent_states_when_episodes_end": reset,
    }


MOD = z3.Function("mod", I, I, I)


def mod(a, b):
    if P().unit.mode == "bmc":
        return fold(num(a) % num(b))
    return MOD(fold(num(a)), num(b))


class CycleUnit(Unit):
    concrete = False

    def unroll(self, key, ip, fr):
        return 5 if self.concrete else Unit.unroll(self, key, ip, fr)

    bmc_bound = 2

    def mod(self, ip, a, b):
        # the remainder itself does not matter, only whether it is zero at the same
        # steps: uninterpreted here, exact when an obligation is to be refuted
        return mod(a, b)

    def loop_preds(self, ctx, k):
        p = P()
        w = p.ghost.get("w")
        if w is None or w.buf is None:
            return {}
        b = w.buf
        f, j = b.f, num(w.j)
        out = {}

        def if_in(field, nm, t):
            if (b.uid, field) in ctx.init:
                out[nm] = t

        if_in("app", "app", lambda: fold(num(f["app"]) == z3.If(j < num(k), 1, 0)))
        if_in("stop", "stop", lambda: fold(num(f["stop"]) == z3.If(z3.And(j < num(k), ended(j)), 1, 0)))
        if_in("len", "len", lambda: fold(num(f["len"]) == b.len_at(k)))
        if_in("nep", "nep", lambda: fold(num(f["nep"]) == b.nep_at(k)))
        if_in("upd", "upd", lambda: fold(num(f["upd"]) == w.UPD(num(k))))
        if_in("sync", "sync", lambda: fold(num(f["sync"]) == w.SYN(num(k))))
        return out

    def loop_assume(self, ctx, k):
        w = P().ghost.get("w")
        return [w.step_def(k)] if w is not None and w.buf is not None else []

    def loop_anchors(self, ctx, k, loc):
        p = P()
        w = p.ghost.get("w")
        o = p.objs.get(loc[0])
        iv = ctx.init.get(loc)
        if w is None or not isinstance(o, PyList) or loc[1] != "data" or not isinstance(iv, (list, SymSeq)):
            return {}

        def cleared():
            def at(i):
                gone = fold(z3.And(num(i) < num(k), ended(i)))
                x = seqs.seq_at(iv, i)
                if is_term(x) and x.sort() == Obj:
                    return fold(z3.If(gone, NONE, x))
                return None if p.decide(gone) else x

            return SymSeq(seqs.seq_len(iv), at)

        return {"cleared": cleared, "same": lambda: iv}


def seq(n, f, nm):
    return PyList(SymSeq(n, lambda i: f(num(i)), True), nm)


def with_t(ag, w):
    """any step count"""
    if "t" not in ag.f:
        raise Unsupported("the agent has no step count t")
    ag.f["t"] = w.t0
    w.buf.f["sync"] = 0  # what the constructor did is C22


def cycle(ip, p, w, ag, expect):
    """batch_act, then batch_observe"""
    p.prove(ag.f.get("training", True) is True, "training-mode")
    w.ip = ip
    obs = seq(w.N, OBS, "obs")
    acts = ip.call(ip.getattr(ag, "batch_act"), [obs])
    data = acts.f["data"] if isinstance(acts, PyList) else acts
    if isinstance(acts, T):
        n = acts.shape[0]
    else:
        n = seqs.seq_len(data)
    p.prove(fold(num(n) == num(w.N)), "one-action-per-environment")
    w.actions = acts if isinstance(acts, T) else data
    expect(ip, p, w.act_at(w.j))
    nobs, rs = seq(w.N, NEXT, "next_obs"), seq(w.N, REW, "rewards")
    ds, zs = seq(w.N, DONE, "dones"), seq(w.N, RESET, "resets")
    w.flags = (ds, zs)
    # the caller owns the list it got: what it does to it later does not matter
    if isinstance(acts, PyList) and isinstance(acts.f["data"], SymSeq):
        junk = p.fn("junk", I, Obj)
        acts.set("data", SymSeq(w.N, lambda i: junk(num(i))))
    obs.set("data", SymSeq(w.N, lambda i: z3.Function("later", I, Obj)(num(i))))
    ip.call(ip.getattr(ag, "batch_observe"), [nobs, rs, ds, zs])
    f, j = w.buf.f, num(w.j)
    p.prove_eq(f["app"], 1, "one-transition-per-environment-and-step")
    p.prove(fold(num(f["stop"]) == z3.If(ended(j), 1, 0)), "episode-closed-exactly-when-done-or-reset")
    p.prove_eq(f["tot"], w.N, "as-many-transitions-as-environments")
    p.prove(fold(num(f["upd"]) == w.UPD(num(w.N))), "updates-exactly-on-schedule")
    if w.target:
        p.prove(fold(num(f["sync"]) == w.SYN(num(w.N))), "target-synchronised-exactly-on-schedule")
    p.prove(fold(num(ag.f["t"]) == num(w.t0) + num(w.N)), "one-step-counted-per-environment")


def stubs(ip, w, update, sync=True):
    ip.contracts.update({"pfrl.utils.clip_l2_grad_norm.clip_l2_grad_norm_": lambda ip, f, a, k: None})

    def upd(ip, f, args, kw):
        w.buf.updated(ip, args[1] if len(args) > 1 else list(kw.values())[0])

    for q in update:
        ip.contracts[q] = upd

    def syn(ip, f, args, kw):
        b = w.buf
        if "src" not in kw:
            kw = dict(zip([a.arg for a in f.node.args.args], args), **kw)
        s, d = kw["src"], kw["dst"]
        P().prove(getattr(d, "src", None) is s or isinstance(s, nets.ModuleList), "target-follows-its-own-network")
        b.set("sync", seqs.add(b.f["sync"], 1))

    ip.contracts["pfrl.utils.copy_param.synchronize_parameters"] = syn


def mkstates(w):
    def bs(ip, obs, device, phi):
        p = P()
        p.prove_eq(obs, SymSeq(w.N, lambda i: OBS(num(i))), "networks-see-the-observations")
        return nets.Tok("xs", w.N)

    return Builtin("batch_states", bs)


def u_dqn(recurrent, first):
    def run(ip, p):
        w = World(p, recurrent)

        def out(ip, net, x, rs=None):
            return AV(net, w.N, x)

        net = Net("model", out)
        stubs(ip, w, ["pfrl.agents.dqn.DQN.update_from_episodes" if recurrent else "pfrl.agents.dqn.DQN.update"])
        ex = Expl(w.t0)
        kw = dict(recurrent=recurrent, replay_start_size=w.start, minibatch_size=w.batchsize, update_interval=w.U,
                  target_update_interval=w.T, n_times_update=w.times, batch_states=mkstates(w))
        if recurrent:
            kw["episodic_update_len"] = w.maxlen

            def osf(ip, model, x, rs):
                p.prove(model is net, "acts-with-the-learned-network")
                after = RS("after")
                w.states = (rs, after)
                return (AV(net, w.N, x), after)

            ip.contracts.update(recurrent_stubs(w, osf))
        ag = ip.call(ip.get_class("pfrl.agents.dqn", "DQN"), [net, Optim(net), w.buf, p.real("gamma"), ex], kw)
        with_t(ag, w)
        before = None
        if recurrent and not first:
            before = RS("before")
            ag.f["train_recurrent_states"] = before
        c0 = ag.f.get("_cumulative_steps")
        g = net.fn("greedy", I, R)
        cycle(ip, p, w, ag, lambda ip, p, a: p.prove_eq(a, EXPLORED(g(num(w.j))), "action-explored-from-this-environments-greedy-action"))
        if c0 is not None:
            p.prove(fold(num(ip.getattr(ag, "cumulative_steps")) == num(c0) + num(w.N)), "cumulative-steps-counted")
        if recurrent:
            p.prove(w.states is not None and w.states[0] is before, "network-continues-from-the-training-state")
            s = ag.f["train_recurrent_states"]
            ok = isinstance(s, RS) and s.why is not None and s.why[0] is w.states[1]
            p.prove(ok, "next-state-is-this-steps-with-ended-episodes-cleared")
            if ok:
                for x, fn in ((s.why[1], DONE), (s.why[2], RESET)):
                    p.prove_eq(x.f["data"] if isinstance(x, PyList) else x, SymSeq(w.N, lambda i: fn(num(i))), "cleared-by-the-observed-flags")

    return run


def u_ac(mod, cls, nq, burnin, explorer, target):
    def run(ip, p):
        w = World(p, False, target)
        D = p.int("D")
        p.assume(D >= 1)
        pol = Net("policy", lambda ip, net, x: Rows(net, w.N, D))
        qs = [Net("q%d" % i, lambda ip, net, x: Unsupported("q")) for i in range(nq)]
        path = "pfrl.agents." + mod
        stubs(ip, w, [path + "." + cls + ".update"])
        kw = dict(replay_start_size=w.start, minibatch_size=w.batchsize, update_interval=w.U,
                  batch_states=mkstates(w))
        if cls != "SoftActorCritic":
            kw["n_times_update"] = w.times
        if cls == "DDPG":
            kw["target_update_interval"] = w.T
        if not explorer:
            p.assume(w.times == 1)
            w.times = 1
        burn = some(p.obj("burnin_action"))
        if burnin:
            kw["burnin_action_func"] = Builtin("burnin", lambda ip: burn)
        args = [pol] + qs + [Optim(pol)] + [Optim(q) for q in qs] + [w.buf, p.real("gamma")]
        if explorer:
            args.append(Expl(w.t0))
        ag = ip.call(ip.get_class(path, cls), args, kw)
        with_t(ag, w)
        n = p.int("n_updates")
        p.assume(n >= 0)
        nm = {"DDPG": "n_updates", "TD3": "policy_n_updates", "SoftActorCritic": "n_policy_updates"}[cls]
        if nm not in ag.f:
            raise Unsupported("update counter")
        ag.f[nm] = n
        f = pol.fn("sampled", I, I, R)

        def expect(ip, p, a):
            if burnin and p.decide(n == 0):
                p.prove_eq(a, burn, "burn-in-action-before-the-first-update")
                return
            if explorer:
                p.prove_eq(a, EXPLORED(f(num(w.j), z3.IntVal(0))), "action-explored-from-this-environments-own")
                return
            ok = isinstance(a, T) and len(a.shape) == 1
            p.prove(ok, "action-sampled-from-the-policy")
            if ok:
                k = p.int("c")
                p.assume(z3.And(k >= 0, k < D))
                p.prove(fold(real(a.at(k)) == f(num(w.j), k)), "action-sampled-for-this-environment")

        cycle(ip, p, w, ag, expect)

    return run


def u_updater(recurrent):
    """ReplayUpdater.update_if_necessary on any buffer"""

    def run(ip, p):
        w = World(p, recurrent)
        calls = Builtin("update_func", lambda ip, s: w.buf.updated(ip, s))
        o = ip.call(ip.get_class("pfrl.replay_buffer", "ReplayUpdater"), [], dict(
            replay_buffer=w.buf, update_func=calls, batchsize=w.batchsize, episodic_update=recurrent,
            episodic_update_len=w.maxlen, n_times_update=w.times, replay_start_size=w.start, update_interval=w.U))
        t = p.int("iteration")
        p.assume(t >= 0)
        r = ip.call(ip.getattr(o, "update_if_necessary"), [t])
        c = [w.buf.len0 >= num(w.start), mod(t, w.U) == 0]
        if recurrent:
            c.append(w.buf.nep0 >= num(w.batchsize))
        due = z3.And(*c)
        p.prove(fold(num(w.buf.f["upd"]) == z3.If(due, num(w.times), 0)), "updated-exactly-when-due")
        p.prove(fold(b_(ip.truth_t(r)) == due), "tells-whether-it-updated")

    return run


# ---- schedule of the delayed target updates --------------------------------------
def u_td3_delay(ip, p):
    from . import c16

    D = p.int("D")
    p.assume(D >= 1)
    w = c16.World(p, action_dim=D)
    pol = Net("policy", nets.policy(w.B, D))
    q1, q2 = Net("q1", nets.q_pair(w.B)), Net("q2", nets.q_pair(w.B))
    ip.contracts.update(c16.stubs(w))
    po, o1, o2 = Optim(pol), Optim(q1), Optim(q2)
    syncs = []

    def syn(ip, f, a, k):
        if "src" not in k:
            k = dict(zip([x.arg for x in f.node.args.args], a), **k)
        syncs.append((k["src"], k["dst"], len(po.f["steps"])))

    ip.contracts["pfrl.utils.copy_param.synchronize_parameters"] = syn
    d, n = p.int("policy_update_delay"), p.int("updates_so_far")
    p.assume(z3.And(d >= 1, n >= 0))
    ag = ip.call(ip.get_class("pfrl.agents.td3", "TD3"), [pol, q1, q2, po, o1, o2, nets.Buffer(), w.gamma, Opaque("explorer")],
                 dict(target_policy_smoothing_func=Builtin("smooth", lambda ip, a: a), policy_update_delay=d))
    if "q_func_n_updates" not in ag.f:
        raise Unsupported("update counter")
    ag.f["q_func_n_updates"] = n
    c16.run_update(ip, p, w, ag)
    due = mod(n + 1, d) == 0
    p.prove(fold(b_(len(po.f["steps"]) == 1) == due), "policy-updated-every-delay-th-update")
    p.prove(len(po.f["steps"]) <= 1, "policy-updated-at-most-once")
    p.prove(fold(b_(len(syncs) == 3) == due), "targets-synchronised-with-the-policy-update")
    p.prove(len(syncs) in (0, 3), "all-targets-synchronised-together")
    p.prove(all(dst.src is src for src, dst, _ in syncs) and len({s.uid for s, _, _ in syncs}) == len(syncs),
            "each-target-follows-its-own-network")
    p.prove(all(k == 1 for _, _, k in syncs), "targets-follow-the-updated-networks")
    p.prove(fold(num(ag.f["q_func_n_updates"]) == n + 1), "critic-update-counted")


# ---- actors ---------------------------------------------------------------------
class Pipe(HModel):
    """the actor's end of the pipe"""

    ghost = True

    def __init__(self, w):
        HModel.__init__(self, "pipe")
        self.w = w
        self.sent = []
        self.waiting = False

    def m_send(self, ip, msg):
        P().prove(not self.waiting, "reply-read-before-the-next-request")
        msg = ip.iterate(msg)
        if not isinstance(msg, list) or len(msg) != 2:
            raise Unsupported("message %r" % (msg,))
        self.sent.append((msg[0], msg[1]))
        if msg[0] != "transition":
            self.waiting = True

    def m_recv(self, ip):
        P().prove(self.waiting, "no-reply-expected")
        self.waiting = False
        return Opaque("reply")


def u_actor(recurrent, first):
    def run(ip, p):
        w = World(p, recurrent)
        w.j = 0
        net = PNet("model", lambda ip, net, x: AV(net, 1, x))
        pipe = Pipe(w)
        ex = Expl(w.t0)

        def bs(ip, obs, device, phi):
            xs = ip.iterate(obs)
            p.prove(isinstance(xs, list) and len(xs) == 1, "one-observation")
            p.prove_eq(xs[0], OBS(z3.IntVal(0)), "network-sees-the-observation")
            return nets.Tok("xs", 1)

        before = None
        if recurrent:
            def osf(ip, model, x, rs):
                after = RS("after")
                w.states = (rs, after)
                return (AV(net, 1, x), after)

            ip.contracts.update(recurrent_stubs(w, osf))
        ag = ip.call(ip.get_class("pfrl.agents.state_q_function_actor", "StateQFunctionActor"), [pipe, net, ex],
                     dict(recurrent=recurrent, batch_states=Builtin("batch_states", bs)))
        with_t(ag, w)
        if recurrent and not first:
            before = RS("before")
            ag.f["train_recurrent_states"] = before
        z = z3.IntVal(0)
        a = ip.call(ip.getattr(ag, "act"), [OBS(z)])
        p.prove_eq(a, EXPLORED(net.fn("greedy", I, R)(z)), "action-explored-from-the-greedy-action")
        p.prove(not pipe.sent, "nothing-sent-while-acting")
        d, r = DONE(z), RESET(z)
        ip.call(ip.getattr(ag, "observe"), [NEXT(z), REW(z), d, r])
        tr = [m for k, m in pipe.sent if k == "transition"]
        st = [m for k, m in pipe.sent if k == "stop_episode"]
        p.prove(len(tr) == 1 and isinstance(tr[0], PyDict), "one-transition-sent-per-step")
        p.prove(len(pipe.sent) == len(tr) + len(st), "nothing-else-sent")
        p.prove(fold(b_(len(st) == 1) == ended(0)) if len(st) <= 1 else False, "episode-closed-exactly-when-done-or-reset")
        p.prove(not st or pipe.sent[-1][0] == "stop_episode", "episode-closed-after-its-last-transition")
        p.prove(not pipe.waiting, "reply-read")
        p.prove(fold(num(ag.f["t"]) == num(w.t0) + 1), "one-step-counted")
        if len(tr) == 1 and isinstance(tr[0], PyDict):
            e = tr[0].f["data"]
            p.prove_eq(e.get("state"), OBS(z), "state-is-the-observation-acted-on")
            p.prove_eq(e.get("action"), a, "action-is-the-one-chosen")
            p.prove_eq(e.get("reward"), REW(z), "reward-observed")
            p.prove_eq(e.get("next_state"), NEXT(z), "next-state-observed")
            p.prove(fold(b_(ip.truth_t(e.get("is_state_terminal"))) == d), "terminal-iff-done")
            p.prove(all(x is None for x in st) and "env_id" not in e, "filed-under-the-actors-own-environment")
            if recurrent:
                p.prove(w.states is not None and w.states[0] is before, "network-continues-from-the-training-state")
                w.check_extra(ip, p, {k: v for k, v in e.items()})
                s = ag.f["train_recurrent_states"]
                if p.decide(ended(0)):
                    p.prove(s is None, "state-cleared-when-the-episode-ends")
                else:
                    p.prove(s is w.states[1], "state-kept-within-an-episode")

    return run


class Inbox(HModel):
    """the learner's end: one pending message, then nothing"""

    ghost = True

    def __init__(self, msgs):
        HModel.__init__(self, "inbox")
        self.msgs = list(msgs)
        self.sent = []

    def p_closed(self, ip):
        return False

    def m_poll(self, ip, *a):
        return bool(self.msgs)

    def m_recv(self, ip):
        return self.msgs.pop(0)

    def m_send(self, ip, x):
        self.sent.append(x)

    def m_close(self, ip):
        return None


class PLock(HModel):
    ghost = True

    def __init__(self):
        HModel.__init__(self, "lock")
        self.f["held"] = False

    def m___enter__(self, ip):
        self.set("held", True)
        return True

    def m___exit__(self, ip, *a):
        self.set("held", False)
        return None

    m_acquire = m___enter__
    m_release = m___exit__


class RawBuf(HModel):
    ghost = True

    def __init__(self, lock):
        HModel.__init__(self, "replay_buffer")
        self.lock = lock
        self.ev = []

    def guard(self, what):
        P().prove(self.lock is None or self.lock.f["held"], what + "-under-the-buffer-lock")

    def m_append(self, ip, **kw):
        self.guard("append")
        self.ev.append(("append", kw))

    def m_stop_current_episode(self, ip, env_id=0):
        self.guard("stop")
        self.ev.append(("stop", env_id))

    def length(self, ip):
        self.guard("len")
        return P().int("len")

    def p_capacity(self, ip):
        return None

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") in ("AbstractReplayBuffer", "ReplayBuffer", "AbstractEpisodicReplayBuffer")


def dqn(ip, p, buf, **kw):
    net = PNet("model", lambda ip, net, x: AV(net, 1, x))
    return net, ip.call(ip.get_class("pfrl.agents.dqn", "DQN"), [net, Optim(net), buf, p.real("gamma"), Opaque("explorer")], kw)


def u_poll(ip, p):
    """the learner files what an actor sends under the actor's index"""
    lock = PLock()
    buf = RawBuf(lock)
    net, ag = dqn(ip, p, buf)
    i = p.int("actor")
    kind = p.choose(4)
    e = dict(state=p.obj("s"), action=p.obj("a"), reward=p.real("r"), next_state=p.obj("s2"), is_state_terminal=p.bool("d"))
    tr = PyDict(dict(e), "transition")
    msgs = [[("transition", tr)], [("stop_episode", None)], [("transition", tr), ("stop_episode", None)],
            [("get_statistics", None)]][kind]
    box = Inbox(msgs)
    ev = Event()
    ip.contracts["pfrl.agents.dqn.DQN.get_statistics"] = lambda ip, f, a, k: Opaque("stats")
    ev.m_is_set = lambda ip: False
    c0 = ag.f.get("_cumulative_steps")
    ip.call(ip.getattr(ag, "_poll_pipe"), [i, box, lock, ev])
    want = [m for m, _ in msgs]
    p.prove([x for x, _ in buf.ev] == [{"transition": "append", "stop_episode": "stop"}[m] for m in want if m != "get_statistics"],
            "every-message-handled-once-in-order")
    for what, x in buf.ev:
        if what == "append":
            for k, v in e.items():
                p.prove_eq(x.get(k), v, "transition-stored-as-sent")
            p.prove_eq(x.get("env_id"), i, "filed-under-the-actor")
        else:
            p.prove_eq(x, i, "episode-of-the-actor-closed")
    p.prove(len(box.sent) == sum(m != "transition" for m in want), "one-reply-per-request")
    if c0 is not None:
        p.prove(fold(num(ip.getattr(ag, "cumulative_steps")) == num(c0) + sum(m == "transition" for m in want)), "steps-counted")
    p.prove(not lock.f["held"], "lock-released")


# ---- the learner's loop -----------------------------------------------------------
class LearnMon(HModel):
    """updates made so far by the learner"""

    ghost = True

    def __init__(self):
        HModel.__init__(self, "learner")
        self.f.update(upd=0, sync=0, share=0, bumps=0, fresh=False)


class LearnBuf(Model):
    def __init__(self, w, lock, mon):
        self.w, self.lock, self.mon = w, lock, mon
        self.last = None

    def isinstance_(self, ip, t):
        nm = getattr(t, "name", "")
        if nm == "AbstractEpisodicReplayBuffer":
            return self.w.recurrent
        return nm in ("AbstractReplayBuffer", "ReplayBuffer")

    def p_capacity(self, ip):
        return None

    def length(self, ip):
        self.n = P().int("len")      # actors append at any time
        return self.n

    def p_n_episodes(self, ip):
        self.ne = P().int("n_episodes")
        return self.ne

    def draw(self, kind, n, ml):
        p = P()
        p.prove(self.lock.f["held"], "sampled-under-the-buffer-lock")
        p.prove_eq(n, self.w.batchsize, "minibatch-size")
        p.prove(getattr(self, "n", None) is not None and p.entails(self.n >= num(self.w.start)), "buffer-holds-the-start-size")
        if kind == "episodes":
            p.prove(getattr(self, "ne", None) is not None and p.entails(self.ne >= num(self.w.batchsize)), "enough-episodes")
            p.prove_eq(ml, self.w.maxlen, "episode-length-limit")
        self.last = Sampled(kind, 0, n, ml)
        return self.last

    def m_sample(self, ip, n):
        P().prove(not self.w.recurrent, "sampled-by-transition")
        return self.draw("transitions", n, None)

    def m_sample_episodes(self, ip, n_episodes, max_len=None):
        P().prove(self.w.recurrent, "sampled-by-episode")
        return self.draw("episodes", n_episodes, max_len)


class LearnUnit(CycleUnit):
    def loop_preds(self, ctx, k):
        p = P()
        L = p.ghost.get("learn")
        if L is None or (L.mon.uid, "upd") not in ctx.init:
            return {}
        f = L.mon.f
        out = {
            "sync": lambda: fold(num(f["sync"]) == L.SYN(num(f["upd"]))),
            "share": lambda: fold(num(f["share"]) == L.SHR(num(f["upd"]))),
            "bumps": lambda: fold(num(f["bumps"]) == L.SHR(num(f["upd"]))),
            "upd>=0": lambda: fold(num(f["upd"]) >= 0),
        }
        if L.limit is not None:
            out["limit"] = lambda: fold(L.n0 + num(f["upd"]) <= num(L.limit))
        for (uid, field) in ctx.init:
            o = p.objs.get(uid)
            if field == "held":
                out["free-" + uid] = lambda o=o: Not(o.f["held"])
        return out

    def loop_assume(self, ctx, k):
        L = P().ghost.get("learn")
        return [L.step_def(L.mon.f["upd"])] if L is not None else []

    def loop_anchors(self, ctx, k, loc):
        L = P().ghost.get("learn")
        o = P().objs.get(loc[0])
        iv = ctx.init.get(loc)
        if L is None or getattr(o, "ghost", False) or isinstance(iv, bool) or not (isinstance(iv, int) or is_term(iv) and z3.is_int(iv)):
            return {}
        f = L.mon.f
        return {"count": lambda: fold(num(iv) + num(f["upd"])),
                "time": lambda: fold(z3.If(num(f["upd"]) == 0, num(iv), L.time(f["upd"])))}


class Learn:
    def __init__(self, p, w, ext):
        self.w = w
        self.mon = LearnMon()
        self.n0 = p.int("optim_t0")
        self.A = p.int("actor_update_interval")
        p.assume(z3.And(self.n0 >= 0, self.A >= 1))
        self.SYN, self.SHR = p.fn("syncs", I, I), p.fn("shares", I, I)
        z = z3.IntVal(0)
        p.assume(z3.And(self.SYN(z) == 0, self.SHR(z) == 0))
        self.limit = None
        if p.unit.mode == "bmc":
            for i in range(6):
                p.assume(self.step_def(i))

    def time(self, u):
        return fold((self.n0 + num(u)) * num(self.w.U))

    def step_def(self, u):
        u1 = fold(num(u) + 1)
        return z3.And(
            self.SYN(u1) == self.SYN(num(u)) + z3.If(mod(self.time(u1), self.w.T) == 0, 1, 0),
            self.SHR(u1) == self.SHR(num(u)) + z3.If(mod(u1, self.A) == 0, 1, 0))


def u_learner(recurrent, limited):
    def run(ip, p):
        from .loops import SharedValue

        w = World(p, recurrent)
        p.ghost.pop("w")
        L = Learn(p, w, None)
        p.ghost["learn"] = L
        mon = L.mon
        lock = PLock()
        buf = LearnBuf(w, lock, mon)
        stop, ex = Event(), Event()

        class SM(Model):
            def m_load_state_dict(self, ip, d):
                p.prove(isinstance(d, tuple) and d[0] == "state" and d[1] is net, "actors-get-the-learned-parameters")
                p.prove(b_(counter.f["held"]), "actors-model-replaced-under-the-counter-lock")
                mon.set("share", seqs.add(mon.f["share"], 1))

        class LNet(PNet):
            def m_state_dict(self, ip):
                return ("state", self)

            def deepcopy(self, ip):
                return LNet(self.name + "'", self.out, self.f["training"], src=self)

        net = LNet("model", None)
        kw = dict(recurrent=recurrent, replay_start_size=w.start, minibatch_size=w.batchsize, update_interval=w.U,
                  target_update_interval=w.T)
        if recurrent:
            kw["episodic_update_len"] = w.maxlen
        ag = ip.call(ip.get_class("pfrl.agents.dqn", "DQN"), [net, Optim(net), buf, p.real("gamma"), Opaque("explorer")], kw)
        if "optim_t" not in ag.f:
            raise Unsupported("update counter")
        ag.f["optim_t"] = L.n0
        counter = SharedValue("update_counter", p.int("c0"), lambda a, b: b >= a)
        counter.on_write = lambda o, n: (p.prove(fold(num(n) == num(o) + 1), "update-counter-advances-by-one"),
                                         mon.set("bumps", seqs.add(mon.f["bumps"], 1)))
        ag.f["update_counter"], ag.f["actor_update_interval"] = counter, L.A

        def upd(ip, f, args, kw):
            smp = args[1] if len(args) > 1 else list(kw.values())[0]
            p.prove(isinstance(smp, Sampled) and smp is buf.last, "update-from-a-new-sample-of-the-buffer")
            buf.last = None
            if L.limit is not None:
                p.prove(fold(L.n0 + num(mon.f["upd"]) < num(L.limit)), "no-update-beyond-the-limit")
            mon.set("upd", seqs.add(mon.f["upd"], 1))
            ag.set("optim_t", seqs.add(ag.f["optim_t"], 1))

        for m in ("update", "update_from_episodes"):
            ip.contracts["pfrl.agents.dqn.DQN." + m] = upd

        def syn(ip, f, a, k):
            mon.set("sync", seqs.add(mon.f["sync"], 1))

        ip.contracts["pfrl.utils.copy_param.synchronize_parameters"] = syn
        if limited:
            L.limit = p.int("n_updates")
            p.assume(L.n0 <= L.limit)
        try:
            ip.call(ip.getattr(ag, "_learner_loop"), [], dict(
                shared_model=SM(), pipes=PyList([], "pipes"), replay_buffer_lock=lock, stop_event=stop, exception_event=ex,
                n_updates=L.limit))
        except PyExc as e:
            raise e
        f = mon.f
        p.prove(Not(ex.f["on"]), "no-failure-reported")
        p.prove(fold(num(f["sync"]) == L.SYN(num(f["upd"]))), "target-synchronised-exactly-on-schedule")
        p.prove(fold(num(f["share"]) == L.SHR(num(f["upd"]))), "actors-model-refreshed-exactly-on-schedule")
        p.prove(fold(num(f["bumps"]) == L.SHR(num(f["upd"]))), "refreshes-counted")
        p.prove(fold(num(ag.f["optim_t"]) == L.n0 + num(f["upd"])), "updates-counted")
        if limited:
            p.prove(fold(L.n0 + num(f["upd"]) <= num(L.limit)), "never-more-updates-than-asked")

    return run


# ---- ACER ------------------------------------------------------------------------
class ABuf(Buf):
    def m_append(self, ip, mu=None, **kw):
        Buf.m_append(self, ip, **kw)
        P().prove(isinstance(mu, Copied) and mu.of is self.w.dist, "behaviour-policy-recorded")


class Copied(Model):
    def __init__(self, of):
        self.of = of


class One(Model):
    """distribution of one action"""

    def __init__(self, net):
        self.net = net

    def m_sample(self, ip):
        f = self.net.fn("sampled", I, R)
        return T((1,), lambda i: f(num(i)), "real")

    def m_entropy(self, ip):
        return T((1,), lambda i: z3.RealVal(0), "real")


class Hist(HModel):
    """one of the histories of the online update: what is stored under which step"""

    ghost = True

    def __init__(self):
        HModel.__init__(self, "history")

    def setitem(self, ip, k, v):
        return None

    def getitem(self, ip, k):
        raise Unsupported("history")


def u_acer(with_buffer):
    def run(ip, p):
        w = World(p, False)
        w.N, w.j = 1, 0
        z = z3.IntVal(0)
        w.times = 1
        buf = w.buf = ABuf(p, 1, 0, w) if with_buffer else None
        net = Net("model", None)

        def out(ip, n, x):
            d = One(n)
            if n is ag_model[0]:
                w.dist = d
            return (d, Opaque("q"), T((1, 1), lambda i, k: z3.RealVal(0), "real"))

        net.out = out
        ag_model = [None]
        ons = []
        path = "pfrl.agents.acer"

        class Cnt(HModel):
            ghost = True

        cnt = Cnt("reps")
        cnt.f["n"] = 0

        def from_replay(ip, f, a, k):
            cnt.set("n", seqs.add(cnt.f["n"], 1))

        ip.contracts[path + ".ACER.update_from_replay"] = from_replay

        def online(ip, f, a, k):
            ons.append(a[1] if len(a) > 1 else k.get("statevar"))

        ip.contracts[path + ".ACER.update_on_policy"] = online
        ip.contracts["pfrl.utils.copy_param.copy_param"] = lambda ip, f, a, k: None
        ip.contracts["pfrl.utils.copy_param.soft_copy_param"] = lambda ip, f, a, k: None
        ip.contracts["pfrl.utils.batch_states.batch_states"] = lambda ip, f, a, k: nets.Tok("xs", 1)
        ip.contracts[path + ".deepcopy_distribution"] = lambda ip, f, a, k: Copied(a[0])
        n, tmax = p.int("n_times_replay"), p.int("t_max")
        p.assume(z3.And(n >= 0, tmax >= 1))
        if p.unit.mode == "bmc":
            n = p.expand(n)
        ag = ip.call(ip.get_class(path, "ACER"), [net, Optim(net), tmax, p.real("gamma"), buf], dict(n_times_replay=n))
        ag_model[0] = ag.f["model"]
        for f in ("t", "t_start"):
            if f not in ag.f:
                raise Unsupported("step counter")
        ts = p.int("t_start")
        p.assume(z3.And(ts >= 0, ts <= w.t0, w.t0 - ts < tmax))
        ag.f["t"], ag.f["t_start"] = w.t0, ts
        for f in [x for x in ag.f if x.startswith("past_")]:
            ag.f[f] = Hist()
        a = ip.call(ip.getattr(ag, "act"), [OBS(z)])
        w.actions = SymSeq(1, lambda i: a)
        ip.call(ip.getattr(ag, "observe"), [NEXT(z), REW(z), DONE(z), RESET(z)])
        if with_buffer:
            p.prove_eq(buf.f["app"], 1, "one-transition-per-step")
            p.prove(fold(num(buf.f["stop"]) == z3.If(ended(0), 1, 0)), "episode-closed-exactly-when-done-or-reset")
        due = z3.Or(ended(0), w.t0 + 1 - ts == tmax)
        p.prove(fold(b_(len(ons) == 1) == due), "online-update-exactly-when-due")
        p.prove(len(ons) <= 1, "one-online-update")
        p.prove(fold(num(cnt.f["n"]) == z3.If(due, num(n), 0)), "replay-updates-exactly-when-due")
        if ons:
            p.prove(fold(b_(ons[0] is None) == DONE(z)), "no-bootstrap-exactly-at-a-terminal-state")
        p.prove(fold(num(ag.f["t"]) == w.t0 + 1), "one-step-counted")

    return run


def u_count(name, recurrent, weighted=False):
    """the update function itself: one optimizer step, and one update counted (the learner
    process schedules by that count)"""

    def run(ip, p):
        from . import c16

        mod, _, extra = c16.DQNS[name]
        w = c16.World(p, weighted, recurrent)
        net = Net("model", nets.q_discrete(w.B, w.A))
        w.alpha, w.eta = p.real("alpha"), p.real("eta")
        p.assume(w.eta > 0)
        ag, opt, buf = c16.make(ip, p, w, ip.get_class(mod, name), net, **{k: getattr(w, k) for k in extra})
        for nm in ("batch_experiences", "batch_recurrent_experiences"):
            ip.contracts["pfrl.replay_buffer." + nm] = lambda ip, f, a, k: w.batch()
        if "optim_t" not in ag.f:
            raise Unsupported("count of updates")
        n0 = p.int("updates")
        ag.f["optim_t"] = n0
        c16.run_update(ip, p, w, ag, recurrent)
        p.prove(fold(num(ag.f["optim_t"]) == n0 + 1), "update-counted-once")
        p.prove(len(opt.f["steps"]) == 1, "one-optimizer-step-per-update")

    return run


def units(tier):
    ext = nets.agent_ext()
    ext["logging.getLogger"] = Builtin("getLogger", lambda ip, *a: Logger())
    us = []

    def add(nm, run):
        us.append(CycleUnit(nm, run, ext=dict(ext)))

    add("ReplayUpdater.update_if_necessary", u_updater(False))
    add("ReplayUpdater.update_if_necessary[episodic]", u_updater(True))
    add("DQN", u_dqn(False, True))
    add("DQN[recurrent, first step]", u_dqn(True, True))
    add("DQN[recurrent]", u_dqn(True, False))
    add("DDPG", u_ac("ddpg", "DDPG", 1, False, True, True))
    add("DDPG[burn-in]", u_ac("ddpg", "DDPG", 1, True, True, True))
    add("TD3", u_ac("td3", "TD3", 2, False, True, False))
    add("TD3[burn-in]", u_ac("td3", "TD3", 2, True, True, False))
    add("SoftActorCritic", u_ac("soft_actor_critic", "SoftActorCritic", 2, False, False, False))
    add("SoftActorCritic[burn-in]", u_ac("soft_actor_critic", "SoftActorCritic", 2, True, False, False))
    add("TD3.update[schedule]", u_td3_delay)
    for rec in (False, True):
        add("StateQFunctionActor" + ("[recurrent, first step]" if rec else ""), u_actor(rec, True))
    add("StateQFunctionActor[recurrent]", u_actor(True, False))
    add("DQN._poll_pipe", u_poll)
    us[-1].concrete = True
    for rec in (False, True):
        us.append(LearnUnit("DQN._learner_loop" + ("[recurrent]" if rec else ""), u_learner(rec, False), ext=dict(ext)))
    us.append(LearnUnit("DQN._learner_loop[limit]", u_learner(False, True), ext=dict(ext)))
    from .c16 import AgentUnit

    for nm in ("DQN", "DoubleDQN", "PAL"):
        us.append(AgentUnit(nm + ".update[counted]", u_count(nm, False), ext=dict(ext)))
    us.append(AgentUnit("DQN.update[counted, weighted]", u_count("DQN", False, True), ext=dict(ext)))
    us.append(AgentUnit("DQN.update_from_episodes[counted]", u_count("DQN", True), ext=dict(ext)))
    add("ACER", u_acer(True))
    add("ACER[no replay]", u_acer(False))
    return us
