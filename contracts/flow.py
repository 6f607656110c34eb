"""PPO and TRPO: which transitions enter which update.

One act/observe cycle of N environments, from any number of closed episodes in memory
and any open episode per environment.  The open episodes are a table (length, how often
the slot got a new list, appends, moves to the memory); appending proves on the spot that
the transition is that of its environment and step."""
import z3

from pydv import seqs
from pydv.tensor import T
from pydv.unit import Unit
from pydv.values import Builtin, HModel, Model, Opaque, P, PyDict, PyList, SymSeq, Unsupported, fold, is_term, num, real
from . import nets
from .c09 import DONE, NEXT, OBS, RESET, REW, At, RS, ended, seq
from .onpolicy import PPO, TRPO, Normaliser, StepOptim, VDist, VNet, onp_ext, trpo_agent
from .rows import I, R, StateBatch, batch_states

F = ("n", "gen", "app", "mv")


class Slots(HModel):
    """the open episodes: slot i holds a list of n(i) transitions"""

    ghost = True

    def __init__(self, p, N, w):
        HModel.__init__(self, "open-episodes")
        self.N, self.w = N, w
        g = p.fn("open", I, I)

        def n0(i):
            p.assume(g(num(i)) >= 0)
            return g(num(i))

        self.n0 = n0
        zero = lambda i: z3.IntVal(0)  # noqa
        self.f.update(n=n0, gen=zero, app=zero, mv=zero)

    def get(self, field, i):
        P().instantiate(i)
        return num(self.f[field](i))

    def put(self, field, i, v):
        old = self.f[field]
        i, v = num(i), num(v)
        self.set(field, lambda j: fold(z3.If(num(j) == i, v, num(old(j)))))

    def havoc_field(self, field, init):
        f = P().fn("slots." + field, I, I)
        return lambda j: f(num(j))

    def length(self, ip):
        return self.N

    def truth(self, ip):
        return fold(num(self.N) > 0)

    def index(self, i):
        if isinstance(i, bool) or not (isinstance(i, int) or is_term(i)):
            raise Unsupported("slot %r" % (i,))
        P().prove(fold(z3.And(num(i) >= 0, num(i) < num(self.N))), "slot-of-an-environment")
        return i

    def getitem(self, ip, i):
        i = self.index(i)
        return Ep(self, i, self.get("gen", i))

    def setitem(self, ip, i, v):
        i = self.index(i)
        if not (isinstance(v, PyList) and seqs.seq_len(v.f["data"]) == 0):
            raise Unsupported("slot := %r" % (v,))
        self.put("gen", i, self.get("gen", i) + 1)
        self.put("n", i, 0)

    def iter(self, ip):
        return SymSeq(self.N, lambda i: self.getitem(ip, i))


class Ep(Model):
    """the list that was in slot i after gen assignments"""

    def __init__(self, slots, i, gen):
        self.s, self.i, self.gen = slots, i, gen

    def here(self):
        if not P().entails(fold(self.s.get("gen", self.i) == num(self.gen))):
            raise Unsupported("list of transitions no longer open")

    def length(self, ip):
        self.here()
        return fold(self.s.get("n", self.i))

    def truth(self, ip):
        return fold(num(self.length(ip)) > 0)

    def m_append(self, ip, d):
        p, i = P(), self.i
        self.here()
        self.s.w.transition(ip, p, i, d)
        p.prove(fold(self.s.get("app", i) == 0), "one-transition-per-environment-and-step")
        p.prove(fold(num(self.gen) == 0), "added-to-the-episode-it-belongs-to")
        self.s.put("app", i, self.s.get("app", i) + 1)
        self.s.put("n", i, self.s.get("n", i) + 1)


class Mem(HModel):
    """closed episodes: some from before, and those moved from the slots"""

    ghost = True

    def __init__(self, p, slots):
        HModel.__init__(self, "memory")
        self.s = slots
        self.size0, self.cnt0 = p.int("size0"), p.int("cnt0")
        p.assume(z3.And(self.cnt0 >= 0, self.size0 >= self.cnt0))
        self.f.update(cnt=self.cnt0, moved=[])
        if p.unit.mode == "bmc":
            p.assume(z3.And(self.cnt0 <= 1, (self.cnt0 == 0) == (self.size0 == 0)))
            self.f["cnt"] = p.expand(self.cnt0)

    def havoc_field(self, field, init):
        if field == "moved":
            return None
        return P().int(field)

    def m_append(self, ip, e):
        if not isinstance(e, Ep):
            raise Unsupported("memory of %r" % (e,))
        p, i = P(), e.i
        e.here()
        if p.decide(fold(num(e.gen) == 0)):
            p.prove(fold(self.s.get("mv", i) == 0), "episode-enters-the-memory-once")
            # what is added to it while it is in the memory counts too
            self.s.put("mv", i, self.s.get("mv", i) + 1)
            p.prove(fold(self.s.get("app", i) == 1), "last-transition-recorded-before-its-episode-is-closed")
            ln = fold(self.s.n0(i) + 1)
        else:
            p.prove(fold(num(e.length(ip)) == 0), "nothing-recorded-twice")
            ln = 0
        if p.unit.mode == "bmc":
            self.set("moved", self.f["moved"] + [ln])
        self.set("cnt", seqs.add(self.f["cnt"], 1))

    def length(self, ip):
        return self.f["cnt"]

    def truth(self, ip):
        return fold(num(self.f["cnt"]) > 0)

    def sizes(self):
        """(transitions in memory, and in the open episodes) as sums over the environments"""
        p, s = P(), self.s
        mv, n = s.f["mv"], s.f["n"]
        inst = lambda i, t: (p.instantiate(i), t)[1]  # noqa
        a = lambda i: inst(i, fold(z3.ToReal(z3.If(num(mv(i)) > 0, s.n0(i) + 1, 0))))  # noqa
        b = lambda i: inst(i, fold(z3.ToReal(num(n(i)))))  # noqa
        N = s.N
        if not is_term(N):
            A, B = (fold(z3.Sum([f(i) for i in range(N)] + [z3.RealVal(0)])) for f in (a, b))
            return A, B
        A, B, S = p.sum_of(N, a), p.sum_of(N, b), p.sum_of(N, lambda i: fold(z3.ToReal(s.n0(i) + 1)))
        if p.forall_holds(N, lambda i: fold(a(i) + b(i) == z3.ToReal(s.n0(i) + 1))):
            p.assume(A + B == S)
        return A, B

    def total(self):
        """everything collected up to and with this step"""
        s, p = self.s, P()
        if not is_term(s.N):
            return fold(z3.ToReal(num(self.size0)) + z3.Sum([z3.ToReal(s.n0(i) + 1) for i in range(s.N)] + [z3.RealVal(0)]))
        return fold(z3.ToReal(num(self.size0)) + p.sum_of(s.N, lambda i: fold(z3.ToReal(s.n0(i) + 1))))

    def iter(self, ip):
        p = P()
        if p.unit.mode == "bmc":
            return [Len(self.size0)] * (self.f["cnt"] - len(self.f["moved"])) + [Len(x) for x in self.f["moved"]]
        f = p.fn("len.memory", I, I)

        def at(j):
            p.assume(f(num(j)) >= 0)
            return Len(f(num(j)))

        p.sums.append(("sum", self.f["cnt"], lambda j: at(j).n, fold(z3.ToReal(num(self.size0)) + self.sizes()[0])))
        return SymSeq(self.f["cnt"], at)


class Len(Model):
    def __init__(self, n):
        self.n = n

    def length(self, ip):
        return self.n


class Flat(Model):
    """all transitions of the memory"""

    def __init__(self, mem, n):
        self.mem, self.n = mem, n

    def length(self, ip):
        return self.n

    def to_list(self, ip):
        return self


class FlowUnit(Unit):
    bmc_bound = 2

    def unroll(self, key, ip, fr):
        return Unit.unroll(self, key, ip, fr)

    def loop_anchors(self, ctx, k, loc):
        p = P()
        o, iv = p.objs.get(loc[0]), ctx.init.get(loc)
        if not isinstance(o, PyList) or loc[1] != "data" or not isinstance(iv, (list, SymSeq)):
            return {}

        def cleared():
            return SymSeq(seqs.seq_len(iv), lambda i: None if p.decide(fold(num(i) < num(k))) else seqs.seq_at(iv, i))

        return {"cleared": cleared, "same": lambda: iv}

    def loop_qpreds(self, ctx, k):
        p = P()
        w = p.ghost.get("w")
        out = {}
        if w is None:
            return out
        s = w.slots
        for f in F:
            if (s.uid, f) not in ctx.init:
                continue
            i0, now = ctx.init[(s.uid, f)], s.f[f]
            n_in = ctx.init.get((s.uid, "n"), s.f["n"])
            g_in = ctx.init.get((s.uid, "gen"), s.f["gen"])
            step = {
                "n": [lambda i, b: z3.If(ended(i), 0, b + 1), lambda i, b: b + 1, lambda i, b: z3.If(ended(i), 0, b), lambda i, b: 0 * b],
                "gen": [lambda i, b: b + z3.If(ended(i), 1, 0), lambda i, b: b + z3.If(num(n_in(i)) > 0, 1, 0), lambda i, b: b + 1],
                "app": [lambda i, b: b + 1],
                "mv": [lambda i, b: b + z3.If(ended(i), 1, 0), lambda i, b: z3.If(z3.And(num(n_in(i)) > 0, num(g_in(i)) == 0), b + 1, b)],
            }[f]
            for q, st in enumerate(step):
                out["%s-%d" % (f, q)] = (s.N, lambda i, st=st, i0=i0, now=now: fold(
                    num(now(i)) == z3.If(num(i) < num(k), st(num(i), num(i0(i))), num(i0(i)))), 0)
        return out


class W:
    def __init__(self, p, recurrent):
        self.recurrent = recurrent
        self.N = p.int("num_envs")
        p.assume(self.N >= 1)
        if p.unit.mode == "bmc":
            self.N = p.expand(self.N)
        self.interval = p.int("update_interval")
        p.assume(self.interval >= 1)
        self.slots = Slots(p, self.N, self)
        self.mem = Mem(p, self.slots)
        self.states = None
        p.ghost["w"] = self

    def transition(self, ip, p, i, d):
        if not isinstance(d, PyDict):
            raise Unsupported("transition %r" % (d,))
        get = lambda k: ip.getitem(d, k)  # noqa
        p.prove_eq(get("state"), OBS(i), "state-is-the-observation-acted-on")
        p.prove_eq(get("action"), ip.getitem(self.actions, i), "action-is-the-one-returned")
        p.prove_eq(get("reward"), REW(num(i)), "reward-observed")
        p.prove_eq(get("next_state"), NEXT(num(i)), "next-state-observed")
        p.prove(fold(real(get("nonterminal")) == z3.If(DONE(num(i)), z3.RealVal(0), z3.RealVal(1))), "nonterminal-iff-not-done")
        if self.recurrent:
            for key, tok in (("recurrent_state", self.states[0]), ("next_recurrent_state", self.states[1])):
                v = get(key)
                if tok is None:
                    p.prove(v is None, key + ".none-before-the-first-step")
                    continue
                ok = isinstance(v, At)
                p.prove(ok, key + ".recorded")
                if ok:
                    p.prove(v.tok is tok, key + ".of-this-step")
                    p.prove_eq(v.i, i, key + ".of-this-environment")


def exactly_the_ended(p, N, ix):
    """the indices are those of the environments whose episode ended"""
    data = ix.f["data"] if isinstance(ix, PyList) else None
    if data is None:
        raise Unsupported("indices %r" % (ix,))
    if isinstance(data, list):
        for i in range(N):
            p.prove(fold(z3.Or(*[num(x) == i for x in data]) == ended(i)) if data else fold(z3.Not(ended(i))), "states-of-exactly-the-ended-episodes-cleared")
        return
    f = getattr(data, "filter_of", None)
    if f is None:
        raise Unsupported("indices %r" % (ix,))
    rank = f[2]
    p.prove_forall(data.n, lambda j: fold(z3.And(ended(data.at(j)), num(data.at(j)) >= 0, num(data.at(j)) < num(N))), "states-of-only-ended-episodes-cleared")

    def found(i):
        r = rank(num(i))
        p.instantiate(r)
        return fold(z3.Implies(ended(i), z3.And(r >= 0, r < num(data.n), num(data.at(r)) == num(i))))

    p.prove_forall(N, found, "states-of-every-ended-episode-cleared")
    # not needed any more
    p.foralls = [(a, lo, n, (lambda i: z3.BoolVal(True)) if getattr(fact, "tag", None) == "filter" else fact) for a, lo, n, fact in p.foralls]


def names(f, args, kw):
    d = dict(zip([a.arg for a in f.node.args.args], args))
    d.update(kw)
    return d


def u_cycle(cls, recurrent=False, first=False):
    mod = PPO if cls == "PPO" else TRPO

    def run(ip, p):
        bmc = p.unit.mode == "bmc"
        w = W(p, recurrent)
        norm = Normaliser(p) if p.choose(2) else None
        gamma, lambd = p.real("gamma"), p.real("lambd")
        kw = dict(update_interval=w.interval, gamma=gamma, lambd=lambd, recurrent=recurrent)
        ml = None
        if recurrent:
            ml = p.int("max_len")
            kw["max_recurrent_sequence_len"] = ml
        ip.contracts.update(nets.stubs())
        if cls == "PPO":
            net = VNet("model", training=True)
            phi = Opaque("phi")
            bs = batch_states(phi)
            ag = ip.call(ip.get_func(mod, cls), [net, StepOptim(net)], dict(obs_normalizer=norm, phi=phi, batch_states=bs, **kw))
        else:
            pi, vf = VNet("policy", "pi"), VNet("vf", "v")
            ag = trpo_agent(ip, p, pi, vf, StepOptim(vf), norm, **kw)
            net, phi, bs = ag.f["model"], ag.f["phi"], ag.f["batch_states"]
        for a in ("memory", "batch_last_episode", "last_episode"):
            if a not in ag.f:
                raise Unsupported("the agent has no " + a)
        device = ag.f.get("device")
        ag.f["memory"] = w.mem
        ag.f["batch_last_episode"] = w.slots
        for a in ("batch_last_state", "batch_last_action"):
            ag.f[a] = PyList(SymSeq(w.N, lambda i: None), a)
        log = []
        see = (lambda o: norm.see(o, 0)) if norm is not None else (lambda o: o)

        def distribution(x):
            if not isinstance(x, StateBatch):
                raise Unsupported("network input")
            return VDist(net, x, nets.grad_deps(net)), T((x.n, 1), lambda i, _z: net.V(x.at(i)))

        if recurrent:
            before = None if first else RS("before")
            ag.f["train_recurrent_states"] = before
            after = RS("after")

            def osf(ip, f, args, kwargs):
                d = names(f, args, kwargs)
                vs = list(d.values())
                p.prove(vs[0] is net, "acts-with-the-learned-network")
                p.prove(vs[2] is before, "network-continues-from-the-training-state")
                w.states = (before, after)
                return (distribution(vs[1]), after)

            def get(ip, f, args, kwargs):
                d = list(names(f, args, kwargs).values())
                return None if d[0] is None else At(d[0], d[1])

            def mask(ip, f, args, kwargs):
                d = list(names(f, args, kwargs).values())
                p.prove(d[0] is after, "state-of-this-step-masked")
                exactly_the_ended(p, w.N, d[1])
                return RS("masked", ("masked", d[0]))

            ip.contracts["pfrl.utils.recurrent.mask_recurrent_state_at"] = mask
            ip.contracts["pfrl.utils.recurrent.one_step_forward"] = osf
            ip.contracts["pfrl.utils.recurrent.get_recurrent_state_at"] = get

        def make(ip, f, args, kwargs):
            d = names(f, args, kwargs)
            p.prove(not log, "one-dataset-per-step")
            eps = d["episodes"]
            p.prove(eps is w.mem, "dataset-from-the-collected-episodes")
            p.prove_forall(w.N, lambda i: fold(z3.And(w.slots.get("mv", i) == 1, w.slots.get("app", i) == 1)), "every-open-episode-enters-the-dataset")
            p.prove(d["model"] is net and d["phi"] is phi and d["batch_states"] is bs and d["obs_normalizer"] is norm, "dataset-made-with-the-agents-model-and-preprocessing")
            p.prove_eq(d["gamma"], gamma, "discount-passed")
            p.prove_eq(d["lambd"], lambd, "lambda-passed")
            if recurrent:
                p.prove_eq(d["max_recurrent_sequence_len"], ml, "maximum-length-passed")
            A, B = w.mem.sizes()
            n = fold(z3.ToInt(z3.ToReal(num(w.mem.size0)) + A))
            p.assume(z3.ToReal(num(n)) == z3.ToReal(num(w.mem.size0)) + A)  # sums of integers
            r = Flat(w.mem, n)
            log.append(("data", r))
            return r

        def update(ip, f, args, kwargs):
            d = names(f, args, kwargs)
            ok = len(log) == 1 and d["dataset"] is log[0][1]
            p.prove(ok, "one-update-on-the-dataset-just-made")
            log.append(("update",))

        for q, c in (("._make_dataset", make), ("._make_dataset_recurrent", make)):
            wrong = q.endswith("recurrent") != recurrent
            ip.contracts[PPO + q] = (lambda ip, f, a, k: p.prove(False, "dataset-of-the-right-kind")) if wrong else c
        for q in ("_update", "_update_recurrent"):
            wrong = q.endswith("recurrent") != recurrent
            ip.contracts["%s.%s.%s" % (mod, cls, q)] = (lambda ip, f, a, k: p.prove(False, "update-of-the-right-kind")) if wrong else update
        ip.contracts[PPO + "._compute_explained_variance"] = lambda ip, f, a, k: p.real("explained_variance")
        ip.contracts["pfrl.utils.recurrent.flatten_sequences_time_first"] = lambda ip, f, a, k: Flat(w.mem, 0)

        # ---- the cycle
        obs = seq(w.N, OBS, "obs")
        acts = ip.call(ip.getattr(ag, "batch_act"), [obs])
        if not isinstance(acts, T):
            raise Unsupported("actions %r" % (acts,))
        p.prove(fold(num(acts.shape[0]) == num(w.N)), "one-action-per-environment")
        w.actions = acts
        dr = p.ghost.get("draws", [])
        p.prove(len(dr) == 1, "one-draw-of-actions")
        if len(dr) == 1:
            p.prove_forall(w.N, lambda i: fold(dr[0][1].at(i) == see(OBS(i))), "distribution-of-this-environments-observation")
            p.prove_forall(w.N, lambda i: fold(real(acts.at(i)) == real(dr[0][2].at(i))), "action-drawn-for-this-environment")
        obs.set("data", SymSeq(w.N, lambda i: z3.Function("later", I, OBS(0).sort())(num(i))))
        ds, zs = seq(w.N, DONE, "dones"), seq(w.N, RESET, "resets")
        ip.call(ip.getattr(ag, "batch_observe"), [seq(w.N, NEXT, "next_obs"), seq(w.N, REW, "rewards"), ds, zs])

        # ---- afterwards
        due = fold(w.mem.total() >= z3.ToReal(num(w.interval)))
        s = w.slots
        if not log:
            w.mem.sizes()
            p.prove(fold(z3.Not(due)), "update-as-soon-as-enough-transitions-are-there")
            p.prove(ag.f["memory"] is w.mem, "closed-episodes-kept")
            p.prove(ag.f["batch_last_episode"] is s, "open-episodes-kept")
            p.prove_forall(w.N, lambda i: fold(s.get("app", i) == 1), "every-transition-recorded")
            p.prove_forall(w.N, lambda i: fold(s.get("mv", i) == z3.If(ended(i), 1, 0)), "episode-closed-exactly-when-done-or-reset")
            p.prove_forall(w.N, lambda i: fold(z3.If(ended(i), z3.And(s.get("gen", i) >= 1, s.get("n", i) == 0), z3.And(s.get("gen", i) == 0, s.get("n", i) == s.n0(i) + 1))), "open-episode-continues-unless-it-ended")
        else:
            p.prove(due, "update-only-when-enough-transitions-are-there")
            p.prove(len(log) == 2, "one-update")
            m = ag.f["memory"]
            if not isinstance(m, (Mem, PyList)):
                raise Unsupported("memory %r" % (m,))
            p.prove(isinstance(m, PyList) and seqs.seq_len(m.f["data"]) == 0, "memory-empty-after-the-update")
            if ag.f["batch_last_episode"] is not s:
                raise Unsupported("open episodes replaced")
            p.prove_forall(w.N, lambda i: fold(z3.And(s.get("gen", i) >= 1, s.get("n", i) == 0)), "episodes-start-anew-after-the-update")
        if recurrent:
            tr = ag.f["train_recurrent_states"]
            if tr is after:
                p.prove_forall(w.N, lambda i: fold(z3.Not(ended(i))), "ended-episodes-start-from-a-fresh-state")
            else:
                p.prove(isinstance(tr, RS) and tr.why == ("masked", after), "other-environments-states-kept")

    return run


def u_first(cls):
    """the first step opens one empty episode per environment"""
    mod = PPO if cls == "PPO" else TRPO

    def run(ip, p):
        N = p.int("num_envs")
        p.assume(N >= 1)
        if p.unit.mode == "bmc":
            N = p.expand(N)
        ip.contracts.update(nets.stubs())
        if cls == "PPO":
            net = VNet("model", training=True)
            ag = ip.call(ip.get_func(mod, cls), [net, StepOptim(net)], dict(batch_states=batch_states(None)))
        else:
            pi, vf = VNet("policy", "pi"), VNet("vf", "v")
            ag = trpo_agent(ip, p, pi, vf, StepOptim(vf), None)
        m = ag.f.get("memory")
        if not isinstance(m, PyList) or ag.f.get("batch_last_episode", 0) is not None:
            raise Unsupported("initial state")
        p.prove(seqs.seq_len(m.f["data"]) == 0, "no-episodes-at-first")
        ip.call(ip.getattr(ag, "batch_act"), [seq(N, OBS, "obs")])
        e = ag.f["batch_last_episode"]
        if not isinstance(e, PyList):
            raise Unsupported("open episodes %r" % (e,))
        d = e.f["data"]
        p.prove(fold(num(seqs.seq_len(d)) == num(N)), "one-open-episode-per-environment")
        i, j = p.int("i"), p.int("j")
        p.assume(z3.And(i >= 0, j > i, j < num(N)))
        if p.unit.mode == "bmc":
            i, j = p.expand(i), p.expand(j)
        a, b = seqs.seq_at(d, i), seqs.seq_at(d, j)
        ok = isinstance(a, PyList) and isinstance(b, PyList)
        p.prove(ok and a is not b, "each-environment-has-its-own-episode")
        if ok:
            p.prove(seqs.seq_len(a.f["data"]) == 0 and seqs.seq_len(b.f["data"]) == 0, "episodes-start-empty")
        p.prove(ag.f["memory"] is m and seqs.seq_len(m.f["data"]) == 0, "nothing-collected-by-acting")

    return run


def units(ext):
    ext = onp_ext(ext)
    ext = dict(ext)
    ext["itertools.chain.from_iterable"] = Builtin("chain.from_iterable", lambda ip, x: Flat(x, 0) if isinstance(x, Mem) else _unsup())
    us = []
    for cls in ("PPO", "TRPO"):
        m = PPO if cls == "PPO" else TRPO
        cov = ["%s.%s.%s" % (m, cls, x) for x in ("_batch_act_train", "_batch_observe_train", "_update_if_dataset_is_ready", "_flush_last_episode")]
        us.append(FlowUnit(cls + " first step", u_first(cls), ext=dict(ext), covers=["%s.%s._initialize_batch_variables" % (m, cls)]))
        us.append(FlowUnit(cls + " act/observe/update", u_cycle(cls), ext=dict(ext), covers=cov))
        us.append(FlowUnit(cls + " act/observe/update[recurrent]", u_cycle(cls, True), ext=dict(ext), covers=cov))
        us.append(FlowUnit(cls + " act/observe/update[recurrent, first step]", u_cycle(cls, True, True), ext=dict(ext), covers=cov))
    return us


def _unsup():
    raise Unsupported("chain")


# ------------------------------------------------------------- one environment, recurrent
class Hist(HModel):
    """what is stored under which step"""

    ghost = True

    def __init__(self, log):
        HModel.__init__(self, "history")
        self.log = log

    def setitem(self, ip, k, v):
        self.log.append((k, v))

    def getitem(self, ip, k):
        return Opaque("history")


class Sink(HModel):
    ghost = True

    def __init__(self):
        HModel.__init__(self, "sequences")

    def getitem(self, ip, i):
        return self

    def setitem(self, ip, i, v):
        return None

    def m_append(self, ip, x):
        return None

    def length(self, ip):
        n = P().int("len")
        P().assume(n >= 1)
        return n


UPDATES = {"A3C": ("a3c", ("update",)), "REINFORCE": ("reinforce", ("accumulate_grad", "update_with_accumulated_grad", "batch_update")),
           "ACER": ("acer", ("update_on_policy", "update_from_replay"))}


def u_single(cls, first):
    """the network meets each observation with the state its own episode's observations produced"""
    from .c24 import Pol

    mod, ups = UPDATES[cls]
    mod = "pfrl.agents." + mod

    def run(ip, p):
        z = z3.IntVal(0)
        held = {}
        calls = []

        def out(ip, net, x):
            d, v = Pol(net, 1, 1), T((1, 1), lambda i, k: z3.RealVal(0), "real")
            return {"A3C": (d, v), "REINFORCE": d, "ACER": (d, Opaque("q"), v)}[cls]

        net = nets.Net("model", out)

        def osf(ip, f, args, kwargs):
            m, x, rs = list(names(f, args, kwargs).values())
            after = RS("after")
            calls.append((m, rs, after))
            return (out(ip, m, x), after)

        ip.contracts["pfrl.utils.recurrent.one_step_forward"] = osf
        # states leave an update with the same values (its gradient history is cut)
        for u in ups:
            ip.contracts["%s.%s.%s" % (mod, cls, u)] = lambda ip, f, a, k: None
        ip.contracts["pfrl.utils.copy_param.copy_param"] = lambda ip, f, a, k: None
        ip.contracts["pfrl.utils.batch_states.batch_states"] = lambda ip, f, a, k: nets.Tok("xs", 1)
        ip.contracts["pfrl.agents.acer.deepcopy_distribution"] = lambda ip, f, a, k: Opaque("distribution")
        ip.contracts["warnings.warn"] = lambda ip, f, a, k: None
        bs = Builtin("batch_states", lambda ip, *a, **k: nets.Tok("xs", 1))
        tmax = p.int("t_max")
        if cls == "REINFORCE":
            sep = bool(p.choose(2))
            ag = ip.call(ip.get_class(mod, cls), [net, nets.Optim(net)], dict(recurrent=True, batch_states=bs, backward_separately=sep, batchsize=p.int("batchsize")))
        else:
            p.assume(tmax >= 1)
            args = [net, nets.Optim(net), tmax, p.real("gamma")] + ([None] if cls == "ACER" else [])
            kw = dict(recurrent=True) if cls == "ACER" else dict(recurrent=True, batch_states=bs)
            if cls == "ACER":
                kw["n_times_replay"] = 1
            ag = ip.call(ip.get_class(mod, cls), args, kw)
            ts, t0 = p.int("t_start"), p.int("t")
            p.assume(z3.And(ts >= 0, ts <= t0, t0 - ts < tmax))
            ag.f["t"], ag.f["t_start"] = t0, ts
        hist = []
        for f in [x for x in ag.f if x.startswith("past_")]:
            ag.f[f] = Hist(hist if "recurrent" in f else [])
        for f in [x for x in ag.f if x.endswith("_sequences")]:
            ag.f[f] = Sink()
        acting = ag.f["model"]
        states = [k for k in ag.f if k.endswith("recurrent_states") and not k.startswith("test")]
        want = ["shared_recurrent_states", "train_recurrent_states"] if cls == "ACER" else ["train_recurrent_states"]
        if sorted(states) != want or "test_recurrent_states" not in ag.f:
            raise Unsupported("recurrent states")
        for k in states:
            held[k] = None if first else RS(k)
            ag.f[k] = held[k]
        test = ag.f["test_recurrent_states"] = RS("evaluation")
        ip.call(ip.getattr(ag, "act"), [OBS(z)])
        p.prove(len(calls) == len(states), "one-step-of-each-network")
        new = {}
        for m, rs, after in calls:
            k = "train_recurrent_states" if m is acting else "shared_recurrent_states"
            p.prove(rs is held.get(k, 0), "network-continues-from-the-state-of-its-own-episode")
            new[k] = after
        for k in states:
            p.prove(ag.f[k] is new.get(k), "state-after-this-observation-kept")
        if cls == "A3C":
            p.prove(len(hist) == 1 and hist[0][1] is held["train_recurrent_states"], "state-before-the-observation-recorded-for-the-update")
            if hist:
                p.prove_eq(hist[0][0], t0, "state-recorded-under-its-step")
        ip.call(ip.getattr(ag, "observe"), [NEXT(z), REW(z), DONE(z), RESET(z)])
        for k in states:
            s = ag.f[k]
            if s is None:
                p.prove(fold(ended(z)), "state-kept-within-the-episode")
            else:
                p.prove(s is new.get(k), "state-kept-within-the-episode")
                p.prove(fold(z3.Not(ended(z))), "next-episode-starts-from-a-fresh-state")
        p.prove(ag.f["test_recurrent_states"] is test, "evaluation-state-untouched-by-training")

    return run


def units_single(ext):
    ext = onp_ext(ext)
    return [Unit("%s act/observe[recurrent%s]" % (c, ", first step" if f else ""), u_single(c, f), ext=dict(ext)) for c in UPDATES for f in (False, True)]
