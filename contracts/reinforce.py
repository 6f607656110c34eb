"""REINFORCE under contract: returns of any number of episodes, their losses, the update protocol."""
import z3

from pydv import seqs
from pydv.tensor import T, as_t
from pydv.unit import Unit
from pydv.values import Builtin, HModel, Model, Obj, Opaque, P, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num, real
from . import nets
from .c16 import check_loss, summ
from .nets import Optim
from .rows import I, R, RowNet, Suffix, SuffixFamily, batch_states

MOD = "pfrl.agents.reinforce"
Q = MOD + ".REINFORCE."


def cumsum(ip, x, axis=None):
    """prefix sums; where they are provably a registered suffix recurrence read
    backwards (induction on the index), they are given as that"""
    p = P()
    t = as_t(ip, x, True)
    if t is None or len(t.shape) != 1:
        raise Unsupported("cumsum of %r" % (x,))
    n, at = t.shape[0], t.snap()
    if not is_term(n):
        acc, out = z3.RealVal(0), []
        for i in range(n):
            acc = fold(acc + real(at(i)))
            out.append(acc)
        return T((n,), lambda i: seqs.from_list(out).at(i) if out else z3.RealVal(0), np=True)
    C = p.fn("cumsum", I, R)
    for G in p.ghost.get("suffixes", []):
        top = fold(num(n) - 1)

        def base():
            if not p.entails(fold(num(n) >= 1)):
                p.assume(num(n) >= 1)
                if p._check() == z3.unsat:
                    return True
            return p.entails(fold(real(at(0)) == G(top)))

        def step():
            j = p.int("j")
            p.assume(z3.And(j >= 0, j + 1 < num(n)))
            if p._check() == z3.unsat:
                return True
            g0 = G(fold(num(n) - 1 - j))
            g1 = G(fold(num(n) - 2 - j))
            return p.entails(fold(g0 + real(at(fold(j + 1))) == g1))

        if p.all_cases(base) and p.all_cases(step):
            return T((n,), lambda i: G(fold(num(n) - 1 - num(i))), np=True)
    p.assume(z3.Implies(num(n) >= 1, C(0) == real(at(0))))

    def el(i):
        p.assume(z3.Implies(z3.And(num(i) >= 1, num(i) < num(n)), C(num(i)) == C(num(i) - 1) + real(at(i))))
        return C(num(i))

    return T((n,), el, np=True)


class Flat:
    """losses of all episodes one after another: L(off(k) + j) == ell(k, j)"""

    def __init__(self, p, off, ell):
        self.p, self.off, self.ell = p, off, ell
        self.L = p.fn("loss", I, R)
        self.ks = []

    def __call__(self, i):
        p = self.p
        for k in self.ks:
            p.assume(z3.Implies(z3.And(self.off(k) <= num(i), num(i) < self.off(k + 1)),
                                self.L(num(i)) == self.ell(k, fold(num(i) - self.off(k)))))
        return self.L(num(i))


class LossUnit(Unit):
    bmc_bound = 2

    def loop_anchors(self, ctx, k, loc):
        p = P()
        g = p.ghost.get("rf")
        iv = ctx.init.get(loc)
        if g is None or not isinstance(p.objs.get(loc[0]), PyList) or loc[1] != "data":
            return {}
        out = {}
        if isinstance(iv, list) and not iv and g["M"] is not None:
            def flat():
                g["flat"].ks.append(num(k))
                off = p.ghost["rf"]["off"]
                off_step(p, off, g["ln"], k)
                p.ghost["rf"]["k"] = num(k)
                return SymSeq(off(num(k)), lambda i: T((1,), lambda z: g["flat"](i), deps=g["deps"]))
            out["losses-of-the-first-k-episodes"] = flat
        ek = p.ghost["rf"].get("k")
        if isinstance(iv, (list, SymSeq)) and ek is not None:
            out["losses-of-this-episode"] = lambda: seqs.seq_concat(
                iv, SymSeq(k, lambda j: T((1,), lambda z: g["ell"](ek, j), deps=g["deps"])))
        return out


def off_step(p, off, ln, k):
    p.assume(z3.Implies(num(k) >= 0, z3.And(off(0) == 0, ln(num(k)) >= 1, off(num(k)) >= 0,
                                            off(num(k) + 1) == off(num(k)) + ln(num(k)))))


def make(ip, p, net, **kw):
    ip.contracts.update(nets.stubs())
    clips = p.ghost.setdefault("clips", [])

    def clip(ip, f, args, k):
        opt = p.ghost["optim"]
        clips.append((args[1] if len(args) > 1 else None, len(opt.f["steps"]), len(p.ghost.setdefault("backward", []))))

    ip.contracts["pfrl.utils.clip_l2_grad_norm.clip_l2_grad_norm_"] = clip
    opt = Optim(net)
    p.ghost["optim"] = opt
    phi = Opaque("phi")
    ag = ip.call(ip.get_func(MOD, "REINFORCE"), [net, opt], dict(phi=phi, batch_states=batch_states(phi), **kw))
    for f in ("reward_sequences", "log_prob_sequences", "entropy_sequences", "n_backward"):
        if f not in ag.f:
            raise Unsupported("representation of REINFORCE changed: " + f)
    return ag, opt


def u_accumulate(several):
    """the loss of one call is the sum over every step of every stored episode"""

    def run(ip, p):
        bmc = p.unit.mode == "bmc"
        beta = p.real("beta")
        B = p.int("batchsize")
        p.assume(B >= 1)
        net = RowNet("model", "pi")
        ag, opt = make(ip, p, net, beta=beta, batchsize=B)
        M = p.int("episodes") if several else 1
        if several:
            p.assume(M >= 1)
            if bmc:
                M = p.expand(M)
        ln, off = p.fn("len", I, I), p.fn("offset", I, I)
        rew, lp, en = p.fn("reward", I, I, R), p.fn("log_prob", I, I, R), p.fn("entropy", I, I, R)
        deps = frozenset([net.uid])
        gs = {}

        def suffix(k):
            key = str(k)
            if key not in gs:
                gs[key] = Suffix(p, "return", 0, lens(k), z3.RealVal(0), lambda i, g: fold(rew(num(k), num(i)) + g))
            return gs[key]

        conc = {}

        def lens(k):
            if bmc:
                if k not in conc:
                    n = p.int("len%d" % k)
                    p.assume(n >= 1)
                    conc[k] = p.expand(n)
                return conc[k]
            off_step(p, off, ln, k)
            return ln(num(k))

        def ell(k, j):
            return fold(-suffix(k)(j) * lp(num(k), num(j)) - beta * en(num(k), num(j)))

        def ep(fn, kind):
            def at(k):
                p.ghost["suffixes"] = [suffix(k)]
                if not several:
                    p.ghost["rf"]["k"] = num(0)
                n = lens(k)
                wrap = (lambda x: x) if kind == "r" else (lambda x: T((1,), lambda z: x, deps=deps))
                el = lambda j: wrap(fn(num(k), num(j)))  # noqa
                return PyList([el(j) for j in range(n)] if not is_term(n) else SymSeq(n, el, kind == "r"), ip.alloc_label("episode"))

            return PyList([at(k) for k in range(M)] if not is_term(M) else SymSeq(M, at), "sequences")

        flat = Flat(p, off, ell)
        p.ghost["rf"] = dict(M=M if several and not bmc else None, off=off, ln=ln, ell=ell, flat=flat, deps=deps)
        r0 = ep(rew, "r")
        ag.set("reward_sequences", r0)
        ag.set("log_prob_sequences", ep(lp, "t"))
        ag.set("entropy_sequences", ep(en, "t"))
        nb = 0 if p.choose(2) == 0 else p.int("n_backward")
        # a loss from before this call
        earlier = T((), lambda: p.real("earlier"), deps=(net.uid,))
        p.ghost["backward"] = [earlier]
        if is_term(nb):
            p.assume(nb >= 1)
            opt.f["from"] = 0
            if "backward_separately" in ag.f:   # otherwise a batch is one backward pass
                ag.set("backward_separately", True)
        ag.set("n_backward", nb)
        ip.call(ip.getattr(ag, "accumulate_grad"), [])
        bw = p.ghost["backward"][1:]
        p.prove(len(bw) == 1, "one-backward-pass")
        if len(bw) != 1:
            return
        p.prove(opt.f["from"] == (0 if is_term(nb) else 1), "gradients-cleared-only-before-the-first-episode-of-the-batch")
        p.prove_eq(ag.f["n_backward"], seqs.add(nb, 1), "one-more-accumulated-gradient")
        seq = [ag.f[k] for k in ("reward_sequences", "log_prob_sequences", "entropy_sequences")]
        for s in seq:
            p.prove(isinstance(s, PyList) and isinstance(s.f["data"], list) and len(s.f["data"]) == 1
                    and s.f["data"][0].f["data"] == [], "one-empty-episode-left")
        p.prove(len({id(s) for s in seq} | {id(s.f["data"][0]) for s in seq}) == 6, "episode-lists-not-shared")
        p.prove(bw[0].deps == deps, "gradient-of-the-policy")
        if bmc:
            want = z3.RealVal(0)
            for k in range(M):
                for j in range(lens(k)):
                    want = want + ell(k, j)
        elif several:
            want = summ(p, off(num(M)), flat)
        else:
            want = summ(p, lens(0), lambda j: ell(0, j))
        check_loss(p, bw[0].scalar(), fold(want / real(B)), "loss-is-minus-return-times-log-probability-minus-entropy-bonus")

    return run


def u_step(which):
    """batch_update / update_with_accumulated_grad: exactly one optimiser step"""

    def run(ip, p):
        B = p.int("batchsize")
        p.assume(B >= 1)
        mg = None if p.choose(2) == 0 else p.real("max_grad_norm")
        net = RowNet("model", "pi")
        ag, opt = make(ip, p, net, batchsize=B, max_grad_norm=mg)
        acc = []

        def accumulate(ip, f, args, kw):
            # by contract (proved above)
            acc.append(len(opt.f["steps"]))
            if p.decide(fold(num(ag.f["n_backward"]) == 0)):
                opt.set("from", len(p.ghost.setdefault("backward", [])))
            p.ghost.setdefault("backward", []).append(T((), lambda: p.real("loss"), deps=(net.uid,)))
            ag.set("n_backward", seqs.add(ag.f["n_backward"], 1))

        ip.contracts[Q + "accumulate_grad"] = accumulate
        if which == "batch_update":
            for k in ("reward_sequences", "log_prob_sequences", "entropy_sequences"):
                ag.set(k, PyList(SymSeq(B, lambda i: p.obj("episode")), k))
        else:
            ag.set("n_backward", B)
            opt.f["from"] = 0
            p.ghost.setdefault("backward", []).append(T((), lambda: p.real("loss"), deps=(net.uid,)))
        ip.call(ip.getattr(ag, which), [])
        p.prove(len(acc) == (1 if which == "batch_update" else 0), "gradients-accumulated-once")
        p.prove(len(opt.f["steps"]) == 1 and len(opt.f["steps"][0]) == 1, "one-step-on-the-accumulated-gradient")
        cl = p.ghost["clips"]
        if mg is None:
            p.prove(cl == [], "no-clipping-unless-asked")
        else:
            p.prove(len(cl) == 1 and cl[0][1:] == (0, 1), "clipped-after-backward-before-the-step")
            if cl:
                p.prove_eq(cl[0][0], mg, "clipped-at-the-given-norm")
        p.prove_eq(ag.f["n_backward"], 0, "batch-counter-restarts")

    return run


def u_observe(ip, p):
    """a reward goes to the current episode; an update happens exactly when the
    batch of episodes is complete"""
    B = p.int("batchsize")
    p.assume(B >= 1)
    sep = p.choose(2) == 1
    net = RowNet("model", "pi")
    ag, opt = make(ip, p, net, batchsize=B, backward_separately=sep)
    p.prove(ip.truth(ip.getattr(ag, "training")), "trains-by-default")
    ev = []
    names = ("reward_sequences", "log_prob_sequences", "entropy_sequences")

    def reset():
        for k in names:
            ag.set(k, PyList([PyList([], ip.alloc_label("new"))], k))

    def accumulate(ip, f, args, kw):
        ev.append("accumulate")
        ag.set("n_backward", seqs.add(ag.f["n_backward"], 1))
        reset()

    def batch(ip, f, args, kw):
        ev.append("batch_update")
        p.prove(fold(num(seqs.seq_len(ag.f["reward_sequences"])) == num(B)), "batch-complete-at-the-update")
        snap()
        reset()
        ag.set("n_backward", 0)

    def with_acc(ip, f, args, kw):
        ev.append("step")
        p.prove(fold(num(ag.f["n_backward"]) == num(B)), "batch-complete-at-the-update")
        ag.set("n_backward", 0)

    seen = {}

    def snap():
        for k in names:
            seen[k] = ag.f[k].f["data"]

    ip.contracts[Q + "accumulate_grad"] = accumulate
    ip.contracts[Q + "batch_update"] = batch
    ip.contracts[Q + "update_with_accumulated_grad"] = with_acc
    # any reachable state: m finished episodes wait, the current one has n steps
    m, n = p.int("finished"), p.int("n")
    p.assume(z3.And(m >= 0, m < B, n >= 0))
    if sep:
        ag.set("n_backward", m)
    cur, fin = {}, {}
    for k in names:
        f = p.fn(k, I, Obj if k != names[0] else R)
        # the action was taken (act) before the reward arrives
        ln = n if k == names[0] else fold(n + 1)
        cur[k] = PyList(SymSeq(ln, lambda i, f=f: f(num(i)), True), ip.alloc_label("current"))
        g = p.fn("finished." + k, I, Obj)
        fin[k] = g
        if sep:
            ag.set(k, PyList([cur[k]], k))
        else:
            ag.set(k, PyList(SymSeq(fold(m + 1), lambda i, k=k, g=g: cur[k] if p.decide(fold(num(i) == m)) else g(num(i))), k))
    old = {k: cur[k].f["data"] for k in names}
    ag.set("train_recurrent_states", p.obj("states"))
    rs = ag.f["train_recurrent_states"]
    t0 = p.int("t")
    ag.set("t", t0)
    done, reset_ = p.bool("done"), p.bool("reset")
    r = p.real("reward")
    ip.call(ip.getattr(ag, "observe"), [p.obj("obs"), r, done, reset_])
    p.prove_eq(ag.f["t"], fold(t0 + 1), "steps-counted")
    if p.decide(done):
        p.prove_eq(cur[names[0]].f["data"], seqs.seq_append(old[names[0]], r), "reward-recorded-with-its-episode")
        for k in names[1:]:
            p.prove_eq(cur[k].f["data"], old[k], "actions-of-the-episode-kept")
        if sep:
            if p.decide(fold(m + 1 == B)):
                p.prove(ev == ["accumulate", "step"], "update-when-the-batch-is-complete")
            else:
                p.prove(ev == ["accumulate"], "gradient-accumulated-after-every-episode")
        elif p.decide(fold(m + 1 == B)):
            p.prove(ev == ["batch_update"], "update-when-the-batch-is-complete")
            for k in seen:
                p.prove(seqs.seq_at(seen[k], m) is cur[k], "the-episode-is-part-of-its-batch")
        else:
            p.prove(ev == [], "no-update-before-the-batch-is-complete")
            for k in names if not ev else ():
                s = ag.f[k]
                p.prove_eq(seqs.seq_len(s), fold(m + 2), "new-episode-started")
                p.prove(seqs.seq_at(s, m) is cur[k], "finished-episode-kept")
                p.prove_eq(seqs.seq_len(seqs.seq_at(s, fold(m + 1))), 0, "new-episode-is-empty")
        p.prove(ag.f["train_recurrent_states"] is None, "recurrent-state-cleared-at-the-end")
    else:
        p.prove(ev == [], "no-update-inside-an-episode")
        for k in names:
            s = ag.f[k]
            p.prove_eq(seqs.seq_len(s), 1 if sep else fold(m + 1), "same-number-of-episodes")
        if p.decide(reset_):
            for k in names:
                c = seqs.seq_at(ag.f[k], 0 if sep else m)
                p.prove_eq(seqs.seq_len(c), 0, "unfinished-episode-thrown-away")
            p.prove(ag.f["train_recurrent_states"] is None, "recurrent-state-cleared-at-the-end")
        else:
            for k in names:
                c = seqs.seq_at(ag.f[k], 0 if sep else m)
                p.prove(c is cur[k], "current-episode-continues")
            p.prove_eq(cur[names[0]].f["data"], seqs.seq_append(old[names[0]], r), "reward-recorded-with-its-episode")
            for k in names[1:]:
                p.prove_eq(cur[k].f["data"], old[k], "actions-of-the-episode-kept")
            p.prove(ag.f["train_recurrent_states"] is rs, "recurrent-state-kept-inside-an-episode")


def u_act(ip, p):
    """act records the log-probability of the action it returns, and the entropy"""
    net = RowNet("model", "pi")
    ag, opt = make(ip, p, net)
    names = ("reward_sequences", "log_prob_sequences", "entropy_sequences")
    cur = {}
    n = p.int("n")
    p.assume(n >= 0)
    for k in names:
        f = p.fn(k, I, Obj)
        cur[k] = PyList(SymSeq(n, lambda i, f=f: f(num(i)), True), ip.alloc_label("current"))
        ag.set(k, PyList([p.obj("finished"), cur[k]], k))
    old = {k: cur[k].f["data"] for k in names}
    o = p.obj("obs")
    a = ip.call(ip.getattr(ag, "act"), [o])
    a = a.scalar() if isinstance(a, T) else a
    dr = p.ghost.get("draws", [])
    p.prove(len(dr) == 1, "one-draw-from-the-policy")
    p.prove(fold(real(a) == real(dr[0][2].at(0))), "returns-the-sampled-action")
    p.prove_eq(cur[names[0]].f["data"], old[names[0]], "no-reward-recorded-yet")
    for k, w in ((names[1], lambda: net.logp(o, real(a))), (names[2], lambda: net.ent(o))):
        d = cur[k].f["data"]
        p.prove_eq(seqs.seq_len(d), fold(n + 1), "one-entry-per-action")
        x = seqs.seq_at(d, n)
        if not isinstance(x, T):
            raise Unsupported("recorded " + k)
        p.prove(fold(real(x.scalar()) == w()), "of-the-action-returned-in-the-observed-state")
        p.prove(x.deps == frozenset([net.uid]), "differentiable-in-the-policy")
        p.prove_forall(n, lambda i: fold(seqs.seq_at(d, i) == seqs.seq_at(old[k], i)) if is_term(seqs.seq_at(d, i)) else False, "earlier-entries-kept")


def units(ext):
    ext = dict(ext, **{"numpy.cumsum": Builtin("cumsum", cumsum), "warnings.warn": Builtin("warn", lambda ip, *a, **k: None)})
    from .loops import Logger

    ext["logging.getLogger"] = Builtin("getLogger", lambda ip, *a: Logger())
    return [
        LossUnit("REINFORCE.accumulate_grad[one episode]", u_accumulate(False), ext=dict(ext), covers=[Q + "accumulate_grad"]),
        LossUnit("REINFORCE.accumulate_grad[any number of episodes]", u_accumulate(True), ext=dict(ext), covers=[Q + "accumulate_grad"]),
        Unit("REINFORCE.batch_update", u_step("batch_update"), ext=dict(ext), covers=[Q + "batch_update"]),
        Unit("REINFORCE.update_with_accumulated_grad", u_step("update_with_accumulated_grad"), ext=dict(ext),
             covers=[Q + "update_with_accumulated_grad"]),
        Unit("REINFORCE.observe", u_observe, ext=dict(ext), covers=[Q + "observe"]),
        Unit("REINFORCE.act", u_act, ext=dict(ext), covers=[Q + "act"]),
    ]
