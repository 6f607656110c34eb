"""C25: a TRPO policy update stays inside the trust region."""
import z3

from pydv import seqs
from pydv.tensor import T, as_t, fresh_t, zexp, zsqrt
from pydv.unit import Unit
from pydv.values import Builtin, HModel, Model, Obj, Opaque, P, PyList, SymSeq, Unsupported, fold, is_term, num, real
from . import nets
from .c16 import check_loss, summ
from .loops import Logger
from .onpolicy import COLS, TRPO, Normaliser, StepOptim, VDist, VNet, onp_ext, standardised, trpo_agent
from .rows import I, R, Rows, StateBatch, batch_states

TRUSTED = [
    "torch operators compute the stated real-valued functions; torch.autograd.grad and "
    "torch.distributions.kl_divergence are uninterpreted functions of their arguments",
    "a network's output is a function of its parameters (a version advanced by every write) and of the observation",
    "torch.isfinite is an uninterpreted predicate on the value",
]
ASSUMPTIONS = ["real arithmetic", "the damped Fisher matrix is positive semidefinite", "two policy parameters of arbitrary sizes stand for any number of them"]
BOUNDED = [
    "recurrent policies (_update_policy_recurrent, recurrent _line_search), the exactness of conjugate_gradient "
    "and of autograd's Hessian-vector products are exercised by the replay harness only",
]
Q = TRPO + ".TRPO."
FIN = z3.Function("isfinite", z3.RealSort(), z3.BoolSort())


class Param(T):
    """parameter of a network: writing it advances the network's version"""

    def __init__(self, net, shape, at):
        T.__init__(self, shape, at, deps=(net.uid,), label="parameter")
        self.net = net

    def p_data(self, ip):
        return PData(self)

    def isinstance_(self, ip, t):
        return getattr(t, "name", "").split(".")[-1] in ("Tensor", "Parameter")

    def m_copy_(self, ip, src):
        P().prove(bool(P().ghost.get("nograd")), "parameters-written-outside-the-graph")
        return self.write(src)

    def write(self, src):
        p = P()
        p.prove(isinstance(src, T) and len(src.shape) == len(self.shape), "parameter-shape-kept")
        for a, b in zip(src.shape, self.shape):
            p.prove(fold(num(a) == num(b)), "parameter-shape-kept")
        s = src.snap()
        self.put(lambda old, idx: s(*idx))
        self.net.set("version", p.int("version"))
        return self


class PData(Model):
    """.data of a parameter"""

    def __init__(self, prm):
        self.prm = prm

    def m_copy_(self, ip, src):
        return self.prm.write(src)

    def p_shape(self, ip):
        return self.prm.shape


class LastRecord(HModel):
    """statistics deque: what was appended last"""

    ghost = True

    def __init__(self):
        HModel.__init__(self, "record")
        self.f["last"] = None

    def m_append(self, ip, x):
        self.set("last", x.to_float(ip) if isinstance(x, T) else x)

    def m_extend(self, ip, xs):
        raise Unsupported("extend of a record")

    def havoc_field(self, field, init):
        return P().real("last")

    def length(self, ip):
        return P().int("len")


class Policy(VNet):
    def __init__(self, name, head="pi", training=None):
        VNet.__init__(self, name, head, training)
        p = P()
        self.params = []
        self.sizes = []
        for k in range(2):
            n = p.int("size%d" % k)
            p.assume(n >= 1)
            if p.unit.mode == "bmc":
                n = p.expand(n)
            f = p.fn("theta%d" % k, I, R)
            self.sizes.append(n)
            self.params.append(Param(self, (n,), lambda i, f=f: f(num(i))))

    def m_parameters(self, ip):
        return PyList(list(self.params), "parameters")


def kl_divergence(ip, a, b):
    p = P()
    if not isinstance(a, VDist) or not isinstance(b, VDist) or a.net is not b.net:
        raise Unsupported("kl_divergence")
    p.prove(fold(num(a.x.n) == num(b.x.n)), "kl.same-observations")
    f = a.net.fn("kl", I, I, Obj, Obj, R)
    va, vb = num(a.ver), num(b.ver)
    return T((a.x.n,), lambda i: f(va, vb, a.x.at(i), b.x.at(i)), deps=a.deps | b.deps)


def kl_mean(p, net, n, v0, v1, o):
    f = net.fn("kl", I, I, Obj, Obj, R)
    return fold(summ(p, n, lambda i: f(num(v0), num(v1), o(i), o(i))) / real(n))


def gain_of(p, net, n, ver, o, act, lp_old, adv, ec):
    r = lambda i: zexp(fold(net.logp(o(i), act(i), ver) - real(lp_old(i))))  # noqa
    return fold(summ(p, n, lambda i: fold(r(i) * real(adv(i)))) / real(n)
                + ec * (summ(p, n, lambda i: net.ent(o(i), ver)) / real(n)))


def world(ip, p, normalised, **kw):
    n = p.int("N")
    p.assume(n >= 1)
    if p.unit.mode == "bmc":
        n = p.expand(n)
    rows = Rows("data", n, COLS)
    norm = Normaliser(p) if normalised else None
    pi, vf = Policy("policy"), VNet("vf", "v")
    ec, mk = p.real("entropy_coef"), p.real("max_kl")
    p.assume(mk > 0)
    ag = trpo_agent(ip, p, pi, vf, StepOptim(vf), norm, entropy_coef=ec, max_kl=mk, **kw)
    raw = rows.f["state"]
    see = (lambda i: norm.see(raw(i), 0)) if normalised else (lambda i: raw(i))
    return n, rows, norm, pi, vf, ec, mk, ag, see


# ------------------------------------------------------------------ line search
def u_line_search(normalised):
    def run(ip, p):
        bt = p.int("line_search_max_backtrack")
        p.assume(bt >= 0)
        n, rows, norm, pi, vf, ec, mk, ag, see = world(ip, p, normalised, line_search_max_backtrack=bt)
        tr0 = pi.f["training"]
        old = [q.snap() for q in pi.params]
        v0 = pi.f["version"]
        total = fold(num(pi.sizes[0]) + num(pi.sizes[1]))
        if not is_term(pi.sizes[0]):
            total = pi.sizes[0] + pi.sizes[1]
        step = fresh_t(p, "full_step", (total,))
        step0 = step.snap()
        adv = fresh_t(p, "adv", (n,))
        gain = T((), lambda g=p.real("gain"): g, deps=(pi.uid,))
        # the distribution before the update
        dold = VDist(pi, StateBatch(n, see), frozenset())
        rec = ag.f.get("policy_step_size_record")
        if not isinstance(rec, LastRecord):
            raise Unsupported("step size record")
        ip.call(ip.getattr(ag, "_line_search"), [], dict(
            full_step=step, dataset=rows.list("dataset"), advs=adv, action_distrib_old=dold, gain=gain))
        p.prove(all(ng for _, ng, _ in pi.calls), "candidates-evaluated-without-gradient")
        p.prove(all(t is False for _, _, t in pi.calls), "candidates-evaluated-in-evaluation-mode")
        p.prove_eq(pi.f["training"], tr0, "mode-restored")
        off = (0, pi.sizes[0])
        outcome(p, rec, pi, old, off, step0, lambda: (
            kl_mean(p, pi, n, v0, pi.f["version"], see),
            gain_of(p, pi, n, pi.f["version"], see, rows.f["action"], rows.f["log_prob"], adv.at, ec)),
            mk, gain.at())

    return run


def outcome(p, rec, pi, old, off, step0, values, mk, gain):
    """parameters as before, or moved by s * full_step with the constraints met"""
    s = rec.f["last"]
    if s is None:
        raise Unsupported("step size of the accepted step is not recorded")
    # the recorded step size is the witness; zero says that no step was taken
    if p.decide(fold(real(s) == 0)):
        for q in range(2):
            p.prove_forall(pi.sizes[q], lambda i: fold(real(pi.params[q].at(i)) == real(old[q](i))),
                           "parameters-restored-when-no-step-is-acceptable")
        return
    p.prove(fold(z3.And(real(s) > 0, real(s) <= 1)), "step-at-most-the-full-step")
    for q in range(2):
        p.prove_forall(pi.sizes[q], lambda i: fold(
            real(pi.params[q].at(i)) == real(old[q](i)) + real(s) * real(step0(seqs.add(off[q], i)))),
            "parameters-moved-along-the-step")
    kl, g = values()
    p.prove(fold(kl <= mk), "kl-divergence-within-the-bound")
    p.prove(fold(g >= real(gain)), "surrogate-objective-not-decreased")
    p.prove(FIN(real(kl)), "kl-divergence-finite")
    p.prove(FIN(real(g)), "surrogate-objective-finite")


class SearchUnit(Unit):
    bmc_bound = 2

    def loop_preds(self, ctx, k):
        out = {}
        for nm, v in list(ctx.fr.f.items()):
            if isinstance(v, float) or is_term(v) and z3.is_real(v):
                out["pos-" + nm] = lambda v=v: fold(real(v) > 0)
                out["le1-" + nm] = lambda v=v: fold(real(v) <= 1)
        for (u, f), v0 in ctx.init.items():
            o = P().objs.get(u)
            if f == "training" and isinstance(o, VNet):
                b = lambda x: x if is_term(x) else z3.BoolVal(x)  # noqa
                out["mode-" + u] = lambda o=o, v0=v0: fold(b(o.f["training"]) == b(v0))
        return out


def ext_(ext):
    ext = onp_ext(ext)
    ext["collections.deque"] = Builtin("deque", lambda ip, *a, **k: LastRecord())
    ext["torch.distributions.kl_divergence"] = Builtin("kl_divergence", kl_divergence)
    ext["torch.isfinite"] = Builtin("isfinite", isfinite)
    ext["torch.split"] = Builtin("split", split)
    return ext


def isfinite(ip, t):
    if not isinstance(t, T):
        raise Unsupported("isfinite of %r" % (t,))
    s = t.snap()
    return T(t.shape, lambda *i: FIN(real(s(*i))), "bool")


def split(ip, t, sizes, dim=0):
    sz = ip.collect(ip.iterate(sizes)) if not isinstance(sizes, int) else None
    if sz is None or not isinstance(t, T) or len(t.shape) != 1:
        raise Unsupported("split")
    tot = 0
    for n in sz:
        tot = seqs.add(tot, n)
    P().prove(fold(num(tot) == num(t.shape[0])), "split.sizes-add-up")
    out, at = [], 0
    for n in sz:
        out.append(t.view((n,), lambda idx, at=at: (seqs.add(at, idx[0]),)))
        at = seqs.add(at, n)
    return tuple(out)


# ------------------------------------------------------------------ policy update
def u_update_policy(normalised, standardise):
    """the surrogate objective, the old distribution and the advantages handed on"""

    def run(ip, p):
        p.ghost["track_detach"] = True
        n, rows, norm, pi, vf, ec, mk, ag, see = world(ip, p, normalised, standardize_advantages=standardise)
        before = dict(rows.f)
        v0 = pi.f["version"]
        calls = {}
        full = fresh_t(p, "full", (p.int("total"),))

        def kl_step(ip, f, a, k):
            d = dict(zip(("self", "action_distrib", "action_distrib_old", "gain"), a), **k)
            p.prove("step" not in calls, "one-step-computed")
            calls["step"] = d
            return full

        def search(ip, f, a, k):
            p.prove("search" not in calls and "step" in calls, "one-line-search-after-the-step")
            calls["search"] = dict(zip(("self", "full_step", "dataset", "advs", "action_distrib_old", "gain"), a), **k)

        ip.contracts[Q + "_compute_kl_constrained_step"] = kl_step
        ip.contracts[Q + "_line_search"] = search
        data = rows.list("dataset")
        ip.call(ip.getattr(ag, "_update_policy"), [data])
        p.prove(set(calls) == {"step", "search"}, "step-then-line-search")
        if set(calls) != {"step", "search"}:
            return
        st, se = calls["step"], calls["search"]
        p.prove(se["full_step"] is full, "searched-along-the-computed-step")
        p.prove(se["dataset"] is data, "whole-dataset")
        adv = standardised(p, n, before["adv"]) if standardise else (lambda x: x)
        want = lambda i: adv(before["adv"](i))  # noqa
        A = se["advs"]
        if not isinstance(A, T) or len(A.shape) != 1:
            raise Unsupported("advantages")
        p.prove(fold(num(A.shape[0]) == num(n)), "one-advantage-per-transition")
        p.prove_forall(n, lambda i: fold(real(A.at(i)) == real(want(i))), "advantages-standardised-iff-asked")
        p.prove(se["gain"] is st["gain"], "same-objective")
        g = st["gain"]
        if not isinstance(g, T):
            raise Unsupported("gain")
        p.prove(g.deps == frozenset([pi.uid]), "objective-differentiable-in-the-policy")
        check_loss(p, g.scalar(), gain_of(p, pi, n, v0, see, before["action"], before["log_prob"], want, ec), "surrogate-objective")
        for d, nm, grad in ((st["action_distrib"], "new", True), (st["action_distrib_old"], "old", False),
                            (se["action_distrib_old"], "old", False)):
            if not isinstance(d, VDist) or d.net is not pi:
                raise Unsupported("distribution")
            p.prove(fold(num(d.ver) == num(v0)), "distribution-of-the-current-policy")
            p.prove(d.deps == (frozenset([pi.uid]) if grad else frozenset()), nm + "-distribution-" + ("differentiable" if grad else "constant"))
            p.prove(fold(num(d.x.n) == num(n)), "distribution-of-every-observation")
            p.prove_forall(n, lambda i: fold(d.x.at(i) == see(i)), "distribution-of-every-observation")
        p.prove(fold(num(pi.f["version"]) == num(v0)), "parameters-only-changed-by-the-line-search")
        if normalised:
            p.prove(norm.fed == [], "normaliser-not-fed")

    return run


def u_kl_step(ip, p):
    """the step is the conjugate-gradient direction, scaled so that the quadratic
    model of the KL divergence equals max_kl"""
    damp, iters = p.real("damping"), p.int("max_iter")
    p.assume(damp >= 0)
    n, rows, norm, pi, vf, ec, mk, ag, see = world(ip, p, False, conjugate_gradient_damping=damp, conjugate_gradient_max_iter=iters)
    v0 = pi.f["version"]
    x = StateBatch(n, see)
    dnew, dold = VDist(pi, x, frozenset([pi.uid])), VDist(pi, x, frozenset())
    gain = T((), lambda g=p.real("gain"): g, deps=(pi.uid,))
    total = fold(num(pi.sizes[0]) + num(pi.sizes[1])) if is_term(pi.sizes[0]) else pi.sizes[0] + pi.sizes[1]
    klv = kl_mean(p, pi, n, v0, v0, see)
    gk, gg = [[p.fn(nm + str(k), I, R) for k in range(2)] for nm in ("grad_kl", "grad_gain")]

    def grad(ip, outs, params, retain_graph=None, create_graph=False, **kw):
        if kw:
            raise Unsupported("autograd.grad arguments")
        os_ = ip.collect(ip.iterate(outs)) if not isinstance(outs, T) else [outs]
        ps = ip.collect(ip.iterate(params))
        if len(os_) != 1 or not isinstance(os_[0], T):
            raise Unsupported("autograd.grad")
        p.prove(len(ps) == 2 and all(a is b for a, b in zip(ps, pi.params)), "gradient-in-every-parameter-of-the-policy")
        if os_[0] is gain or p.entails(fold(real(os_[0].scalar()) == real(gain.at()))):
            f = gg
        elif p.entails(fold(real(os_[0].scalar()) == klv)):
            p.prove(create_graph is True, "gradient-of-the-kl-divergence-differentiable-again")
            f = gk
        else:
            p.prove(False, "gradient-of-the-objective-or-of-the-mean-kl-divergence")
            f = gk
        return tuple(T((m,), lambda i, h=h: h(num(i)), deps=(pi.uid,) if create_graph else ()) for m, h in zip(pi.sizes, f))

    ip.ext["torch.autograd.grad"] = Builtin("grad", grad)
    cat = lambda f: (lambda i: seqs.merge(seqs.idx_lt(i, pi.sizes[0]), lambda: f[0](num(i)), lambda: f[1](num(seqs.sub(i, pi.sizes[0]))), True))  # noqa
    prods = []

    def hvp(ip, f, a, k):
        d = dict(zip(("flat_grads", "params", "vec"), a), **k)
        fg, v = d["flat_grads"], d["vec"]
        if not isinstance(fg, T) or not isinstance(v, T):
            raise Unsupported("Hessian-vector product")
        p.prove(fold(num(fg.shape[0]) == num(total)), "product-with-the-hessian-of-the-kl-divergence")
        p.prove_forall(total, lambda i: fold(real(fg.at(i)) == cat(gk)(i)), "product-with-the-hessian-of-the-kl-divergence")
        ps = ip.collect(ip.iterate(d["params"]))
        p.prove(len(ps) == 2 and all(q is w for q, w in zip(ps, pi.params)), "hessian-in-every-parameter-of-the-policy")
        h = p.fn("H" + nets.tensor_id(p, v), I, R)
        sv = v.snap()
        prods.append((sv, h))
        # the (damped) Fisher matrix is positive semidefinite
        p.assume(summ(p, total, lambda i: fold(real(sv(i)) * (h(num(i)) + damp * real(sv(i))))) >= 0)
        return T(v.shape, lambda i: h(num(i)))

    ip.contracts[TRPO + "._hessian_vector_product"] = hvp
    cg = []
    xdir = fresh_t(p, "direction", (total,))

    def conj(ip, f, a, k):
        d = dict(zip(("A_product_func", "b", "tol", "max_iter"), a), **k)
        cg.append(d)
        b = d["b"]
        p.prove(isinstance(b, T) and b.deps == frozenset(), "right-hand-side-constant")
        p.prove(fold(num(b.shape[0]) == num(total)), "right-hand-side-is-the-gradient-of-the-objective")
        p.prove_forall(total, lambda i: fold(real(b.at(i)) == cat(gg)(i)), "right-hand-side-is-the-gradient-of-the-objective")
        p.prove_eq(d.get("max_iter", 10), iters, "iterations-passed")
        v = fresh_t(p, "v", (total,))
        r = ip.call(d["A_product_func"], [v])
        h = prods[-1][1] if prods else None
        p.prove(h is not None, "damped-fisher-vector-product")
        if h is not None:
            p.prove_forall(total, lambda i: fold(real(r.at(i)) == h(num(i)) + damp * real(v.at(i))), "damped-fisher-vector-product")
        return xdir

    ip.contracts["pfrl.utils.conjugate_gradient.conjugate_gradient"] = conj
    out = ip.call(ip.getattr(ag, "_compute_kl_constrained_step"), [], dict(
        action_distrib=dnew, action_distrib_old=dold, gain=gain))
    p.prove(len(cg) == 1, "one-linear-system-solved")
    p.prove(isinstance(out, T) and len(out.shape) == 1, "flat-step")
    mine = [h for s, h in prods if p.all_cases(lambda: same_vec(p, total, s, xdir.at))]
    p.prove(len(mine) >= 1, "curvature-along-the-direction")
    if not mine:
        return
    quad = summ(p, total, lambda i: fold(real(xdir.at(i)) * (mine[0](num(i)) + damp * real(xdir.at(i)))))
    root = zsqrt(fold(2 * mk / (quad + z3.RealVal("1/100000000"))))
    p.prove_forall(total, lambda i: fold(real(out.at(i)) == root * real(xdir.at(i))), "scaled-to-the-kl-bound")


def same_vec(p, n, a, b):
    i = p.int("i")
    p.assume(z3.And(i >= 0, i < num(n)))
    return p.entails(fold(real(a(i)) == real(b(i))))


class StepSizeUnit(Unit):
    bmc_bound = 2

    def power(self, ip, a, b):
        if not is_term(b) and b == 0.5:
            return zsqrt(fold(real(a)))
        return Unit.power(self, ip, a, b)


def units(tier):
    ext = ext_(nets.agent_ext())
    us = []
    for nm in (False, True):
        us.append(SearchUnit("TRPO._line_search" + ("[normaliser]" if nm else ""), u_line_search(nm), ext=dict(ext), covers=[Q + "_line_search"]))
    for nm, st in ((False, False), (True, True)):
        us.append(Unit("TRPO._update_policy[%s]" % ("normaliser,standardised" if nm else "plain"), u_update_policy(nm, st), ext=dict(ext), covers=[Q + "_update_policy", Q + "_compute_gain"]))
    us.append(StepSizeUnit("TRPO._compute_kl_constrained_step", u_kl_step, ext=dict(ext), covers=[Q + "_compute_kl_constrained_step"]))
    return us
