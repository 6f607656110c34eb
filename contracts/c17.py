"""C17: categorical projection, and the distributional agents built on it."""
import z3

from pydv import seqs
from pydv.tensor import LOG, T, fresh_t, zmax, zmin
from pydv.unit import Unit
from pydv.values import P, SymSeq, Unsupported, fold, is_term, num, real
from . import nets
from .c16 import (
    AgentUnit, World, check_errors, check_loss, copy_of, make, one_step, run_update, same, summ,
)
from .nets import Net

R, I = z3.RealSort(), z3.IntSort()
CD = "pfrl.agents.categorical_dqn"

TRUSTED = [
    "torch: floor/ceil/clamp/scatter_add_ as documented, over the reals",
    "networks uninterpreted; batch_experiences by contract (C08)",
]
ASSUMPTIONS = [
    "real arithmetic: float rounding of (y - v_min) / delta_z is not modelled (the second clamp is only needed for it)",
    "support: at least two evenly spaced ascending atoms",
    "total mass and mean over a row follow from the kernel identities (unit 'kernel') by exchanging the finite sums",
]


class Support:
    def __init__(self, p):
        self.N = p.int("n_atoms")
        p.assume(self.N >= 2)
        if p.unit.mode == "bmc":
            k = p.int("n_atoms_minus_2")
            p.assume(self.N == k + 2)
            self.N = p.expand(k) + 2
        self.vmin, self.dz = p.real("v_min"), p.real("delta_z")
        p.assume(self.dz > 0)
        self.z = T((self.N,), lambda j: fold(self.vmin + real(j) * self.dz))

    def position(self, y):
        """place of y on the support, clipped to its ends"""
        return zmin(zmax(fold((real(y) - self.vmin) / self.dz), z3.RealVal(0)), fold(real(self.N) - 1))


def hat(d):
    d = real(d)
    a = z3.If(d >= 0, d, -d)
    return z3.If(a < 1, 1 - a, z3.RealVal(0))


def u_kernel(ip, p):
    b, N, j = p.real("b"), p.int("N"), p.int("j")
    p.assume(z3.And(N >= 2, b >= 0, b <= z3.ToReal(N) - 1, j >= 0, j < N))
    l = z3.ToInt(b)
    lr = z3.ToReal(l)
    h = lambda k: hat(b - z3.ToReal(k))
    p.prove(h(j) >= 0, "nonnegative")
    p.prove(z3.Implies(z3.And(j != l, j != l + 1), h(j) == 0), "only-the-two-neighbours-receive-mass")
    p.prove(h(l) + h(l + 1) == 1, "mass-one")
    p.prove(h(l) * lr + h(l + 1) * (lr + 1) == b, "mean-kept")
    p.prove(z3.Implies(l == N - 1, z3.And(h(l) == 1, h(l + 1) == 0)), "nothing-beyond-the-last-atom")
    p.prove(z3.Implies(b == z3.ToReal(j), h(j) == 1), "support-point-keeps-all-its-mass")


def u_projection(ip, p):
    s = Support(p)
    B = p.int("B")
    p.assume(B >= 1)
    if p.unit.mode == "bmc":
        B = p.expand(B)
    y, pr = fresh_t(p, "y", (B, s.N)), fresh_t(p, "p", (B, s.N))
    f = ip.get_func(CD, "_apply_categorical_projection")
    r = ip.call(f, [y, pr, s.z])
    if not isinstance(r, T) or len(r.shape) != 2:
        raise Unsupported("result %r" % (r,))
    p.prove(fold(z3.And(num(r.shape[0]) == num(B), num(r.shape[1]) == num(s.N))), "shape")
    b, j = p.int("row"), p.int("atom")
    p.assume(z3.And(b >= 0, b < num(B), j >= 0, j < num(s.N)))
    v = r.at(b, j)
    p.prove_sum(v, s.N, lambda a: fold(real(pr.at(b, a)) * hat(fold(s.position(y.at(b, a)) - real(j)))),
                "each-atom-splits-its-mass-between-its-neighbours")


def projection_stub(w, s, rec):
    def stub(ip, f, args, kw):
        p = P()
        a = list(args)
        y, pr, z = a
        t = fresh_t(p, "projected", (w.B, s.N))
        rec.append((y, pr, z, t))
        return t

    return stub


def u_agent(name, mod, double, acc, weighted, recurrent):
    def run(ip, p):
        w = World(p, weighted, recurrent)
        s = Support(p)
        net = Net("model", nets.q_distributional(w.B, w.A, s.z))
        rec = []
        ag, opt, buf = make(ip, p, w, ip.get_class(mod, name), net, batch_accumulator=acc)
        ip.contracts[CD + "._apply_categorical_projection"] = projection_stub(w, s, rec)
        target = copy_of(p, net)
        modes = (net.f["training"], target.f["training"])
        run_update(ip, p, w, ag, recurrent)
        if len(rec) != 1:
            raise Unsupported("projection not applied once by the function under contract")
        y, pr, z, t = rec[0]
        d = net.fn(w.key(False), I, I, I, R)
        dn, tn = net.fn(w.key(True), I, I, I, R), target.fn(w.key(True), I, I, I, R)
        sel = dn if double else tn
        best = lambda b: p.arg_of(w.A, lambda a: summ(p, s.N, lambda n: fold(
            sel(num(b), num(a), num(n)) * real(s.z.at(n)))), True)
        tz = w.target(lambda b, n: s.z.at(n))

        def forall2(fn, nm):
            p.prove_forall(w.B, lambda b: p.forall_holds(s.N, lambda n: fn(b, n)), nm)

        p.prove(len(y.shape) == 2 and len(pr.shape) == 2, "projection-input-shape")
        forall2(lambda b, n: fold(real(y.at(b, n)) == real(tz(b, n))), "target-atoms")
        forall2(lambda b, n: fold(real(pr.at(b, n)) == tn(num(b), num(best(b)), num(n))), "target-probabilities")
        p.prove_forall(s.N, lambda n: fold(real(z.at(n)) == real(s.z.at(n))), "projected-on-the-support")
        loss = one_step(p, opt, {net.uid}, "update")
        clampd = lambda v: zmin(zmax(v, z3.Q(1, 10 ** 10)), z3.RealVal(1))
        ce = lambda b, n: fold(-real(t.at(b, n)) * LOG(clampd(d(num(b), num(w.act.at(b)), num(n)))))
        row = lambda b: summ(p, s.N, lambda n: ce(b, n))
        if loss is not None:
            if weighted:
                want = summ(p, w.B, lambda b: fold(row(b) * w.w(num(b))))
            else:
                want = summ(p, w.B, row)
            if acc == "mean":
                want = fold(want / real(w.B))
            check_loss(p, loss.at(), want, "cross-entropy-loss")
        check_errors(ip, p, w, buf, row)
        p.prove(same(p, net.f["training"], modes[0]) and same(p, target.f["training"], modes[1]),
                "network-modes-restored")

    return run


def units(tier):
    ext = nets.agent_ext()
    us = [Unit("kernel", u_kernel), AgentUnit("projection", u_projection, ext=dict(ext))]
    for name, mod, dbl in (("CategoricalDQN", CD, False),
                           ("CategoricalDoubleDQN", "pfrl.agents.categorical_double_dqn", True)):
        us.append(AgentUnit(name + ".update", u_agent(name, mod, dbl, "mean", False, False), ext=dict(ext)))
        us.append(AgentUnit(name + ".update[recurrent]", u_agent(name, mod, dbl, "mean", False, True), ext=dict(ext)))
        us.append(AgentUnit(name + ".update[weighted]", u_agent(name, mod, dbl, "mean", True, False), ext=dict(ext)))
        us.append(AgentUnit(name + ".update[sum]", u_agent(name, mod, dbl, "sum", False, False), ext=dict(ext)))
    return us
