"""Symbolic datasets: a table of transitions (dicts) with mutable columns, row-wise
networks over batches of observations, and suffix recurrences."""
import z3

from pydv import seqs
from pydv.interp import exc
from pydv.tensor import T
from pydv.unit import Unit
from pydv.values import (
    Builtin, HModel, Model, Obj, Opaque, P, PyList, SymSeq, Unsupported, fold, is_term, num, real,
)
from .nets import Net, grad_deps

R, I = z3.RealSort(), z3.IntSort()


class Rows(HModel):
    """n transitions; column key -> function of the row index"""

    ghost = True

    def __init__(self, name, n, cols):
        HModel.__init__(self, "rows:" + name)
        self.name, self.n = name, n
        for k, s in cols.items():
            f = P().fn("%s.%s" % (name, k), I, s)
            self.f[k] = lambda i, f=f: f(num(i))

    def col(self, key, i):
        P().instantiate(i)
        if key not in self.f:
            raise exc("KeyError", key)
        return self.f[key](i)

    def write(self, key, i, v):
        v = v.to_float(None) if isinstance(v, T) else v
        if not (is_term(v) or isinstance(v, (int, float))):
            raise Unsupported("transition field %s := %r" % (key, v))
        if key in self.f:
            old = self.f[key]
        else:
            u = P().fn("undefined." + key, I, v.sort() if is_term(v) and not z3.is_int(v) else R)
            old = lambda j: u(num(j))  # noqa
        v = real(v) if (is_term(v) and v.sort() != Obj) or not is_term(v) else v
        self.set(key, lambda j: seqs.merge(seqs.index_eq(j, i), lambda: v, lambda: old(j), True))

    def havoc_field(self, field, init):
        f = P().fn("havoc." + field, I, R)
        return lambda j: f(num(j))

    def row(self, i):
        return RowRef(self, i)

    def seq(self, lo=0, n=None):
        return SymSeq(self.n if n is None else n, lambda i: self.row(seqs.add(lo, i)))

    def list(self, label="episode"):
        return PyList(self.seq(), label)


class RowRef(Model):
    def __init__(self, rows, i):
        self.rows, self.i = rows, i

    def getitem(self, ip, key):
        return self.rows.col(key, self.i)

    def setitem(self, ip, key, v):
        self.rows.write(key, self.i, v)

    def contains(self, ip, key):
        return key in self.rows.f

    def length(self, ip):
        raise Unsupported("len of a transition")


class StateBatch(Model):
    """batch of observations: row i is the observation at(i)"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def length(self, ip):
        return self.n

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") == "torch.Tensor"


def batch_states(phi=None):
    def f(ip, xs, device, phi_):
        p = P()
        if phi is not None:
            p.prove(phi_ is phi, "batch_states.phi-passed")
        it = ip.iterate(xs)
        if not isinstance(it, (list, SymSeq)):
            it = ip.collect(it)
        return StateBatch(seqs.seq_len(it), lambda i: seqs.seq_at(it, i))

    return Builtin("batch_states", f)


class RowDist(Model):
    def __init__(self, net, x):
        self.net, self.x = net, x

    def m_log_prob(self, ip, a):
        if not isinstance(a, T) or len(a.shape) != 1:
            raise Unsupported("log_prob of %r" % (a,))
        P().prove(fold(num(a.shape[0]) == num(self.x.n)), "log_prob.one-action-per-observation")
        f = self.net.fn("logp", Obj, R, R)
        s = a.snap()
        return T((self.x.n,), lambda i: f(self.x.at(i), real(s(i))), deps=grad_deps(self.net))

    def m_entropy(self, ip):
        f = self.net.fn("entropy", Obj, R)
        return T((self.x.n,), lambda i: f(self.x.at(i)), deps=grad_deps(self.net))

    def m_sample(self, ip):
        p = P()
        f = p.fn("action", I, R)
        t = T((self.x.n,), lambda i: f(num(i)))
        p.ghost.setdefault("draws", []).append((self.net, self.x, t))
        return t


class RowNet(Net):
    """actor-critic applied to every observation of a batch independently"""

    def __init__(self, name, head="both", training=None, src=None):
        self.head = head
        Net.__init__(self, name, None, training, src)

    def deepcopy(self, ip):
        n = RowNet(self.name + "'", self.head, self.f["training"], src=self)
        n.f["rg"] = self.f["rg"]
        return n

    def V(self, o):
        return self.fn("v", Obj, R)(o)

    def logp(self, o, a):
        return self.fn("logp", Obj, R, R)(o, real(a))

    def ent(self, o):
        return self.fn("entropy", Obj, R)(o)

    def m_zero_grad(self, ip, *a, **k):
        P().ghost["zeroed"] = dict(P().ghost.get("zeroed", {}), **{self.uid: len(P().ghost.setdefault("backward", []))})

    def m___call__(self, ip, x):
        if not isinstance(x, StateBatch):
            raise Unsupported("network input %r" % (x,))
        self.calls.append((x, P().ghost.get("nograd"), self.f["training"]))
        v = T((x.n, 1), lambda i, _z: self.V(x.at(i)), deps=grad_deps(self))
        d = RowDist(self, x)
        return {"both": (d, v), "pi": d, "v": v}[self.head]


class Suffix:
    """G(i) = step(i, G(i+1)) for lo <= i < hi, G(hi) = base"""

    def __init__(self, p, name, lo, hi, base, step):
        self.p, self.lo, self.hi, self.base, self.step = p, lo, hi, base, step
        self.G = p.fn(name, I, R)

    def __call__(self, i):
        i = fold(num(i))
        if self.p.unit.mode == "bmc":
            for k in range(self.p.unit.bmc_bound + 2):
                if self.p.decide(fold(num(i) + k >= num(self.hi))):
                    r = real(self.base)
                    for j in reversed(range(k)):
                        r = real(self.step(fold(num(i) + j), r))
                    return fold(r)
            raise Unsupported("recurrence beyond the bound")
        g = self.G(num(i))
        self.p.assume(z3.Implies(num(i) == num(self.hi), g == real(self.base)))
        self.p.assume(z3.Implies(z3.And(num(i) >= num(self.lo), num(i) < num(self.hi)),
                                 g == real(self.step(i, self.G(fold(num(i) + 1))))))
        self.p.assume(z3.Implies(num(i) + 1 == num(self.hi), z3.And(
            self.G(fold(num(i) + 1)) == real(self.base), g == real(self.step(i, real(self.base))))))
        return g


class SuffixFamily:
    """G(i, j) = step(i, j, G(i+1, j)) for lo <= i < hi, G(hi, j) = base(j)"""

    def __init__(self, p, name, lo, hi, base, step):
        self.p, self.lo, self.hi, self.base, self.step = p, lo, hi, base, step
        self.G = p.fn(name, I, I, R)

    def __call__(self, i, j):
        f = Suffix.__new__(Suffix)
        f.p, f.lo, f.hi, f.base = self.p, self.lo, self.hi, self.base(j)
        f.step = lambda k, g: self.step(k, j, g)
        f.G = lambda k: self.G(num(k), num(j))
        return f(i)


class SuffixUnit(Unit):
    """loops that walk a range backwards, carrying G of the part already seen"""

    bmc_bound = 3

    def loop_anchors(self, ctx, k, loc):
        p = P()
        g = p.ghost.get("suffix")
        if g is None:
            return {}
        iv = ctx.init.get(loc)
        out = {}
        if not callable(iv) and (isinstance(iv, (int, float)) or (is_term(iv) and z3.is_arith(iv))):
            out["G"] = lambda: g(fold(num(g.hi) - num(k)))
        if isinstance(p.objs.get(loc[0]), PyList) and loc[1] == "data" and isinstance(iv, (list, SymSeq)):
            out["rev-G"] = lambda: seqs.seq_concat(
                iv, SymSeq(k, lambda j: g(fold(num(g.hi) - 1 - num(j)))))
            # built from the front
            out["G-from"] = lambda: seqs.seq_concat(
                SymSeq(k, lambda j: g(fold(num(g.hi) - num(k) + num(j)))), iv)
        return out

    def loop_qpreds(self, ctx, k):
        p = P()
        g = p.ghost.get("suffix")
        out = {}
        if g is None:
            return out
        for nm, (o, field, fact) in (p.ghost.get("columns") or {}).items():
            if (o.uid, field) in ctx.init:
                out[nm] = (g.hi, fact, fold(num(g.hi) - num(k)))
        return out
