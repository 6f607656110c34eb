"""Contracts of 1-d integer/real numpy arrays, sets, and numpy.random."""
import z3

from . import seqs
from .interp import SliceVal, exc
from .unit import Rep
from .values import (
    HModel, Obj, P, Builtin, SymSeq, Unsupported, fold, is_int, is_term, num, real, boolt,
)


class NpArr(HModel):
    """one-dimensional array; field data: SymSeq of scalars"""

    def __init__(self, data, label="nparr", sort=None):
        HModel.__init__(self, label)
        self.f["data"] = seqs.as_seq(data)
        self.sort = z3.IntSort() if sort is None else sort

    def length(self, ip):
        return self.f["data"].n

    def iter(self, ip):
        return self.f["data"]

    def getitem(self, ip, i):
        d = self.f["data"]
        if isinstance(i, SliceVal):
            lo, n = ip.slice_bounds(i, d.n)
            # a view; the code under contract only reads it
            return NpArr(seqs.seq_slice(d, lo, n), ip.alloc_label("npview"), self.sort)
        return seqs.seq_at(d, ip.norm_index(i, d.n, "array"))

    def setitem(self, ip, i, v):
        d = self.f["data"]
        if isinstance(i, SliceVal):
            lo, n = ip.slice_bounds(i, d.n)
            src = seqs.as_seq(v.f["data"] if isinstance(v, NpArr) else ip.iterate(v))
            if not P().decide(fold(num(src.n) == num(n))):
                raise exc("ValueError", "broadcast")
            hi = seqs.add(lo, n)
            self.set("data", SymSeq(
                d.n,
                lambda j: seqs.merge(
                    fold(z3.And(num(j) >= num(lo), num(j) < num(hi))),
                    lambda: src.at(seqs.sub(j, lo)), lambda: d.at(j), True),
                True,
            ))
            return
        j = ip.norm_index(i, d.n, "array")
        self.set("data", seqs.seq_set(d, j, v))

    def havoc_field(self, field, init):
        f = P().fn("arr", z3.IntSort(), self.sort)
        return seqs.seq_of_fn(init.n, f)

    def m_tolist(self, ip):
        from .values import PyList

        return PyList(self.f["data"], ip.alloc_label("tolist"))

    def m_copy(self, ip):
        return NpArr(self.f["data"], ip.alloc_label("npcopy"), self.sort)

    def m_astype(self, ip, *a, **k):
        return NpArr(self.f["data"], ip.alloc_label("npcopy"), self.sort)

    def p_size(self, ip):
        return self.f["data"].n

    def p_shape(self, ip):
        return (self.f["data"].n,)


class SymSet(HModel):
    """set of integers: an enumeration without repetition (n, seq) and its
    inverse inv, so that membership is quantifier free."""

    def __init__(self, label="symset"):
        HModel.__init__(self, label)
        self.f["seq"] = SymSeq(0, lambda i: z3.IntVal(0), True)
        self.f["inv"] = P_array("inv")
        SetRep(self)

    def mem(self, x):
        x = num(x)
        inv, s = self.f["inv"], self.f["seq"]
        a = z3.Select(inv, x)
        P().instantiate(a)
        return fold(z3.And(a >= 0, a < num(s.n), num(s.at(a)) == x))

    def contains(self, ip, x):
        return self.mem(x)

    def m_add(self, ip, x):
        if P().decide(self.mem(x)):
            return None
        s = self.f["seq"]
        self.set("inv", z3.Store(self.f["inv"], num(x), num(s.n)))
        self.set("seq", seqs.seq_append(s, num(x)))

    def length(self, ip):
        return self.f["seq"].n


def P_array(base):
    return z3.Array(P().name(base), z3.IntSort(), z3.IntSort())


class SetRep(Rep):
    fields = ("seq", "inv")

    def view(self, ip=None):
        return self.obj.f["seq"]

    def fresh_view(self, ip=None):
        p = P()
        n = p.int("setn")
        p.assume(n >= 0)
        f = p.fn("setseq", z3.IntSort(), z3.IntSort())
        return seqs.seq_of_fn(n, f)

    def build(self, ip, s):
        p = P()
        inv = P_array("inv")
        self.obj.f["seq"] = s
        self.obj.f["inv"] = inv
        p.forall(s.n, lambda a: z3.Select(inv, num(s.at(a))) == a)


def int_arr(p, n, lo=None, hi=None, base="draw"):
    """fresh array of n integers in [lo, hi)"""
    f = p.fn(base, z3.IntSort(), z3.IntSort())
    if hi is not None:
        p.forall(n, lambda i: z3.And(f(i) >= num(lo), f(i) < num(hi)))
    s = seqs.seq_of_fn(n, f)
    if hi is not None:
        # the range holds at every index ever read, however deeply nested the read
        def at(i, at0=s.at):
            P().s.add(z3.Implies(z3.And(num(i) >= 0, num(i) < num(n)), z3.And(f(num(i)) >= num(lo), f(num(i)) < num(hi))))
            return at0(i)

        s = SymSeq(s.n, at, True)
    return NpArr(s, base)


def distinct_arr(p, n, k, base="sample"):
    """fresh array of k pairwise distinct integers in [0, n)"""
    a = int_arr(p, k, 0, n, base)
    s = a.f["data"]
    inv = P_array("inv")
    p.forall(k, lambda i: z3.Select(inv, num(s.at(i))) == i)
    p.ghost.setdefault("samples", []).append((n, k, s))
    return a


def np_choice(ip, a, size=None, replace=True, p=None):
    pp = P()
    if p is not None or not is_int(a):
        raise Unsupported("numpy.random.choice on arrays")
    if not pp.decide(fold(num(a) > 0)):
        if size is not None and pp.decide(fold(num(size) == 0)):
            return NpArr([], "draw")
        raise exc("ValueError", "a must be positive")
    if size is None:
        x = pp.int("draw")
        pp.assume(z3.And(x >= 0, x < num(a)))
        return x
    if pp.decide(fold(num(size) < 0)):
        raise exc("ValueError", "negative dimensions")
    rep = ip.truth(replace)
    if rep:
        return int_arr(pp, size, 0, a)
    if pp.decide(fold(num(size) > num(a))):
        raise exc("ValueError", "larger sample than population")
    return distinct_arr(pp, a, size)


def np_randint(ip, low, high=None, size=None, dtype=None):
    p = P()
    if high is None:
        low, high = 0, low
    if not p.decide(fold(num(low) < num(high))):
        raise exc("ValueError", "low >= high")
    if size is not None:
        return int_arr(p, size, low, high)
    x = p.int("randint")
    p.assume(z3.And(x >= num(low), x < num(high)))
    p.ghost.setdefault("randints", []).append(x)
    p.ghost.setdefault("randint_ranges", []).append((x, low, high))
    return x


def np_permutation(ip, n):
    if not is_int(n):
        raise Unsupported("permutation of array")
    return distinct_arr(P(), n, n)


def np_empty(ip, shape, dtype=None):
    n = shape[0] if isinstance(shape, tuple) else shape
    if isinstance(shape, tuple) and len(shape) != 1:
        raise Unsupported("np.empty rank")
    return int_arr(P(), n, base="uninit")


def np_random_ext():
    r = {}
    for nm, f in [
        ("numpy.random.choice", np_choice),
        ("numpy.random.randint", np_randint),
        ("numpy.random.permutation", np_permutation),
        ("numpy.empty", np_empty),
        ("numpy.zeros", np_empty),
    ]:
        r[nm] = Builtin(nm, f)

    def rsample(ip, pop, k):
        it = ip.iterate(pop)
        p = P()
        n = it.n if isinstance(it, SymSeq) else len(it)
        if not p.decide(fold(z3.And(num(k) >= 0, num(k) <= num(n)))):
            raise exc("ValueError")
        a = distinct_arr(p, n, k)
        s = a.f["data"]
        from .values import PyList

        sq = seqs.as_seq(it)
        return PyList(SymSeq(k, lambda i: sq.at(s.at(i))), "rsample")

    r["random.sample"] = Builtin("random.sample", rsample)
    return r


def same_int_locals(ctx):
    """integer locals of the current frame and its callers' frame"""
    return {n: v for n, v in ctx.fr.f.items() if is_int(v)}


def int_candidates(ctx, terms):
    """name-independent bounds: every integer local against every term"""
    out = {}
    for n in list(ctx.fr.f):
        v = ctx.fr.f[n]
        if not is_int(v):
            continue
        for tn, t in terms.items():
            out["%s>=%s" % (n, tn)] = lambda v=v, t=t: num(v) >= num(t)
            out["%s<=%s" % (n, tn)] = lambda v=v, t=t: num(v) <= num(t)
            out["%s<%s" % (n, tn)] = lambda v=v, t=t: num(v) < num(t)
    return out
