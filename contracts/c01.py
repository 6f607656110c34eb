"""C01: RandomAccessQueue is a bounded FIFO sequence (data refinement)."""
import z3

from pydv import seqs
from pydv.unit import Unit
from pydv.values import Obj, P, PyExc, PyList, SymSeq, fold, num
from .raq import MOD, QUAL, RaqRep, last, sym_queue

TRUSTED = []
ASSUMPTIONS = [
    "elements are opaque values; list/itertools.chain/reversed follow the language reference",
]


class QUnit(Unit):
    """the eviction loop removes k elements from the left: view = drop k"""

    def rep_anchors(self, ctx, k, rep):
        s = ctx.rep_init[rep.uid]
        return {
            "drop-k": lambda: seqs.seq_slice(s, k, seqs.sub(s.n, k)),
        }

    def loop_preds(self, ctx, k):
        p = P()
        out = {}
        for r in ctx.reps:
            s0 = ctx.rep_init[r.uid]
            out["k<=n0"] = lambda s0=s0: num(k) <= num(s0.n)
            ml = r.obj.f["maxlen"]
            if ml is not None:
                out["n-k>=maxlen"] = lambda s0=s0, ml=ml: z3.Or(
                    num(k) == 0, num(s0.n) - num(k) >= num(ml)
                )
        return out


def expect_index_error(ip, p, fn, name):
    try:
        fn()
    except PyExc as e:
        p.prove(e.value.pyclass() is IndexError, name + ".raises-IndexError")
        return
    p.prove(False, name + ".raises-IndexError")


def u_init(ip, p):
    cls = ip.get_class(MOD, "RandomAccessQueue")
    ml = None if p.choose(2) == 0 else p.int("maxlen")
    if ml is not None:
        p.assume(ml >= 0)
    n = p.int("n")
    p.assume(n >= 0)
    f = p.fn("X", z3.IntSort(), Obj)
    xs = PyList(seqs.seq_of_fn(n, f), "arg")
    src = xs.f["data"]
    args = [] if p.choose(2) == 0 else [xs]
    o = p_obj = None
    # run the constructor on a registered object so that its loop is abstracted
    from pydv.values import PyObj
    from pydv.interp import BoundMethod

    o = PyObj(cls, "Q")
    rep = RaqRep(o)
    init, _ = cls.lookup("__init__")
    ip.call(BoundMethod(init, o), args, {} if p.choose(2) == 0 and ml is None else {"maxlen": ml})
    want = last(p, src if args else SymSeq(0, lambda i: None, True), ml)
    p.prove(rep.valid(), "init.representation")
    p.prove_eq(o.f["maxlen"], ml, "init.maxlen")
    p.prove_eq(rep.view(), want, "init.view")
    p.prove(xs.f["data"] is src, "init.argument-unchanged")
    p.prove(
        o.f["_queue_back"] is not xs and o.f["_queue_front"] is not xs,
        "init.no-alias",
    )


def u_append(ip, p):
    o, rep, v, ml = sym_queue(ip, p)
    x = p.obj("x")
    ip.call(ip.getattr(o, "append"), [x])
    p.prove(rep.valid(), "append.representation")
    p.prove_eq(rep.view(), last(p, seqs.seq_append(v, x), ml), "append.view")
    p.prove_eq(o.f["maxlen"], ml, "append.maxlen")


def u_extend(ip, p):
    o, rep, v, ml = sym_queue(ip, p)
    n = p.int("n")
    p.assume(n >= 0)
    f = p.fn("X", z3.IntSort(), Obj)
    xs = PyList(seqs.seq_of_fn(n, f), "arg")
    src = xs.f["data"]
    ip.call(ip.getattr(o, "extend"), [xs])
    p.prove(rep.valid(), "extend.representation")
    p.prove_eq(rep.view(), last(p, seqs.seq_concat(v, src), ml), "extend.view")
    p.prove_eq(o.f["maxlen"], ml, "extend.maxlen")


def u_popleft(ip, p):
    o, rep, v, ml = sym_queue(ip, p)
    if p.decide(fold(num(v.n) == 0)):
        expect_index_error(ip, p, lambda: ip.call(ip.getattr(o, "popleft"), []), "popleft")
        p.prove_eq(rep.view(), v, "popleft.empty-unchanged")
        return
    r = ip.call(ip.getattr(o, "popleft"), [])
    p.prove_eq(r, v.at(z3.IntVal(0)), "popleft.returns-oldest")
    p.prove_eq(rep.view(), seqs.seq_slice(v, 1, v.n - 1), "popleft.view")
    p.prove(rep.valid(), "popleft.representation")


def u_len(ip, p):
    o, rep, v, ml = sym_queue(ip, p)
    p.prove_eq(ip.length(o), v.n, "len")
    p.prove_eq(rep.view(), v, "len.unchanged")


def u_iter(ip, p):
    o, rep, v, ml = sym_queue(ip, p)
    p.prove_eq(ip.iterate(o), v, "iter.in-order")
    p.prove_eq(rep.view(), v, "iter.unchanged")


def u_getitem(ip, p):
    o, rep, v, ml = sym_queue(ip, p)
    i = p.int("i")
    if p.decide(z3.And(i >= -v.n, i < v.n)):
        r = ip.getitem(o, i)
        p.prove_eq(r, v.at(z3.If(i >= 0, i, i + v.n)), "getitem.value")
    else:
        expect_index_error(ip, p, lambda: ip.getitem(o, i), "getitem")
    p.prove_eq(rep.view(), v, "getitem.unchanged")


def u_setitem(ip, p):
    o, rep, v, ml = sym_queue(ip, p)
    i = p.int("i")
    x = p.obj("x")
    if p.decide(z3.And(i >= -v.n, i < v.n)):
        ip.setitem(o, i, x)
        j = fold(z3.If(i >= 0, i, i + v.n))
        p.prove_eq(rep.view(), seqs.seq_set(v, j, x), "setitem.view")
    else:
        expect_index_error(ip, p, lambda: ip.setitem(o, i, x), "setitem")
        p.prove_eq(rep.view(), v, "setitem.unchanged-on-error")


def units(tier):
    out = []
    for nm, f in [
        ("__init__", u_init), ("append", u_append), ("extend", u_extend),
        ("popleft", u_popleft), ("__len__", u_len), ("__iter__", u_iter),
        ("__getitem__", u_getitem), ("__setitem__", u_setitem),
    ]:
        out.append(QUnit("RandomAccessQueue." + nm, f, covers=[QUAL + "." + nm]))
    return out
