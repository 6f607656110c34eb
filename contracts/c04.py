"""C04: prioritized sampling, priority updates and importance weights."""
import z3

from pydv import seqs
from pydv.builtin_fns import TABLE
from pydv.interp import BoundMethod, exc
from pydv.nparr import distinct_arr, np_random_ext
from pydv.unit import Unit, check_fields
from pydv.values import (
    Builtin, HModel, Model, Obj, P, PyExc, PyList, PyObj, SymSeq, Unsupported, fold, is_num, is_term, num, real,
)
from . import trees as T
from .trees import AB, AR, MOD, NZ, S
from .c02 import RND, sample_n_k_contract

RB = "pfrl.replay_buffers.prioritized"
PE = "pfrl.replay_buffers.prioritized_episodic"
TRUSTED = [
    "numpy.random.uniform(0, x): a number in [0, x) for x > 0; numpy.random.binomial(n, r): an integer in [0, n]",
    "numpy.min of a list: its minimum",
    "the lemma instances for S and NZ are proved by induction in C03's lemma unit",
]
ASSUMPTIONS = [
    "priorities and probabilities are real numbers (no rounding); x ** y is an uninterpreted function",
    "stored entries are not aliased (each entry's first dict belongs to one entry)",
    "priorities given to append are positive",
]
IArr = z3.ArraySort(z3.IntSort(), z3.IntSort())


class TreeGhost(HModel):
    """content of a tree (keys 0..n-1) plus a log of the writes"""

    ghost = True

    def __init__(self, p, n, l, r):
        HModel.__init__(self, "treeghost")
        self.n, self.l, self.r = n, l, r
        self.pres = z3.Const(p.name("pres"), AB)
        self.val0 = z3.Const(p.name("val"), AR)
        self.f["val"] = self.val0
        self.f["nw"] = 0
        self.f["ord"] = z3.K(z3.IntSort(), z3.IntVal(-1))
        self.f["key"] = z3.Const(p.name("key0"), IArr)
        self.f["ret"] = z3.Const(p.name("ret0"), AR)

    def havoc_field(self, field, init):
        p = P()
        if field == "nw":
            return p.int("nw")
        return z3.Const(p.name(field), init.sort())


class RootModel(Model):
    """the root node: its value field is the aggregate (representation
    invariant, proved for every operation in C03)"""

    def __init__(self, t):
        self.t = t

    def getitem(self, ip, i):
        if not is_term(i) and i in (2, -1):
            return S(self.t.pres, self.t.f["val"], self.t.l, self.t.r)
        raise Unsupported("tree root internals")


def lem_nz(t, v, v2, key):
    T.nz_update(T.Content(t.pres, v), T.Content(t.pres, v2), t.l, t.r, key)


def lem_positive(t, val):
    """all present values >= 0 (proved here) and NZ > 0 -> S > 0"""
    p = P()
    if p.forall_holds(t.n, lambda i: z3.Select(val, i) >= 0):
        nz, s = NZ(t.pres, val, t.l, t.r), S(t.pres, val, t.l, t.r)
        p.assume(z3.And(nz >= 0, s >= 0, z3.Implies(nz > 0, s > 0)))


def root_write(ip, f, args, kwargs):
    p = P()
    names = ["index_left", "index_right", "node", "key", "value", "op"]
    a = list(args) + [kwargs[x] for x in names[len(args):]]
    l, r, node, key, value, opv = a
    if not isinstance(node, RootModel) or T.op_name(opv) != "sum":
        raise Unsupported("_write on another node")
    t = node.t
    key = num(key)
    p.prove(fold(z3.And(num(l) == t.l, num(r) == t.r)), "_write.precondition.bounds")
    p.prove(fold(z3.And(key >= 0, key < t.n)), "_write.precondition.live-key")
    if value is None:
        raise Unsupported("removal of a key")
    v = t.f["val"]
    p.instantiate(key)
    p.instantiate(z3.Select(t.f["ord"], key))
    ret = z3.Select(v, key)
    v2 = z3.Store(v, key, real(value))
    lem_nz(t, v, v2, key)
    p.assume(z3.Select(t.pres, key))
    nw = num(t.f["nw"])
    t.set("val", v2)
    t.set("ord", z3.Store(t.f["ord"], key, nw))
    t.set("key", z3.Store(t.f["key"], nw, key))
    t.set("ret", z3.Store(t.f["ret"], nw, ret))
    t.set("nw", seqs.add(t.f["nw"], 1))
    return ret


def root_find(ip, f, args, kwargs):
    p = P()
    l, r, node, pos = list(args) + [
        kwargs[x] for x in ["index_left", "index_right", "node", "pos"][len(args):]
    ]
    if not isinstance(node, RootModel):
        raise Unsupported("_find on another node")
    t = node.t
    val = t.f["val"]
    p.prove(fold(z3.And(num(l) == t.l, num(r) == t.r)), "_find.precondition.bounds")
    p.prove(
        fold(z3.And(real(pos) >= 0, real(pos) < S(t.pres, val, t.l, t.r))),
        "_find.precondition.position-in-range",
    )
    ix = p.int("found")
    # present = live key; its interval is not empty
    p.assume(z3.And(ix >= 0, ix < t.n))
    p.instantiate(ix)
    p.assume(z3.Select(val, ix) > 0)
    return ix


def np_uniform(ip, lo=0.0, hi=1.0, size=None):
    p = P()
    if size is not None:
        raise Unsupported("uniform size")
    u = p.real("u")
    # the total of the tree is positive when a positive entry remains
    t = p.ghost.get("tree")
    if t is not None:
        lem_positive(t, t.f["val"])
    if p.decide(fold(real(lo) < real(hi))):
        p.assume(z3.And(u >= real(lo), u < real(hi)))
    else:
        p.assume(u == real(lo))
    return u


class SampleUnit(Unit):
    def loop_anchors(self, ctx, k, loc):
        p = P()
        t = p.ghost["tree"]
        out = {}
        if isinstance(p.objs.get(loc[0]), PyList) and loc[1] == "data":
            key, ret = t.f["key"], t.f["ret"]
            if is_term(key) and is_term(ret):
                out["keys"] = lambda: SymSeq(k, lambda j: z3.Select(key, num(j)), True)
                out["rets"] = lambda: SymSeq(k, lambda j: z3.Select(ret, num(j)), True)
        return out

    def loop_preds(self, ctx, k):
        p = P()
        t = p.ghost["tree"]
        if (t.uid, "val") not in ctx.init:
            return {}
        i = ctx.init
        v, nw, nw0 = t.f["val"], num(t.f["nw"]), num(i[(t.uid, "nw")])
        return {
            "nonzero-count": lambda: NZ(t.pres, v, t.l, t.r)
            == NZ(t.pres, i[(t.uid, "val")], t.l, t.r) - (nw - nw0),
        }

    def loop_qpreds(self, ctx, k):
        p = P()
        t = p.ghost["tree"]
        if (t.uid, "val") not in ctx.init:
            return {}
        ival, iord = ctx.init[(t.uid, "val")], ctx.init[(t.uid, "ord")]
        v, o, key, ret, nw = (t.f[x] for x in ("val", "ord", "key", "ret", "nw"))
        if not is_term(v):
            return {}
        nw, kk = num(nw), num(k)
        sel = z3.Select
        v0 = t.val0
        src = p.ghost.get("given")
        out = {
            "nonneg": (t.n, lambda i: sel(v, i) >= 0, 0),
            "ord<nw": (t.n, lambda i: sel(o, i) < nw, 0),
            "untouched": (t.n, lambda i: z3.Implies(sel(o, i) < 0, sel(v, i) == sel(v0, i)), 0),
            "zeroed": (
                t.n,
                lambda i: z3.Implies(sel(o, i) >= 0, z3.And(sel(v, i) == 0, sel(key, sel(o, i)) == i)),
                0,
            ),
            "log": (
                nw,
                lambda j: z3.And(
                    sel(o, sel(key, j)) == j, sel(key, j) >= 0, sel(key, j) < t.n,
                ),
                0,
            ),
            "log-ret": (nw, lambda j: sel(ret, j) == sel(v0, sel(key, j)), 0),
            "log-positive": (nw, lambda j: sel(v0, sel(key, j)) > 0, 0),
            "restored-so-far": (
                t.n,
                lambda i: sel(v, i)
                == z3.If(z3.And(sel(iord, i) >= 0, sel(iord, i) >= kk), z3.RealVal(0), sel(v0, i)),
                0,
            ),
        }
        if src is not None:
            out["log-given"] = (nw, lambda j: sel(key, j) == num(seqs.seq_at(src, j)), 0)
        return out


def sum_queue(ip, p):
    cls = ip.get_class(MOD, "SumTreeQueue")
    check_fields(cls, ["length", "op", "root", "bounds"])
    o = PyObj(cls, "TQ")
    o.f["op"] = TABLE["sum"]
    n, l, r = p.int("length"), p.int("ixl"), p.int("ixr")
    p.assume(z3.And(n > 0, l <= 0, n <= r))
    t = TreeGhost(p, n, l, r)
    p.ghost["tree"] = t
    o.f["length"], o.f["bounds"], o.f["root"] = n, (l, r), RootModel(t)
    p.forall(n, lambda i: z3.And(z3.Select(t.val0, i) >= 0, z3.Select(t.pres, i)))
    return o, t


def u_tree_sample(ip, p, meth):
    if p.choose(2) == 0:
        # an empty request on an empty tree
        cls = ip.get_class(MOD, "SumTreeQueue")
        o = ip.call(cls, [])
        p.ghost["tree"] = TreeGhost(p, 0, z3.IntVal(0), z3.IntVal(0))
        ixs, vals = ip.call(ip.getattr(o, meth), [0, p.bool("remove")])
        p.prove_eq(ip.length(ixs), 0, meth + ".empty")
        p.prove_eq(ip.length(vals), 0, meth + ".empty")
        return
    o, t = sum_queue(ip, p)
    n = p.int("n")
    rem = p.bool("remove")
    p.assume(n >= 0)
    if meth == "prioritized_sample":
        p.assume(n <= NZ(t.pres, t.val0, t.l, t.r))
    else:
        p.assume(n <= t.n)
    ixs, vals = ip.call(ip.getattr(o, meth), [n, rem])
    a, b = seqs.as_seq(ip.iterate(ixs)), seqs.as_seq(ip.iterate(vals))
    sel, v = z3.Select, t.f["val"]
    p.prove_eq(a.n, n, meth + ".number-of-indices")
    p.prove_eq(b.n, n, meth + ".number-of-priorities")

    def inr(j):
        x = num(seqs.seq_at(a, j))
        return z3.And(x >= 0, x < t.n)

    def own(j):
        return real(seqs.seq_at(b, j)) == sel(t.val0, num(seqs.seq_at(a, j)))

    p.prove_forall(n, inr, meth + ".in-range")
    p.prove_forall(n, own, meth + ".priority-of-that-index")
    if meth == "prioritized_sample":
        p.prove_forall(n, lambda j: sel(t.val0, num(seqs.seq_at(a, j))) > 0, meth + ".never-zero-priority")

    p.prove(seqs.all_distinct(p, a, n), meth + ".distinct")
    removed = p.decide(rem)

    def other(j, i):
        return i != num(seqs.seq_at(a, j))

    if removed:
        def chosen(j):
            x = num(seqs.seq_at(a, j))
            p.instantiate(x)
            return sel(v, x) == 0

        p.prove_forall(n, chosen, meth + ".sampled-are-zeroed")
        # others: an index whose value changed is one of the sampled
        def rest(i):
            j = sel(t.f["ord"], i)
            p.instantiate(j)
            if not is_term(a.n) and a.n == 0:
                return sel(v, i) == sel(t.val0, i)
            return z3.Or(
                sel(v, i) == sel(t.val0, i),
                z3.And(j >= 0, j < n, num(seqs.seq_at(a, j)) == i),
            )

        p.prove_forall(t.n, rest, meth + ".others-unchanged")
    else:
        p.prove_forall(t.n, lambda i: sel(v, i) == sel(t.val0, i), meth + ".all-restored")


# ------------------------------------------------------------ PrioritizedBuffer
class TreeModel(HModel):
    """contract model of Sum/MinTreeQueue (C03 and the sampler units)"""

    ghost = True

    def __init__(self, kind, n, val):
        HModel.__init__(self, kind + "tree")
        self.tk = kind
        self.f["n"] = n
        self.f["val"] = val      # z3 array
        self.f["off"] = 0        # key i lives at off + i

    def havoc_field(self, field, init):
        p = P()
        if field == "val":
            return z3.Const(p.name("val"), AR)
        return p.int(field)

    def at(self, i):
        return z3.Select(self.f["val"], num(seqs.add(self.f["off"], i)))

    def length(self, ip):
        return self.f["n"]

    def p_length(self, ip):
        return self.f["n"]

    def m_append(self, ip, value):
        if value is None:
            raise Unsupported("None priority")
        k = num(seqs.add(self.f["off"], self.f["n"]))
        self.set("val", z3.Store(self.f["val"], k, real(value)))
        self.set("n", seqs.add(self.f["n"], 1))

    def m_popleft(self, ip):
        p = P()
        p.prove(fold(num(self.f["n"]) > 0), self.tk + "tree.popleft.precondition")
        r = self.at(0)
        self.set("off", seqs.add(self.f["off"], 1))
        self.set("n", seqs.sub(self.f["n"], 1))
        return r

    def setitem(self, ip, i, v):
        p = P()
        if not p.decide(fold(z3.And(num(i) >= 0, num(i) < num(self.f["n"])))):
            raise exc("AssertionError", "index")
        self.set("val", z3.Store(self.f["val"], num(seqs.add(self.f["off"], i)), real(v)))

    def total(self):
        return total_of(self.f["val"], num(self.f["off"]), num(self.f["n"]))

    def m_sum(self, ip):
        p = P()
        if not p.decide(fold(num(self.f["n"]) > 0)):
            return 0.0
        return self.total()

    def m_min(self, ip):
        p = P()
        if not p.decide(fold(num(self.f["n"]) > 0)):
            return float("inf")
        return min_of(self.f["val"], num(self.f["off"]), num(self.f["n"]))

    def draw(self, ip, n, remove, tag):
        p = P()
        p.prove(fold(num(n) >= 0), tag + ".precondition.n>=0")
        p.prove(fold(num(n) <= num(self.f["n"])), tag + ".precondition.enough-entries")
        off = num(self.f["off"])
        a = distinct_arr(p, self.f["n"], n).f["data"]
        inv = P().ghost["samples"][-1]
        old = self.f["val"]
        removed = p.ghost.setdefault("removed", [])
        if tag == "prioritized":
            # enough non-zero entries: those not removed before
            used = 0
            for (m, _) in removed:
                used = seqs.add(used, m)
            p.prove(fold(num(n) + num(used) <= num(self.f["n"])), tag + ".precondition.enough-positive-entries")
            p.forall(n, lambda j: z3.Select(old, off + num(a.at(j))) > 0)
        if ip.truth(remove):
            new = z3.Const(p.name("val"), AR)
            self.set("val", new)
            removed.append((n, a))
            p.forall(n, lambda j: z3.Select(new, off + num(a.at(j))) == 0)
            invf = p.fn("drawn_at", z3.IntSort(), z3.IntSort())
            p.ghost.setdefault("invfs", []).append(invf)
            p.forall(None, lambda i: z3.Or(
                z3.Select(new, off + i) == z3.Select(old, off + i),
                z3.And(invf(i) >= 0, invf(i) < num(n), num(a.at(invf(i))) == i)), None)
        ixs = PyList(a, "drawn")
        vals = PyList(SymSeq(n, lambda j: z3.Select(old, off + num(a.at(num(j)))), True), "drawnvals")
        p.ghost.setdefault("draws", []).append((tag, n, a, old))
        return (ixs, vals)

    def m_uniform_sample(self, ip, n, remove):
        return self.draw(ip, n, remove, "uniform")

    def m_prioritized_sample(self, ip, n, remove):
        return self.draw(ip, n, remove, "prioritized")


total_of = z3.Function("total", AR, z3.IntSort(), z3.IntSort(), z3.RealSort())
min_of = z3.Function("minimum", AR, z3.IntSort(), z3.IntSort(), z3.RealSort())

FIELDS = ["capacity", "data", "priority_sums", "priority_mins", "max_priority",
          "wait_priority_after_sampling", "flag_wait_priority", "sampled_indices"]


def buffer(ip, p, wait=None, waiting=None):
    cls = ip.get_class(MOD, "PrioritizedBuffer")
    check_fields(cls, FIELDS)
    o = PyObj(cls, "PB")
    n = p.int("n")
    p.assume(n >= 0)
    o.f["capacity"] = None if p.choose(2) == 0 else p.int("capacity")
    if o.f["capacity"] is not None:
        p.assume(z3.And(o.f["capacity"] > 0, n <= o.f["capacity"]))
    d = p.fn("data", z3.IntSort(), Obj)
    val = z3.Const(p.name("pri"), AR)
    o.f["data"] = PyList(seqs.seq_of_fn(n, d), "data", tag="deque")
    o.f["priority_sums"] = TreeModel("sum", n, val)
    o.f["priority_mins"] = TreeModel("min", n, val)
    o.f["max_priority"] = p.real("max_priority")
    p.assume(o.f["max_priority"] > 0)
    o.f["wait_priority_after_sampling"] = p.bool("wait") if wait is None else wait
    o.f["flag_wait_priority"] = p.bool("waiting") if waiting is None else waiting
    return o, n, o.f["data"].f["data"], val


def u_pb_append(ip, p):
    o, n, d, val = buffer(ip, p)
    if p.decide(o.f["wait_priority_after_sampling"]):
        # between a sample and its update nothing is appended
        p.assume(z3.Not(o.f["flag_wait_priority"]))
    x = p.obj("x")
    given = p.choose(2) == 1
    pri = p.real("priority") if given else None
    mp, cap = o.f["max_priority"], o.f["capacity"]
    ip.call(ip.getattr(o, "append"), [x] + ([pri] if given else []))
    want = seqs.seq_append(d, x)
    w = pri if given else mp
    first = 0
    if cap is not None and p.decide(fold(n == num(cap))):
        first = 1
        want = seqs.seq_slice(want, 1, n)
    p.prove_eq(o.f["data"].f["data"], want, "append.data")
    m = seqs.add(n, 1 - first)
    for t in ("priority_sums", "priority_mins"):
        tm = o.f[t]
        p.prove_eq(tm.f["n"], m, "append.%s.length" % t)
        p.prove_forall(
            m,
            lambda i: tm.at(i) == z3.If(i == num(m) - 1, real(w), z3.Select(val, i + first)),
            "append.%s.each-entry-keeps-its-priority" % t,
        )
    p.prove_eq(o.f["max_priority"], mp, "append.max-priority")


def u_pb_popleft(ip, p):
    o, n, d, val = buffer(ip, p)
    if not p.decide(n > 0):
        try:
            ip.call(ip.getattr(o, "popleft"), [])
            p.fail("popleft.rejects-empty")
        except PyExc:
            p.prove(True, "popleft.rejects-empty")
        return
    r = ip.call(ip.getattr(o, "popleft"), [])
    p.prove_eq(r, d.at(0), "popleft.oldest")
    p.prove_eq(o.f["data"].f["data"], seqs.seq_slice(d, 1, n - 1), "popleft.data")
    for t in ("priority_sums", "priority_mins"):
        tm = o.f[t]
        p.prove_eq(tm.f["n"], n - 1, "popleft.length")
        p.prove_forall(n - 1, lambda i: tm.at(i) == z3.Select(val, i + 1), "popleft.priorities")
    p.prove_eq(ip.length(o), n - 1, "popleft.len")


def np_binomial(ip, n, r, size=None):
    p = P()
    b = p.int("binomial")
    p.assume(z3.And(b >= 0, b <= num(n)))
    return b


def u_pb_sample(ip, p):
    wait = p.choose(2) == 0
    o, n, d, val = buffer(ip, p, wait=wait)
    waiting = o.f["flag_wait_priority"]
    ur = p.real("uniform_ratio") if p.choose(2) == 0 else 0
    if is_term(ur):
        p.assume(z3.And(ur >= 0, ur <= 1))
    k = p.int("k")
    p.assume(z3.And(k >= 0, k <= n, n > 0))
    tot = total_of(val, z3.IntVal(0), n)
    mn = min_of(val, z3.IntVal(0), n)
    p.assume(z3.And(tot > 0, mn > 0))
    p.forall(n, lambda i: z3.Select(val, i) > 0)
    if wait and p.decide(waiting):
        try:
            ip.call(ip.getattr(o, "sample"), [k], {"uniform_ratio": ur})
            p.fail("sample.rejected-while-waiting")
        except PyExc:
            p.prove(True, "sample.rejected-while-waiting")
        p.prove_eq(o.f["data"].f["data"], d, "sample.rejected.data")
        return
    r = ip.call(ip.getattr(o, "sample"), [k], {"uniform_ratio": ur})
    smp, probs, mp = r
    ix = seqs.as_seq(ip.iterate(o.f["sampled_indices"]))
    smp, probs = seqs.as_seq(ip.iterate(smp)), seqs.as_seq(ip.iterate(probs))
    p.prove_eq(ix.n, k, "sample.size")
    p.prove_eq(smp.n, k, "sample.size")
    p.prove_eq(probs.n, k, "sample.size")
    u = real(ur)

    def touch(j):
        seqs.seq_at(ix, j)
        x = num(seqs.seq_at(ix, j))
        p.instantiate(x)
        for f in p.ghost.get("invfs", []):
            p.instantiate(f(x))
        return x

    def inr(j):
        x = touch(j)
        return z3.And(x >= 0, x < n)

    p.prove_forall(k, inr, "sample.indices-in-range")
    p.prove_forall(k, lambda j: seqs.seq_at(smp, j) == d.at(touch(j)), "sample.data-at-indices")
    p.prove_forall(
        k,
        lambda j: z3.Or(
            real(seqs.seq_at(probs, j)) * real(n) * tot
            == u * tot + (1 - u) * z3.Select(val, touch(j)) * real(n),
            real(seqs.seq_at(probs, j)) == u / real(n) + (1 - u) * z3.Select(val, touch(j)) / tot,
        ),
        "sample.mixture-probability",
    )
    p.prove(
        real(mp) == u / real(n) + (1 - u) * (mn / tot), "sample.min-probability"
    )
    if wait:
        p.prove(seqs.all_distinct(p, ix, k), "sample.distinct")
    sums, mins = o.f["priority_sums"], o.f["priority_mins"]
    p.prove_eq(sums.f["n"], n, "sample.sizes-kept")
    p.prove_forall(n, lambda i: mins.at(i) == z3.Select(val, i), "sample.min-tree-kept")
    if not wait:
        p.prove_forall(n, lambda i: sums.at(i) == z3.Select(val, i), "sample.priorities-kept")
    p.prove_eq(o.f["data"].f["data"], d, "sample.data-kept")
    p.prove(fold(ip.truth(o.f["flag_wait_priority"])), "sample.waits-for-priorities")


class SetUnit(Unit):
    def loop_anchors(self, ctx, k, loc):
        p = P()
        g = p.ghost.get("setp")
        o = p.objs.get(loc[0])
        if g and isinstance(o, PyObj) and loc[1] == "max_priority":
            MX = g["MX"]

            return {"MX": lambda: MX(num(k))}
        return {}

    def loop_qpreds(self, ctx, k):
        p = P()
        g = p.ghost.get("setp")
        if not g:
            return {}
        out = {}
        for nm in ("priority_sums", "priority_mins"):
            t = g["o"].f[nm]
            v = t.f["val"]
            if not is_term(v):
                continue
            kk = num(k)
            out[nm] = (
                g["n"],
                lambda i, v=v, nm=nm: z3.Select(v, i)
                == z3.If(
                    z3.And(g["inv"](i) >= 0, g["inv"](i) < kk, num(g["idx"].at(g["inv"](i))) == i),
                    g["pr"](g["inv"](i)), z3.Select(g[nm], i),
                ),
                0,
            )
        return out


def u_pb_set(ip, p):
    wait = p.choose(2) == 0
    o, n, d, val = buffer(ip, p, wait=wait)
    waiting = o.f["flag_wait_priority"]
    k, k2 = p.int("k"), p.int("k2")
    p.assume(z3.And(k >= 0, k2 >= 0))
    idx = p.fn("idx", z3.IntSort(), z3.IntSort())
    inv = p.fn("inv", z3.IntSort(), z3.IntSort())
    p.forall(k, lambda j: z3.And(idx(j) >= 0, idx(j) < n, inv(idx(j)) == j))
    o.f["sampled_indices"] = PyList(seqs.seq_of_fn(k, idx), "sampled")
    # the sum tree has zeros at the sampled positions while waiting
    sv = z3.Const(p.name("sumpri"), AR)
    o.f["priority_sums"].f["val"] = sv
    p.forall(n, lambda i: z3.Or(
        z3.Select(sv, i) == z3.Select(val, i),
        z3.And(inv(i) >= 0, inv(i) < k, idx(inv(i)) == i)))
    prf = p.fn("newpri", z3.IntSort(), z3.RealSort())
    pr = seqs.seq_of_fn(k2, prf)
    mp = o.f["max_priority"]
    MX = p.fn("MX", z3.IntSort(), z3.RealSort())
    p.assume(MX(0) == mp)
    p.forall(None, lambda q: MX(q + 1) == z3.If(MX(q) < prf(q), prf(q), MX(q)))
    p.ghost["setp"] = dict(o=o, n=n, idx=seqs.seq_of_fn(k, idx), inv=inv, pr=prf, MX=MX,
                           priority_sums=sv, priority_mins=val)
    ok_wait = (not wait) or p.decide(waiting)
    allpos = p.bool("allpos")
    neg = p.int("neg")
    if p.decide(allpos):
        p.forall(k2, lambda j: prf(j) > 0)
    else:
        p.assume(z3.And(neg >= 0, neg < k2, prf(neg) <= 0))
    good = ok_wait and p.decide(allpos) and p.decide(k == k2)
    call = lambda: ip.call(ip.getattr(o, "set_last_priority"), [PyList(pr, "priority")])
    if not good:
        p.instantiate(neg)
        try:
            call()
            p.instantiate(neg)
            p.fail("set_last_priority.rejects")
        except PyExc:
            p.prove(True, "set_last_priority.rejects")
        return
    call()
    for t in ("priority_sums", "priority_mins"):
        tm = o.f[t]

        def each(j):
            x = idx(j)
            p.instantiate(x)
            return tm.at(x) == prf(j)

        p.prove_forall(k, each, "set_last_priority.%s.sampled-entries-updated" % t)

        def other(i):
            j = inv(i)
            p.instantiate(j)
            return z3.Or(tm.at(i) == z3.Select(val, i), z3.And(j >= 0, j < k, idx(j) == i))

        p.prove_forall(n, other, "set_last_priority.%s.others-unchanged" % t)
        p.prove_eq(tm.f["n"], n, "set_last_priority.size")
    # MX(k) is the running maximum of the old maximum and the new priorities
    p.prove_eq(o.f["max_priority"], MX(k), "set_last_priority.max-priority")
    p.prove_eq(o.f["data"].f["data"], d, "set_last_priority.data")
    p.prove(fold(z3.Not(z3.BoolVal(bool(ip.truth(o.f["flag_wait_priority"]))))), "set_last_priority.flag-cleared")


def u_pb_init(ip, p):
    cls = ip.get_class(MOD, "PrioritizedBuffer")
    w = p.bool("wait")
    cap = None if p.choose(2) == 0 else p.int("capacity")
    o = ip.call(cls, [], {"capacity": cap, "wait_priority_after_sampling": w})
    check_fields(cls, FIELDS)
    p.prove_eq(ip.length(o), 0, "init.empty")
    p.prove_eq(o.f["priority_sums"].f["length"], 0, "init.empty")
    p.prove_eq(o.f["priority_mins"].f["length"], 0, "init.empty")
    p.prove(o.f["priority_sums"].cls.name == "SumTreeQueue" and o.f["priority_mins"].cls.name == "MinTreeQueue", "init.trees")
    p.prove(o.f["flag_wait_priority"] is False, "init.not-waiting")
    p.prove_eq(o.f["wait_priority_after_sampling"], w, "init.wait")
    d = ip.call(cls, [], {"capacity": cap})
    p.prove(d.f["wait_priority_after_sampling"] is True, "init.waits-by-default")
    p.prove_eq(o.f["capacity"], cap, "init.capacity")


# ---------------------------------------------------------------- weights
def mk_pwe(ip, p, mode, memlen=None):
    cls = ip.get_class(RB, "PrioritizedReplayBuffer")
    o = PyObj(cls, "PRB")
    o.f["alpha"], o.f["beta"], o.f["beta_add"] = p.real("alpha"), p.real("beta"), p.real("beta_add")
    o.f["eps"] = p.real("eps")
    o.f["normalize_by_max"] = mode
    o.f["error_min"] = None if p.choose(2) == 0 else p.real("error_min")
    o.f["error_max"] = None if p.choose(2) == 0 else p.real("error_max")
    p.assume(z3.And(o.f["beta"] >= 0, o.f["beta"] <= 1, o.f["beta_add"] >= 0))
    return o


def np_min(ip, x):
    p = P()
    s = seqs.as_seq(ip.iterate(x))
    if not p.decide(fold(num(s.n) > 0)):
        raise exc("ValueError", "zero-size array")
    w = p.int("argmin")
    p.assume(z3.And(w >= 0, w < num(s.n)))
    m = real(seqs.seq_at(s, w))
    p.forall(s.n, lambda i: real(s.at(i)) >= m)
    p.ghost["batchmin"] = (s, m)
    return m


powf = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())


def u_weights(ip, p):
    mode = [False, "batch", "memory"][p.choose(3)]
    o = mk_pwe(ip, p, mode)
    N, k = p.int("N"), p.int("k")
    p.assume(z3.And(N > 0, k > 0))
    o.f["memory"] = PyList(seqs.seq_of_fn(N, p.fn("m", z3.IntSort(), Obj)), "memory")
    pf = p.fn("prob", z3.IntSort(), z3.RealSort())
    p.forall(k, lambda j: pf(j) > 0)
    probs = seqs.seq_of_fn(k, pf)
    mp = p.real("minprob")
    p.assume(mp > 0)
    beta, add = o.f["beta"], o.f["beta_add"]
    w = ip.call(ip.getattr(o, "weights_from_probabilities"), [PyList(probs, "probs"), mp])
    w = seqs.as_seq(ip.iterate(w))
    p.prove_eq(w.n, k, "weights.size")
    if mode == "batch":
        if "batchmin" not in p.ghost:
            raise Unsupported("batch minimum not taken by numpy.min")
        s, m = p.ghost["batchmin"]
        p.prove_eq(s, probs, "weights.minimum-over-the-batch")
        m = m
    elif mode == "memory":
        m = mp
    if mode is False:
        want = lambda j: powf(real(N) * pf(num(j)), -beta)
    else:
        want = lambda j: powf(pf(num(j)) / m, -beta)
    p.prove_forall(k, lambda j: real(seqs.seq_at(w, j)) == want(j), "weights.value")
    b2 = real(o.f["beta"])
    p.prove(b2 == z3.If(beta + add < 1, beta + add, z3.RealVal(1)), "weights.beta-one-increment-capped-at-1")


def u_priorities(ip, p):
    o = mk_pwe(ip, p, "batch")
    k = p.int("k")
    p.assume(k >= 0)
    ef = p.fn("err", z3.IntSort(), z3.RealSort())
    r = ip.call(ip.getattr(o, "priority_from_errors"), [PyList(seqs.seq_of_fn(k, ef), "errors")])
    r = seqs.as_seq(ip.iterate(r))
    lo, hi = o.f["error_min"], o.f["error_max"]
    p.prove_eq(r.n, k, "priority.size")

    def clip(e):
        if lo is not None:
            e = z3.If(e < lo, lo, e)
        if hi is not None:
            e = z3.If(e > hi, hi, e)
        return e

    p.prove_forall(
        k, lambda j: real(seqs.seq_at(r, j)) == powf(clip(ef(j)) + o.f["eps"], o.f["alpha"]), "priority.value"
    )


def u_pwe_init(ip, p):
    cls = ip.get_class(RB, "PrioritizedReplayBuffer")
    mode = [True, False, "batch", "memory"][p.choose(4)]
    a, b0, eps = p.real("alpha"), p.real("beta0"), p.real("eps")
    p.assume(z3.And(a >= 0, b0 >= 0, b0 <= 1))
    steps = None if p.choose(2) == 0 else p.real("betasteps")
    if steps is not None:
        p.assume(steps > 0)
    cap = p.int("capacity")
    p.assume(cap > 0)
    ns = p.int("num_steps")
    p.assume(ns > 0)
    o = ip.call(cls, [], dict(capacity=cap, alpha=a, beta0=b0, betasteps=steps, eps=eps,
                              normalize_by_max=mode, num_steps=ns))
    p.prove_eq(o.f["beta"], b0, "init.beta0")
    if steps is None:
        p.prove_eq(o.f["beta_add"], 0, "init.beta-constant")
    else:
        p.prove(real(o.f["beta_add"]) == (1 - b0) / steps, "init.beta-increment")
    p.prove(o.f["normalize_by_max"] == ("batch" if mode is True else mode), "init.mode")
    p.prove_eq(o.f["alpha"], a, "init.alpha")
    p.prove_eq(o.f["eps"], eps, "init.eps")
    p.prove_eq(o.f["memory"].f["capacity"], cap, "init.capacity")
    p.prove(o.f["memory"].f["wait_priority_after_sampling"] is True, "init.sampling-waits-for-priorities")
    p.prove_eq(o.f["num_steps"], ns, "init.num-steps")


class EntryRef(Model):
    def __init__(self, store, i):
        self.store, self.i = store, i

    def getitem(self, ip, j):
        if not is_term(j) and j == 0:
            return TransRef(self.store, self.i)
        raise Unsupported("entry element")


class TransRef(Model):
    def __init__(self, store, i):
        self.store, self.i = store, i

    def setitem(self, ip, k, v):
        if k != "weight":
            raise Unsupported("write to entry")
        g = self.store
        g.set("w", z3.Store(g.f["w"], num(self.i), real(v)))


class WeightStore(HModel):
    ghost = True

    def havoc_field(self, field, init):
        return z3.Const(P().name("w"), AR)


class MemModel(HModel):
    """PrioritizedBuffer by contract"""

    def length(self, ip):
        return self.f["n"]

    def m_sample(self, ip, n, uniform_ratio=0):
        p = P()
        p.prove(fold(z3.And(num(n) >= 0, num(n) <= num(self.f["n"]))), "memory.sample.precondition")
        if "uniform" in p.ghost:
            p.prove_eq(uniform_ratio, p.ghost["uniform"], "sample.uniform-share")
        a = distinct_arr(p, self.f["n"], n).f["data"]
        g = p.ghost["wstore"]
        pf = p.fn("prob", z3.IntSort(), z3.RealSort())
        p.forall(n, lambda j: pf(j) > 0)
        mp = p.real("minprob")
        p.assume(mp > 0)
        p.ghost["drawn"] = (a, pf, mp)
        return (
            PyList(SymSeq(n, lambda j: EntryRef(g, a.at(j))), "sampled"),
            PyList(seqs.seq_of_fn(n, pf), "probs"),
            mp,
        )

    def m_set_last_priority(self, ip, pr):
        P().ghost["setlast"] = pr


class PrbUnit(Unit):
    def loop_qpreds(self, ctx, k):
        p = P()
        g = p.ghost.get("wstore")
        if g is None or "drawn" not in p.ghost or "wf" not in p.ghost:
            return {}
        a, _, _ = p.ghost["drawn"]
        wf = p.ghost["wf"]
        w = g.f["w"]
        if not is_term(w):
            return {}
        return {"weights-set": (k, lambda j: z3.Select(w, num(a.at(j))) == wf(j), 0)}


def weights_contract(ip, f, args, kwargs):
    p = P()
    probs = args[1] if len(args) > 1 else kwargs["probabilities"]
    mp = args[2] if len(args) > 2 else kwargs["min_probability"]
    a, pf, mp0 = p.ghost["drawn"]
    s = seqs.as_seq(ip.iterate(probs))
    p.prove_eq(s, seqs.seq_of_fn(s.n, pf), "weights-of-the-drawn-probabilities")
    p.prove_eq(mp, mp0, "weights-with-the-reported-minimum")
    wf = p.fn("weight", z3.IntSort(), z3.RealSort())
    p.ghost["wf"] = wf
    return PyList(seqs.seq_of_fn(s.n, wf), "weights")


def u_prb_sample(ip, p):
    cls = ip.get_class(RB, "PrioritizedReplayBuffer")
    o = PyObj(cls, "PRB")
    m = MemModel("memory")
    N, k = p.int("N"), p.int("k")
    p.assume(z3.And(k >= 0, N >= k))
    m.f["n"] = N
    o.f["memory"] = m
    g = WeightStore("wstore")
    w0 = z3.Const(p.name("w"), AR)
    g.f["w"] = w0
    p.ghost["wstore"] = g
    r = ip.call(ip.getattr(o, "sample"), [k])
    s = seqs.as_seq(ip.iterate(r))
    a, pf, mp = p.ghost["drawn"]
    p.prove_eq(s.n, k, "sample.size")

    def ent(j):
        e = seqs.seq_at(s, j)
        if not isinstance(e, EntryRef):
            return False
        p.instantiate(j)
        return num(e.i) == num(a.at(j))

    p.prove_forall(k, ent, "sample.entries-in-order")
    p.prove_forall(k, lambda j: z3.Select(g.f["w"], num(a.at(j))) == p.ghost["wf"](j), "sample.weights-attached")


def u_prb_update(ip, p):
    cls = ip.get_class(RB, "PrioritizedReplayBuffer")
    o = PyObj(cls, "PRB")
    m = MemModel("memory")
    m.f["n"] = p.int("N")
    o.f["memory"] = m
    k = p.int("k")
    p.assume(k >= 0)
    ef = seqs.seq_of_fn(k, p.fn("err", z3.IntSort(), z3.RealSort()))
    token = PyList(ef, "errors")
    ip.call(ip.getattr(o, "update_errors"), [token])
    p.prove(p.ghost.get("pfe") is token and p.ghost.get("setlast") is p.ghost.get("pfr"), "update_errors.priorities-of-errors")


class SubRef(Model):
    """random_subseq of an entry, by its contract (C02)"""

    def __init__(self, e, n):
        self.e, self.n = e, n


def u_episodes(ip, p):
    """PrioritizedEpisodicReplayBuffer.sample_episodes"""
    cls = ip.get_class(PE, "PrioritizedEpisodicReplayBuffer")
    o = PyObj(cls, "PEB")
    m = MemModel("episodic_memory")
    N, k, T_ = p.int("episodes"), p.int("k"), p.int("transitions")
    p.assume(z3.And(k >= 1, N >= k, T_ >= 0))
    m.f["n"] = N
    g = WeightStore("wstore")
    g.f["w"] = z3.Const(p.name("w"), AR)
    p.ghost["wstore"] = g
    o.f["episodic_memory"] = m
    o.f["memory"] = PyList(seqs.seq_of_fn(T_, p.fn("m", z3.IntSort(), Obj)), "memory")
    mode = [False, "batch", "memory"][p.choose(3)]
    o.f["alpha"], o.f["beta"], o.f["beta_add"], o.f["eps"] = p.real("alpha"), p.real("beta"), p.real("beta_add"), p.real("eps")
    p.assume(z3.And(o.f["beta"] >= 0, o.f["beta"] <= 1, o.f["beta_add"] >= 0))
    o.f["normalize_by_max"] = mode
    u = p.ghost["uniform"] = p.real("uniform_ratio")
    o.f["uniform_ratio"] = u
    weights = p.choose(2) == 0
    o.f["return_sample_weights"] = weights
    beta, add = o.f["beta"], o.f["beta_add"]
    ml = None if p.choose(2) == 0 else p.int("max_len")
    r = ip.call(ip.getattr(o, "sample_episodes"), [k] + ([ml] if ml is not None else []))
    if weights:
        p.prove(isinstance(r, tuple) and len(r) == 2, "sample_episodes.episodes-and-weights")
        r, w = r
    s = seqs.as_seq(ip.iterate(r))
    a, pf, mp = p.ghost["drawn"]
    p.prove_eq(s.n, k, "sample_episodes.size")

    def ent(j):
        e = seqs.seq_at(s, j)
        p.instantiate(j)
        if ml is not None:
            if not (isinstance(e, SubRef) and isinstance(e.e, EntryRef)):
                return False
            return z3.And(num(e.e.i) == num(a.at(j)), num(e.n) == ml)
        return isinstance(e, EntryRef) and num(e.i) == num(a.at(j))

    p.prove_forall(k, ent, "sample_episodes.entries-in-order")
    if not weights:
        return
    w = seqs.as_seq(ip.iterate(w))
    p.prove_eq(w.n, k, "sample_episodes.weights")
    if mode == "batch":
        if "batchmin" not in p.ghost:
            raise Unsupported("batch minimum not taken by numpy.min")
        ps, mn = p.ghost["batchmin"]
        p.prove_eq(ps, seqs.seq_of_fn(k, pf), "weights.minimum-over-the-batch")
    else:
        mn = mp
    if mode is False:
        want = lambda j: powf(real(N) * pf(num(j)), -beta)
    else:
        want = lambda j: powf(pf(num(j)) / mn, -beta)
    p.prove_forall(k, lambda j: real(seqs.seq_at(w, j)) == want(j), "weights.value")
    p.prove(real(o.f["beta"]) == z3.If(beta + add < 1, beta + add, z3.RealVal(1)), "weights.beta-one-increment-capped-at-1")


def u_peb_update(ip, p):
    o = PyObj(ip.get_class(PE, "PrioritizedEpisodicReplayBuffer"), "PEB")
    m = MemModel("episodic_memory")
    m.f["n"] = p.int("N")
    o.f["episodic_memory"] = m
    k = p.int("k")
    p.assume(k >= 0)
    token = PyList(seqs.seq_of_fn(k, p.fn("err", z3.IntSort(), z3.RealSort())), "errors")
    ip.call(ip.getattr(o, "update_errors"), [token])
    p.prove(p.ghost.get("pfe") is token and p.ghost.get("setlast") is p.ghost.get("pfr"), "update_errors.priorities-of-errors")


def u_peb_init(ip, p):
    cls = ip.get_class(PE, "PrioritizedEpisodicReplayBuffer")
    mode = [True, False, "batch", "memory"][p.choose(4)]
    a, b0, eps = p.real("alpha"), p.real("beta0"), p.real("eps")
    p.assume(z3.And(a >= 0, b0 >= 0, b0 <= 1))
    steps = None if p.choose(2) == 0 else p.real("betasteps")
    if steps is not None:
        p.assume(steps > 0)
    wait = [None, True, False][p.choose(3)]
    ur = p.real("uniform_ratio")
    cap = p.int("capacity")
    p.assume(cap > 0)
    lo, hi = p.real("error_min"), p.real("error_max")
    o = ip.call(cls, [], dict(capacity=cap, alpha=a, beta0=b0, betasteps=steps, eps=eps, normalize_by_max=mode,
                              uniform_ratio=ur, error_min=lo, error_max=hi, **({} if wait is None else dict(wait_priority_after_sampling=wait))))
    p.prove_eq(o.f["beta"], b0, "init.beta0")
    p.prove(fold(real(o.f["beta_add"]) == (0 if steps is None else (1 - b0) / steps)), "init.beta-increment")
    p.prove(o.f["normalize_by_max"] == ("batch" if mode is True else mode), "init.mode")
    for nm, v in (("alpha", a), ("eps", eps), ("uniform_ratio", ur), ("error_min", lo), ("error_max", hi)):
        p.prove_eq(o.f[nm], v, "init." + nm)
    p.prove(o.f["episodic_memory"].f["wait_priority_after_sampling"] is (wait is not False), "init.sampling-waits-for-priorities")
    p.prove(o.f["episodic_memory"].f["capacity"] is None, "init.episodes-discarded-by-transitions-only")


def pfe_contract(ip, f, args, kwargs):
    p = P()
    e = args[1] if len(args) > 1 else kwargs["errors"]
    p.ghost["pfe"] = e
    p.ghost["pfr"] = PyList(seqs.seq_of_fn(p.int("m"), p.fn("pri", z3.IntSort(), z3.RealSort())), "pri")
    return p.ghost["pfr"]


def units(tier):
    ext = np_random_ext()
    ext["numpy.random.uniform"] = Builtin("numpy.random.uniform", np_uniform)
    ext["numpy.random.binomial"] = Builtin("numpy.random.binomial", np_binomial)
    ext["numpy.min"] = ext["numpy.amin"] = Builtin("numpy.min", np_min)
    K1 = {MOD + "._write": root_write, MOD + "._find": root_find, RND + ".sample_n_k": given_sample}
    PB = MOD + ".PrioritizedBuffer."
    out = [T.lemma_unit()]
    for m in ("prioritized_sample", "uniform_sample"):
        out.append(SampleUnit("SumTreeQueue." + m, lambda ip, p, m=m: u_tree_sample(ip, p, m),
                              contracts=K1, ext=ext, covers=[MOD + ".SumTreeQueue." + m]))
    out += [
        Unit("PrioritizedBuffer.__init__", u_pb_init, ext=ext, covers=[PB + "__init__"]),
        Unit("PrioritizedBuffer.append", u_pb_append, ext=ext, covers=[PB + "append"]),
        Unit("PrioritizedBuffer.popleft", u_pb_popleft, ext=ext, covers=[PB + "popleft"]),
        Unit("PrioritizedBuffer.sample", u_pb_sample, ext=ext,
             covers=[PB + "sample", PB + "_sample_indices_and_probabilities"]),
        SetUnit("PrioritizedBuffer.set_last_priority", u_pb_set, ext=ext, covers=[PB + "set_last_priority"]),
        Unit("PriorityWeightError.__init__", u_pwe_init, ext=ext, covers=[RB + ".PriorityWeightError.__init__"]),
        Unit("PriorityWeightError.weights_from_probabilities", u_weights, ext=ext,
             covers=[RB + ".PriorityWeightError.weights_from_probabilities"]),
        Unit("PriorityWeightError.priority_from_errors", u_priorities, ext=ext,
             covers=[RB + ".PriorityWeightError.priority_from_errors"]),
        PrbUnit("PrioritizedReplayBuffer.sample", u_prb_sample, ext=ext,
                contracts={RB + ".PriorityWeightError.weights_from_probabilities": weights_contract},
                covers=[RB + ".PrioritizedReplayBuffer.sample"]),
        Unit("PrioritizedReplayBuffer.update_errors", u_prb_update, ext=ext,
             contracts={RB + ".PriorityWeightError.priority_from_errors": pfe_contract},
             covers=[RB + ".PrioritizedReplayBuffer.update_errors"]),
        Unit("PrioritizedEpisodicReplayBuffer.__init__", u_peb_init, ext=ext, covers=[PE + ".PrioritizedEpisodicReplayBuffer.__init__"]),
        Unit("PrioritizedEpisodicReplayBuffer.sample_episodes", u_episodes, ext=ext,
             contracts={"pfrl.replay_buffer.random_subseq": lambda ip, f, a, k: SubRef(a[0], a[1] if len(a) > 1 else k["subseq_len"])},
             covers=[PE + ".PrioritizedEpisodicReplayBuffer.sample_episodes"]),
        Unit("PrioritizedEpisodicReplayBuffer.update_errors", u_peb_update, ext=ext,
             contracts={RB + ".PriorityWeightError.priority_from_errors": pfe_contract},
             covers=[PE + ".PrioritizedEpisodicReplayBuffer.update_errors"]),
    ]
    return out


def given_sample(ip, f, args, kwargs):
    r = sample_n_k_contract(ip, f, args, kwargs)
    P().ghost["given"] = r.f["data"]
    return r
