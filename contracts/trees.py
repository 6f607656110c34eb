"""Contracts for the priority trees (nested-list nodes) and their lemmas.

Abstract content of a node over [l, r): pres: Int->Bool, val: Int->Real.
  E(pres,l,r)        some key of [l,r) is present
  S(pres,val,l,r)    sum of the present values
  M(pres,val,l,r)    minimum of the present values (if E)
  NZ(pres,val,l,r)   number of present non-zero values
The facts about E,S,M,NZ used below are the lemmas of class Lemmas; each is
proved by induction from the recursive definitions by the unit 'lemmas'.
"""
import z3

from pydv import seqs
from pydv.interp import exc
from pydv.unit import Rep, Unit
from pydv.values import (
    Builtin, HModel, Opaque, P, PathDead, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num, real,
)

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AB, AR = z3.ArraySort(I, B), z3.ArraySort(I, R)
E = z3.Function("E", AB, I, I, B)
S = z3.Function("S", AB, AR, I, I, R)
M = z3.Function("M", AB, AR, I, I, R)
NZ = z3.Function("NZ", AB, AR, I, I, I)

MOD = "pfrl.collections.prioritized"


def AGG(op):
    return S if op == "sum" else M


class Content:
    def __init__(self, pres, val):
        self.pres = pres
        self.val = val

    def store(self, k, v):
        k = num(k)
        if v is None:
            return Content(z3.Store(self.pres, k, z3.BoolVal(False)), self.val)
        return Content(
            z3.Store(self.pres, k, z3.BoolVal(True)), z3.Store(self.val, k, real(v))
        )


EMPTY = None


def empty_content():
    return Content(z3.K(I, z3.BoolVal(False)), z3.K(I, z3.RealVal(0)))


class L:
    """lemma instances (assumed); proved by induction in lemma_unit"""

    @staticmethod
    def split(c, l, m, r, op):
        """l <= m <= r"""
        l, m, r = num(l), num(m), num(r)
        p = P()
        cond = z3.And(l <= m, m <= r)
        e1, e2 = E(c.pres, l, m), E(c.pres, m, r)
        p.assume(z3.Implies(cond, E(c.pres, l, r) == z3.Or(e1, e2)))
        if op == "sum":
            p.assume(
                z3.Implies(
                    cond,
                    S(c.pres, c.val, l, r) == S(c.pres, c.val, l, m) + S(c.pres, c.val, m, r),
                )
            )
        else:
            a, b = M(c.pres, c.val, l, m), M(c.pres, c.val, m, r)
            p.assume(
                z3.Implies(
                    cond,
                    z3.And(
                        z3.Implies(z3.And(e1, e2), M(c.pres, c.val, l, r) == z3.If(a < b, a, b)),
                        z3.Implies(z3.And(e1, z3.Not(e2)), M(c.pres, c.val, l, r) == a),
                        z3.Implies(z3.And(z3.Not(e1), e2), M(c.pres, c.val, l, r) == b),
                    ),
                )
            )

    @staticmethod
    def single(c, l):
        l = num(l)
        p = P()
        r = l + 1
        p.assume(E(c.pres, l, r) == z3.Select(c.pres, l))
        p.assume(
            S(c.pres, c.val, l, r)
            == z3.If(z3.Select(c.pres, l), z3.Select(c.val, l), z3.RealVal(0))
        )
        p.assume(
            z3.Implies(
                z3.Select(c.pres, l), M(c.pres, c.val, l, r) == z3.Select(c.val, l)
            )
        )

    @staticmethod
    def none(c, l, r):
        """nothing present: the sum is zero; empty interval"""
        p = P()
        l, r = num(l), num(r)
        p.assume(z3.Implies(z3.Not(E(c.pres, l, r)), S(c.pres, c.val, l, r) == 0))
        p.assume(z3.Implies(l >= r, z3.And(z3.Not(E(c.pres, l, r)), S(c.pres, c.val, l, r) == 0)))

    @staticmethod
    def empty(c, l, r):
        """the empty content has nothing present"""
        P().assume(z3.Not(E(c.pres, num(l), num(r))))

    @staticmethod
    def present(c, i, l, r):
        """a present key makes the interval non-empty"""
        i, l, r = num(i), num(l), num(r)
        P().assume(
            z3.Implies(z3.And(l <= i, i < r, z3.Select(c.pres, i)), E(c.pres, l, r))
        )

    @staticmethod
    def absent(c, l, r):
        """not E: every key absent (instantiated lazily)"""
        P().forall(r, lambda i: z3.Implies(z3.Not(E(c.pres, num(l), num(r))), z3.Not(z3.Select(c.pres, i))), l)

    @staticmethod
    def witness(c, l, r):
        """E: some key is present"""
        p = P()
        w = p.int("w")
        p.assume(
            z3.Implies(
                E(c.pres, num(l), num(r)),
                z3.And(num(l) <= w, w < num(r), z3.Select(c.pres, w)),
            )
        )
        p.instantiate(w)
        return w

    @staticmethod
    def same(a, b, l, r):
        """contents proved to agree on [l,r) have the same aggregates"""
        p = P()
        l, r = num(l), num(r)
        p.assume(E(a.pres, l, r) == E(b.pres, l, r))
        p.assume(S(a.pres, a.val, l, r) == S(b.pres, b.val, l, r))
        p.assume(M(a.pres, a.val, l, r) == M(b.pres, b.val, l, r))
        p.assume(NZ(a.pres, a.val, l, r) == NZ(b.pres, b.val, l, r))

    @staticmethod
    def shift(a, b, l, r, d):
        """b(i) = a(i+d) proved on the interval"""
        p = P()
        l, r, d = num(l), num(r), num(d)
        p.assume(E(b.pres, l, r) == E(a.pres, l + d, r + d))
        p.assume(S(b.pres, b.val, l, r) == S(a.pres, a.val, l + d, r + d))
        p.assume(M(b.pres, b.val, l, r) == M(a.pres, a.val, l + d, r + d))


def agree(a, b, l, r):
    """prove the contents agree on [l, r)"""
    p = P()
    return p.forall_holds(
        r,
        lambda i: z3.And(
            z3.Select(a.pres, i) == z3.Select(b.pres, i),
            z3.Implies(z3.Select(a.pres, i), z3.Select(a.val, i) == z3.Select(b.val, i)),
        ),
        lo=l,
    )


def center(l, r):
    return fold((num(l) + num(r)) / 2)


def shallow(c, l, r, op, label="node"):
    """a tree node over [l,r) for content c, children left folded (forks on E)"""
    p = P()
    n = PyList([], label)
    set_shallow(n, c, l, r, op)
    return n


def set_shallow(n, c, l, r, op):
    p = P()
    n.f["tree"] = (l, r, c)
    L.none(c, l, r)
    if p.decide(E(c.pres, num(l), num(r))):
        n.f["data"] = [Opaque("folded"), Opaque("folded"), AGG(op)(c.pres, c.val, num(l), num(r))]
    else:
        L.absent(c, l, r)
        n.f["data"] = []


def unfold(n, op):
    """give the node its real children (forks on leaf / non-leaf)"""
    p = P()
    l, r, c = n.f["tree"]
    if not n.f["data"]:
        return
    if p.decide(fold(num(r) - num(l) == 1)):
        L.single(c, l)
        n.f["data"] = [None, None, z3.Select(c.val, num(l))]
        return
    m = center(l, r)
    L.split(c, l, m, r, op)
    left = shallow(c, l, m, op, "left")
    right = shallow(c, m, r, op, "right")
    n.f["data"] = [left, right, n.f["data"][2]]


def make_tree(ip, c, l, r, op, label="root", unfolded=True):
    n = shallow(c, l, r, op, label)
    if unfolded:
        unfold(n, op)
    return n


def child_ok(n, c, l, r, op):
    """node n is the tree of content c over [l,r): python bool (proved)"""
    p = P()
    if not isinstance(n, PyList):
        return False
    d = n.f["data"]
    t = n.f.get("tree")
    if t is not None and getattr(n, "version", None) is None:
        tl, tr, tc = t
        if p.entails(z3.And(num(tl) == num(l), num(tr) == num(r))) and agree(tc, c, l, r):
            L.same(tc, c, l, r)
            return True
        return False
    return False


def is_tree(n, c, l, r, op, depth=2):
    """prove that the concrete list n represents content c over [l,r)"""
    p = P()
    if not isinstance(n, PyList) or not isinstance(n.f["data"], list):
        return False
    d = n.f["data"]
    if n.f.get("tree") is not None and tree_intact(n):
        if child_ok(n, c, l, r, op):
            return True
    L.none(c, l, r)
    if len(d) == 0:
        w = L.witness(c, l, r)
        ec = empty_content()
        if p.entails(z3.Not(E(c.pres, num(l), num(r)))):
            return True
        if agree(ec, c, l, r):
            L.empty(ec, l, r)
            L.same(ec, c, l, r)
            return True
        return False
    if len(d) != 3:
        return False
    L.single(c, l)
    if p.entails(num(r) - num(l) == 1):
        return (
            p.entails(z3.Select(c.pres, num(l)))
            and is_num_(d[2])
            and p.entails(real(d[2]) == z3.Select(c.val, num(l)))
        )
    if depth == 0 or not p.entails(num(r) - num(l) > 1):
        return False
    m = center(l, r)
    if not is_tree(d[0], c, l, m, op, depth - 1) or not is_tree(d[1], c, m, r, op, depth - 1):
        return False
    L.split(c, l, m, r, op)
    return (
        p.entails(E(c.pres, num(l), num(r)))
        and is_num_(d[2])
        and p.entails(real(d[2]) == AGG(op)(c.pres, c.val, num(l), num(r)))
    )


def is_num_(v):
    from pydv.values import is_num

    return is_num(v) and not (isinstance(v, float) and v != v)


def tree_intact(n):
    """the tag describes the current data (data not written since tagged)"""
    d = n.f["data"]
    if not d:
        return True
    return isinstance(d, list) and len(d) == 3 and n.f.get("tagged_data") in (None, id(d)) and (
        isinstance(d[0], Opaque) or n.f.get("tagged_id") == id(d)
    )


# ---------------------------------------------------------------- contracts
def op_name(opv):
    if isinstance(opv, Builtin) and opv.name in ("sum", "min"):
        return opv.name
    raise Unsupported("aggregator %r" % (opv,))


def content_of(n, l, r, op):
    """content of the node handed to a contract (precondition of the callee)"""
    p = P()
    d = n.f["data"] if isinstance(n, PyList) else None
    if d is None:
        raise Unsupported("node argument")
    t = n.f.get("tree")
    if t is not None and (not d or isinstance(d[0], Opaque)):
        if p.entails(z3.And(num(t[0]) == num(l), num(t[1]) == num(r))):
            return t[2]
    if isinstance(d, list) and len(d) == 0:
        c = empty_content()
        L.empty(c, l, r)
        return c
    c = p.ghost.get("content")
    if c is None:
        raise Unsupported("content of a node is not known")
    p.prove(p.all_cases(lambda: is_tree(n, c, l, r, op)), "callee-precondition.node-is-tree")
    if not is_tree(n, c, l, r, op):
        raise PathDead()
    return c


def write_contract(ip, f, args, kwargs):
    """_write(l, r, node, key, value, op)"""
    p = P()
    names = ["index_left", "index_right", "node", "key", "value", "op"]
    a = list(args)
    for nm in names[len(a):]:
        a.append(kwargs.pop(nm))
    l, r, n, key, value, opv = a
    op = op_name(opv)
    p.prove(
        fold(z3.And(num(l) <= num(key), num(key) < num(r))), "_write.precondition.key-in-interval"
    )
    c = content_of(n, l, r, op)
    key = num(key)
    p.instantiate(key)
    old_present = p.decide(z3.Select(c.pres, key))
    ret = z3.Select(c.val, key) if old_present else None
    c2 = c.store(key, value)
    if p.ghost.get("content") is not None and p.ghost.get("root") is n:
        p.ghost["content"] = c2
    # frame: keys other than key keep their content (array theory)
    w = p.ghost.get("writes")
    if w is not None:
        w.set("ord", z3.Store(w.f["ord"], key, num(w.f["n"])))
        w.set("n", seqs.add(w.f["n"], 1))
    nz_update(c, c2, l, r, key)
    p.log.append((n, "data"))
    p.log.append((n, "tree"))
    set_shallow(n, c2, l, r, op)
    L.present(c2, key, l, r)
    if p.ghost.get("unfold_root") and p.ghost.get("root") is n:
        unfold(n, op)
    return ret


def nz_update(c, c2, l, r, key):
    p = P()
    l, r = num(l), num(r)

    def nz(cc):
        return z3.If(
            z3.And(z3.Select(cc.pres, key), z3.Select(cc.val, key) != 0), z3.IntVal(1), z3.IntVal(0)
        )

    p.assume(
        z3.Implies(
            z3.And(l <= key, key < r),
            NZ(c2.pres, c2.val, l, r) == NZ(c.pres, c.val, l, r) - nz(c) + nz(c2),
        )
    )


def find_contract(ip, f, args, kwargs):
    p = P()
    l, r, n, pos = (list(args) + [kwargs[x] for x in ["index_left", "index_right", "node", "pos"][len(args):]])
    c = content_of(n, l, r, "sum")
    l, r = num(l), num(r)
    p.prove(
        fold(z3.And(real(pos) >= 0, real(pos) < S(c.pres, c.val, l, r))),
        "_find.precondition.position-in-range",
    )
    ix = p.int("found")
    p.assume(z3.And(l <= ix, ix < r, z3.Select(c.pres, ix)))
    p.instantiate(ix)
    s = S(c.pres, c.val, l, ix)
    p.assume(z3.And(s <= real(pos), real(pos) < s + z3.Select(c.val, ix)))
    return ix


def fresh_content(p, base="c"):
    return Content(z3.Const(p.name(base + "_pres"), AB), z3.Const(p.name(base + "_val"), AR))


# ---------------------------------------------------------------- lemma proofs
def u_lemmas(ip, p):
    """Induction on r from the recursive definitions (unfolded at r -> r+1)."""
    which = p.choose(9)
    c, c2 = fresh_content(p, "a"), fresh_content(p, "b")
    l, m, r, k, d = p.int("l"), p.int("m"), p.int("r"), p.int("k"), p.int("d")

    def defs(cc, lo, hi):
        """one unfolding at hi >= lo (and the base case at hi = lo)"""
        pr, v = z3.Select(cc.pres, hi), z3.Select(cc.val, hi)
        p.assume(z3.Implies(lo <= hi, E(cc.pres, lo, hi + 1) == z3.Or(E(cc.pres, lo, hi), pr)))
        p.assume(
            z3.Implies(
                lo <= hi,
                S(cc.pres, cc.val, lo, hi + 1) == S(cc.pres, cc.val, lo, hi) + z3.If(pr, v, z3.RealVal(0)),
            )
        )
        old = M(cc.pres, cc.val, lo, hi)
        p.assume(
            z3.Implies(
                lo <= hi,
                M(cc.pres, cc.val, lo, hi + 1)
                == z3.If(pr, z3.If(E(cc.pres, lo, hi), z3.If(old < v, old, v), v), old),
            )
        )
        p.assume(
            z3.Implies(
                lo <= hi,
                NZ(cc.pres, cc.val, lo, hi + 1)
                == NZ(cc.pres, cc.val, lo, hi) + z3.If(z3.And(pr, v != 0), z3.IntVal(1), z3.IntVal(0)),
            )
        )
        base(cc, lo)

    def base(cc, lo):
        p.assume(z3.Not(E(cc.pres, lo, lo)))
        p.assume(S(cc.pres, cc.val, lo, lo) == 0)
        p.assume(NZ(cc.pres, cc.val, lo, lo) == 0)
        p.assume(M(cc.pres, cc.val, lo, lo) == 0)

    def induct(stmt, lo, name, hyp=lambda: True):
        """stmt(r) for all r >= lo"""
        def b():
            return p.entails(stmt(lo))
        p.prove(p.all_cases(b), name + ".base")
        p.assume(r >= lo)
        p.assume(stmt(r))
        p.prove(stmt(r + 1), name + ".step")

    def Mof(cc, a, b):
        return M(cc.pres, cc.val, a, b)

    if which == 0:
        p.assume(l <= m)
        defs(c, l, r), defs(c, m, r), base(c, m), base(c, l)
        induct(lambda x: E(c.pres, l, x) == z3.Or(E(c.pres, l, m), E(c.pres, m, x)), m, "split.E")
    elif which == 1:
        p.assume(l <= m)
        defs(c, l, r), defs(c, m, r)
        induct(lambda x: S(c.pres, c.val, l, x) == S(c.pres, c.val, l, m) + S(c.pres, c.val, m, x), m, "split.S")
    elif which == 2:
        p.assume(l <= m)
        defs(c, l, r), defs(c, m, r)
        p.assume(E(c.pres, l, r) == z3.Or(E(c.pres, l, m), E(c.pres, m, r)))  # split.E
        e1 = E(c.pres, l, m)
        a = Mof(c, l, m)

        def st(x):
            e2, b = E(c.pres, m, x), Mof(c, m, x)
            return z3.And(
                z3.Implies(z3.And(e1, e2), Mof(c, l, x) == z3.If(a < b, a, b)),
                z3.Implies(z3.And(e1, z3.Not(e2)), Mof(c, l, x) == a),
                z3.Implies(z3.And(z3.Not(e1), e2), Mof(c, l, x) == b),
            )

        induct(st, m, "split.M")
    elif which == 3:
        defs(c, l, l), base(c, l)
        p.prove(E(c.pres, l, l + 1) == z3.Select(c.pres, l), "single.E")
        p.prove(
            S(c.pres, c.val, l, l + 1)
            == z3.If(z3.Select(c.pres, l), z3.Select(c.val, l), z3.RealVal(0)),
            "single.S",
        )
        p.prove(
            z3.Implies(z3.Select(c.pres, l), Mof(c, l, l + 1) == z3.Select(c.val, l)), "single.M"
        )
    elif which == 4:
        defs(c, l, r)
        induct(lambda x: z3.Implies(z3.Not(E(c.pres, l, x)), S(c.pres, c.val, l, x) == 0), l, "none.S")
    elif which == 5:
        # contents that agree below r have the same aggregates
        defs(c, l, r), defs(c2, l, r)
        p.assume(z3.Select(c.pres, r) == z3.Select(c2.pres, r))
        p.assume(z3.Implies(z3.Select(c.pres, r), z3.Select(c.val, r) == z3.Select(c2.val, r)))
        induct(
            lambda x: z3.And(
                E(c.pres, l, x) == E(c2.pres, l, x),
                S(c.pres, c.val, l, x) == S(c2.pres, c2.val, l, x),
                Mof(c, l, x) == Mof(c2, l, x),
                NZ(c.pres, c.val, l, x) == NZ(c2.pres, c2.val, l, x),
            ),
            l, "same",
        )
    elif which == 6:
        # shift by d
        defs(c2, l, r), defs(c, l + d, r + d)
        p.assume(z3.Select(c2.pres, r) == z3.Select(c.pres, r + d))
        p.assume(z3.Select(c2.val, r) == z3.Select(c.val, r + d))
        induct(
            lambda x: z3.And(
                E(c2.pres, l, x) == E(c.pres, l + d, x + d),
                S(c2.pres, c2.val, l, x) == S(c.pres, c.val, l + d, x + d),
                Mof(c2, l, x) == Mof(c, l + d, x + d),
            ),
            l, "shift",
        )
    elif which == 7:
        # positivity: all present values >= 0 and NZ > 0  ->  S > 0
        defs(c, l, r)
        p.assume(z3.Implies(z3.Select(c.pres, r), z3.Select(c.val, r) >= 0))
        induct(
            lambda x: z3.And(
                NZ(c.pres, c.val, l, x) >= 0,
                S(c.pres, c.val, l, x) >= 0,
                z3.Implies(NZ(c.pres, c.val, l, x) > 0, S(c.pres, c.val, l, x) > 0),
                NZ(c.pres, c.val, l, x) <= x - l,
            ),
            l, "positive",
        )
    else:
        # all of [0,n) present and non-zero, nothing else: NZ(l,r)=n ; and E / witness
        defs(c, l, r)
        n = p.int("n")
        p.assume(z3.And(l <= 0, n >= 0))
        p.assume(z3.Select(c.pres, r) == z3.And(r >= 0, r < n))
        p.assume(z3.Implies(z3.Select(c.pres, r), z3.Select(c.val, r) != 0))
        induct(
            lambda x: z3.And(
                NZ(c.pres, c.val, l, x) == z3.If(x < 0, 0, z3.If(x > n, n, x)),
                E(c.pres, l, x) == z3.And(x > 0, n > 0),
            ),
            l, "count-all",
        )


def lemma_unit():
    return Unit("lemmas-on-sums-and-minima (induction)", u_lemmas)
