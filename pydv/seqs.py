"""Functional sequences (length term + index closure) and value equality."""
import z3

from .values import (
    NONE,
    P,
    Builtin,
    HeapObj,
    Opaque,
    PyDict,
    PyList,
    SymSeq,
    Unsupported,
    boolt,
    fold,
    is_boolv,
    is_num,
    is_objterm,
    is_term,
    num,
    real,
)


def same(a, b):
    if a is b:
        return True
    if is_term(a) and is_term(b):
        return a.eq(b)
    if is_term(a) or is_term(b):
        return False
    if type(a) is type(b) and isinstance(a, (int, str, float, bool, bytes)):
        return a == b
    return False


def index_eq(i, j):
    return fold(num(i) == num(j)) if (is_term(i) or is_term(j)) else i == j


def idx_lt(i, j):
    return fold(num(i) < num(j)) if (is_term(i) or is_term(j)) else i < j


def add(a, b):
    if is_term(a) or is_term(b):
        return fold(num(a) + num(b))
    return a + b


def sub(a, b):
    if is_term(a) or is_term(b):
        return fold(num(a) - num(b))
    return a - b


def scalar_sort(v):
    if is_term(v):
        return v.sort()
    if isinstance(v, bool):
        return z3.BoolSort()
    if isinstance(v, int):
        return z3.IntSort()
    return None


def merge(cond, ta, tb, scalar):
    """if cond then ta() else tb()"""
    if isinstance(cond, bool):
        return ta() if cond else tb()
    if scalar:
        a, b = ta(), tb()
        if same(a, b):
            return a
        sa, sb = scalar_sort(a), scalar_sort(b)
        if sa is not None and sb is not None:
            if sa == sb:
                if sa == z3.BoolSort():
                    return z3.If(cond, boolt(a), boolt(b))
                if not is_term(a) or not is_term(b):
                    return z3.If(cond, num(a), num(b))
                return z3.If(cond, a, b)
            if sa.kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT) and sb.kind() in (
                z3.Z3_INT_SORT,
                z3.Z3_REAL_SORT,
            ):
                return z3.If(cond, real(a), real(b))
    return ta() if P().decide(cond) else tb()


def is_scalar(v):
    return is_term(v) or isinstance(v, (bool, int))


def from_list(items):
    items = list(items)
    sc = all(is_scalar(x) for x in items) and len(
        {scalar_sort(x) for x in items}
    ) <= 1

    def at(i):
        if not items:
            raise Unsupported("element of an empty sequence")
        if not is_term(i):
            # out of range only under a merge guarded by the length
            return items[i] if -len(items) <= i < len(items) else items[-1]
        return pick(items, i, 0, sc)

    def pick(items, i, j, sc):
        if j == len(items) - 1:
            return items[j]
        return merge(
            fold(i == j), lambda: items[j], lambda: pick(items, i, j + 1, sc), sc
        )

    return SymSeq(len(items), at, sc)


def as_seq(v):
    if isinstance(v, SymSeq):
        return v
    if isinstance(v, (list, tuple)):
        return from_list(v)
    if isinstance(v, PyList):
        return as_seq(v.f["data"])
    raise Unsupported("not a sequence: %r" % (v,))


def seq_len(s):
    if isinstance(s, (list, tuple)):
        return len(s)
    if isinstance(s, PyList):
        return seq_len(s.f["data"])
    return s.n


def seq_at(s, i):
    if isinstance(s, (list, tuple)):
        if not is_term(i):
            return s[i]
        s = from_list(s)
    if isinstance(s, PyList):
        return seq_at(s.f["data"], i)
    P().instantiate(i)
    return s.at(i)


def inst_at(s, i):
    p = P()
    if p.foralls:
        p.instantiate(i)
    return s.at(i)


def all_distinct(p, s, n, also=()):
    """proved: the first n elements are pairwise distinct numbers"""
    s = as_seq(s)

    def pair():
        a, b = p.int("a"), p.int("b")
        p.assume(z3.And(a >= 0, a < b, b < num(n)))
        if p._check() == z3.unsat:
            return True
        x, y = num(seq_at(s, a)), num(seq_at(s, b))
        p.instantiate(x), p.instantiate(y)
        return p.entails(x != y)

    return p.all_cases(pair)


def seq_append(s, x):
    s = as_seq(s)
    if not is_term(s.n) and s.n == 0:
        return from_list([x])
    sc = s.scalar and is_scalar(x)
    return SymSeq(
        add(s.n, 1),
        lambda i: merge(index_eq(i, s.n), lambda: x, lambda: s.at(i), sc),
        sc,
    )


def seq_concat(a, b):
    a, b = as_seq(a), as_seq(b)
    if a.n is None:
        return a
    if not is_term(a.n) and a.n == 0:
        return b
    if b.n is not None and not is_term(b.n) and b.n == 0:
        return a
    sc = a.scalar and b.scalar
    return SymSeq(
        None if b.n is None else add(a.n, b.n),
        lambda i: merge(
            idx_lt(i, a.n), lambda: a.at(i), lambda: inst_at(b, sub(i, a.n)), sc
        ),
        sc,
    )


def seq_slice(s, lo, n):
    """s[lo:lo+n], bounds already normalised"""
    s = as_seq(s)
    return SymSeq(n, lambda i: inst_at(s, add(i, lo)), s.scalar)


def seq_rev(s):
    s = as_seq(s)
    return SymSeq(s.n, lambda i: s.at(sub(sub(s.n, 1), i)), s.scalar)


def seq_set(s, i, x):
    s = as_seq(s)
    sc = s.scalar and is_scalar(x)
    return SymSeq(
        s.n, lambda j: merge(index_eq(i, j), lambda: x, lambda: s.at(j), sc), sc
    )


def seq_map(s, f, scalar=False):
    s = as_seq(s)
    return SymSeq(s.n, lambda i: f(s.at(i)), scalar)


def seq_const(n, x):
    return SymSeq(n, lambda i: x, is_scalar(x))


def seq_of_fn(n, f):
    return SymSeq(n, lambda i: f(num(i)), True)


def seq_range(lo, n):
    return SymSeq(n, lambda i: add(lo, i), True)


def eq_term(a, b):
    """Equality of scalars as python bool or Bool term; None if not scalar."""
    if a is b:
        return True
    if is_objterm(a) or is_objterm(b):
        if a is None:
            a = NONE
        if b is None:
            b = NONE
        if is_objterm(a) and is_objterm(b):
            return fold(a == b)
        return None
    if is_boolv(a) and is_boolv(b):
        if is_term(a) or is_term(b):
            return fold(boolt(a) == boolt(b))
        return a == b
    if (is_num(a) or is_boolv(a)) and (is_num(b) or is_boolv(b)):
        import math

        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and (math.isinf(x) or math.isnan(x)):
                return (not is_term(y)) and x == y
        if is_term(a) or is_term(b):
            return fold(num(a) == num(b))
        return a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a is None or b is None:
        return False
    if is_term(a) and is_term(b) and a.sort() == b.sort():
        return fold(a == b)
    return None


def proves_equal(a, b, depth=0):
    """Prove structural equality on the current path (all case splits)."""
    p = P()
    e = eq_term(a, b)
    if e is not None:
        return p.entails(e)
    if isinstance(a, PyList) and isinstance(b, (PyList, SymSeq, list)):
        a = a.f["data"]
    if isinstance(b, PyList) and isinstance(a, (SymSeq, list)):
        b = b.f["data"]
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(
            proves_equal(x, y, depth + 1) for x, y in zip(a, b)
        )
    if isinstance(a, (list, SymSeq)) and isinstance(b, (list, SymSeq)):
        na, nb = seq_len(a), seq_len(b)
        if (na is None) != (nb is None):
            return False
        if na is not None and not p.entails(fold(num(na) == num(nb))):
            return False
        if isinstance(a, list) and isinstance(b, list):
            return all(proves_equal(x, y, depth + 1) for x, y in zip(a, b))
        return p.forall_holds(
            nb, lambda i: proves_equal(seq_at(a, i), seq_at(b, i), depth + 1)
        )
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        da, db = a.f["data"], b.f["data"]
        return set(da) == set(db) and all(
            proves_equal(da[k], db[k], depth + 1) for k in da
        )
    if a is not b and hasattr(a, "shape") and hasattr(b, "shape") and hasattr(a, "snap") and hasattr(b, "snap"):
        return same_tensor(a, b)
    if isinstance(a, (HeapObj, Opaque, Builtin)) or isinstance(
        b, (HeapObj, Opaque, Builtin)
    ):
        return a is b
    return same(a, b)


def same_tensor(a, b):
    """same shape, same elements"""
    p = P()
    if len(a.shape) != len(b.shape) or a.deps != b.deps:
        return False
    if not all(p.entails(fold(num(x) == num(y))) for x, y in zip(a.shape, b.shape)):
        return False
    ix = []
    for d in a.shape:
        i = p.int("ix")
        p.assume(z3.And(i >= 0, i < num(d)))
        ix.append(i)
    x, y = a.at(*ix), b.at(*ix)
    if is_term(x) and is_term(y) and x.sort() != y.sort():
        x, y = z3.ToReal(x) if z3.is_int(x) else x, z3.ToReal(y) if z3.is_int(y) else y
    return p.entails(fold(num(x) == num(y)))
