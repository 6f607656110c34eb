"""Contracts of torch tensors and numpy arrays over the reals.

A tensor is a shape (integers or Int terms) and a total function from indices to
scalars; views read through to their base.  Trusted: that the library operation
computes what the closure below says, in real arithmetic.
"""
import ast
import math

import z3

from . import seqs
from .interp import ExtVal, GenVal, SliceVal, exc
from .values import (
    HModel, Model, P, Builtin, Opaque, PyList, PyObj, SymSeq, Unsupported, boolt, fold,
    is_boolv, is_int, is_num, is_term, num, real, NONE, Obj, is_objterm,
)


def one(d):
    return not is_term(d) and d == 1


def deq(a, b):
    """equal dimensions; splits the path when unknown"""
    if not is_term(a) and not is_term(b):
        return a == b
    if seqs.same(a, b):
        return True
    return P().decide(fold(num(a) == num(b)))


def prod(ds):
    r = 1
    for d in ds:
        if one(r):
            r = d
        elif one(d):
            pass
        elif is_term(r) or is_term(d):
            r = fold(num(r) * num(d))
        else:
            r = r * d
    return r


def kind(v):
    if is_boolv(v):
        return "bool"
    if is_int(v):
        return "int"
    if is_objterm(v):
        return "obj"
    return "real"


EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
TANH = z3.Function("tanh", z3.RealSort(), z3.RealSort())


DETACHED = z3.Function("detached", z3.RealSort(), z3.RealSort())


def detached(x):
    """the value of x as a constant: no gradient flows through it"""
    return DETACHED(real(x))


def zexp(x):
    t = EXP(real(x))
    P().assume(t > 0)
    return t


def zsqrt(x):
    t = SQRT(real(x))
    P().assume(z3.Implies(real(x) >= 0, z3.And(t >= 0, t * t == real(x))))
    return t


def zmin(a, b):
    a, b = unify(a, b)
    return fold(z3.If(a <= b, a, b))


def zmax(a, b):
    a, b = unify(a, b)
    return fold(z3.If(a >= b, a, b))


def unify(a, b):
    a, b = num(a), num(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return a, b


def zabs(a):
    a = num(a)
    return fold(z3.If(a >= 0, a, -a))


def even_fn(name, d):
    """even function kept abstract outside the bounded mode"""
    f = z3.Function(name, z3.RealSort(), z3.RealSort())
    d = z3.simplify(real(d))
    n = z3.simplify(-d)
    P().assume(z3.And(f(d) == f(n), f(d) >= 0))
    return f(d)


def zsquare(d):
    d = fold(real(d))
    if P().unit.mode == "bmc" or not is_term(d):
        return fold(real(d) * real(d))
    return even_fn("square", d)


def huber(d):
    d = real(d)
    if P().unit.mode != "bmc":
        return even_fn("huber", d)
    a = z3.If(d >= 0, d, -d)
    return fold(z3.If(a < 1, d * d / 2, a - z3.Q(1, 2)))


def to_real(v):
    if is_boolv(v):
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if is_term(v):
        return real(v)
    return float(v) if isinstance(v, (int, float)) else v


def to_long(v):
    if is_boolv(v) or is_int(v):
        return num(v)
    if is_objterm(v):
        raise Unsupported("opaque to integer")
    v = real(v)
    return fold(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))


class T(HModel):
    """tensor / ndarray"""

    def __init__(self, shape, at, dtype="real", deps=(), base=None, vmap=None, label="tensor", np=False):
        HModel.__init__(self, label)
        self.shape = tuple(shape)
        self.dtype = dtype
        self.deps = frozenset(deps) if not P().ghost.get("nograd") else frozenset()
        self.base = base
        self.vmap = vmap
        self.flat_of = None
        self.np = np
        if base is None:
            self.f["at"] = at

    # -- reading
    def at(self, *idx):
        assert len(idx) == len(self.shape), (idx, self.shape)
        if self.base is not None:
            return self.base.at(*self.vmap(idx))
        for i in idx:
            P().instantiate(i)
        return self.f["at"](*idx)

    def snap(self):
        if self.base is not None:
            b, vm = self.base.snap(), self.vmap
            return lambda *idx: b(*vm(idx))
        f = self.f["at"]

        def at(*idx):
            for i in idx:
                P().instantiate(i)
            return f(*idx)

        return at

    def view(self, shape, vmap, deps=None):
        t = T(shape, None, self.dtype, self.deps if deps is None else deps, base=self, vmap=vmap, np=self.np)
        return t

    def like(self, shape, at, dtype=None, deps=None):
        return T(shape, at, dtype or self.dtype, self.deps if deps is None else deps, np=self.np)

    # -- writing
    def put(self, fn):
        """replace contents by fn(old, idx)"""
        if self.base is not None:
            raise Unsupported("write through a view")
        old = self.f["at"]
        self.set("at", lambda *idx: fn(old, idx))

    def havoc_field(self, field, init):
        p = P()
        sort = {"real": z3.RealSort(), "int": z3.IntSort(), "bool": z3.BoolSort(), "obj": Obj}[self.dtype]
        f = p.fn("havoc_tensor", *([z3.IntSort()] * len(self.shape) + [sort]))
        if not self.shape:
            c = z3.Const(p.name("havoc_scalar"), sort)
            return lambda: c
        return lambda *idx: f(*[num(i) for i in idx])

    # -- protocol
    def length(self, ip):
        if not self.shape:
            raise exc("TypeError", "len of a 0-d tensor")
        return self.shape[0]

    def iter(self, ip):
        if not self.shape:
            raise exc("TypeError", "iteration over a 0-d tensor")
        n = self.shape[0]
        if is_term(n):
            return SymSeq(n, lambda i: self.item_at(i))
        return [self.item_at(i) for i in range(n)]

    def item_at(self, i):
        if len(self.shape) == 1 and self.np:
            return self.at(i)
        return self.view(self.shape[1:], lambda idx, i=i: (i,) + tuple(idx))

    def to_float(self, ip):
        return to_real(self.m_detach(ip).scalar())

    def to_int(self, ip):
        return to_long(self.scalar())

    def scalar(self):
        for d in self.shape:
            if not one(d):
                raise Unsupported("scalar of a tensor of shape %r" % (self.shape,))
        return self.at(*[0] * len(self.shape))

    def truth(self, ip):
        return ip.truth_t(self.scalar())

    def minmax(self, ip, is_max):
        return self._reduce_minmax(ip, is_max)

    def isinstance_(self, ip, t):
        nm = getattr(t, "name", "")
        if nm in ("torch.Tensor",):
            return not self.np
        if nm in ("numpy.ndarray",):
            return self.np
        return False

    def unary(self, ip, op):
        s = self.snap()
        if isinstance(op, ast.USub):
            return self.like(self.shape, lambda *i: fold(-num(s(*i))))
        if isinstance(op, ast.UAdd):
            return self
        if isinstance(op, ast.Invert) and self.dtype == "bool":
            return self.like(self.shape, lambda *i: fold(z3.Not(boolt(s(*i)))))
        raise Unsupported("unary on tensor")

    def binop(self, ip, op, other, swapped):
        o = as_t(ip, other, self.np)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swapped else (self, o)
        return elementwise(ip, lambda x, y: sc_binop(ip, op, x, y), [a, b])

    def aug(self, ip, op, other):
        r = self.binop(ip, op, other, False)
        if r is NotImplemented:
            return r
        if len(r.shape) != len(self.shape) or not all(deq(x, y) for x, y in zip(r.shape, self.shape)):
            raise exc("RuntimeError", "in-place broadcast")
        s = r.snap()
        self.put(lambda old, idx: s(*idx))
        return self

    def compare(self, ip, op, other, swapped):
        o = as_t(ip, other, self.np)
        if o is None:
            return NotImplemented
        a, b = (o, self) if swapped else (self, o)
        return elementwise(ip, lambda x, y: ip.compare(op, x, y), [a, b], "bool")

    # -- indexing
    def getitem(self, ip, i):
        items = list(i) if isinstance(i, tuple) else [i]
        nreal = sum(1 for x in items if x is not None and x is not Ellipsis)
        k = None
        for j, x in enumerate(items):
            if x is Ellipsis:
                k = j
        full = SliceVal(None, None, None)
        if k is not None:
            items[k:k + 1] = [full] * (len(self.shape) - nreal)
        else:
            items += [full] * (len(self.shape) - nreal)
        adv = [x for x in items if isinstance(x, (T, PyList))]
        if adv:
            return self.adv_index(ip, items)
        out_shape, plan = [], []
        d = 0
        for x in items:
            if x is None:
                out_shape.append(1)
                plan.append(("new",))
                continue
            if d >= len(self.shape):
                raise exc("IndexError", "too many indices")
            n = self.shape[d]
            if isinstance(x, SliceVal):
                if x.step is not None and not (not is_term(x.step) and x.step == 1):
                    if not is_term(x.step) and x.step == -1 and x.lo is None and x.hi is None:
                        out_shape.append(n)
                        plan.append(("rev", n))
                        d += 1
                        continue
                    raise Unsupported("slice step")
                if x.lo is None and x.hi is None:
                    lo, ln = 0, n
                else:
                    lo, ln = ip.slice_bounds(x, n)
                out_shape.append(ln)
                plan.append(("slice", lo))
            elif is_int(x) and not is_boolv(x):
                plan.append(("int", ip.norm_index(x, n, "tensor")))
            else:
                raise Unsupported("tensor index %r" % (x,))
            d += 1

        def vmap(idx):
            r, j = [], 0
            for pl in plan:
                if pl[0] == "new":
                    j += 1
                elif pl[0] == "slice":
                    r.append(seqs.add(idx[j], pl[1]))
                    j += 1
                elif pl[0] == "rev":
                    r.append(seqs.sub(seqs.sub(pl[1], 1), idx[j]))
                    j += 1
                else:
                    r.append(pl[1])
            return tuple(r)

        if not out_shape and self.np:
            return self.at(*vmap(()))
        return self.view(out_shape, vmap)

    def adv_index(self, ip, items):
        if len(items) == 1 and isinstance(items[0], T) and items[0].dtype == "bool" and len(items[0].shape) == 1:
            return Selection(self, items[0])
        pos = [j for j, x in enumerate(items) if isinstance(x, (T, PyList))]
        if any(x is None for x in items):
            raise Unsupported("None with advanced indexing")
        ts = {j: as_t(ip, items[j], True) for j in pos}
        if any(t.dtype == "bool" for t in ts.values()):
            raise Unsupported("boolean mask")
        shp, maps = broadcast([ts[j].shape for j in pos])
        adjacent = pos == list(range(pos[0], pos[-1] + 1))
        rest = []  # (dim, lo, len) of slices
        ints = {}
        for j, x in enumerate(items):
            if j in ts:
                continue
            if isinstance(x, SliceVal):
                if x.step is not None:
                    raise Unsupported("slice step")
                lo, ln = (0, self.shape[j]) if x.lo is None and x.hi is None else ip.slice_bounds(x, self.shape[j])
                rest.append((j, lo, ln))
            else:
                ints[j] = ip.norm_index(x, self.shape[j], "tensor")
        if adjacent and not ints:
            before = [r for r in rest if r[0] < pos[0]]
            after = [r for r in rest if r[0] > pos[-1]]
        else:
            before, after = [], rest
        out = [r[2] for r in before] + list(shp) + [r[2] for r in after]
        s = self.snap()
        tsn = {j: ts[j].snap() for j in pos}
        nb, na = len(before), len(shp)

        def at(*idx):
            r = [None] * len(self.shape)
            for q, (j, lo, ln) in enumerate(before):
                r[j] = seqs.add(idx[q], lo)
            for q, (j, lo, ln) in enumerate(after):
                r[j] = seqs.add(idx[nb + na + q], lo)
            for q, j in enumerate(pos):
                v = num(tsn[j](*maps[q](idx[nb:nb + na])))
                n = num(self.shape[j])
                r[j] = fold(z3.If(v < 0, v + n, v)) if not P().entails(v >= 0) else fold(v)
            for j, v in ints.items():
                r[j] = v
            return s(*r)

        return self.like(out, at)

    def setitem(self, ip, i, v):
        items = list(i) if isinstance(i, tuple) else [i]
        if len(items) == 1 and isinstance(items[0], T) and items[0].dtype == "bool" and len(items[0].shape) == 1:
            mask, val = items[0].snap(), as_t(ip, v, self.np)
            if val is None or val.shape or not deq(items[0].shape[0], self.shape[0]):
                raise Unsupported("assignment by mask")
            vs = val.snap()
            conv = {"real": to_real, "int": to_long}.get(self.dtype, lambda z: z)
            self.put(lambda old, idx: seqs.merge(boolt(mask(idx[0])), lambda: conv(vs()), lambda: old(*idx), True))
            return
        adv = [d for d, x in enumerate(items) if isinstance(x, (T, PyList))]
        if len(adv) == 1 and all(
            d in adv or isinstance(x, SliceVal) and x.lo is None and x.hi is None and x.step is None
            for d, x in enumerate(items)
        ):
            return self.set_rows(ip, adv[0], as_t(ip, items[adv[0]], True), v)
        if adv:
            raise Unsupported("assignment by advanced index")
        tgt = self.getitem(ip, i)
        if not isinstance(tgt, T):
            shape = ()
        else:
            shape = tgt.shape
        o = as_t(ip, v, self.np)
        if o is None:
            raise Unsupported("tensor assignment of %r" % (v,))
        full = SliceVal(None, None, None)
        items += [full] * (len(self.shape) - len(items))
        plan = []
        for d, x in enumerate(items):
            if isinstance(x, SliceVal):
                lo, ln = (0, self.shape[d]) if x.lo is None and x.hi is None else ip.slice_bounds(x, self.shape[d])
                plan.append((lo, ln, True))
            elif x is None or x is Ellipsis:
                raise Unsupported("assignment index")
            else:
                plan.append((ip.norm_index(x, self.shape[d], "tensor"), 1, False))
        shp, maps = broadcast([shape, o.shape])
        if len(shp) != len(shape):
            raise exc("RuntimeError", "shape mismatch in assignment")
        os = o.snap()
        conv = {"real": to_real, "int": to_long}.get(self.dtype, lambda z: z)

        def fn(old, idx):
            conds, sub = [], []
            for (lo, ln, keep), ix in zip(plan, idx):
                if keep:
                    conds.append(fold(z3.And(num(ix) >= num(lo), num(ix) < num(lo) + num(ln))))
                    sub.append(seqs.sub(ix, lo))
                else:
                    conds.append(seqs.index_eq(ix, lo))
            if any(c is False for c in conds):
                return old(*idx)
            c = fold(z3.And(*[boolt(c) for c in conds])) if conds else True
            return seqs.merge(c, lambda: conv(os(*maps[1](tuple(sub)))), lambda: old(*idx), True)

        self.put(fn)

    # -- shape ops
    def set_rows(self, ip, d, ix, v):
        """t[:, ..., ix] = scalar, ix a vector of indices"""
        p = P()
        val = as_t(ip, v, self.np)
        if val is None or val.shape or len(ix.shape) != 1 or ix.dtype != "int":
            raise Unsupported("assignment by advanced index")
        n, size, iat = ix.shape[0], num(self.shape[d]), ix.snap()

        def norm(j):
            q = num(iat(j))
            return q if p.entails(q >= 0) else z3.If(q < 0, q + size, q)

        vs = val.snap()
        conv = {"real": to_real, "int": to_long}.get(self.dtype, lambda z: z)
        p.unit.loops_seen.add("fold")
        if p.unit.mode == "bmc":
            n = p.expand(n)
        if not is_term(n):
            qs = [norm(j) for j in range(n)]
            for q in qs:
                if not p.entails(z3.And(q >= 0, q < size)):
                    raise Unsupported("index possibly out of range in an assignment")

            def hit(b):
                return z3.Or(*[q == num(b) for q in qs]) if qs else False
        else:
            if not p.forall_holds(n, lambda j: z3.And(norm(j) >= 0, norm(j) < size)):
                raise Unsupported("index possibly out of range in an assignment")
            mem = p.fn("member", z3.IntSort(), z3.BoolSort())
            rk = p.fn("rk", z3.IntSort(), z3.IntSort())
            p.forall(n, lambda j: mem(norm(j)))

            def inv(b):
                r = rk(b)
                p.instantiate(r)
                return z3.Implies(mem(b), z3.And(r >= 0, r < num(n), norm(r) == b))

            p.forall(self.shape[d], inv)

            def hit(b):
                p.instantiate(b)
                return mem(num(b))

        self.put(lambda old, idx: seqs.merge(hit(idx[d]), lambda: conv(vs()), lambda: old(*idx), True))

    def p_shape(self, ip):
        return self.shape

    def p_ndim(self, ip):
        return len(self.shape)

    def m_dim(self, ip):
        return len(self.shape)

    def m_size(self, ip, d=None):
        return self.shape if d is None else self.shape[d]

    def getattr(self, ip, name):
        if self.np and name == "size":
            return prod(self.shape)
        return HModel.getattr(self, ip, name)

    def m_numel(self, ip):
        return prod(self.shape)

    def p_device(self, ip):
        return Opaque("device")

    def p_dtype(self, ip):
        return Opaque("dtype:" + self.dtype)

    def p_requires_grad(self, ip):
        return bool(self.deps)

    def p_data(self, ip):
        return self.m_detach(ip)

    def p_T(self, ip):
        if len(self.shape) != 2:
            raise Unsupported(".T")
        return self.view((self.shape[1], self.shape[0]), lambda i: (i[1], i[0]))

    def m_detach(self, ip):
        if self.deps and P().ghost.get("track_detach"):
            s = self.snap()
            return self.like(self.shape, lambda *i: detached(s(*i)), deps=())
        return self.view(self.shape, lambda i: i, deps=())

    def same_(self, ip, *a, **k):
        return self

    m_cpu = m_contiguous = m_cuda = m_pin_memory = same_

    def m_to(self, ip, *a, **k):
        dt = k.get("dtype")
        for x in a:
            if isinstance(x, ExtVal) and x.name.startswith("torch."):
                dt = x
        return self.cast(dt)

    def m_numpy(self, ip):
        if self.deps and P().ghost.get("track_detach"):
            t = self.m_detach(ip)
            t.np = True
            return t
        t = self.view(self.shape, lambda i: i, deps=())
        t.np = True
        return t

    def m_clone(self, ip):
        return self.like(self.shape, self.snap())

    m_copy = m_clone

    def m_requires_grad_(self, ip, flag=True):
        if not flag:
            self.deps = frozenset()
        return self

    def cast(self, dt):
        k = dtype_kind(dt)
        if k is None or k == self.dtype:
            return self
        s = self.snap()
        return self.like(self.shape, lambda *i: CAST[k](s(*i)), k)

    def m_astype(self, ip, dt, *a, **k):
        return self.cast(dt)

    m_type = m_astype

    def m_float(self, ip):
        return self.cast("real")

    m_double = m_float

    def m_long(self, ip):
        return self.cast("int")

    m_int = m_long

    def m_bool(self, ip):
        return self.cast("bool")

    def m_item(self, ip):
        return self.m_detach(ip).scalar()

    def m_tolist(self, ip):
        if len(self.shape) != 1:
            raise Unsupported("tolist of rank %d" % len(self.shape))
        s = self.snap()
        return PyList(SymSeq(self.shape[0], lambda i: s(i), True), ip.alloc_label("tolist"))

    def m_unsqueeze(self, ip, dim):
        d = dim if dim >= 0 else len(self.shape) + 1 + dim
        return self.view(self.shape[:d] + (1,) + self.shape[d:], lambda i: tuple(i[:d]) + tuple(i[d + 1:]))

    def m_squeeze(self, ip, dim=None):
        keep = []
        for d, n in enumerate(self.shape):
            if dim is not None and d != (dim if dim >= 0 else len(self.shape) + dim):
                keep.append(d)
            elif one(n):
                pass
            elif is_term(n) and P().decide(fold(n == 1)):
                pass
            else:
                keep.append(d)

        def vmap(idx):
            r = [0] * len(self.shape)
            for q, d in enumerate(keep):
                r[d] = idx[q]
            return tuple(r)

        return self.view([self.shape[d] for d in keep], vmap)

    def m_transpose(self, ip, a, b):
        n = len(self.shape)
        a, b = a % n, b % n
        perm = list(range(n))
        perm[a], perm[b] = perm[b], perm[a]
        return self.m_permute(ip, *perm)

    def m_permute(self, ip, *perm):
        perm = [p_ % len(self.shape) for p_ in (perm[0] if len(perm) == 1 and isinstance(perm[0], tuple) else perm)]

        def vmap(idx):
            r = [None] * len(perm)
            for q, d in enumerate(perm):
                r[d] = idx[q]
            return tuple(r)

        return self.view([self.shape[d] for d in perm], vmap)

    def m_expand_as(self, ip, o):
        return self.m_expand(ip, *o.shape)

    def m_expand(self, ip, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        sh = list(shape)
        off = len(sh) - len(self.shape)
        for d in range(len(self.shape)):
            if not is_term(sh[d + off]) and sh[d + off] == -1:
                sh[d + off] = self.shape[d]
        shp, maps = broadcast([tuple(sh), self.shape])
        m = maps[1]
        return self.view(shp, lambda idx: m(idx))

    def m_reshape(self, ip, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, PyList)):
            s0 = shape[0]
            shape = tuple(s0) if isinstance(s0, tuple) else tuple(ip.collect(ip.iterate(s0)))
        return reshape(self, shape)

    m_view = m_reshape

    def m_flatten(self, ip, *a, **k):
        if a or k:
            raise Unsupported("flatten range")
        return reshape(self, (-1,))

    m_ravel = m_flatten

    # -- elementwise
    def map(self, f, dtype=None):
        s = self.snap()
        return self.like(self.shape, lambda *i: f(s(*i)), dtype)

    def m_abs(self, ip):
        return self.map(zabs)

    def m_exp(self, ip):
        return self.map(zexp, "real")

    def m_log(self, ip):
        return self.map(lambda x: LOG(real(x)), "real")

    def m_sqrt(self, ip):
        return self.map(zsqrt, "real")

    def m_tanh(self, ip):
        return self.map(lambda x: TANH(real(x)), "real")

    def m_neg(self, ip):
        return self.unary(ip, ast.USub())

    def m_dot(self, ip, o):
        return dot(self, o)

    m_matmul = m_dot

    def m_pow(self, ip, e):
        return self.binop(ip, ast.Pow(), e, False)

    def m_floor(self, ip):
        return self.map(lambda x: fold(z3.ToReal(z3.ToInt(real(x)))))

    def m_ceil(self, ip):
        return self.map(lambda x: fold(-z3.ToReal(z3.ToInt(-real(x)))))

    def m_clamp(self, ip, min=None, max=None):
        r = self
        if min is not None:
            r = as_t(ip, elementwise(ip, zmax, [r, as_t(ip, min, self.np)]), self.np)
        if max is not None:
            r = as_t(ip, elementwise(ip, zmin, [r, as_t(ip, max, self.np)]), self.np)
        return r

    m_clip = m_clamp

    def m_add(self, ip, o):
        return self.binop(ip, ast.Add(), o, False)

    def m_mul(self, ip, o):
        return self.binop(ip, ast.Mult(), o, False)

    def m_add_(self, ip, o, alpha=1):
        if not (not is_term(alpha) and alpha == 1):
            o = ip.binop(ast.Mult(), o, alpha)
        return self.aug(ip, ast.Add(), o)

    def m_mul_(self, ip, o):
        return self.aug(ip, ast.Mult(), o)

    def m_copy_(self, ip, o):
        o = as_t(ip, o, self.np)
        shp, maps = broadcast([self.shape, o.shape])
        s = o.snap()
        self.put(lambda old, idx: s(*maps[1](idx)))
        return self

    def m_zero_(self, ip):
        self.put(lambda old, idx: z3.RealVal(0) if self.dtype == "real" else 0)
        return self

    def m_fill_(self, ip, v):
        if self.dtype == "bool":
            b = ip.truth_t(v)
            b = b if is_term(b) else z3.BoolVal(bool(b))
            self.put(lambda old, idx: b)
        else:
            self.put(lambda old, idx: real(v) if self.dtype == "real" else num(v))
        return self

    def m_fill(self, ip, v):
        self.m_fill_(ip, v)

    # -- reductions
    def dims(self, ip, dim):
        n = len(self.shape)
        if dim is None:
            return list(range(n))
        if isinstance(dim, tuple):
            return sorted(d % n for d in dim)
        if is_term(dim):
            raise Unsupported("symbolic dim")
        return [dim % n] if n else []

    def reduce(self, ip, dim, keepdim, f, dtype=None):
        """f(n, at) folds one dimension; several dims are folded inner first"""
        ds = self.dims(ip, dim)
        t = self
        for d in reversed(ds):
            t = t.reduce1(d, f, dtype)
        if keepdim:
            for d in ds:
                t = t.m_unsqueeze(ip, d)
        elif self.np and not t.shape:
            return t.at()
        return t

    def reduce1(self, d, f, dtype):
        s = self.snap()
        n = self.shape[d]
        shape = self.shape[:d] + self.shape[d + 1:]

        def at(*idx):
            return f(n, lambda i: s(*(tuple(idx[:d]) + (i,) + tuple(idx[d:]))))

        return self.like(shape, at, dtype)

    def m_sum(self, ip, dim=None, keepdim=False, axis=None, keepdims=False, dtype=None):
        dim = axis if dim is None else dim
        return self.reduce(ip, dim, keepdim or keepdims, tsum, "int" if self.dtype == "int" and False else "real")

    def m_mean(self, ip, dim=None, keepdim=False, axis=None, keepdims=False, dtype=None):
        dim = axis if dim is None else dim
        if self.flat_of is not None and dim is None and len(self.shape) == 1:
            return self.flat_of.m_mean(ip)
        return self.reduce(ip, dim, keepdim or keepdims, lambda n, at: fold(tsum(n, at) / real(n)), "real")

    def m_var(self, ip, dim=None, unbiased=True, keepdim=False, axis=None, keepdims=False):
        dim = axis if dim is None else dim
        if self.np:
            unbiased = False
        if dim is None and sum(not one(d) for d in self.shape) > 1:
            raise Unsupported("variance over several dimensions")

        def f(n, at):
            m = fold(tsum(n, at) / real(n))
            ss = tsum(n, lambda i: fold((real(at(i)) - m) * (real(at(i)) - m)))
            return fold(ss / (real(n) - (1 if unbiased else 0)))

        return self.reduce(ip, dim, keepdim or keepdims, f, "real")

    def m_std(self, ip, dim=None, unbiased=True, keepdim=False, axis=None, keepdims=False):
        v = self.m_var(ip, dim, unbiased, keepdim, axis, keepdims)
        return v.m_sqrt(ip) if isinstance(v, T) else zsqrt(v)

    def _reduce_minmax(self, ip, is_max, dim=None, keepdim=False):
        def f(n, at):
            w = extremum(n, at, is_max)
            return at(w)

        return self.reduce(ip, dim, keepdim, f)

    def m_max(self, ip, dim=None, keepdim=False, axis=None):
        dim = axis if dim is None else dim
        return self._mm(ip, True, dim, keepdim)

    def m_min(self, ip, dim=None, keepdim=False, axis=None):
        dim = axis if dim is None else dim
        return self._mm(ip, False, dim, keepdim)

    def m_amax(self, ip, dim=None, keepdim=False):
        return self._reduce_minmax(ip, True, dim, keepdim)

    def m_amin(self, ip, dim=None, keepdim=False):
        return self._reduce_minmax(ip, False, dim, keepdim)

    def _mm(self, ip, is_max, dim, keepdim):
        if isinstance(dim, T):
            return elementwise(ip, zmax if is_max else zmin, [self, dim])
        v = self._reduce_minmax(ip, is_max, dim, keepdim)
        if dim is None or self.np:
            return v
        return MaxResult(v, self._arg(ip, is_max, dim, keepdim))

    def _arg(self, ip, is_max, dim, keepdim=False):
        if dim is None and len(self.shape) != 1:
            raise Unsupported("argmax of the flattened tensor")
        r = self.reduce(ip, dim, keepdim, lambda n, at: extremum(n, at, is_max), "int")
        if isinstance(r, T):
            r.deps = frozenset()
        return r

    def m_argmax(self, ip, dim=None, keepdim=False, axis=None):
        return self._arg(ip, True, axis if dim is None else dim, keepdim)

    def m_argmin(self, ip, dim=None, keepdim=False, axis=None):
        return self._arg(ip, False, axis if dim is None else dim, keepdim)

    def m_all(self, ip, *a, **k):
        if a or k or len(self.shape) > 1:
            raise Unsupported("all(dim)")
        from .builtin_fns import _anyall

        s = self.snap()
        if not self.shape:
            return s()
        return _anyall(ip, SymSeq(self.shape[0], lambda i: s(i)), True)

    def m_any(self, ip, *a, **k):
        if a or k or len(self.shape) > 1:
            raise Unsupported("any(dim)")
        from .builtin_fns import _anyall

        s = self.snap()
        if not self.shape:
            return s()
        return _anyall(ip, SymSeq(self.shape[0], lambda i: s(i)), False)

    def sum_builtin(self, ip):
        if len(self.shape) != 1:
            raise Unsupported("builtin sum of a matrix")
        return tsum(self.shape[0], self.snap())

    # -- gather / scatter
    def m_gather(self, ip, dim, index):
        d = dim % len(self.shape)
        s, ix = self.snap(), index.snap()

        def at(*idx):
            r = list(idx)
            r[d] = num(ix(*idx))
            return s(*r)

        return self.like(index.shape, at)

    def m_index_select(self, ip, dim, index):
        items = [SliceVal(None, None, None)] * len(self.shape)
        items[dim % len(self.shape)] = index
        return self.getitem(ip, tuple(items))

    def m_scatter_add_(self, ip, dim, index, src):
        """out[.., idx[a], ..] += src[a] along dim, or along the rows of a flattened matrix"""
        if len(self.shape) == 1 and self.flat_of is not None and index.flat_of is not None and src.flat_of is not None:
            base = self.flat_of
            ib, sb = index.flat_of.snap(), src.flat_of.snap()
            if not (all(deq(x, y) for x, y in zip(base.shape, index.flat_of.shape))
                    and all(deq(x, y) for x, y in zip(base.shape, src.flat_of.shape))):
                raise Unsupported("scatter_add of different layouts")
            B, N = base.shape
            # every deposit stays inside its own row

            def inrow():
                p = P()
                r, a = p.int("row"), p.int("atom")
                p.assume(z3.And(r >= 0, r < num(B), a >= 0, a < num(N)))
                v = num(ib(r, a))
                return p.entails(z3.And(v >= r * num(N), v < r * num(N) + num(N)))

            P().prove(bool(P().all_cases(inrow)), "scatter_add.deposits-stay-in-their-row")
            base.put(lambda old, idx: fold(real(old(*idx)) + tsum(N, lambda a: fold(z3.If(
                num(ib(idx[0], a)) == num(idx[0]) * num(N) + num(idx[1]), real(sb(idx[0], a)), z3.RealVal(0))))))
            return self
        if len(self.shape) == 2 and dim % 2 == 1:
            ib, sb = index.snap(), src.snap()
            N = index.shape[1]

            def inrow():
                p = P()
                r, a = p.int("row"), p.int("atom")
                p.assume(z3.And(r >= 0, r < num(index.shape[0]), a >= 0, a < num(N)))
                v = num(ib(r, a))
                return p.entails(z3.And(v >= 0, v < num(self.shape[1])))

            P().prove(bool(P().all_cases(inrow)), "scatter_add.deposits-stay-in-their-row")
            self.put(lambda old, idx: fold(real(old(*idx)) + tsum(N, lambda a: fold(z3.If(
                num(ib(idx[0], a)) == num(idx[1]), real(sb(idx[0], a)), z3.RealVal(0))))))
            return self
        raise Unsupported("scatter_add_ layout")

    def m_backward(self, ip, *a, **k):
        P().ghost.setdefault("backward", []).append(self)


class Selection(Model):
    """elements of a tensor selected by a mask, of unknown number"""

    def __init__(self, t, mask):
        self.t, self.mask = t, mask


class MaxResult(tuple):
    def __new__(cls, v, i):
        return tuple.__new__(cls, (v, i))


CAST = {
    "real": to_real,
    "int": to_long,
    "bool": lambda v: v if is_boolv(v) else fold(num(v) != 0),
    "obj": lambda v: v,
}


def dtype_kind(dt):
    if dt is None:
        return None
    if isinstance(dt, str):
        nm = dt
    else:
        nm = getattr(dt, "name", "")
    nm = nm.split(".")[-1].split(":")[-1]
    if nm in ("real", "f", "d", "f4", "f8", "float32", "float", "float64", "double", "float16", "float_"):
        return "real"
    if nm in ("int", "i", "l", "i4", "i8", "u1", "long", "int64", "int32", "int8", "uint8", "int16", "short"):
        return "int"
    if nm in ("bool", "?", "bool_"):
        return "bool"
    return None


def tsum(n, at):
    p = P()
    if not is_term(n):
        r = z3.RealVal(0)
        for i in range(n):
            r = r + real(at(i))
        return fold(r)
    return p.sum_of(n, lambda i: at(i))


def extremum(n, at, is_max):
    """index of the first maximum/minimum; shared when the rows are provably equal"""
    p = P()
    return p.arg_of(n, at, is_max)


def sc_binop(ip, op, x, y):
    if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
        x, y = unify(x, y)
        if isinstance(op, ast.Add):
            return fold(x + y)
        if isinstance(op, ast.Sub):
            return fold(x - y)
        return fold(x * y)
    if isinstance(op, ast.Div):
        return fold(real(x) / real(y))
    if isinstance(op, ast.Pow):
        return ip.unit.power(ip, x, y if not is_term(y) or not z3.is_rational_value(y) else
                             (y.numerator_as_long() if y.denominator_as_long() == 1 else y))
    if isinstance(op, (ast.BitAnd, ast.BitOr)):
        return fold((z3.And if isinstance(op, ast.BitAnd) else z3.Or)(boolt(x), boolt(y)))
    return ip.binop(op, x, y)


def broadcast(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    drops = [set() for _ in shapes]
    for d in range(n):
        cur = 1
        for k, s in enumerate(shapes):
            j = d - (n - len(s))
            if j < 0 or one(s[j]):
                continue
            if one(cur):
                cur = s[j]
            elif not deq(cur, s[j]):
                if is_term(cur) and P().decide(fold(num(cur) == 1)):
                    for kk in range(k):
                        jj = d - (n - len(shapes[kk]))
                        if jj >= 0:
                            drops[kk].add(jj)
                    cur = s[j]
                elif is_term(s[j]) and P().decide(fold(num(s[j]) == 1)):
                    drops[k].add(j)
                else:
                    raise exc("RuntimeError", "shapes cannot be broadcast")
        out.append(cur)

    def mk(k, s):
        def m(idx):
            r = []
            for j in range(len(s)):
                d = j + (n - len(s))
                if (one(s[j]) and not one(out[d])) or j in drops[k]:
                    r.append(0)
                else:
                    r.append(idx[d])
            return tuple(r)

        return m

    return tuple(out), [mk(k, s) for k, s in enumerate(shapes)]


def elementwise(ip, f, ts, dtype=None):
    shp, maps = broadcast([t.shape for t in ts])
    sn = [t.snap() for t in ts]
    deps = frozenset().union(*[t.deps for t in ts])
    np = all(t.np for t in ts)
    if dtype is None:
        ks = {t.dtype for t in ts}
        dtype = "real" if "real" in ks else ("int" if "int" in ks else "bool")
    if np and not shp:
        return f(*[s() for s in sn])
    return T(shp, lambda *idx: f(*[s(*m(idx)) for s, m in zip(sn, maps)]), dtype, deps, np=np)


def scalar_t(v, np=False):
    return T((), lambda: v, kind(v), np=np)


def as_t(ip, v, np=False):
    if isinstance(v, T):
        return v
    if is_num(v) or is_boolv(v):
        return scalar_t(v, np)
    if isinstance(v, (PyList, tuple, list, SymSeq)) and not isinstance(v, MaxResult):
        return from_seq(ip, v, np)
    if isinstance(v, Model) and hasattr(v, "as_tensor"):
        return v.as_tensor(ip)
    return None


def from_seq(ip, v, np=False, obj=False):
    it = v if isinstance(v, (list, SymSeq)) else ip.iterate(v)
    if isinstance(it, GenVal):
        it = ip.collect(it)
    n = seqs.seq_len(it)
    if isinstance(it, list):
        if not it:
            return T((0,), lambda i: z3.RealVal(0), "real", np=np)
        elems = [as_t(ip, x, np) if not is_objterm(x) else T((), (lambda x=x: x), "obj") for x in it]
        if any(e is None for e in elems):
            raise Unsupported("array of %r" % (it[:3],))
        shp = elems[0].shape
        for e in elems[1:]:
            if len(e.shape) != len(shp) or not all(deq(a, b) for a, b in zip(shp, e.shape)):
                raise Unsupported("ragged array")
        sn = [e.snap() for e in elems]
        ks = {e.dtype for e in elems}
        dt = ks.pop() if len(ks) == 1 else "real"
        cv = CAST[dt]
        deps = frozenset().union(*[e.deps for e in elems])

        def at(i, *rest):
            if not is_term(i):
                return cv(sn[i](*rest))
            sq = seqs.from_list([cv(s(*rest)) for s in sn])
            return sq.at(i)

        return T((n,) + tuple(shp), at, dt, deps, np=np)
    # symbolic length: look at a generic element to learn the shape
    p = P()
    info = {}

    def probe():
        i = p.int("probe")
        p.assume(z3.And(i >= 0, i < num(n)))
        if p._check() == z3.unsat:
            return True
        e = seqs.seq_at(it, i)
        if is_objterm(e):
            info.setdefault("s", []).append(((), "obj"))
            return True
        t = as_t(ip, e, np)
        if t is None:
            raise Unsupported("array of %r" % (e,))
        info.setdefault("d", set()).update(t.deps)
        if t.shape:
            info.setdefault("s", []).append((t.shape, t.dtype))
        else:
            info.setdefault("s", []).append(((), t.dtype))
        return True

    p.all_cases(probe)
    shps = info.get("s", [((), "real")])
    shp, dt = shps[0]
    for s2, d2 in shps[1:]:
        if len(s2) != len(shp) or not all(seqs.same(a, b) for a, b in zip(shp, s2)):
            raise Unsupported("ragged array")
        if d2 != dt:
            dt = "real"
    cv = CAST[dt]

    def at(i, *rest):
        e = seqs.seq_at(it, i)
        if isinstance(e, T):
            return e.at(*rest)
        if isinstance(e, (PyList, tuple)):
            return as_t(ip, e, np).at(*rest)
        return cv(e)

    return T((n,) + tuple(shp), at, dt, deps=info.get("d", ()), np=np)


def reshape(t, shape):
    shape = tuple(shape)
    p = P()
    wild = [k for k, d in enumerate(shape) if not is_term(d) and d == -1]
    src = [(k, d) for k, d in enumerate(t.shape) if not one(d)]
    dst = [(k, d) for k, d in enumerate(shape) if not one(d) and k not in wild]
    # back from a flat view
    if t.flat_of is not None and len(shape) == len(t.flat_of.shape) and len(shape) > 1:
        fs = t.flat_of.shape
        if all((k in wild) or deq(a, b) for k, (a, b) in enumerate(zip(shape, fs))):
            return t.flat_of
    if not wild:
        if len(src) == len(dst) and all(deq(a[1], b[1]) for a, b in zip(src, dst)):
            return remap(t, shape, src, dst)
        if not src and all(p.entails(fold(num(d) == 1)) for _, d in dst):
            return t.view(shape, lambda idx: (0,) * len(t.shape))
        if len(dst) == 0 and all(p.decide(fold(num(d) == 1)) for _, d in src):
            return t.view(shape, lambda idx: (0,) * len(t.shape))
        # shapes with the same number of elements only for particular dimensions
        if not p.decide(fold(num(prod(t.shape)) == num(prod(shape)))):
            raise exc("RuntimeError", "invalid reshape")
        raise Unsupported("reshape %s to %s" % (t.shape, shape))
    if len(wild) > 1:
        raise exc("RuntimeError", "only one dimension can be inferred")
    w = wild[0]
    # the wildcard takes exactly one source dimension (or 1)
    for q in range(len(src) + 1):
        rest = src[:q] + src[q + 1:]
        if len(rest) == len(dst) and all(seqs.same(a[1], b[1]) or p.entails(fold(num(a[1]) == num(b[1]))) for a, b in zip(rest, dst)):
            d = src[q][1] if q < len(src) else 1
            shp = tuple(d if k == w else x for k, x in enumerate(shape))
            dd = [(k, x) for k, x in enumerate(shp) if not one(x)]
            if [k for k, _ in dd].__len__() == len(src):
                ok = all(seqs.same(a[1], b[1]) or p.entails(fold(num(a[1]) == num(b[1]))) for a, b in zip(src, dd))
                if ok:
                    return remap(t, shp, src, dd)
    if len(shape) == 1 and len(t.shape) == 2:
        B, N = t.shape
        if not is_term(N) or True:
            v = t.view((prod(t.shape),), lambda idx: (fold(num(idx[0]) / num(N)), fold(num(idx[0]) % num(N))))
            v.flat_of = t
            return v
    raise Unsupported("reshape %s to %s" % (t.shape, shape))


def remap(t, shape, src, dst):
    def vmap(idx):
        r = [0] * len(t.shape)
        for (k, _), (j, _) in zip(src, dst):
            r[k] = idx[j]
        return tuple(r)

    v = t.view(shape, vmap)
    return v


class NoGrad(Model):
    def getattr(self, ip, name):
        g = P().ghost
        if name == "__enter__":
            def enter(ip):
                g["nograd"] = g.get("nograd", 0) + 1
            return Builtin("no_grad.enter", enter)
        if name == "__exit__":
            def leave(ip, *a):
                g["nograd"] = g.get("nograd", 0) - 1
            return Builtin("no_grad.exit", leave)
        raise Unsupported("no_grad." + name)


def fresh_t(p, name, shape, sort=None, deps=(), lo=None, hi=None, np=False):
    sort = z3.RealSort() if sort is None else sort
    f = p.fn(name, *([z3.IntSort()] * len(shape) + [sort]))
    k = {z3.RealSort(): "real", z3.IntSort(): "int", z3.BoolSort(): "bool"}.get(sort, "obj")
    if not shape:
        c = z3.Const(p.name(name), sort)
        return T((), lambda: c, k, deps, np=np)

    def at(*idx):
        v = f(*[num(i) for i in idx])
        if lo is not None:
            p_ = P()
            p_.assume(z3.And(*[v >= num(lo)] + ([v < num(hi)] if hi is not None else [])))
        return v

    return T(shape, at, k, deps, np=np)


def _shape_arg(ip, a):
    if len(a) == 1 and isinstance(a[0], tuple):
        return a[0]
    if len(a) == 1 and isinstance(a[0], PyList):
        return tuple(ip.collect(ip.iterate(a[0])))
    return tuple(a)


def torch_ext(np=False):
    e = {}

    def r(*names):
        def deco(f):
            for n in names:
                e["torch." + n] = Builtin("torch." + n, f)
            return f

        return deco

    def meth(name, *aliases):
        def f(ip, x, *a, **k):
            t = as_t(ip, x)
            return getattr(t, "m_" + name)(ip, *a, **k)

        for n in (name,) + aliases:
            e["torch." + n] = Builtin("torch." + n, f)

    for n in ("reshape", "flatten", "sum", "mean", "abs", "floor", "ceil", "clamp", "exp", "log", "sqrt",
              "unsqueeze", "squeeze", "gather", "argmax", "argmin", "pow", "tanh", "var", "std", "any", "all",
              "transpose", "clone", "neg", "index_select", "amax", "amin"):
        meth(n)
    e["torch.clip"] = e["torch.clamp"]

    @r("no_grad", "enable_grad")
    def no_grad(ip):
        return NoGrad()

    @r("max", "maximum")
    def tmax(ip, a, *o, **k):
        return a.m_max(ip, *o, **k)

    @r("min", "minimum")
    def tmin(ip, a, *o, **k):
        return a.m_min(ip, *o, **k)

    @r("tensor")
    def tensor(ip, v, dtype=None, device=None, requires_grad=False):
        t = as_t(ip, v)
        if t is None:
            raise Unsupported("tensor of %r" % (v,))
        c = t.cast(dtype) if dtype is not None else t
        return T(c.shape, c.snap(), c.dtype, ())

    @r("as_tensor", "from_numpy")
    def as_tensor(ip, v, dtype=None, device=None, **k):
        t = as_t(ip, v)
        if t is None:
            raise Unsupported("tensor of %r" % (v,))
        c = t.cast(dtype) if dtype is not None else t
        c = c.view(c.shape, lambda i: i)
        c.np = False
        return c

    @r("zeros", "empty")
    def zeros(ip, *a, dtype=None, device=None):
        z = 0 if dtype_kind(dtype) == "int" else z3.RealVal(0)
        return T(_shape_arg(ip, a), lambda *i: z, dtype_kind(dtype) or "real")

    @r("ones")
    def ones(ip, *a, dtype=None, device=None):
        z = 1 if dtype_kind(dtype) == "int" else z3.RealVal(1)
        return T(_shape_arg(ip, a), lambda *i: z, dtype_kind(dtype) or "real")

    @r("zeros_like")
    def zeros_like(ip, t, dtype=None):
        return T(t.shape, lambda *i: z3.RealVal(0), "real")

    @r("ones_like")
    def ones_like(ip, t, dtype=None):
        return T(t.shape, lambda *i: z3.RealVal(1), "real")

    @r("full")
    def full(ip, shape, v, dtype=None, device=None):
        return T(_shape_arg(ip, [shape]), lambda *i: num(v), dtype_kind(dtype) or kind(v))

    @r("arange")
    def arange(ip, *a, dtype=None, device=None):
        lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        p = P()
        if not is_term(step) and step == 1:
            n = seqs.sub(hi, lo)
        elif not any(is_term(x) for x in (lo, hi, step)):
            n = len(range(lo, hi, step))
        else:
            n = None
            for o in list(p.objs.values()):
                if isinstance(o, T):
                    for d in o.shape:
                        if n is None and p.entails(fold(num(lo) + num(d) * num(step) == num(hi))):
                            n = d
            if n is None:
                raise Unsupported("arange length")
        return T((n,), lambda i: fold(num(lo) + num(step) * num(i)), "int")

    @r("rand")
    def rand(ip, *a, dtype=None, device=None):
        return fresh_t(P(), "rand", _shape_arg(ip, a), lo=0, hi=1)

    @r("stack")
    def stack(ip, xs, dim=0):
        t = from_seq(ip, xs)
        if dim % len(t.shape):
            d = dim % len(t.shape)
            perm = list(range(1, d + 1)) + [0] + list(range(d + 1, len(t.shape)))
            return t.m_permute(ip, *perm)
        return t

    @r("cat", "concat")
    def cat(ip, xs, dim=0, axis=None):
        dim = dim if axis is None else axis
        ts = ip.collect(ip.iterate(xs))
        d = dim % len(ts[0].shape)
        res = ts[0]
        for t in ts[1:]:
            res = cat2(res, t, d)
        return res

    @r("where")
    def where(ip, c, a, b):
        a, b = as_t(ip, a), as_t(ip, b)
        return elementwise(ip, lambda x, y, z: fold(z3.If(boolt(x), *unify(y, z))), [c, a, b], a.dtype)

    @r("matmul", "dot")
    def matmul(ip, a, b):
        return dot(a, b)

    @r("broadcast_tensors")
    def bt(ip, *ts):
        shp, maps = broadcast([t.shape for t in ts])
        return tuple(t.view(shp, (lambda m: lambda idx: m(idx))(m)) for t, m in zip(ts, maps))

    @r("logsumexp")
    def lse(ip, t, dim, keepdim=False):
        return t.reduce(ip, dim, keepdim, lambda n, at: LOG(tsum(n, lambda i: zexp(at(i)))), "real")

    @r("isnan")
    def isnan(ip, t):
        return T(t.shape, lambda *i: False, "bool")

    @r("is_tensor")
    def is_tensor(ip, t):
        return isinstance(t, T) and not t.np

    def softmax(ip, t, dim=None, **k):
        if dim is None:
            dim = 0 if len(t.shape) in (0, 1, 3) else 1
        d = dim % len(t.shape)
        s = t.snap()
        n = t.shape[d]

        def at(*idx):
            den = tsum(n, lambda i: zexp(s(*(tuple(idx[:d]) + (i,) + tuple(idx[d + 1:])))))
            return fold(zexp(s(*idx)) / den)

        return t.like(t.shape, at, "real")

    def eltloss(f):
        def g(ip, a, b, reduction="mean", **k):
            l = elementwise(ip, lambda x, y: f(real(x) - real(y)), [a, b], "real")
            if reduction == "none":
                return l
            if reduction == "sum":
                return l.m_sum(ip)
            if reduction == "mean":
                return l.m_mean(ip)
            raise Unsupported("reduction")

        return g

    for mod in ("torch.nn.functional.", "torch."):
        e[mod + "softmax"] = Builtin("softmax", softmax)
        e[mod + "log_softmax"] = Builtin("log_softmax", lambda ip, t, dim=None: softmax(ip, t, dim).m_log(ip))
        e[mod + "relu"] = Builtin("relu", lambda ip, t: t.map(lambda x: zmax(x, 0.0)))
    e["torch.nn.functional.smooth_l1_loss"] = Builtin("smooth_l1_loss", eltloss(huber))
    e["torch.nn.functional.mse_loss"] = Builtin("mse_loss", eltloss(zsquare))
    for nm in ("float32", "float", "float64", "long", "int64", "int32", "bool", "double", "int"):
        e["torch." + nm] = ExtVal("torch." + nm)
    return e


def dot(a, b):
    if not isinstance(b, T) or len(a.shape) != 1 or len(b.shape) != 1:
        raise Unsupported("matrix product")
    if not deq(a.shape[0], b.shape[0]):
        raise exc("RuntimeError", "size mismatch")
    sa, sb = a.snap(), b.snap()
    v = tsum(a.shape[0], lambda i: fold(real(sa(i)) * real(sb(i))))
    return T((), lambda: v, "real", a.deps | b.deps)


def cat2(a, b, d):
    sa, sb = a.snap(), b.snap()
    na = a.shape[d]
    shape = list(a.shape)
    shape[d] = seqs.add(a.shape[d], b.shape[d])
    for k in range(len(shape)):
        if k != d and not deq(a.shape[k], b.shape[k]):
            raise exc("RuntimeError", "cat sizes")

    def at(*idx):
        c = seqs.idx_lt(idx[d], na)
        j = list(idx)
        j[d] = seqs.sub(idx[d], na)
        return seqs.merge(c, lambda: sa(*idx), lambda: sb(*j), True)

    return T(shape, at, a.dtype, a.deps | b.deps, np=a.np)


def np_ext():
    e = {}

    def r(*names):
        def deco(f):
            for n in names:
                e["numpy." + n] = Builtin("numpy." + n, f)
            return f

        return deco

    @r("asarray", "array", "ascontiguousarray")
    def asarray(ip, v, dtype=None, **k):
        t = as_t(ip, v, True)
        if t is None:
            raise Unsupported("numpy array of %r" % (v,))
        c = t.cast(dtype) if dtype is not None else t
        c = c.view(c.shape, lambda i: i) if c is v else c
        c.np = True
        return c

    def meth(name, *al):
        def f(ip, x, *a, **k):
            t = as_t(ip, x, True)
            if t is None:
                raise Unsupported("numpy.%s of %r" % (name, x))
            if not t.np:
                t = t.m_numpy(ip)
            rr = getattr(t, "m_" + name)(ip, *a, **k)
            return rr.at() if isinstance(rr, T) and not rr.shape else rr

        for n in (name,) + al:
            e["numpy." + n] = Builtin("numpy." + n, f)

    for n in ("sum", "mean", "abs", "exp", "log", "sqrt", "clip", "reshape", "argmax", "argmin", "var", "std", "any", "all"):
        meth(n)
    meth("max", "amax")
    meth("min", "amin")

    def two(f, dt=None):
        def g(ip, a, b):
            return elementwise(ip, f, [as_t(ip, a, True), as_t(ip, b, True)], dt)

        return g

    e["numpy.maximum"] = Builtin("maximum", two(zmax))
    e["numpy.minimum"] = Builtin("minimum", two(zmin))
    e["numpy.logical_or"] = Builtin("logical_or", two(lambda a, b: fold(z3.Or(boolt(a), boolt(b))), "bool"))
    e["numpy.logical_and"] = Builtin("logical_and", two(lambda a, b: fold(z3.And(boolt(a), boolt(b))), "bool"))

    @r("logical_not")
    def lnot(ip, a):
        t = as_t(ip, a, True)
        return t.map(lambda x: fold(z3.Not(boolt(CAST["bool"](x)))), "bool")

    @r("zeros", "empty")
    def zeros(ip, shape, dtype=None, **k):
        kd = dtype_kind(dtype) or "real"
        z = {"int": 0, "bool": False, "real": z3.RealVal(0)}[kd]
        return T(_shape_arg(ip, [shape]), lambda *i: z, kd, np=True)

    @r("ones")
    def ones(ip, shape, dtype=None, **k):
        kd = dtype_kind(dtype) or "real"
        z = {"int": 1, "bool": True, "real": z3.RealVal(1)}[kd]
        return T(_shape_arg(ip, [shape]), lambda *i: z, kd, np=True)

    @r("full")
    def full(ip, shape, v, dtype=None, **k):
        return T(_shape_arg(ip, [shape]), lambda *i: v, kind(v), np=True)

    @r("zeros_like")
    def zl(ip, t, dtype=None):
        return T(t.shape, lambda *i: z3.RealVal(0), "real", np=True)

    @r("stack")
    def stack(ip, xs, axis=0):
        t = from_seq(ip, xs, True)
        if axis % len(t.shape):
            d = axis % len(t.shape)
            return t.m_permute(ip, *list(range(1, d + 1)) + [0] + list(range(d + 1, len(t.shape))))
        return t

    @r("arange")
    def arange(ip, n, dtype=None):
        return T((n,), lambda i: i, "int", np=True)

    @r("isnan")
    def isnan(ip, x):
        return False

    for nm in ("float32", "float64", "int64", "int32", "bool_", "uint8"):
        e["numpy." + nm] = ExtVal("numpy." + nm)
    e["numpy.nan"] = float("nan")
    return e
