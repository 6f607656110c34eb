"""C23: running normalisation statistics.

Ghost state: for every coordinate, the number n of samples learned so far, their sum
S1 and their sum of squares S2.  Invariant of the object: count = n, and for n > 0
n * mean = S1 and n * (var + mean^2) = S2 (the population mean and variance)."""
import z3

from pydv import seqs
from pydv.tensor import T, fresh_t, np_ext, torch_ext, zsqrt
from pydv.unit import Unit
from pydv.values import Builtin, Model, P, PyObj, Unsupported, fold, is_term, num, real

I, R = z3.IntSort(), z3.RealSort()
MOD = "pfrl.nn.empirical_normalization"
TRUSTED = [
    "torch.var_mean(unbiased=False) is the population mean and variance along the axis (sum of squares form: lemma unit)",
    "sqrt(x) >= 0 with sqrt(x)^2 = x, x ** -0.5 = 1 / sqrt(x) for x > 0; Module.register_buffer stores the tensor as an attribute",
]
ASSUMPTIONS = ["real arithmetic: rounding of float32 statistics and of count.float() above 2^24 is not modelled", "eps > 0"]
BOUNDED = ["float statistics, devices, state dictionaries and normalisers inside agents are replayed on random histories"]


class Cols:
    """per-coordinate sums"""

    def __init__(self, p, name, shape_rank=1):
        self.f1 = p.fn(name + "_sum", *([I] * shape_rank + [R]))
        self.f2 = p.fn(name + "_sq", *([I] * shape_rank + [R]))


class NormUnit(Unit):
    axis = 0

    def super_hook(self, ip, o, name):
        if name == "__init__":
            return Builtin("Module.__init__", lambda ip, *a, **k: None)
        if name in ("_load_from_state_dict", "_apply", "load_state_dict"):
            return Builtin(name, lambda ip, *a, **k: None)
        return NotImplemented

    def getattr_hook(self, ip, o, name):
        if name == "register_buffer":
            return Builtin(name, lambda ip, n, t, persistent=True: o.set(n, t))
        return NotImplemented

    def power(self, ip, x, y):
        if is_term(y):
            s = z3.simplify(y)
            if z3.is_rational_value(s):
                y = s.numerator_as_long() / s.denominator_as_long()
        if y == -0.5:
            return fold(1 / zsqrt(x))
        if y == 0.5:
            return zsqrt(x)
        if y == 2:
            return fold(real(x) * real(x))
        if y == -1:
            return fold(1 / real(x))
        return Unit.power(self, ip, x, y)


class DT(Model):
    def __init__(self):
        pass

    def getattr(self, ip, name):
        if name == "type":
            return Builtin("dtype.type", lambda ip, v: v)
        raise Unsupported("dtype." + name)


def var_mean(x_cols):
    def f(ip, x, dim=None, axis=None, unbiased=None, correction=None, keepdim=False, keepdims=False):
        p = P()
        d = dim if dim is not None else axis
        if not (unbiased is False or correction == 0):
            raise Unsupported("sample variance")
        if not (keepdim or keepdims) or d is None or is_term(d):
            raise Unsupported("var_mean along %r" % (d,))
        cols = x_cols.get(id(x))
        if cols is None:
            raise Unsupported("var_mean of another tensor")
        d = d % len(x.shape)
        if d != cols.axis:
            raise Unsupported("var_mean along another axis")
        n = x.shape[d]
        shape = tuple(1 if k == d else s for k, s in enumerate(x.shape))
        m = p.fn("bmean", *([I] * (len(x.shape) - 1) + [R]))
        v = p.fn("bvar", *([I] * (len(x.shape) - 1) + [R]))

        def key(idx):
            return [num(i) for k, i in enumerate(idx) if k != d]

        def mk(g):
            def at(*idx):
                k = key(idx)
                mm, vv, b = m(*k), v(*k), z3.ToReal(num(n))
                p.assume(z3.Implies(num(n) > 0, z3.And(mm * b == cols.f1(*k), (vv + mm * mm) * b == cols.f2(*k), vv >= 0)))
                return g(*k)

            return at

        return (T(shape, mk(v), "real"), T(shape, mk(m), "real"))

    return Builtin("torch.var_mean", f)


def ext(x_cols):
    e = np_ext()
    e.update(torch_ext())
    e["numpy.dtype"] = Builtin("dtype", lambda ip, d: DT())
    e["torch.var_mean"] = var_mean(x_cols)

    def expand(ip, t, ax):
        shape = list(t.shape)
        if is_term(ax):
            raise Unsupported("axis")
        shape.insert(ax, 1)
        s = t.snap()
        return T(tuple(shape), lambda *i: s(*(i[:ax] + i[ax + 1:])), t.dtype, np=True)

    e["numpy.expand_dims"] = Builtin("expand_dims", expand)

    def squeeze(ip, t, d=None, dim=None):
        return t.m_squeeze(ip, d if d is not None else dim)

    e["torch.squeeze"] = Builtin("squeeze", squeeze)
    return e


def make(ip, p, axis, until=None, clip=None, shape=None):
    d = p.int("D") if shape is None else shape
    p.assume(d > 0)
    eps = p.real("eps")
    p.assume(eps > 0)
    o = ip.call(ip.get_class(MOD, "EmpiricalNormalization"), [d], dict(batch_axis=axis, eps=eps, until=until, clip_threshold=clip))
    return o, d, eps


def at(t, axis, d, b=0):
    return t.at(b, d) if axis == 0 else t.at(d, b)


def buffers(o):
    for k in ("_mean", "_var", "count"):
        if not isinstance(o.f.get(k), T):
            raise Unsupported("representation of the normaliser")
    return o.f["_mean"], o.f["_var"], o.f["count"]


def some_state(ip, p, o, d, axis):
    """any reachable state: the invariant over ghost sums"""
    m, v, c = buffers(o)
    for t in (m, v):
        ok = len(t.shape) == 2 and p.entails(fold(num(t.shape[axis]) == 1)) and p.entails(fold(num(t.shape[1 - axis]) == d))
        if not ok:
            raise Unsupported("representation of the normaliser")
    n = p.int("n")
    p.assume(n >= 0)
    g = Cols(p, "seen")
    fm, fv = p.fn("mean", I, R), p.fn("var", I, R)

    def fact(k):
        nn = z3.ToReal(n)
        return z3.And(
            z3.Implies(n > 0, z3.And(fm(k) * nn == g.f1(k), (fv(k) + fm(k) * fm(k)) * nn == g.f2(k))),
            z3.Implies(n == 0, z3.And(fm(k) == 0, fv(k) == 1)), fv(k) >= 0)

    def acc(f):
        def at_(*idx):
            k = num(idx[1 - axis])
            p.assume(fact(k))
            return f(k)

        return at_

    m.put(lambda old, idx: acc(fm)(*idx))
    v.put(lambda old, idx: acc(fv)(*idx))
    c.put(lambda old, idx: n)
    return n, g, fm, fv


def batch(p, axis, d, cols):
    b = p.int("B")
    p.assume(b >= 0)
    shape = (b, d) if axis == 0 else (d, b)
    x = fresh_t(p, "x", shape)
    g = Cols(p, "batch")
    g.axis = axis
    # sums over an empty batch are zero
    cols[id(x)] = g
    x.keep = g
    return x, b, g


def coord(p, d):
    k = p.int("k")
    p.assume(z3.And(k >= 0, k < d))
    return k


def u_init(axis):
    def run(ip, p):
        o, d, eps = make(ip, p, axis)
        m, v, c = buffers(o)
        k = coord(p, d)
        p.prove_eq(c.at(), 0, "init.no-samples")
        p.prove(fold(real(at(m, axis, k)) == 0), "init.mean-zero")
        p.prove(fold(real(at(v, axis, k)) == 1), "init.variance-one")
        for t in (m, v):
            p.prove(len(t.shape) == 2, "init.shape")
            p.prove(fold(z3.And(num(t.shape[axis]) == 1, num(t.shape[1 - axis]) == d)), "init.shape")

    return run


def check_state(p, o, axis, d, n, s1, s2, name):
    m, v, c = buffers(o)
    k = coord(p, d)
    p.prove(fold(num(c.at()) == n), name + ".count")
    nn = z3.ToReal(num(n))
    mk, vk = real(at(m, axis, k)), real(at(v, axis, k))
    p.prove(z3.Implies(num(n) > 0, mk * nn == s1(k)), name + ".mean-of-all-samples")
    p.prove(z3.Implies(num(n) > 0, (vk + mk * mk) * nn == s2(k)), name + ".variance-of-all-samples")
    return mk, vk


def u_experience(axis, cols, via):
    def run(ip, p):
        limited = p.choose(2)
        until = p.int("until") if limited else None
        o, d, eps = make(ip, p, axis, until)
        n, g, fm, fv = some_state(ip, p, o, d, axis)
        x, b, gx = batch(p, axis, d, cols)
        p.assume(b > 0)
        x0 = x.snap()
        if via == "experience":
            ip.call(ip.getattr(o, "experience"), [x])
        else:
            ip.call(ip.getattr(o, "forward"), [x], dict(update=True) if p.choose(2) else {})
        if limited and p.decide(n >= until):
            m, v, c = buffers(o)
            k = coord(p, d)
            p.prove_eq(c.at(), n, "limit.count-unchanged")
            p.prove(fold(real(at(m, axis, k)) == fm(k)), "limit.mean-unchanged")
            p.prove(fold(real(at(v, axis, k)) == fv(k)), "limit.variance-unchanged")
            return
        check_state(p, o, axis, d, n + b, lambda k: z3.If(n > 0, g.f1(k), 0) + gx.f1(k),
                    lambda k: z3.If(n > 0, g.f2(k), 0) + gx.f2(k), "learn")
        y, z = coord(p, b), coord(p, d)
        i = (y, z) if axis == 0 else (z, y)
        p.prove(fold(real(x.at(*i)) == real(x0(*i))), "learn.input-unchanged")

    return run


def u_empty(axis, cols):
    def run(ip, p):
        o, d, eps = make(ip, p, axis)
        n, g, fm, fv = some_state(ip, p, o, d, axis)
        x, b, gx = batch(p, axis, d, cols)
        p.assume(b == 0)
        ip.call(ip.getattr(o, "experience"), [x])
        m, v, c = buffers(o)
        k = coord(p, d)
        p.prove_eq(c.at(), n, "empty.count-unchanged")
        p.prove(fold(real(at(m, axis, k)) == fm(k)), "empty.mean-unchanged")
        p.prove(fold(real(at(v, axis, k)) == fv(k)), "empty.variance-unchanged")

    return run


def warm(ip, p, o, d, axis):
    """the object may have normalised before (any internal cache filled)"""
    if p.choose(2):
        w = fresh_t(p, "w", (1, d) if axis == 0 else (d, 1))
        ip.call(ip.getattr(o, "forward"), [w], dict(update=False))


def u_forward(axis, cols, history):
    """normalise, with or without learning, after an arbitrary history of use"""

    def run(ip, p):
        clip = p.real("clip") if p.choose(2) else None
        if clip is not None:
            p.assume(clip > 0)
        o, d, eps = make(ip, p, axis, None, clip)
        if history == "learned":
            n, g, fm, fv = some_state(ip, p, o, d, axis)
            warm(ip, p, o, d, axis)
            xb, bb, gx = batch(p, axis, d, cols)
            ip.call(ip.getattr(o, "experience"), [xb])
        elif history == "loaded":
            # the buffers are overwritten in place, as load_state_dict does
            warm(ip, p, o, d, axis)
            n, g, fm, fv = some_state(ip, p, o, d, axis)
        if history == "updating":
            n, g, fm, fv = some_state(ip, p, o, d, axis)
            warm(ip, p, o, d, axis)
            x, b, gx = batch(p, axis, d, cols)
            p.assume(b > 0)
            x0 = x.snap()
            r = ip.call(ip.getattr(o, "forward"), [x], dict(update=True) if p.choose(2) else {})
            m, v, c = buffers(o)
            m0, v0, c0 = m.snap(), v.snap(), c.at()
        else:
            m, v, c = buffers(o)
            m0, v0, c0 = m.snap(), v.snap(), c.at()
            b = p.int("Bx")
            p.assume(b > 0)
            x = fresh_t(p, "y", (b, d) if axis == 0 else (d, b))
            x0 = x.snap()
            r = ip.call(ip.getattr(o, "forward"), [x], dict(update=False))
        ok = isinstance(r, T) and len(r.shape) == 2
        p.prove(ok, "normalise.shape")
        if not ok:
            return
        for s, q in zip(r.shape, x.shape):
            p.prove(fold(num(s) == num(q)), "normalise.shape")
        i, k = coord(p, b), coord(p, d)
        ix = (i, k) if axis == 0 else (k, i)
        mi = (0, k) if axis == 0 else (k, 0)
        mk, vk = real(m0(*mi)), real(v0(*mi))
        p.assume(vk >= 0)
        sd = zsqrt(vk + eps)
        want = (real(x0(*ix)) - mk) * (1 / sd)
        if clip is not None:
            want = z3.If(want > clip, clip, z3.If(want < -clip, -clip, want))
        p.prove(fold(real(r.at(*ix)) == want), "normalise.by-the-current-statistics")
        p.prove(fold(real(at(buffers(o)[0], axis, k)) == mk), "normalise.statistics-unchanged")
        p.prove(fold(real(at(buffers(o)[1], axis, k)) == vk), "normalise.statistics-unchanged")
        p.prove_eq(buffers(o)[2].at(), c0, "normalise.statistics-unchanged")
        if clip is None:
            back = ip.call(ip.getattr(o, "inverse"), [r])
            p.prove(fold(real(back.at(*ix)) == real(x0(*ix))), "inverse.gives-back-the-input")
        mean = ip.getattr(o, "mean")
        std = ip.getattr(o, "std")
        if isinstance(mean, T) and isinstance(std, T):
            p.prove(len(mean.shape) == 1 and len(std.shape) == 1, "mean-and-std.shape")
            p.prove(fold(real(mean.at(k)) == mk), "mean.is-the-mean")
            sk = real(std.at(k))
            p.prove(z3.And(sk >= 0, sk * sk == vk), "std.is-the-root-of-the-variance")
            for t, nm in ((mean, "mean"), (std, "std")):
                while t.base is not None:
                    t = t.base
                p.prove(all(t is not q for q in buffers(o)), nm + ".is-a-copy")

    return run


def u_lemma(ip, p):
    """sum (x - m)^2 = sum x^2 - 2 m sum x + n m^2, by induction on n"""
    a, q, s, m, x = (p.real(c) for c in "aqsmx")
    n = p.int("n")
    p.prove(z3.RealVal(0) == 0 - 2 * m * 0 + 0 * m * m, "lemma.base")
    p.assume(z3.And(n >= 0, a == q - 2 * m * s + z3.ToReal(n) * m * m))
    p.prove(a + (x - m) * (x - m) == (q + x * x) - 2 * m * (s + x) + z3.ToReal(n + 1) * m * m, "lemma.step")
    b = p.real("n")
    # with n m = s: n var = q - n m^2
    v = p.real("v")
    t = p.real("t")
    p.assume(z3.And(b > 0, b * m == s, t == q - 2 * m * s + b * m * m, v * b == t))
    p.prove((v + m * m) * b == q, "lemma.population-variance")


def units(tier):
    us = [NormUnit("lemma: variance from sums", u_lemma)]
    for axis in (0, 1):
        cols = {}
        e = ext(cols)
        nm = "[batch axis %d]" % axis
        us += [
            NormUnit("__init__" + nm, u_init(axis), ext=e),
            NormUnit("experience" + nm, u_experience(axis, cols, "experience"), ext=e),
            NormUnit("experience-empty" + nm, u_empty(axis, cols), ext=e),
            NormUnit("forward-learns" + nm, u_experience(axis, cols, "forward"), ext=e),
            NormUnit("forward-after-learning" + nm, u_forward(axis, cols, "learned"), ext=e),
            NormUnit("forward-while-learning" + nm, u_forward(axis, cols, "updating"), ext=e),
            NormUnit("forward-after-loading" + nm, u_forward(axis, cols, "loaded"), ext=e),
        ]
    return us
