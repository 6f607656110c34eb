"""C15: explorers."""
import z3

from pydv.interp import exc
from pydv.tensor import T, as_t, elementwise, fresh_t, np_ext, torch_ext, zexp, zmax, zmin, zsqrt
from pydv.unit import Unit
from pydv.values import Builtin, Model, Obj, Opaque, P, PyObj, Unsupported, fold, is_term, num, real
from .loops import Logger

EG = "pfrl.explorers.epsilon_greedy"
R, I = z3.RealSort(), z3.IntSort()

TRUSTED = [
    "numpy.random.rand/random/uniform: a number u with 0 <= u < 1; numpy.random.normal: loc + scale * (a standard normal draw)",
    "numpy.random.choice(a, p=w): an element a[i], drawn with probability w[i]",
    "numpy/torch operators compute the stated real-valued functions; softmax(x)_i = exp(x_i)/sum exp(x)",
]
ASSUMPTIONS = ["real arithmetic: rounding of epsilon and of float32 noise is not modelled", "step counts are >= 0"]
BOUNDED = []


def uniform(ip, lo=0.0, hi=1.0, size=None):
    if size is not None:
        raise Unsupported("uniform array")
    p = P()
    u = p.real("u")
    p.assume(z3.And(u >= 0, u < 1))
    p.ghost.setdefault("uniforms", []).append(u)
    return fold(real(lo) + u * (real(hi) - real(lo))) if (lo, hi) != (0.0, 1.0) else u


def normal(ip, loc=0.0, scale=1.0, size=None):
    p = P()
    if size is None:
        raise Unsupported("scalar noise")
    shape = size if isinstance(size, tuple) else (size,)
    z = fresh_t(p, "normal", shape, np=True)
    p.ghost.setdefault("normals", []).append(z)
    s, l = as_t(ip, scale, True), as_t(ip, loc, True)
    return elementwise(ip, lambda l, s, z: fold(real(l) + real(s) * real(z)), [l, s, z])


def ext():
    e = dict(torch_ext())
    e.update(np_ext())
    u = lambda ip, *a: uniform(ip)
    for n in ("rand", "random", "random_sample", "ranf", "sample"):
        e["numpy.random." + n] = Builtin(n, u)
    e["random.random"] = Builtin("random", u)
    e["numpy.random.uniform"] = Builtin("uniform", uniform)
    e["numpy.random.normal"] = Builtin("normal", normal)
    e["numpy.random.standard_normal"] = Builtin("standard_normal", lambda ip, size=None: normal(ip, size=size))
    e["numpy.random.randn"] = Builtin("randn", lambda ip, *s: normal(ip, size=tuple(s)))
    e["logging.getLogger"] = Builtin("getLogger", lambda ip, *a: Logger())
    return e


class XUnit(Unit):
    def power(self, ip, a, b):
        t = Unit.power(self, ip, a, b)
        if is_term(t):
            x, y = real(a), real(b)
            P().assume(z3.Implies(z3.And(x > 0, x < 1, y >= 0), z3.And(t > 0, t <= 1)))
        return t


POW = z3.Function("pow", R, R, R)


def funcs(p):
    """random and greedy action functions that count their calls"""
    n = dict(random=0, greedy=0)
    acts = dict(random=Opaque("random action"), greedy=Opaque("greedy action"))

    def mk(k):
        def f(ip):
            n[k] += 1
            return acts[k]

        return Builtin(k, f)

    return n, acts, mk("random"), mk("greedy")


def check_choice(ip, p, o, t, eps, n, acts, gfn):
    before = len(p.ghost.get("uniforms", ()))
    r = ip.call(ip.getattr(o, "select_action"), [t, gfn])
    us = p.ghost.get("uniforms", [])[before:]
    if len(us) > 1:
        raise Unsupported("several uniform draws")
    e = real(eps)
    if r is acts["random"]:
        p.prove(n == dict(random=1, greedy=0), "random-action-drawn-once")
        # with probability one when no draw decides
        p.prove(fold(us[0] < e) if us else fold(e >= 1), "random-only-with-the-scheduled-rate")
    else:
        p.prove(r is acts["greedy"], "action-is-the-random-or-the-greedy-one")
        p.prove(n == dict(random=0, greedy=1), "greedy-action-computed-once")
        p.prove(fold(us[0] >= e) if us else fold(e <= 0), "greedy-only-with-the-complementary-rate")


def unit_eps(p, nm):
    e = p.real(nm)
    p.assume(z3.And(e >= 0, e <= 1))
    return e


def u_constant(ip, p):
    eps = unit_eps(p, "epsilon")
    n, acts, rf, gf = funcs(p)
    o = ip.call(ip.get_class(EG, "ConstantEpsilonGreedy"), [eps, rf], dict(logger=Logger()))
    for k in range(2):
        n.update(random=0, greedy=0)
        t = p.int("t")
        p.assume(t >= 0)
        check_choice(ip, p, o, t, eps, n, acts, gf)


def between(e, a, b):
    e, a, b = real(e), real(a), real(b)
    return fold(z3.Or(z3.And(a <= e, e <= b), z3.And(b <= e, e <= a)))


def u_linear(ip, p):
    a, b = unit_eps(p, "start"), unit_eps(p, "end")
    d = p.int("decay_steps")
    p.assume(d >= 0)
    n, acts, rf, gf = funcs(p)
    o = ip.call(ip.get_class(EG, "LinearDecayEpsilonGreedy"), [a, b, d, rf], dict(logger=Logger()))
    t1 = None
    for k in range(2):
        n.update(random=0, greedy=0)
        t = p.int("t")
        p.assume(t >= 0)
        eps = p.real("eps")
        frac = p.real("fraction")
        p.assume(z3.And(z3.Implies(t >= d, eps == b), z3.Implies(t < d, z3.And(frac * z3.ToReal(d) == z3.ToReal(t), eps == a + (b - a) * frac))))
        p.assume(z3.Implies(t < d, z3.And(frac == z3.ToReal(t) / z3.ToReal(d), frac >= 0, frac < 1)))
        check_choice(ip, p, o, t, eps, n, acts, gf)
        e = ip.getattr(o, "epsilon")
        p.prove(fold(real(e) == eps), "epsilon-follows-the-schedule")
        p.prove(fold(real(ip.call(ip.getattr(o, "compute_epsilon"), [t])) == eps), "schedule-is-a-function-of-the-step")


def u_linear_range(ip, p):
    """a + (b-a)*f lies between a and b for 0 <= f <= 1"""
    a, b, f = p.real("a"), p.real("b"), p.real("f")
    p.assume(z3.And(f >= 0, f <= 1))
    p.prove(between(a + (b - a) * f, a, b), "schedule-stays-between-its-end-points")


def u_exponential(ip, p):
    a, b, d = unit_eps(p, "start"), unit_eps(p, "end"), p.real("decay")
    p.assume(z3.And(d > 0, d < 1))
    n, acts, rf, gf = funcs(p)
    o = ip.call(ip.get_class(EG, "ExponentialDecayEpsilonGreedy"), [a, b, d, rf], dict(logger=Logger()))
    for k in range(2):
        n.update(random=0, greedy=0)
        t = p.int("t")
        p.assume(t >= 0)
        w = POW(d, z3.ToReal(t))
        p.assume(z3.And(w > 0, w <= 1, POW(d, z3.RealVal(0)) == 1))
        eps = zmax(a * w, b)
        check_choice(ip, p, o, t, eps, n, acts, gf)
        e = ip.getattr(o, "epsilon")
        p.prove(fold(real(e) == eps), "epsilon-follows-the-schedule")
        p.prove(fold(real(e) >= b), "never-below-the-floor")


def u_greedy(ip, p):
    n, acts, rf, gf = funcs(p)
    o = ip.call(ip.get_class("pfrl.explorers.greedy", "Greedy"), [])
    r = ip.call(ip.getattr(o, "select_action"), [p.int("t"), gf])
    p.prove(r is acts["greedy"] and n["greedy"] == 1, "greedy-action-returned")


def action(p, nm="a"):
    n = p.int("dim")
    p.assume(n >= 1)
    a = fresh_t(p, nm, (n,), np=True)
    return n, a


def per_dim(p, n, nm, kind, np=True):
    if kind == 0:
        return p.real(nm)
    return fresh_t(p, nm, (n,), np=True)


def at(v, i):
    return real(v.at(i)) if isinstance(v, T) else real(v)


def u_gaussian(ip, p):
    n, a = action(p)
    snap = a.snap()
    scale = per_dim(p, n, "scale", p.choose(2))
    kl, kh = p.choose(3), p.choose(3)
    low = None if kl == 2 else per_dim(p, n, "low", kl)
    high = None if kh == 2 else per_dim(p, n, "high", kh)
    o = ip.call(ip.get_class("pfrl.explorers.additive_gaussian", "AdditiveGaussian"), [scale], dict(low=low, high=high))
    for k in range(2):
        calls = []
        r = ip.call(ip.getattr(o, "select_action"), [p.int("t"), Builtin("g", lambda ip: calls.append(1) or a)])
        zs = p.ghost.get("normals", [])
        p.prove(len(calls) == 1 and len(zs) == k + 1, "one-greedy-action-and-one-noise-sample")
        z = zs[-1]
        p.prove(isinstance(r, T) and len(r.shape) == 1, "action-shape-kept")
        p.prove_eq(r.shape[0], n, "action-shape-kept")

        def want(i):
            v = fold(snap(i) + at(scale, i) * z.at(i))
            if low is not None:
                v = zmax(v, at(low, i))
            if high is not None:
                v = zmin(v, at(high, i))
            return v

        p.prove_forall(n, lambda i: fold(real(r.at(i)) == want(i)), "noisy-action-clipped-to-the-bounds")
        p.prove_forall(n, lambda i: fold(real(a.at(i)) == snap(i)), "greedy-action-not-modified")


def u_ou(ip, p):
    n, a = action(p)
    snap = a.snap()
    mu, th = p.real("mu"), p.real("theta")
    p.assume(z3.And(th > 0, th < 2))
    p.assume(2 * th - th * th > 0)
    sg = per_dim(p, n, "sigma", p.choose(2))
    start = bool(p.choose(2))
    o = ip.call(ip.get_class("pfrl.explorers.additive_ou", "AdditiveOU"), [],
                dict(mu=mu, theta=th, sigma=sg, start_with_mu=start, logger=Logger()))
    calls = []
    g = Builtin("g", lambda ip: calls.append(1) or a)
    r = ip.call(ip.getattr(o, "select_action"), [p.int("t"), g])
    zs = p.ghost.get("normals", [])
    p.prove(isinstance(r, T) and len(r.shape) == 1, "action-shape-kept")
    p.prove_eq(r.shape[0], n, "action-shape-kept")
    if start:
        p.prove(not zs, "starts-at-the-mean-without-noise")
        p.prove_forall(n, lambda i: fold(real(r.at(i)) == snap(i) + mu), "starts-at-the-mean")
    else:
        p.prove(len(zs) == 1, "one-noise-sample")
        if not zs:
            return
        z = zs[0]

        def st(i):
            return at(sg, i) / zsqrt(fold(2 * th - th * th))

        p.prove_forall(n, lambda i: fold(real(r.at(i)) == snap(i) + mu + st(i) * z.at(i)), "starts-in-the-stationary-distribution")
    if not isinstance(o.f.get("ou_state"), T):
        raise Unsupported("representation of the OU process")
    p.prove_forall(n, lambda i: fold(real(o.f["ou_state"].at(i)) == real(r.at(i)) - snap(i)), "state-is-the-noise-added")
    # arbitrary later state
    s = fresh_t(p, "x", (n,), np=True)
    s0 = s.snap()
    o.set("ou_state", s)
    k0 = len(p.ghost.get("normals", []))
    a2 = fresh_t(p, "a2", (n,), np=True)
    snap2 = a2.snap()
    r2 = ip.call(ip.getattr(o, "select_action"), [p.int("t"), Builtin("g", lambda ip: calls.append(1) or a2)])
    zs = p.ghost.get("normals", [])
    p.prove(len(zs) == k0 + 1 and len(calls) == 2, "one-greedy-action-and-one-noise-sample")
    if len(zs) != k0 + 1:
        return
    z = zs[-1]

    def nxt(i):
        return fold(s0(i) + th * (mu - s0(i)) + at(sg, i) * z.at(i))

    p.prove_forall(n, lambda i: fold(real(r2.at(i)) == snap2(i) + nxt(i)), "noise-follows-the-process")
    p.prove_forall(n, lambda i: fold(real(o.f["ou_state"].at(i)) == nxt(i)), "process-state-advances")
    p.prove_forall(n, lambda i: fold(real(a2.at(i)) == snap2(i)), "greedy-action-not-modified")


def u_boltzmann(ip, p):
    n = p.int("n_actions")
    p.assume(n >= 1)
    q = fresh_t(p, "q", (1, n))
    Tm = p.real("T")
    p.assume(Tm > 0)
    picked = []

    def choice(ip, items, size=None, replace=True, p=None):
        picked.append((items, p))
        i = P().int("pick")
        P().assume(z3.And(i >= 0, i < num(n)))
        return items.at(i) if isinstance(items, T) else i

    ip.ext = dict(ip.ext)
    ip.ext["numpy.random.choice"] = Builtin("choice", choice)
    av = ip.call(ip.get_class("pfrl.action_value", "DiscreteActionValue"), [q])
    o = ip.call(ip.get_class("pfrl.explorers.boltzmann", "Boltzmann"), [], dict(T=Tm))
    ip.call(ip.getattr(o, "select_action"), [p.int("t"), Builtin("g", lambda ip: Opaque("greedy"))], dict(action_value=av))
    p.prove(len(picked) == 1, "one-draw")
    items, w = picked[0]
    if isinstance(items, T):
        p.prove_eq(items.shape[0], n, "draws-among-all-actions")
        p.prove_forall(n, lambda i: fold(num(items.at(i)) == i), "draws-among-all-actions")
    else:
        p.prove_eq(items, n, "draws-among-all-actions")
    p.prove(isinstance(w, T) and len(w.shape) == 1, "probabilities-per-action")
    p.prove_eq(w.shape[0], n, "probabilities-per-action")
    ref = ip.call(ip.ext["torch.nn.functional.softmax"], [q.binop(ip, __import__("ast").Div(), Tm, False)], dict(dim=-1))
    p.prove_forall(n, lambda i: fold(real(w.at(i)) == real(ref.at(0, i))), "softmax-of-scaled-values")


def units(tier):
    e = ext()
    return [
        XUnit("ConstantEpsilonGreedy", u_constant, ext=e),
        XUnit("LinearDecayEpsilonGreedy", u_linear, ext=e),
        XUnit("linear schedule range", u_linear_range, ext=e),
        XUnit("ExponentialDecayEpsilonGreedy", u_exponential, ext=e),
        XUnit("Greedy", u_greedy, ext=e),
        XUnit("AdditiveGaussian", u_gaussian, ext=e),
        XUnit("AdditiveOU", u_ou, ext=e),
        XUnit("Boltzmann", u_boltzmann, ext=e),
    ]
