"""C14: environment wrappers."""
import z3

from pydv import seqs
from pydv.interp import ExtVal, exc
from pydv.tensor import T, fresh_t, np_ext
from pydv.unit import Unit
from pydv.values import Builtin, HModel, Model, Obj, Opaque, P, PyDict, PyExc, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num, real
from .c13 import gym_classes
from .c15 import uniform
from .loops import Not, b_

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
AW = "pfrl.wrappers.atari_wrappers"

TRUSTED = [
    "numpy operators compute the stated real-valued functions; maximum of two uint8 frames is an uninterpreted function with the zero frame as identity",
    "gym.core of the installed gym is verified together with the wrappers (interpreted from its source)",
    "env.unwrapped.ale.lives() returns the current number of lives; np_random.integers/randint(1, m+1) returns a number in [1, m]",
]
ASSUMPTIONS = ["real arithmetic", "an environment's info dict is fresh at every step"]
BOUNDED = ["the image operations of WarpFrame (cv2) and gym's Monitor are not covered"]


class Ale(Model):
    def __init__(self, env):
        self.env = env

    def m_lives(self, ip):
        return self.env.f["lives"]


class GEnv(HModel):
    """an arbitrary environment that must not be stepped when its episode is over"""

    ghost = True

    def __init__(self, p, checked=True, meanings=("NOOP", "FIRE", "UP")):
        HModel.__init__(self, "genv")
        self.checked = checked
        self.meanings = meanings
        self.f.update(cur=p.obj("obs"), over=True, nstep=0, nreset=0, lives=p.int("lives"), action=None, rew=p.real("r"), done=False, nr=False)
        p.assume(self.f["lives"] >= 0)
        self.log = []
        self.kw = []

    def truth(self, ip):
        return True

    def m_reset(self, ip, **k):
        p = P()
        self.set("over", False)
        self.set("cur", p.obj("obs"))
        self.set("nreset", fold(num(self.f["nreset"]) + 1))
        l = p.int("lives")
        p.assume(l >= 0)
        self.set("lives", l)
        self.log.append("reset")
        return self.f["cur"]

    def m_step(self, ip, a):
        p = P()
        if self.checked:
            p.prove(Not(self.f["over"]), "no-step-after-the-end-of-an-episode")
        self.set("cur", p.obj("obs"))
        self.set("rew", p.real("r"))
        d, nr = p.bool("done"), p.bool("needs_reset")
        has = p.choose(2)
        self.set("done", d)
        self.set("nr", nr if has else False)
        self.set("over", fold(z3.Or(d, nr)) if has else d)
        self.set("nstep", fold(num(self.f["nstep"]) + 1))
        l = p.int("lives")
        p.assume(l >= 0)
        self.set("lives", l)
        self.set("action", a)
        self.log.append(("step", a))
        info = PyDict({"other": p.obj("v")}, ip.alloc_label("info"))
        if has:
            info.f["data"]["needs_reset"] = nr
        self.info = info
        return (self.f["cur"], self.f["rew"], d, info)

    def p_unwrapped(self, ip):
        return self

    def p_ale(self, ip):
        return Ale(self)

    def m_get_action_meanings(self, ip):
        return PyList(list(self.meanings), "meanings")

    def p_np_random(self, ip):
        return Rng()

    def getattr(self, ip, name):
        if name in ("action_space", "observation_space"):
            return self.spaces[name]
        if name in ("metadata", "reward_range", "spec"):
            return Opaque(name)
        return Model.getattr(self, ip, name)

    spaces = {"action_space": Opaque("action_space"), "observation_space": Opaque("observation_space")}


class Rng(Model):
    def m_integers(self, ip, lo, hi=None):
        p = P()
        x = p.int("noops")
        if not p.decide(fold(num(lo) < num(hi))):
            raise exc("ValueError")
        p.assume(z3.And(x >= num(lo), x < num(hi)))
        p.ghost["noops"] = x
        return x

    m_randint = m_integers

    def m_rand(self, ip):
        return uniform(ip)

    m_random = m_rand
    m_uniform = m_rand


def nr_of(ip, info):
    v = info.f["data"].get("needs_reset", False)
    return v


def step_result(ip, p, r):
    if isinstance(r, (PyList, SymSeq)):
        r = tuple(ip.collect(ip.iterate(r)))
    p.prove(isinstance(r, tuple) and len(r) == 4, "step-returns-four-values")
    return r


# ---------------------------------------------------------------- time limit
def u_limit(ip, p):
    gym_classes(ip)
    mx = p.int("max_episode_steps")
    p.assume(mx >= 1)
    g = GEnv(p)
    o = ip.call(ip.get_class("pfrl.wrappers.continuing_time_limit", "ContinuingTimeLimit"), [g, mx])
    try:
        ip.call(ip.getattr(o, "step"), [p.obj("a")])
        p.fail("no-step-before-the-first-reset")
    except PyExc as e:
        p.prove(g.f["nstep"] == 0, "no-step-before-the-first-reset")
    r = ip.call(ip.getattr(o, "reset"), [])
    p.prove_eq(r, g.f["cur"], "reset-observation-returned")
    p.prove_eq(g.f["nreset"], 1, "environment-reset-once")
    if "_elapsed_steps" not in o.f:
        raise Unsupported("representation of ContinuingTimeLimit")
    p.prove_eq(o.f["_elapsed_steps"], 0, "count-starts-at-zero")
    e = p.int("elapsed")
    p.assume(e >= 0)
    o.set("_elapsed_steps", e)
    a = p.obj("a")
    obs, rew, done, info = step_result(ip, p, ip.call(ip.getattr(o, "step"), [a]))
    p.prove_eq(g.f["action"], a, "action-passed-on")
    p.prove_eq(g.f["nstep"], 1, "one-step")
    p.prove_eq(obs, g.f["cur"], "observation-passed-on")
    p.prove_eq(rew, g.f["rew"], "reward-passed-on")
    p.prove_eq(done, g.f["done"], "done-never-altered")
    p.prove_eq(info.f["data"].get("other"), g.info.f["data"].get("other"), "info-passed-on")
    v = nr_of(ip, info)
    p.prove(fold(b_(ip.truth_t(v)) == z3.Or(b_(g.f["nr"]), e + 1 >= mx)), "reset-requested-exactly-at-the-limit")
    p.prove_eq(o.f["_elapsed_steps"], fold(e + 1), "every-step-counted")
    # a reset at any point starts a new count
    o.set("_elapsed_steps", p.int("any"))
    ip.call(ip.getattr(o, "reset"), [])
    p.prove_eq(o.f["_elapsed_steps"], 0, "count-restarts-at-every-reset")


# ---------------------------------------------------------------- frame skipping
class Buf(HModel):
    """the two most recent frames"""

    def __init__(self, z):
        HModel.__init__(self, "buffer")
        self.f.update(b0=z, b1=z)

    def key(self, i):
        if i in (0, 1, -1, -2):
            return "b%d" % (i % 2)
        raise Unsupported("frame buffer index")

    def getitem(self, ip, i):
        return self.f[self.key(i)]

    def setitem(self, ip, i, v):
        self.set(self.key(i), v)

    def m_max(self, ip, axis=None, **k):
        if axis != 0:
            raise Unsupported("max axis")
        return mx(self.f["b0"], self.f["b1"])


MAXF = z3.Function("maxframe", Obj, Obj, Obj)


def mx(a, b):
    p = P()
    z = p.ghost["zero"]
    p.assume(z3.And(MAXF(a, b) == MAXF(b, a), MAXF(z, b) == b, MAXF(a, z) == a, MAXF(a, a) == a))
    return MAXF(a, b)


class SkipEnv(HModel):
    """the steps of one call, numbered"""

    ghost = True

    def __init__(self, p):
        HModel.__init__(self, "skipenv")
        self.f.update(n=0)
        self.ob, self.rw, self.dn, self.nr = p.fn("ob", I, Obj), p.fn("rw", I, R), p.fn("done", I, B), p.fn("nr", I, B)
        self.S = p.fn("sum", I, R)
        self.info, self.nrof = p.fn("info", I, Obj), p.fn("needs_reset_of", Obj, B)
        p.assume(self.S(z3.IntVal(0)) == 0)
        self.act = p.obj("action")

    def truth(self, ip):
        return True

    def end(self, i):
        return z3.Or(self.dn(i), self.nr(i))

    def m_step(self, ip, a):
        p = P()
        i = num(self.f["n"])
        p.prove_eq(a, self.act, "same-action-repeated")
        p.prove(fold(z3.Or(i == 0, z3.Not(self.end(i - 1)))), "stops-at-the-end-of-the-episode")
        p.assume(self.S(i + 1) == self.S(i) + self.rw(i))
        p.assume(self.nrof(self.info(i)) == self.nr(i))
        self.set("n", fold(i + 1))
        return (self.ob(i), self.rw(i), self.dn(i), self.info(i))

    def m_reset(self, ip, **k):
        return P().obj("obs")

    def getattr(self, ip, name):
        if name == "observation_space":
            return SpaceM()
        if name in ("action_space", "metadata", "reward_range", "spec"):
            return Opaque(name)
        return Model.getattr(self, ip, name)


class SpaceM(Model):
    def p_shape(self, ip):
        return (P().int("h"), P().int("w"))

    def p_dtype(self, ip):
        return Opaque("dtype")


class SkipUnit(Unit):
    def peel(self, key, ip, fr):
        # the first repeat runs unrolled: it gives every local its kind
        return 1

    def obj_attr(self, ip, o, name):
        if name == "get":
            def get(ip, k, d=None):
                if k != "needs_reset":
                    raise Unsupported("info.get")
                return P().ghost["env"].nrof(o)
            return Builtin("get", get)
        return Unit.obj_attr(self, ip, o, name)

    def obj_getitem(self, ip, o, k):
        if k == "needs_reset":
            return P().ghost["env"].nrof(o)
        return Unit.obj_getitem(self, ip, o, k)

    def loop_preds(self, ctx, k):
        p = P()
        g, s = p.ghost["env"], num(p.ghost["skip"])
        out = {}
        if (g.uid, "n") not in ctx.init:
            return out
        n = num(g.f["n"])
        out["n=k"] = lambda: fold(n == num(k))
        out["going"] = lambda: fold(z3.Or(n == 0, z3.Not(g.end(n - 1))))
        for nm in list(ctx.fr.f):
            v = ctx.fr.f[nm]
            if is_term(v) and z3.is_real(v) or isinstance(v, float):
                out["sum-" + nm] = lambda v=v: fold(real(v) == g.S(n))
            if is_term(v) and z3.is_bool(v):
                out["done-" + nm] = lambda v=v: fold(z3.Or(n == 0, v == g.dn(n - 1)))
            if is_term(v) and v.sort() == Obj:
                out["ob-" + nm] = lambda v=v: fold(z3.Or(n == 0, v == g.ob(n - 1)))
                out["info-" + nm] = lambda v=v: fold(z3.Or(n == 0, v == g.info(n - 1)))
        for (uid, f) in ctx.init:
            o = p.objs.get(uid)
            if isinstance(o, Buf):
                b0, b1, i0, i1 = o.f["b0"], o.f["b1"], ctx.init.get((uid, "b0"), o.f["b0"]), ctx.init.get((uid, "b1"), o.f["b1"])
                out["b0"] = lambda: fold(b0 == z3.If(z3.And(s >= 2, n > s - 2), g.ob(s - 2), i0))
                out["b1"] = lambda: fold(b1 == z3.If(n > s - 1, g.ob(s - 1), i1))
                out["b0t"] = lambda: fold(z3.Implies(n >= 2, b0 == g.ob(n - 2)))
                out["b1t"] = lambda: fold(z3.Implies(n >= 1, b1 == g.ob(n - 1)))
        return out


def u_skip(ip, p):
    gym_classes(ip)
    s = p.int("skip")
    p.assume(s >= 1)
    z = p.obj("zero")
    p.ghost.update(zero=z, skip=s)
    g = SkipEnv(p)
    p.ghost["env"] = g
    bufs = []

    def zeros(ip, shape, dtype=None):
        b = Buf(z)
        bufs.append(b)
        if not (isinstance(shape, tuple) and shape and not is_term(shape[0]) and shape[0] == 2):
            raise Unsupported("frame buffer shape")
        return b

    ip.ext["numpy.zeros"] = Builtin("zeros", zeros)
    o = ip.call(ip.get_class(AW, "MaxAndSkipEnv"), [g], dict(skip=s))
    # frames of an earlier call; with skip 1 the first slot is never used
    for b in bufs:
        b.set("b0", z3.If(s >= 2, p.obj("old0"), z))
        b.set("b1", p.obj("old1"))
    frame, rew, done, info = step_result(ip, p, ip.call(ip.getattr(o, "step"), [g.act]))
    m = num(g.f["n"])
    p.prove(fold(z3.And(m >= 1, m <= s)), "at-most-skip-steps")
    p.prove(fold(z3.Or(m == s, g.end(m - 1))), "repeats-the-action-unless-the-episode-ends")
    p.prove(fold(real(rew) == g.S(m)), "rewards-of-the-repeated-steps-summed")
    p.prove(fold(b_(ip.truth_t(done)) == g.dn(m - 1)), "done-of-the-last-step")
    p.prove(fold(info == g.info(m - 1)), "info-of-the-last-step")
    if p.decide(fold(m == s)):
        p.assume(g.f["n"] == s)
        want = z3.If(s >= 2, mx(g.ob(s - 2), g.ob(s - 1)), g.ob(s - 1))
        mx(frame, frame)
        p.prove(fold(frame == want), "maximum-of-the-last-two-frames")


# ---------------------------------------------------------------- lives
def u_lives(ip, p):
    gym_classes(ip)
    g = GEnv(p, checked=True)
    o = ip.call(ip.get_class(AW, "EpisodicLifeEnv"), [g])
    if not {"lives", "needs_real_reset"} <= set(o.f):
        raise Unsupported("representation of EpisodicLifeEnv")
    p.prove(fold(b_(o.f["needs_real_reset"])), "first-reset-is-a-real-one")
    # any state after a step: a real reset is needed exactly when the episode of the environment is over
    # (after a reset() the flag is only used by an immediate second reset())
    over = p.bool("over")
    g.set("over", over)
    o.set("needs_real_reset", over)
    L = p.int("L")
    p.assume(L >= 0)
    o.set("lives", L)
    g.set("lives", L)
    n0 = g.f["nreset"]
    if p.choose(2):
        p.assume(z3.Not(over))
        o.set("needs_real_reset", p.bool("flag"))
        a = p.obj("a")
        obs, rew, done, info = step_result(ip, p, ip.call(ip.getattr(o, "step"), [a]))
        l = g.f["lives"]
        p.prove_eq(g.f["action"], a, "action-passed-on")
        p.prove_eq(obs, g.f["cur"], "observation-passed-on")
        p.prove_eq(rew, g.f["rew"], "reward-passed-on")
        p.prove(info is g.info, "info-passed-on")
        p.prove(fold(b_(ip.truth_t(done)) == z3.Or(b_(g.f["done"]), z3.And(l < L, l > 0))), "episode-ends-exactly-on-life-loss-or-game-over")
        p.prove(g.f["nreset"] == n0, "step-does-not-reset")
        p.prove(fold(b_(o.f["needs_real_reset"]) == b_(g.f["over"])), "real-reset-exactly-when-the-game-is-over")
    else:
        r = ip.call(ip.getattr(o, "reset"), [])
        p.prove_eq(r, g.f["cur"], "reset-returns-the-current-observation")
        p.prove(Not(g.f["over"]), "reset-leaves-a-running-episode")
        resets = g.log.count("reset")
        if p.decide(over):
            p.prove(resets == 1 and len(g.log) == 1, "real-reset-after-a-game-over")
        else:
            # only a no-op, unless that ends the game
            p.prove(g.log[:1] == [("step", 0)], "no-op-to-leave-a-lost-life")
            p.prove(len(g.log) == 1 or len(g.log) == 2 and g.log[1] == "reset", "no-real-reset-before-the-game-is-over")
            if len(g.log) == 2:
                p.prove(fold(z3.Or(b_(g.f["done"]), b_(g.f["nr"]))), "no-real-reset-before-the-game-is-over")
    p.prove_eq(o.f["lives"], g.f["lives"], "lives-tracked")


# ---------------------------------------------------------------- no-ops and fire at reset
class NoopUnit(Unit):
    def loop_preds(self, ctx, k):
        p = P()
        g = p.ghost["env"]
        if (g.uid, "cur") not in ctx.init:
            return {}
        out = {"running": lambda: Not(g.f["over"]),
               "steps=k": lambda: fold(num(g.f["nstep"]) == num(k))}
        for nm in list(ctx.fr.f):
            v = ctx.fr.f[nm]
            if is_term(v) and v.sort() == Obj:
                out["cur-" + nm] = lambda v=v: fold(z3.Or(num(k) == 0, v == g.f["cur"]))
        return out


class Ver(Model):
    def __init__(self, v):
        self.v = v

    def compare(self, ip, op, o):
        raise Unsupported("version comparison")


def u_noop(override):
    def run(ip, p):
        gym_classes(ip)
        g = GEnv(p)
        p.ghost["env"] = g
        mxn = p.int("noop_max")
        p.assume(mxn >= 1)
        ip.ext["packaging.version.parse"] = Builtin("parse", lambda ip, v: v if not isinstance(v, str) else 24)
        ip.ext["gym.__version__"] = 24 + (p.choose(2) - 1)
        o = ip.call(ip.get_class(AW, "NoopResetEnv"), [g], dict(noop_max=mxn))
        if override:
            n = p.int("override")
            p.assume(n >= 1)
            ip.setattr(o, "override_num_noops", n)
        r = ip.call(ip.getattr(o, "reset"), [])
        n = n if override else p.ghost["noops"]
        p.prove(fold(z3.And(n >= 1, z3.Or(b_(override), n <= mxn))), "between-one-and-noop-max")
        p.prove(fold(num(g.f["nstep"]) == n), "as-many-no-ops-as-drawn")
        p.prove_eq(r, g.f["cur"], "reset-returns-the-current-observation")
        p.prove(Not(g.f["over"]), "reset-leaves-a-running-episode")
        for e in g.log:
            if e != "reset":
                p.prove(not is_term(e[1]) and e[1] == 0, "only-no-ops")
        a = p.obj("a")
        res = ip.call(ip.getattr(o, "step"), [a])
        p.prove_eq(g.f["action"], a, "action-passed-on")
        p.prove_eq(res[0], g.f["cur"], "observation-passed-on")

    return run


def u_fire(ip, p):
    gym_classes(ip)
    g = GEnv(p)
    o = ip.call(ip.get_class(AW, "FireResetEnv"), [g])
    r = ip.call(ip.getattr(o, "reset"), [])
    p.prove([e[1] for e in g.log if e != "reset"] == [1, 2], "fires-and-moves-at-reset")
    p.prove_eq(r, g.f["cur"], "reset-returns-the-current-observation")
    p.prove(Not(g.f["over"]), "reset-leaves-a-running-episode")
    a = p.obj("a")
    res = ip.call(ip.getattr(o, "step"), [a])
    p.prove_eq(g.f["action"], a, "action-passed-on")
    p.prove_eq(res[0], g.f["cur"], "observation-passed-on")


# ---------------------------------------------------------------- rewards, actions, observations
def passes(ip, p, g, r, rew=True, obs=True):
    o, rw, d, info = step_result(ip, p, r)
    if obs:
        p.prove_eq(o, g.f["cur"], "observation-passed-on")
    if rew:
        p.prove_eq(rw, g.f["rew"], "reward-passed-on")
    p.prove_eq(d, g.f["done"], "done-passed-on")
    p.prove(info is g.info, "info-passed-on")
    return o, rw


def u_scale(ip, p):
    gym_classes(ip)
    g = GEnv(p, checked=False)
    k = p.real("scale")
    o = ip.call(ip.get_class("pfrl.wrappers.scale_reward", "ScaleReward"), [g, k])
    p.prove_eq(ip.call(ip.getattr(o, "reset"), []), g.f["cur"], "reset-observation-returned")
    for _ in range(2):
        a = p.obj("a")
        _, rw = passes(ip, p, g, ip.call(ip.getattr(o, "step"), [a]), rew=False)
        p.prove_eq(g.f["action"], a, "action-passed-on")
        p.prove(fold(real(rw) == k * g.f["rew"]), "reward-multiplied-by-the-factor")
        p.prove_eq(ip.getattr(o, "original_reward"), g.f["rew"], "original-reward-kept")


def u_clip(ip, p):
    gym_classes(ip)
    ip.ext["numpy.sign"] = Builtin("sign", lambda ip, x: fold(z3.If(real(x) > 0, z3.RealVal(1), z3.If(real(x) < 0, z3.RealVal(-1), z3.RealVal(0)))))
    g = GEnv(p, checked=False)
    o = ip.call(ip.get_class(AW, "ClipRewardEnv"), [g])
    p.prove_eq(ip.call(ip.getattr(o, "reset"), []), g.f["cur"], "reset-observation-returned")
    _, rw = passes(ip, p, g, ip.call(ip.getattr(o, "step"), [p.obj("a")]), rew=False)
    x = g.f["rew"]
    p.prove(fold(real(rw) == z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))), "reward-binned-by-sign")


class BoxM(Model):
    def __init__(self, low, high):
        self.low, self.high = low, high

    def p_low(self, ip):
        return self.low

    def p_high(self, ip):
        return self.high

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") == "gym.spaces.Box"


def ones_like(ip, t, dtype=None):
    return T(t.shape, lambda *i: z3.RealVal(1), "real", np=True)


def u_normalize(ip, p):
    gym_classes(ip)
    n = p.int("dim")
    p.assume(n >= 1)
    low, high = fresh_t(p, "low", (n,), np=True), fresh_t(p, "high", (n,), np=True)
    ls, hs = low.snap(), high.snap()
    g = GEnv(p, checked=False)
    g.spaces = {"action_space": BoxM(low, high), "observation_space": Opaque("o")}
    ip.ext["numpy.ones_like"] = Builtin("ones_like", ones_like)
    made = []

    def box(ip, low=None, high=None, **k):
        made.append((low, high))
        return BoxM(low, high)

    ip.ext["gym.spaces.Box"] = Builtin("gym.spaces.Box", box)
    o = ip.call(ip.get_class("pfrl.wrappers.normalize_action_space", "NormalizeActionSpace"), [g])
    sp = ip.getattr(o, "action_space")
    p.prove(isinstance(sp, BoxM) and len(made) == 1, "normalised-action-space")
    p.prove_forall(n, lambda i: fold(z3.And(real(sp.low.at(i)) == -1, real(sp.high.at(i)) == 1)), "normalised-action-space")
    a = fresh_t(p, "a", (n,), np=True)
    s = a.snap()

    def valid(i):
        x, d = real(s(i)), real(hs(i)) - real(ls(i))
        # (the second part follows from the first)
        return z3.And(x >= -1, x <= 1, d >= 0, (x + 1) * d / 2 >= 0, (x + 1) * d / 2 <= d)

    p.forall(n, valid)
    for _ in range(2):
        passes(ip, p, g, ip.call(ip.getattr(o, "step"), [a]))
        got = g.f["action"]
        p.prove(isinstance(got, T) and len(got.shape) == 1, "action-shape-kept")
        p.prove_forall(n, lambda i: fold(real(got.at(i)) == ls(i) + (s(i) + 1) * (hs(i) - ls(i)) / 2), "affine-map-onto-the-action-box")
        p.prove_forall(n, lambda i: fold(real(a.at(i)) == s(i)), "given-action-not-modified")
        p.prove_forall(n, lambda i: fold(z3.And(real(low.at(i)) == ls(i), real(high.at(i)) == hs(i))), "action-box-not-modified")


def u_affine(ip, p):
    a, l, h = p.real("a"), p.real("l"), p.real("h")
    p.assume(z3.And(a >= -1, a <= 1, l <= h))
    v = l + (a + 1) * (h - l) / 2
    p.prove(fold(z3.And(v >= l, v <= h)), "normalised-actions-land-in-the-box")
    p.prove(fold(z3.And(z3.Implies(a == -1, v == l), z3.Implies(a == 1, v == h))), "end-points-map-to-end-points")


class DiscM(Model):
    def __init__(self, n):
        self.n = n

    def p_n(self, ip):
        return self.n

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") == "gym.spaces.Discrete"


class RngState(Rng):
    def m_randint(self, ip, lo, hi=None):
        p = P()
        if hi is None:
            lo, hi = 0, lo
        x = p.int("rnd")
        p.assume(z3.And(x >= num(lo), x < num(hi)))
        p.ghost["drawn"] = x
        p.ghost["range"] = (lo, hi)
        return x

    def m_seed(self, ip, s=None):
        P().ghost["seeded"] = s


def u_random_action(ip, p):
    gym_classes(ip)
    n = p.int("n_actions")
    fr = p.real("fraction")
    p.assume(z3.And(n >= 1, fr >= 0, fr <= 1))
    g = GEnv(p, checked=False)
    g.spaces = {"action_space": DiscM(n), "observation_space": Opaque("o")}
    ip.ext["numpy.random.RandomState"] = Builtin("RandomState", lambda ip, *a: RngState())
    o = ip.call(ip.get_class("pfrl.wrappers.randomize_action", "RandomizeAction"), [g, fr])
    a = p.int("a")
    passes(ip, p, g, ip.call(ip.getattr(o, "step"), [a]))
    us = p.ghost.get("uniforms", [])
    if len(us) != 1:
        raise Unsupported("one uniform draw per action")
    got, x = g.f["action"], p.ghost.get("drawn")
    if x is not None:
        p.prove(fold(us[0] < fr), "random-only-with-the-given-fraction")
        p.prove_eq(got, x, "random-action-used")
        lo, hi = p.ghost["range"]
        p.prove(fold(z3.And(num(lo) == 0, num(hi) == n)), "random-action-over-the-whole-action-space")
    else:
        p.prove(fold(us[0] >= fr), "unchanged-otherwise")
        p.prove_eq(got, a, "unchanged-otherwise")


class Frame1(Model):
    """an observation array, of which astype/division are recorded"""

    def __init__(self, t, how=()):
        self.t, self.how = t, how

    def m_astype(self, ip, dt, copy=True):
        return Frame1(self.t, self.how + (("astype", getattr(dt, "name", dt)),))


class ObsEnv(GEnv):
    def wrap(self, v):
        return Frame1(v)

    def m_reset(self, ip, **k):
        return Frame1(GEnv.m_reset(self, ip, **k))

    def m_step(self, ip, a):
        r = GEnv.m_step(self, ip, a)
        return (Frame1(r[0]),) + r[1:]


def u_cast(ip, p):
    gym_classes(ip)
    g = ObsEnv(p, checked=False)
    o = ip.call(ip.get_class("pfrl.wrappers.cast_observation", "CastObservationToFloat32"), [g])

    def chk(x):
        p.prove(isinstance(x, Frame1), "observation-cast")
        p.prove_eq(x.t, g.f["cur"], "observation-cast")
        p.prove(x.how == (("astype", "numpy.float32"),), "cast-to-float32")
        orig = ip.getattr(o, "original_observation")
        p.prove(isinstance(orig, Frame1) and orig.how == (), "original-observation-kept")
        p.prove_eq(orig.t, g.f["cur"], "original-observation-kept")

    chk(ip.call(ip.getattr(o, "reset"), []))
    a = p.obj("a")
    x, _ = passes(ip, p, g, ip.call(ip.getattr(o, "step"), [a]), obs=False)
    p.prove_eq(g.f["action"], a, "action-passed-on")
    chk(x)


def units(tier):
    e = np_ext()
    return [
        Unit("ContinuingTimeLimit", u_limit, ext=e),
        SkipUnit("MaxAndSkipEnv", u_skip, ext=e),
        Unit("EpisodicLifeEnv", u_lives, ext=e),
        NoopUnit("NoopResetEnv", u_noop(False), ext=e),
        NoopUnit("NoopResetEnv[override]", u_noop(True), ext=e),
        Unit("FireResetEnv", u_fire, ext=e),
        Unit("ScaleReward", u_scale, ext=e),
        Unit("ClipRewardEnv", u_clip, ext=e),
        Unit("NormalizeActionSpace", u_normalize, ext=e),
        Unit("affine map", u_affine, ext=e),
        Unit("RandomizeAction", u_random_action, ext=e),
        Unit("CastObservation", u_cast, ext=e),
    ]
