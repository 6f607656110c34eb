"""C13: vector environments and frame stacks."""
import z3

from pydv import seqs
from pydv.interp import ExtVal, exc
from pydv.unit import PW, Unit
from pydv.values import Builtin, HModel, HeapObj, Model, Obj, Opaque, P, PyDict, PyExc, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num
from .loops import Not, b_

R, I = z3.RealSort(), z3.IntSort()

TRUSTED = [
    "multiprocessing.Pipe: a pair of connections delivering messages in order; recv blocks until the next one",
    "multiprocessing.Process(target=f, args=a).start(): runs f(*a) in another process",
    "numpy.concatenate(xs, axis): the arrays xs joined in the given order along axis",
    "collections.deque(maxlen=k): keeps the last k items",
]
ASSUMPTIONS = [
    "the first call on a vector environment or frame stack is a reset of every environment",
    "environments return observations they do not modify afterwards",
]
BOUNDED = ["the spec attribute of the vector environments and the Atari image operations are not under contract"]


class Envs(HModel):
    """state of environment j: what was asked of it and what it answered last"""

    ghost = True

    def __init__(self):
        HModel.__init__(self, "envs")
        self.f.update(nstep=0, nreset=0, action=None, obs=None, rew=None, done=None, info=None, nseed=0, seed=None, nclose=0)

    def step(self, a):
        p = P()
        self.set("nstep", self.f["nstep"] + 1)
        self.set("action", a)
        for k in ("obs", "rew", "done", "info"):
            self.set(k, p.obj(k))
        return (self.f["obs"], self.f["rew"], self.f["done"], self.f["info"])

    def reset(self):
        self.set("nreset", self.f["nreset"] + 1)
        self.set("obs", P().obj("obs"))
        return self.f["obs"]


class EnvAt(Model):
    def __init__(self, i):
        self.i = i

    def mine(self):
        return P().decide(fold(num(self.i) == num(P().ghost["pw"].j)))

    def m_step(self, ip, a):
        p = P()
        if not self.mine():
            return (p.obj("o"), p.obj("r"), p.obj("d"), p.obj("inf"))
        return p.ghost["envs"].step(a)

    def m_reset(self, ip, **k):
        p = P()
        return p.ghost["envs"].reset() if self.mine() else p.obj("o")

    def m_seed(self, ip, s=None):
        p = P()
        if self.mine():
            e = p.ghost["envs"]
            e.set("nseed", e.f["nseed"] + 1)
            e.set("seed", s)

    def m_close(self, ip):
        p = P()
        if self.mine():
            e = p.ghost["envs"]
            e.set("nclose", e.f["nclose"] + 1)

    def p_action_space(self, ip):
        return P().ghost["aspace"]

    def p_observation_space(self, ip):
        return P().ghost["ospace"]

    def p_spec(self, ip):
        return Opaque("spec")


class Space(Model):
    def __init__(self, name):
        self.name = name

    def getattr(self, ip, name):
        if name in ("low", "high", "dtype", "shape"):
            return Opaque("%s.%s" % (self.name, name))
        return Model.getattr(self, ip, name)

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") == "gym.spaces.Box"


def ext():
    e = {"numpy.zeros": Builtin("zeros", lambda ip, n, dtype=None: PyList(SymSeq(n[0] if isinstance(n, tuple) else n, lambda i: z3.RealVal(0)), "zeros")),
         "numpy.repeat": Builtin("repeat", lambda ip, a, k, axis=None: Opaque("repeated")),
         "gym.spaces.Box": Builtin("gym.spaces.Box", lambda ip, *a, **k: Space("stacked")),
         "numpy.__version__": "1.26"}
    e["numpy.zeros_like"] = e["numpy.zeros"]
    return e


def setup(p):
    n, j = p.int("num_envs"), p.int("j")
    p.assume(z3.And(n >= 1, j >= 0, j < n))
    p.ghost["pw"] = PW(j, n)
    p.ghost["aspace"], p.ghost["ospace"] = Space("action"), Space("obs")
    p.ghost["envs"] = Envs()
    return n, j, p.ghost["envs"]


def some_mask(p, n):
    """None, or n truth values"""
    if p.choose(2):
        return None, lambda i: z3.BoolVal(False)
    f = p.fn("mask", I, z3.BoolSort())
    return PyList(SymSeq(n, lambda i: f(num(i))), "mask"), lambda i: f(num(i))


def check_calls(ip, p, o, n, j, g, lastobs):
    """an arbitrary step or masked reset from an arbitrary state"""
    n0 = (g.f["nstep"], g.f["nreset"])
    g.set("obs", lastobs)
    if p.choose(2):
        acts = p.fn("action", I, Obj)
        al = PyList(SymSeq(n, lambda i: acts(num(i))), "actions")
        r = ip.call(ip.getattr(o, "step"), [al])
        p.prove(g.f["nstep"] == n0[0] + 1 and g.f["nreset"] == n0[1], "each-environment-steps-once")
        if g.f["nstep"] != n0[0] + 1:
            return
        p.prove_eq(g.f["action"], acts(j), "each-environment-gets-its-own-action")
        parts = ip.collect(ip.iterate(r))
        p.prove(len(parts) == 4, "observations-rewards-dones-infos")
        for part, k in zip(parts, ("obs", "rew", "done", "info")):
            s = seqs.as_seq(ip.iterate(part))
            p.prove_eq(s.n, n, "one-result-per-environment")
            p.prove_eq(seqs.seq_at(s, j), g.f[k], "results-in-environment-order")
    else:
        m, mf = some_mask(p, n)
        r = ip.call(ip.getattr(o, "reset"), [] if m is None and p.choose(2) else [m])
        rs = g.f["nreset"] == n0[1] + 1
        p.prove(fold(b_(rs) == z3.Not(mf(j))), "resets-exactly-the-unmasked")
        p.prove(g.f["nreset"] - n0[1] <= 1 and g.f["nstep"] == n0[0], "each-environment-reset-at-most-once")
        s = seqs.as_seq(ip.iterate(r))
        p.prove_eq(s.n, n, "one-observation-per-environment")
        p.prove_eq(seqs.seq_at(s, j), g.f["obs"], "reset-or-kept-observation-in-order")


def generalise(ip, p, o, n, j):
    """any later state: last_obs holds the last observations"""
    if "last_obs" not in o.f:
        raise Unsupported("representation of the vector environment")
    last = p.fn("last", I, Obj)
    sq = SymSeq(n, lambda i: last(num(i)))
    o.set("last_obs", PyList(sq, "last") if p.choose(2) else sq)
    return last(j)


def u_serial(ip, p):
    n, j, g = setup(p)
    envs = PyList(SymSeq(n, EnvAt), "envs")
    o = ip.call(ip.get_class("pfrl.envs.serial_vector_env", "SerialVectorEnv"), [envs])
    p.prove_eq(ip.getattr(o, "num_envs"), n, "number-of-environments")
    p.prove(g.f["nstep"] == 0 and g.f["nreset"] == 0, "construction-does-not-step")
    if p.choose(2):
        r = ip.call(ip.getattr(o, "reset"), [])
        p.prove(g.f["nreset"] == 1, "first-reset-resets-every-environment")
        p.prove_eq(seqs.seq_at(seqs.as_seq(ip.iterate(r)), j), g.f["obs"], "reset-observation-in-order")
        lo = seqs.seq_at(seqs.as_seq(ip.iterate(o.f["last_obs"])), j) if "last_obs" in o.f else None
        p.prove_eq(lo, g.f["obs"], "last-observation-remembered")
    last = generalise(ip, p, o, n, j)
    check_calls(ip, p, o, n, j, g, last)
    if "last_obs" in o.f:
        p.prove_eq(seqs.seq_at(seqs.as_seq(ip.iterate(o.f["last_obs"])), j), g.f["obs"], "last-observation-remembered")


def u_serial_seed(ip, p):
    n, j, g = setup(p)
    envs = PyList(SymSeq(n, EnvAt), "envs")
    o = ip.call(ip.get_class("pfrl.envs.serial_vector_env", "SerialVectorEnv"), [envs])
    seeds = p.fn("seed", I, I)
    ip.call(ip.getattr(o, "seed"), [PyList(SymSeq(n, lambda i: seeds(num(i))), "seeds")])
    p.prove(g.f["nseed"] == 1, "each-environment-seeded-once")
    p.prove_eq(g.f["seed"], seeds(j), "each-environment-gets-its-own-seed")
    ip.call(ip.getattr(o, "close"), [])
    p.prove(g.f["nclose"] == 1, "each-environment-closed-once")


# ---------------------------------------------------------------- worker processes
class Link(HModel):
    """the pipe to worker j, the worker serving it as proved of `worker`"""

    ghost = True

    def __init__(self):
        HModel.__init__(self, "link")
        self.f.update(out=(), started=0, closed=False)

    def serve(self, cmd, data):
        p = P()
        p.prove(self.f["started"] == 1, "worker-running-when-asked")
        p.prove(not self.f["closed"], "no-command-after-close")
        e = p.ghost["envs"]
        if cmd == "step":
            r = e.step(data)
        elif cmd == "reset":
            r = e.reset()
        elif cmd == "close":
            self.set("closed", True)
            return
        elif cmd == "get_spaces":
            r = (p.ghost["aspace"], p.ghost["ospace"])
        elif cmd == "spec":
            r = Opaque("spec")
        elif cmd == "seed":
            e.set("nseed", e.f["nseed"] + 1)
            e.set("seed", data)
            r = ("seeded", data)
        else:
            p.fail("known-command", str(cmd))
            return
        self.set("out", self.f["out"] + (r,))


class Remote(Model):
    def __init__(self, link, side):
        self.link, self.side = link, side

    def m_send(self, ip, msg):
        p = P()
        cmd, data = msg if isinstance(msg, tuple) else ip.collect(ip.iterate(msg))
        if self.link is None:
            p.ghost["othercmd"] = cmd
            return
        if self.side == 1:
            raise Unsupported("send on the worker side")
        self.link.serve(cmd, data)

    def m_recv(self, ip):
        p = P()
        if self.link is None:
            c = p.ghost.get("othercmd")
            if c == "step":
                return tuple(p.obj("x") for _ in range(4))
            if c == "get_spaces":
                return (p.ghost["aspace"], p.ghost["ospace"])
            return p.obj("x")
        out = self.link.f["out"]
        p.prove(len(out) > 0, "every-recv-answers-a-command")
        if not out:
            raise Unsupported("recv would block")
        self.link.set("out", out[1:])
        return out[0]

    def m_close(self, ip):
        return None


def pipe(ip, *a):
    p = P()
    pw = p.ghost["pw"]
    if pw.cur == "other":
        return (Remote(None, 0), Remote(None, 1))
    if pw.cur != "mine" or p.ghost.get("link"):
        raise Unsupported("more than one pipe per environment")
    l = Link()
    p.ghost["link"] = l
    return (Remote(l, 0), Remote(l, 1))


class Proc(Model):
    def __init__(self, target, args, link):
        self.target, self.args, self.link = target, args, link

    def m_start(self, ip):
        if self.link is not None:
            self.link.set("started", self.link.f["started"] + 1)

    def m_join(self, ip, *a):
        if self.link is not None:
            P().prove(bool(self.link.f["closed"]), "worker-told-to-stop-before-join")


def process(ip, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
    p = P()
    pw = p.ghost["pw"]
    if pw.cur == "other":
        return Proc(target, args, None)
    args = ip.collect(ip.iterate(args)) if not isinstance(args, tuple) else args
    from pydv.interp import FuncVal

    ok = isinstance(target, FuncVal) and target.qual == "pfrl.envs.multiprocess_vector_env.worker" and len(args) == 2
    if not ok:
        raise Unsupported("process target")
    r, fn = args
    p.prove(isinstance(r, Remote) and r.side == 1 and r.link is p.ghost["link"], "worker-gets-its-own-pipe")
    p.prove(isinstance(fn, FnAt) and p.entails(fold(num(fn.i) == num(pw.j))), "worker-gets-its-own-environment")
    return Proc(target, args, p.ghost["link"])


class FnAt(Model):
    def __init__(self, i):
        self.i = i


def mp_ext():
    e = ext()
    e["multiprocessing.Pipe"] = Builtin("Pipe", pipe)
    e["multiprocessing.Process"] = Builtin("Process", process)
    return e


def mk_multi(ip, p):
    n, j, g = setup(p)
    fns = PyList(SymSeq(n, FnAt), "env_fns")
    o = ip.call(ip.get_class("pfrl.envs.multiprocess_vector_env", "MultiprocessVectorEnv"), [fns])
    l = p.ghost.get("link")
    if l is None:
        raise Unsupported("pipes of the workers")
    p.prove(l.f["started"] == 1, "every-worker-started-once")
    p.prove(l.f["out"] == (), "no-answer-left-unread")
    p.prove_eq(ip.getattr(o, "num_envs"), n, "number-of-environments")
    return n, j, g, o, l


def u_multi(ip, p):
    n, j, g, o, l = mk_multi(ip, p)
    if p.choose(2):
        r = ip.call(ip.getattr(o, "reset"), [])
        p.prove(g.f["nreset"] == 1, "first-reset-resets-every-environment")
        p.prove_eq(seqs.seq_at(seqs.as_seq(ip.iterate(r)), j), g.f["obs"], "reset-observation-in-order")
        p.prove_eq(seqs.seq_at(seqs.as_seq(ip.iterate(o.f["last_obs"])), j), g.f["obs"], "last-observation-remembered")
        p.prove(l.f["out"] == (), "no-answer-left-unread")
    last = generalise(ip, p, o, n, j)
    check_calls(ip, p, o, n, j, g, last)
    p.prove(l.f["out"] == (), "no-answer-left-unread")
    p.prove_eq(seqs.seq_at(seqs.as_seq(ip.iterate(o.f["last_obs"])), j), g.f["obs"], "last-observation-remembered")


def u_multi_seed(ip, p):
    n, j, g, o, l = mk_multi(ip, p)
    k = p.choose(3)
    seeds = p.fn("seed", I, I)
    arg = [PyList(SymSeq(n, lambda i: seeds(num(i))), "seeds"), None, p.int("one")][k]
    ip.call(ip.getattr(o, "seed"), [arg] if arg is not None else [])
    p.prove(g.f["nseed"] == 1, "each-environment-seeded-once")
    p.prove_eq(g.f["seed"], [seeds(j), None, arg][k], "each-environment-gets-its-own-seed")
    p.prove(l.f["out"] == (), "no-answer-left-unread")
    ip.call(ip.getattr(o, "close"), [])
    p.prove(bool(l.f["closed"]), "each-worker-told-to-stop")
    try:
        ip.call(ip.getattr(o, "step"), [PyList(SymSeq(n, lambda i: p.obj("a")), "actions")])
        p.fail("no-step-after-close")
    except PyExc:
        pass


class WorkerSide(HModel):
    """worker end of a pipe: arbitrary commands in, one answer each"""

    ghost = True

    def __init__(self):
        HModel.__init__(self, "conn")
        self.f.update(want=None, closed=False, env=None)

    def m_recv(self, ip):
        p = P()
        p.prove(self.f["want"] is None, "every-command-answered-before-the-next")
        p.prove(not self.f["closed"], "nothing-received-after-close")
        c = p.choose(7)
        cmd = ("step", "reset", "close", "get_spaces", "spec", "seed", "eof")[c]
        if cmd == "eof":
            self.set("want", None)
            raise exc("EOFError")
        d = p.obj("data")
        p.ghost["data"] = d
        self.set("want", cmd if cmd != "close" else None)
        self.set("last", cmd)
        return (cmd, d)

    def m_send(self, ip, r):
        p = P()
        w, e = self.f["want"], p.ghost["env1"]
        p.prove(w is not None, "one-answer-per-command")
        if w == "step":
            p.prove(isinstance(r, tuple) and len(r) == 4, "answers-the-step-result")
            if isinstance(r, tuple) and len(r) == 4:
                for x, k in zip(r, ("obs", "rew", "done", "info")):
                    p.prove_eq(x, e.f[k], "answers-the-step-result")
            p.prove_eq(e.f["action"], p.ghost["data"], "steps-with-the-given-action")
            p.prove(e.f["calls"] == ("step",), "one-step-per-command")
        elif w == "reset":
            p.prove_eq(r, e.f["obs"], "answers-the-reset-observation")
            p.prove(e.f["calls"] == ("reset",), "one-reset-per-command")
        elif w == "get_spaces":
            p.prove(isinstance(r, tuple) and len(r) == 2 and r[0] is e.asp and r[1] is e.osp, "answers-the-spaces")
            p.prove(e.f["calls"] == (), "only-queries")
        elif w == "seed":
            p.prove_eq(e.f["action"], p.ghost["data"], "seeds-with-the-given-seed")
            p.prove(e.f["calls"] == ("seed",), "one-seed-per-command")
        e.set("calls", ())
        self.set("want", None)

    def m_close(self, ip):
        self.set("closed", True)


class Env1(HModel):
    ghost = True

    def __init__(self):
        HModel.__init__(self, "env1")
        self.asp, self.osp = Space("a"), Space("o")
        self.f.update(obs=None, rew=None, done=None, info=None, action=None, calls=(), nclose=0)

    def m_step(self, ip, a):
        p = P()
        self.set("action", a)
        self.set("calls", self.f["calls"] + ("step",))
        for k in ("obs", "rew", "done", "info"):
            self.set(k, p.obj(k))
        return tuple(self.f[k] for k in ("obs", "rew", "done", "info"))

    def m_reset(self, ip):
        self.set("calls", self.f["calls"] + ("reset",))
        self.set("obs", P().obj("obs"))
        return self.f["obs"]

    def m_seed(self, ip, s=None):
        self.set("calls", self.f["calls"] + ("seed",))
        self.set("action", s)
        return Opaque("seeds")

    def m_close(self, ip):
        self.set("nclose", self.f["nclose"] + 1)

    def p_action_space(self, ip):
        return self.asp

    def p_observation_space(self, ip):
        return self.osp

    def p_spec(self, ip):
        return Opaque("spec")


class WorkerUnit(Unit):
    def loop_havoc(self, ip, loc, o, kinds):
        p = P()
        if isinstance(o, Env1):
            return {"calls": (), "nclose": 0}.get(loc[1], p.obj(loc[1]))
        if isinstance(o, WorkerSide):
            return {"want": None, "closed": False, "last": None}.get(loc[1])
        return NotImplemented

    def loop_preds(self, ctx, k):
        if not is_term(k):
            self.loop_backedge(ctx, k)
        return {}

    def loop_backedge(self, ctx, k):
        # the state assumed at the head (loop_havoc) is re-established
        p = P()
        c, e = p.ghost["conn"], p.ghost["env1"]
        p.prove(c.f["want"] is None, "every-command-answered-before-the-next")
        p.prove(c.f["closed"] is False, "serves-until-told-to-stop")
        p.prove(e.f["calls"] == () and e.f["nclose"] == 0, "nothing-done-but-what-was-asked")


def u_worker(ip, p):
    c, e = WorkerSide(), Env1()
    p.ghost["conn"], p.ghost["env1"] = c, e
    made = []
    fn = Builtin("env_fn", lambda ip: made.append(1) or e)
    try:
        ip.call(ip.get_func("pfrl.envs.multiprocess_vector_env", "worker"), [c, fn])
        p.prove(c.f.get("last") == "close", "stops-only-when-told")
    except PyExc as x:
        p.prove(x.value.cls.name == "EOFError", "no-unexpected-exception")
    p.prove(len(made) == 1, "one-environment-per-worker")
    p.prove(e.f["nclose"] == 1, "environment-closed-when-the-worker-stops")


# ---------------------------------------------------------------- frame stacks
class FrameUnit(Unit):
    def loop_havoc(self, ip, loc, o, kinds):
        p = P()
        if isinstance(o, PyList) and loc[1] == "data" and o.tag == "deque":
            n, f = p.int("len"), p.fn("frame", I, Obj)
            p.assume(n >= 0)
            return SymSeq(n, lambda i: f(num(i)))
        return NotImplemented

    def deques(self, ctx):
        p = P()
        for (uid, field) in ctx.init:
            o = p.objs.get(uid)
            if isinstance(o, PyList) and field == "data" and o.tag == "deque" and o.maxlen is not None:
                yield o, ctx.init[(uid, field)]

    def loop_preds(self, ctx, k):
        out = {}
        for o, d0 in self.deques(ctx):
            n0 = seqs.seq_len(d0)
            n = seqs.seq_len(o.f["data"])
            out["len-" + o.uid] = lambda n=n, n0=n0, o=o: fold(num(n) == z3.If(num(n0) + num(k) <= num(o.maxlen), num(n0) + num(k), num(o.maxlen)))
        return out

    def loop_qpreds(self, ctx, k):
        out = {}
        ob = P().ghost.get("obnow")
        if ob is None:
            return out
        for o, d0 in self.deques(ctx):
            s = seqs.as_seq(o.f["data"])
            out["tail-" + o.uid] = (s.n, lambda i, s=s: fold(s.at(i) == ob), fold(num(s.n) - num(k)))
        return out


class Frames(Model):
    """frames of another environment of the vector: k of them, of which nothing else is known"""

    def __init__(self, k):
        self.k = k

    def length(self, ip):
        return self.k

    def m_append(self, ip, x):
        return None

    def iter(self, ip):
        f = P().fn("otherframe", I, Obj)
        return SymSeq(self.k, lambda i: f(num(i)))


class FramePW(PW):
    def other(self, ip, i, v):
        if isinstance(v, PyList) and v.tag == "deque":
            return Frames(P().ghost["K"])
        return v


class StackEnv(Model):
    """single environment under a frame stack"""

    def getattr(self, ip, name):
        p = P()
        if name == "observation_space":
            return p.ghost["ospace"]
        if name == "reset":
            def reset(ip, **k):
                p.ghost["obnow"] = p.obj("first")
                p.ghost["resets"] = p.ghost.get("resets", 0) + 1
                return p.ghost["obnow"]
            return Builtin("reset", reset)
        if name == "step":
            def step(ip, a):
                p.ghost["obnow"] = p.obj("frame")
                p.ghost["stepped"] = p.ghost.get("stepped", []) + [a]
                p.ghost["res"] = (p.obj("r"), p.obj("d"), p.obj("info"))
                return (p.ghost["obnow"],) + p.ghost["res"]
            return Builtin("step", step)
        if name in ("action_space", "metadata", "reward_range", "unwrapped", "spec"):
            return Opaque(name)
        raise exc("AttributeError", name)


def as_array(ip, p, ob):
    """what numpy.asarray(observation) joins, and along which axis"""
    got = []

    def cat(ip, xs, axis=0, **k):
        got.append((ip.iterate(xs), axis))
        return Opaque("array")

    old = ip.ext.get("numpy.concatenate")
    ip.ext["numpy.concatenate"] = Builtin("concatenate", cat)
    try:
        ip.call(ip.getattr(ob, "__array__"), [])
    finally:
        if old is not None:
            ip.ext["numpy.concatenate"] = old
    if len(got) != 1:
        raise Unsupported("observation not built by one concatenation")
    return got[0]


def check_stack(ip, p, ob, K, at, axis, what):
    xs, ax = as_array(ip, p, ob)
    s = seqs.as_seq(xs)
    p.prove_eq(s.n, K, "k-frames")
    p.prove_eq(ax, axis, "stacked-along-the-configured-axis")
    p.prove_forall(K, lambda i: fold(seqs.seq_at(s, i) == at(i)), what)


def last_k(K, F, ob):
    """F shifted by one, ob last"""
    return lambda i: z3.If(num(i) == num(K) - 1, ob, F(num(i) + 1))


def gym_classes(ip):
    ip.ext = dict(ip.ext)
    for c in ("Wrapper", "ObservationWrapper", "RewardWrapper", "ActionWrapper", "Env"):
        ip.ext["gym." + c] = ip.get_class("gym.core", c)


def find_deque(o, cls):
    ds = [v for v in o.f.values() if isinstance(v, cls)]
    if len(ds) != 1:
        raise Unsupported("representation of the frame stack")
    return ds[0]


def u_framestack(ip, p):
    gym_classes(ip)
    K = p.int("k")
    p.assume(K >= 1)
    p.ghost["ospace"] = Space("obs")
    order = ("hwc", "chw")[p.choose(2)]
    axis = {"hwc": 2, "chw": 0}[order]
    o = ip.call(ip.get_class("pfrl.wrappers.atari_wrappers", "FrameStack"), [StackEnv(), K], dict(channel_order=order))
    d = find_deque(o, PyList)
    if d.tag != "deque" or d.maxlen is None:
        raise Unsupported("representation of the frame stack")
    F = p.fn("F", I, Obj)
    if p.choose(2):      # else: the first reset
        d.set("data", SymSeq(K, lambda i: F(num(i))))
        if p.choose(2):
            a = p.obj("a")
            r = ip.call(ip.getattr(o, "step"), [a])
            ob1 = p.ghost["obnow"]
            p.prove(len(p.ghost["stepped"]) == 1, "one-step")
            p.prove_eq(p.ghost["stepped"][0], a, "action-passed-on")
            for x, y in zip(r[1:], p.ghost["res"]):
                p.prove_eq(x, y, "reward-done-info-passed-on")
            check_stack(ip, p, r[0], K, last_k(K, F, ob1), axis, "last-k-frames-in-order")
            r2 = ip.call(ip.getattr(o, "step"), [a])
            check_stack(ip, p, r[0], K, last_k(K, F, ob1), axis, "earlier-observation-unchanged")
            return
    p.ghost["resets"] = 0
    r = ip.call(ip.getattr(o, "reset"), [])
    ob1 = p.ghost["obnow"]
    p.prove(p.ghost["resets"] == 1, "one-reset")
    check_stack(ip, p, r, K, lambda i: ob1, axis, "first-frame-repeated")
    r2 = ip.call(ip.getattr(o, "step"), [p.obj("a")])
    ob2 = p.ghost["obnow"]
    check_stack(ip, p, r2[0], K, last_k(K, lambda i: ob1, ob2), axis, "padded-with-the-first-frame")
    check_stack(ip, p, r, K, lambda i: ob1, axis, "earlier-observation-unchanged")


class VecUnder(Model):
    """vector environment under VectorFrameStack (as proved of the vector environments)"""

    def __init__(self, n):
        self.n = n

    def getattr(self, ip, name):
        p = P()
        if name == "num_envs":
            return self.n
        if name == "observation_space":
            return p.ghost["ospace"]
        if name == "action_space":
            return p.ghost["aspace"]

        def obs():
            f = p.fn("obs", I, Obj)
            p.ghost["obs"] = f
            p.ghost["obnow"] = f(p.ghost["pw"].j)
            return PyList(SymSeq(self.n, lambda i: f(num(i))), "obs")

        if name == "reset":
            def reset(ip, mask=None):
                p.ghost["mask"] = mask
                return obs()
            return Builtin("reset", reset)
        if name == "step":
            def step(ip, a):
                p.ghost["stepped"] = a
                p.ghost["res"] = tuple(Opaque(x) for x in ("rews", "dones", "infos"))
                return (obs(),) + p.ghost["res"]
            return Builtin("step", step)
        raise exc("AttributeError", name)


def u_vector_stack(ip, p):
    n, j, g = setup(p)
    p.ghost["pw"] = FramePW(j, n)
    K, ax = p.int("k"), p.int("axis")
    p.assume(K >= 1)
    p.ghost["K"] = K
    o = ip.call(ip.get_class("pfrl.wrappers.vector_frame_stack", "VectorFrameStack"), [VecUnder(n), K], dict(stack_axis=ax))
    if "frames" not in o.f:
        raise Unsupported("representation of the frame stack")
    d = seqs.seq_at(seqs.as_seq(ip.iterate(o.f["frames"])), j)
    if not (isinstance(d, PyList) and d.tag == "deque" and d.maxlen is not None):
        raise Unsupported("representation of the frame stack")

    def of(r):
        s = seqs.as_seq(ip.iterate(r))
        p.prove_eq(s.n, n, "one-observation-per-environment")
        return seqs.seq_at(s, j)

    F = p.fn("F", I, Obj)
    if p.choose(2):
        d.set("data", SymSeq(K, lambda i: F(num(i))))
        if p.choose(2):
            al = PyList(SymSeq(n, lambda i: p.obj("a")), "actions")
            r = ip.call(ip.getattr(o, "step"), [al])
            p.prove(p.ghost["stepped"] is al, "actions-passed-on")
            p.prove(all(x is y for x, y in zip(r[1:], p.ghost["res"])), "rewards-dones-infos-passed-on")
            ob1 = p.ghost["obnow"]
            old = of(r[0])
            check_stack(ip, p, old, K, last_k(K, F, ob1), ax, "last-k-frames-in-order")
            ip.call(ip.getattr(o, "step"), [al])
            check_stack(ip, p, old, K, last_k(K, F, ob1), ax, "earlier-observation-unchanged")
            return
        m, mf = some_mask(p, n)
        # a masked environment keeps its last observation
        r = ip.call(ip.getattr(o, "reset"), [] if m is None else [m])
        p.prove(p.ghost["mask"] is m, "mask-passed-on")
        ob1 = p.ghost["obnow"]
        if p.decide(mf(j)):
            check_stack(ip, p, of(r), K, lambda i: F(num(i)), ax, "masked-environment-keeps-its-frames")
        else:
            check_stack(ip, p, of(r), K, lambda i: ob1, ax, "first-frame-repeated")
        return
    r = ip.call(ip.getattr(o, "reset"), [])
    ob1 = p.ghost["obnow"]
    check_stack(ip, p, of(r), K, lambda i: ob1, ax, "first-frame-repeated")
    r2 = ip.call(ip.getattr(o, "step"), [PyList(SymSeq(n, lambda i: p.obj("a")), "actions")])
    ob2 = p.ghost["obnow"]
    check_stack(ip, p, of(r2[0]), K, last_k(K, lambda i: ob1, ob2), ax, "padded-with-the-first-frame")


def units(tier):
    e, m = ext(), mp_ext()
    return [
        Unit("SerialVectorEnv step/reset", u_serial, ext=e),
        Unit("SerialVectorEnv seed/close", u_serial_seed, ext=e),
        Unit("MultiprocessVectorEnv step/reset", u_multi, ext=m),
        Unit("MultiprocessVectorEnv seed/close", u_multi_seed, ext=m),
        WorkerUnit("worker", u_worker, ext={"signal.signal": Builtin("signal", lambda ip, *a: None)}),
        FrameUnit("FrameStack", u_framestack, ext=e),
        FrameUnit("VectorFrameStack", u_vector_stack, ext=e),
    ]
