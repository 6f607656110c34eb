"""C21: saving and loading restores every saved attribute.

The real constructors, save and load of every agent class are executed on components
(networks, optimizers, normalisers) with arbitrary states and a model of the file
system; agent A saves, another agent B (own components, own states) loads."""
import os

import z3

from pydv import interp as _interp
from pydv import seqs
from pydv.interp import exc
from pydv.unit import Unit
from pydv.values import (
    Builtin, HModel, Model, Obj, Opaque, P, PyDict, PyExc, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num,
)
from . import nets
from .loops import Logger

I = z3.IntSort()
_interp.LIBS["verif_saving"] = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixtures", "saving.py")

TRUSTED = [
    "torch.save/torch.load and pickle.dump/pickle.load restore what was stored, from the same path; state_dict/load_state_dict of networks and optimizers are inverse",
    "os.makedirs, os.path.join as documented; copy_param by its contract (C22)",
]
ASSUMPTIONS = ["the loading agent is built with the same configuration as the saving one; the directory is not modified in between"]
BOUNDED = ["user classes with nested savers: up to three attributes and three levels of nesting (the agents of the repository themselves: all of theirs)"]


class St(Model):
    """a state dictionary: snapshot of the states it was taken from"""

    def __init__(self, kind, vals):
        self.kind, self.vals = kind, vals


def comps(p):
    return p.ghost.setdefault("comps", [])


class Comp:
    """anything with a state"""

    def born(self):
        self.f["state"] = P().obj(self.uid + ".state")
        comps(P()).append(self)

    def states(self):
        return [self.f["state"]]

    def put(self, vals):
        self.set("state", vals[0])

    def m_state_dict(self, ip):
        return St("state", self.states())

    def m_load_state_dict(self, ip, d, strict=True):
        p = P()
        p.prove(isinstance(d, St) and d.kind == "state", "a-state-dictionary-of-a-plain-module-is-loaded")
        if len(d.vals) != len(self.states()):
            raise exc("RuntimeError", "state dictionary does not fit")
        self.put(d.vals)
        return None


class CNet(Comp, nets.Net):
    def __init__(self, name, src=None):
        nets.Net.__init__(self, name, None, src=src)
        self.born()
        if src is not None:
            self.f["state"] = src.f["state"]

    def deepcopy(self, ip):
        return CNet(self.name + "'", src=self)

    def m_children(self, ip):
        return Opaque("children")


class Wrapped(HModel):
    """torch.nn.DataParallel / DistributedDataParallel around a network"""

    ghost = True

    def __init__(self, inner, kind):
        HModel.__init__(self, "parallel")
        self.inner, self.kind = inner, kind

    def p_module(self, ip):
        return self.inner

    def m_state_dict(self, ip):
        return St("prefixed", self.inner.states())

    def m_load_state_dict(self, ip, d, strict=True):
        if d.kind != "prefixed":
            raise exc("RuntimeError", "unexpected keys")
        self.inner.put(d.vals)

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") in ("torch.nn.Module", self.kind)


class CList(Comp, nets.ModuleList):
    def __init__(self, xs):
        nets.ModuleList.__init__(self, xs)

    def states(self):
        return [s for x in self.xs for s in x.states()]

    def put(self, vals):
        for x, v in zip(self.xs, vals):
            x.put([v])

    def deepcopy(self, ip):
        return CList([x.deepcopy(ip) for x in self.xs])


class COpt(Comp, HModel):
    ghost = True

    def __init__(self, name):
        HModel.__init__(self, "optimizer:" + name)
        self.born()

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") == "torch.optim.Optimizer"

    def p_param_groups(self, ip):
        return Opaque("param_groups")


class Norm(Comp, HModel):
    ghost = True

    def __init__(self, name="normalizer"):
        HModel.__init__(self, name)
        self.born()

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") in ("torch.nn.Module", "EmpiricalNormalization")

    def m_to(self, ip, d):
        return self

    def m_parameters(self, ip):
        return Opaque("parameters")


class CBuf(Comp, HModel):
    ghost = True

    def __init__(self):
        HModel.__init__(self, "replay_buffer")
        self.born()

    def p_capacity(self, ip):
        return None

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") in ("AbstractReplayBuffer", "ReplayBuffer", "AbstractEpisodicReplayBuffer", "EpisodicReplayBuffer")

    def m_save(self, ip, path):
        fs().write(path, St("buffer", [self.f["state"]]))

    def m_load(self, ip, path):
        d = fs().read(path)
        P().prove(isinstance(d, St) and d.kind == "buffer", "a-buffer-file-is-loaded")
        self.set("state", d.vals[0])


class FS(HModel):
    ghost = True

    def __init__(self):
        HModel.__init__(self, "filesystem")
        self.files, self.dirs = {}, set()
        self.frozen = False

    def key(self, path):
        s = path if isinstance(path, str) else getattr(path, "const", lambda: None)()
        if s is None:
            raise Unsupported("path %r" % (path,))
        return s

    def mkdir(self, ip, path, mode=0o777, exist_ok=False):
        d = self.key(path)
        if d in self.dirs and exist_ok is not True:
            raise exc("FileExistsError", d)
        while d:
            self.dirs.add(d)
            d = os.path.dirname(d)

    def write(self, path, v):
        k = self.key(path)
        p = P()
        p.prove(not self.frozen, "loading-writes-nothing")
        if os.path.dirname(k) not in self.dirs:
            raise exc("FileNotFoundError", k)
        p.prove(k not in self.files, "no-file-overwritten-by-another-attribute")
        self.files[k] = v

    def read(self, path):
        k = self.key(path)
        if k not in self.files:
            raise exc("FileNotFoundError", k)
        return self.files[k]


def fs():
    return P().ghost["fs"]


class FileM(Model):
    def __init__(self, path, mode):
        self.path, self.mode = path, mode

    def m___enter__(self, ip):
        return self

    def m___exit__(self, ip, *a):
        return None

    def m_close(self, ip):
        return None


def ext21():
    ext = nets.agent_ext()
    ext["logging.getLogger"] = Builtin("getLogger", lambda ip, *a: Logger())
    ext["os.makedirs"] = Builtin("makedirs", lambda ip, *a, **k: fs().mkdir(ip, *a, **k))
    ext["torch.save"] = Builtin("save", lambda ip, x, path, *a, **k: fs().write(path, x))
    ext["torch.load"] = Builtin("load", lambda ip, path, *a, **k: fs().read(path))
    ext["torch.cuda.is_available"] = Builtin("is_available", lambda ip: P().bool("cuda"))
    ext["torch.nn.ModuleList"] = Builtin("ModuleList", lambda ip, xs: CList(list(ip.iterate(xs))))
    ext["torch.optim.Adam"] = Builtin("Adam", lambda ip, *a, **k: COpt("temperature"))
    ext["pickle.dump"] = Builtin("dump", lambda ip, x, f, *a, **k: fs().write(f.path, snapshot(ip, x)))
    ext["pickle.load"] = Builtin("load", lambda ip, f, *a, **k: restore(ip, fs().read(f.path)))
    return ext


def setup(ip, p):
    p.ghost["fs"] = FS()
    p.ghost["open"] = lambda ip, path, mode="r", *a, **k: FileM(path, mode)
    ip.contracts["pfrl.agents.soft_actor_critic.TemperatureHolder"] = lambda ip, c, a, k: CNet("temperature")

    def copy(ip, f, args, kw):
        d = dict(zip([a.arg for a in f.node.args.args], args), **kw)
        t, s = (d["target_link"], d["source_link"]) if "target_link" in d else (d["dst"], d["src"])
        t.put(s.states())

    for nm in ("copy_param", "synchronize_parameters"):
        ip.contracts["pfrl.utils.copy_param." + nm] = copy


def agents():
    """name -> (builder, attributes that make up its learned state)"""

    def dqn(mod, cls, **kw):
        def mk(ip, p):
            n = CNet("q")
            k = dict(kw)
            return ip.call(ip.get_class("pfrl.agents." + mod, cls), [n, COpt("q"), CBuf(), p.real("gamma"), Opaque("explorer")], k)

        return mk, ("model", "target_model", "optimizer")

    def ddpg(ip, p):
        pi, q = CNet("policy"), CNet("q")
        return ip.call(ip.get_class("pfrl.agents.ddpg", "DDPG"), [pi, q, COpt("pi"), COpt("q"), CBuf(), p.real("gamma"), Opaque("explorer")])

    def td3(ip, p):
        pi, q1, q2 = CNet("policy"), CNet("q1"), CNet("q2")
        return ip.call(ip.get_class("pfrl.agents.td3", "TD3"), [pi, q1, q2, COpt("pi"), COpt("q1"), COpt("q2"), CBuf(), p.real("gamma"), Opaque("explorer")])

    def sac(temp):
        def mk(ip, p):
            pi, q1, q2 = CNet("policy"), CNet("q1"), CNet("q2")
            kw = {}
            if temp:
                kw = dict(entropy_target=p.real("entropy_target"), temperature_optimizer_lr=p.real("lr"))
            return ip.call(ip.get_class("pfrl.agents.soft_actor_critic", "SoftActorCritic"),
                           [pi, q1, q2, COpt("pi"), COpt("q1"), COpt("q2"), CBuf(), p.real("gamma")], kw)

        return mk

    def simple(mod, cls, args):
        def mk(ip, p):
            n = CNet("model")
            return ip.call(ip.get_class("pfrl.agents." + mod, cls), [n, COpt("model")] + args(p))

        return mk

    def ppo(norm):
        def mk(ip, p):
            return ip.call(ip.get_class("pfrl.agents.ppo", "PPO"), [CNet("model"), COpt("model")], dict(obs_normalizer=Norm() if norm else None))

        return mk

    def trpo(norm):
        def mk(ip, p):
            return ip.call(ip.get_class("pfrl.agents.trpo", "TRPO"), [CNet("policy"), CNet("vf"), COpt("vf")], dict(obs_normalizer=Norm() if norm else None))

        return mk

    out = {}
    for mod, cls in (("dqn", "DQN"), ("double_dqn", "DoubleDQN"), ("categorical_dqn", "CategoricalDQN"),
                     ("categorical_double_dqn", "CategoricalDoubleDQN"), ("iqn", "IQN"), ("al", "AL"), ("pal", "PAL"),
                     ("double_pal", "DoublePAL"), ("dpp", "DPP")):
        out[cls] = dqn(mod, cls)
    out["DDPG"] = (ddpg, ("model", "target_model", "actor_optimizer", "critic_optimizer", "policy", "q_function", "target_policy", "target_q_function"))
    out["TD3"] = (td3, ("policy", "q_func1", "q_func2", "target_policy", "target_q_func1", "target_q_func2", "policy_optimizer",
                        "q_func1_optimizer", "q_func2_optimizer"))
    base = ("policy", "q_func1", "q_func2", "target_q_func1", "target_q_func2", "policy_optimizer", "q_func1_optimizer", "q_func2_optimizer")
    out["SoftActorCritic"] = (sac(False), base)
    out["SoftActorCritic[temperature]"] = (sac(True), base + ("temperature_holder", "temperature_optimizer"))
    out["A2C"] = (simple("a2c", "A2C", lambda p: [p.real("gamma"), p.int("n")]), ("model", "optimizer"))
    out["A3C"] = (simple("a3c", "A3C", lambda p: [p.int("t_max"), p.real("gamma")]), ("model", "optimizer", "shared_model"))
    out["ACER"] = (simple("acer", "ACER", lambda p: [p.int("t_max"), p.real("gamma"), CBuf()]), ("model", "optimizer", "shared_model"))
    out["REINFORCE"] = (simple("reinforce", "REINFORCE", lambda p: []), ("model", "optimizer"))
    out["PPO"] = (ppo(False), ("model", "optimizer"))
    out["PPO[normalizer]"] = (ppo(True), ("model", "optimizer", "obs_normalizer"))
    out["TRPO"] = (trpo(False), ("policy", "vf", "vf_optimizer"))
    out["TRPO[normalizer]"] = (trpo(True), ("policy", "vf", "vf_optimizer", "obs_normalizer"))
    return out


def scramble(p, cs):
    """any history of training"""
    for c in cs:
        if "state" in c.f:
            c.f["state"] = p.obj(c.uid + ".trained")


def fields(o):
    return {k: v for k, v in o.f.items()}


def same_field(a, b):
    return a is b or (is_term(a) and is_term(b) and a.eq(b)) or (not is_term(a) and not is_term(b) and type(a) is type(b) and not isinstance(a, (HModel, Model, PyObj)) and a == b)


def u_agent(mk, attrs):
    def run(ip, p):
        setup(ip, p)
        A = mk(ip, p)
        ca = list(comps(p))
        B = mk(ip, p)
        cb = comps(p)[len(ca):]
        scramble(p, ca)
        scramble(p, cb)
        if "shared_model" in attrs:
            # the local model of an asynchronous agent follows the shared one
            A.f["shared_model"].f["state"] = A.f["model"].f["state"]
        want = {}
        for a in attrs:
            if a not in A.f:
                raise Unsupported("component " + a)
            want[a] = list(A.f[a].states())
        sa, fa = [c.states() for c in ca], fields(A)
        ip.call(ip.getattr(A, "save"), ["dir"])
        p.prove(all(x.eq(y) for c, s in zip(ca, sa) for x, y in zip(c.states(), s)), "saving-changes-no-state")
        p.prove(all(same_field(A.f.get(k), v) for k, v in fa.items()), "saving-changes-no-attribute")
        fs().frozen = True
        sb, fb = [(c, c.states()) for c in cb if "state" in c.f], fields(B)
        ip.call(ip.getattr(B, "load"), ["dir"])
        touched = []
        for a in attrs:
            got = B.f[a].states()
            p.prove(len(got) == len(want[a]) and all(x.eq(y) for x, y in zip(got, want[a])), "restored." + a)
            touched += B.f[a].xs if isinstance(B.f[a], CList) else [B.f[a]]
        for c, s in sb:
            if not any(c is x for x in touched):
                p.prove(all(x.eq(y) for x, y in zip(c.states(), s)), "nothing-else-changed")
        p.prove(all(same_field(B.f.get(k), v) for k, v in fb.items()) and set(B.f) == set(fb), "no-attribute-replaced")
        p.prove(all(x.eq(y) for c, s in zip(ca, sa) for x, y in zip(c.states(), s)), "the-saved-agent-unchanged")
        # what was saved stays what it was
        C = mk(ip, p)
        scramble(p, comps(p)[len(ca) + len(cb):])
        scramble(p, ca)
        ip.call(ip.getattr(C, "load"), ["dir"])
        for a in attrs:
            got = C.f[a].states()
            p.prove(len(got) == len(want[a]) and all(x.eq(y) for x, y in zip(got, want[a])), "restored-later." + a)

    return run


def u_snapshot(ip, p):
    setup(ip, p)
    mk, attrs = agents()["DQN"]
    A = mk(ip, p)
    ca = list(comps(p))
    B = mk(ip, p)
    cb = comps(p)[len(ca):]
    scramble(p, ca)
    scramble(p, cb)
    cnt = ("t", "optim_t", "_cumulative_steps")
    for ag in (A, B):
        for k in cnt:
            if k not in ag.f:
                raise Unsupported("counter " + k)
            ag.f[k] = p.int(k)
    want = {a: list(A.f[a].states()) for a in attrs + ("replay_buffer",)}
    n = {k: A.f[k] for k in cnt}
    ip.call(ip.getattr(A, "save_snapshot"), ["dir"])
    scramble(p, ca)
    for k in cnt:
        A.f[k] = p.int("later_" + k)
    fs().frozen = True
    ip.call(ip.getattr(B, "load_snapshot"), ["dir"])
    for a, w in want.items():
        p.prove(all(x.eq(y) for x, y in zip(B.f[a].states(), w)), "restored." + a)
    for k in cnt:
        p.prove_eq(B.f[k], n[k], "restored." + k)
    p.prove_eq(ip.getattr(B, "cumulative_steps"), n["_cumulative_steps"], "restored.cumulative_steps")


def u_nested(ip, p):
    """user classes: every kind of attribute, nested savers"""
    setup(ip, p)
    Inner, Outer = ip.get_class("verif_saving", "Inner"), ip.get_class("verif_saving", "Outer")
    kinds = [p.choose(4) for _ in range(2)]
    wrapA, wrapB = p.choose(2), p.choose(2)

    def build(wrap):
        leaves = []

        def net(nm):
            n = CNet(nm)
            leaves.append(n)
            return n

        def leaf(k, nm):
            if k == 0:
                return net(nm)
            if k == 1:
                n = net(nm)
                return Wrapped(n, ("torch.nn.DataParallel", "torch.nn.parallel.DistributedDataParallel")[wrap])
            if k == 2:
                return None
            inner = ip.call(Inner, [net(nm + ".a"), net(nm + ".b"), skip(nm + ".c")])
            return ip.call(Inner, [inner, net(nm + ".b2"), skip(nm + ".c2")])

        other = []

        def skip(nm):
            n = CNet(nm)
            other.append(n)
            return n

        o = ip.call(Outer, [leaf(kinds[0], "x"), leaf(kinds[1], "y"), net("z"), skip("w")])
        for n in leaves + other:
            n.f["state"] = p.obj(n.uid)
        return o, leaves, other

    A, la, oa = build(wrapA)
    B, lb, ob = build(wrapB)
    want = [n.f["state"] for n in la]
    keep = [n.f["state"] for n in ob]
    ip.call(ip.getattr(A, "save"), ["dir"])
    p.prove(all(n.f["state"].eq(w) for n, w in zip(la, want)), "saving-changes-no-state")
    fs().frozen = True
    ip.call(ip.getattr(B, "load"), ["dir"])
    for n, w in zip(lb, want):
        p.prove(n.f["state"].eq(w), "every-saved-attribute-restored")
    for n, w in zip(ob, keep):
        p.prove(n.f["state"].eq(w), "attributes-not-listed-are-left-alone")


def u_cycle(ip, p):
    """savers that contain each other are refused, not followed forever"""
    setup(ip, p)
    Inner = ip.get_class("verif_saving", "Inner")
    a = ip.call(Inner, [CNet("n"), CNet("m"), None])
    b = ip.call(Inner, [a, CNet("k"), None])
    a.f["b"] = b
    try:
        ip.call(ip.getattr(a, "save"), ["dir"])
        p.prove(False, "a-cycle-is-refused")
    except PyExc as e:
        p.prove(e.value.cls.name == "AssertionError", "a-cycle-is-refused")


def u_twice(ip, p):
    """the same nested saver in two attributes is no cycle"""
    setup(ip, p)
    Inner, Outer = ip.get_class("verif_saving", "Inner"), ip.get_class("verif_saving", "Outer")
    a = ip.call(Inner, [CNet("n"), CNet("m"), None])
    o = ip.call(Outer, [a, a, CNet("z"), None])
    ip.call(ip.getattr(o, "save"), ["dir"])
    want = [c.states() for c in (a.f["a"], a.f["b"], o.f["z"])]
    scramble(p, comps(p))
    ip.call(ip.getattr(o, "load"), ["dir"])
    for c, w in zip((a.f["a"], a.f["b"], o.f["z"]), want):
        p.prove(c.states()[0].eq(w[0]), "every-saved-attribute-restored")


# ---- replay buffers ---------------------------------------------------------------
class Mem(HModel):
    """a memory with arbitrary contents"""

    ghost = True

    def __init__(self, c, cls="RandomAccessQueue"):
        HModel.__init__(self, "memory")
        self.c, self.cls = c, cls

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") in (self.cls, "object")

    def length(self, ip):
        return z3.Function("length", Obj, I)(self.c)


def snapshot(ip, x):
    if isinstance(x, Mem):
        return ("mem", x.c, x.cls)
    if isinstance(x, tuple):
        return ("tuple", [snapshot(ip, y) for y in x])
    if isinstance(x, PyList) and isinstance(x.f["data"], list):
        return ("list", [snapshot(ip, y) for y in x.f["data"]])
    raise Unsupported("pickle of %r" % (x,))


def restore(ip, s):
    if s[0] == "mem":
        return Mem(s[1], s[2])
    if s[0] == "list":
        return PyList([restore(ip, y) for y in s[1]], "loaded")
    return tuple(restore(ip, y) for y in s[1])


def u_buffer(mod, cls, names):
    def run(ip, p):
        setup(ip, p)
        cap = p.int("capacity")
        p.assume(cap >= 1)
        A = ip.call(ip.get_class(mod, cls), [cap])
        B = ip.call(ip.get_class(mod, cls), [cap])
        for o in (A, B):
            for nm in names:
                if nm not in o.f:
                    raise Unsupported("memory " + nm)
                old = o.f[nm]
                o.f[nm] = Mem(p.obj(nm), getattr(getattr(old, "cls", None), "name", "RandomAccessQueue"))
        want = {nm: A.f[nm].c for nm in names}
        fb = {k: v for k, v in B.f.items() if k not in names}
        fs().dirs.add("dir")
        ip.call(ip.getattr(A, "save"), ["dir/buffer"])
        for nm in names:
            p.prove(isinstance(A.f[nm], Mem) and A.f[nm].c.eq(want[nm]), "saving-changes-nothing")
        fs().frozen = True
        ip.call(ip.getattr(B, "load"), ["dir/buffer"])
        for nm in names:
            p.prove(isinstance(B.f[nm], Mem) and B.f[nm].c.eq(want[nm]), "contents-restored." + nm)
            p.prove(B.f[nm] is not A.f[nm], "memories-not-shared")
        p.prove(all(same_field(B.f.get(k), v) for k, v in fb.items()), "nothing-else-changed")

    return run


def units(tier):
    us = []

    def add(nm, run):
        us.append(Unit(nm, run, ext=ext21()))

    for nm, (mk, attrs) in agents().items():
        add(nm, u_agent(mk, attrs))
    add("DQN.save_snapshot", u_snapshot)
    add("AttributeSavingMixin[nested]", u_nested)
    add("AttributeSavingMixin[cycle]", u_cycle)
    add("AttributeSavingMixin[shared]", u_twice)
    rb = "pfrl.replay_buffers."
    add("ReplayBuffer", u_buffer(rb + "replay_buffer", "ReplayBuffer", ["memory"]))
    add("PrioritizedReplayBuffer", u_buffer(rb + "prioritized", "PrioritizedReplayBuffer", ["memory"]))
    add("EpisodicReplayBuffer", u_buffer(rb + "episodic", "EpisodicReplayBuffer", ["memory", "episodic_memory"]))
    add("PrioritizedEpisodicReplayBuffer", u_buffer(rb + "prioritized_episodic", "PrioritizedEpisodicReplayBuffer", ["memory", "episodic_memory"]))
    return us
