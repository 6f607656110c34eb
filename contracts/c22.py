"""C22: copying parameters between networks.

A network's state dictionary has an arbitrary number of entries; the pointwise rule
follows one arbitrary entry j of arbitrary type and values (an iteration that touches
only its own entry).  Module.state_dict and load_state_dict are trusted contracts."""
import z3

from pydv import seqs
from pydv.tensor import T, fresh_t, np_ext, torch_ext
from pydv.unit import PW, Unit
from pydv.interp import ExtVal
from pydv.values import Builtin, HModel, Model, P, PyDict, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num, real

I = z3.IntSort()
MOD = "pfrl.utils.copy_param"
TRUSTED = [
    "Module.state_dict() maps every parameter and buffer name to the live tensor; load_state_dict copies every entry in place",
    "Module.parameters() yields the parameters in the same order for networks of one architecture",
]
ASSUMPTIONS = [
    "source and target have the same architecture and entries do not share storage",
    "real arithmetic",
]
BOUNDED = ["networks with batch normalisation, noisy layers, normalisers and recurrent layers, and the agents' own synchronisations, are replayed"]

FLOATS = ("float16", "float32", "float64", "bfloat16")
OTHERS = ("int64", "int32", "bool", "uint8")


class Ent(T):
    """the live tensor of one entry"""

    def __init__(self, p, name, m, dt, label):
        f = p.fn(name, I, z3.RealSort())
        T.__init__(self, (m,), lambda i: f(num(i)), "real", label=label)
        self.dt = dt
        self.value0 = f

    def p_dtype(self, ip):
        return ip.unit.ext["torch." + self.dt]

    def getattr(self, ip, name):
        if name == "dtype":
            return self.p_dtype(ip)
        if name == "is_floating_point":
            return Builtin(name, lambda ip: self.dt in FLOATS)
        return T.getattr(self, ip, name)


class Key(Model):
    def __init__(self, i):
        self.i = i


class SD(HModel):
    def __init__(self, net, label):
        HModel.__init__(self, label)
        self.net = net
        self.f["mine"] = net.mine

    def at(self, i):
        p = P()
        p.instantiate(i)
        if p.decide(fold(num(i) == num(self.net.j))):
            return self.f["mine"]
        return Ent(p, "other", p.int("m"), self.net.mine.dt, "other")

    def keys(self):
        return SymSeq(self.net.n, Key)

    def m_items(self, ip):
        return SymSeq(self.net.n, lambda i: (Key(i), self.at(i)))

    def m_keys(self, ip):
        return self.keys()

    def m_values(self, ip):
        return SymSeq(self.net.n, self.at)

    def iter(self, ip):
        return self.keys()

    def length(self, ip):
        return self.net.n

    def getitem(self, ip, k):
        if not isinstance(k, Key):
            raise Unsupported("key of a state dictionary")
        return self.at(k.i)

    def setitem(self, ip, k, v):
        if not isinstance(k, Key):
            raise Unsupported("key of a state dictionary")
        if P().decide(fold(num(k.i) == num(self.net.j))):
            self.set("mine", v)

    def truth(self, ip):
        return fold(num(self.net.n) > 0)


class Net(Model):
    def __init__(self, p, name, n, j, m, dt):
        self.name, self.n, self.j = name, n, j
        self.mine = Ent(p, name, m, dt, name + ".entry")
        self.grad = None
        self.loads = 0

    def m_state_dict(self, ip, *a, **k):
        return SD(self, ip.alloc_label("state_dict"))

    def m_load_state_dict(self, ip, sd, strict=True):
        if not isinstance(sd, SD):
            raise Unsupported("load_state_dict of %r" % (sd,))
        v = sd.f["mine"]
        if not isinstance(v, T):
            raise Unsupported("entry %r" % (v,))
        self.mine.m_copy_(ip, v)


def ext():
    e = np_ext()
    e.update(torch_ext())
    for d in FLOATS + OTHERS:
        e["torch." + d] = ExtVal("torch." + d)
        e["torch." + d + ".is_floating_point"] = d in FLOATS
    return e


def nets(p):
    n, j, m = p.int("n"), p.int("j"), p.int("m")
    p.assume(z3.And(n >= 1, j >= 0, j < n, m >= 0))
    p.ghost["pw"] = PW(j, n)
    dts = FLOATS + OTHERS
    dt = dts[p.choose(len(dts))]
    return Net(p, "target", n, j, m, dt), Net(p, "source", n, j, m, dt), dt, m


def check(p, t, s, m, dt, soft, tau, name):
    x = p.int("x")
    p.assume(z3.And(x >= 0, x < m))
    a, b = t.mine.value0(x), s.mine.value0(x)
    want = (1 - tau) * a + tau * b if soft and dt in FLOATS else b
    p.prove(fold(real(t.mine.at(x)) == want), name + (".weighted-average" if soft and dt in FLOATS else ".equals-the-source"))
    p.prove(fold(real(s.mine.at(x)) == b), name + ".source-unchanged")
    p.prove_eq(t.mine.shape[0], m, name + ".shape-kept")


def u_copy(ip, p):
    t, s, dt, m = nets(p)
    ip.call(ip.get_func(MOD, "copy_param"), [], dict(target_link=t, source_link=s))
    check(p, t, s, m, dt, False, None, "copy")


def u_soft(ip, p):
    t, s, dt, m = nets(p)
    tau = p.real("tau")
    ip.call(ip.get_func(MOD, "soft_copy_param"), [], dict(target_link=t, source_link=s, tau=tau))
    check(p, t, s, m, dt, True, tau, "soft-copy")


def u_sync(method):
    def run(ip, p):
        t, s, dt, m = nets(p)
        tau = p.real("tau")
        ip.call(ip.get_func(MOD, "synchronize_parameters"), [], dict(src=s, dst=t, method=method, tau=tau))
        check(p, t, s, m, dt, method == "soft", tau, "synchronize." + method)

    return run


# ---- gradients ------------------------------------------------------------------
class Par(HModel):
    """one parameter and its gradient"""

    def __init__(self, m, grad, label):
        HModel.__init__(self, label)
        self.m = m
        self.f["grad"] = grad

    def getattr(self, ip, name):
        if name == "grad":
            return self.f["grad"]
        if name == "shape":
            return (self.m,)
        if name == "size":
            return Builtin("size", lambda ip, d=None: (self.m,) if d is None else self.m)
        raise Unsupported("attribute %s of a parameter" % name)

    def setattr(self, ip, name, v):
        if name != "grad":
            raise Unsupported("setting %s of a parameter" % name)
        self.set("grad", v)


class PNet(Model):
    def __init__(self, n, j, mine, m):
        self.n, self.j, self.mine, self.m = n, j, mine, m

    def at(self, i):
        p = P()
        if p.decide(fold(num(i) == num(self.j))):
            return self.mine
        m = z3.Function("msize", I, I)(num(i))
        g = None if p.decide(z3.Function("nograd", I, z3.BoolSort())(num(i))) else fresh_t(p, "g", (m,))
        return Par(m, g, p.name("other"))

    def m_parameters(self, ip):
        return SymSeq(self.n, self.at)


def u_grad(ip, p):
    n, j, m = p.int("n"), p.int("j"), p.int("m")
    p.assume(z3.And(n >= 1, j >= 0, j < n, m >= 0))
    p.ghost["pw"] = PW(j, n)

    def grad(name):
        return None if p.choose(2) else fresh_t(p, name, (m,))

    gs, gt = grad("gs"), grad("gt")
    s0 = gs.snap() if gs is not None else None
    src, tgt = Par(m, gs, "src"), Par(m, gt, "tgt")
    ip.call(ip.get_func(MOD, "copy_grad"), [], dict(target_link=PNet(n, j, tgt, m), source_link=PNet(n, j, src, m)))
    r = tgt.f["grad"]
    p.prove(src.f["grad"] is gs, "copy-grad.source-unchanged")
    if gs is None:
        p.prove(r is None, "copy-grad.no-gradient-copied-as-none")
        return
    p.prove(isinstance(r, T), "copy-grad.gradient-copied")
    if not isinstance(r, T):
        return
    x = p.int("x")
    p.assume(z3.And(x >= 0, x < m))
    p.prove(fold(real(r.at(x)) == real(s0(x))), "copy-grad.gradient-copied")
    p.prove(fold(real(gs.at(x)) == real(s0(x))), "copy-grad.source-unchanged")
    r.m_mul_(ip, 2)
    p.prove(fold(real(gs.at(x)) == real(s0(x))), "copy-grad.not-aliased")


# ---- which networks the agents synchronise ------------------------------------------
class N(Model):
    def __init__(self, name):
        self.name = name


AGENTS = {
    "dqn.DQN": [("model", "target_model", None)],
    "ddpg.DDPG": [("model", "target_model", None)],
    "td3.TD3": [("policy", "target_policy", "soft"), ("q_func1", "target_q_func1", "soft"), ("q_func2", "target_q_func2", "soft")],
    "soft_actor_critic.SoftActorCritic": [("q_func1", "target_q_func1", "soft"), ("q_func2", "target_q_func2", "soft")],
}


def log_calls(ip, names):
    log = []

    def mk(nm):
        def c(ip, f, args, kwargs):
            vals = dict(zip([a.arg for a in f.node.args.args], args))
            vals.update(kwargs)
            log.append((nm, vals))

        return c

    for nm in names:
        ip.contracts[MOD + "." + nm] = mk(nm)
    return log


def u_agent(key):
    mod, cls = key.split(".")

    def run(ip, p):
        log = log_calls(ip, ["synchronize_parameters"])
        o = PyObj(ip.get_class("pfrl.agents." + mod, cls), "agent")
        tau = p.real("tau")
        method = ("hard", "soft")[p.choose(2)]
        nets_ = {}
        for s, d, m in AGENTS[key]:
            nets_[s], nets_[d] = N(s), N(d)
        o.f.update(nets_)
        o.f.update(soft_update_tau=tau, target_update_method=method)
        ip.call(ip.getattr(o, "sync_target_network"), [])
        got = sorted((v["src"].name, v["dst"].name, v["method"]) for _, v in log)
        want = sorted((s, d, m or method) for s, d, m in AGENTS[key])
        p.prove(got == want, "every-target-synchronised-once-from-its-own-source")
        for _, v in log:
            if v["method"] == "soft":
                p.prove_eq(v.get("tau"), tau, "configured-coefficient")
        p.prove(all(o.f[k] is v for k, v in nets_.items()), "networks-not-replaced")

    return run


def u_a3c(ip, p):
    log = log_calls(ip, ["copy_param", "soft_copy_param", "copy_grad"])
    o = PyObj(ip.get_class("pfrl.agents.a3c", "A3C"), "agent")
    o.f.update(model=N("model"), shared_model=N("shared"))
    ip.call(ip.getattr(o, "sync_parameters"), [])
    ok = len(log) == 1 and log[0][0] == "copy_param"
    p.prove(ok and log[0][1]["target_link"].name == "model" and log[0][1]["source_link"].name == "shared", "local-copy-from-shared")


def u_acer(ip, p):
    log = log_calls(ip, ["copy_param", "soft_copy_param", "copy_grad"])
    o = PyObj(ip.get_class("pfrl.agents.acer", "ACER"), "agent")
    a = p.real("alpha")
    o.f.update(model=N("model"), shared_model=N("shared"), shared_average_model=N("average"), trust_region_alpha=a)
    ip.call(ip.getattr(o, "sync_parameters"), [])
    ok = [x[0] for x in log] == ["copy_param", "soft_copy_param"]
    p.prove(ok, "local-copy-then-average")
    if ok:
        p.prove(log[0][1]["target_link"].name == "model" and log[0][1]["source_link"].name == "shared", "local-copy-from-shared")
        p.prove(log[1][1]["target_link"].name == "average" and log[1][1]["source_link"].name in ("model", "shared"), "average-follows-the-model")
        p.prove_eq(log[1][1]["tau"], fold(1 - a), "average-coefficient")


def units(tier):
    e = ext()
    us = [
        Unit("copy_param", u_copy, ext=e),
        Unit("soft_copy_param", u_soft, ext=e),
        Unit("synchronize_parameters[hard]", u_sync("hard"), ext=e),
        Unit("synchronize_parameters[soft]", u_sync("soft"), ext=e),
        Unit("copy_grad", u_grad, ext=e),
        Unit("A3C.sync_parameters", u_a3c, ext=e),
        Unit("ACER.sync_parameters", u_acer, ext=e),
    ]
    for k in AGENTS:
        us.append(Unit(k.split(".")[1] + ".sync_target_network", u_agent(k), ext=e))
    return us
