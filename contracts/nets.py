"""Contracts of neural networks, distributions and optimisers, and a builder
that runs the real agent constructors on them."""
import z3

from pydv import seqs
from pydv.interp import exc
from pydv.tensor import T, elementwise, fresh_t, np_ext, torch_ext, zmin
from pydv.values import (
    Builtin, HModel, Model, Opaque, P, PyDict, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num, real,
)

R, I = z3.RealSort(), z3.IntSort()


class Tok(Model):
    """a batch of observations (or recurrent states) as a whole"""

    def __init__(self, name, n=None):
        self.name = name
        self.n = n

    def __repr__(self):
        return "<%s>" % self.name

    def p_shape(self, ip):
        if self.n is None:
            raise Unsupported("shape of " + self.name)
        return (self.n,)

    def length(self, ip):
        return self.n

    def isinstance_(self, ip, t):
        return False


def tensor_id(p, t):
    """identity of a tensor's contents: provably equal tensors share it"""
    if isinstance(t, Tok):
        return t.name
    if not isinstance(t, T):
        raise Unsupported("network input %r" % (t,))
    reg = p.ghost.setdefault("tensors", [])
    s = t.snap()
    for name, shape, s2 in reg:
        if len(shape) != len(t.shape) or not all(p.entails(fold(num(a) == num(b))) for a, b in zip(shape, t.shape)):
            continue

        def same():
            ix = []
            for d in shape:
                i = p.int("ix")
                p.assume(z3.And(i >= 0, i < num(d)))
                ix.append(i)
            a, b = s(*ix), s2(*ix)
            if is_term(a) and is_term(b) and a.sort() != b.sort():
                a, b = real(a), real(b)
            return p.entails(fold(num(a) == num(b)))

        if p.all_cases(same):
            return name
    name = "x%d" % len(reg)
    reg.append((name, t.shape, s))
    return name


def grad_deps(net, *ins):
    d = set() if P().ghost.get("nograd") else ({net.uid} if net.f["rg"] else set())
    for t in ins:
        if isinstance(t, T):
            d |= set(t.deps)
    return frozenset(d) if not P().ghost.get("nograd") else frozenset()


class Net(HModel):
    """torch.nn.Module: a function of its inputs and of its own parameters"""

    ghost = True

    def __init__(self, name, out, training=None, src=None):
        HModel.__init__(self, "net:" + name)
        self.name = name
        self.out = out
        p = P()
        self.f["training"] = p.bool(name + ".training") if training is None else training
        self.f["rg"] = True
        self.src = src
        self.calls = []
        self.fns = {}

    def fn(self, key, *sorts):
        if key not in self.fns:
            self.fns[key] = P().fn("%s[%s]" % (self.name, key), *sorts)
        return self.fns[key]

    def p_training(self, ip):
        return self.f["training"]

    def m_eval(self, ip):
        self.set("training", False)
        return self

    def m_train(self, ip, mode=True):
        self.set("training", mode)
        return self

    def m_modules(self, ip):
        from pydv.interp import IterVal

        return IterVal([self])

    def setattr(self, ip, name, v):
        if name != "training":
            raise Unsupported("attribute %s of a network is set" % name)
        self.set("training", v)

    def m_requires_grad_(self, ip, flag=True):
        self.set("rg", flag)
        return self

    def m_to(self, ip, d):
        return self

    def m_cpu(self, ip):
        return self

    def m_apply(self, ip, f):
        return self

    def m_parameters(self, ip):
        return Opaque("parameters of " + self.uid)

    def m_share_memory(self, ip):
        return self

    def deepcopy(self, ip):
        n = Net(self.name + "'", self.out, self.f["training"], src=self)
        n.f["rg"] = self.f["rg"]
        return n

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") in ("torch.nn.Module",)

    def m___call__(self, ip, *a):
        r = self.out(ip, self, *a)
        return r


class ModuleList(HModel):
    ghost = True

    def __init__(self, xs):
        HModel.__init__(self, "modulelist")
        self.xs = list(xs)

    def iter(self, ip):
        return list(self.xs)

    def length(self, ip):
        return len(self.xs)

    def getitem(self, ip, i):
        return self.xs[i]

    def deepcopy(self, ip):
        return ModuleList([x.deepcopy(ip) for x in self.xs])

    def each(self, ip, m, *a):
        for x in self.xs:
            getattr(x, m)(ip, *a)
        return self

    def m_eval(self, ip):
        return self.each(ip, "m_eval")

    def m_train(self, ip, mode=True):
        return self.each(ip, "m_train", mode)

    def m_to(self, ip, d):
        return self

    def m_requires_grad_(self, ip, f=True):
        return self.each(ip, "m_requires_grad_", f)

    def isinstance_(self, ip, t):
        return getattr(t, "name", "") in ("torch.nn.Module",)


def deepcopy(ip, x):
    if hasattr(x, "deepcopy"):
        return x.deepcopy(ip)
    raise Unsupported("deepcopy of %r" % (x,))


class Optim(HModel):
    """optimizer of one network: which losses its gradient holds at step()"""

    ghost = True

    def __init__(self, net):
        HModel.__init__(self, "optimizer:" + net.name)
        self.net = net
        self.f["from"] = None       # None: stale gradients
        self.f["steps"] = []

    def m_zero_grad(self, ip, *a, **k):
        self.set("from", len(P().ghost.setdefault("backward", [])))

    def m_step(self, ip, *a, **k):
        p = P()
        p.prove(self.f["from"] is not None, "gradients-cleared-before-step")
        bw = p.ghost.setdefault("backward", [])[(self.f["from"] or 0):]
        self.set("steps", self.f["steps"] + [[t for t in bw if self.net.uid in t.deps]])
        self.set("from", None)


class ScalarParam(Model):
    pass


class Record(Model):
    """statistics buffers: contents are not part of any contract here"""

    def m_append(self, ip, x):
        return None

    def m_extend(self, ip, xs):
        return None

    def m_clear(self, ip):
        return None

    def length(self, ip):
        return P().int("len")


class Dist(Model):
    """torch distribution produced by a policy network"""

    def __init__(self, net, x, B, D, discrete=False):
        self.net, self.x, self.B, self.D = net, x, B, D

    def _draw(self, kind, grad):
        p = P()
        k = len(p.ghost.setdefault("draws", []))
        t = fresh_t(p, "%s.%s%d" % (self.net.name, kind, k), (self.B, self.D),
                    deps=grad_deps(self.net) if grad else ())
        if not grad:
            t.deps = frozenset()
        p.ghost["draws"].append((self.net, self.x, kind, t))
        return t

    def m_sample(self, ip):
        return self._draw("sample", False)

    def m_rsample(self, ip):
        return self._draw("rsample", True)

    def m_log_prob(self, ip, a):
        p = P()
        key = "logp(%s,%s)" % (tensor_id(p, self.x), tensor_id(p, a))
        f = self.net.fn(key, I, R)
        t = T((self.B,), lambda i: f(num(i)), deps=grad_deps(self.net, a))
        p.ghost.setdefault("logps", []).append((self.net, self.x, a, t))
        return t

    def m_entropy(self, ip):
        f = self.net.fn("entropy", I, R)
        return T((self.B,), lambda i: f(num(i)), deps=grad_deps(self.net))


def note(net, key, t, grad):
    """networks are recorded with the function symbol of each call"""
    P().ghost.setdefault("netcalls", []).append((net, key, t))


def q_discrete(B, A):
    def out(ip, net, x, rs=None):
        p = P()
        key = tensor_id(p, x) + ("" if rs is None else "|" + tensor_id(p, rs))
        f = net.fn(key, I, I, R)
        t = T((B, A), lambda b, a: f(num(b), num(a)), deps=grad_deps(net, x))
        return ip.call(ip.get_class("pfrl.action_value", "DiscreteActionValue"), [t])

    return out


def q_distributional(B, A, z):
    def out(ip, net, x, rs=None):
        p = P()
        key = tensor_id(p, x) + ("" if rs is None else "|" + tensor_id(p, rs))
        f = net.fn(key, I, I, I, R)
        t = T((B, A, z.shape[0]), lambda b, a, n: f(num(b), num(a), num(n)), deps=grad_deps(net, x))
        return ip.call(ip.get_class("pfrl.action_value", "DistributionalDiscreteActionValue"), [t, z])

    return out


def q_quantile(B, A):
    def out(ip, net, x, rs=None):
        p = P()
        key = tensor_id(p, x) + ("" if rs is None else "|" + tensor_id(p, rs))
        deps = grad_deps(net, x)

        def tau2av(ip, taus):
            k2 = key + "@" + tensor_id(p, taus)
            f = net.fn(k2, I, I, I, R)
            p.ghost.setdefault("taus", []).append((net, key, taus))
            t = T((B, taus.shape[1], A), lambda b, n, a: f(num(b), num(n), num(a)), deps=deps)
            return ip.call(ip.get_class("pfrl.action_value", "QuantileDiscreteActionValue"), [t])

        return Builtin("tau2av", tau2av)

    return out


def q_pair(B):
    """state-action Q-function: (state, action) -> (B, 1)"""

    def out(ip, net, xa):
        p = P()
        x, a = xa
        key = tensor_id(p, x) + "," + tensor_id(p, a)
        f = net.fn(key, I, R)
        return T((B, 1), lambda b, z: f(num(b)), deps=grad_deps(net, x, a))

    return out


def policy(B, D):
    def out(ip, net, x):
        return Dist(net, x, B, D)

    return out


class Buffer(HModel):
    """replay buffer seen by an agent (its own contracts are C01-C06)"""

    ghost = True

    def __init__(self, prioritized=False, episodic=False):
        HModel.__init__(self, "replay_buffer")
        self.prioritized, self.episodic = prioritized, episodic
        self.f["errors"] = []

    def p_capacity(self, ip):
        return None

    def isinstance_(self, ip, t):
        nm = getattr(t, "name", "")
        if nm == "PrioritizedReplayBuffer":
            return self.prioritized
        if nm == "AbstractEpisodicReplayBuffer":
            return self.episodic
        return nm in ("AbstractReplayBuffer", "ReplayBuffer")

    def m_update_errors(self, ip, errors):
        self.set("errors", self.f["errors"] + [ip.iterate(errors)])


def agent_ext():
    ext = torch_ext()
    for k, v in np_ext().items():
        ext.setdefault(k, v)
    ext["copy.deepcopy"] = Builtin("deepcopy", deepcopy)
    ext["torch.device"] = Builtin("device", lambda ip, *a: Opaque("device"))
    ext["torch.nn.ModuleList"] = Builtin("ModuleList", lambda ip, xs: ModuleList(ip.collect(ip.iterate(xs)) if not isinstance(ip.iterate(xs), list) else ip.iterate(xs)))
    ext["collections.deque"] = Builtin("deque", lambda ip, *a, **k: Record())
    return ext


def replay_updater(ip, cls, args, kw):
    o = PyObj(cls, "replay_updater")
    for k, v in kw.items():
        o.f[k] = v
    return o


def stubs():
    def clip(ip, f, args, kw):
        return None

    return {
        "pfrl.replay_buffer.ReplayUpdater": replay_updater,
        "pfrl.utils.clip_l2_grad_norm.clip_l2_grad_norm_": clip,
    }
