"""Ghost protocol of the agent-environment interaction: an environment, an
agent and hooks that accept any sequence of calls the protocol allows and
prove at every call that it is one."""
import z3

from pydv import seqs
from pydv.interp import exc
from pydv.unit import Unit
from pydv.values import (
    Builtin, HModel, Model, Obj, Opaque, P, PyDict, PyList, SymSeq, Text, Unsupported, fold, is_term, num, real,
)

R, I = z3.RealSort(), z3.IntSort()


def b_(x):
    return x if is_term(x) else z3.BoolVal(bool(x))


def Not(x):
    return fold(z3.Not(b_(x)))


class Logger(Model):
    def truth(self, ip):
        return True

    def getattr(self, ip, name):
        return Builtin("logger." + name, lambda ip, *a, **k: None)


class Proto(HModel):
    """what has happened so far"""

    ghost = True

    def __init__(self, max_len, mode="train"):
        HModel.__init__(self, "protocol")
        p = P()
        self.max_len = max_len
        self.mode = mode
        self.f.update(
            obs=p.obj("no_obs"), act=p.obj("no_act"), r=z3.RealVal(0), ret=z3.RealVal(0),
            nsteps=0, elen=0, ended=True, pending=False, acted=False, done=False, needs=False,
            observed=0, resets=0)
        self.faults = False
        self.raised = []
        self.saves = []
        self.on_observe = None
        self.on_step = None

    def fault(self, where):
        """any call into user code may raise"""
        if not self.faults:
            return
        k = P().choose(3)
        if k:
            e = exc("KeyboardInterrupt" if k == 2 else "RuntimeError", where)
            self.raised.append((e, where))
            raise e

    def limit(self, elen):
        return False if self.max_len is None else fold(num(elen) == num(self.max_len))


class EnvM(Model):
    def __init__(self, g):
        self.g = g

    def truth(self, ip):
        return True

    def isinstance_(self, ip, t):
        return False

    def m_reset(self, ip, *a, **k):
        g, p = self.g, P()
        if a or k:
            raise Unsupported("arguments of env.reset")
        p.prove(b_(g.f["ended"]), "reset-only-when-the-episode-ended")
        p.prove(Not(g.f["pending"]), "every-step-observed-before-the-reset")
        g.fault("reset")
        g.set("obs", p.obj("obs"))
        g.set("elen", 0)
        g.set("ret", z3.RealVal(0))
        g.set("ended", False)
        g.set("acted", False)
        g.set("resets", seqs.add(g.f["resets"], 1))
        return g.f["obs"]

    def m_step(self, ip, a):
        g, p = self.g, P()
        p.prove(Not(g.f["ended"]), "no-step-in-an-ended-episode")
        p.prove(Not(g.f["pending"]), "every-step-observed-before-the-next")
        p.prove(b_(g.f["acted"]), "the-agent-chose-this-action")
        p.prove_eq(a, g.f["act"], "action-of-the-latest-observation")
        g.fault("step")
        o, r, d, nr = p.obj("obs"), p.real("reward"), p.bool("done"), p.bool("needs_reset")
        g.set("obs", o)
        g.set("r", r)
        g.set("done", d)
        g.set("needs", nr)
        g.set("elen", seqs.add(g.f["elen"], 1))
        g.set("nsteps", seqs.add(g.f["nsteps"], 1))
        g.set("ret", fold(real(g.f["ret"]) + r))
        g.set("pending", True)
        g.set("acted", False)
        if g.on_step:
            g.on_step(ip)
        return (o, r, d, Info(nr))

    def m_close(self, ip):
        return None


class Info(Model):
    """info dict: needs_reset may be absent, which counts as False"""

    def __init__(self, needs):
        self.needs = needs

    def m_get(self, ip, k, d=None):
        if k == "needs_reset":
            if d is not False and d is not None:
                raise Unsupported("default of needs_reset")
            return self.needs
        raise Unsupported("info." + str(k))

    def contains(self, ip, k):
        if k == "needs_reset":
            return P().bool("has_needs_reset")
        raise Unsupported("info." + str(k))


class AgentM(HModel):
    ghost = True

    def __init__(self, g, has_t=True, training=True):
        HModel.__init__(self, "agent")
        self.g = g
        self.has_t = has_t
        self.f["t"] = P().int("agent_t")
        self.f["training"] = training

    def truth(self, ip):
        return True

    def getattr(self, ip, name):
        if name == "t":
            if not self.has_t:
                raise exc("AttributeError", "t")
            return self.f["t"]
        if name == "training":
            return self.f["training"]
        return Model.getattr(self, ip, name)

    def setattr(self, ip, name, v):
        if name in ("t", "training"):
            self.set(name, v)
            return
        Model.setattr(self, ip, name, v)

    def check_mode(self):
        P().prove_eq(self.f["training"], self.g.mode == "train", "agent-in-%s-mode" % self.g.mode)

    def m_act(self, ip, obs):
        g, p = self.g, P()
        self.check_mode()
        p.prove(Not(g.f["ended"]), "act-within-an-episode")
        p.prove(Not(g.f["pending"]), "observed-before-acting-again")
        p.prove_eq(obs, g.f["obs"], "acts-on-the-latest-observation")
        g.fault("act")
        a = p.obj("action")
        g.set("act", a)
        g.set("acted", True)
        return a

    def m_observe(self, ip, obs, reward, done, reset):
        g, p = self.g, P()
        self.check_mode()
        p.prove(b_(g.f["pending"]), "each-step-observed-once")
        p.prove_eq(obs, g.f["obs"], "observed-observation")
        p.prove_eq(reward, g.f["r"], "observed-reward")
        p.prove_eq(done, g.f["done"], "observed-done")
        g.fault("observe")
        if g.on_observe:
            g.on_observe(ip, done, reset)
        else:
            want = fold(z3.Or(b_(g.f["needs"]), b_(g.limit(g.f["elen"]))))
            p.prove_eq(reset, want, "reset-exactly-on-request-or-length-limit")
        g.set("ended", fold(z3.Or(b_(g.f["done"]), b_(g.f["needs"]), b_(g.limit(g.f["elen"])))))
        g.set("pending", False)
        g.set("observed", seqs.add(g.f["observed"], 1))

    def m_get_statistics(self, ip):
        return PyList([], "statistics")

    def m_save(self, ip, path):
        self.g.saves.append(path)

    def m_eval_mode(self, ip):
        raise Unsupported("eval_mode")




class Hook(Model):
    def __init__(self, g, name, offset, env, agent):
        self.g, self.name, self.offset, self.env, self.agent = g, name, offset, env, agent
        g.f[name] = 0

    def m___call__(self, ip, env, agent, t):
        g, p = self.g, P()
        p.prove(env is self.env and agent is self.agent, "hook-gets-env-and-agent")
        p.prove(fold(num(t) == num(self.offset) + num(g.f["nsteps"])), "hook-gets-the-step-number")
        p.prove(fold(num(g.f[self.name]) + 1 == num(g.f["nsteps"])), "hook-called-once-per-step")
        g.fault("hook")
        g.set(self.name, seqs.add(g.f[self.name], 1))


class LoopUnit(Unit):
    """invariants of interaction loops, in terms of the protocol state only"""

    bmc_bound = 3
    peel_n = 0
    time_limit = 110

    def verify(self):
        r = Unit.verify(self)
        if r["verdict"] == "UNDECIDED":
            # invariants that only hold after the first turn
            self.peel_n = 1
            r2 = Unit.verify(self)
            if r2["verdict"] != "UNDECIDED":
                return r2
        return r

    def peel(self, key, ip, fr):
        return self.peel_n

    def loop_anchors(self, ctx, k, loc):
        p = P()
        g = p.ghost.get("proto")
        if g is None or loc[0] == g.uid:
            return {}
        iv = ctx.init.get(loc)
        o = p.objs.get(loc[0])
        out = {}
        if isinstance(o, HModel) and getattr(o, "ghost", False):
            return {}
        if isinstance(iv, bool) or (is_term(iv) and z3.is_bool(iv)):
            out["ended"] = lambda: g.f["ended"]
            out["false"] = lambda: z3.BoolVal(False)
        elif isinstance(iv, int) or (is_term(iv) and z3.is_int(iv)):
            out["elen"] = lambda: g.f["elen"]
            out["t"] = lambda: fold(num(p.ghost["offset"]) + num(g.f["nsteps"]))
            out["n"] = lambda: g.f["nsteps"]
        if isinstance(iv, (int, float)) and not isinstance(iv, bool) or (is_term(iv) and z3.is_real(iv)):
            out["ret"] = lambda: g.f["ret"]
        elif is_term(iv) and iv.sort() == Obj:
            out["obs"] = lambda: g.f["obs"]
        return out

    def loop_preds(self, ctx, k):
        p = P()
        g = p.ghost.get("proto")
        if g is None or (g.uid, "nsteps") not in ctx.init:
            return {}
        f = g.f
        out = {
            "not-ended": lambda: Not(f["ended"]),
            "not-pending": lambda: Not(f["pending"]),
            "not-acted": lambda: Not(f["acted"]),
            "steps>=0": lambda: fold(num(f["nsteps"]) >= 0),
            "elen>=0": lambda: fold(num(f["elen"]) >= 0),
            "all-observed": lambda: fold(num(f["observed"]) == num(f["nsteps"])),
        }
        for h in [x for x in f if x.startswith("hook")]:
            out[h] = lambda h=h: fold(num(f[h]) == num(f["nsteps"]))
        lim = p.ghost.get("steps")
        if lim is not None:
            out["within"] = lambda: fold(num(p.ghost["offset"]) + num(f["nsteps"]) <= num(lim))
            out["below"] = lambda: fold(num(p.ghost["offset"]) + num(f["nsteps"]) < num(lim))
            out["within-or-none"] = lambda: fold(z3.Or(num(f["nsteps"]) == 0, num(p.ghost["offset"]) + num(f["nsteps"]) <= num(lim)))
        if g.max_len is not None:
            out["below-limit"] = lambda: fold(num(f["elen"]) < num(g.max_len))
        out.update(p.ghost.get("loop_preds", lambda: {})())
        for (uid, field) in ctx.init:
            o = p.objs.get(uid)
            if field == "held" and isinstance(o, SharedValue):
                out["free-" + uid] = lambda o=o: Not(o.f["held"])
        return out

    def loop_havoc(self, ip, loc, o, kinds):
        """a list only grown by the loop, of which nothing is claimed: any list"""
        if isinstance(o, PyList) and loc[1] == "data":
            p = P()
            n, f = p.int("len"), p.fn("item", I, Obj)
            p.assume(n >= 0)
            return SymSeq(n, lambda i: f(num(i)))
        return NotImplemented


def loop_ext():
    ext = {"logging.getLogger": Builtin("getLogger", lambda ip, *a: Logger()),
           "time.time": Builtin("time", lambda ip: P().real("time"))}
    return ext


# ------------------------------------------------------------------ vector environments
class VProto(Proto):
    """protocol state of one arbitrary environment j of N, plus totals"""

    def __init__(self, max_len, N, j, mode="train"):
        Proto.__init__(self, max_len, mode)
        self.N, self.j = N, j
        self.f["tot"] = 0
        self.f["obss"] = P().obj("no_obss")


def seq_of(n, name, sort):
    f = P().fn(name, I, sort)
    return PyList(SymSeq(n, lambda i: f(num(i))), name), f


def item(x, j):
    from pydv.tensor import T

    if is_term(x) and x.sort() == Obj:
        return OBS_OF(x, num(j))
    if isinstance(x, T):
        return x.at(j)
    if isinstance(x, PyList):
        x = x.f["data"]
    if isinstance(x, (list, tuple, SymSeq)):
        return seqs.seq_at(x, j)
    raise Unsupported("batch %r" % (x,))


OBS_OF = z3.Function("obs_of", Obj, I, Obj)


def batch_len(x):
    from pydv.tensor import T

    if is_term(x) and x.sort() == Obj:
        return P().ghost["proto"].N

    if isinstance(x, T):
        return x.shape[0]
    return seqs.seq_len(x.f["data"] if isinstance(x, PyList) else x)


class VEnvM(Model):
    def __init__(self, g):
        self.g = g

    def truth(self, ip):
        return True

    def isinstance_(self, ip, t):
        return getattr(t, "name", "").endswith("VectorEnv")

    def p_num_envs(self, ip):
        return self.g.N

    def m_close(self, ip):
        return None

    def m_reset(self, ip, mask=None):
        g, p = self.g, P()
        f, j = g.f, g.j
        p.prove(Not(f["pending"]), "every-step-observed-before-the-reset")
        if mask is None:
            p.prove(b_(f["ended"]), "full-reset-only-before-the-first-episode")
            keep = z3.BoolVal(False)
        else:
            keep = b_(ip.truth_t(item(mask, j)))
            p.prove(fold(keep == Not(f["ended"])), "reset-exactly-the-environments-whose-episode-ended")
        g.fault("reset")
        out = p.obj("obss")
        o = OBS_OF(out, num(j))
        p.assume(z3.Implies(keep, o == f["obs"]))
        g.set("obs", o)
        g.set("elen", fold(z3.If(keep, num(f["elen"]), 0)))
        g.set("ret", fold(z3.If(keep, real(f["ret"]), z3.RealVal(0))))
        g.set("ended", fold(z3.And(keep, b_(f["ended"]))))
        g.set("acted", False)
        g.set("obss", out)
        return out

    def m_step(self, ip, actions):
        g, p = self.g, P()
        f, j = g.f, g.j
        p.prove(Not(f["ended"]), "no-step-in-an-ended-episode")
        p.prove(Not(f["pending"]), "every-step-observed-before-the-next")
        p.prove(b_(f["acted"]), "the-agent-chose-this-action")
        p.prove_eq(item(actions, j), f["act"], "action-of-the-latest-observation")
        g.fault("step")
        obss = p.obj("obss")
        rs, fr = seq_of(g.N, p.name("rs"), R)
        ds, fd = seq_of(g.N, p.name("dones"), z3.BoolSort())
        nr = p.fn(p.name("needs"), I, z3.BoolSort())
        infos = PyList(SymSeq(g.N, lambda i: Info(nr(num(i)))), "infos")
        jj = num(j)
        g.set("obs", OBS_OF(obss, jj))
        g.set("obss", obss)
        g.set("r", fr(jj))
        g.set("done", fd(jj))
        g.set("needs", nr(jj))
        g.set("elen", seqs.add(f["elen"], 1))
        g.set("nsteps", seqs.add(f["nsteps"], 1))
        g.set("tot", seqs.add(f["tot"], g.N))
        g.set("ret", fold(real(f["ret"]) + fr(jj)))
        g.set("pending", True)
        g.set("acted", False)
        if g.on_step:
            g.on_step(ip)
        return (obss, rs, ds, infos)


class VAgentM(AgentM):
    def m_batch_act(self, ip, obss):
        g, p = self.g, P()
        self.check_mode()
        p.prove(Not(g.f["ended"]), "act-within-an-episode")
        p.prove(Not(g.f["pending"]), "observed-before-acting-again")
        p.prove(fold(num(batch_len(obss)) == num(g.N)), "one-observation-per-environment")
        p.prove_eq(item(obss, g.j), g.f["obs"], "acts-on-the-latest-observation")
        g.fault("act")
        a, f = seq_of(g.N, p.name("actions"), Obj)
        g.set("act", f(num(g.j)))
        g.set("acted", True)
        return a

    def m_batch_observe(self, ip, obss, rs, dones, resets):
        g, p = self.g, P()
        f, j = g.f, g.j
        self.check_mode()
        p.prove(b_(f["pending"]), "each-step-observed-once")
        p.prove_eq(item(obss, j), f["obs"], "observed-observation")
        p.prove_eq(item(rs, j), f["r"], "observed-reward")
        p.prove_eq(b_(ip.truth_t(item(dones, j))), f["done"], "observed-done")
        g.fault("observe")
        want = fold(z3.Or(b_(f["needs"]), b_(g.limit(f["elen"]))))
        got = b_(ip.truth_t(item(resets, j)))
        if g.on_observe:
            g.on_observe(ip, f["done"], got)
        else:
            p.prove_eq(got, want, "reset-exactly-on-request-or-length-limit")
        g.set("ended", fold(z3.Or(b_(f["done"]), want)))
        g.set("pending", False)
        g.set("observed", seqs.add(f["observed"], 1))


class VHook(Hook):
    def m___call__(self, ip, env, agent, t):
        g, p = self.g, P()
        p.prove(env is self.env and agent is self.agent, "hook-gets-env-and-agent")
        p.prove(fold(num(t) == num(self.offset) + num(g.f[self.name]) + 1), "hook-gets-each-step-number-once-in-order")
        p.prove(fold(num(g.f[self.name]) < num(g.f["tot"])), "hook-not-ahead-of-the-steps")
        g.fault("hook")
        g.set(self.name, seqs.add(g.f[self.name], 1))


class VLoopUnit(LoopUnit):
    def obj_len(self, ip, o):
        return P().ghost["proto"].N

    def obj_getitem(self, ip, o, i):
        return OBS_OF(o, num(ip.norm_index(i, P().ghost["proto"].N, "batch")))

    def loop_anchors(self, ctx, k, loc):
        p = P()
        g = p.ghost.get("proto")
        out = LoopUnit.loop_anchors(self, ctx, k, loc)
        out.pop("n", None)
        if "obs" in out:
            out = {"obss": lambda: g.f["obss"]}
        if "t" in out:
            out["t"] = lambda: fold(num(p.ghost["offset"]) + num(g.f["tot"]))
            for h in [x for x in g.f if x.startswith("hook")][:1]:
                out["t-hook"] = lambda: fold(num(p.ghost["offset"]) + num(g.f[h]))
        return out

    def loop_preds(self, ctx, k):
        from pydv.tensor import T

        p = P()
        g = p.ghost.get("proto")
        if g is None or (g.uid, "nsteps") not in ctx.init:
            return {}
        out = LoopUnit.loop_preds(self, ctx, k)
        f = g.f
        out["obs"] = lambda: fold(OBS_OF(f["obss"], num(g.j)) == f["obs"])
        for x in ("within", "below", "within-or-none"):
            out.pop(x, None)
        for h in [x for x in f if x.startswith("hook")]:
            out[h] = lambda h=h: fold(num(f[h]) == num(f["tot"]))
        lim = p.ghost.get("steps")
        if lim is not None:
            out["below"] = lambda: fold(num(p.ghost["offset"]) + num(f["tot"]) < num(lim))
            out["below-or-none"] = lambda: fold(z3.Or(num(f["tot"]) == 0, num(p.ghost["offset"]) + num(f["tot"]) < num(lim)))
        out["tot>=0"] = lambda: fold(num(f["tot"]) >= 0)
        for (uid, field) in ctx.init:
            o = p.objs.get(uid)
            if isinstance(o, T) and field == "at" and len(o.shape) == 1:
                if o.dtype == "int":
                    out["elen-" + uid] = lambda o=o: fold(num(o.at(g.j)) == num(f["elen"]))
                elif o.dtype == "real":
                    out["ret-" + uid] = lambda o=o: fold(real(o.at(g.j)) == real(f["ret"]))
        return out


# ------------------------------------------------------------------ shared counters
class Lock(Model):
    def __init__(self, v):
        self.v = v

    def m___enter__(self, ip):
        v, p = self.v, P()
        if p.decide(b_(v.f["held"])):
            raise Unsupported("nested lock")
        n = p.int(v.label)
        p.assume(v.inv(num(v.f["val"]), n))     # whatever other processes did
        v.set("val", n)
        v.set("held", True)
        return True

    def m___exit__(self, ip, *a):
        self.v.set("held", False)
        return None

    m_acquire = m___enter__
    m_release = m___exit__


class SharedValue(HModel):
    """multiprocessing.Value: other processes change it at any time its lock is free"""

    ghost = True

    def __init__(self, label, val, inv, real_=False):
        HModel.__init__(self, "shared:" + label)
        self.label, self.inv = label, inv
        self.f.update(val=val, held=False)
        self.writes = []
        self.on_write = None

    def m_get_lock(self, ip):
        return Lock(self)

    def getattr(self, ip, name):
        if name == "value":
            p = P()
            if p.decide(b_(self.f["held"])):
                return self.f["val"]
            n = p.int(self.label)
            p.assume(self.inv(num(self.f["val"]), n))
            return n
        return Model.getattr(self, ip, name)

    def setattr(self, ip, name, v):
        if name != "value":
            return Model.setattr(self, ip, name, v)
        P().prove(b_(self.f["held"]), "shared-%s-written-under-its-lock" % self.label)
        if self.on_write:
            self.on_write(self.f["val"], v)
        self.set("val", v)


class Event(HModel):
    """multiprocessing.Event: once set it stays set; other processes may set it"""

    ghost = True

    def __init__(self):
        HModel.__init__(self, "event")
        self.f["on"] = False

    def m_is_set(self, ip):
        p = P()
        b = p.bool("event")
        p.assume(z3.Implies(b_(self.f["on"]), b))
        self.set("on", b)
        return b

    def m_set(self, ip):
        self.set("on", True)
