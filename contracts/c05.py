"""C05: n-step replay stores exactly the right windows."""
import z3

from pydv import seqs
from pydv.unit import Unit, check_fields
from pydv.values import HModel, Obj, P, PyDict, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num
from . import raq

TRUSTED = [
    "collections.deque(maxlen=n): append drops the oldest beyond n",
    "the queue holding the entries keeps the last maxlen appended (proved in C01; PrioritizedBuffer.append in C04)",
]
ASSUMPTIONS = [
    "transitions handed to append are not mutated by the caller afterwards",
    "environments are told apart by distinct dict keys; frames are checked against one other environment, which is parametric",
]

MODS = [
    ("pfrl.replay_buffers.replay_buffer", "ReplayBuffer"),
    ("pfrl.replay_buffers.prioritized", "PrioritizedReplayBuffer"),
    ("pfrl.replay_buffers.persistent", "PersistentReplayBuffer"),
]


class LogMemory(HModel):
    """the entry queue by contract: an append-only log (C01)"""

    def __init__(self, p):
        HModel.__init__(self, "memory")
        self.f["log"] = []

    def m_append(self, ip, x, priority=None):
        d = self.f["log"]
        if priority is not None:
            raise Unsupported("explicit priority")
        self.set("log", d + [x] if isinstance(d, list) else seqs.seq_append(d, x))

    def m_extend(self, ip, xs):
        it = ip.iterate(xs)
        if not isinstance(it, (list, SymSeq)):
            it = ip.collect(it)
        self.set("log", seqs.seq_concat(self.f["log"], it))

    def havoc_field(self, field, init):
        # arbitrary list of entries of unknown shape
        p = P()
        n = p.int("logn")
        p.assume(n >= 0)
        return SymSeq(n, lambda i: p.obj("unknown_entry"))


class WinUnit(Unit):
    def loop_anchors(self, ctx, k, loc):
        p = P()
        o = p.objs.get(loc[0])
        iv = ctx.init.get(loc)
        out = {}
        if isinstance(o, PyList) and loc[1] == "data" and isinstance(iv, (list, SymSeq)):
            n = seqs.seq_len(iv)
            out["drop-k"] = lambda: seqs.seq_slice(iv, k, seqs.sub(n, k))
        if isinstance(o, LogMemory):
            for q in list(p.objs.values()):
                if isinstance(q, PyList) and q.tag == "deque" and (q.uid, "data") in ctx.init:
                    d0 = ctx.init[(q.uid, "data")]
                    n = seqs.seq_len(d0)
                    out["tails-of-" + q.uid] = lambda d0=d0, n=n: seqs.seq_concat(
                        iv,
                        SymSeq(k, lambda i: seqs.seq_slice(d0, i, seqs.sub(n, i))),
                    )
        return out

    def loop_preds(self, ctx, k):
        p = P()
        out = {}
        for loc, iv in ctx.init.items():
            o = p.objs.get(loc[0])
            if isinstance(o, PyList) and loc[1] == "data" and isinstance(iv, (list, SymSeq)):
                n = seqs.seq_len(iv)
                out["k<=len " + loc[0]] = lambda n=n: num(k) <= num(n)
        return out


def make(ip, p, mod, clsname):
    cls = ip.get_class(mod, clsname)
    o = PyObj(cls, "RB")
    n = p.int("num_steps")
    p.assume(n > 0)
    base = ip.get_class("pfrl.replay_buffers.replay_buffer", "ReplayBuffer")
    if clsname == "PersistentReplayBuffer":
        # its __init__ goes through ReplayBuffer.__init__ and replaces memory
        tmp = ip.call(base, [None, n])
    else:
        tmp = ip.call(cls, [], {"capacity": None, "num_steps": n})
    for k, v in tmp.f.items():
        o.f[k] = v
    if "memory" not in o.f or "last_n_transitions" not in o.f or "num_steps" not in o.f:
        raise Unsupported("representation of the buffer changed")
    m = LogMemory(p)
    o.f["memory"] = m
    return o, m, n


def window(ip, p, o, env, n, name):
    """any reachable window of env: the last min(t, n) of t transitions"""
    w = ip.getitem(o.f["last_n_transitions"], env)
    if not isinstance(w, PyList) or w.tag != "deque":
        raise Unsupported("representation of the window changed")
    p.prove_eq(w.maxlen, n, "window.maxlen-is-num-steps")
    t = p.int("t")
    p.assume(t >= 0)
    T = p.fn(name, z3.IntSort(), Obj)
    ep = seqs.seq_of_fn(t, T)
    wl = p.int("w")
    p.assume(wl == z3.If(t < n, t, n))
    w.f["data"] = seqs.seq_slice(ep, t - wl, wl)
    return w, ep, t


def experience(p, term):
    vals = dict(state=p.obj("s"), action=p.obj("a"), reward=p.real("r"),
                next_state=p.obj("s2"), next_action=p.obj("a2"), is_state_terminal=term)
    return vals


def u_append(ip, p, mod, cn):
    o, m, n = make(ip, p, mod, cn)
    default = p.choose(2) == 1
    # a transition given without an environment belongs to environment 0
    E = 0 if default else "E0"
    w, ep, t = window(ip, p, o, E, n, "T")
    w2, ep2, t2 = window(ip, p, o, "E1", n, "U")
    d2 = w2.f["data"]
    term = False if default else p.bool("terminal")
    v = experience(p, term)
    extra = p.obj("extra")
    if default:
        # and is not terminal, and has no next state or action
        v["next_state"] = v["next_action"] = None
        ip.call(ip.getattr(o, "append"), [v["state"], v["action"], v["reward"]], dict(extra=extra))
    else:
        ip.call(ip.getattr(o, "append"), [], dict(v, env_id=E, extra=extra))
    want = PyDict(dict(v, extra=extra), "want")
    full = seqs.seq_append(ep, want)
    tt = t + 1
    # windows appended by this call
    if p.decide(term):
        wl = fold(z3.If(tt < n, tt, n))
        exp = SymSeq(wl, lambda i: seqs.seq_slice(full, fold(tt - num(wl) + num(i)), fold(num(wl) - num(i))))
        p.prove_eq(m.f["log"], exp, "append.terminal.one-window-per-remaining-transition")
        p.prove_eq(ip.getitem(o.f["last_n_transitions"], E).f["data"], [], "append.terminal.window-cleared")
    else:
        if p.decide(tt >= n):
            p.prove_eq(m.f["log"], [seqs.seq_slice(full, tt - n, n)], "append.full-window-stored")
            p.prove_eq(w.f["data"], seqs.seq_slice(full, tt - n, n), "append.window-slides")
        else:
            p.prove_eq(m.f["log"], [], "append.partial-window-not-stored")
            p.prove_eq(w.f["data"], full, "append.window-grows")
    p.prove(ip.getitem(o.f["last_n_transitions"], "E1") is w2, "append.other-environment-kept")
    p.prove_eq(w2.f["data"], d2, "append.other-environment-kept")


def u_stop(ip, p, mod, cn):
    o, m, n = make(ip, p, mod, cn)
    default = p.choose(2) == 1
    E = 0 if default else "E0"
    w, ep, t = window(ip, p, o, E, n, "T")
    w2, ep2, t2 = window(ip, p, o, "E1", n, "U")
    d2 = w2.f["data"]
    ip.call(ip.getattr(o, "stop_current_episode"), [], {} if default else {"env_id": E})
    # windows starting at t-n have been stored when they were full
    if p.decide(t >= n):
        cnt = n - 1
        exp = SymSeq(cnt, lambda i: seqs.seq_slice(ep, fold(t - n + 1 + num(i)), fold(n - 1 - num(i))))
    else:
        exp = SymSeq(t, lambda i: seqs.seq_slice(ep, i, fold(t - num(i))))
    p.prove_eq(m.f["log"], exp, "stop.each-unstarted-transition-starts-one-window")
    p.prove_eq(ip.getitem(o.f["last_n_transitions"], E).f["data"], [], "stop.window-cleared")
    p.prove(ip.getitem(o.f["last_n_transitions"], "E1") is w2, "stop.other-environment-kept")
    p.prove_eq(w2.f["data"], d2, "stop.other-environment-kept")


def u_init(ip, p):
    cap = None if p.choose(2) == 0 else p.int("capacity")
    if cap is not None:
        p.assume(cap > 0)
    n = p.int("num_steps")
    p.assume(n > 0)
    o = ip.call(ip.get_class(*MODS[0]), [cap, n])
    p.prove_eq(ip.length(o), 0, "init.empty")
    p.prove_eq(o.f["memory"].f.get("maxlen"), cap, "init.capacity-is-the-queue-bound")
    p.prove_eq(o.f["capacity"], cap, "init.capacity")
    w = ip.getitem(o.f["last_n_transitions"], "E")
    p.prove_eq(ip.length(w), 0, "init.window-empty")
    d = ip.call(ip.get_class(*MODS[0]), [])
    p.prove_eq(d.f["capacity"], None, "init.unbounded-by-default")
    p.prove_eq(d.f["num_steps"], 1, "init.one-step-by-default")


def units(tier):
    out = [Unit("ReplayBuffer.__init__", u_init, covers=[MODS[0][0] + ".ReplayBuffer.__init__"])]
    for mod, cn in MODS:
        out.append(WinUnit(cn + ".append", lambda ip, p, mod=mod, cn=cn: u_append(ip, p, mod, cn),
                           covers=[mod + "." + cn + ".append"]))
        out.append(WinUnit(cn + ".stop_current_episode", lambda ip, p, mod=mod, cn=cn: u_stop(ip, p, mod, cn),
                           covers=[mod + "." + cn + ".stop_current_episode"]))
    return out
