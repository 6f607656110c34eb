"""C06: episodic replay keeps whole episodes and matching transitions."""
import z3

from pydv import seqs
from pydv.interp import exc
from pydv.unit import Unit, check_fields
from pydv.values import (
    HModel, Obj, P, PyDict, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num,
)
from .c05 import experience

EP = "pfrl.replay_buffers.episodic"
PEP = "pfrl.replay_buffers.prioritized_episodic"
TRUSTED = ["the two queues are FIFO sequences (proved in C01; PrioritizedBuffer in C04)"]
ASSUMPTIONS = [
    "monotonicity of the episode offsets is proved by induction in the unit 'offset-lemma'",
    "transitions handed to append are not mutated by the caller afterwards",
    "termination of the discard loop is not proved (each turn removes one episode)",
]
I = z3.IntSort()


class FifoLog(HModel):
    """FIFO queue by contract: initial elements [lo, hi) of a numbered stream,
    appended ones, and a count of pops."""

    ghost = True

    def __init__(self, name, lo, hi, at):
        HModel.__init__(self, name)
        self.base = hi
        self.f["lo"] = lo          # stream number of the oldest element
        self.f["app"] = []         # elements appended since entry
        self.at = at
        self.prio = []

    def length(self, ip):
        return fold(num(self.base) + num(seqs.seq_len(self.f["app"])) - num(self.f["lo"]))

    def m___len__(self, ip):
        return self.length(ip)

    def m_append(self, ip, x, priority=None):
        self.prio.append(priority)
        d = self.f["app"]
        self.set("app", d + [x] if isinstance(d, list) else seqs.seq_append(d, x))

    def m_extend(self, ip, xs):
        it = ip.iterate(xs)
        if not isinstance(it, (list, SymSeq)):
            it = ip.collect(it)
        self.set("app", seqs.seq_concat(self.f["app"], it))

    def m_popleft(self, ip):
        p = P()
        p.prove(fold(num(self.length(ip)) > 0), self.uid + ".popleft.precondition-nonempty")
        i = num(self.f["lo"])
        self.set("lo", fold(i + 1))
        p.instantiate(i)
        if "off" in p.ghost:
            mono(p, p.ghost["off"], i + 1, num(p.ghost["hi"]) + 1)
        return self.at(i)

    def havoc_field(self, field, init):
        p = P()
        if field == "lo":
            return p.int("lo")
        raise Unsupported("appends in a loop of unknown form")


class DiscardUnit(Unit):
    def loop_anchors(self, ctx, k, loc):
        p = P()
        o = p.objs.get(loc[0])
        iv = ctx.init.get(loc)
        out = {}
        if isinstance(o, FifoLog) and loc[1] == "app":
            cur = p.ghost["cur"]
            out["singletons"] = lambda: seqs.seq_concat(iv, SymSeq(k, lambda i: [seqs.seq_at(cur, i)]))
            out["plain"] = lambda: seqs.seq_concat(iv, SymSeq(k, lambda i: seqs.seq_at(cur, i)))
        if isinstance(o, PyObj) and loc[1] == "capacity_left" and p.ghost["capacity"] is not None:
            g = p.ghost
            e, off = g["eps"], g["off"]
            out["capacity-minus-stored"] = lambda: fold(
                num(g["capacity"]) - (off(num(g["hi"]) + 1) - off(num(e.f["lo"])))
            )
        return out

    def loop_preds(self, ctx, k):
        p = P()
        g = p.ghost
        if "eps" not in g:
            return {}
        e, m, off = g["eps"], g["mem"], g["off"]
        lo, lo0, hi = num(e.f["lo"]), num(g["lo0"]), num(g["hi"]) + 1
        out = {
            "lo<=hi": lambda: lo <= hi,
            "lo>=lo0": lambda: lo >= lo0,
            "mem=off(lo)": lambda: num(m.f["lo"]) == off(lo),
            "mem=off(lo-1)+k": lambda: num(m.f["lo"]) == off(lo - 1) + num(k),
            "minimal": lambda: z3.Implies(lo > lo0, off(hi) - off(lo - 1) > num(g["capacity"])),
        } if g["capacity"] is not None else {
            "nocap.lo=lo0": lambda: lo == lo0,
            "nocap.mem=off(lo)": lambda: num(m.f["lo"]) == off(lo),
        }
        # ghost queue states read by name-independent predicates only
        out = {a: b for a, b in out.items() if is_term(m.f["lo"]) or isinstance(m.f["lo"], int)}
        p.instantiate(lo), p.instantiate(lo - 1)
        mono(p, off, lo, hi)
        return out


def mono(p, off, a, b):
    """lemma: offsets are non-decreasing"""
    p.assume(z3.Implies(a <= b, off(a) <= off(b)))


def u_lemma(ip, p):
    off, ln = p.fn("off", I, I), p.fn("ln", I, I)
    a, b = p.int("a"), p.int("b")
    p.prove(off(a) <= off(a), "offsets.base")
    p.assume(z3.And(a <= b, off(a) <= off(b), ln(b) >= 1, off(b + 1) == off(b) + ln(b)))
    p.prove(off(a) <= off(b + 1), "offsets.step")


def state(ip, p, mod, cn):
    """an arbitrary buffer satisfying the invariant, with a current episode"""
    cls = ip.get_class(mod, cn)
    cap = None if p.choose(2) == 0 else p.int("capacity")
    if cap is not None:
        p.assume(cap >= 0)
    o = ip.call(cls, [], {"capacity": cap})
    for f in ("current_episode", "episodic_memory", "memory"):
        if f not in o.f:
            raise Unsupported("representation changed: " + f)
    lo, hi = p.int("lo"), p.int("hi")
    p.assume(lo <= hi)
    ln = p.fn("ln", I, I)
    tr = p.fn("tr", I, I, Obj)
    off = p.fn("off", I, I)
    p.forall(None, lambda i: z3.And(ln(i) >= 1, off(i + 1) == off(i) + ln(i)), None)
    mono(p, off, lo, hi)
    p.instantiate(hi)

    def ep_at(i):
        p.instantiate(i)
        return PyList(seqs.seq_of_fn(ln(i), lambda j: tr(i, j)), ip.alloc_label("episode"))

    e = FifoLog("episodes", lo, hi, ep_at)
    m = FifoLog("transitions", off(lo), off(hi), lambda i: PyList([p.obj("t")], ip.alloc_label("tr")))
    o.f["episodic_memory"], o.f["memory"] = e, m
    if cap is not None:
        p.assume(off(hi) - off(lo) <= cap)
        if "capacity_left" in o.f:
            o.f["capacity_left"] = fold(cap - (off(hi) - off(lo)))
    p.ghost["looptag"] = "nocap" if cap is None else "cap"
    p.ghost.update(eps=e, mem=m, off=off, ln=ln, lo0=lo, hi=hi, capacity=cap)
    return o, e, m, off, ln, lo, hi, cap


def check_stop(ip, p, o, e, m, off, ln, lo, hi, cap, cur, prio, name):
    """cur: the finished (non-empty) episode"""
    app = e.f["app"]
    p.prove_eq(seqs.seq_len(app), 1, name + ".one-episode-stored")
    p.prove_eq(seqs.seq_at(app, 0), cur, name + ".episode-complete-and-in-order")
    n = seqs.seq_len(cur)
    if not prio:
        p.prove_eq(m.f["app"], SymSeq(n, lambda i: [seqs.seq_at(cur, i)]), name + ".its-transitions-stored-in-order")
    lo2 = num(e.f["lo"])
    p.instantiate(lo2), p.instantiate(lo2 - 1)
    mono(p, off, lo2, hi + 1)
    if not prio:
        p.prove(num(m.f["lo"]) == off(lo2), name + ".transitions-are-those-of-the-stored-episodes")
    if cap is None:
        p.prove(lo2 == lo, name + ".nothing-discarded")
    else:
        p.prove(z3.And(lo2 >= lo, lo2 <= hi + 1), name + ".discards-oldest-episodes")
        p.prove(off(hi + 1) - off(lo2) <= cap, name + ".fits-capacity")
        p.prove(z3.Implies(lo2 > lo, off(hi + 1) - off(lo2 - 1) > cap), name + ".discards-no-more-than-needed")
        if "capacity_left" in o.f:
            p.prove_eq(o.f["capacity_left"], fold(cap - (off(hi + 1) - off(lo2))), name + ".capacity-accounting")


def cur_episode(ip, p, o, env, base):
    c = ip.getitem(o.f["current_episode"], env)
    if not isinstance(c, PyList):
        raise Unsupported("current episode representation")
    n = p.int("len_" + base)
    p.assume(n >= 0)
    c.f["data"] = seqs.seq_of_fn(n, p.fn(base, I, Obj))
    return c, c.f["data"], n


def u_stop(ip, p, mod, cn, prio):
    o, e, m, off, ln, lo, hi, cap = state(ip, p, mod, cn)
    default = p.choose(2) == 1
    # a transition given without an environment belongs to environment 0
    E = 0 if default else "E0"
    c, cur, n = cur_episode(ip, p, o, E, "T")
    c2, cur2, n2 = cur_episode(ip, p, o, "E1", "U")
    p.ghost["cur"] = cur
    p.assume(z3.Implies(n > 0, ln(hi) == n))
    p.instantiate(hi)
    ip.call(ip.getattr(o, "stop_current_episode"), [], {} if default else {"env_id": E})
    if p.decide(n > 0):
        check_stop(ip, p, o, e, m, off, ln, lo, hi, cap, cur, prio, "stop")
        new = ip.getitem(o.f["current_episode"], E)
        p.prove_eq(ip.length(new), 0, "stop.starts-an-empty-episode")
        p.prove(new is not seqs_first(e), "stop.new-episode-is-a-new-object")
    else:
        p.prove_eq(seqs.seq_len(e.f["app"]), 0, "stop.empty-episode-not-stored")
        p.prove_eq(seqs.seq_len(m.f["app"]), 0, "stop.empty-episode-not-stored")
        p.prove_eq(e.f["lo"], lo, "stop.nothing-discarded")
    p.prove(ip.getitem(o.f["current_episode"], "E1") is c2, "stop.other-environment-kept")
    p.prove_eq(c2.f["data"], cur2, "stop.other-environment-kept")


def seqs_first(e):
    a = e.f["app"]
    return a[0] if isinstance(a, list) and a else None


def u_append(ip, p, mod, cn, prio):
    o, e, m, off, ln, lo, hi, cap = state(ip, p, mod, cn)
    default = p.choose(2) == 1
    # a transition given without an environment belongs to environment 0
    E = 0 if default else "E0"
    c, cur, n = cur_episode(ip, p, o, E, "T")
    c2, cur2, n2 = cur_episode(ip, p, o, "E1", "U")
    term = False if default else p.bool("terminal")
    v = experience(p, term)
    if default:
        v["next_state"] = v["next_action"] = None
    x = p.obj("extra")
    want = PyDict(dict(v, extra=x), "want")
    full = seqs.seq_append(cur, want)
    p.ghost["cur"] = full
    p.assume(ln(hi) == n + 1)
    p.instantiate(hi)
    if default:
        ip.call(ip.getattr(o, "append"), [v["state"], v["action"], v["reward"]], dict(extra=x))
    else:
        ip.call(ip.getattr(o, "append"), [], dict(v, env_id=E, extra=x))
    if p.decide(term):
        check_stop(ip, p, o, e, m, off, ln, lo, hi, cap, full, prio, "append.terminal")
        p.prove_eq(ip.length(ip.getitem(o.f["current_episode"], E)), 0, "append.terminal.starts-an-empty-episode")
    else:
        p.prove_eq(seqs.seq_len(e.f["app"]), 0, "append.nothing-stored-yet")
        p.prove_eq(seqs.seq_len(m.f["app"]), 0, "append.nothing-stored-yet")
        p.prove_eq(e.f["lo"], lo, "append.nothing-discarded")
        p.prove_eq(ip.getitem(o.f["current_episode"], E).f["data"], full, "append.episode-grows")
    p.prove(ip.getitem(o.f["current_episode"], "E1") is c2, "append.other-environment-kept")
    p.prove_eq(c2.f["data"], cur2, "append.other-environment-kept")


def u_len(ip, p, mod, cn):
    o, e, m, *_ = state(ip, p, mod, cn)
    p.prove_eq(ip.length(o), m.length(ip), "len.number-of-transitions")
    p.prove_eq(ip.getattr(o, "n_episodes"), e.length(ip), "n_episodes.number-of-episodes")


def u_init(ip, p, mod, cn):
    cap = None if p.choose(2) == 0 else p.int("capacity")
    if cap is not None:
        p.assume(cap > 0)
    o = ip.call(ip.get_class(mod, cn), [], {"capacity": cap})
    p.prove_eq(ip.length(o.f["memory"]), 0, "init.empty")
    p.prove_eq(ip.length(o.f["episodic_memory"]), 0, "init.empty")
    p.prove(o.f["episodic_memory"].f.get("maxlen", o.f["episodic_memory"].f.get("capacity")) is None,
            "init.episodes-unbounded")
    if cn == "EpisodicReplayBuffer":
        p.prove(o.f["memory"].f.get("maxlen") is None, "init.transitions-unbounded")
        p.prove_eq(o.f["capacity"], cap, "init.capacity")
    p.prove_eq(ip.length(ip.getitem(o.f["current_episode"], "E")), 0, "init.empty-episode")


def units(tier):
    out = [Unit("offset-lemma", u_lemma)]
    for mod, cn, prio in ((EP, "EpisodicReplayBuffer", False), (PEP, "PrioritizedEpisodicReplayBuffer", True)):
        q = mod + "." + cn + "."
        out += [
            DiscardUnit(cn + ".stop_current_episode", lambda ip, p, a=(mod, cn, prio): u_stop(ip, p, *a),
                        covers=[q + "stop_current_episode"]),
            DiscardUnit(cn + ".append", lambda ip, p, a=(mod, cn, prio): u_append(ip, p, *a),
                        covers=[q + "append"]),
            Unit(cn + ".__len__/n_episodes", lambda ip, p, a=(mod, cn): u_len(ip, p, *a), covers=[q + "__len__", q + "n_episodes"]),
            Unit(cn + ".__init__", lambda ip, p, a=(mod, cn): u_init(ip, p, *a), covers=[q + "__init__"]),
        ]
    return out
