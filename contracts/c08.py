"""C08: batch_experiences."""
import z3

from pydv import seqs
from pydv.tensor import T, torch_ext
from pydv.unit import Unit
from pydv.values import Builtin, Model, Obj, Opaque, P, PyDict, PyList, SymSeq, Unsupported, fold, is_term, num, real

TRUSTED = [
    "torch.as_tensor(list): a tensor with the list's elements in order (float32 rounding not modelled)",
    "torch.utils.data default_collate: collates the features in the order given",
]
ASSUMPTIONS = ["rewards and gamma as reals; every stored entry has at least one transition"]

BOUNDED = ["the order of flatten_sequences_time_first is proved for up to three sequences of any lengths; more by replay only"]

SORTS = dict(state=Obj, action=Obj, reward=z3.RealSort(), next_state=Obj, next_action=Obj,
             is_state_terminal=z3.BoolSort())


class Batch:
    """B entries of L(e) >= 1 transitions with arbitrary fields"""

    def __init__(self, p):
        self.B = p.int("B")
        p.assume(self.B >= 1)
        self.L = p.fn("L", z3.IntSort(), z3.IntSort())
        self.F = {k: p.fn(k, z3.IntSort(), z3.IntSort(), s) for k, s in SORTS.items()}
        self.seq = SymSeq(self.B, self.entry)

    def len(self, e):
        n = self.L(num(e))
        P().assume(n >= 1)
        return n

    def entry(self, e):
        return SymSeq(self.len(e), lambda i: Trans(self, e, i))

    def get(self, key, e, i):
        return self.F[key](num(e), num(i))

    def first(self, key):
        return SymSeq(self.B, lambda e: self.get(key, e, 0))

    def last(self, key):
        return SymSeq(self.B, lambda e: self.get(key, e, seqs.sub(self.len(e), 1)))


class Trans(Model):
    def __init__(self, b, e, i):
        self.b, self.e, self.i = b, e, i

    def getitem(self, ip, key):
        if key not in self.b.F:
            from pydv.interp import exc
            raise exc("KeyError", key)
        return self.b.get(key, self.e, self.i)

    def m_get(self, ip, key, d=None):
        return self.getitem(ip, key) if key in self.b.F else d

    def contains(self, ip, key):
        return key in self.b.F


class Batched(Model):
    def __init__(self, xs, device, phi):
        self.xs, self.device, self.phi = xs, device, phi


def setup(ip, p):
    b = Batch(p)
    gamma = p.real("gamma")
    dev, phi = Opaque("device"), Opaque("phi")

    def bs(ip, xs, device, phi):
        it = ip.iterate(xs)
        return Batched(it if isinstance(it, (list, SymSeq)) else ip.collect(it), device, phi)

    f = ip.get_func("pfrl.replay_buffer", "batch_experiences")
    r = ip.call(f, [PyList(b.seq, "experiences"), dev, phi, gamma], {"batch_states": Builtin("batch_states", bs)})
    if not isinstance(r, PyDict):
        raise Unsupported("result is not a dict")
    return b, gamma, dev, phi, r.f["data"]


def is_states(p, x, want, dev, phi, name):
    if not isinstance(x, Batched):
        raise Unsupported("states not batched by batch_states")
    p.prove(x.device is dev and x.phi is phi, name + ".device-and-phi")
    p.prove_eq(x.xs, want, name)


def tensor_of(x, b):
    if not isinstance(x, T):
        raise Unsupported("not a tensor: %r" % (x,))
    return x


def rows(p, x, b, fn, name):
    x = tensor_of(x, b)
    if len(x.shape) != 1:
        p.fail(name + ".rank", "shape %r" % (x.shape,))
        return
    p.prove(fold(num(x.shape[0]) == b.B), name + ".one-row-per-entry")
    p.prove_forall(b.B, lambda e: fn(x.at(e), e), name)


def u_states(ip, p):
    b, gamma, dev, phi, d = setup(ip, p)
    is_states(p, d["state"], b.first("state"), dev, phi, "state-is-first")
    is_states(p, d["next_state"], b.last("next_state"), dev, phi, "next-state-is-last")
    rows(p, d["action"], b, lambda x, e: fold(x == b.get("action", e, 0)), "action-is-first")
    p.prove(set(d) <= {"state", "action", "reward", "next_state", "is_state_terminal", "discount", "next_action"},
            "no-other-keys")


def u_reward(ip, p):
    b, gamma, dev, phi, d = setup(ip, p)
    unit = ip.unit

    def ok(x, e):
        want = p.sum_of(b.len(e), lambda i: fold(real(unit.power(ip, gamma, i)) * b.get("reward", e, i)))
        return fold(real(x) == want)

    rows(p, d["reward"], b, ok, "reward-is-discounted-sum")
    rows(p, d["discount"], b, lambda x, e: fold(real(x) == real(unit.power(ip, gamma, b.len(e)))),
         "discount-is-gamma-to-the-length")


def u_terminal(ip, p):
    b, gamma, dev, phi, d = setup(ip, p)

    def ok(x, e):
        n = b.len(e)
        q = p.int("witness")
        # 1 -> some transition is terminal, 0 -> none is
        x = real(x)
        r1 = p.all_cases(lambda: term_iff(p, b, d["is_state_terminal"], e))
        return bool(r1)

    rows(p, d["is_state_terminal"], b, ok, "terminal-iff-some-transition-is")


def term_iff(p, b, t, e):
    from pydv.builtin_fns import _anyall

    x = real(t.at(e))
    want = _anyall(None_ip(p), SymSeq(b.len(e), lambda i: b.get("is_state_terminal", e, i)), False)
    w = want if is_term(want) else z3.BoolVal(want)
    return p.entails(x == z3.If(w, z3.RealVal(1), z3.RealVal(0)))


def None_ip(p):
    return p.ghost["ip"]


def u_next_action(ip, p):
    p.ghost["ip"] = ip
    b, gamma, dev, phi, d = setup(ip, p)
    from pydv.builtin_fns import _anyall
    from pydv.values import NONE

    want = _anyall(ip, SymSeq(b.B, lambda e: fold(b.get("next_action", e, seqs.sub(b.len(e), 1)) != NONE)), True)
    if p.decide(want if is_term(want) else bool(want)):
        p.prove("next_action" in d, "next-action-present-when-all-have-one")
        if "next_action" in d:
            rows(p, d["next_action"], b,
                 lambda x, e: fold(x == b.get("next_action", e, seqs.sub(b.len(e), 1))), "next-action-is-last")
    else:
        p.prove("next_action" not in d, "next-action-absent-otherwise")


def u_terminal_(ip, p):
    p.ghost["ip"] = ip
    u_terminal(ip, p)


def u_batch_states(ip, p):
    n = p.int("n")
    p.assume(n >= 1)
    S = p.fn("S", z3.IntSort(), Obj)
    PHI = p.fn("PHI", Obj, Obj)
    calls = []
    col = Opaque("collated")

    class Col(Model):
        def m_to(self, ip, device):
            calls.append(("to", device))
            return self

        def isinstance_(self, ip, t):
            return getattr(t, "name", "") == "torch.Tensor"

    c = Col()

    def collate(ip, xs):
        it = ip.iterate(xs)
        calls.append(("collate", it))
        return c

    ip.ext["torch.utils.data._utils.collate.default_collate"] = Builtin("default_collate", collate)
    f = ip.get_func("pfrl.utils.batch_states", "batch_states")
    dev = Opaque("device")
    p.assume(z3.Not(z3.Function("isinst_tuple", Obj, z3.BoolSort())(PHI(S(0)))))
    r = ip.call(f, [PyList(seqs.seq_of_fn(n, S), "states"), dev, Builtin("phi", lambda ip, s: PHI(s))])
    cs = [x for k, x in calls if k == "collate"]
    p.prove(len(cs) == 1, "collated-once")
    p.prove_eq(cs[0], SymSeq(n, lambda i: PHI(S(num(i))), True), "features-of-all-states-in-order")
    p.prove(r is c and ("to", dev) in calls, "result-on-the-device")


# ------------------------------------------------------------ recurrent batches
def rec_setup(ip, p):
    b = Batch(p)
    b.F["recurrent_state"] = p.fn("recurrent_state", z3.IntSort(), z3.IntSort(), Obj)
    b.F["next_recurrent_state"] = p.fn("next_recurrent_state", z3.IntSort(), z3.IntSort(), Obj)
    gamma = p.real("gamma")
    dev, phi = Opaque("device"), Opaque("phi")
    N = p.int("transitions")
    p.assume(N >= 1)
    E, S = p.fn("episode_of", z3.IntSort(), z3.IntSort()), p.fn("step_of", z3.IntSort(), z3.IntSort())
    exps = PyList(b.seq, "experiences")
    seen = []

    def flatten(ip, f, args, kw):
        x = args[0] if args else kw["sequences"]
        seen.append(x)
        p.prove_eq(seqs.seq_len(x), b.B, "flattens-all-episodes")

        def tr(i):
            e, s = E(num(i)), S(num(i))
            p.assume(z3.And(e >= 0, e < b.B, s >= 0, s < b.L(e)))
            return Trans(b, e, s)

        return PyList(SymSeq(N, tr), "flat")

    def bs(ip, xs, device, phi):
        it = ip.iterate(xs)
        return Batched(it if isinstance(it, (list, SymSeq)) else ip.collect(it), device, phi)

    class Conc(Model):
        def __init__(self, xs):
            self.xs = xs

    def conc(ip, f, args, kw):
        x = args[0] if args else kw["split_recurrent_states"]
        it = ip.iterate(x)
        return Conc(it if isinstance(it, (list, SymSeq)) else ip.collect(it))

    def to_torch(ip, f, args, kw):
        d = dict(zip(("recurrent_state", "device"), args), **kw)
        p.prove(d["device"] is dev, "recurrent-state-on-the-device")
        return d["recurrent_state"]

    R = "pfrl.utils.recurrent."
    ip.contracts[R + "flatten_sequences_time_first"] = flatten
    ip.contracts[R + "concatenate_recurrent_states"] = conc
    ip.contracts[R + "recurrent_state_from_numpy"] = to_torch
    # sorted by length, as the updates sort them
    p.forall(b.B, lambda i: z3.And(b.L(i) >= 1, z3.Implies(z3.And(i + 1 < b.B, i >= 0), b.L(i) >= b.L(i + 1))))
    r = ip.call(ip.get_func("pfrl.replay_buffer", "batch_recurrent_experiences"), [exps, dev, phi, gamma],
                {"batch_states": Builtin("batch_states", bs)})
    if not isinstance(r, PyDict):
        raise Unsupported("result is not a dict")
    if not seen:
        raise Unsupported("transitions not flattened by flatten_sequences_time_first")
    return b, gamma, dev, phi, N, E, S, r.f["data"], Conc


def u_recurrent(ip, p):
    p.ghost["ip"] = ip
    b, gamma, dev, phi, N, E, S, d, Conc = rec_setup(ip, p)

    def flat(x, fn, name):
        x = tensor_of(x, b)
        if len(x.shape) != 1:
            p.fail(name + ".rank", "shape %r" % (x.shape,))
            return
        p.prove(fold(num(x.shape[0]) == N), name + ".one-row-per-transition")
        p.prove_forall(N, lambda i: fn(x.at(i), E(num(i)), S(num(i))), name)

    flat(d["action"], lambda x, e, s: fold(x == b.get("action", e, s)), "recurrent.action-of-its-transition")
    flat(d["reward"], lambda x, e, s: fold(real(x) == b.get("reward", e, s)), "recurrent.reward-of-its-transition")
    flat(d["is_state_terminal"], lambda x, e, s: fold((real(x) == 1) == b.get("is_state_terminal", e, s)),
         "recurrent.terminal-flag-of-its-transition")
    flat(d["discount"], lambda x, e, s: fold(real(x) == gamma), "recurrent.discount-is-gamma")
    for key in ("state", "next_state"):
        v = d[key]
        p.prove_eq(seqs.seq_len(v), b.B, "recurrent.%s-per-episode" % key)

        def ok(e):
            x = seqs.seq_at(v, e)
            if not isinstance(x, Batched):
                raise Unsupported("states not batched by batch_states")
            return x.device is dev and x.phi is phi and seqs.proves_equal(
                x.xs, SymSeq(b.len(e), lambda i: b.get(key, e, i)))

        p.prove_forall(b.B, ok, "recurrent.%s-of-every-step-in-order" % key)
    for key in ("recurrent_state", "next_recurrent_state"):
        v = d[key]
        if not isinstance(v, Conc):
            raise Unsupported("recurrent states not concatenated")
        p.prove_eq(v.xs, SymSeq(b.B, lambda e: b.get(key, e, 0)), "recurrent.%s-of-the-first-step" % key)


def u_recurrent_next(ip, p):
    p.ghost["ip"] = ip
    from pydv.builtin_fns import _anyall
    from pydv.values import NONE

    b, gamma, dev, phi, N, E, S, d, Conc = rec_setup(ip, p)
    want = _anyall(ip, SymSeq(N, lambda i: fold(b.get("next_action", E(num(i)), S(num(i))) != NONE)), True)
    if p.decide(want if is_term(want) else bool(want)):
        p.prove("next_action" in d, "recurrent.next-action-present-when-all-have-one")
        if "next_action" in d:
            x = tensor_of(d["next_action"], b)
            p.prove(fold(num(x.shape[0]) == N), "recurrent.next-action.one-row-per-transition")
            p.prove_forall(N, lambda i: fold(x.at(i) == b.get("next_action", E(num(i)), S(num(i)))),
                           "recurrent.next-action-of-its-transition")
    else:
        p.prove("next_action" not in d, "recurrent.next-action-absent-otherwise")


# ------------------------------------------------------------ time-first order
def zip_longest(ip, *xs, fillvalue=None):
    p = P()
    ss = []
    for x in xs:
        it = ip.iterate(x)
        ss.append(it if isinstance(it, (list, SymSeq)) else ip.collect(it))
    ns = [seqs.seq_len(s) for s in ss]
    n = 0
    for m in ns:
        n = fold(z3.If(num(m) > num(n), num(m), num(n))) if is_term(m) or is_term(n) else max(m, n)
    if is_term(n) and p.unit.mode == "bmc":
        n = p.expand(n)

    def row(t):
        return tuple(seqs.seq_at(s, t) if p.decide(fold(num(t) < num(m))) else fillvalue for s, m in zip(ss, ns))

    return [row(t) for t in range(n)] if not is_term(n) else SymSeq(n, row)


class TimeUnit(Unit):
    bmc_bound = 2

    def loop_anchors(self, ctx, k, loc):
        p = P()
        g = p.ghost.get("tf")
        iv = ctx.init.get(loc)
        if g is None or not isinstance(p.objs.get(loc[0]), PyList) or loc[1] != "data" or iv != []:
            return {}

        def first():
            g["ks"].append(num(k))
            return SymSeq(g["off"](k), g["F"], True)

        return {"steps-before-k": first}


def u_flatten(E):
    def run(ip, p):
        bmc = p.unit.mode == "bmc"
        L, S = [], []
        for e in range(E):
            n = p.int("L%d" % e)
            p.assume(n >= 0)
            n = p.expand(n) if bmc else n
            L.append(n)
            S.append(p.fn("seq%d" % e, z3.IntSort(), Obj))
        from pydv.values import NONE

        def el(e, t):
            p.assume(S[e](num(t)) != NONE)
            return S[e](num(t))

        def off(t):
            r = z3.IntVal(0)
            for n in L:
                r = r + z3.If(num(n) < num(t), num(n), num(t))
            return fold(r)

        def rank(e, t):
            r = z3.IntVal(0)
            for n in L[:e]:
                r = r + z3.If(num(t) < num(n), z3.IntVal(1), z3.IntVal(0))
            return fold(r)

        Fn = p.fn("flat", z3.IntSort(), Obj)
        ks = []

        def F(i):
            for t in ks:
                for e in range(E):
                    p.assume(z3.Implies(z3.And(t >= 0, t < num(L[e]), num(i) == off(t) + rank(e, t)), Fn(num(i)) == el(e, t)))
            return Fn(num(i))

        p.ghost["tf"] = dict(off=off, F=F, ks=ks)
        lists = [PyList([el(e, t) for t in range(L[e])] if bmc else SymSeq(L[e], lambda t, e=e: el(e, t), True), "seq%d" % e)
                 for e in range(E)]
        r = ip.call(ip.get_func("pfrl.utils.recurrent", "flatten_sequences_time_first"), [PyList(lists, "sequences")])
        tot = z3.IntVal(0)
        for n in L:
            tot = tot + num(n)
        p.prove_eq(seqs.seq_len(r), fold(tot), "flatten.every-element-once")
        for e in range(E):
            t = p.int("t")
            p.assume(z3.And(t >= 0, t < num(L[e])))
            if p._check() == z3.unsat:
                continue
            ks.append(t)
            p.prove(fold(seqs.seq_at(r, fold(off(t) + rank(e, t))) == el(e, t)), "flatten.step-t-of-all-sequences-before-step-t+1")
            ks.pop()

    return run


def units(tier):
    ext = torch_ext()
    us = [
        Unit("batch_experiences.states", u_states, ext=ext),
        Unit("batch_experiences.reward", u_reward, ext=ext),
        Unit("batch_experiences.terminal", u_terminal_, ext=ext),
        Unit("batch_experiences.next_action", u_next_action, ext=ext),
        Unit("batch_states", u_batch_states, ext=ext),
        Unit("batch_recurrent_experiences", u_recurrent, ext=ext),
        Unit("batch_recurrent_experiences.next_action", u_recurrent_next, ext=ext),
    ]
    fe = dict(ext, **{"itertools.zip_longest": Builtin("zip_longest", zip_longest)})
    for n in (1, 2, 3):
        us.append(TimeUnit("flatten_sequences_time_first[%d]" % n, u_flatten(n), ext=fe,
                           covers=["pfrl.utils.recurrent.flatten_sequences_time_first"]))
    return us
