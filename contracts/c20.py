"""C20: batched recurrent states.

A state is None, a tensor of shape (D, B, ...) whose second axis is the batch, or a
tuple of states.  The functions recurse over that structure: each unit runs the real
body on one constructor; recursive calls are replaced by the function's own contract
(structural induction), with tuples of arbitrary length.  The same postconditions are
also proved for nested states with the recursion inlined."""
import z3

from pydv import seqs
from pydv.tensor import T, fresh_t, np_ext, torch_ext
from pydv.unit import Unit
from pydv.values import Model, P, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num, real

I = z3.IntSort()
MOD = "pfrl.utils.recurrent"
TRUSTED = [
    "torch/numpy: indexing, item assignment, *, stack, ones_like, zeros_like as element-wise functions of the indices",
]
ASSUMPTIONS = [
    "recurrent states are real-valued: x * 0 is 0 (a NaN or infinite state is not cleared by the mask)",
    "states of one structure: all entries of one batch have the same nesting and shapes",
]
BOUNDED = [
    "pack/unpack of sequences and the recurrent modules' one-step and sequence forwards are replayed on random ragged batches",
    "agents with recurrent models are replayed against per-environment references over random histories",
]


class St(Model):
    """some state of unknown structure"""

    def __init__(self, name, key):
        self.name, self.key = name, key

    def __repr__(self):
        return "<%s>" % self.name

    def isinstance_(self, ip, t):
        raise Unsupported("structure of a state")

    def eq_model(self, o):
        return isinstance(o, St) and o.name == self.name and seqs.index_eq(self.key, o.key)


class Res(Model):
    """result of a recursive call"""

    def __init__(self, fn, arg, rest):
        self.fn, self.arg, self.rest = fn, arg, rest

    def isinstance_(self, ip, t):
        raise Unsupported("structure of a state")


def recursive(ip, fn, log=None):
    def c(ip, f, args, kwargs):
        import inspect

        names = [a.arg for a in f.node.args.args]
        vals = dict(zip(names, args))
        vals.update(kwargs)
        return Res(fn, vals.pop(names[0]), vals)

    ip.contracts[MOD + "." + fn] = c


def dims(p):
    d, b, h = p.int("D"), p.int("B"), p.int("H")
    for x in (d, b, h):
        p.assume(x > 0)
    return d, b, h


def body(ip, fn, *args):
    return ip.call_body(ip.get_func(MOD, fn), list(args), {})


def call(ip, fn, *args):
    return ip.call(ip.get_func(MOD, fn), list(args))


def index_kinds(p, b, which):
    """indices of the batch: one int or a list of any length, within range"""
    if which == "int":
        i = p.int("i")
        p.assume(z3.And(i >= 0, i < b))
        return i, lambda x: num(x) == i
    n = p.int("n")
    p.assume(n >= 0)
    f = p.fn("ix", I, I)

    def at(j):
        p.assume(z3.Implies(z3.And(num(j) >= 0, num(j) < n), z3.And(f(num(j)) >= 0, f(num(j)) < b)))
        p.instantiate(j)
        return f(num(j))

    m = p.fn("in", I, z3.BoolSort())
    w = p.fn("wit", I, I)
    p.forall(n, lambda j: z3.And(f(j) >= 0, f(j) < b, m(f(j))))

    def inside(x):
        q = w(x)
        p.instantiate(q)
        return z3.Implies(m(x), z3.And(q >= 0, q < n, f(q) == x))

    p.forall(b, inside)
    lst = PyList(SymSeq(n, at, True), "indices")

    def mem(x):
        p.instantiate(x)
        return m(num(x))

    mem.n, mem.at = n, f
    return lst, mem


def ix3(p, *bounds):
    r = []
    for b in bounds:
        i = p.int("x")
        p.assume(z3.And(i >= 0, i < num(b)))
        p.instantiate(i)
        r.append(i)
    return r


def same_shape(p, t, shape, name):
    ok = isinstance(t, T) and len(t.shape) == len(shape)
    p.prove(ok, name)
    if ok:
        for a, b in zip(t.shape, shape):
            p.prove(fold(num(a) == num(b)), name)
    return ok


# ---- mask ------------------------------------------------------------------
def check_masked(p, r, t0, shape, mem, name):
    if not same_shape(p, r, shape, name + ".shape"):
        return
    d, b, h = ix3(p, *shape)
    p.prove(fold(real(r.at(d, b, h)) == z3.If(mem(b), z3.RealVal(0), real(t0(d, b, h)))), name + ".only-given-environments-cleared")


def u_mask_tensor(which, nested=False):
    def run(ip, p):
        shape = dims(p)
        idx, mem = index_kinds(p, shape[1], which)
        if not nested:
            t = fresh_t(p, "s", shape)
            t0 = t.snap()
            r = body(ip, "mask_recurrent_state_at", t, idx)
            check_masked(p, r, t0, shape, mem, "mask")
            x = ix3(p, *shape)
            p.prove(fold(real(t.at(*x)) == real(t0(*x))), "mask.argument-not-modified")
            return
        ts = [fresh_t(p, "s%d" % k, shape) for k in range(2)]
        t0 = [t.snap() for t in ts]
        r = call(ip, "mask_recurrent_state_at", ((ts[0], None), (ts[1],)), idx)
        ok = istuple(r, 2) and istuple(get(r, 0), 2) and get(get(r, 0), 1) is None and istuple(get(r, 1), 1)
        p.prove(ok, "mask.same-structure")
        if ok:
            for k, q in enumerate([get(get(r, 0), 0), get(get(r, 1), 0)]):
                check_masked(p, q, t0[k], shape, mem, "mask.nested")

    return run


def istuple(r, n):
    if isinstance(r, PyList):
        return r.tag == "tuple" and not is_term(seqs.seq_len(r)) and seqs.seq_len(r) == n
    return isinstance(r, tuple) and len(r) == n


def get(r, i):
    return r[i] if isinstance(r, tuple) else seqs.seq_at(r, i)


def tuple_state(p, name="part"):
    m = p.int("m")
    p.assume(m >= 0)
    return m, PyList(SymSeq(m, lambda i: St(name, i)), "state", "tuple")


def u_map_tuple(fn, extra, rest):
    """f(tuple(s...), args) == tuple(f(s, args) ...)"""

    def run(ip, p):
        recursive(ip, fn)
        m, st = tuple_state(p)
        args = [e for e in extra]
        r = body(ip, fn, st, *args)
        ok = isinstance(r, tuple) or isinstance(r, PyList) and r.tag == "tuple"
        p.prove(ok, fn + ".tuple-of-states-gives-a-tuple")
        if not ok:
            return
        p.prove_eq(seqs.seq_len(r), m, fn + ".one-part-per-part")
        i = p.int("k")
        p.assume(z3.And(i >= 0, i < m))
        q = seqs.seq_at(r, i)
        ok = isinstance(q, Res) and isinstance(q.arg, St) and q.arg.name == "part"
        p.prove(ok, fn + ".each-part-handled-by-the-function")
        if ok:
            p.prove_eq(q.arg.key, i, fn + ".parts-in-order")
            p.prove(all(q.rest.get(k) is v for k, v in zip(rest, args)), fn + ".same-arguments-for-each-part")

    return run


def u_none(fn, *extra):
    def run(ip, p):
        r = body(ip, fn, None, *extra)
        p.prove(r is None, fn + ".no-state-stays-none")

    return run


# ---- get / concatenate ----------------------------------------------------------
def u_get(which):
    def run(ip, p):
        shape = dims(p)
        d, b, h = shape
        idx, mem = index_kinds(p, b, which)
        for detach in (True, False):
            t = fresh_t(p, "s", shape)
            t0 = t.snap()
            r = body(ip, "get_recurrent_state_at", t, idx, detach)
            if which == "int":
                if same_shape(p, r, (d, h), "get.shape"):
                    x, y = ix3(p, d, h)
                    p.prove(fold(real(r.at(x, y)) == real(t0(x, idx, y))), "get.state-of-that-environment")
            else:
                if same_shape(p, r, (d, mem.n, h), "get.shape"):
                    x, j, y = ix3(p, d, mem.n, h)
                    p.prove(fold(real(r.at(x, j, y)) == real(t0(x, mem.at(j), y))), "get.states-of-those-environments")

    return run


def states(p, n, make, name="st"):
    """a list of n states, some of them None"""
    none = p.fn("none_" + name, I, z3.BoolSort())

    def at(j):
        p.instantiate(j)
        if p.decide(none(num(j))):
            return None
        return make(j)

    return PyList(SymSeq(n, at), "states"), none


def u_concat(np):
    def run(ip, p):
        d, h, n = p.int("D"), p.int("H"), p.int("n")
        p.assume(z3.And(d > 0, h > 0, n > 0))
        f = z3.Function("val", I, I, I, z3.RealSort())
        lst, none = states(p, n, lambda j: T((d, h), lambda x, y, j=j: f(num(j), num(x), num(y)), "real", np=np))
        r = body(ip, "concatenate_recurrent_states", lst)
        if r is None:
            ok = p.forall_holds(n, lambda j: none(j))
            p.prove(ok, "concatenate.none-only-if-all-are-none")
            return
        p.prove(not p.forall_holds(n, lambda j: none(j)), "concatenate.none-if-all-are-none")
        if not same_shape(p, r, (d, n, h), "concatenate.shape"):
            return
        p.prove(r.np == np, "concatenate.kind-of-array")
        x, j, y = ix3(p, d, n, h)
        p.prove(
            fold(real(r.at(x, j, y)) == z3.If(none(j), z3.RealVal(0), f(j, x, y))),
            "concatenate.entry-is-that-state-or-fresh",
        )

    return run


def u_concat_tuple(ip, p):
    recursive(ip, "concatenate_recurrent_states")
    n, m = p.int("n"), p.int("m")
    p.assume(z3.And(n > 0, m >= 0))

    class Part(Model):
        def __init__(self, j, i):
            self.j, self.i = j, i

        def isinstance_(self, ip, t):
            raise Unsupported("structure of a state")

    def make(j):
        return PyList(SymSeq(m, lambda i: Part(j, i)), "tup", "tuple")

    lst, none = states(p, n, make)
    r = body(ip, "concatenate_recurrent_states", lst)
    if r is None:
        p.prove(p.forall_holds(n, lambda j: none(j)), "concatenate.none-only-if-all-are-none")
        return
    ok = isinstance(r, PyList) and r.tag == "tuple"
    p.prove(ok, "concatenate.tuple")
    if not ok:
        return
    p.prove_eq(seqs.seq_len(r), m, "concatenate.one-part-per-part")
    i = p.int("k")
    p.assume(z3.And(i >= 0, i < m))
    q = seqs.seq_at(r, i)
    ok = isinstance(q, Res)
    p.prove(ok, "concatenate.each-part-concatenated")
    if not ok:
        return
    p.prove_eq(seqs.seq_len(q.arg), n, "concatenate.part-from-every-state")
    j = p.int("j")
    p.assume(z3.And(j >= 0, j < n))
    e = seqs.seq_at(q.arg, j)
    if e is None:
        p.prove(none(j), "concatenate.part-none-only-if-state-none")
        return
    p.prove(z3.Not(none(j)), "concatenate.part-none-if-state-none")
    p.prove(isinstance(e, Part), "concatenate.parts-of-the-states")
    if isinstance(e, Part):
        p.prove_eq(e.j, j, "concatenate.states-in-order")
        p.prove_eq(e.i, i, "concatenate.same-part-of-every-state")


def u_roundtrip(ip, p):
    """concatenate([get(s, i) for i in range(B)]) == s, and get(concatenate(ss), i) == ss[i]"""
    shape = dims(p)
    d, b, h = shape
    t = fresh_t(p, "s", shape)
    t0 = t.snap()
    f = ip.get_func(MOD, "get_recurrent_state_at")
    lst = PyList(SymSeq(b, lambda i: ip.call(f, [t, i, True])), "split")
    q = call(ip, "concatenate_recurrent_states", lst)
    if same_shape(p, q, shape, "roundtrip.shape"):
        x = ix3(p, *shape)
        p.prove(fold(real(q.at(*x)) == real(t0(*x))), "roundtrip.concatenating-the-split-states-gives-the-batch")
        i = p.int("e")
        p.assume(z3.And(i >= 0, i < b))
        g = ip.call(f, [q, i, False])
        p.prove(fold(real(g.at(x[0], x[2])) == real(t0(x[0], i, x[2]))), "roundtrip.splitting-gives-back-the-states")


# ---- conversion -------------------------------------------------------------------
def u_convert(fn, np_in, np_out, *extra):
    def run(ip, p):
        shape = dims(p)
        t = fresh_t(p, "s", shape, np=np_in)
        t0 = t.snap()
        r = body(ip, fn, t, *extra)
        if same_shape(p, r, shape, fn + ".shape"):
            p.prove(bool(r.np) == np_out, fn + ".kind-of-array")
            x = ix3(p, *shape)
            p.prove(fold(real(r.at(*x)) == real(t0(*x))), fn + ".values-kept")

    return run


# ---- resets by the agents ------------------------------------------------------------
def flags(p, b, name):
    f = p.fn(name, I, z3.BoolSort())
    return PyList(SymSeq(b, lambda i: f(num(i)), True), name), f


def u_reset(ip, p):
    shape = dims(p)
    b = shape[1]
    dl, done = flags(p, b, "done")
    rl, reset = flags(p, b, "reset")
    t, u = fresh_t(p, "s", shape), fresh_t(p, "u", shape)
    t0, u0 = t.snap(), u.snap()
    f = ip.get_func("pfrl.agents.dqn", "_batch_reset_recurrent_states_when_episodes_end")
    r = ip.call(f, [], dict(batch_done=dl, batch_reset=rl, recurrent_states=(t, u)))
    p.prove(istuple(r, 2), "reset.structure")
    if istuple(r, 2):
        for q, s0 in ((get(r, 0), t0), (get(r, 1), u0)):
            check_masked(p, q, s0, shape, lambda x: z3.Or(done(x), reset(x)), "reset")


def agent_with_state(ip, mod, cls, st):
    o = PyObj(ip.get_class(mod, cls), "agent")
    o.f.update(recurrent=True, training=False, test_recurrent_states=st, train_recurrent_states=St("train", 0),
               train_prev_recurrent_states=None)
    return o


def u_observe_eval(mod, cls):
    """evaluation: only the evaluation states of ended episodes change"""

    def run(ip, p):
        shape = dims(p)
        b = shape[1]
        dl, done = flags(p, b, "done")
        rl, reset = flags(p, b, "reset")
        t = fresh_t(p, "s", shape)
        t0 = t.snap()
        o = agent_with_state(ip, mod, cls, t)
        obs = PyList(SymSeq(b, lambda i: St("obs", i)), "obs")
        rew = PyList(SymSeq(b, lambda i: z3.Function("rew", I, z3.RealSort())(num(i)), True), "rew")
        ip.call(ip.getattr(o, "batch_observe"), [obs, rew, dl, rl])
        check_masked(p, o.f["test_recurrent_states"], t0, shape, lambda x: z3.Or(done(x), reset(x)), "evaluation")
        tr = o.f["train_recurrent_states"]
        p.prove(isinstance(tr, St) and tr.name == "train", "evaluation.training-states-untouched")

    return run


def units(tier):
    e = np_ext()
    e.update(torch_ext())
    mk = lambda n, f, covers=(): Unit(n, f, ext=e)
    us = [
        mk("mask[tensor, list]", u_mask_tensor("list")),
        mk("mask[tensor, int]", u_mask_tensor("int")),
        mk("mask[tuple]", u_map_tuple("mask_recurrent_state_at", [St("indices", 0)], ["indices"])),
        mk("mask[None]", u_none("mask_recurrent_state_at", St("indices", 0))),
        mk("mask[nested, list]", u_mask_tensor("list", True)),
        mk("get[tensor, list]", u_get("list")),
        mk("get[tensor, int]", u_get("int")),
        mk("get[tuple]", u_map_tuple("get_recurrent_state_at", [St("indices", 0), True], ["indices", "detach"])),
        mk("get[None]", u_none("get_recurrent_state_at", St("indices", 0), True)),
        mk("concatenate[tensors]", u_concat(False)),
        mk("concatenate[arrays]", u_concat(True)),
        mk("concatenate[tuples]", u_concat_tuple),
        mk("split-and-concatenate", u_roundtrip),
        mk("as_numpy[tensor]", u_convert("recurrent_state_as_numpy", False, True)),
        mk("as_numpy[tuple]", u_map_tuple("recurrent_state_as_numpy", [], [])),
        mk("as_numpy[None]", u_none("recurrent_state_as_numpy")),
        mk("from_numpy[array]", u_convert("recurrent_state_from_numpy", True, False, "cpu")),
        mk("from_numpy[tuple]", u_map_tuple("recurrent_state_from_numpy", [St("device", 0)], ["device"])),
        mk("from_numpy[None]", u_none("recurrent_state_from_numpy", "cpu")),
        mk("detach[tensor]", u_convert("detach_recurrent_state", False, False)),
        mk("detach[tuple]", u_map_tuple("detach_recurrent_state", [], [])),
        mk("detach[None]", u_none("detach_recurrent_state")),
        mk("_batch_reset_recurrent_states_when_episodes_end", u_reset),
    ]
    from . import c09, c24, flow, nets

    us += [u for u in flow.units(nets.agent_ext()) if "recurrent" in u.name]
    us += flow.units_single(nets.agent_ext())
    ev = [u for u in c24.units(tier) if "[recurrent]" in u.name]
    for u in ev:
        u.name = "evaluation: " + u.name
    us += ev
    us += [u for u in c09.units(tier) if u.name.startswith("DQN[recurrent") or u.name.startswith("StateQFunctionActor[recurrent")]
    for mod, cls in (("dqn", "DQN"), ("ppo", "PPO"), ("trpo", "TRPO")):
        us.append(mk(cls + ".batch_observe[evaluation]", u_observe_eval("pfrl.agents." + mod, cls)))
    return us
