"""C11: evaluation runs are exact, in evaluation mode, and restore the mode."""
import z3

from pydv import seqs
from pydv.interp import exc
from pydv.tensor import T, np_ext
from pydv.values import Builtin, HModel, Model, Obj, Opaque, P, PyDict, PyExc, PyList, SymSeq, Unsupported, fold, is_term, num, real
from . import beval
from .loops import AgentM, EnvM, Logger, LoopUnit, Not, Proto, VAgentM, VEnvM, VLoopUnit, VProto, b_, loop_ext

EV = "pfrl.experiments.evaluator"
R, I = z3.RealSort(), z3.IntSort()

TRUSTED = [
    "environment and agent are arbitrary code behind their documented interfaces",
    "statistics.mean/median/stdev, numpy.max/min compute what they are named after",
]
ASSUMPTIONS = ["n_steps >= 1, n_episodes >= 1, max_episode_len None or >= 1", "float() of a number is that number (real arithmetic)"]
BOUNDED = []


class EMixin:
    """completed episodes (returns, lengths), and whether the agent was last told to reset"""

    def init_eval(self, mode0):
        p = P()
        self.f["nc"] = 0
        self.f["RA"] = z3.Const(p.name("RA"), z3.ArraySort(I, R))
        self.f["LA"] = z3.Const(p.name("LA"), z3.ArraySort(I, I))
        self.f["told"] = True
        self.on_step = self._step
        self.on_observe = self._observe

    def havoc_field(self, field, init):
        p = P()
        if is_term(init):
            return z3.Const(p.name(field), init.sort())
        if isinstance(init, bool):
            return p.bool(field)
        if isinstance(init, int):
            return p.int(field)
        raise Unsupported("ghost field")

    def ends(self):
        f = self.f
        return fold(z3.Or(b_(f["done"]), b_(f["needs"]), b_(self.limit(f["elen"]))))

    def _step(self, ip):
        f = self.f
        e = b_(self.ends())
        n = num(f["nc"])
        self.set("RA", z3.If(e, z3.Store(f["RA"], n, real(f["ret"])), f["RA"]))
        self.set("LA", z3.If(e, z3.Store(f["LA"], n, num(f["elen"])), f["LA"]))
        self.set("nc", fold(z3.If(e, n + 1, n)))

    def _observe(self, ip, done, reset):
        p = P()
        told = fold(z3.Or(b_(done), b_(reset)))
        p.prove(fold(z3.Implies(b_(self.ends()), b_(told))), "episode-end-observed-as-done-or-reset")
        self.set("told", told)

    def seq(self, nm):
        a = self.f[nm]
        return SymSeq(self.f["nc"], lambda i: z3.Select(a, num(i)), True)


class EProto(EMixin, Proto):
    pass


class EVProto(EMixin, VProto):
    pass


class EAgentMixin:
    def m_act(self, ip, obs):
        g = self.g
        P().prove(fold(z3.Or(num(g.f["elen"]) == 0, Not(g.f["told"]))), "no-act-in-an-episode-declared-over")
        return super().m_act(ip, obs)

    def m_batch_act(self, ip, obss):
        g = self.g
        P().prove(fold(z3.Or(num(g.f["elen"]) == 0, Not(g.f["told"]))), "no-act-in-an-episode-declared-over")
        return super().m_batch_act(ip, obss)

    def m_eval_mode(self, ip):
        m, _ = ip.get_class("pfrl.agent", "Agent").lookup("eval_mode")
        return ip.call(m, [self])


class EAgent(EAgentMixin, AgentM):
    pass


class EVAgent(EAgentMixin, VAgentM):
    pass


class EvalUnit(LoopUnit):
    def loop_anchors(self, ctx, k, loc):
        p = P()
        g = p.ghost.get("proto")
        out = LoopUnit.loop_anchors(self, ctx, k, loc)
        o = p.objs.get(loc[0])
        if isinstance(o, PyList) and loc[1] == "data":
            out["returns"] = lambda: g.seq("RA")
            out["lengths"] = lambda: g.seq("LA")
        return out

    def loop_preds(self, ctx, k):
        p = P()
        g = p.ghost.get("proto")
        out = LoopUnit.loop_preds(self, ctx, k)
        if not out:
            return out
        f = g.f
        N, E = p.ghost["n_steps"], p.ghost["n_episodes"]
        out["nc>=0"] = lambda: fold(num(f["nc"]) >= 0)
        out["told=ended"] = lambda: fold(b_(f["told"]) == b_(f["ended"]))
        out["told|elen"] = lambda: fold(z3.Or(num(f["elen"]) == 0, b_(f["told"]) == b_(f["ended"])))
        if N is not None:
            out["steps-left"] = lambda: fold(num(f["nsteps"]) < num(N))
            out["steps-within"] = lambda: fold(num(f["nsteps"]) <= num(N))
            out["told=ended|over"] = lambda: fold(b_(f["told"]) == z3.Or(b_(f["ended"]), num(f["nsteps"]) >= num(N)))
            out["told=ended|over|elen"] = lambda: fold(z3.Or(num(f["elen"]) == 0, b_(f["told"]) == z3.Or(b_(f["ended"]), num(f["nsteps"]) >= num(N))))
            out["done-or-left"] = lambda: fold(z3.Or(num(f["nsteps"]) < num(N), b_(f["told"])))
        else:
            out["episodes-left"] = lambda: fold(num(f["nc"]) < num(E))
            out["episodes-within"] = lambda: fold(num(f["nc"]) <= num(E))
            out["last-ended"] = lambda: fold(z3.Or(num(f["nc"]) < num(E), b_(f["told"])))
        out["stepped"] = lambda: fold(num(f["nsteps"]) >= 1)
        out["elen-pos"] = lambda: fold(z3.Or(num(f["elen"]) >= 1, b_(f["ended"])))
        for nm, v in list(ctx.fr.f.items()):
            if isinstance(v, bool) or (is_term(v) and z3.is_bool(v)):
                loc = (ctx.fr.uid, nm)
                if loc not in ctx.init:
                    continue
                at = lambda nm=nm: b_(ctx.fr.f[nm])
                if N is not None:
                    out[nm + "=steps-done"] = lambda at=at: fold(at() == (num(f["nsteps"]) >= num(N)))
                else:
                    out[nm + "=episodes-done"] = lambda at=at: fold(at() == (num(f["nc"]) >= num(E)))
        return out


def params(p, by_steps, has_max):
    n = p.int("n")
    p.assume(n >= 1)
    mx = None
    if has_max:
        mx = p.int("max_episode_len")
        p.assume(mx >= 1)
    p.ghost["n_steps"], p.ghost["n_episodes"] = (n, None) if by_steps else (None, n)
    p.ghost["offset"] = 0
    return n, mx


def u_serial(by_steps, has_max, faults):
    def run(ip, p):
        n, mx = params(p, by_steps, has_max)
        g = EProto(mx, "eval")
        g.init_eval(None)
        g.faults = faults
        p.ghost["proto"] = g
        mode0 = p.bool("was_training")
        env, ag = EnvM(g), EAgent(g, False, training=mode0)
        caught = None
        r = None
        try:
            r = ip.call(ip.get_func(EV, "run_evaluation_episodes"), [], dict(
                env=env, agent=ag, n_steps=n if by_steps else None, n_episodes=None if by_steps else n,
                max_episode_len=mx, logger=Logger()))
        except PyExc as e:
            caught = e
        p.prove_eq(ag.f["training"], mode0, "mode-restored")
        if g.raised:
            p.prove(caught is not None and caught.value is g.raised[0][0].value, "exception-propagates")
            return
        if caught is not None:
            raise caught
        f = g.f
        p.prove(b_(f["told"]), "the-run-ends-with-a-reset")
        p.prove(Not(f["pending"]), "last-step-observed")
        if not (isinstance(r, tuple) and len(r) == 2):
            raise Unsupported("result of run_evaluation_episodes")
        sc, ln = r
        if by_steps:
            p.prove(fold(num(f["nsteps"]) == n), "exactly-the-requested-steps")
            if p.decide(fold(num(f["nc"]) == 0)):
                p.prove_eq(ip.length(sc), 1, "single-cut-episode")
                p.prove_eq(ip.getitem(sc, 0), f["ret"], "return-of-the-cut-episode")
                p.prove_eq(ip.length(ln), 1, "single-cut-episode")
                p.prove_eq(ip.getitem(ln, 0), f["elen"], "length-of-the-cut-episode")
                return
        else:
            p.prove(fold(num(f["nc"]) == n), "exactly-the-requested-episodes")
        same(p, sc, g.seq("RA"), "returns-of-the-completed-episodes")
        same(p, ln, g.seq("LA"), "lengths-of-the-completed-episodes")

    return run


def same(p, lst, seq, name):
    d = lst.f["data"] if isinstance(lst, PyList) else lst
    p.prove_eq(seqs.seq_len(d), seq.n, name + ".count")
    s = seqs.as_seq(d)

    def eq(i):
        a, b = seqs.seq_at(s, i), seqs.seq_at(seq, i)
        if is_term(a) and a.sort() == Obj:
            return z3.BoolVal(False)    # a list of which the loop invariant says nothing
        return fold(real(a) == real(b))

    p.prove_forall(seq.n, eq, name)


class AnyDict(Model):
    """a dictionary of which nothing is claimed"""

    def setitem(self, ip, k, v):
        return None

    def getitem(self, ip, k):
        return P().real("any")

    def contains(self, ip, k):
        return P().bool("has")


def u_batch(by_steps, has_max, faults):
    def run(ip, p):
        n, mx = params(p, by_steps, has_max)
        N, j = p.int("num_envs"), p.int("env")
        p.assume(z3.And(N >= 1, j >= 0, j < N))
        if p.unit.mode == "bmc":
            N = p.expand(N)
            j = p.expand(j)
        g = EVProto(mx, N, j, "eval")
        g.init_eval(None)
        g.faults = faults
        p.ghost["proto"] = g
        mode0 = p.bool("was_training")
        env, ag = VEnvM(g), EVAgent(g, False, training=mode0)
        caught = None
        try:
            ip.call(ip.get_func(EV, "batch_run_evaluation_episodes"), [], dict(
                env=env, agent=ag, n_steps=n if by_steps else None, n_episodes=None if by_steps else n,
                max_episode_len=mx, logger=Logger()))
        except PyExc as e:
            caught = e
        p.prove_eq(ag.f["training"], mode0, "mode-restored")
        if g.raised:
            p.prove(caught is not None and caught.value is g.raised[0][0].value, "exception-propagates")
            return
        if caught is not None:
            raise caught
        p.prove(b_(g.f["told"]), "the-run-ends-with-a-reset")
        p.prove(Not(g.f["pending"]), "last-step-observed")

    return run


class Tagged(Opaque):
    def __init__(self, nm, arg):
        Opaque.__init__(self, nm)
        self.nm, self.arg = nm, arg


def u_perf(vector, by_steps):
    def run(ip, p):
        n, mx = params(p, by_steps, True)
        cnt = p.int("count")
        p.assume(cnt >= 1)
        fs, fl = p.fn("scores", I, R), p.fn("lens", I, R)
        S = PyList(SymSeq(cnt, lambda i: fs(num(i))), "scores")
        L = PyList(SymSeq(cnt, lambda i: fl(num(i))), "lengths")
        env, agent, logger = (VecStub() if vector else Stub()), Opaque("agent"), Logger()
        want = dict(env=env, agent=agent, n_steps=n if by_steps else None, n_episodes=None if by_steps else n,
                    max_episode_len=mx, logger=logger)
        calls = []

        def runner(nm):
            def c(ip, f, a, k):
                got = dict(zip(("env", "agent", "n_steps", "n_episodes", "max_episode_len", "logger"), a))
                got.update(k)
                calls.append(nm)
                for key, v in want.items():
                    if key == "logger":
                        continue
                    x = got.get(key)
                    p.prove(x is v or (x is not None and v is not None and is_term(v) and z3.eq(num(x), num(v))), "runner-gets-%s" % key)
                return (S, L)

            return c

        ip.contracts[EV + ".batch_run_evaluation_episodes"] = runner("batch")
        ip.contracts[EV + ".run_evaluation_episodes"] = runner("serial")
        st = ip.call(ip.get_func(EV, "eval_performance"), [env, agent, want["n_steps"], want["n_episodes"]],
                     dict(max_episode_len=mx, logger=logger))
        p.prove(calls == ["batch" if vector else "serial"], "one-run-of-the-right-kind")
        p.prove_eq(ip.getitem(st, "episodes"), cnt, "number-of-episodes")
        for pre, lst in (("", S), ("length_", L)):
            for nm in ("mean", "median", "max", "min", "stdev"):
                v = ip.getitem(st, pre + nm)
                if nm == "stdev" and not isinstance(v, Tagged):
                    p.prove(fold(z3.And(cnt < 2, real(v) == 0)), "stdev-of-one-is-zero")
                    continue
                p.prove(isinstance(v, Tagged) and v.nm == nm and v.arg is lst, "statistic-%s%s" % (pre, nm))

    return run


class Stub(Model):
    def isinstance_(self, ip, t):
        return False

    def truth(self, ip):
        return True


class VecStub(Stub):
    def isinstance_(self, ip, t):
        return getattr(t, "name", "").endswith("VectorEnv")


def perf_ext():
    e = loop_ext()
    for nm, tag in (("statistics.mean", "mean"), ("statistics.median", "median"), ("statistics.stdev", "stdev"),
                    ("numpy.max", "max"), ("numpy.min", "min"), ("numpy.mean", "mean"), ("numpy.median", "median")):
        e[nm] = Builtin(nm, lambda ip, x, *a, tag=tag, **k: Tagged(tag, x))
    return e


class VEvalUnit(VLoopUnit):
    time_limit = 200

    def new_dict(self, ip):
        return AnyDict()

    def obj_float(self, ip, x):
        return P().real("float")

    def loop_preds(self, ctx, k):
        p = P()
        g = p.ghost.get("proto")
        out = VLoopUnit.loop_preds(self, ctx, k)
        if not out:
            return out
        f = g.f
        out["told=ended"] = lambda: fold(b_(f["told"]) == b_(f["ended"]))
        out["told|elen"] = lambda: fold(z3.Or(num(f["elen"]) == 0, b_(f["told"]) == b_(f["ended"])))
        return out


def batch_ext():
    e = dict(np_ext())
    e.update(loop_ext())

    def where(ip, mask, *a):
        if a:
            raise Unsupported("numpy.where with values")
        i = P().int("the_index")
        P().assume(z3.And(i >= 0, i < num(mask.shape[0])))
        return (i,)

    e["numpy.where"] = Builtin("numpy.where", where)
    return e


def units(tier):
    us = []
    for st in (False, True):
        for mx in (False, True):
            us.append(EvalUnit("run_evaluation_episodes[%s%s]" % ("steps" if st else "episodes", ", max_episode_len" if mx else ""),
                               u_serial(st, mx, False), ext=loop_ext()))
    us.append(EvalUnit("run_evaluation_episodes[exceptions]", u_serial(False, True, True), ext=loop_ext()))
    us.append(EvalUnit("run_evaluation_episodes[steps, exceptions]", u_serial(True, True, True), ext=loop_ext()))
    for st in (False, True):
        for mx in (False, True):
            nm = "%s%s" % ("steps" if st else "episodes", ", max_episode_len" if mx else "")
            us.append(VEvalUnit("batch_run_evaluation_episodes[%s]" % nm, u_batch(st, mx, False), ext=batch_ext()))
            us.append(beval.BEvalUnit("batch_run_evaluation_episodes[results, %s]" % nm, beval.u_batch(st, mx, False), ext=batch_ext()))
    us.append(VEvalUnit("batch_run_evaluation_episodes[exceptions]", u_batch(True, True, True), ext=batch_ext()))
    for v in (False, True):
        for st in (False, True):
            us.append(LoopUnit("eval_performance[%s, %s]" % ("vector" if v else "single", "steps" if st else "episodes"), u_perf(v, st), ext=perf_ext()))
    return us
