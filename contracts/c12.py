"""C12: evaluators evaluate on schedule and keep the best agent."""
import z3

from pydv import seqs
from pydv.interp import exc
from pydv.unit import Unit
from pydv.values import Builtin, HModel, Model, Opaque, P, PyDict, PyExc, PyList, PyObj, SymSeq, Text, Unsupported, fold, is_term, num, real
from .loops import Logger, Not, b_

EV = "pfrl.experiments.evaluator"
R, I = z3.RealSort(), z3.IntSort()

TRUSTED = [
    "eval_performance: any statistics (proved separately under C11 to be those of the run)",
    "record_stats/write_header/tensorboard output: write to the output directory only",
    "multiprocessing.Value: its lock is mutual exclusion; every access to it goes through the methods under contract",
    "numpy.finfo(float32).min: a number no score is below",
]
ASSUMPTIONS = ["machine integers as integers, float32/float64 scores as reals", "eval_interval >= 1, step counts do not decrease",
               "other processes run the same (verified) methods: shared values only grow"]
BOUNDED = []


class Shared(HModel):
    """multiprocessing.Value protected by its lock: whenever the lock is free, other
    processes may move it along rel(old, new)"""

    ghost = True

    def __init__(self, label, val, rel):
        HModel.__init__(self, "shared:" + label)
        self.label, self.rel = label, rel
        self.f.update(val=val, held=False)
        self.on_write = None
        self.acquired = []
        self.wrote = []

    def fresh(self):
        p = P()
        v = self.f["val"]
        if isinstance(v, bool) or (is_term(v) and z3.is_bool(v)):
            n = p.bool(self.label)
        elif isinstance(v, int) or (is_term(v) and z3.is_int(v)):
            n = p.int(self.label)
        else:
            n = p.real(self.label)
        p.assume(self.rel(v, n))
        return n

    def m_get_lock(self, ip):
        return LockV(self)

    def getattr(self, ip, name):
        if name == "value":
            return self.f["val"] if self.f["held"] else self.fresh()
        return Model.getattr(self, ip, name)

    def setattr(self, ip, name, v):
        if name != "value":
            return Model.setattr(self, ip, name, v)
        P().prove(bool(self.f["held"]), "shared-%s-written-under-its-lock" % self.label)
        if not self.f["held"]:
            return
        self.wrote.append((self.f["val"], v))
        if self.on_write:
            self.on_write(self.f["val"], v)
        self.set("val", v)


class LockV(Model):
    def __init__(self, v):
        self.v = v

    def m___enter__(self, ip):
        v = self.v
        if v.f["held"]:
            v.depth = getattr(v, "depth", 1) + 1      # multiprocessing uses an RLock
            return True
        n = v.fresh()
        v.set("val", n)
        v.set("held", True)
        v.depth = 1
        v.acquired.append(n)
        return True

    def m___exit__(self, ip, *a):
        self.v.depth -= 1
        if not self.v.depth:
            self.v.set("held", False)
        return None

    def m_acquire(self, ip, *a, **k):
        return self.m___enter__(ip)

    def m_release(self, ip):
        return self.m___exit__(ip)


class Env(Model):
    def __init__(self, stats):
        self.stats = stats

    def truth(self, ip):
        return True

    def getattr(self, ip, name):
        if name == "get_statistics" and self.stats:
            return Builtin(name, lambda ip: PyList([], "stats"))
        if name == "clear_statistics" and self.stats:
            return Builtin(name, lambda ip: None)
        raise exc("AttributeError", name)


class Agent(Model):
    def __init__(self, log, guard=None):
        self.log, self.guard = log, guard

    def m_get_statistics(self, ip):
        return PyList([], "stats")

    def m_save(self, ip, path):
        self.log.append(path)
        if self.guard:
            self.guard()


def is_best(path):
    if isinstance(path, str):
        return path.split("/")[-1] == "best"
    return isinstance(path, Text) and isinstance(path.parts[-1], str) and path.parts[-1].split("/")[-1] == "best"


def stats_of(p, ip, mean):
    d = {"mean": mean, "episodes": p.int("episodes")}
    for k in ("median", "stdev", "max", "min", "length_mean", "length_median", "length_stdev", "length_max", "length_min"):
        d[k] = p.real(k)
    return PyDict(d, "eval_stats")


def install(ip, p, calls, want, mean, recorded):
    def perf(ip, f, a, k):
        got = dict(zip(("env", "agent", "n_steps", "n_episodes", "max_episode_len", "logger"), a))
        got.update(k)
        calls.append(1)
        for key, v in want.items():
            x = got.get(key)
            same = x is v or (is_term(v) and x is not None and is_term(x) and z3.eq(x, v))
            p.prove(bool(same), "evaluation-gets-%s" % key)
        return stats_of(p, ip, mean)

    ip.contracts[EV + ".eval_performance"] = perf
    ip.contracts[EV + ".record_stats"] = lambda ip, f, a, k: recorded.append((list(a) + list(k.values()))[1])
    ip.contracts[EV + ".write_header"] = lambda ip, f, a, k: None
    ip.contracts[EV + ".create_tb_writer"] = lambda ip, f, a, k: Opaque("tb")
    ip.contracts[EV + ".record_tb_stats"] = lambda ip, f, a, k: None


def eval_ext():
    class Finfo(Model):
        def p_min(self, ip):
            return P().ghost["lowest"]

    return {"numpy.finfo": Builtin("finfo", lambda ip, *a: Finfo()),
            "time.time": Builtin("time", lambda ip: P().real("time")),
            "logging.getLogger": Builtin("getLogger", lambda ip, *a: Logger()),
            "multiprocessing.Value": Builtin("Value", lambda ip, code, v=0: P().ghost["mkvalue"](code, v))}


class HookM(Model):
    def __init__(self, want, log):
        self.want, self.log = want, log

    def m___call__(self, ip, **k):
        p = P()
        for key, v in self.want().items():
            x = k.get(key)
            if key == "step":
                p.prove_eq(x, v, "hook-gets-the-step")
            else:
                p.prove(x is v, "hook-gets-the-%s" % key)
        p.prove_eq(ip.getitem(k["eval_stats"], "mean"), self.mean, "hook-gets-the-statistics")
        self.log.append(1)


def base(p):
    Iv, off = p.int("eval_interval"), p.int("step_offset")
    p.assume(z3.And(Iv >= 1, off >= 0))
    p.ghost["lowest"] = p.real("lowest")
    return Iv, off


def q_of(p, t, Iv, nm):
    """number of boundaries up to t"""
    q, r = p.int(nm), p.int(nm + "_r")
    t = num(t)
    p.assume(z3.And(t == Iv * q + r, r >= 0, r < Iv))
    p.assume(z3.And(t % Iv == r, t / Iv == q))
    return q


def mono(p, Iv, a, b):
    """Iv >= 1: multiplication by Iv is monotone (lemma, proved on its own below)"""
    p.assume(z3.Implies(a >= b + 1, Iv * a >= Iv * b + Iv))
    p.assume(z3.Implies(a <= b, Iv * a <= Iv * b))


def u_lemma(ip, p):
    Iv, d, b = p.int("I"), p.int("d"), p.int("b")
    p.assume(Iv >= 1)
    # Iv*(b+1+d) - Iv*b - Iv = Iv*d >= 0 for d >= 0
    p.prove(fold(z3.Implies(d >= 0, Iv * d >= 0)), "product-of-nonnegatives")
    a = p.int("a")
    p.prove(fold(Iv * a - Iv * b - Iv == Iv * (a - b - 1)), "distributivity")
    p.prove(fold(Iv * b - Iv * a == Iv * (b - a)), "distributivity")


def u_sync(tb, hooks_n):
    def run(ip, p):
        Iv, off = base(p)
        saves, calls, recorded, hooked = [], [], [], []
        mean = p.real("mean")
        p.assume(mean >= p.ghost["lowest"])
        by_steps = p.choose(2)
        n = p.int("n")
        mx = p.int("max_len")
        env, ag = Env(p.choose(2)), Agent(saves)
        sv = p.bool("save_best")
        logger = Logger()
        outdir = Opaque("outdir")
        want = dict(env=env, agent=ag, n_steps=n if by_steps else None, n_episodes=None if by_steps else n, max_episode_len=mx)
        install(ip, p, calls, want, mean, recorded)
        ev = [None]
        tt = [None]
        hk = HookM(lambda: dict(env=env, agent=ag, evaluator=ev[0], step=tt[0]), hooked)
        hk.mean = mean
        o = ip.call(ip.get_class(EV, "Evaluator"), [], dict(
            agent=ag, env=env, n_steps=want["n_steps"], n_episodes=want["n_episodes"], eval_interval=Iv, outdir=outdir,
            max_episode_len=mx, step_offset=off, evaluation_hooks=(hk,) * hooks_n, save_best_so_far_agent=sv, logger=logger,
            use_tensorboard=tb))
        ev[0] = o
        q0 = q_of(p, off, Iv, "q0")
        p.prove(not calls and not saves, "construction-does-not-evaluate")
        p.prove_eq(ip.getattr(o, "max_score"), p.ghost["lowest"], "no-score-yet")
        # representation invariant: prev_eval_t is the last boundary at or before the last evaluation
        if "prev_eval_t" not in o.f:
            raise Unsupported("representation of Evaluator")
        p.prove(fold(num(o.f["prev_eval_t"]) == Iv * q0), "starts-at-the-boundary-before-the-offset")
        # an arbitrary later state
        q, best, evaluated = p.int("q"), p.real("best"), p.bool("evaluated")
        p.assume(q >= q0)
        p.assume(best >= p.ghost["lowest"])
        o.set("prev_eval_t", fold(Iv * q))
        o.set("max_score", best)
        t, eps = p.int("t"), p.int("episodes")
        tt[0] = t
        p.assume(t >= Iv * q)
        qt = q_of(p, t, Iv, "qt")
        mono(p, Iv, qt, q)
        r = ip.call(ip.getattr(o, "evaluate_if_necessary"), [], dict(t=t, episodes=eps))
        crossed = qt > q
        p.prove(fold(b_(len(calls) == 1) == crossed) if len(calls) <= 1 else False, "evaluates-exactly-when-a-boundary-was-crossed")
        if r is None:
            p.prove(not calls, "a-score-is-reported-iff-evaluated")
            p.prove_eq(o.f["max_score"], best, "maximum-unchanged-without-evaluation")
            p.prove(fold(num(o.f["prev_eval_t"]) == Iv * q), "schedule-unchanged-without-evaluation")
            p.prove(not saves and not hooked, "nothing-saved-without-evaluation")
            return
        p.prove(len(calls) == 1, "a-score-is-reported-iff-evaluated")
        p.prove_eq(r, mean, "reports-the-score-of-the-run")
        p.prove(fold(real(ip.getattr(o, "max_score")) == z3.If(mean > best, mean, best)), "keeps-the-maximum")
        p.prove(fold(num(o.f["prev_eval_t"]) == Iv * qt), "schedule-continues-from-the-last-boundary")
        bests = [x for x in saves if is_best(x)]
        p.prove(len(bests) == len(saves) and len(bests) <= 1, "saves-only-the-best-agent")
        p.prove(fold(b_(len(bests) == 1) == z3.And(mean > best, sv)), "saves-the-best-agent-exactly-on-improvement")
        p.prove(len(hooked) == hooks_n, "each-hook-called-once")
        p.prove(len(recorded) == 1, "statistics-recorded-once")

    return run


def u_async(hooks_n):
    def run(ip, p):
        Iv, off = base(p)
        saves, calls, recorded, hooked, headers = [], [], [], [], []
        mean = p.real("mean")
        p.assume(mean >= p.ghost["lowest"])
        vals = []

        def mk(code, v):
            if code in ("b", "?") or isinstance(v, bool):
                s = Shared("flag", bool(v) if not is_term(v) else v, lambda a, b: z3.Implies(b_(a), b))
            elif code in ("f", "d"):
                s = Shared("score", v, lambda a, b: b >= real(a))
            else:
                s = Shared("schedule", v, lambda a, b: b >= num(a))
            vals.append(s)
            return s

        p.ghost["mkvalue"] = mk
        by_steps = p.choose(2)
        n, mx = p.int("n"), p.int("max_len")
        sv = p.bool("save_best")
        score = []
        env = Env(p.choose(2))
        ag = Agent(saves, lambda: p.prove(bool(score[0].f["held"]), "best-agent-saved-under-the-score-lock"))
        want = dict(env=env, agent=ag, n_steps=n if by_steps else None, n_episodes=None if by_steps else n, max_episode_len=mx)
        install(ip, p, calls, want, mean, recorded)
        ev, tt = [None], [None]
        hk = HookM(lambda: dict(env=env, agent=ag, evaluator=ev[0], step=tt[0]), hooked)
        hk.mean = mean
        o = ip.call(ip.get_class(EV, "AsyncEvaluator"), [], dict(
            n_steps=want["n_steps"], n_episodes=want["n_episodes"], eval_interval=Iv, outdir=Opaque("outdir"), max_episode_len=mx,
            step_offset=off, evaluation_hooks=(hk,) * hooks_n, save_best_so_far_agent=sv, logger=Logger()))
        ev[0] = o
        q0 = q_of(p, off, Iv, "q0")
        sched = [s for s in vals if s.label == "schedule"]
        score[:] = [s for s in vals if s.label == "score"]
        flags = [s for s in vals if s.label == "flag"]
        if len(sched) != 1 or len(score) != 1 or len(flags) != 1:
            raise Unsupported("shared state of AsyncEvaluator")
        sched, flag = sched[0], flags[0]
        p.prove(fold(num(sched.f["val"]) == Iv * q0), "starts-at-the-boundary-before-the-offset")
        p.prove_eq(score[0].f["val"], p.ghost["lowest"], "no-score-yet")

        def header(ip, f, a, k):
            p.prove(bool(flag.f["held"]), "header-written-under-its-lock")
            p.prove(Not(flag.f["val"]), "header-written-once")
            headers.append(1)

        ip.contracts[EV + ".write_header"] = header
        t, eps = p.int("t"), p.int("episodes")
        tt[0] = t
        claimed = []

        def claim(old, new):
            p.prove(fold(num(new) == num(old) + Iv), "schedule-advances-by-one-interval")
            p.prove(fold(num(t) >= num(old) + Iv), "only-a-boundary-that-was-reached-is-claimed")
            claimed.append(1)

        sched.on_write = claim

        def scored(old, new):
            p.prove(fold(z3.And(real(new) == mean, mean > real(old))), "maximum-only-replaced-by-a-greater-score")

        score[0].on_write = scored
        r = ip.call(ip.getattr(o, "evaluate_if_necessary"), [], dict(t=t, episodes=eps, env=env, agent=ag))
        p.prove(len(claimed) <= 1 and len(claimed) == len(calls), "one-evaluation-per-claimed-boundary")
        if not sched.acquired:
            raise Unsupported("schedule read without its lock")
        p.prove(fold(b_(len(claimed) == 1) == (num(t) >= num(sched.acquired[0]) + Iv)), "a-reached-boundary-is-claimed")
        p.prove(fold(z3.Or(b_(not headers), b_(flag.f["val"]))), "header-flag-set")
        p.prove(not any(s.f["held"] for s in vals), "locks-released")
        if r is None:
            p.prove(not calls, "a-score-is-reported-iff-evaluated")
            p.prove(not saves and not hooked and not score[0].wrote, "nothing-changes-without-evaluation")
            return
        p.prove(len(calls) == 1, "a-score-is-reported-iff-evaluated")
        p.prove_eq(r, mean, "reports-the-score-of-the-run")
        if not score[0].acquired:
            raise Unsupported("score compared without its lock")
        old = score[0].wrote[0][0] if score[0].wrote else score[0].acquired[-1]
        p.prove(fold(b_(len(score[0].wrote) == 1) == (mean > real(old))), "maximum-replaced-exactly-on-improvement")
        bests = [x for x in saves if is_best(x)]
        p.prove(len(bests) == len(saves) and len(bests) <= 1, "saves-only-the-best-agent")
        p.prove(fold(b_(len(bests) == 1) == z3.And(mean > real(old), sv)), "saves-the-best-agent-exactly-on-improvement")
        p.prove(len(hooked) == hooks_n, "each-hook-called-once")
        p.prove(len(recorded) == 1, "statistics-recorded-once")
        now = ip.getattr(o, "max_score")
        p.prove(fold(z3.And(real(now) >= mean, real(now) >= real(old))), "shared-maximum-never-lost")

    return run


class EvUnit(Unit):
    pass


def units(tier):
    return [
        EvUnit("schedule lemma", u_lemma),
        EvUnit("Evaluator", u_sync(False, 2), ext=eval_ext()),
        EvUnit("Evaluator[tensorboard]", u_sync(True, 0), ext=eval_ext()),
        EvUnit("AsyncEvaluator", u_async(2), ext=eval_ext()),
        EvUnit("AsyncEvaluator[no hooks]", u_async(0), ext=eval_ext()),
    ]
