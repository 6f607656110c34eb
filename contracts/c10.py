"""C10: training loops follow the agent-environment protocol."""
import z3

from pydv import seqs
from pydv.values import Builtin, HModel, Model, Opaque, P, PyExc, PyList, Text, Unsupported, fold, is_term, num, real
from pydv.tensor import np_ext
from .nets import Record
from pydv.interp import exc
from .loops import Event, SharedValue, VAgentM, VEnvM, VHook, VLoopUnit, VProto, AgentM, EnvM, Hook, Logger, LoopUnit, Not, Proto, b_, loop_ext

TRUSTED = [
    "the environment, agent and hooks are arbitrary code behind their documented interfaces: any result, any exception, "
    "no writes to the loop's own variables",
]
ASSUMPTIONS = ["needs_reset in info is False or absent-as-False unless requested", "machine integers as integers"]
BOUNDED = ["train_agent_async end to end (processes, signals) by the replay harness only"]


class EvalM(Model):
    """any evaluator: may or may not evaluate, with any score"""

    def __init__(self, g, offset, during):
        self.g, self.offset, self.during = g, offset, during
        self.best = None

    def truth(self, ip):
        return True

    def p_env(self, ip):
        return EnvM(self.g)

    def p_max_score(self, ip):
        if self.best is None:
            self.best = P().real("max_score")
        return self.best

    def m_evaluate_if_necessary(self, ip, t, episodes, **k):
        g, p = self.g, P()
        p.prove(fold(num(t) == num(self.offset) + num(g.f["nsteps"])), "evaluator-gets-the-step-number")
        p.prove(Not(g.f["pending"]), "evaluation-between-steps")
        if not self.during:
            p.prove(fold(z3.Or(b_(g.f["ended"]), num(t) == num(p.ghost["steps"]))), "no-evaluation-during-an-episode")
        self.best = p.real("max_score")
        g.fault("evaluate")
        if p.choose(2):
            return p.real("score")
        return None


def dirname_is(p, path, t, suffix):
    """directory name is <t><suffix>"""
    if isinstance(path, str):
        return path.endswith(suffix)
    if not isinstance(path, Text):
        raise Unsupported("directory name %r" % (path,))
    ps = path.parts
    if not isinstance(ps[-1], str) or not ps[-1].endswith(suffix):
        return False
    if ps[-1] == suffix:
        return fold(num(ps[-2]) == num(t)) if len(ps) > 1 and (is_term(ps[-2]) or isinstance(ps[-2], int)) else False
    n = ps[-1][: -len(suffix)].replace("\\", "/").split("/")[-1]
    return fold(num(t) == int(n)) if n.isdigit() else False


def setup(ip, p, has_max, faults, evaluator, during=False, has_t=True):
    steps, off = p.int("steps"), p.int("step_offset")
    p.assume(off >= 0)
    mx = None
    if has_max:
        mx = p.int("max_episode_len")
        p.assume(mx >= 1)
    g = Proto(mx)
    g.faults = faults
    p.ghost["proto"], p.ghost["steps"], p.ghost["offset"] = g, steps, off
    env, ag = EnvM(g), AgentM(g, has_t)
    hooks = [Hook(g, "hook%d" % i, off, env, ag) for i in range(2)]
    ev = EvalM(g, off, during) if evaluator else None
    return g, env, ag, hooks, ev, steps, off


def u_serial(has_max, faults, evaluator, during=False, has_t=True):
    def run(ip, p):
        g, env, ag, hooks, ev, steps, off = setup(ip, p, has_max, faults, evaluator, during, has_t)
        good = p.real("successful_score") if evaluator else None
        cf = p.int("checkpoint_freq") if not faults else None
        if cf is not None:
            p.assume(cf >= 1)
        caught = None
        try:
            ip.call(ip.get_func("pfrl.experiments.train_agent", "train_agent"), [], dict(
                agent=ag, env=env, steps=steps, outdir=Opaque("outdir"), checkpoint_freq=cf,
                max_episode_len=g.max_len, step_offset=off, evaluator=ev, successful_score=good,
                step_hooks=PyList(list(hooks), "hooks"), eval_during_episode=during, logger=Logger()))
        except PyExc as e:
            caught = e
        n = g.f["nsteps"]
        if g.raised:
            p.prove(caught is not None and caught.value is g.raised[0][0].value, "exception-reraised")
            if g.raised[0][1] == "reset" and not g.saves:
                return  # before the first episode there is nothing to save
            p.prove(len(g.saves) >= 1 and dirname_is(p, g.saves[-1], fold(num(off) + num(n)), "_except"), "saved-on-exception")
            return
        if caught is not None:
            raise caught
        p.prove(len(g.saves) >= 1 and dirname_is(p, g.saves[-1], fold(num(off) + num(n)), "_finish"), "saved-on-completion")
        p.prove(Not(g.f["pending"]), "last-step-observed")
        for h in hooks:
            p.prove(fold(num(g.f[h.name]) == num(n)), "hook-called-for-every-step")
        want = fold(z3.If(steps > off, steps - off, 0))
        ok = fold(num(n) == want)
        if evaluator:
            ok = z3.And(num(n) <= want, z3.Or(ok, ev.best >= good) if ev.best is not None else ok)
        p.prove(ok, "exactly-the-requested-steps")
        if has_t:
            p.prove_eq(ag.f["t"], off, "agent-starts-at-the-offset")

    return run


def u_batch(has_max, faults, evaluator, has_t=True):
    def run(ip, p):
        steps, off = p.int("steps"), p.int("step_offset")
        N, j = p.int("num_envs"), p.int("env")
        p.assume(z3.And(off >= 0, N >= 1, j >= 0, j < N))
        if p.unit.mode == "bmc":
            N = p.expand(N)
            j = p.expand(j)
        mx = None
        if has_max:
            mx = p.int("max_episode_len")
            p.assume(mx >= 1)
        g = VProto(mx, N, j)
        g.faults = faults
        p.ghost["proto"], p.ghost["steps"], p.ghost["offset"] = g, steps, off
        env, ag = VEnvM(g), VAgentM(g, has_t)
        hooks = [VHook(g, "hook%d" % i, off, env, ag) for i in range(1)]
        ev = VEvalM(g, off, True) if evaluator else None
        good = p.real("successful_score") if evaluator else None
        caught = None
        try:
            ip.call(ip.get_func("pfrl.experiments.train_agent_batch", "train_agent_batch"), [], dict(
                agent=ag, env=env, steps=steps, outdir=Opaque("outdir"), max_episode_len=mx, step_offset=off,
                evaluator=ev, successful_score=good, step_hooks=PyList(list(hooks), "hooks"), logger=Logger()))
        except PyExc as e:
            caught = e
        tot = num(g.f["tot"])
        if g.raised:
            p.prove(caught is not None and caught.value is g.raised[0][0].value, "exception-reraised")
            if g.raised[0][1] == "reset" and not g.saves:
                return  # before the first episode there is nothing to save
            p.prove(len(g.saves) >= 1 and dirname_ends(g.saves[-1], "_except"), "saved-on-exception")
            return
        if caught is not None:
            raise caught
        p.prove(len(g.saves) >= 1 and dirname_is(p, g.saves[-1], fold(num(off) + tot), "_finish"), "saved-on-completion")
        p.prove(Not(g.f["pending"]), "last-step-observed")
        for h in hooks:
            p.prove(fold(num(g.f[h.name]) == tot), "hook-called-for-every-step")
        enough = num(off) + tot >= num(steps)
        if evaluator:
            enough = z3.Or(enough, ev.best >= good)
        p.prove(fold(enough), "at-least-the-requested-steps")
        p.prove(fold(z3.Or(tot == num(N), num(off) + tot - num(N) < num(steps))), "no-batch-step-beyond-the-request")
        if has_t:
            p.prove_eq(ag.f["t"], off, "agent-starts-at-the-offset")

    return run


class VEvalM(EvalM):
    def m_evaluate_if_necessary(self, ip, t, episodes, **k):
        g, p = self.g, P()
        p.prove(fold(num(t) == num(self.offset) + num(g.f["tot"])), "evaluator-gets-the-step-number")
        p.prove(Not(g.f["pending"]), "evaluation-between-steps")
        self.best = p.real("max_score")
        g.fault("evaluate")
        if p.choose(2):
            return p.real("score")
        return None


def dirname_ends(path, suffix):
    if isinstance(path, str):
        return path.endswith(suffix)
    if not isinstance(path, Text):
        raise Unsupported("directory name %r" % (path,))
    return isinstance(path.parts[-1], str) and path.parts[-1].endswith(suffix)


class AHook(Hook):
    def m___call__(self, ip, env, agent, t):
        g, p = self.g, P()
        p.prove(env is self.env and agent is self.agent, "hook-gets-env-and-agent")
        p.prove_eq(t, g.f["mine"], "hook-gets-the-global-step-of-this-step")
        p.prove(fold(num(g.f[self.name]) + 1 == num(g.f["nsteps"])), "hook-called-once-per-step")
        g.fault("hook")
        g.set(self.name, seqs.add(g.f[self.name], 1))


class AEvalM(Model):
    def __init__(self, g):
        self.g = g
        self.last = None

    def truth(self, ip):
        return True

    def m_evaluate_if_necessary(self, ip, t, episodes, env, agent):
        g, p = self.g, P()
        p.prove_eq(t, g.f["mine"], "evaluator-gets-the-global-step")
        p.prove(Not(g.f["pending"]), "evaluation-between-steps")
        g.fault("evaluate")
        self.last = p.real("score") if p.choose(2) else None
        return self.last


def u_async(idx0, faults, evaluator):
    def run(ip, p):
        steps = p.int("steps")
        p.assume(steps >= 1)
        mx = p.int("max_episode_len")
        p.assume(mx >= 1)
        g = Proto(mx)
        g.faults = faults
        g.f["mine"] = 0
        g.f["counted"] = 0
        p.ghost["proto"], p.ghost["offset"] = g, 0
        env, ag = EnvM(g), AgentM(g, False)
        hooks = [AHook(g, "hook0", 0, env, ag)]
        grow = lambda a, b: b >= a  # noqa
        counter = SharedValue("counter", p.int("c0"), grow)
        episodes = SharedValue("episodes", p.int("e0"), grow)

        def counted(old, new):
            p.prove(fold(num(new) == num(old) + 1), "global-counter-advances-by-one")
            p.prove(fold(num(g.f["counted"]) + 1 == num(g.f["nsteps"])), "each-step-counted-once")
            g.set("counted", seqs.add(g.f["counted"], 1))
            g.set("mine", new)

        counter.on_write = counted
        g.on_step = lambda ip: p.prove(fold(num(g.f["mine"]) < num(steps)), "no-step-after-the-budget")
        p.ghost["loop_preds"] = lambda: {
            "counted": lambda: fold(num(g.f["counted"]) == num(g.f["nsteps"])),
            "below": lambda: fold(num(g.f["mine"]) < num(steps)),
        }
        ev = AEvalM(g) if evaluator else None
        good = p.real("successful_score") if evaluator else None
        stop, exn = Event(), Event()
        killed = []

        def kill(ip, f, a, k):
            killed.append(1)
            raise exc("SystemExit", 1)

        ip.contracts["pfrl.experiments.train_agent_async.kill_all"] = kill
        caught = None
        try:
            ip.call(ip.get_func("pfrl.experiments.train_agent_async", "train_loop"), [], dict(
                process_idx=0 if idx0 else 1, env=env, agent=ag, steps=steps, outdir=Opaque("outdir"),
                counter=counter, episodes_counter=episodes, stop_event=stop, exception_event=exn,
                max_episode_len=mx, evaluator=ev, eval_env=None, successful_score=good, logger=Logger(),
                global_step_hooks=PyList(list(hooks), "hooks")))
        except PyExc as e:
            caught = e
        if killed:
            p.prove(idx0 and len(g.saves) >= 1 and dirname_ends(g.saves[-1], "_except"), "saved-before-killing")
            return
        if g.raised:
            p.prove(caught is not None and caught.value is g.raised[0][0].value, "exception-reraised")
            if idx0:
                p.prove(len(g.saves) >= 1 and dirname_ends(g.saves[-1], "_except"), "saved-on-exception")
            return
        if caught is not None:
            raise caught
        p.prove(Not(g.f["pending"]), "last-step-observed")
        p.prove(fold(num(g.f["counted"]) == num(g.f["nsteps"])), "every-step-counted")
        p.prove(fold(num(g.f["hook0"]) == num(g.f["nsteps"])), "hook-called-for-every-step")
        fin = any(dirname_ends(x, "_finish") for x in g.saves)
        p.prove(fold(b_(fin) == (num(g.f["mine"]) == num(steps))), "exactly-the-process-of-the-last-step-saves-the-final-agent")

    return run


def units(tier):
    us = []
    ext = loop_ext()
    for mx in (False, True):
        us.append(LoopUnit("train_agent[%s]" % ("max_episode_len" if mx else "no limit"), u_serial(mx, False, False), ext=dict(ext)))
    us.append(LoopUnit("train_agent[evaluator]", u_serial(True, False, True), ext=dict(ext)))
    us.append(LoopUnit("train_agent[evaluator, during episodes]", u_serial(True, False, True, True), ext=dict(ext)))
    us.append(LoopUnit("train_agent[exceptions]", u_serial(True, True, False), ext=dict(ext)))
    us.append(LoopUnit("train_agent[exceptions, evaluator]", u_serial(True, True, True), ext=dict(ext)))
    us.append(LoopUnit("train_agent[agent without t]", u_serial(False, False, False, has_t=False), ext=dict(ext)))
    for idx0 in (True, False):
        nm = "process 0" if idx0 else "other process"
        us.append(LoopUnit("train_loop[%s]" % nm, u_async(idx0, False, True), ext=dict(ext)))
        us.append(LoopUnit("train_loop[%s, exceptions]" % nm, u_async(idx0, True, False), ext=dict(ext)))
    bext = dict(np_ext())
    bext.update(ext)
    bext["collections.deque"] = Builtin("deque", lambda ip, *a, **k: Record())
    for mx in (False, True):
        us.append(VLoopUnit("train_agent_batch[%s]" % ("max_episode_len" if mx else "no limit"), u_batch(mx, False, False), ext=dict(bext)))
    us.append(VLoopUnit("train_agent_batch[evaluator]", u_batch(True, False, True, False), ext=dict(bext)))
    us.append(VLoopUnit("train_agent_batch[exceptions]", u_batch(True, True, True), ext=dict(bext)))
    return us
