"""Batch evaluation: which episodes the returned scores and lengths belong to (C11)."""
import os

import z3

from pydv import seqs
from pydv.interp import exc
from pydv.tensor import T
from pydv.unit import Unit
from pydv.values import HModel, P, PyDict, PyExc, PyList, SymSeq, Unsupported, fold, is_term, num, real
from .loops import Logger, Not, VEnvM, VLoopUnit, b_, item

EV = "pfrl.experiments.evaluator"
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
sel = z3.Select


class All(HModel):
    """ghost: of every environment, the running episode's return and length and a
    record of the completed ones: RR[env][number], RL[env][number], cnt[env] of them"""

    ghost = True

    def __init__(self, g):
        HModel.__init__(self, "all")
        self.g, self.ended = g, None
        p = P()
        self.f["ret"] = z3.K(I, z3.RealVal(0))
        self.f["len"] = z3.K(I, z3.IntVal(0))
        self.f["cnt"] = z3.K(I, z3.IntVal(0))
        self.f["RR"] = z3.Const(p.name("RR"), z3.ArraySort(I, z3.ArraySort(I, R)))
        self.f["RL"] = z3.Const(p.name("RL"), z3.ArraySort(I, z3.ArraySort(I, I)))

    def havoc_field(self, field, init):
        return z3.Const(P().name("all_" + field), init.sort())

    def fresh(self, *names):
        return {n: z3.Const(P().name("all_" + n), self.f[n].sort()) for n in names}

    def step(self, rs, ds, infos):
        g, p = self.g, P()
        old = dict(self.f)
        new = self.fresh("ret", "len", "cnt", "RR", "RL")

        def ended(i):
            i = num(i)
            return z3.Or(b_(item(ds, i)), b_(item(infos, i).needs), b_(g.limit(sel(new["len"], i))))

        def fact(i):
            e, c = ended(i), sel(old["cnt"], i)
            return z3.And(
                sel(new["ret"], i) == sel(old["ret"], i) + real(item(rs, i)),
                sel(new["len"], i) == sel(old["len"], i) + 1,
                sel(new["cnt"], i) == c + z3.If(e, 1, 0),
                sel(new["RR"], i) == z3.If(e, z3.Store(sel(old["RR"], i), c, sel(new["ret"], i)), sel(old["RR"], i)),
                sel(new["RL"], i) == z3.If(e, z3.Store(sel(old["RL"], i), c, sel(new["len"], i)), sel(old["RL"], i)),
            )

        for n, v in new.items():
            self.set(n, v)
        self.ended = ended
        p.forall(g.N, fact)

    def reset(self, ip, mask):
        g, p = self.g, P()
        old = dict(self.f)
        new = self.fresh("ret", "len")

        def fact(i):
            keep = z3.BoolVal(False) if mask is None else b_(ip.truth_t(item(mask, i)))
            return z3.And(sel(new["ret"], i) == z3.If(keep, sel(old["ret"], i), z3.RealVal(0)),
                          sel(new["len"], i) == z3.If(keep, sel(old["len"], i), z3.IntVal(0)))

        for n, v in new.items():
            self.set(n, v)
        p.forall(g.N, fact)


class BEnv(VEnvM):
    def m_step(self, ip, actions):
        out = VEnvM.m_step(self, ip, actions)
        P().ghost["all"].step(out[1], out[2], out[3])
        return out

    def m_reset(self, ip, mask=None):
        out = VEnvM.m_reset(self, ip, mask)
        P().ghost["all"].reset(ip, mask)
        return out


FST, SND, PAIR = z3.Function("fst", I, I), z3.Function("snd", I, I), z3.Function("pair", I, I, I)


def pair(a, b):
    c = PAIR(num(a), num(b))
    P().assume(z3.And(c >= 0, FST(c) == num(a), SND(c) == num(b)))
    return c


def subterms(*ts):
    """int subterms, smallest first"""
    seen, out, todo = set(), [], [t for t in ts if is_term(t)]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_int(t):
            out.append(t)
        todo.extend(t.children())
    return out


class EpDict(HModel):
    """dict from episode numbers to numbers; ghost: whose episode each entry records"""

    ghost = True    # no representation predicate of its own; havocked to arbitrary contents

    def __init__(self):
        HModel.__init__(self, "epdict")
        p = P()
        self.f["has"] = z3.K(I, z3.BoolVal(False))
        self.f["val"] = z3.Const(p.name("dict_val"), z3.ArraySort(I, self.sort()))
        self.f["owner"] = z3.Const(p.name("dict_owner"), z3.ArraySort(I, I))
        self.f["epi"] = z3.Const(p.name("dict_epi"), z3.ArraySort(I, I))
        self.f["rec"] = z3.K(I, z3.IntVal(0))

    def sort(self):
        return R if self.uid in P().unit.real_dicts else I

    def havoc_field(self, field, init):
        return z3.Const(P().name("dict_" + field), init.sort())

    def truth(self, ip):
        raise Unsupported("truth of a dict")

    def contains(self, ip, k):
        k = num(k)
        P().instantiate(k, "num")
        return fold(sel(self.f["has"], k))

    def getitem(self, ip, k):
        p = P()
        k = num(k)
        p.instantiate(k, "num")
        if not p.decide(fold(sel(self.f["has"], k))):
            raise exc("KeyError", k)
        return sel(self.f["val"], k)

    def setitem(self, ip, k, v):
        p = P()
        a = p.ghost["all"]
        k = num(k)
        p.instantiate(k, "num")
        v = num(v) if isinstance(v, int) else v
        if not is_term(v):
            v = real(v)
        if z3.is_real(v) and self.f["val"].sort().range() != R:
            p.unit.real_dicts.add(self.uid)
            p.unit.dirty = True
            from pydv.values import PathDead
            raise PathDead()
        if a.ended is None:
            raise Unsupported("an episode recorded before the first step")
        f, N = self.f, num(a.g.N)
        what = [x for x in ("ret", "len") if a.f[x].sort().range() == f["val"].sort().range()]
        if not z3.is_real(v):
            what = ["len"]
        for c in subterms(k, v):
            if not p.entails(z3.And(c >= 0, c < N)):
                continue
            p.instantiate(c)
            if p.entails(z3.And(a.ended(c), z3.Or([sel(a.f[x], c) == v for x in what]), sel(f["rec"], c) == sel(a.f["cnt"], c) - 1)):
                break
        else:
            raise Unsupported("an episode record that the contract cannot attribute to a completed episode")
        p.prove(fold(z3.Not(sel(f["has"], k))), "no-recorded-episode-is-overwritten")
        e = sel(f["rec"], c)
        self.set("has", z3.Store(f["has"], k, True))
        self.set("val", z3.Store(f["val"], k, v))
        self.set("owner", z3.Store(f["owner"], k, c))
        self.set("epi", z3.Store(f["epi"], k, e))
        self.set("rec", z3.Store(f["rec"], c, e + 1))


class BEvalUnit(VLoopUnit):
    time_limit = 260

    def __init__(self, *a, **k):
        VLoopUnit.__init__(self, *a, **k)
        self.real_dicts = set()

    def verify(self):
        return Unit.verify(self)

    def new_dict(self, ip):
        return EpDict()

    def dicts(self):
        return [o for o in P().objs.values() if isinstance(o, EpDict)]

    def loop_preds(self, ctx, k):
        p = P()
        g = p.ghost.get("proto")
        out = VLoopUnit.loop_preds(self, ctx, k)
        if g is None:
            return out
        f = g.f
        if out:
            out["told=ended"] = lambda: fold(b_(f["told"]) == b_(f["ended"]))
            out["told|elen"] = lambda: fold(z3.Or(num(f["elen"]) == 0, b_(f["told"]) == b_(f["ended"])))
        for loc in ctx.init:
            o = p.objs.get(loc[0])
            v = o.f.get(loc[1]) if o is not None else None
            if getattr(o, "ghost", False) or isinstance(o, (EpDict, T)):
                continue
            if isinstance(v, int) and not isinstance(v, bool) or is_term(v) and z3.is_int(v):
                out["%s>=0" % (loc,)] = lambda v=v: fold(num(v) >= 0)
                if p.ghost["n_steps"] is not None:
                    out["%s<=n" % (loc,)] = lambda v=v: fold(num(v) <= num(p.ghost["n_steps"]))
        return out

    def loop_qpreds(self, ctx, k):
        out = {}
        for nm, (n, fact, lo) in self.qpreds(ctx, k).items():
            f = lambda i, fact=fact: fact(i)  # noqa
            if "distinct" in nm:
                f.kind = "pair"
            elif nm.startswith("epdict") and n is None or " up to " in nm:
                f.kind = "num"
            out[nm] = (n, f, lo)
        return out

    def roles(self):
        """which variables get candidate invariants (a heuristic: candidates are checked):
        those stored into an array or dict, those looked up with `in`"""
        if not hasattr(self, "_roles"):
            import ast
            from pydv.interp import REPO
            with open(os.path.join(REPO, *EV.split(".")) + ".py") as fh:
                tree = ast.parse(fh.read())
            st, lk = set(), set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and any(isinstance(t, ast.Subscript) for t in n.targets):
                    st.add(n.value.id)
                if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and any(isinstance(c, (ast.In, ast.NotIn)) for c in n.ops):
                    lk.add(n.left.id)
            self._roles = st, lk
        return self._roles

    def qpreds(self, ctx, k):
        p = P()
        a = p.ghost.get("all")
        if a is None:
            return {}
        N, out = a.g.N, {}
        kk = num(k)
        ds = self.dicts()
        F = dict(a.f)       # facts speak of the state in which they are assumed
        ints = {}
        stored, looked = self.roles()
        for loc in ctx.init:
            o = p.objs.get(loc[0])
            v = o.f.get(loc[1]) if o is not None else None
            if getattr(o, "ghost", False) or isinstance(o, EpDict):
                continue
            if isinstance(o, T) and loc[1] == "at" and len(o.shape) == 1 and o.base is None:
                at = o.f["at"]
                if o.dtype == "real":
                    out["%s=ret" % loc[0]] = (N, lambda i, at=at: fold(real(at(i)) == sel(F["ret"], i)), 0)
                elif o.dtype == "int":
                    out["%s=len" % loc[0]] = (N, lambda i, at=at: fold(num(at(i)) == sel(F["len"], i)), 0)
            elif isinstance(v, int) and not isinstance(v, bool) or is_term(v) and z3.is_int(v):
                ints[loc] = v
        touched = {loc[0] for loc in ctx.init}
        arrays = [o for o in p.objs.values() if isinstance(o, T) and o.base is None and o.dtype == "int" and len(o.shape) == 1
                  and o.uid in touched]
        for o in arrays:
            at = o.f["at"]
            # numbers in use are distinct: for all pairs (FST(c), SND(c))
            def distinct(c, at=at):
                x, y = FST(c), SND(c)
                p.instantiate(x)
                p.instantiate(y)
                return z3.Implies(z3.And(x >= 0, x < num(N), y >= 0, y < num(N), x != y), num(at(x)) != num(at(y)))

            out["%s distinct" % o.uid] = (None, distinct, 0)
            out["%s distinct so far" % o.uid] = (None, lambda c, f=distinct: z3.Implies(z3.And(FST(c) < kk, SND(c) < kk), f(c)), 0)
            for loc, v in ints.items():
                if loc[1] not in stored:
                    continue
                out["%s<%s so far" % (o.uid, loc)] = (k, lambda i, at=at, v=v: fold(z3.And(num(at(i)) >= 0, num(at(i)) < num(v))), 0)
                # every number in use is below the next number
                out["%s<%s" % (o.uid, loc)] = (N, lambda i, at=at, v=v: fold(z3.And(num(at(i)) >= 0, num(at(i)) < num(v))), 0)
            for d in ds:
                has = d.f["has"]
                def free(i, at=at, has=has):
                    if p.inst_depth == 0:   # to be proved, not assumed
                        for x in (kk, kk - 1):
                            p.instantiate(pair(i, x), "pair")
                            p.instantiate(at(x), "num")
                        p.instantiate(at(i), "num")
                    return fold(z3.Not(sel(has, num(at(i)))))

                out["%s not in %s" % (o.uid, d.uid)] = (N, free, 0)
        for d in ds:
            f = d.f
            has, val, ow, ep, rec = (f[x] for x in ("has", "val", "owner", "epi", "rec"))

            def wf(i, has=has, ow=ow, ep=ep):
                p.instantiate(sel(ow, i))
                return z3.Implies(sel(has, i), z3.And(sel(ow, i) >= 0, sel(ow, i) < num(N), sel(ep, i) >= 0,
                                                      sel(ep, i) < sel(F["cnt"], sel(ow, i))))

            out[d.uid + " wf"] = (None, wf, 0)
            src = [("ret", "RR")] if val.sort().range() == R else [("len", "RL")]
            for nm, S in src:
                out["%s=%s" % (d.uid, nm)] = (None, lambda i, has=has, val=val, ow=ow, ep=ep, S=S: z3.Implies(
                    sel(has, i), sel(val, i) == sel(sel(F[S], sel(ow, i)), sel(ep, i))), 0)
            out[d.uid + " rec>=0"] = (N, lambda i, rec=rec: sel(rec, i) >= 0, 0)
            out[d.uid + " all"] = (N, lambda i, rec=rec: sel(rec, i) == sel(F["cnt"], i), 0)
            if a.ended is not None:
                out[d.uid + " all-so-far"] = (N, lambda i, rec=rec: sel(rec, i) == sel(F["cnt"], i) - z3.If(
                    z3.And(i >= kk, a.ended(i)), 1, 0), 0)
            for loc, v in ints.items():
                if loc[1] in stored:
                    out["%s below %s" % (d.uid, loc)] = (None, lambda i, has=has, v=v: z3.Implies(sel(has, i), i < num(v)), 0)
                if loc[1] in looked:
                    out["%s up to %s" % (d.uid, loc)] = (v, lambda i, has=has: sel(has, i), 0)
            for e in ds:
                if e.uid > d.uid:
                    h2, o2, e2 = e.f["has"], e.f["owner"], e.f["epi"]
                    out["%s~%s" % (d.uid, e.uid)] = (None, lambda i, has=has, ow=ow, ep=ep, h2=h2, o2=o2, e2=e2: z3.And(
                        sel(has, i) == sel(h2, i), z3.Implies(sel(has, i), z3.And(sel(ow, i) == sel(o2, i), sel(ep, i) == sel(e2, i)))), 0)
        return out

    def prefix_sum(self, val, k):
        p = P()
        if self.mode == "bmc":
            return sum([sel(val, z3.IntVal(i)) for i in range(p.expand(k) if is_term(k) else k)], z3.IntVal(0))
        key = "ps%d" % val.get_id()
        p.keep.append(val)
        f = p.ghost.setdefault("ps", {}).get(key)
        if f is None:
            f = p.ghost["ps"][key] = p.fn(key, I, I)
            p.assume(f(0) == 0)
        k = num(k)
        p.assume(z3.And(z3.Implies(k >= 0, f(k + 1) == f(k) + sel(val, k)), z3.Implies(k >= 1, f(k) == f(k - 1) + sel(val, k - 1))))
        return f(k)

    def loop_anchors(self, ctx, k, loc):
        p = P()
        out = VLoopUnit.loop_anchors(self, ctx, k, loc)
        o = p.objs.get(loc[0])
        iv = ctx.init.get(loc)
        if isinstance(o, PyList) and loc[1] == "data" and iv == []:
            for d in self.dicts():
                if (d.uid, "val") in ctx.init:
                    continue
                val = d.f["val"]
                out["entries of " + d.uid] = lambda val=val: SymSeq(k, lambda i: sel(val, num(i)))
        elif p.ghost["n_steps"] is not None and (isinstance(iv, int) and not isinstance(iv, bool) or is_term(iv) and z3.is_int(iv)):
            for d in self.dicts():
                if (d.uid, "val") not in ctx.init and d.f["val"].sort().range() == I:
                    out["total of " + d.uid] = lambda d=d: self.prefix_sum(d.f["val"], k)
        return out


def u_batch(by_steps, has_max, faults):
    from .c11 import EVAgent, EVProto, params

    def run(ip, p):
        n, mx = params(p, by_steps, has_max)
        N, j = p.int("num_envs"), p.int("env")
        p.assume(z3.And(N >= 1, j >= 0, j < N))
        if p.unit.mode == "bmc":
            N = p.expand(N)
            j = p.expand(j)
        g = EVProto(mx, N, j, "eval")
        g.init_eval(None)
        g.faults = faults
        p.ghost["proto"] = g
        a = p.ghost["all"] = All(g)
        mode0 = p.bool("was_training")
        env, ag = BEnv(g), EVAgent(g, False, training=mode0)
        caught = r = None
        try:
            r = ip.call(ip.get_func(EV, "batch_run_evaluation_episodes"), [], dict(
                env=env, agent=ag, n_steps=n if by_steps else None, n_episodes=None if by_steps else n,
                max_episode_len=mx, logger=Logger()))
        except PyExc as e:
            caught = e
        p.prove_eq(ag.f["training"], mode0, "mode-restored")
        if g.raised:
            p.prove(caught is not None and caught.value is g.raised[0][0].value, "exception-propagates")
            return
        if caught is not None:
            raise caught
        p.prove(b_(g.f["told"]), "the-run-ends-with-a-reset")
        p.prove(Not(g.f["pending"]), "last-step-observed")
        if not (isinstance(r, tuple) and len(r) == 2):
            raise Unsupported("result of batch_run_evaluation_episodes")
        results(ip, p, a, n, by_steps, *r)

    return run


def results(ip, p, a, n, by_steps, sc, ln):
    ls, ll = ip.length(sc), ip.length(ln)
    p.prove_eq(ll, ls, "one-length-per-score")
    if not by_steps:
        p.prove_eq(ls, n, "exactly-the-requested-number-of-episodes")
    s, l = seqs.as_seq(sc.f["data"]), seqs.as_seq(ln.f["data"])

    def of(d):
        f = d.f

        def at(i):
            i = num(i)
            p.instantiate(i, "num")
            o, e = sel(f["owner"], i), sel(f["epi"], i)
            return z3.And(sel(f["has"], i), o >= 0, o < num(a.g.N), e >= 0, e < sel(a.f["cnt"], o),
                          real(seqs.seq_at(s, i)) == sel(sel(a.f["RR"], o), e),
                          real(seqs.seq_at(l, i)) == z3.ToReal(sel(sel(a.f["RL"], o), e)))

        return p.forall_holds(ls, at)

    for d in p.unit.dicts():
        if of(d):
            p.prove(True, "every-score-and-length-is-that-of-its-own-completed-episode")
            if by_steps:
                tot = None
                for e in p.unit.dicts():
                    if e.f["val"].sort().range() == I:
                        val = e.f["val"]
                        if p.forall_holds(ls, lambda i: z3.And(real(seqs.seq_at(l, i)) == z3.ToReal(sel(val, num(i))))):
                            tot = val
                            break
                if tot is None:
                    raise Unsupported("lengths of which no total is known")
                p.prove(fold(p.unit.prefix_sum(tot, ls) <= num(n)), "the-episodes-fit-in-the-requested-steps")
            return
    if by_steps and p.entails(fold(num(ls) == 1)):
        for d in p.unit.dicts():
            x, y = real(seqs.seq_at(s, 0)), real(seqs.seq_at(l, 0))
            for c in subterms(x, y):
                if p.entails(z3.And(c >= 0, c < num(a.g.N))):
                    p.instantiate(c)
                    if p.entails(z3.And(x == sel(a.f["ret"], c), y == z3.ToReal(sel(a.f["len"], c)), sel(a.f["len"], c) >= num(n),
                                        z3.Not(a.ended(c)))):
                        p.prove(True, "a-single-cut-episode")
                        return
    if p.unit.mode == "bmc":
        raise Unsupported("results that the contract cannot attribute to episodes")
    # (not necessarily in the last pass over the loop invariants)
    p.prove(False, "every-score-and-length-is-that-of-its-own-completed-episode")
