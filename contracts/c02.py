"""C02: sampling without replacement, for every random outcome."""
import z3

from pydv import seqs
from pydv.nparr import (
    NpArr, SymSet, distinct_arr, int_candidates, np_random_ext,
)
from pydv.unit import Unit
from pydv.values import Obj, P, PyExc, PyList, PyObj, SymSeq, Unsupported, fold, num, is_int, is_term
from pydv.interp import exc
from . import raq

TRUSTED = [
    "numpy.random.choice(n, m): m integers in [0,n); with replace=False pairwise distinct",
    "numpy.random.randint(lo, hi): an integer in [lo, hi)",
]
ASSUMPTIONS = [
    "the random generator is adversarial: any sequence of in-range draws",
    "partial correctness: the redraw loop is not shown to terminate (it terminates with probability 1)",
]

RND = "pfrl.utils.random"


class SampleUnit(Unit):
    def new_set(self, ip):
        return SymSet(ip.alloc_label("symset"))

    def objs(self, T):
        return [o for o in P().objs.values() if type(o) is T]

    def loop_preds(self, ctx, k):
        p = P()
        n, kk = p.ghost["n"], p.ghost["k"]
        out = int_candidates(ctx, {"0": 0, "k": kk, "2k": 2 * kk, "n": n})
        for s in self.objs(SymSet):
            if not ctx.fr.fn_name.endswith("sample_n_k"):
                continue
            out["set.n=it"] = lambda s=s: num(s.f["seq"].n) == num(k)
            for nm, v in ctx.fr.f.items():
                if is_int(v):
                    out["set.n=" + nm] = lambda s=s, v=v: num(s.f["seq"].n) == num(v)
        for j, a in enumerate(self.objs(NpArr)):
            for nm, v in ctx.fr.f.items():
                if not is_int(v):
                    continue
                for nm2, w in ctx.fr.f.items():
                    if nm2 != nm and is_int(w):
                        out["arr%d[%s]=%s" % (j, nm2, nm)] = (
                            lambda a=a, v=v, w=w: num(a.f["data"].at(num(w))) == num(v)
                        )
        return out

    def loop_qpreds(self, ctx, k):
        p = P()
        n = p.ghost["n"]
        out = {}
        for j, a in enumerate(self.objs(NpArr)):
            d = a.f["data"]
            out["arr%d in range" % j] = (
                d.n,
                lambda i, d=d: z3.And(num(d.at(i)) >= 0, num(d.at(i)) < num(n)),
                0,
            )
            for s in self.objs(SymSet):
                q = s.f["seq"]
                out["set=arr%d" % j] = (
                    q.n, lambda i, d=d, q=q: num(d.at(i)) == num(q.at(i)), 0,
                )
        return out


def check_sample(p, r, n, k, name):
    """r: k pairwise distinct integers in [0,n)"""
    d = r.f["data"]
    d = seqs.as_seq(d)
    p.prove_eq(d.n, k, name + ".size")
    p.prove_forall(
        k, lambda i: z3.And(num(seqs.seq_at(d, i)) >= 0, num(seqs.seq_at(d, i)) < num(n)),
        name + ".in-range",
    )

    def pair():
        a, b = p.int("a"), p.int("b")
        p.assume(z3.And(a >= 0, a < b, b < num(k)))
        x, y = seqs.seq_at(d, a), seqs.seq_at(d, b)
        p.instantiate(a), p.instantiate(b)
        return p.entails(num(x) != num(y))

    p.prove(p.all_cases(pair), name + ".distinct")


def u_sample_n_k(ip, p):
    n, k = p.int("n"), p.int("k")
    p.assume(n >= 0)
    p.ghost["n"], p.ghost["k"] = n, k
    f = ip.get_func(RND, "sample_n_k")
    if not p.decide(z3.And(k >= 0, k <= n)):
        try:
            ip.call(f, [n, k])
        except PyExc as e:
            p.prove(e.value.pyclass() is ValueError, "sample_n_k.raises-ValueError")
            return
        p.prove(False, "sample_n_k.raises-ValueError")
        return
    r = ip.call(f, [n, k])
    if not isinstance(r, (NpArr, PyList)):
        raise Unsupported("result type")
    check_sample(p, r, n, k, "sample_n_k")


def sample_n_k_contract(ip, f, args, kwargs):
    p = P()
    n, k = (list(args) + [kwargs.get(x) for x in ("n", "k")][len(args):])[:2]
    if not p.decide(fold(z3.And(num(k) >= 0, num(k) <= num(n)))):
        raise exc("ValueError", "sample")
    return distinct_arr(p, n, k)


def drawn_from(p, r, view, k, name):
    """r = [view[idx[j]] for j<k] for the (distinct, in-range) drawn indices"""
    smp = p.ghost.get("samples")
    if not smp:
        raise Unsupported("no sampling primitive with a contract was used")
    n2, k2, idx = smp[-1]
    p.prove_eq(n2, view.n, name + ".draws-from-whole-memory")
    p.prove_eq(ip_len(r), k, name + ".size")
    p.prove_eq(r, SymSeq(k, lambda j: view.at(idx.at(j))), name + ".entries-at-distinct-positions")


def ip_len(r):
    return seqs.seq_len(r.f["data"] if isinstance(r, PyList) else r)


def u_queue_sample(ip, p):
    o, rep, v, ml = raq.sym_queue(ip, p)
    k = p.int("k")
    if not p.decide(z3.And(k >= 0, k <= num(v.n))):
        try:
            ip.call(ip.getattr(o, "sample"), [k])
        except PyExc as e:
            p.prove(e.value.pyclass() is ValueError, "queue.sample.raises-ValueError")
            return
        p.prove(False, "queue.sample.raises-ValueError")
        return
    r = ip.call(ip.getattr(o, "sample"), [k])
    drawn_from(p, r, v, k, "queue.sample")
    p.prove_eq(rep.view(), v, "queue.sample.unchanged")


def mk_buffer(ip, p, modname, clsname, fields):
    cls = ip.get_class(modname, clsname)
    return PyObj(cls, "RB")


def u_rb_sample(ip, p, modname, clsname):
    o, rep, v, ml = raq.sym_queue(ip, p)
    b = PyObj(ip.get_class(modname, clsname), "RB")
    b.f["memory"] = o
    k = p.int("k")
    p.assume(z3.And(k >= 0, k <= num(v.n)))
    r = ip.call(ip.getattr(b, "sample"), [k])
    drawn_from(p, r, v, k, clsname + ".sample")
    p.prove_eq(rep.view(), v, clsname + ".sample.unchanged")


def episode_seq(p):
    """sequence of episodes: each a sequence of opaque transitions"""
    n = p.int("neps")
    p.assume(n >= 0)
    ln = p.fn("eplen", z3.IntSort(), z3.IntSort())
    tr = p.fn("tr", z3.IntSort(), z3.IntSort(), Obj)
    p.forall(n, lambda i: ln(i) >= 1)

    def at(i):
        i = num(i)
        p.instantiate(i)
        return SymSeq(ln(i), lambda j: tr(i, num(j)), True)

    return SymSeq(n, at)


def u_sample_episodes(ip, p):
    eps = episode_seq(p)
    cls = ip.get_class(raq.MOD, "RandomAccessQueue")
    from pydv.unit import check_fields

    check_fields(cls, ["maxlen", "_queue_front", "_queue_back"])
    q = PyObj(cls, "Q")
    q.f["maxlen"] = None
    rep = raq.RaqRep(q)
    rep.build(ip, eps)
    b = PyObj(ip.get_class("pfrl.replay_buffers.episodic", "EpisodicReplayBuffer"), "ERB")
    b.f["episodic_memory"] = q
    k = p.int("k")
    p.assume(z3.And(k >= 0, k <= num(eps.n)))
    ml = None if p.choose(2) == 0 else p.int("max_len")
    if ml is not None:
        p.assume(ml >= 1)
    r = ip.call(ip.getattr(b, "sample_episodes"), [k, ml])
    smp = p.ghost.get("samples")
    if not smp:
        raise Unsupported("no sampling primitive with a contract was used")
    n2, k2, idx = smp[-1]
    p.prove_eq(n2, eps.n, "sample_episodes.draws-from-whole-memory")
    p.prove_eq(ip_len(r), k, "sample_episodes.size")
    d = r.f["data"] if isinstance(r, PyList) else r
    if ml is None:
        p.prove_eq(d, SymSeq(k, lambda j: eps.at(idx.at(j))), "sample_episodes.whole")
    else:
        p.prove_forall(k, lambda j: sub_of(p, seqs.seq_at(d, j), eps.at(idx.at(j)), ml),
                       "sample_episodes.contiguous-part")


def sub_of(p, got, whole, ml):
    """got is a run of min(len, ml) consecutive elements of whole"""
    g = seqs.as_seq(got)
    w = seqs.as_seq(whole)
    want = fold(z3.If(num(w.n) <= num(ml), num(w.n), num(ml)))
    if not p.entails(num(g.n) == num(want)):
        return False
    cands = [0] + list(reversed(p.ghost.get("randints", [])))
    if p.decide(fold(num(g.n) >= 1)):
        e = seqs.seq_at(g, 0)
        if is_term(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() and e.arg(e.num_args() - 1).sort() == z3.IntSort():
            cands.append(e.arg(e.num_args() - 1))
        else:
            raise Unsupported("shape of the subsequence")
    for off in cands:
        if p.entails(z3.And(num(off) >= 0, num(off) + num(g.n) <= num(w.n))) and p.all_cases(
            lambda: seqs.proves_equal(g, seqs.seq_slice(w, off, g.n))
        ):
            return True
    return False


def u_random_subseq(ip, p):
    n, l = p.int("n"), p.int("l")
    p.assume(z3.And(n >= 0, l >= 0))
    f = p.fn("S", z3.IntSort(), Obj)
    s = seqs.seq_of_fn(n, f)
    src = PyList(s, "seq")
    r = ip.call(ip.get_func("pfrl.replay_buffer", "random_subseq"), [src, l])
    p.prove(p.all_cases(lambda: sub_of(p, r, s, l)), "random_subseq.contiguous-part")
    p.prove(src.f["data"] is s, "random_subseq.argument-unchanged")
    rs = p.ghost.get("randint_ranges", [])
    if len(rs) == 1 and p.decide(fold(z3.And(n > l, l >= 1))):
        x, lo, hi = rs[0]
        # one outcome of the draw for each of the n - l + 1 starts
        p.prove(num(hi) - num(lo) == n - l + 1, "random_subseq.every-start-equally-likely")


def units(tier):
    ext = np_random_ext()
    K = {RND + ".sample_n_k": sample_n_k_contract}
    return [
        SampleUnit("sample_n_k", u_sample_n_k, ext=ext, covers=[RND + ".sample_n_k"]),
        Unit("RandomAccessQueue.sample", u_queue_sample, contracts=K, ext=ext,
             covers=[raq.QUAL + ".sample"]),
        Unit("ReplayBuffer.sample",
             lambda ip, p: u_rb_sample(ip, p, "pfrl.replay_buffers.replay_buffer", "ReplayBuffer"),
             contracts=K, ext=ext, covers=["pfrl.replay_buffers.replay_buffer.ReplayBuffer.sample"]),
        Unit("EpisodicReplayBuffer.sample",
             lambda ip, p: u_rb_sample(ip, p, "pfrl.replay_buffers.episodic", "EpisodicReplayBuffer"),
             contracts=K, ext=ext, covers=["pfrl.replay_buffers.episodic.EpisodicReplayBuffer.sample"]),
        Unit("EpisodicReplayBuffer.sample_episodes", u_sample_episodes, contracts=K, ext=ext,
             covers=["pfrl.replay_buffers.episodic.EpisodicReplayBuffer.sample_episodes"]),
        Unit("random_subseq", u_random_subseq, ext=ext, covers=["pfrl.replay_buffer.random_subseq"]),
    ]
