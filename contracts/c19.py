"""C19: splitting datasets into sequences and minibatches.

Items are the positions 0..total-1 of the concatenation of the given sequences; a
piece is a slice of that stream.  The lists the code builds are summarised by ghost
state: where the concatenation of their pieces starts and ends, whether each piece
continued the one before, the largest and the last piece."""
import z3

from pydv.interp import SliceVal, exc
from pydv.tensor import np_ext
from pydv.unit import Unit
from pydv.values import Builtin, HModel, Model, P, PyDict, PyList, SymSeq, Unsupported, fold, is_term, num
from . import flow, nets
from .loops import b_

I = z3.IntSort()
MOD = "pfrl.agents.ppo"
TRUSTED = ["random.sample(xs, k=len(xs)) returns a permutation of xs; random.shuffle permutes in place"]
ASSUMPTIONS = ["episodes are non-empty; lengths, sizes and epochs are mathematical integers"]
BOUNDED = ["recurrent updates of PPO and TRPO end to end are replayed on random datasets; which sequences enter them is proved"]


class Sl(Model):
    """items [start, start+n) of the stream"""

    def __init__(self, start, n):
        self.start, self.n = start, n

    def length(self, ip):
        return self.n

    def truth(self, ip):
        return fold(num(self.n) > 0)

    def end(self):
        return fold(num(self.start) + num(self.n))

    def getitem(self, ip, i):
        if isinstance(i, SliceVal):
            lo, n = ip.slice_bounds(i, self.n)
            return Sl(fold(num(self.start) + num(lo)), n)
        raise Unsupported("item of a sequence")

    def eq_model(self, o):
        return isinstance(o, Sl) and fold(z3.And(num(self.start) == num(o.start), num(self.n) == num(o.n)))


class Run(HModel):
    """a list of pieces; fwd: in stream order, otherwise last piece first"""

    F = ("lo", "hi", "cnt", "last", "mx", "ok")

    def __init__(self, label, lo=0, hi=0, cnt=0, last=0, mx=0, ok=True, fwd=True, frozen=False):
        HModel.__init__(self, label)
        self.f.update(lo=lo, hi=hi, cnt=cnt, last=last, mx=mx, ok=ok)
        self.fwd, self.frozen = fwd, frozen

    def clone(self, ip, fwd):
        return Run(ip.alloc_label("list"), fwd=fwd, **{k: self.f[k] for k in self.F})

    def to_list(self, ip):
        return self.clone(ip, self.fwd)

    m_copy = to_list

    def reversed_(self, ip):
        return self.clone(ip, not self.fwd)

    def length(self, ip):
        return self.f["cnt"]

    def truth(self, ip):
        return fold(num(self.f["cnt"]) > 0)

    def write(self):
        if self.frozen:
            P().prove(False, "given-sequences-not-modified")

    def m_append(self, ip, s):
        self.write()
        if not isinstance(s, Sl):
            raise Unsupported("append to a list of pieces")
        p = P()
        f = {k: num(v) if k != "ok" else b_(v) for k, v in self.f.items()}
        st, n, en = num(s.start), num(s.n), num(s.end())
        first = f["cnt"] == 0
        if self.fwd:
            adj = f["hi"] == st
            self.set("lo", fold(z3.If(first, st, f["lo"])))
            self.set("hi", en)
            self.set("last", n)
        else:
            adj = en == f["lo"]
            self.set("hi", fold(z3.If(first, en, f["hi"])))
            self.set("lo", st)
            self.set("last", n)
        self.set("ok", fold(z3.And(f["ok"], z3.Or(first, adj), n > 0)))
        self.set("mx", fold(z3.If(n > f["mx"], n, f["mx"])))
        self.set("cnt", fold(f["cnt"] + 1))

    def top(self):
        """the piece at the end of the list"""
        f = self.f
        if self.fwd:
            return Sl(fold(num(f["hi"]) - num(f["last"])), f["last"])
        return Sl(f["lo"], f["last"])

    def need(self):
        p = P()
        if not p.decide(fold(num(self.f["cnt"]) > 0)):
            raise exc("IndexError")
        if not p.entails(b_(self.f["ok"])):
            raise Unsupported("list of pieces that are not adjacent")

    def m_pop(self, ip, i=None):
        self.write()
        p = P()
        self.need()
        c = num(self.f["cnt"])
        if i is not None and (is_term(i) or i not in (-1, 0)):
            raise Unsupported("pop position")
        if i == 0:
            # from the front: some piece at the other end
            n = p.int("piece")
            lo, hi = num(self.f["lo"]), num(self.f["hi"])
            p.assume(z3.And(n > 0, n <= hi - lo, (n == hi - lo) == (c == 1), z3.Implies(c > 1, n <= hi - lo - num(self.f["last"]))))
            s = Sl(lo, n) if self.fwd else Sl(fold(hi - n), n)
            self.set("lo" if self.fwd else "hi", fold(lo + n) if self.fwd else fold(hi - n))
            self.set("cnt", fold(c - 1))
            return s
        s = self.top()
        if self.fwd:
            self.set("hi", s.start)
        else:
            self.set("lo", s.end())
        self.set("cnt", fold(c - 1))
        n = p.int("piece")
        rest = num(self.f["hi"]) - num(self.f["lo"])
        p.assume(z3.Implies(c > 1, z3.And(n > 0, n <= rest, (n == rest) == (c == 2))))
        p.assume(z3.Implies(c == 1, rest == 0))
        self.set("last", n)
        return s

    def m_popleft(self, ip):
        return self.m_pop(ip, 0)

    def getitem(self, ip, i):
        if isinstance(i, SliceVal) and i.step == -1 and i.lo is None and i.hi is None:
            return self.reversed_(ip)
        if not is_term(i) and i == -1:
            self.need()
            return self.top()
        raise Unsupported("item of a list of pieces")

    def setitem(self, ip, i, s):
        self.write()
        if is_term(i) or i != -1 or not isinstance(s, Sl) or not self.fwd:
            raise Unsupported("item assignment in a list of pieces")
        self.need()
        old = self.top()
        self.set("ok", fold(z3.And(b_(self.f["ok"]), num(s.start) == num(old.start), num(s.n) > 0)))
        self.set("hi", s.end())
        self.set("last", s.n)
        # the largest piece is only known to be below the old one
        m, mx = P().int("mx"), num(self.f["mx"])
        P().assume(z3.And(m >= num(s.n), m <= z3.If(mx > num(s.n), mx, num(s.n)), m >= 0))
        self.set("mx", m)

    def iter(self, ip):
        """the pieces, at unknown cuts"""
        p = P()
        self_ok = p.entails(b_(self.f["ok"]))
        if not self_ok:
            raise Unsupported("list of pieces that are not adjacent")
        lo, hi, c = num(self.f["lo"]), num(self.f["hi"]), num(self.f["cnt"])
        off = p.fn("cut", I, I)
        p.assume(z3.Implies(c > 0, z3.And(off(z3.IntVal(0)) == lo, off(c) == hi)))

        def cut(j):
            j = num(j)
            p.assume(z3.Implies(z3.And(j >= 0, j < c), z3.And(off(j) >= lo, off(j + 1) <= hi, off(j + 1) - off(j) > 0, off(j + 1) - off(j) <= num(self.f["mx"]))))
            return off(j), fold(off(j + 1) - off(j))

        def at(j):
            j = num(j)
            if self.fwd:
                return Sl(*cut(j))
            return Sl(*cut(fold(c - 1 - j)))

        # the lengths add up
        p.sums.append(("sum", self.f["cnt"], lambda j: at(j).n, fold(z3.ToReal(z3.If(c > 0, hi - lo, z3.IntVal(0))))))
        p.ghost["cuts"] = off
        return SymSeq(self.f["cnt"], at)


def inv(r):
    f = {k: num(v) if k != "ok" else b_(v) for k, v in r.f.items()}
    return {
        "ok": f["ok"],
        "cnt": f["cnt"] >= 0,
        "order": f["lo"] <= f["hi"],
        "empty": (f["cnt"] == 0) == (f["lo"] == f["hi"]),
        "empty2": z3.Implies(f["cnt"] == 0, f["lo"] == f["hi"]),
        "full": z3.Implies(f["cnt"] > 0, f["lo"] < f["hi"]),
        "last": z3.Implies(f["cnt"] > 0, z3.And(f["last"] > 0, f["last"] <= f["hi"] - f["lo"])),
        "one": z3.Implies(f["cnt"] > 0, (f["last"] == f["hi"] - f["lo"]) == (f["cnt"] == 1)),
        "mx": z3.And(f["mx"] >= 0, z3.Implies(f["cnt"] > 0, f["mx"] >= f["last"])),
    }


class SplitUnit(Unit):
    bmc_bound = 4

    def new_list(self, ip):
        if self.mode == "bmc" or not P().ghost.get("pieces"):
            return Unit.new_list(self, ip)
        r = Run(ip.alloc_label("list"), fwd=True)
        P().ghost.setdefault("runs", []).append(r)
        return r

    def loop_havoc(self, ip, loc, o, kinds):
        if kinds == [("other", "Sl")]:
            p = P()
            return Sl(p.int("start"), p.int("n"))
        return NotImplemented

    def loop_preds(self, ctx, k):
        p = P()
        g = p.ghost
        if not g.get("pieces"):
            return {}
        out = {}
        lim, off, N, total, mon = num(g["limit"]), g["off"], num(g["N"]), num(g["total"]), g["mon"]
        pos = num(mon.f["pos"])
        out["pos"] = lambda: fold(z3.And(pos >= 0, pos <= total))
        runs = sorted({u for (u, f) in ctx.init if isinstance(p.objs.get(u), Run)} |
                      {v.uid for v in ctx.fr.f.values() if isinstance(v, Run)})
        for nm, v in list(ctx.fr.f.items()):
            if isinstance(v, Sl):
                s = v
                out["seq-" + nm] = lambda s=s: fold(z3.And(num(s.n) > 0, num(s.start) >= 0, num(s.end()) <= total))
                if "turn" in g:
                    out["seqend-" + nm] = lambda s=s: fold(num(s.end()) == off(num(g["turn"]) + 1))
                for u in runs:
                    r = p.objs[u]
                    out["next-%s-%s" % (nm, u)] = lambda r=r, s=s: fold(z3.Or(z3.And(num(r.f["cnt"]) == 0, num(s.start) == 0), z3.And(num(r.f["cnt"]) > 0, num(r.f["hi"]) == num(s.start))))
        for u in runs:
            r = p.objs[u]
            for nm in inv(r):
                out["%s-%s" % (u, nm)] = lambda r=r, nm=nm: fold(inv(r)[nm])
            c, lo, hi, last, mx = (num(r.f[x]) for x in ("cnt", "lo", "hi", "last", "mx"))
            out[u + "-lim"] = lambda mx=mx: fold(mx <= lim)
            out[u + "-off"] = lambda c=c, hi=hi: fold(z3.Or(c == 0, hi == off(num(k))))
            out[u + "-zero"] = lambda c=c, lo=lo: fold(z3.Or(c == 0, lo == 0))
            out[u + "-some"] = lambda c=c: fold(z3.Or(num(k) == 0, c > 0))
            out[u + "-none"] = lambda c=c: fold(z3.Implies(num(k) == 0, c == 0))
            out[u + "-in"] = lambda lo=lo, hi=hi, c=c: fold(z3.Or(c == 0, z3.And(lo >= 0, hi <= total)))
            out[u + "-end"] = lambda lo=lo, hi=hi, c=c: fold(z3.Or(z3.And(c > 0, hi == total), z3.And(c == 0, pos == total)))
            out[u + "-end3"] = lambda c=c: fold(z3.Or(c > 0, total - pos < lim))
            out[u + "-end2"] = lambda hi=hi: fold(hi == total)
            out[u + "-pos"] = lambda lo=lo, c=c: fold(z3.Or(c == 0, lo == pos))
            out[u + "-pos2"] = lambda lo=lo, c=c: fold(lo == pos)
            out[u + "-short"] = lambda lo=lo, hi=hi, c=c, last=last: fold(z3.Or(c == 0, hi - lo - last < lim))
            for u2 in runs:
                if u2 != u:
                    r2 = p.objs[u2]
                    out["%s-then-%s" % (u, u2)] = lambda hi=hi, c=c, r2=r2: fold(
                        num(r2.f["lo"]) == z3.If(c > 0, hi, pos))
            for nm, v in list(ctx.fr.f.items()):
                if is_term(v) and z3.is_int(v) or isinstance(v, int) and not isinstance(v, bool):
                    out["len-%s-%s" % (nm, u)] = lambda v=v, c=c, lo=lo, hi=hi: fold(num(v) == z3.If(c > 0, hi - lo, z3.IntVal(0)))
        return out

    def loop_assume(self, ctx, k):
        g = P().ghost
        if not g.get("pieces"):
            return []
        off, N, total = g["off"], num(g["N"]), num(g["total"])
        return [z3.Implies(z3.And(num(k) >= 0, num(k) <= N), z3.And(off(num(k)) >= 0, off(num(k)) <= total, (off(num(k)) == total) == (num(k) == N)))]


class Mon(HModel):
    ghost = True

    def __init__(self):
        HModel.__init__(self, "mon")
        self.f["pos"] = 0


def setup(ip, p, limit, minimum=0):
    """the sequences and their concatenation"""
    g = p.ghost
    mon = g["mon"] = Mon()
    lim = p.int(limit)
    p.assume(lim >= 1)
    if ip.unit.mode == "bmc":
        k = p.choose(4 - minimum) + minimum
        ss, at = [], z3.IntVal(0)
        for i in range(k):
            n = p.int("len")
            p.assume(z3.And(n > 0, n <= 7))
            ss.append(Sl(at, n))
            at = fold(at + n)
        p.assume(lim <= 5)
        seqs_ = PyList(ss, "sequences")
        g.update(pieces=False, limit=lim, total=at, snap=list(ss))
        return seqs_, lim, at, mon
    N, total = p.int("N"), p.int("total")
    off = p.fn("off", I, I)
    p.assume(z3.And(N >= minimum, off(z3.IntVal(0)) == 0, off(N) == total, total >= N, z3.Implies(N == 0, total == 0), z3.Implies(N > 0, total > 0)))
    last, mx = p.int("first"), p.int("mx")
    g.update(pieces=True, limit=lim, off=off, N=N, total=total)
    r = Given("sequences", lo=0, hi=total, cnt=N, last=last, mx=mx, ok=True, fwd=True, frozen=True)
    r.off = off
    for c in inv(r).values():
        p.assume(c)
    return r, lim, total, mon


class Given(Run):
    """the sequences handed to the function"""

    def clone(self, ip, fwd):
        p = P()
        f = {k: self.f[k] for k in self.F}
        # the piece at the end of the copy
        f["last"] = p.int("piece")
        r = Run(ip.alloc_label("list"), fwd=fwd, **f)
        for c in inv(r).values():
            p.assume(c)
        return r

    def iter(self, ip):
        p = P()
        off, N, total = self.off, num(self.f["cnt"]), num(self.f["hi"])

        def at(i):
            i = num(i)
            p.assume(z3.Implies(z3.And(i >= 0, i < N), z3.And(off(i) >= 0, off(i + 1) > off(i), off(i + 1) <= total, (off(i + 1) == total) == (i + 1 == N), (off(i) == 0) == (i == 0))))
            p.ghost["turn"] = i
            return Sl(off(i), fold(off(i + 1) - off(i)))

        return SymSeq(self.f["cnt"], at)


def describe(ip, p, v):
    """(start, end, largest, all adjacent and non-empty, number) of a list of pieces"""
    if isinstance(v, Run):
        p.prove(v.fwd, "pieces-in-order")
        return tuple(v.f[k] for k in ("lo", "hi", "mx", "ok", "cnt"))
    if isinstance(v, (PyList, tuple)):
        it = ip.collect(ip.iterate(v))
        if not all(isinstance(x, Sl) for x in it):
            raise Unsupported("list of pieces")
        if not it:
            return 0, 0, 0, True, 0
        ok, mx = [], z3.IntVal(0)
        for a, b in zip(it, it[1:]):
            ok.append(num(a.end()) == num(b.start))
        for a in it:
            ok.append(num(a.n) > 0)
            mx = z3.If(num(a.n) > mx, num(a.n), mx)
        return it[0].start, it[-1].end(), fold(mx), fold(z3.And(*ok)), len(it)
    raise Unsupported("list of pieces")


def unchanged(ip, p, s):
    if isinstance(s, PyList):
        now = s.f["data"]
        p.prove(isinstance(now, list) and len(now) == len(p.ghost["snap"]) and all(a is b for a, b in zip(now, p.ghost["snap"])), "given-sequences-not-modified")


def u_limit(ip, p):
    s, lim, total, mon = setup(ip, p, "max_len")
    r = ip.call(ip.get_func(MOD, "_limit_sequence_length"), [s, lim])
    lo, hi, mx, ok, cnt = describe(ip, p, r)
    p.prove(fold(b_(ok)), "pieces-consecutive-and-non-empty")
    p.prove(fold(num(mx) <= num(lim)), "pieces-within-the-limit")
    p.prove(fold(z3.If(num(cnt) > 0, z3.And(num(lo) == 0, num(hi) == num(total)), num(total) == 0)), "nothing-lost-or-added")
    unchanged(ip, p, s)


def u_subsets(ip, p):
    s, n, total, mon = setup(ip, p, "n_items")
    g = ip.call(ip.get_func(MOD, "_yield_subset_of_sequences_with_fixed_number_of_items"), [s, n])

    def on(v):
        lo, hi, mx, ok, cnt = describe(ip, p, v)
        p.prove(fold(z3.And(num(cnt) > 0, b_(ok))), "pieces-consecutive-and-non-empty")
        p.prove(fold(num(lo) == num(mon.f["pos"])), "continues-where-the-last-subset-ended")
        p.prove(fold(num(hi) - num(lo) == num(n)), "requested-number-of-items")
        p.prove(fold(num(hi) <= num(total)), "nothing-added")
        mon.set("pos", hi)

    if not hasattr(g, "run"):
        raise Unsupported("not a generator")
    g.run(on)
    p.prove(fold(num(total) - num(mon.f["pos"]) < num(n)), "at-most-an-incomplete-remainder-dropped")
    p.prove(fold(num(mon.f["pos"]) <= num(total)), "nothing-added")
    unchanged(ip, p, s)


# ---------------------------------------------------------------- minibatches
class Buf(Model):
    """a list whose reverse is the stream of shuffled passes from lo to hi"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def length(self, ip):
        return fold(num(self.hi) - num(self.lo))

    def truth(self, ip):
        return fold(num(self.hi) > num(self.lo))

    def getitem(self, ip, i):
        if not isinstance(i, SliceVal):
            raise Unsupported("item of a buffer")
        n = self.length(ip)
        a, ln = ip.slice_bounds(i, n)
        # elements a .. a+ln of the list are the stream positions hi-a-ln .. hi-a
        top = fold(num(self.hi) - num(a))
        return Buf(fold(top - num(ln)), top)

    def rbinop(self, ip, op, o):
        return NotImplemented


class Pass(Model):
    """one shuffled copy of the dataset"""

    def __init__(self, n):
        self.n = n

    def length(self, ip):
        return self.n

    def binop(self, ip, op, o, swapped=False):
        import ast

        p = P()
        if not isinstance(op, ast.Add) or swapped:
            raise Unsupported("operator on a shuffled pass")
        st = p.ghost["stream"]
        if isinstance(o, PyList) and o.f["data"] == []:
            o = Buf(st.f["filled"], st.f["filled"])
        if not isinstance(o, Buf):
            raise Unsupported("operator on a shuffled pass")
        p.prove(fold(num(o.hi) == num(st.f["filled"])), "passes-used-one-after-the-other")
        st.set("filled", fold(num(st.f["filled"]) + num(self.n)))
        return Buf(o.lo, st.f["filled"])


class Stream(HModel):
    ghost = True

    def __init__(self):
        HModel.__init__(self, "stream")
        self.f.update(filled=0, pos=0)


class Data(Model):
    def __init__(self, n):
        self.n = n

    def length(self, ip):
        return self.n

    def truth(self, ip):
        return fold(num(self.n) > 0)


class BatchUnit(Unit):
    def new_list(self, ip):
        st = P().ghost["stream"]
        return Buf(0, 0)

    def loop_havoc(self, ip, loc, o, kinds):
        if kinds == [("other", "Buf")]:
            p = P()
            return Buf(p.int("lo"), p.int("hi"))
        return NotImplemented

    def loop_preds(self, ctx, k):
        p = P()
        g = p.ghost
        st, N, mb = g["stream"], num(g["N"]), num(g["mb"])
        out = {"pos": lambda: fold(z3.And(num(st.f["pos"]) >= 0, num(st.f["filled"]) >= num(st.f["pos"])))}
        pos = num(st.f["pos"])
        out["started"] = lambda: fold(z3.Or(pos == 0, pos - mb < g["need"]))
        out["last"] = lambda: fold(z3.Or(pos == 0, pos >= mb))
        for nm, v in list(ctx.fr.f.items()):
            if isinstance(v, Buf):
                out["lo-" + nm] = lambda v=v: fold(num(v.lo) == pos)
                out["hi-" + nm] = lambda v=v: fold(num(v.hi) == num(st.f["filled"]))
                out["ord-" + nm] = lambda v=v: fold(num(v.hi) >= num(v.lo))
            if is_term(v) and z3.is_int(v) or isinstance(v, int) and not isinstance(v, bool):
                out["n-" + nm] = lambda v=v: fold(num(v) == pos)
        return out


def u_minibatches(ip, p):
    g = p.ghost
    st = g["stream"] = Stream()
    N, mb, ep = p.int("N"), p.int("minibatch_size"), p.int("epochs")
    p.assume(z3.And(N >= 1, mb >= 1, ep >= 1))
    if ip.unit.mode == "bmc":
        p.assume(z3.And(N <= 3, mb <= 4, ep <= 2))
    need = N * ep
    p.assume(need >= 1)
    g.update(N=N, mb=mb, need=need)
    data = Data(N)

    def sample(ip, xs, k):
        if xs is not data:
            raise Unsupported("sample of something else")
        p.prove(fold(num(k) == N), "every-pass-uses-every-element-once")
        return Pass(N)

    ip.ext["random.sample"] = Builtin("sample", sample)
    gen = ip.call(ip.get_func(MOD, "_yield_minibatches"), [data], dict(minibatch_size=mb, num_epochs=ep))

    def on(v):
        if not isinstance(v, Buf):
            raise Unsupported("minibatch %r" % (v,))
        p.prove(fold(num(v.hi) - num(v.lo) == mb), "batches-of-the-requested-size")
        p.prove(fold(num(v.lo) == num(st.f["pos"])), "no-element-skipped-or-repeated-within-a-pass")
        p.prove(fold(num(v.hi) <= num(st.f["filled"])), "elements-of-the-dataset")
        p.prove(fold(num(st.f["pos"]) < need), "no-batch-after-the-last-epoch")
        st.set("pos", v.hi)

    if not hasattr(gen, "run"):
        raise Unsupported("not a generator")
    gen.run(on)
    p.prove(fold(num(st.f["pos"]) >= need), "every-epoch-completed")


# ---------------------------------------------------------------- datasets
class Tr(HModel):
    pass


def u_dataset_recurrent(with_limit):
    def run(ip, p):
        calls = []
        eps = Opq("episodes")

        def stub(name):
            def f(ip, fn, a, k):
                calls.append((name, a, k))
                return None
            return f

        ip.contracts[MOD + "._add_log_prob_and_value_to_episodes_recurrent"] = stub("values")
        ip.contracts[MOD + "._add_advantage_and_value_target_to_episodes"] = stub("advantages")
        res = Opq("limited")

        def lim(ip, fn, a, k):
            b = list(a) + [k[x] for x in ("sequences", "max_len")[len(a):]]
            calls.append(("limit", b, {}))
            return res

        ip.contracts[MOD + "._limit_sequence_length"] = lim
        ml = p.int("max_len") if with_limit else None
        g, l = p.real("gamma"), p.real("lambd")
        r = ip.call(ip.get_func(MOD, "_make_dataset_recurrent"), [], dict(
            episodes=eps, model=Opq("model"), phi=Opq("phi"), batch_states=Opq("bs"), obs_normalizer=None,
            gamma=g, lambd=l, max_recurrent_sequence_len=ml, device="cpu"))
        names = [c[0] for c in calls]
        p.prove(names[:2] == ["values", "advantages"] and all(eps in list(c[1]) + list(c[2].values()) for c in calls), "values-then-advantages-of-all-episodes")
        adv = calls[1]
        p.prove_eq(adv[2].get("gamma", adv[1][1] if len(adv[1]) > 1 else None), g, "discount-passed")
        p.prove_eq(adv[2].get("lambd", adv[1][2] if len(adv[1]) > 2 else None), l, "lambda-passed")
        if with_limit:
            p.prove(r is res and names == ["values", "advantages", "limit"], "split-to-the-maximum-length")
            p.prove_eq(calls[2][1][1], ml, "split-to-the-maximum-length")
        else:
            p.prove(isinstance(r, Opq) and r.src is eps, "all-episodes-kept")

    return run


def u_dataset(ip, p):
    calls, eps, data = [], Opq("episodes"), []

    def stub(name):
        def f(ip, fn, a, k):
            d = dict(zip([x.arg for x in fn.node.args.args], a), **k)
            calls.append((name, d))
            return None
        return f

    def chain(ip, x):
        if not isinstance(x, Opq):
            raise Unsupported("chain of %r" % (x,))
        p.prove([c[0] for c in calls] == ["values", "advantages"], "computed-before-the-dataset-is-built")
        data.append(Opq("transitions", x.src or x))
        return data[-1]

    ip.ext["itertools.chain.from_iterable"] = Builtin("chain.from_iterable", chain)
    ip.contracts[MOD + "._add_log_prob_and_value_to_episodes"] = stub("values")
    ip.contracts[MOD + "._add_advantage_and_value_target_to_episodes"] = stub("advantages")
    g, l = p.real("gamma"), p.real("lambd")
    model, phi, bs, norm = Opq("model"), Opq("phi"), Opq("bs"), Opq("normalizer")
    r = ip.call(ip.get_func(MOD, "_make_dataset"), [], dict(
        episodes=eps, model=model, phi=phi, batch_states=bs, obs_normalizer=norm, gamma=g, lambd=l, device="cpu"))
    if len(calls) != 2 or not isinstance(r, Opq):
        raise Unsupported("dataset made otherwise")
    (_, v), (_, a) = calls
    p.prove([c[0] for c in calls] == ["values", "advantages"] and v["episodes"] is eps and a["episodes"] is eps, "values-then-advantages-of-all-episodes")
    p.prove(v["model"] is model and v["phi"] is phi and v["batch_states"] is bs and v["obs_normalizer"] is norm, "values-by-the-given-model-and-preprocessing")
    p.prove_eq(a["gamma"], g, "discount-passed")
    p.prove_eq(a["lambd"], l, "lambda-passed")
    p.prove(r.src is eps and r.name.startswith("transitions"), "every-transition-of-every-episode-once")


class Opq(Model):
    def __init__(self, name, src=None):
        self.name, self.src = name, src

    def to_list(self, ip):
        return Opq(self.name + "-list", self.src or self)

    def iter(self, ip):
        raise Unsupported("elements of " + self.name)

    def truth(self, ip):
        return True


def units(tier):
    e = np_ext()
    return flow.units(nets.agent_ext()) + [
        SplitUnit("_limit_sequence_length", u_limit, ext=e),
        SplitUnit("_yield_subset_of_sequences", u_subsets, ext=e),
        BatchUnit("_yield_minibatches", u_minibatches, ext=e),
        Unit("_make_dataset", u_dataset, ext=e),
        Unit("_make_dataset_recurrent[limit]", u_dataset_recurrent(True), ext=e),
        Unit("_make_dataset_recurrent[no limit]", u_dataset_recurrent(False), ext=e),
    ]
