"""Representation and contract model of RandomAccessQueue (shared)."""
import z3

from pydv import seqs
from pydv.unit import Rep, check_fields
from pydv.values import (
    HModel, Model, Obj, P, PyList, PyObj, SymSeq, Unsupported, fold, is_term, num,
)

MOD = "pfrl.collections.random_access_queue"
QUAL = MOD + ".RandomAccessQueue"


class RaqRep(Rep):
    fields = ("_queue_front", "_queue_back")

    def owns(self, o, field):
        if o is self.obj:
            return field in self.fields
        return getattr(o, "rep_owner", None) is self.obj and field == "data"

    def view(self, ip=None):
        f = self.obj.f["_queue_front"]
        b = self.obj.f["_queue_back"]
        return seqs.seq_concat(seqs.seq_rev(f.f["data"]), b.f["data"])

    def valid(self, ip=None):
        f = self.obj.f.get("_queue_front")
        b = self.obj.f.get("_queue_back")
        return isinstance(f, PyList) and isinstance(b, PyList) and f is not b

    def fresh_view(self, ip=None):
        p = P()
        n = p.int("n")
        p.assume(n >= 0)
        f = p.fn("S", z3.IntSort(), Obj)
        return seqs.seq_of_fn(n, f)

    def build(self, ip, s):
        """any split of s into reversed front and back"""
        p = P()
        s = seqs.as_seq(s)
        nf = p.int("nf")
        p.assume(nf >= 0)
        p.assume(nf <= num(s.n))
        front = PyList(seqs.seq_rev(seqs.seq_slice(s, 0, nf)), "Qfront")
        back = PyList(seqs.seq_slice(s, nf, seqs.sub(s.n, nf)), "Qback")
        front.rep_owner = back.rep_owner = self.obj
        self.obj.f["_queue_front"] = front
        self.obj.f["_queue_back"] = back


def sym_queue(ip, p, maxlen="any"):
    """an arbitrary queue satisfying its invariant: (obj, rep, view, maxlen)"""
    cls = ip.get_class(MOD, "RandomAccessQueue")
    check_fields(cls, ["maxlen", "_queue_front", "_queue_back"])
    o = PyObj(cls, "Q")
    if maxlen == "any":
        maxlen = None if p.choose(2) == 0 else p.int("maxlen")
        if maxlen is not None:
            p.assume(maxlen >= 0)
    o.f["maxlen"] = maxlen
    rep = RaqRep(o)
    v = rep.fresh_view()
    if maxlen is not None:
        p.assume(num(v.n) <= num(maxlen))
    rep.build(ip, v)
    return o, rep, v, maxlen


def last(p, s, maxlen):
    """the last maxlen elements of s (forks)"""
    if maxlen is None:
        return s
    n = seqs.seq_len(s)
    if p.decide(fold(num(n) > num(maxlen))):
        return seqs.seq_slice(s, seqs.sub(n, maxlen), maxlen)
    return s
