"""C07: persistent queues.

Disk model.  A data directory holds chunks g = 0, 1, ...; chunk g has an index file
with m(g) complete records (possibly followed by a torn one) and a data file.  Record
(g, k) says where element (g, k) is stored.  A file being written has a written and a
flushed length: a process that dies leaves any prefix between the two (append-only
files, flush hands everything to the operating system).  Directory invariant: chunks
0 .. G-1 are complete pairs of files, and every complete index record of a chunk
points inside the data file at the pickled element, with its checksum.

The writer keeps that invariant at every file operation (crash points); the reader
returns, under it, exactly the elements; the queue glues the two together."""
import struct

import z3

from pydv import seqs
from pydv.interp import IterVal, SliceVal
from pydv.unit import Unit
from pydv.values import (
    Builtin, HModel, Model, Obj, Opaque, P, PyExc, PyList, PyObj, SymSeq, Text, Unsupported, fold, is_term, num,
)
from .loops import b_

I, B = z3.IntSort(), z3.BoolSort()
MOD = "pfrl.collections.persistent_collections"
QUEUE = MOD + ".PersistentRandomAccessQueue"
TRUSTED = [
    "files opened with 'wb' are empty and append-only; flush/close hand all written bytes to the operating system; a process that dies leaves a prefix of the written bytes that contains the flushed ones",
    "struct.unpack inverts struct.pack; pickle.loads inverts pickle.dumps; equal bytes have equal crc32",
    "os.replace is atomic; os.path.exists/makedirs behave as documented",
    "RandomAccessQueue keeps the last maxlen elements (property C01)",
]
ASSUMPTIONS = [
    "one process uses a directory at a time, its operating system does not crash (no fsync is claimed)",
    "directories were written by this class with one process (comm_size 1)",
    "chunk files of earlier sessions are not touched by others",
]
BOUNDED = ["real files: every crash point of every operation is replayed for random histories, chunk sizes and payloads"]


# ---------------------------------------------------------------- values
class Pickled(Model):
    """the bytes of a pickled element"""

    def __init__(self, e):
        self.e = e

    def length(self, ip):
        return plen(self.e)


def plen(e):
    p = P()
    f = p.ghost.setdefault("plen", z3.Function("pickled_length", Obj, I))
    p.assume(f(e) > 0)
    return f(e)


def crc_of(e):
    return z3.Function("crc_of_pickle", Obj, I)(e)


class Packed(Model):
    def __init__(self, fmt, vals):
        self.fmt, self.vals = fmt, vals

    def length(self, ip):
        return struct.calcsize(self.fmt)


class Blob(Model):
    """bytes [o, o + l) of the data file of chunk g"""

    def __init__(self, d, g, o, l):
        self.d, self.g, self.o, self.l = d, g, o, l

    def length(self, ip):
        return self.l


class IndexBytes(Model):
    """the bytes of an index file"""

    def __init__(self, d, g):
        self.d, self.g = d, g

    def length(self, ip):
        return self.d.index_len(self.g)

    def getitem(self, ip, i):
        if not isinstance(i, SliceVal):
            raise Unsupported("byte of an index file")
        a, ln = ip.slice_bounds(i, self.length(ip))
        return IndexSlice(self.d, self.g, a, ln)


class IndexSlice(Model):
    def __init__(self, d, g, a, ln):
        self.d, self.g, self.a, self.ln = d, g, a, ln

    def length(self, ip):
        return self.ln


class DataBytes(Model):
    def __init__(self, d, g):
        self.d, self.g = d, g

    def length(self, ip):
        return self.d.data_len(self.g)

    def getitem(self, ip, i):
        if not isinstance(i, SliceVal):
            raise Unsupported("byte of a data file")
        a, ln = ip.slice_bounds(i, self.length(ip))
        return Blob(self.d, self.g, a, ln)


class Dir(Model):
    """a data directory satisfying the invariant"""

    def __init__(self, p, name, size):
        self.name, self.size = name, size
        self.G = p.int(name + "_chunks")
        p.assume(self.G >= 0)
        self.m_ = p.fn(name + "_records", I, I)
        self.r_ = p.fn(name + "_torn", I, I)
        self.dl = p.fn(name + "_datalen", I, I)
        self.off_ = p.fn(name + "_off", I, I, I)
        self.len_ = p.fn(name + "_len", I, I, I)
        self.crc_ = p.fn(name + "_crc", I, I, I)
        self.st_ = p.fn(name + "_status", I, I, I)
        self.elem_ = p.fn(name + "_elem", I, I, Obj)
        self.CRC = p.fn(name + "_crc32", I, I, I, I)
        self.UNP = p.fn(name + "_loads", I, I, I, Obj)
        self.ex_i = p.fn(name + "_has_index", I, B)
        self.ex_d = p.fn(name + "_has_data", I, B)
        self.S_ = p.fn(name + "_before", I, I)
        p.assume(z3.Not(z3.And(self.ex_i(self.G), self.ex_d(self.G))))
        # a chunk whose data file was never created has no record, and none follows it
        p.assume(z3.Not(self.ex_i(self.G + 1)))
        p.assume(z3.Implies(z3.Not(self.ex_d(self.G)), self.m_(self.G) == 0))
        p.assume(self.S_(0) == 0)
        if p.unit.mode == "bmc":
            p.assume(self.G <= 3)
            for g in range(6):
                self.S(z3.IntVal(g))
        self.S(self.G)

    def m(self, g):
        p = P()
        g = num(g)
        p.assume(z3.And(self.m_(g) >= 0, self.r_(g) >= 0, self.r_(g) < self.size))
        return self.m_(g)

    def S(self, g):
        """number of elements in chunks before g"""
        p = P()
        g = num(g)
        for x in (g, g - 1):
            p.assume(z3.Implies(x >= 0, z3.And(self.S_(x + 1) == self.S_(x) + self.m(x), self.S_(x) >= 0)))
        # sums of non-negative numbers
        p.assume(z3.Implies(z3.And(0 <= g, g <= self.G), z3.And(self.S_(g) >= 0, self.S_(g) <= self.S_(self.G))))
        return self.S_(g)

    def index_len(self, g):
        return fold(self.m(g) * self.size + self.r_(num(g)))

    def data_len(self, g):
        P().assume(self.dl(num(g)) >= 0)
        return self.dl(num(g))

    def exists(self, kind, g):
        p = P()
        g = num(g)
        p.assume(z3.Implies(z3.And(g >= 0, g < self.G), z3.And(self.ex_i(g), self.ex_d(g))))
        return (self.ex_i if kind == "index" else self.ex_d)(g)

    def rec(self, g, k):
        p = P()
        g, k = num(g), num(k)
        o, l = self.off_(g, k), self.len_(g, k)
        p.assume(z3.Implies(z3.And(g >= 0, g < self.G, k >= 0, k < self.m(g)), z3.And(
            o >= 0, l >= 0, o + l <= self.data_len(g), self.CRC(g, o, l) == self.crc_(g, k),
            self.UNP(g, o, l) == self.elem_(g, k))))
        return (g, o, l, self.crc_(g, k), self.st_(g, k))


class Mon(HModel):
    ghost = True

    def __init__(self, label, **f):
        HModel.__init__(self, label)
        self.f.update(f)


# ---------------------------------------------------------------- files
class WFile(HModel):
    """a file being written"""

    def __init__(self, fs, kind, g):
        HModel.__init__(self, kind + "-file")
        self.fs, self.kind, self.g = fs, kind, g
        self.f.update(written=0, flushed=0, closed=False, n=0)

    def open_only(self, what):
        if self.f["closed"] is not False:
            P().prove(b_(not self.f["closed"]) if isinstance(self.f["closed"], bool) else z3.Not(self.f["closed"]),
                      "files-used-while-open")

    def m_write(self, ip, b):
        p = P()
        self.open_only("write")
        at = self.f["written"]
        mon = p.ghost.get("wmon")
        if mon is not None:
            mon(ip, self, b, at)
        self.set("written", seqs.add(at, ip.length(b)))
        self.set("n", seqs.add(self.f["n"], 1))
        return ip.length(b)

    def m_flush(self, ip):
        self.open_only("flush")
        self.set("flushed", self.f["written"])

    def m_tell(self, ip):
        return self.f["written"]

    def m_fileno(self, ip):
        return Opaque("fd")

    def m_close(self, ip):
        self.set("flushed", self.f["written"])
        self.set("closed", True)

    def p_closed(self, ip):
        return self.f["closed"]

    def m___enter__(self, ip):
        return self

    def m___exit__(self, ip, *a):
        self.m_close(ip)
        return None


class RFile(Model):
    def __init__(self, content):
        self.content = content

    def m_read(self, ip, *a):
        if a:
            raise Unsupported("partial read")
        return self.content

    def m_close(self, ip):
        pass

    def m___enter__(self, ip):
        return self

    def m___exit__(self, ip, *a):
        return None


def flat(path):
    if isinstance(path, str):
        return [path]
    if isinstance(path, Text):
        return list(path.parts)
    raise Unsupported("path %r" % (path,))


def same_path(a, b):
    """definitely the same / definitely different names"""
    p = P()
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                return False
        elif x is not y and not (is_term(x) and is_term(y) and x.sort() == y.sort() and p.entails(x == y)):
            return False
    return True


class FS(Model):
    """the file system; dirs: datadir name -> Dir"""

    def __init__(self, dirs, names):
        self.dirs, self.names = dirs, names
        self.files = []

    def classify(self, path):
        """(directory, kind, generation) of a chunk file"""
        parts = flat(path)
        ts = [i for i, x in enumerate(parts) if not isinstance(x, str)]
        if not ts and self.names is not None:
            for kind, (a, b) in self.names.items():
                for d, D in self.dirs.items():
                    x = parts[0]
                    if x.startswith(d + a) and x.endswith(b) and x[len(d + a):len(x) - len(b)].isdigit():
                        return D, kind, int(x[len(d + a):len(x) - len(b)])
        if len(ts) != 1 or not is_term(parts[ts[0]]) or self.names is None:
            raise Unsupported("file %r" % (path,))
        pre, post = "".join(parts[:ts[0]]), "".join(parts[ts[0] + 1:])
        for kind, (a, b) in self.names.items():
            for d, D in self.dirs.items():
                if pre == d + a and post == b:
                    return D, kind, parts[ts[0]]
        raise Unsupported("file %r" % (path,))

    def m_open(self, ip, path, mode="r", *a, **k):
        p = P()
        if mode == "rb":
            if p.ghost.get("meta_path") is not None:
                for mp, content in p.ghost["meta_path"]:
                    if same_path(path, mp):
                        return RFile(content)
            D, kind, g = self.classify(path)
            p.prove(fold(D.exists(kind, g)), "reads-existing-files")
            return RFile(IndexBytes(D, g) if kind == "index" else DataBytes(D, g))
        if mode not in ("wb", "xb"):
            raise Unsupported("open mode %r" % (mode,))
        h = p.ghost.get("on_create")
        f = WFile(self, "unknown", None)
        f.path = path
        self.files.append(f)
        if h is not None:
            h(ip, f, path)
        return f

    def m_exists(self, ip, path):
        h = P().ghost.get("exists_hook")
        if h is not None:
            r = h(path)
            if r is not None:
                return r
        D, kind, g = self.classify(path)
        return D.exists(kind, g)

    def m_makedirs(self, ip, path, exist_ok=False, mode=None):
        return None

    def m_replace(self, ip, a, b):
        p = P()
        for f in self.files:
            if same_path(f.path, a):
                p.prove(f.f["closed"] is True, "crash.only-complete-files-are-renamed")
                f.path = b
        return None

    m_rename = m_replace


def ext():
    e = {}
    e["pickle.dumps"] = Builtin("dumps", lambda ip, x, *a, **k: Pickled(x) if is_term(x) else Meta(x))

    def dump(ip, x, f, *a, **k):
        f.m_write(ip, Pickled(x) if is_term(x) else Meta(x))

    e["pickle.dump"] = Builtin("dump", dump)

    def loads(ip, b):
        if isinstance(b, Blob):
            return b.d.UNP(num(b.g), num(b.o), num(b.l))
        if isinstance(b, Pickled):
            return b.e
        raise Unsupported("loads of %r" % (b,))

    e["pickle.loads"] = Builtin("loads", loads)

    def load(ip, f):
        c = f.content
        if isinstance(c, Meta):
            return c.v
        raise Unsupported("pickle.load")

    e["pickle.load"] = Builtin("load", load)

    def crc(ip, b, *a):
        if a:
            raise Unsupported("crc32 with a start value")
        if isinstance(b, Pickled):
            return crc_of(b.e)
        if isinstance(b, Blob):
            return b.d.CRC(num(b.g), num(b.o), num(b.l))
        raise Unsupported("crc32 of %r" % (b,))

    e["binascii.crc32"] = e["zlib.crc32"] = Builtin("crc32", crc)

    def pack(ip, fmt, *v):
        return Packed(fmt, v)

    def unpack(ip, fmt, b):
        p = P()
        if not isinstance(b, IndexSlice):
            raise Unsupported("unpack of %r" % (b,))
        D = b.d
        if fmt != D.fmt:
            p.prove(False, "index.read-with-the-format-it-was-written-with")
        p.prove(fold(num(b.ln) == D.size), "index.whole-records-are-decoded")
        k = fold(num(b.a) / D.size)
        p.prove(fold(num(k) * D.size == num(b.a)), "index.records-are-decoded-at-their-boundaries")
        p.assume(z3.And(k >= 0))
        p.prove(fold(num(k) < D.m(b.g)), "index.only-complete-records-are-decoded")
        return D.rec(b.g, k)

    e["struct.pack"] = Builtin("pack", pack)
    e["struct.unpack"] = Builtin("unpack", unpack)
    e["struct.calcsize"] = Builtin("calcsize", lambda ip, fmt: struct.calcsize(fmt))
    e["collections.namedtuple"] = Builtin("namedtuple", lambda ip, *a, **k: Opaque("namedtuple"))
    e["os.path.exists"] = Opaque("exists")
    e["datetime.datetime.today"] = e["datetime.datetime.now"] = Builtin("today", lambda ip, *a: Opaque("date"))
    e["datetime.datetime.strftime"] = Builtin("strftime", lambda ip, *a: Opaque("timestamp"))
    e["os.fsync"] = Builtin("fsync", lambda ip, fd: None)
    return e


class Meta(Model):
    def __init__(self, v):
        self.v = v

    def length(self, ip):
        return 100


# ---------------------------------------------------------------- writer
def learn(ip, p):
    """what the writer calls its files and how it packs its records: observed by
    running it once"""
    g, e = p.int("g0"), p.obj("e0")
    p.assume(g >= 0)
    fs = FS({}, None)
    seen = {}

    def mon(ip, f, b, at):
        if isinstance(b, Packed):
            seen["index"], seen["fmt"] = f, b.fmt
        elif isinstance(b, Pickled):
            seen["data"] = f
        else:
            raise Unsupported("writes %r" % (b,))

    p.ghost["wmon"] = mon
    cs = p.int("cs0")
    p.assume(cs > 0)
    ip.contracts.pop(MOD + "._ChunkWriter", None)
    w = ip.call(ip.get_class(MOD, "_ChunkWriter"), ["D", g, cs, fs])
    ip.call(ip.getattr(w, "append"), [e])
    p.ghost["wmon"] = None
    if set(seen) != {"index", "data", "fmt"} or seen["index"] is seen["data"]:
        raise Unsupported("layout of the chunk files")
    names = {}
    for kind in ("index", "data"):
        parts = flat(seen[kind].path)
        if len(parts) != 3 or not (isinstance(parts[0], str) and isinstance(parts[2], str) and parts[0].startswith("D/")) or not parts[1].eq(g):
            raise Unsupported("names of the chunk files")
        names[kind] = (parts[0][1:], parts[2])
    if names["index"] == names["data"]:
        raise Unsupported("names of the chunk files")
    return names, seen["fmt"], [k for k, v in w.f.items() if v is seen["index"]], [k for k, v in w.f.items() if v is seen["data"]]


def world(ip, p, *ds):
    names, fmt, fi, fd = learn(ip, p)
    dirs = {}
    for d in ds:
        D = Dir(p, d.replace("/", "_"), struct.calcsize(fmt))
        D.fmt = fmt
        dirs[d] = D
    return FS(dirs, names), dirs, names, fmt


def u_writer_init(ip, p):
    names, fmt, fi, fd = learn(ip, p)
    fs = FS({}, names)
    g, cs = p.int("g"), p.int("chunksize")
    p.assume(z3.And(g >= 0, cs > 0))
    created = []
    p.ghost["on_create"] = lambda ip, f, path: created.append(flat(path))
    w = ip.call(ip.get_class(MOD, "_ChunkWriter"), ["dir", g, cs, fs])
    want = [["dir" + names[k][0], g, names[k][1]] for k in ("index", "data")]
    for x in want:
        p.prove(sum(1 for c in created if len(c) == 3 and c[0] == x[0] and c[2] == x[2] and c[1] is g) == 1,
                "init.creates-both-files-of-its-generation")
    p.prove(len(created) == 2, "init.creates-nothing-else")
    p.prove(z3.Not(b_(ip.truth_t(ip.call(ip.getattr(w, "is_full"), [])))), "init.not-full")


def u_writer_append(ip, p):
    names, fmt, fi, fd = learn(ip, p)
    if len(fi) != 1 or len(fd) != 1:
        raise Unsupported("fields of the writer")
    size = struct.calcsize(fmt)
    fs = FS({}, names)
    g, cs = p.int("g"), p.int("chunksize")
    p.assume(z3.And(g >= 0, cs > 0))
    w = ip.call(ip.get_class(MOD, "_ChunkWriter"), ["dir", g, cs, fs])
    X, D = w.f[fi[0]], w.f[fd[0]]
    # any state: n records written, all of it flushed
    n, off = p.int("n"), p.int("stored")
    p.assume(z3.And(n >= 0, off >= 0, z3.Implies(n == 0, off == 0)))
    if not {"offset", "full"} <= set(w.f):
        raise Unsupported("fields of the writer")
    w.f["offset"] = off
    full = p.decide(fold(cs < off))
    w.f["full"] = full
    for f, t in ((X, n * size), (D, off)):
        f.f.update(written=t, flushed=t, closed=full)
    e = p.obj("element")
    st = {"data": 0, "index": 0}

    def mon(ip, f, b, at):
        if f is D:
            p.prove(isinstance(b, Pickled) and b.e.eq(e), "append.stores-the-pickled-element")
            st["data"] += 1
            st["at"] = at
        elif f is X:
            p.prove(isinstance(b, Packed) and b.fmt == fmt, "append.index-record-format")
            if not isinstance(b, Packed) or len(b.vals) != 5:
                raise Unsupported("index record")
            st["index"] += 1
            p.prove(st["data"] == 1, "crash.data-written-before-its-index-record")
            gg, o, l, c, _ = b.vals
            p.prove_eq(o, st.get("at", -1), "append.record-points-at-the-element")
            p.prove_eq(l, plen(e), "append.record-has-the-length")
            p.prove_eq(c, crc_of(e), "append.record-has-the-checksum")
            p.prove_eq(gg, g, "append.record-names-the-chunk")
            # a crash after this write may leave the record on disk
            p.prove(fold(num(D.f["flushed"]) >= num(o) + num(l)), "crash.data-reaches-the-disk-before-its-index-record")
        else:
            raise Unsupported("writes elsewhere")

    p.ghost["wmon"] = mon
    try:
        ip.call(ip.getattr(w, "append"), [e])
    except PyExc as ex:
        p.prove(full, "append.raises-only-when-full")
        p.prove(st == {"data": 0, "index": 0}, "append.nothing-written-when-full")
        return
    p.prove(not full, "append.refused-when-full")
    p.prove(st["data"] == 1 and st["index"] == 1, "append.one-element-one-record")
    p.prove(fold(num(X.f["flushed"]) == (n + 1) * size), "append.record-handed-to-the-system-before-returning")
    p.prove(fold(num(X.f["written"]) == (n + 1) * size), "append.index-grows-by-one-record")
    p.prove(fold(num(D.f["flushed"]) == off + plen(e)), "append.element-handed-to-the-system-before-returning")
    # invariant for the next append
    p.prove_eq(w.f["offset"], D.f["written"], "append.offset-is-the-end-of-the-data")
    isf = b_(ip.truth_t(ip.call(ip.getattr(w, "is_full"), [])))
    p.prove(fold(isf == (cs < off + plen(e))), "append.full-when-the-chunk-size-is-exceeded")
    for f in (X, D):
        p.prove(fold(z3.Implies(z3.Not(isf), z3.Not(b_(f.f["closed"])))), "append.files-open-until-full")


# ---------------------------------------------------------------- reader
class ReadUnit(Unit):
    def loop_preds(self, ctx, k):
        b = P().ghost.get("bound")
        if b is None or (b[0].uid, "n") not in ctx.init:
            return {}
        return {"bound": lambda: fold(num(b[0].f["n"]) <= num(b[1]()))}

    def loop_anchors(self, ctx, k, loc):
        p = P()
        D = p.ghost.get("dir")
        o = p.objs.get(loc[0])
        iv = ctx.init.get(loc)
        out = {}
        if D is None:
            return out
        if isinstance(o, Mon):
            s = getattr(ctx, "over", None)
            if s is not None and loc[1] in ("lo", "nxt", "hi", "c") and isinstance(s, SymSeq):
                def g0():
                    return num(seqs.seq_at(s, 0))
                if loc[1] == "lo":
                    out["lo"] = lambda: z3.If(num(k) == 0, num(iv), g0())
                if loc[1] == "nxt":
                    out["nxt"] = lambda: z3.If(num(k) == 0, num(iv), g0() + num(k))
        if isinstance(iv, int) and not isinstance(iv, bool) or (is_term(iv) and z3.is_int(iv)):
            out["records"] = lambda: fold(num(iv) + num(k) * D.size)
            out["sum"] = lambda: fold(num(iv) + D.S(k))
            out["from-the-end"] = lambda: fold(num(iv) - (D.S(D.G) - D.S(D.G - num(k))))
        return out


def reader(ip, p, d="dir"):
    fs, dirs, names, fmt = world(ip, p, d)
    p.ghost["dir"] = dirs[d]
    return ip.call(ip.get_class(MOD, "_ChunkReader"), [d, fs]), dirs[d], fs


def run_gen(ip, g, on):
    if hasattr(g, "run"):
        g.run(on)
        return
    s = ip.iterate(g)
    if isinstance(s, list):
        for x in s:
            on(x)
        return
    raise Unsupported("not a generator")


def u_read_index(ip, p):
    r, D, fs = reader(ip, p)
    g = p.int("g")
    p.assume(z3.And(g >= 0, D.exists("index", g)))
    mon = Mon("records", n=0)
    p.ghost["bound"] = (mon, lambda: D.m(g))

    def on(v):
        n = mon.f["n"]
        if not isinstance(v, tuple) or len(v) != 5:
            raise Unsupported("index record %r" % (v,))
        p.prove(fold(num(n) < D.m(g)), "index.nothing-beyond-the-complete-records")
        for x, y, what in zip(v, D.rec(g, n), ("chunk", "offset", "length", "checksum", "status")):
            p.prove_eq(x, y, "index.records-in-order." + what)
        mon.set("n", seqs.add(n, 1))

    run_gen(ip, ip.call(ip.getattr(r, "read_chunk_index"), [g]), on)
    p.prove(fold(num(mon.f["n"]) == D.m(g)), "index.every-complete-record-is-read")


def index_contract(D):
    def f(ip, fn, a, k):
        g = a[1] if len(a) > 1 else k["gen"]
        p = P()
        d = a[0].f.get("datadir") if isinstance(a[0], PyObj) else None
        DD = p.ghost["dirs"].get(d, D) if p.ghost.get("dirs") else D
        p.prove(fold(DD.exists("index", g)), "reads-existing-files")
        return SymSeq(DD.m(g), lambda i: DD.rec(g, i))

    return f


def u_read_chunk(ip, p):
    r, D, fs = reader(ip, p)
    ip.contracts[MOD + "._ChunkReader.read_chunk_index"] = index_contract(D)
    g = p.int("g")
    p.assume(z3.And(g >= 0, g < D.G))
    mon = Mon("elements", n=0)
    p.ghost["bound"] = (mon, lambda: D.m(g))

    def on(v):
        n = mon.f["n"]
        p.prove(fold(num(n) < D.m(g)), "chunk.nothing-added")
        p.prove_eq(v, D.elem_(g, num(n)), "chunk.elements-in-order")
        mon.set("n", seqs.add(n, 1))

    run_gen(ip, ip.call(ip.getattr(r, "read_chunk"), [g]), on)
    p.prove(fold(num(mon.f["n"]) == D.m(g)), "chunk.nothing-lost")


def u_count(ip, p):
    r, D, fs = reader(ip, p)
    ip.contracts[MOD + "._ChunkReader.read_chunk_index"] = index_contract(D)
    mon = Mon("chunks", n=0)
    p.ghost["bound"] = (mon, lambda: D.G)

    def on(v):
        n = mon.f["n"]
        if not isinstance(v, tuple) or len(v) != 2:
            raise Unsupported("chunk count %r" % (v,))
        p.prove(fold(num(n) < D.G), "chunks.only-complete-pairs")
        p.prove_eq(v[0], n, "chunks.in-order")
        p.prove(fold(num(v[1]) == D.m(n)), "chunks.number-of-elements")
        mon.set("n", seqs.add(n, 1))

    run_gen(ip, ip.call(ip.getattr(r, "_count_all_chunks"), []), on)
    p.prove(fold(num(mon.f["n"]) == D.G), "chunks.every-complete-pair")


class Sink(Mon):
    """collects whole chunks: lo .. nxt - 1"""

    def __init__(self, D):
        Mon.__init__(self, "sink", lo=0, nxt=-1)
        self.D = D

    def m_extend(self, ip, xs):
        p = P()
        g = p.ghost.get("chunk_read")
        s = ip.iterate(xs)
        if g is None or not isinstance(s, SymSeq):
            raise Unsupported("extends with something else")
        p.ghost["chunk_read"] = None
        D = self.D
        p.prove(fold(num(s.n) == D.m(g)), "read.whole-chunks")
        p.prove_forall(D.m(g), lambda i: seqs.eq_term(seqs.seq_at(s, i), D.elem_(num(g), i)), "read.elements-of-the-chunk")
        nx = num(self.f["nxt"])
        p.prove(fold(z3.Or(nx == -1, nx == num(g))), "read.chunks-in-order")
        self.set("lo", fold(z3.If(nx == -1, num(g), num(self.f["lo"]))))
        self.set("nxt", fold(num(g) + 1))


def read_chunk_contract(D):
    def f(ip, fn, a, k):
        p = P()
        g = a[1] if len(a) > 1 else k["gen"]
        p.prove(fold(z3.And(num(g) >= 0, num(g) < D.G)), "read.only-complete-chunks")
        p.ghost["chunk_read"] = g
        return SymSeq(D.m(g), lambda i: D.elem_(num(g), num(i)), True)

    return f


def u_read_chunks(ip, p):
    r, D, fs = reader(ip, p)
    ip.contracts[MOD + "._ChunkReader.read_chunk_index"] = index_contract(D)
    ip.contracts[MOD + "._ChunkReader.read_chunk"] = read_chunk_contract(D)
    ip.contracts[MOD + "._ChunkReader._count_all_chunks"] = lambda ip, fn, a, k: SymSeq(D.G, lambda i: (i, D.m(i)))
    ml = p.int("maxlen") if p.choose(2) else None
    if ml is not None:
        p.assume(ml > 0)
    sink = Sink(D)
    res = ip.call(ip.getattr(r, "read_chunks"), [ml, sink])
    p.prove_eq(res, D.G, "read.next-generation-is-free")
    lo, nx = num(sink.f["lo"]), num(sink.f["nxt"])
    none = nx == -1
    p.prove(fold(z3.Implies(none, D.S(D.G) == 0)), "read.up-to-the-newest-chunk")
    p.prove(fold(z3.Implies(z3.Not(none), nx == D.G)), "read.up-to-the-newest-chunk")
    lo = z3.If(none, 0, lo)
    p.prove(fold(z3.And(lo >= 0, lo <= D.G)), "read.range")
    if ml is None:
        p.prove(fold(D.S(lo) == 0), "read.everything-when-unbounded")
    else:
        D.S(lo)
        p.prove(fold(z3.Or(D.S(lo) == 0, D.S(D.G) - D.S(lo) >= ml)), "read.at-least-the-requested-number-of-newest-elements")


# ---------------------------------------------------------------- queue
class RaqM(Mon):
    """RandomAccessQueue: n elements, of which the last hi - c (or all) are the
    lineage positions [c, hi)"""

    def __init__(self, maxlen):
        Mon.__init__(self, "raq", c=0, hi=0, n=0)
        self.maxlen = maxlen

    def add(self, a, b):
        f = self.f
        a, b = num(a), num(b)
        empty = a == b
        self.set("c", fold(z3.If(z3.Or(empty, a == num(f["hi"])), num(f["c"]), a)))
        n = num(f["n"]) + b - a
        if self.maxlen is not None:
            n = z3.If(n > num(self.maxlen), num(self.maxlen), n)
        self.set("n", fold(n))
        self.set("hi", fold(z3.If(empty, num(f["hi"]), b)))

    def length(self, ip):
        return self.f["n"]

    def m_extend(self, ip, xs):
        p = P()
        s = xs.f["data"] if isinstance(xs, PyList) else xs
        if isinstance(s, list) and not s:
            return
        r = p.ghost["ranges"].get(id(s))
        if r is None:
            raise Unsupported("extends with something else")
        self.add(*r)


def chunks_contract(ip, fn, a, k):
    """read_chunks: extends buf by a suffix of the directory's elements"""
    p = P()
    b = dict(zip(("self", "maxlen", "buf"), a))
    b.update(k)
    ml, buf = b["maxlen"], b["buf"]
    D = p.ghost["dirs"].get(b["self"].f.get("datadir"))
    if D is None:
        raise Unsupported("reader of another directory")
    if ml is not None:
        p.prove(fold(num(ml) > 0), "read_chunks.positive-length")
    lo = p.int("lo")
    p.assume(z3.And(lo >= 0, lo <= D.G))
    p.assume(D.S(lo) == 0 if ml is None else z3.Or(D.S(lo) == 0, D.S(D.G) - D.S(lo) >= num(ml)))
    base = p.ghost["base"][D.name]
    r = (fold(base + D.S(lo)), fold(base + D.S(D.G)))
    if isinstance(buf, RaqM):
        buf.add(*r)
    elif isinstance(buf, PyList) and buf.f["data"] == []:
        f = p.fn("loaded", I, Obj)
        s = SymSeq(fold(num(r[1]) - num(r[0])), lambda i: f(num(i)), True)
        p.keep.append(s)
        p.ghost["ranges"][id(s)] = r
        buf.set("data", s)
    else:
        raise Unsupported("reads into something else")
    return D.G


def base_queue(ip, p, ds):
    fs, dirs, names, fmt = world(ip, p, *ds)
    p.ghost["dirs"] = dirs
    p.ghost["ranges"] = {}
    cls = ip.get_class(MOD, "PersistentRandomAccessQueue")

    def setup(ip, fn, a, k):
        a[0].set("fs", fs)

    p.ghost["open"] = fs.m_open
    ip.contracts[QUEUE + "._setup_fs"] = setup
    ip.contracts[MOD + "._ChunkReader.read_chunks"] = chunks_contract
    ip.contracts[MOD + "._ChunkReader.read_chunk_index"] = index_contract(None)
    return cls, fs, dirs


class WriterM(HModel):
    """contract of a chunk writer"""

    def __init__(self, d, g):
        HModel.__init__(self, "writer")
        self.d, self.g = d, g
        self.f["full"] = P().bool("full")

    def m_is_full(self, ip):
        return self.f["full"]

    def m_append(self, ip, v):
        p = P()
        p.prove(z3.Not(b_(self.f["full"])), "queue.never-appends-to-a-full-chunk")
        log = p.ghost["disk"]
        p.prove_eq(self.g, fold(num(log.f["chunks"]) - 1), "queue.appends-to-the-newest-chunk")
        p.ghost["on_disk"](v)
        self.set("full", p.bool("full"))

    def m_close(self, ip):
        return None


def writer_contract(ip, cls, a, k):
    p = P()
    b = dict(zip(("datadir", "gen", "chunksize", "fs", "do_pickle"), a))
    b.update(k)
    if b.get("do_pickle", True) is not True:
        p.prove(False, "queue.elements-are-pickled")
    p.prove(same_path(b["datadir"], p.ghost["datadir"]), "queue.writes-where-it-reads")
    log = p.ghost["disk"]
    p.prove_eq(b["gen"], log.f["chunks"], "queue.new-chunk-follows-the-existing-ones")
    log.set("chunks", seqs.add(log.f["chunks"], 1))
    w = WriterM(b["datadir"], b["gen"])
    if p.ghost.get("fresh_not_full", True):
        w.f["full"] = False
    return w


def u_queue_init(with_anc):
    def run(ip, p):
        cls, fs, dirs = base_queue(ip, p, ["base/rank0"])
        D = dirs["base/rank0"]
        ml = p.int("maxlen") if p.choose(2) else None
        if ml is not None:
            p.assume(ml > 0)
        A = p.int("ancestral") if with_anc else 0
        if with_anc:
            p.assume(A >= 0)
        p.ghost["base"] = {D.name: num(A)}
        p.ghost["datadir"] = "base/rank0"
        have_dir, have_meta = p.choose(2), p.choose(2)
        if not have_dir:
            p.assume(D.G == 0)
        if have_dir and not have_meta:
            # the meta file comes first
            from pydv.values import PathDead

            raise PathDead()
        meta_path = "base/meta.pkl"
        content = Meta(ip.unit.meta(ip, None, p.int("stored_maxlen")))
        p.ghost["meta_path"] = [(meta_path, content)]

        def exists(path):
            if same_path(path, "base/rank0"):
                return bool(have_dir)
            if same_path(path, meta_path):
                return bool(have_meta)
            return None

        p.ghost["exists_hook"] = exists

        def create(ip, f, path):
            p.prove(not same_path(path, meta_path), "crash.meta-file-is-never-partial")

        p.ghost["on_create"] = create
        disk = Mon("disk", chunks=D.G)
        p.ghost["disk"] = disk
        p.ghost["wmon"] = None
        raq = []

        def mk(ip, c, a, k):
            b = dict(zip(("args", "maxlen"), a))
            b.update(k)
            if b.get("args"):
                raise Unsupported("queue with initial elements")
            p.prove_eq(b.get("maxlen"), ml, "init.queue-has-the-requested-length")
            raq.append(RaqM(b.get("maxlen")))
            return raq[-1]

        ip.contracts["pfrl.collections.random_access_queue.RandomAccessQueue"] = mk

        def load_anc(ip, fn, a, k):
            b = dict(zip(("self", "ancestor", "num_data_needed"), a))
            b.update(k)
            need = b["num_data_needed"]
            q = raq[0]
            p.prove(b["ancestor"] == "anc", "init.loads-the-ancestor")
            p.prove_eq(q.f["n"], 0, "init.ancestor-first")
            if ml is None:
                p.prove(need is None, "init.asks-for-everything-when-unbounded")
            else:
                p.prove_eq(need, ml, "init.asks-for-as-many-as-fit")
            anc_post(p, q, A, need)
            return Opaque("meta")

        if with_anc:
            ip.contracts[QUEUE + "._load_ancestor"] = load_anc
        ip.contracts[MOD + "._ChunkWriter"] = writer_contract
        o = ip.call(cls, ["base", ml], dict(ancestor="anc") if with_anc else {})
        if len(raq) != 1:
            raise Unsupported("number of queues")
        q = raq[0]
        T = fold(num(A) + D.S(D.G))
        n, c, hi = num(q.f["n"]), num(q.f["c"]), num(q.f["hi"])
        want = T if ml is None else z3.If(num(T) > ml, ml, T)
        p.prove(fold(n == want), "init.as-many-elements-as-fit")
        p.prove(fold(z3.Or(n == 0, z3.And(hi == num(T), n <= hi - c))), "init.the-newest-elements-in-order")
        # invariant of the object
        w = o.f.get("tail")
        if not isinstance(w, WriterM) or "gen" not in o.f:
            raise Unsupported("fields of the queue")
        p.prove_eq(o.f["gen"], disk.f["chunks"], "init.next-generation")
        p.prove(fold(num(disk.f["chunks"]) == D.G + 1), "init.one-new-chunk")

    return run


def anc_post(p, q, A, need):
    """contract of _load_ancestor on an empty queue"""
    c, n = p.int("c"), p.int("n")
    A = num(A)
    tail = A - c
    p.assume(z3.And(c >= 0, c <= A, n >= 0, n <= A))
    if need is None:
        p.assume(c == 0)
    else:
        p.assume(tail >= z3.If(num(need) < A, num(need), A))
    ml = q.maxlen
    p.assume(n >= (tail if ml is None else z3.If(num(ml) < tail, num(ml), tail)))
    if ml is not None:
        p.assume(n <= num(ml))
    q.set("c", c)
    q.set("n", n)
    q.set("hi", A)


def u_load_ancestor(ip, p):
    cls, fs, dirs = base_queue(ip, p, ["anc/rank0"])
    D = dirs["anc/rank0"]
    p.ghost["dir"] = D
    ml = p.int("maxlen") if p.choose(2) else None
    need = None
    if ml is not None:
        need = p.int("needed")
        p.assume(z3.And(ml > 0, need > 0, need <= ml))
    older = p.choose(2)
    A0 = p.int("older") if older else 0
    if older:
        p.assume(A0 >= 0)
    p.ghost["base"] = {D.name: num(A0)}
    p.ghost["meta_path"] = [("anc/meta.pkl", Meta(ip.unit.meta(ip, "older" if older else None, None)))]
    o = PyObj(cls, "queue")
    q = RaqM(ml)
    o.f.update(fs=fs, buffer=q, logger=None)
    calls = []
    T = fold(num(A0) + D.S(D.G))

    def inner(ip, fn, a, k):
        b = dict(zip(("self", "ancestor", "num_data_needed"), a))
        b.update(k)
        p.prove(b["ancestor"] == "older" and older == 1, "ancestor.follows-the-lineage")
        p.prove_eq(q.f["n"], 0, "ancestor.oldest-first")
        nd = b["num_data_needed"]
        p.prove((nd is None) == (ml is None), "ancestor.how-many-are-needed")
        if nd is not None:
            p.prove(fold(z3.And(num(nd) > 0, num(nd) <= num(ml))), "ancestor.how-many-are-needed")
        calls.append(nd)
        anc_post(p, q, A0, nd)
        return Opaque("meta")

    f = cls.lookup("_load_ancestor")[0]
    ip.contracts[QUEUE + "._load_ancestor"] = inner
    ip.call_body(f, [o, "anc", need], {})
    n, c, hi = num(q.f["n"]), num(q.f["c"]), num(q.f["hi"])
    T = num(T)
    p.prove(fold(z3.Or(T == 0, n == 0, hi == T)), "ancestor.up-to-the-newest-element")
    tail = z3.If(n == 0, 0, T - c)
    p.prove(fold(z3.And(tail >= 0, tail <= T)), "ancestor.range")
    p.prove(fold(tail >= (T if need is None else z3.If(num(need) < T, num(need), T))), "ancestor.the-newest-elements-of-the-lineage")
    p.prove(fold(n <= T), "ancestor.nothing-twice")
    p.prove(fold(n >= (tail if ml is None else z3.If(num(ml) < tail, num(ml), tail))), "ancestor.kept")


class QueueUnit(ReadUnit):
    def meta(self, ip, ancestor, ml):
        d = self.new_dict(ip)
        for k, v in dict(basedir="base", maxlen=ml, comm_size=1, ancestor=ancestor, timestamp=Opaque("ts"), chunksize=1, trim=False).items():
            ip.setitem(d, k, v)
        return d

    def loop_anchors(self, ctx, k, loc):
        out = ReadUnit.loop_anchors(self, ctx, k, loc)
        return out

    def loop_preds(self, ctx, k):
        p = P()
        q = p.ghost.get("q")
        out = ReadUnit.loop_preds(self, ctx, k)
        D = p.ghost.get("dir")
        if D is not None:
            out["chunks"] = lambda: fold(num(k) <= D.G + 1)
            out["lone-index"] = lambda: fold(z3.Implies(num(k) == D.G + 1, D.ex_i(D.G)))
            D.S(D.G + 1)
        if q is None or "disk" not in p.ghost:
            return out
        o, disk = q, p.ghost["disk"]
        out["gen"] = lambda: fold(num(o.f["gen"]) == num(disk.f["chunks"]))

        def tail():
            w = o.f["tail"]
            if not isinstance(w, WriterM):
                return z3.BoolVal(False)
            return fold(num(w.g) == num(disk.f["chunks"]) - 1)

        out["tail"] = tail
        return out

    def loop_havoc(self, ip, loc, o, kinds):
        p = P()
        if o is p.ghost.get("q") and loc[1] == "tail":
            return WriterM(p.ghost["datadir"], p.int("tailgen"))
        return NotImplemented


def sym_queue(ip, p):
    """an open queue: tail is the newest chunk"""
    cls = ip.get_class(MOD, "PersistentRandomAccessQueue")
    disk = Mon("disk", chunks=p.int("chunks"))
    p.assume(disk.f["chunks"] >= 1)
    p.ghost["disk"] = disk
    p.ghost["datadir"] = "base/rank0"
    o = PyObj(cls, "queue")
    log = Mon("log", disk=0, mem=0)
    expected = p.ghost["xs"]

    class Mem(HModel):
        def m_append(self, ip, v):
            p.prove(fold(num(log.f["mem"]) < num(expected.n)), "append.nothing-added")
            p.prove_eq(v, seqs.seq_at(expected, log.f["mem"]), "append.to-memory-in-order")
            log.set("mem", seqs.add(log.f["mem"], 1))

        def m_extend(self, ip, xs):
            s = ip.iterate(xs)
            if isinstance(s, list):
                for v in s:
                    self.m_append(ip, v)
                return
            if not isinstance(s, SymSeq):
                raise Unsupported("extend of %r" % (xs,))
            p.prove(fold(num(log.f["mem"]) + num(s.n) <= num(expected.n)), "append.nothing-added")
            p.prove_forall(s.n, lambda i: seqs.eq_term(seqs.seq_at(s, i), seqs.seq_at(expected, seqs.add(log.f["mem"], i))), "append.to-memory-in-order")
            log.set("mem", seqs.add(log.f["mem"], s.n))

        def m_popleft(self, ip):
            log.set("mem", seqs.sub(log.f["mem"], 1))
            return p.ghost["oldest"]

    def on_disk(v):
        p.prove(fold(num(log.f["disk"]) < num(expected.n)), "append.nothing-added")
        p.prove_eq(v, seqs.seq_at(expected, log.f["disk"]), "append.to-disk-in-order")
        log.set("disk", seqs.add(log.f["disk"], 1))

    p.ghost["on_disk"] = on_disk
    o.f.update(fs=FS({}, None), buffer=Mem("memory"), logger=None, tail=WriterM("base/rank0", fold(disk.f["chunks"] - 1)),
               gen=disk.f["chunks"], datadir="base/rank0", basedir="base", meta=Opaque("meta"))
    p.ghost["q"] = o
    ip.contracts[MOD + "._ChunkWriter"] = writer_contract
    return o, log, disk


def u_append(how):
    def run(ip, p):
        if how == "append":
            x = p.obj("x")
            p.ghost["xs"] = SymSeq(1, lambda i: x, True)
        else:
            n, f = p.int("n"), p.fn("x", I, Obj)
            p.assume(n >= 0)
            p.ghost["xs"] = SymSeq(n, lambda i: f(num(i)), True)
        o, log, disk = sym_queue(ip, p)
        if how == "append":
            ip.call(ip.getattr(o, "append"), [x])
        else:
            xs = PyList(p.ghost["xs"], "xs") if p.choose(2) else IterVal(p.ghost["xs"])
            ip.call(ip.getattr(o, "extend"), [xs])
        n = num(p.ghost["xs"].n)
        p.prove(fold(num(log.f["disk"]) == n), "append.every-element-reaches-the-disk")
        p.prove(fold(num(log.f["mem"]) == n), "append.every-element-is-in-memory")
        p.prove_eq(o.f["gen"], disk.f["chunks"], "append.next-generation")
        w = o.f["tail"]
        if isinstance(w, WriterM):
            p.prove_eq(w.g, fold(num(disk.f["chunks"]) - 1), "append.tail-is-the-newest-chunk")

    return run


def u_popleft(ip, p):
    p.ghost["xs"] = SymSeq(0, lambda i: None)
    o, log, disk = sym_queue(ip, p)
    old = p.ghost["oldest"] = p.obj("oldest")
    r = ip.call(ip.getattr(o, "popleft"), [])
    p.prove(r is not None and seqs.same(r, old), "popleft.returns-the-oldest")
    p.prove_eq(log.f["mem"], -1, "popleft.removes-it-from-memory")
    p.prove_eq(log.f["disk"], 0, "popleft.leaves-the-disk")


def units(tier):
    e = ext()
    return [
        ReadUnit("_ChunkWriter.__init__", u_writer_init, ext=e),
        ReadUnit("_ChunkWriter.append", u_writer_append, ext=e),
        ReadUnit("_ChunkReader.read_chunk_index", u_read_index, ext=e),
        ReadUnit("_ChunkReader.read_chunk", u_read_chunk, ext=e),
        ReadUnit("_ChunkReader._count_all_chunks", u_count, ext=e),
        ReadUnit("_ChunkReader.read_chunks", u_read_chunks, ext=e),
        QueueUnit("PersistentRandomAccessQueue.__init__", u_queue_init(False), ext=e),
        QueueUnit("PersistentRandomAccessQueue.__init__[ancestor]", u_queue_init(True), ext=e),
        QueueUnit("PersistentRandomAccessQueue._load_ancestor", u_load_ancestor, ext=e),
        QueueUnit("PersistentRandomAccessQueue.append", u_append("append"), ext=e),
        QueueUnit("PersistentRandomAccessQueue.extend", u_append("extend"), ext=e),
        QueueUnit("PersistentRandomAccessQueue.popleft", u_popleft, ext=e),
    ]
