"""Contracts of Python builtins and of the builtin container methods."""
import ast
import math

import z3

from . import seqs
from .seqs import add, as_seq, eq_term, seq_len, sub
from .values import (
    NONE,
    P,
    Builtin,
    HeapObj,
    Model,
    Opaque,
    PyDict,
    PyExc,
    PyList,
    PyObj,
    PySet,
    SymSeq,
    Unsupported,
    boolt,
    fold,
    is_boolv,
    is_int,
    is_num,
    is_objterm,
    is_term,
    num,
    real,
)
from .interp import (
    BoundMethod,
    BuiltinClass,
    ClassVal,
    ExcVal,
    ExtVal,
    FuncVal,
    GenVal,
    IterVal,
    exc,
)

TABLE = {}


def reg(name, cls=False):
    def d(f):
        b = Builtin(name, f)
        if cls:
            import builtins

            b.py = getattr(builtins, name)
        TABLE[name] = b
        return f

    return d


@reg("len")
def _len(ip, x):
    return ip.length(x)


@reg("range", cls=True)
def _range(ip, a, b=None, step=1):
    p = P()
    if b is None:
        a, b = 0, a
    if not is_term(a) and not is_term(b) and not is_term(step):
        return SymSeq(len(range(a, b, step)), lambda i: add(a, i) if step == 1 else (
            a + step * i if not is_term(i) else fold(num(a) + num(step) * num(i))), True)
    if not is_term(step) and step == 1:
        n = sub(b, a)
        if p.decide(fold(num(n) < 0)):
            n = 0
        return seqs.seq_range(a, n)
    if not is_term(step) and step == -1:
        n = sub(a, b)
        if p.decide(fold(num(n) < 0)):
            n = 0
        return SymSeq(n, lambda i: sub(a, i), True)
    if p.decide(fold(num(step) > 0)):
        d = sub(b, a)
        if p.decide(fold(num(d) <= 0)):
            return SymSeq(0, lambda i: a, True)
        n = p.int("range_n")
        p.assume(z3.And((n - 1) * num(step) < num(d), n * num(step) >= num(d), n >= 1))
        return SymSeq(n, lambda i: fold(num(a) + num(step) * num(i)), True)
    raise Unsupported("range step")


def to_list(ip, x, label="list", tag="list"):
    if x is None:
        return PyList([], ip.alloc_label(label), tag)
    it = ip.iterate(x)
    if isinstance(it, GenVal):
        it = ip.collect(it)
    if isinstance(it, SymSeq) and not is_term(it.n) and it.n is not None:
        it = [seqs.seq_at(it, i) for i in range(it.n)]
    return PyList(list(it) if isinstance(it, list) else it, ip.alloc_label(label), tag)


@reg("list", cls=True)
def _list(ip, x=None):
    if x is None:
        return ip.unit.new_list(ip)
    if isinstance(x, Model) and hasattr(x, "to_list"):
        return x.to_list(ip)
    return to_list(ip, x)


@reg("tuple", cls=True)
def _tuple(ip, x=()):
    it = ip.iterate(x)
    if isinstance(it, SymSeq) and is_term(it.n):
        return PyList(it, ip.alloc_label("tuple"), "tuple")
    return tuple(ip.collect(it))


@reg("dict", cls=True)
def _dict(ip, *a, **kw):
    if not a and not kw:
        return ip.unit.new_dict(ip)
    d = PyDict({}, ip.alloc_label("dict"))
    if a:
        src = a[0]
        if isinstance(src, PyDict):
            d.f["data"] = dict(src.f["data"])
        else:
            for pair in ip.collect(ip.iterate(src)):
                k, v = pair
                ip.dict_set(d, k, v)
    for k, v in kw.items():
        ip.dict_set(d, k, v)
    return d


@reg("set", cls=True)
def _set(ip, x=()):
    if isinstance(x, tuple) and not x:
        return ip.unit.new_set(ip)
    it = ip.iterate(x)
    if isinstance(it, SymSeq) and is_term(it.n):
        raise Unsupported("set of symbolic sequence")
    return PySet(ip.collect(it), ip.alloc_label("set"))


@reg("int", cls=True)
def _int(ip, x=0):
    if isinstance(x, Model) and hasattr(x, "to_int"):
        return x.to_int(ip)
    if is_term(x):
        if z3.is_int(x):
            return x
        if z3.is_bool(x):
            return fold(num(x))
        if z3.is_real(x):
            # truncation toward zero
            if P().decide(fold(x >= 0)):
                return fold(z3.ToInt(x))
            return fold(-z3.ToInt(-x))
        raise Unsupported("int()")
    return int(x)


@reg("float", cls=True)
def _float(ip, x=0.0):
    if isinstance(x, Model) and hasattr(x, "to_float"):
        return x.to_float(ip)
    if is_term(x):
        if x.sort() == seqs.NONE.sort():
            return ip.unit.obj_float(ip, x)
        return fold(real(x))
    if isinstance(x, str):
        return float(x)
    return float(x)


@reg("bool", cls=True)
def _bool(ip, x=False):
    t = ip.truth_t(x)
    return t


@reg("str", cls=True)
def _str(ip, x=""):
    return x if isinstance(x, str) else Opaque("str")


@reg("repr")
def _repr(ip, x=""):
    return Opaque("repr")


@reg("print")
def _print(ip, *a, **k):
    return None


class FileStub(Model):
    """a file opened for writing: what is written goes to the file only"""

    def m___enter__(self, ip):
        return self

    def m___exit__(self, ip, *a):
        return None

    def m_write(self, ip, *a):
        return Opaque("written")

    def m_flush(self, ip):
        return None

    def m_close(self, ip):
        return None


@reg("open")
def _open(ip, path, mode="r", *a, **k):
    h = P().ghost.get("open")
    if h is not None:
        return h(ip, path, mode, *a, **k)
    if not (isinstance(mode, str) and mode[:1] in ("a", "w", "x")):
        raise Unsupported("open for reading")
    return FileStub()


@reg("format")
def _format(ip, *a, **k):
    return Opaque("str")


@reg("id")
def _id(ip, x):
    return Opaque("id")


@reg("callable")
def _callable(ip, x):
    if isinstance(x, (FuncVal, Builtin, BoundMethod, ClassVal)):
        return True
    if isinstance(x, PyObj):
        return x.cls.lookup("__call__")[0] is not None
    if isinstance(x, Model):
        return hasattr(x, "m___call__")
    if is_objterm(x):
        raise Unsupported("callable()")
    return False


@reg("hasattr")
def _hasattr(ip, o, n):
    return ip.hasattr(o, n)


@reg("getattr")
def _getattr(ip, o, n, *d):
    if d:
        try:
            return ip.getattr(o, n)
        except PyExc as e:
            if e.value.cls.name == "AttributeError":
                return d[0]
            raise
    return ip.getattr(o, n)


@reg("setattr")
def _setattr(ip, o, n, v):
    ip.setattr(o, n, v)


@reg("isinstance")
def _isinstance(ip, o, t):
    if isinstance(t, tuple):
        rs = [_isinstance(ip, o, x) for x in t]
        if any(r is True for r in rs):
            return True
        if all(isinstance(r, bool) for r in rs):
            return False
        return fold(z3.Or(*[boolt(r) for r in rs]))
    h = ip.unit.isinstance_hook(ip, o, t)
    if h is not NotImplemented:
        return h
    if isinstance(o, ExcVal):
        return ip.exc_matches(o, t)
    if isinstance(o, PyObj):
        return o.cls.issub(t)
    nm = getattr(t, "name", None)
    if is_objterm(o):
        f = z3.Function("isinst_%s" % nm, o.sort(), z3.BoolSort())
        return f(o)
    if isinstance(o, Model):
        h = getattr(o, "isinstance_", None)
        if h is not None:
            return h(ip, t)
        raise Unsupported("isinstance of %r" % (o,))
    table = {
        "list": lambda: isinstance(o, PyList) and o.tag == "list",
        "tuple": lambda: isinstance(o, tuple)
        or (isinstance(o, PyList) and o.tag == "tuple"),
        "dict": lambda: isinstance(o, PyDict),
        "int": lambda: is_int(o) or isinstance(o, bool),
        "float": lambda: is_num(o) and not is_int(o) and not isinstance(o, bool),
        "bool": lambda: is_boolv(o),
        "str": lambda: isinstance(o, str),
        "set": lambda: isinstance(o, PySet),
        "collections.deque": lambda: isinstance(o, PyList) and o.tag == "deque",
    }
    if nm in table:
        return table[nm]()
    if isinstance(t, (ClassVal, ExtVal)):
        return False
    raise Unsupported("isinstance(%r, %r)" % (o, t))


@reg("issubclass")
def _issubclass(ip, c, t):
    return c.issub(t)


@reg("type")
def _type(ip, o):
    if isinstance(o, PyObj):
        return o.cls
    if isinstance(o, tuple):
        return TABLE["tuple"]
    return Opaque("type")


def _minmax(ip, args, kw, is_max):
    p = P()
    if len(args) == 1:
        a = args[0]
        if isinstance(a, Model) and hasattr(a, "minmax"):
            return a.minmax(ip, is_max)
        it = ip.iterate(a)
        if isinstance(it, SymSeq) and is_term(it.n):
            return seq_minmax(ip, it, is_max)
        items = ip.collect(it)
        if not items:
            if "default" in kw:
                return kw["default"]
            raise exc("ValueError", "empty")
    else:
        items = list(args)
    if "key" in kw:
        raise Unsupported("min/max key")
    r = items[0]
    for x in items[1:]:
        if not is_term(r) and not is_term(x):
            r = max(r, x) if is_max else min(r, x)
        elif isinstance(r, float) and math.isinf(r) or isinstance(
            x, float
        ) and math.isinf(x):
            lt = ip.compare(ast.Lt(), r, x)
            r = (x if lt else r) if is_max else (r if lt else x)
        else:
            if is_objterm(r) or is_objterm(x):
                raise Unsupported("min/max of objects")
            a, b = num(r), num(x)
            if a.sort() != b.sort():
                a, b = real(r), real(x)
            r = fold(z3.If(a < b, b, a) if is_max else z3.If(b < a, b, a))
    return r


def seq_minmax(ip, s, is_max):
    p = P()
    if p.decide(fold(num(s.n) <= 0)):
        raise exc("ValueError", "empty")
    w = p.int("w")
    p.assume(z3.And(w >= 0, w < num(s.n)))
    v = num(seqs.seq_at(s, w))

    def fact(i):
        x = num(s.at(i))
        return x <= v if is_max else x >= v

    p.forall(s.n, fact)
    p.assume(fact(0))
    p.assume(fact(fold(num(s.n) - 1)))
    return v


@reg("min")
def _min(ip, *a, **k):
    return _minmax(ip, a, k, False)


@reg("max")
def _max(ip, *a, **k):
    return _minmax(ip, a, k, True)


@reg("sum")
def _sum(ip, x, start=0):
    if isinstance(x, Model) and hasattr(x, "sum_builtin"):
        return x.sum_builtin(ip)
    it = ip.iterate(x)
    if isinstance(it, SymSeq) and is_term(it.n):
        r = P().sum_of(it.n, lambda i: seqs.seq_at(it, i))
        return r if not is_term(start) and start == 0 else fold(real(start) + r)
    r = start
    for y in ip.collect(it):
        r = ip.binop(ast.Add(), r, y)
    return r


@reg("abs")
def _abs(ip, x):
    if isinstance(x, Model):
        return x.getattr(ip, "abs").fn(ip)
    if is_term(x):
        return fold(z3.If(x >= 0, x, -x))
    return abs(x)


def _anyall(ip, x, is_all):
    p = P()
    it = ip.iterate(x)
    if isinstance(it, GenVal):
        it = ip.collect(it)
    if isinstance(it, SymSeq) and is_term(it.n):
        s = it

        def val(i):
            return boolt(p.bool_term(lambda: boolt(ip.truth_t(s.at(i)))))

        # all(v) is not any(not v), so that the two share their constants
        def pv(i):
            return fold(z3.Not(val(i))) if is_all else val(i)

        def out(c):
            return fold(z3.Not(c)) if is_all else c

        p.unit.loops_seen.add("fold")
        if p.unit.mode == "bmc":
            r = [boolt(pv(i)) for i in range(p.expand(s.n))]
            return out(z3.Or(*r) if r else z3.BoolVal(False))
        for (n2, v2, b2) in p.ghost.setdefault("anyall", []):
            if p.entails(fold(num(n2) == num(s.n))):
                if p.forall_holds(s.n, lambda i: fold(boolt(pv(i)) == boolt(v2(i)))):
                    return out(b2)
        b = p.bool("any")
        p.ghost["anyall"].append((s.n, pv, b))
        w = p.int("w")
        p.witnesses.append(w)
        p.assume(z3.Or(z3.Not(b), z3.And(w >= 0, w < num(s.n), boolt(pv(w)))))
        p.forall(s.n, lambda i: z3.Implies(boolt(pv(i)), b))
        p.instantiate(z3.IntVal(0))
        return out(b)
    ts = [ip.truth_t(y) for y in ip.collect(it)]
    if all(isinstance(t, bool) for t in ts):
        return all(ts) if is_all else any(ts)
    f = z3.And if is_all else z3.Or
    return fold(f(*[boolt(t) for t in ts]))


@reg("all")
def _all(ip, x):
    return _anyall(ip, x, True)


@reg("any")
def _any(ip, x):
    return _anyall(ip, x, False)


def iter_seq(ip, x):
    it = ip.iterate(x)
    if isinstance(it, GenVal):
        it = ip.collect(it)
    return as_seq(it)


def min_len(ns):
    """length of a zip (forks)"""
    n = None
    for m in ns:
        if m is None:
            continue
        if n is None:
            n = m
        elif not is_term(n) and not is_term(m):
            n = min(n, m)
        elif eq_term(n, m) is True:
            continue
        elif P().decide(fold(num(m) < num(n))):
            n = m
    return n


@reg("zip")
def _zip(ip, *xs):
    its = [ip.iterate(x) for x in xs]
    its = [ip.collect(i) if isinstance(i, GenVal) else i for i in its]
    if all(isinstance(i, list) for i in its):
        return [tuple(t) for t in zip(*its)]
    ss = [as_seq(i) for i in its]
    n = min_len([s.n for s in ss])
    return SymSeq(n, lambda i: tuple(s.at(i) for s in ss))


@reg("enumerate")
def _enumerate(ip, x, start=0):
    it = ip.iterate(x)
    if isinstance(it, list):
        return [(i + start, y) for i, y in enumerate(it)]
    if isinstance(it, GenVal):
        c = [start]

        def run(hook):
            def h2(v):
                i = c[0]
                c[0] += 1
                return hook((i, v))

            it.run(h2)

        return GenVal(run)
    return SymSeq(it.n, lambda i: (add(i, start), it.at(i)))


@reg("reversed")
def _reversed(ip, x):
    if isinstance(x, Model) and hasattr(x, "reversed_"):
        return x.reversed_(ip)
    it = ip.iterate(x)
    if isinstance(it, list):
        return list(reversed(it))
    return seqs.seq_rev(it)


@reg("iter")
def _iter(ip, x):
    it = ip.iterate(x)
    if isinstance(it, GenVal):
        return it
    return IterVal(it)


@reg("next")
def _next(ip, x, *d):
    if not isinstance(x, IterVal):
        if isinstance(x, (list, SymSeq)):
            s = as_seq(x)
            if s.n is not None and P().decide(fold(num(s.n) <= 0)):
                if d:
                    return d[0]
                raise exc("StopIteration")
            return s.at(0)
        raise Unsupported("next()")
    s = as_seq(x.f["seq"])
    pos = x.f["pos"]
    if s.n is not None and not P().decide(fold(num(pos) < num(s.n))):
        if d:
            return d[0]
        raise exc("StopIteration")
    x.set("pos", add(pos, 1))
    return seqs.seq_at(s, pos)


@reg("map")
def _map(ip, f, x):
    it = ip.iterate(x)
    if isinstance(it, SymSeq) and is_term(it.n):
        return ip.lazy_seq(it, lambda v: ip.call(f, [v]))
    return [ip.call(f, [v]) for v in ip.collect(it)]


@reg("filter")
def _filter(ip, f, x):
    it = ip.collect(ip.iterate(x))
    return [v for v in it if ip.truth(v if f is None else ip.call(f, [v]))]


@reg("sorted")
def _sorted(ip, x, key=None, reverse=False):
    it = ip.iterate(x)
    if isinstance(it, SymSeq) and is_term(it.n):
        return ip.unit.sorted_sym(ip, it, key, reverse)
    items = ip.collect(it)
    if len(items) > 6:
        if all(not is_term(v) and is_num(v) for v in items) and key is None:
            return PyList(sorted(items, reverse=reverse), ip.alloc_label("sorted"))
        raise Unsupported("sorted")
    out = []
    for v in items:
        kv = v if key is None else ip.call(key, [v])
        pos = len(out)
        for j, (kw_, w) in enumerate(out):
            lt = ip.compare(ast.Lt(), kv, kw_) if not reverse else ip.compare(
                ast.Gt(), kv, kw_)
            if P().decide(lt):
                pos = j
                break
        out.insert(pos, (kv, v))
    return PyList([w for _, w in out], ip.alloc_label("sorted"))


@reg("round")
def _round(ip, x, *a):
    if not is_term(x):
        return round(x, *a)
    raise Unsupported("round")


@reg("object", cls=True)
def _object(ip):
    return Opaque("object()")


# ------------------------------------------------------------------ methods
def list_extend(ip, l, xs):
    it = ip.iterate(xs)
    if isinstance(it, GenVal):
        it = ip.collect(it)
    d = l.f["data"]
    if isinstance(it, SymSeq) and not is_term(it.n) and it.n is not None:
        it = [seqs.seq_at(it, i) for i in range(it.n)]
    if isinstance(it, list) and isinstance(d, list):
        nd = d + it
    elif isinstance(it, list) and len(it) <= 2:
        nd = d
        for x in it:
            nd = seqs.seq_append(nd, x)
    elif not isinstance(it, SymSeq) and seq_len(it) == 0:
        nd = d
    else:
        nd = seqs.seq_concat(d, it)
    l.set("data", nd)
    deque_trim(ip, l)


def deque_trim(ip, l):
    if l.tag != "deque" or l.maxlen is None:
        return
    d = l.f["data"]
    n = seq_len(d)
    if not is_term(n) and not is_term(l.maxlen):
        if n > l.maxlen:
            l.set("data", d[n - l.maxlen:] if isinstance(d, list) else seqs.seq_slice(
                d, n - l.maxlen, l.maxlen))
        return
    if P().decide(fold(num(n) > num(l.maxlen))):
        l.set("data", seqs.seq_slice(d, sub(n, l.maxlen), l.maxlen))


def list_method(ip, l, name):
    p = P()

    def append(ip, x):
        d = l.f["data"]
        l.set("data", d + [x] if isinstance(d, list) else seqs.seq_append(d, x))
        deque_trim(ip, l)

    def extend(ip, xs):
        list_extend(ip, l, xs)

    def pop_at(i, what):
        d = l.f["data"]
        n = seq_len(d)
        if not p.decide(fold(num(n) > 0)):
            raise exc("IndexError", "pop from empty " + what)
        j = ip.norm_index(i, n, "pop")
        x = seqs.seq_at(d, j)
        ip.delitem(l, j)
        return x

    def pop(ip, i=-1):
        d = l.f["data"]
        n = seq_len(d)
        if isinstance(d, SymSeq) and not is_term(i) and i == -1:
            if not p.decide(fold(num(n) > 0)):
                raise exc("IndexError", "pop from empty list")
            m = sub(n, 1)
            x = seqs.seq_at(d, m)
            l.set("data", SymSeq(m, d.at, d.scalar))
            return x
        return pop_at(i, "list")

    def popleft(ip):
        return pop_at(0, "deque")

    def appendleft(ip, x):
        d = l.f["data"]
        nd = [x] + d if isinstance(d, list) else seqs.seq_concat([x], d)
        l.set("data", nd)
        if l.maxlen is not None:
            n = seq_len(nd)
            if p.decide(fold(num(n) > num(l.maxlen))):
                l.set("data", seqs.seq_slice(nd, 0, l.maxlen) if not isinstance(nd, list) else nd[:l.maxlen])

    def reverse(ip):
        d = l.f["data"]
        l.set("data", list(reversed(d)) if isinstance(d, list) else seqs.seq_rev(d))

    def clear(ip):
        l.set("data", [])

    def copy(ip):
        d = l.f["data"]
        return PyList(list(d) if isinstance(d, list) else d, ip.alloc_label("copy"), l.tag, l.maxlen)

    def insert(ip, i, x):
        d = l.f["data"]
        if isinstance(d, list) and not is_term(i):
            nd = list(d)
            nd.insert(i, x)
            l.set("data", nd)
            return
        if not is_term(i) and i == 0:
            l.set("data", seqs.seq_concat([x], d))
            return
        raise Unsupported("insert")

    def index(ip, x):
        d = l.f["data"]
        if isinstance(d, list):
            for j, y in enumerate(d):
                if p.decide(ip.equal(y, x)):
                    return j
            raise exc("ValueError")
        raise Unsupported("index")

    def sort(ip, key=None, reverse=False):
        r = _sorted(ip, l, key, reverse)
        l.set("data", r.f["data"])

    def count(ip, x):
        raise Unsupported("count")

    fns = dict(append=append, extend=extend, pop=pop, reverse=reverse, clear=clear,
               copy=copy, insert=insert, index=index, sort=sort, count=count)
    if l.tag == "deque":
        fns.update(popleft=popleft, appendleft=appendleft)
        if name == "maxlen":
            return l.maxlen
    if name == "__len__":
        return Builtin("__len__", lambda ip: ip.length(l))
    if name in fns:
        return Builtin("list." + name, fns[name])
    return None


def dict_method(ip, d, name):
    def get(ip, k, default=None):
        found, kk = ip.dict_key(d, k)
        return d.f["data"][kk] if found else default

    def items(ip):
        return [(k, v) for k, v in d.f["data"].items()]

    def keys(ip):
        return list(d.f["data"].keys())

    def values(ip):
        return list(d.f["data"].values())

    def pop(ip, k, *default):
        found, kk = ip.dict_key(d, k)
        if found:
            v = d.f["data"][kk]
            ip.delitem(d, kk)
            return v
        if default:
            return default[0]
        raise exc("KeyError", k)

    def update(ip, other=None, **kw):
        if other is not None:
            if isinstance(other, PyDict):
                for k, v in other.f["data"].items():
                    ip.dict_set(d, k, v)
            else:
                raise Unsupported("dict.update")
        for k, v in kw.items():
            ip.dict_set(d, k, v)

    def setdefault(ip, k, v=None):
        found, kk = ip.dict_key(d, k)
        if found:
            return d.f["data"][kk]
        ip.dict_set(d, k, v)
        return v

    def copy(ip):
        return PyDict(d.f["data"], ip.alloc_label("dictcopy"), d.default)

    def clear(ip):
        d.set("data", {})

    fns = dict(get=get, items=items, keys=keys, values=values, pop=pop,
               update=update, setdefault=setdefault, copy=copy, clear=clear)
    if name in fns:
        return Builtin("dict." + name, fns[name])
    return None


def set_method(ip, s, name):
    def add_(ip, x):
        s.set("data", s.f["data"] + [x])

    if name == "add":
        return Builtin("set.add", add_)
    return None


def method(ip, o, name):
    if isinstance(o, PyList):
        return list_method(ip, o, name)
    if isinstance(o, PyDict):
        return dict_method(ip, o, name)
    if isinstance(o, PySet):
        return set_method(ip, o, name)
    if isinstance(o, (str, Opaque)):
        if name in ("format", "join", "lower", "upper", "strip", "rstrip", "split"):
            if isinstance(o, str) and name in ("lower", "upper"):
                return Builtin("str", lambda ip: getattr(o, name)())
            if name == "format" and isinstance(o, str):
                return Builtin("str.format", lambda ip, *a, **k: text_format(o, a, k))
            return Builtin("str." + name, lambda ip, *a, **k: Opaque("str"))
        if isinstance(o, str) and name in ("startswith", "endswith"):
            return Builtin("str." + name, lambda ip, x: getattr(o, name)(x))
        if isinstance(o, Opaque):
            r = ip.unit.opaque_attr(ip, o, name)
            if r is not None:
                return r
    if isinstance(o, ExcVal):
        if name == "args":
            return tuple(o.args)
    if isinstance(o, FuncVal) and name == "__name__":
        return o.node.name
    if is_objterm(o):
        return ip.unit.obj_attr(ip, o, name)
    if isinstance(o, tuple) and name in ("index", "count"):
        return None
    if is_num(o):
        if name == "item":
            return Builtin("item", lambda ip: o)
        if name in ("astype", "float", "to"):
            return Builtin(name, lambda ip, *a, **k: o)
    return None


def text_format(s, args, kw):
    """str.format with plain replacement fields only"""
    import string

    from .values import Text

    parts, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(lit)
            if field is None:
                continue
            if spec or conv:
                return Opaque("str")
            if field == "":
                field, auto = str(auto), auto + 1
            if field.isdigit():
                parts.append(args[int(field)])
            elif field in kw:
                parts.append(kw[field])
            else:
                return Opaque("str")
    except (ValueError, IndexError):
        return Opaque("str")
    return Text.of(parts)
