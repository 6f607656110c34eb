"""Contracts of library functions used across the repository."""
import z3

from . import seqs
from .values import (
    P,
    Builtin,
    Opaque,
    PyDict,
    PyList,
    SymSeq,
    Unsupported,
    fold,
    is_term,
    num,
)


def _noop(ip, *a, **k):
    return None


def _deque(ip, x=None, maxlen=None):
    from .builtin_fns import deque_trim, to_list

    l = to_list(ip, x, "deque", "deque")
    l.maxlen = maxlen
    deque_trim(ip, l)
    return l


def _defaultdict(ip, factory=None, *a):
    return PyDict({}, ip.alloc_label("defaultdict"), default=factory)


def _chain(ip, *xs):
    r = None
    for x in xs:
        it = ip.iterate(x)
        if not isinstance(it, (list, SymSeq)):
            it = ip.collect(it)
        if r is None:
            r = it
        elif isinstance(r, list) and isinstance(it, list):
            r = r + it
        else:
            r = seqs.seq_concat(r, it)
    return r if r is not None else []


def _count(ip, start=0):
    return SymSeq(None, lambda i: seqs.add(i, start), True)


def _join(ip, *xs):
    from .values import Text

    parts = []
    for k, x in enumerate(xs):
        parts += (["/"] if k else []) + [x]
    return Text.of(parts)


def default_ext():
    from . import builtin_fns as B

    e = {}

    def r(name, f):
        e[name] = Builtin(name, f)

    r("collections.deque", _deque)
    r("collections.defaultdict", _defaultdict)
    r("itertools.chain", _chain)
    r("itertools.chain.from_iterable", lambda ip, x: _chain(ip, *ip.collect(ip.iterate(x))))
    r("itertools.count", _count)
    r("logging.getLogger", lambda ip, *a: Opaque("logger"))
    r("typing.TypeVar", lambda ip, *a, **k: Opaque("typevar"))
    r("typing.cast", lambda ip, t, v: v)
    r("warnings.warn", _noop)
    r("os.makedirs", _noop)
    r("os.path.join", _join)
    e["numpy.inf"] = float("inf")
    e["math.inf"] = float("inf")
    return e
