"""Symbolic values and the per-path state of the verifier.

The path state is a z3 solver (the path condition), a heap of objects with
concrete identities and symbolic contents, and the list of branch decisions.
"""
import contextlib
import fractions
import math
import os
import time

import z3

z3.set_param("smt.random_seed", 0)

Obj = z3.DeclareSort("Obj")
NONE = z3.Const("None_obj", Obj)
truthy = z3.Function("truthy", Obj, z3.BoolSort())


class Unsupported(Exception):
    """The code left the subset the verifier understands (never an alarm)."""


class PathDead(Exception):
    """The current path is infeasible or has been fully treated."""


class ProofFail(Exception):
    """An obligation failed on this path and the path cannot go on."""


class PyExc(Exception):
    """An exception of the verified program."""

    def __init__(self, value):
        self.value = value
        super().__init__(str(value))


class _Poison:
    def __repr__(self):
        return "<poison>"

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("a value the loop invariant does not determine")


POISON = _Poison()

CUR = [None]


def P():
    return CUR[0]


def is_term(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (
        is_term(v) and z3.is_int(v)
    )


def is_num(v):
    return isinstance(v, (int, float, fractions.Fraction)) or (
        is_term(v) and (z3.is_int(v) or z3.is_real(v))
    )


def is_boolv(v):
    return isinstance(v, bool) or (is_term(v) and z3.is_bool(v))


def is_objterm(v):
    return is_term(v) and v.sort() == Obj


def num(v):
    """python/z3 number -> z3 arithmetic term"""
    if is_term(v):
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported("non-finite float in arithmetic")
        f = fractions.Fraction(repr(v)) if "e" not in repr(v) else fractions.Fraction(
            repr(v)
        )
        return z3.Q(f.numerator, f.denominator)
    if isinstance(v, fractions.Fraction):
        return z3.Q(v.numerator, v.denominator)
    raise Unsupported("not a number: %r" % (v,))


def real(v):
    t = num(v)
    return z3.ToReal(t) if z3.is_int(t) else t


def boolt(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if is_term(v) and z3.is_bool(v):
        return v
    raise Unsupported("not a bool: %r" % (v,))


def objt(v):
    """value -> Obj term where that is possible"""
    if is_objterm(v):
        return v
    if v is None:
        return NONE
    return None


def fold(t):
    """Concretise literal terms."""
    if not is_term(t):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t):
        return t.as_long()
    return t


def occurs(c, e):
    seen, work = set(), [e]
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.eq(c):
            return True
        work.extend(t.children())
    return False


class HeapObj:
    kind = "obj"

    def __init__(self, label):
        p = P()
        n = p.alloc_counts.get(label, 0)
        p.alloc_counts[label] = n + 1
        self.uid = "%s#%d" % (label, n)
        self.f = {}
        self.order = len(p.objs)
        p.objs[self.uid] = self

    def set(self, field, value):
        P().log.append((self, field))
        self.f[field] = value

    def get(self, field):
        return self.f[field]

    def delete(self, field):
        P().log.append((self, field))
        del self.f[field]

    def __repr__(self):
        return "<%s %s>" % (type(self).__name__, self.uid)


class PyObj(HeapObj):
    kind = "instance"

    def __init__(self, cls, label=None):
        super().__init__(label or cls.name)
        self.cls = cls


class Frame(HeapObj):
    kind = "frame"

    def __init__(self, fn_name, module, parent):
        super().__init__("frame:" + fn_name)
        self.fn_name = fn_name
        self.module = module
        self.parent = parent
        self.globals_decl = set()
        self.nonlocals = set()


class PyList(HeapObj):
    """list / deque: field 'data' is a python list or a SymSeq"""

    kind = "list"

    def __init__(self, data, label="list", tag="list", maxlen=None):
        super().__init__(label)
        self.tag = tag
        self.maxlen = maxlen
        self.f["data"] = data


class PyDict(HeapObj):
    """dict with concrete keys: field 'data' is a python dict (copied on write)"""

    kind = "dict"

    def __init__(self, data=None, label="dict", default=None):
        super().__init__(label)
        self.f["data"] = dict(data or {})
        self.default = default


class PySet(HeapObj):
    """set of terms: concrete list of elements plus optional symbolic membership"""

    kind = "set"

    def __init__(self, data=(), label="set"):
        super().__init__(label)
        self.f["data"] = list(data)


class SymSeq:
    """Immutable sequence: length n (int or Int term) and at(i) -> value."""

    def __init__(self, n, at, scalar=False):
        self.n = n
        self.at = at
        self.scalar = scalar

    def __repr__(self):
        return "<SymSeq len=%s>" % (self.n,)


class Opaque:
    """A host value the program may pass around but not inspect."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<opaque %s>" % self.name


class Text(Opaque):
    """a string built from parts some of which are symbolic"""

    def __init__(self, parts):
        out = []
        for x in parts:
            x = x.parts if isinstance(x, Text) else [x]
            for y in x:
                if isinstance(y, bool) or y is None:
                    y = str(y)
                if isinstance(y, int) and not is_term(y):
                    y = str(y)
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                elif y != "" if isinstance(y, str) else True:
                    out.append(y)
        self.parts = out
        Opaque.__init__(self, "str")

    @staticmethod
    def of(parts):
        t = Text(parts)
        if not t.parts:
            return ""
        return t.parts[0] if len(t.parts) == 1 and isinstance(t.parts[0], str) else t

    def __repr__(self):
        return "<text %s>" % (self.parts,)


VACUITY = bool(os.environ.get("PYDV_VACUITY"))  # report assumptions that contradict a path


class Model:
    """Host-implemented contract object: subclasses define m_<name>(ip, *a, **k)
    and the protocol hooks."""

    def getattr(self, ip, name):
        m = getattr(self, "m_" + name, None)
        if m is None:
            p = getattr(self, "p_" + name, None)
            if p is not None:
                return p(ip)
            raise Unsupported(
                "%s has no contract for attribute %s" % (type(self).__name__, name)
            )
        return Builtin(type(self).__name__ + "." + name, m)

    def setattr(self, ip, name, value):
        raise Unsupported(
            "%s: write to attribute %s" % (type(self).__name__, name)
        )


class HModel(HeapObj, Model):
    """Contract object with heap fields (tracked by the loop rule)."""

    kind = "model"


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn  # fn(ip, *args, **kwargs)

    def __repr__(self):
        return "<builtin %s>" % self.name


class Path:
    def __init__(self, unit, prefix, cfg):
        if os.environ.get("PYDV_TIMEOUT_MS"):   # test of the verifier: a starved solver never refutes
            cfg = dict(cfg, timeout_ms=int(os.environ["PYDV_TIMEOUT_MS"]))
        self.unit = unit
        self.cfg = cfg
        self.s = z3.Solver()
        self.s.set("timeout", cfg.get("timeout_ms", 15000))
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pending = []
        self.gave_up = False
        self.objs = {}
        self.alloc_counts = {}
        self.log = []
        self.counter = 0
        self.known = {}
        self.keep = []
        self.foralls = []
        self.inst_done = set()
        self.sums = []
        self.matching = set()
        self.inst_depth = 0
        self.inst_now = []
        self.witnesses = []
        self.stats = unit.stats
        self.lazy_depth = 0
        self.rec = None
        self.gen_hooks = []
        self.labels = []
        self.ghost = {}

    # -- fresh symbols ---------------------------------------------------
    def name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def int(self, base="i"):
        return z3.Int(self.name(base))

    def real(self, base="r"):
        return z3.Real(self.name(base))

    def bool(self, base="b"):
        return z3.Bool(self.name(base))

    def obj(self, base="o"):
        return z3.Const(self.name(base), Obj)

    def fn(self, base, *sorts):
        return z3.Function(self.name(base), *sorts)

    # -- path condition ----------------------------------------------------
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathDead()
            return
        if VACUITY:
            ok = self.s.check() != z3.unsat
            self.s.add(c)
            if ok and self.s.check() == z3.unsat:
                import traceback

                fr = [f for f in traceback.extract_stack()[:-1] if "/contracts/" in f.filename]
                if os.environ["PYDV_VACUITY"] == "2":
                    print(" <- ".join("%s:%d" % (f.name, f.lineno) for f in reversed(traceback.extract_stack()[-9:-1])))
                print("VACUOUS", self.unit.name, self.unit.mode, "%s:%d" % (fr[-1].filename[-12:], fr[-1].lineno), str(c)[:100].replace("\n", " "))
        else:
            self.s.add(c)
        if self.rec is not None:
            self.rec.append(("fact", c))

    def _check(self, *cs):
        t0 = time.time()
        r = self.s.check(*cs)
        self.stats["solver_s"] += time.time() - t0
        self.stats["solver_calls"] += 1
        return r

    def alive(self):
        if self._check() == z3.unsat:
            raise PathDead()

    def decide(self, cond, note=None):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if key in self.known:
            return self.known[key]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
        else:
            rt = self._check(c)
            rf = self._check(z3.Not(c)) if rt != z3.unsat else z3.sat
            if rt == z3.unsat:
                if rf == z3.unsat:
                    raise PathDead()
                d = False
            elif rf == z3.unsat:
                d = True
            else:
                self.pending.append(self.trace + [False])
                d = True
            self.pos += 1
            self.prefix = self.prefix + [d]
            self.trace.append(d)
        self.s.add(c if d else z3.Not(c))
        if self.rec is not None:
            self.rec.append(("decide", c if d else z3.Not(c)))
        self.known[key] = d
        nk = z3.simplify(z3.Not(c))
        self.known[nk.get_id()] = not d
        self.keep.append(c)
        self.keep.append(nk)
        return d

    def choose(self, n):
        """nondeterministic choice in range(n)"""
        for i in range(n - 1):
            b = self.bool("choice")
            if self.decide(b):
                return i
        return n - 1

    def entails(self, c):
        """prove c here, without recording an obligation"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self._check() == z3.unsat
        r = self._check(z3.Not(c))
        if r == z3.sat:
            self.last_cex = self.s.model()
        if r == z3.unknown:
            c2 = z3.simplify(c, som=True)
            if z3.is_true(c2):
                return True
            # "not shown" is not "false": nothing on this path is refuted any more
            self.gave_up = True
        return r == z3.unsat

    def feasible(self, c):
        if isinstance(c, bool):
            return c
        return self._check(c) != z3.unsat

    # -- obligations -------------------------------------------------------
    def prove(self, c, name):
        self.unit.record(self, c, name)

    def fail(self, name, why=""):
        self.unit.record(self, False, name, why)

    # -- universally quantified facts instantiated on demand ----------------
    def forall(self, n, fact, lo=0):
        """for all lo<=i<n: fact(i) ; instantiated at every index accessed, and
        always read in the heap of this moment, not of the instantiation"""
        snap = self.snapshot()

        def then(i):
            saved = [(o, o.f) for o, _ in snap.values()]
            for o, ff in snap.values():
                o.f = dict(ff)
            try:
                return fact(i)
            finally:
                for o, ff in saved:
                    o.f = ff

        then.tag, then.kind = getattr(fact, "tag", None), getattr(fact, "kind", None)
        self.foralls.append((len(self.foralls), lo, n, then))
        for w in list(self.witnesses):
            self.instantiate(w)

    def instantiate(self, i, kind=None):
        """facts of a kind of their own are instantiated only where that kind is asked for"""
        if not self.foralls or self.inst_depth >= 2:
            return
        it = num(i)
        key0 = z3.simplify(it)
        self.keep.append(key0)
        if (key0.get_id(), kind) in self.inst_now:
            return
        self.inst_now.append((key0.get_id(), kind))
        try:
            self._instantiate(it, key0, kind)
        finally:
            self.inst_now.pop()

    def _instantiate(self, it, key0, kind):
        for fid, lo, n, fact in list(self.foralls):
            if getattr(fact, "kind", None) not in (None, kind):
                continue
            k = (fid, key0.get_id())
            if k in self.inst_done:
                continue
            self.inst_done.add(k)
            g = num(lo) <= it if lo is not None else z3.BoolVal(True)
            if n is not None:
                g = z3.And(g, it < num(n))
            self.inst_depth += 1
            try:
                f = fact(it)
            finally:
                self.inst_depth -= 1
            self.assume(z3.Implies(g, f))

    # -- snapshot of the heap ------------------------------------------------
    def snapshot(self):
        return {u: (o, dict(o.f)) for u, o in self.objs.items()}

    def swap_in(self, snap):
        saved = self.snapshot()
        for u, (o, f) in snap.items():
            o.f = dict(f)
        return saved

    # -- nested case analysis -------------------------------------------------
    def all_cases(self, fn):
        """Run fn on every case it splits into; conjunction of its results."""
        saved = (
            self.prefix,
            self.pos,
            self.trace,
            self.pending,
            self.known,
            self.inst_done,
            self.foralls,
            self.sums,
            self.gen_hooks,
        )
        ok = True
        rec0 = self.rec
        work = [[]]
        nmax = 400
        while work:
            nmax -= 1
            if nmax < 0:
                raise Unsupported("case explosion in a proof")
            snap = self.snapshot()
            keys = list(self.objs)
            allocs = dict(self.alloc_counts)
            loglen = len(self.log)
            counter = self.counter
            self.s.push()
            self.rec = None
            self.prefix, self.pos, self.trace, self.pending = work.pop(), 0, [], []
            self.known = dict(saved[4])
            self.inst_done = set(saved[5])
            self.foralls = list(saved[6])
            self.sums = list(saved[7])
            try:
                if not fn():
                    ok = False
            except PathDead:
                pass
            finally:
                work.extend(self.pending)
                self.s.pop()
                self.rec = rec0
                for u in [u for u in self.objs if u not in snap]:
                    del self.objs[u]
                for u, (o, f) in snap.items():
                    o.f = f
                self.alloc_counts = allocs
                del self.log[loglen:]
                (
                    self.prefix,
                    self.pos,
                    self.trace,
                    self.pending,
                    self.known,
                    self.inst_done,
                    self.foralls,
                    self.sums,
                    self.gen_hooks,
                ) = saved
            if not ok:
                return False
        return ok

    def bool_term(self, fn):
        """the Bool term equal to the truth of fn(), its case splits merged; the
        facts its evaluation assumed are kept under the decisions before them"""
        out, facts = [], []
        saved = self.rec

        def body():
            self.rec = rec = []
            dead = False
            try:
                r = fn()
            except PathDead:
                dead = True
            ds = []
            for kind, c in rec:
                if kind == "decide":
                    ds.append(c)
                else:
                    facts.append(z3.Implies(z3.And(*ds), c) if ds else c)
            if dead:
                facts.append(z3.Not(z3.And(*ds)) if ds else z3.BoolVal(False))
                return True
            r = z3.BoolVal(r) if isinstance(r, bool) else r
            out.append(z3.And(*ds, r) if ds else r)
            return True

        try:
            self.all_cases(body)
        finally:
            self.rec = saved
        for c in facts:
            self.assume(c)
        return z3.simplify(z3.Or(*out)) if out else z3.BoolVal(False)

    def forall_holds(self, n, fn, lo=0):
        """Prove fn(i) (python bool by proof, or Bool term) for a fresh lo<=i<n."""

        def body():
            i = self.int("ix")
            self.assume(num(lo) <= i)
            if n is not None:
                self.assume(i < num(n))
            if self._check() == z3.unsat:
                return True
            self.instantiate(i, getattr(fn, "kind", None))
            r = fn(i)
            return self.entails(r)

        return self.all_cases(body)

    def prove_eq(self, a, b, name):
        from .seqs import eq_term, proves_equal

        e = eq_term(a, b)
        if e is not None:
            return self.prove(e, name)
        try:
            ok = self.all_cases(lambda: proves_equal(a, b))
        except Unsupported:
            raise
        self.prove(True if ok else False, name)

    def prove_forall(self, n, fn, name, lo=0):
        ok = self.forall_holds(n, fn, lo)
        self.prove(True if ok else False, name)

    def prove_sum(self, expr, n, at, name):
        """expr == sum_{i<n} at(i), where expr is linear in sums over the same range"""
        if self.unit.mode == "bmc" or not is_term(n):
            if is_term(n):
                n = self.expand(n)
            r = z3.RealVal(0)
            for i in range(n):
                r = r + real(at(i))
            return self.prove(fold(real(expr) == r), name)
        e = real(expr)
        used = [s for s in self.sums if s[0] == "sum" and occurs(s[3], e)]
        zero = [(s[3], z3.RealVal(0)) for s in used]
        rest = z3.substitute(e, *zero) if zero else e
        coef = []
        for s in used:
            one = z3.substitute(e, *[(c, z3.RealVal(1) if c is s[3] else v) for c, v in zero])
            coef.append(z3.simplify(one - rest))
        lin = rest
        for k, s in zip(coef, used):
            lin = lin + k * s[3]
        ok = self.entails(fold(lin == e)) and self.entails(fold(rest == 0)) and all(
            self.entails(fold(num(s[1]) == num(n))) for s in used)
        ok = ok and self.forall_holds(n, lambda i: fold(
            z3.Sum([k * real(s[2](i)) for k, s in zip(coef, used)] + [z3.RealVal(0)]) == real(at(i))))
        self.prove(bool(ok), name)

    # -- sums as uninterpreted constants, shared when provably equal -----------
    def expand(self, n):
        """bounded mode: concrete length up to the bound, other lengths pruned"""
        for k in range(self.unit.bmc_bound + 1):
            if self.decide(fold(num(n) == k)):
                return k
        raise PathDead()

    def sum_of(self, n, at, tag="sum"):
        self.unit.loops_seen.add("fold")
        if self.unit.mode == "bmc":
            r = z3.RealVal(0)
            for i in range(self.expand(n)):
                r = r + real(at(i))
            return fold(r)
        for e in list(self.sums):
            tag2, n2, at2, c = e
            if tag2 != tag or id(e) in self.matching:
                continue
            if self.entails(fold(num(n) == num(n2))):
                with self.excluding(e):
                    if self.forall_holds(n, lambda i: fold(real(at(i)) == real(at2(i)))):
                        return c
                    for a, b in ((2, 1), (1, 2), (-1, 1)):
                        if self.quick_multiple(n, at, at2, z3.Q(a, b)):
                            return fold(z3.Q(a, b) * c)
        c = self.real(tag)
        self.sums.append((tag, n, at, c))
        self.assume(z3.Implies(num(n) <= 0, c == 0))
        return c

    @contextlib.contextmanager
    def excluding(self, e):
        # an entry is never matched inside its own comparison
        self.matching.add(id(e))
        try:
            yield
        finally:
            self.matching.discard(id(e))

    def quick_multiple(self, n, at, at2, k):
        # a sum of multiples is the multiple of the sum
        self.s.set("timeout", 1500)
        try:
            return self.forall_holds(n, lambda i: fold(real(at(i)) == k * real(at2(i))))
        finally:
            self.s.set("timeout", self.cfg.get("timeout_ms", 15000))

    def arg_of(self, n, at, is_max):
        """index of the first extremum of a non-empty row"""
        if not is_term(n):
            k = n
        elif self.unit.mode == "bmc":
            k = self.expand(n)
        else:
            k = None
        if k is not None:
            if k == 0:
                raise PathDead()
            best, bv = z3.IntVal(0), real(at(0))
            for i in range(1, k):
                v = real(at(i))
                c = v > bv if is_max else v < bv
                best, bv = z3.If(c, z3.IntVal(i), best), z3.If(c, v, bv)
            return fold(best)
        self.unit.loops_seen.add("fold")
        tag = "argmax" if is_max else "argmin"
        for e in list(self.sums):
            tag2, n2, at2, c = e
            if tag2 != tag or id(e) in self.matching:
                continue
            if self.entails(fold(num(n) == num(n2))):
                with self.excluding(e):
                    if self.forall_holds(n, lambda i: fold(real(at(i)) == real(at2(i)))):
                        return c
        c = self.int(tag)
        self.assume(z3.And(c >= 0, z3.Or(c < num(n), num(n) <= 0)))
        self.sums.append((tag, n, at, c))
        return c
