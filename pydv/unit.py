"""Verification units: one function (or protocol) checked against its contract."""
import os
import time
import traceback

import z3

from . import values as V
from .interp import BuiltinClass, ExcVal, Interp
from .values import (
    CUR,
    Builtin,
    Path,
    PathDead,
    ProofFail,
    PyExc,
    PySet,
    Unsupported,
    boolt,
    fold,
    is_term,
    num,
    real,
)


class Unit:
    """Subclass or instantiate with run(ip, p): sets up the symbolic pre-state,
    runs the real code through ip, and proves the postconditions with p.prove."""

    probe_comprehensions = True
    max_paths = 4000
    bmc_bound = 3
    bmc_limit = 70
    bmc_timeout_ms = 8000
    time_limit = 240

    def __init__(self, name, run=None, contracts=None, ext=None, covers=()):
        self.name = name
        if run is not None:
            self.run = run
        self.contracts = dict(contracts or {})
        from .ext_default import default_ext

        self.ext = dict(default_ext())
        self.ext.update(ext or {})
        self.covers = list(covers)
        self.stats = {"solver_s": 0.0, "solver_calls": 0}
        self.loops = {}
        self.touched = set()
        self.mode = "deduct"
        self.cfg = {}

    # ---- hooks with defaults ------------------------------------------------
    def touch(self, q):
        self.touched.add(q)

    def unroll(self, key, ip, fr):
        return self.bmc_bound if self.mode == "bmc" else None

    def peel(self, key, ip, fr):
        return 0

    def loop_preds(self, ctx, k):
        return {}

    def loop_qpreds(self, ctx, k):
        return {}

    def loop_assume(self, ctx, k):
        return []

    def loop_anchors(self, ctx, k, loc):
        return {}

    def rep_of(self, o, field):
        # reps: abstract representation objects registered on the path
        for r in V.P().ghost.get("reps", ()):
            if r.owns(o, field):
                return r
        return None

    def rep_anchors(self, ctx, k, rep):
        return {}

    def loop_havoc(self, ip, loc, o, kinds):
        return NotImplemented

    def loop_backedge(self, ctx, k):
        pass

    def getattr_hook(self, ip, o, name):
        return NotImplemented

    def super_hook(self, ip, o, name):
        return NotImplemented

    def isinstance_hook(self, ip, o, t):
        return NotImplemented

    def opaque_attr(self, ip, o, name):
        return None

    def obj_attr(self, ip, o, name):
        raise Unsupported("attribute %s of an opaque object" % name)

    def obj_len(self, ip, o):
        raise Unsupported("len of an opaque object")

    def obj_getitem(self, ip, o, i):
        raise Unsupported("subscript of an opaque object")

    def obj_unary(self, ip, op, o):
        raise Unsupported("operator on an opaque object")

    def obj_binop(self, ip, op, a, b):
        raise Unsupported("operator on an opaque object")

    def obj_compare(self, ip, op, a, b):
        raise Unsupported("comparison of opaque objects")

    def obj_float(self, ip, o):
        raise Unsupported("float of an opaque object")

    def obj_is_bool(self, ip, o, b):
        return False

    def new_list(self, ip):
        from .values import PyList

        return PyList([], ip.alloc_label("list"))

    def new_dict(self, ip):
        from .values import PyDict

        return PyDict({}, ip.alloc_label("dict"))

    def new_set(self, ip):
        return PySet([], ip.alloc_label("set"))

    def sorted_sym(self, ip, it, key, reverse):
        raise Unsupported("sorted of a symbolic sequence")

    def dict_from_seq(self, ip, r):
        raise Unsupported("dict of a symbolic sequence")

    def mod(self, ip, a, b):
        return fold(a % b)

    def power(self, ip, a, b):
        f = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        if self.mode == "bmc" and is_term(b) and z3.is_int(b):
            b = V.P().expand(b)
        if not is_term(b) and isinstance(b, int) and 0 <= b <= 4:
            r = z3.RealVal(1)
            for _ in range(b):
                r = r * real(a)
            return fold(r)
        t = f(real(a), real(b))
        V.P().assume(f(real(a), z3.RealVal(0)) == 1)
        return t

    # ---- obligations -----------------------------------------------------------
    def record(self, path, cond, name, why=""):
        p = path
        self.pass_total += 1
        st = self.obl.setdefault(name, {"n": 0, "ok": 0, "fail": [], "unknown": []})
        st["n"] += 1
        if isinstance(cond, bool):
            c = z3.BoolVal(cond)
        else:
            c = cond
        if isinstance(cond, bool) and cond:
            st["ok"] += 1
            return
        r = p._check(z3.Not(c))
        if r == z3.unsat:
            st["ok"] += 1
            p.assume(c)
            return
        if r == z3.sat:
            model = str(p.s.model())[:2500]
            if isinstance(cond, bool) and getattr(p, "last_cex", None) is not None:
                model = str(p.last_cex)[:2500]
            st["fail"].append(
                {"why": why, "model": model, "trace": list(p.trace), "soft": p.gave_up}
            )
        else:
            st["unknown"].append({"why": why, "trace": list(p.trace)})
        p.assume(c)

    def unexpected(self, path, e):
        """program exception that escaped run()"""
        self.record(path, False, "no-unexpected-exception", repr(e.value))

    # ---- exploration --------------------------------------------------------------
    def explore(self):
        t0 = time.time()
        n_pass = 0
        while True:
            n_pass += 1
            self.dirty = False
            self.obl = {}
            self.pass_total = 0
            self.paths = 0
            self.completed = 0
            self.cut = False
            self.steps = 0
            self.loops_seen = set()
            work = [[]]
            while work:
                prefix = work.pop()
                if self.paths >= self.max_paths:
                    raise Unsupported("too many paths")
                if time.time() - t0 > (self.bmc_limit if self.mode == "bmc" else self.time_limit):
                    if self.mode == "bmc":
                        return self
                    raise Unsupported("time limit")
                if self.mode == "bmc" and self.hard():
                    return self
                self.paths += 1
                p = Path(self, prefix, dict(self.cfg, timeout_ms=self.bmc_timeout_ms) if self.mode == "bmc" else self.cfg)
                CUR[0] = p
                ip = Interp(self)
                try:
                    self.run(ip, p)
                    self.completed += 1
                except PathDead:
                    pass
                except Unsupported:
                    try:
                        p.alive()
                    except PathDead:
                        pass    # unreachable
                    else:
                        raise
                except PyExc as e:
                    try:
                        p.alive()
                        self.unexpected(p, e)
                    except PathDead:
                        pass
                finally:
                    work.extend(p.pending)
                if self.dirty and n_pass < 60 and self.paths > 200:
                    break
            if not self.dirty:
                break
            if n_pass > 80:
                raise Unsupported("loop invariants do not stabilise")
        self.n_pass = n_pass
        return self

    def verify(self):
        """-> result dict with verdict PROVED / REFUTED / UNDECIDED"""
        t0 = time.time()
        res = {
            "unit": self.name,
            "verdict": None,
            "obligations": 0,
            "discharged": 0,
            "failed": [],
            "reason": "",
        }
        try:
            self.mode = "deduct"
            self.loops = {}
            self.explore()
            fails = [n for n, s in self.obl.items() if s["fail"]]
            unk = [n for n, s in self.obl.items() if s["unknown"]]
            res["obligations"] = sum(s["n"] for s in self.obl.values())
            res["discharged"] = sum(s["ok"] for s in self.obl.values())
            res["names"] = {n: s["n"] for n, s in self.obl.items()}
            res["paths"] = self.paths
            res["completed"] = self.completed
            res["loops"] = len(self.loops_seen)
            if res["obligations"] == 0 or (self.completed == 0 and not fails):
                res["verdict"] = "UNDECIDED"
                res["reason"] = "vacuous: no obligation or no completed path"
            elif not fails and not unk:
                res["verdict"] = "PROVED"
            else:
                res["failed"] = [
                    dict(name=n, **(self.obl[n]["fail"] + self.obl[n]["unknown"])[0])
                    for n in fails + [u for u in unk if u not in fails]
                ]
                if self.hard() and not self.loops_seen:
                    res["verdict"] = "REFUTED"
                elif fails:
                    # confirm without loop abstraction
                    conf = self.bmc(fails)
                    if conf is not None:
                        res["verdict"] = "REFUTED"
                        res["failed"] = conf
                    else:
                        res["verdict"] = "UNDECIDED"
                        res["reason"] = (
                            "obligation fails only under the loop abstraction: "
                            + ", ".join(fails)
                        )
                else:
                    res["verdict"] = "UNDECIDED"
                    res["reason"] = "solver gave no answer on " + ", ".join(unk)
        except Unsupported as e:
            res["verdict"] = "UNDECIDED"
            res["reason"] = "outside the verified subset: %s" % e
            if os.environ.get("PYDV_DEBUG"):
                print("".join(traceback.format_exc().splitlines(True)[-30:]))
            # the loop abstraction may be what got lost: look without it
            conf = self.bmc([])
            if conf is not None:
                res["verdict"], res["failed"] = "REFUTED", conf
                res["reason"] = ""
        except RecursionError:
            res["verdict"] = "UNDECIDED"
            res["reason"] = "recursion limit"
        except (z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError,
                ValueError, AssertionError) as e:
            # a failure of the verifier itself: no verdict, never an alarm
            res["verdict"] = "UNDECIDED"
            res["reason"] = "verifier: %s: %s" % (type(e).__name__, e)
            if os.environ.get("PYDV_DEBUG"):
                print("".join(traceback.format_exc().splitlines(True)[-30:]))
        res["touched"] = sorted(self.touched)
        res["covers"] = self.covers
        res["solver_s"] = round(self.stats["solver_s"], 3)
        res["solver_calls"] = self.stats["solver_calls"]
        res["wall_s"] = round(time.time() - t0, 3)
        return res

    def hard(self):
        """failed obligations of paths on which the solver answered every query"""
        out = []
        for n, s in self.obl.items():
            f = [x for x in s["fail"] if not x["soft"]]
            if f:
                out.append(dict(name=n, **f[0]))
        return out

    def bmc(self, names):
        saved = (self.obl, self.paths, self.completed, self.loops_seen)
        try:
            self.mode = "bmc"
            self.explore()
            return self.hard() or None
        except (Unsupported, RecursionError, z3.Z3Exception, AttributeError, TypeError, KeyError,
                IndexError, ValueError, AssertionError):
            return None
        finally:
            self.mode = "deduct"
            self.obl, self.paths, self.completed, self.loops_seen = saved


def ext_exc(name="Exception"):
    import builtins

    return PyExc(ExcVal(BuiltinClass(name, getattr(builtins, name)), ("external",)))


class Rep:
    """Data-refinement view of an object: view() reads the abstract value,
    build(v) puts the object in an arbitrary concrete state representing v."""

    def __init__(self, obj):
        self.obj = obj
        self.uid = obj.uid
        V.P().ghost.setdefault("reps", []).append(self)

    def owns(self, o, field):
        return o is self.obj and field in self.fields

    def valid(self, ip):
        return True


def check_fields(cls, expected):
    """The representation the contract talks about is the one in the source."""
    import ast

    got = set()
    for c in cls.mro():
        for n in ast.walk(c.node):
            if (
                isinstance(n, ast.Attribute)
                and isinstance(n.value, ast.Name)
                and n.value.id == "self"
                and isinstance(n.ctx, (ast.Store, ast.Del))
            ):
                got.add(n.attr)
    if got != set(expected):
        raise Unsupported(
            "representation of %s changed: %s" % (cls.name, sorted(got ^ set(expected)))
        )


class PW:
    """one arbitrary index j of n stands for all of them"""

    def __init__(self, j, n):
        self.j, self.n = j, n
        self.cur = ""

    def other(self, ip, i, v):
        return v
