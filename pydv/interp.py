"""Symbolic interpreter for the Python subset of /repo (reads the real AST)."""
import ast
import builtins
import math
import os
import re

import z3

from . import seqs
from .seqs import eq_term, proves_equal, same
from .values import (
    NONE,
    POISON,
    P,
    Builtin,
    Frame,
    HeapObj,
    HModel,
    Model,
    Obj,
    Opaque,
    Text,
    PathDead,
    PyDict,
    PyExc,
    PyList,
    PyObj,
    PySet,
    SymSeq,
    Unsupported,
    boolt,
    fold,
    is_boolv,
    is_int,
    is_num,
    is_objterm,
    is_term,
    num,
    real,
    truthy,
)

REPO = os.environ.get("VERIF_REPO", "/repo")


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ModuleVal:
    """A module of /repo; top-level names are resolved lazily from its AST."""

    cache = {}

    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.bindings = {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.bindings[st.name] = st
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    nm = a.asname or (
                        a.name.split(".")[0] if isinstance(st, ast.Import) else a.name
                    )
                    self.bindings[nm] = (st, a)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.bindings[t.id] = st
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name):
                    self.bindings[st.target.id] = st
            elif isinstance(st, ast.Try):
                self._collect(st.body)
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)


LIBS = {"gym.core": "/opt/venv/lib/python3*/site-packages/gym/core.py"}


def module_path(name):
    if name in LIBS:
        import glob

        return (glob.glob(LIBS[name]) or [None])[0]
    base = os.path.join(REPO, *name.split("."))
    if os.path.isdir(base):
        return os.path.join(base, "__init__.py")
    if os.path.exists(base + ".py"):
        return base + ".py"
    return None


def load_module(name):
    if name not in ModuleVal.cache:
        path = module_path(name)
        if path is None or not os.path.exists(path):
            return None
        ModuleVal.cache[name] = ModuleVal(name, path)
    return ModuleVal.cache[name]


class ExtVal:
    """A dotted name of a library outside /repo."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class BuiltinClass:
    def __init__(self, name, py=None):
        self.name = name
        self.py = py

    def __repr__(self):
        return "<class %s>" % self.name


class ClassVal:
    def __init__(self, name, module, node, bases, qual):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases
        self.qual = qual
        self.ns = {}

    def mro(self):
        # C3 linearisation
        def merge(seqs_):
            out = []
            seqs_ = [list(s) for s in seqs_ if s]
            while seqs_:
                for s in seqs_:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs_):
                        break
                else:
                    raise Unsupported("MRO")
                out.append(c)
                seqs_ = [[x for x in t if x is not c] for t in seqs_]
                seqs_ = [t for t in seqs_ if t]
            return out

        cb = [b for b in self.bases if isinstance(b, ClassVal)]
        return [self] + merge([b.mro() for b in cb] + [cb])

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, ClassVal)]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def issub(self, other):
        if isinstance(other, ClassVal):
            return other in self.mro()
        if isinstance(other, BuiltinClass):
            for b in self.ext_bases():
                if isinstance(b, BuiltinClass) and b.py and other.py:
                    if issubclass(b.py, other.py):
                        return True
        if isinstance(other, ExtVal):
            return any(
                isinstance(b, ExtVal) and b.name == other.name
                for b in self.ext_bases()
            )
        return False

    def __repr__(self):
        return "<class %s>" % self.qual


class FuncVal:
    def __init__(self, node, module, closure, qual, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.qual = qual
        self.cls = cls
        self.defaults = []
        self.kw_defaults = []
        self.decos = []

    def __repr__(self):
        return "<function %s>" % self.qual


class BoundMethod:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class PropertyVal:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class SuperVal:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class ExcVal:
    """instance of an exception class"""

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args

    def pyclass(self):
        if isinstance(self.cls, BuiltinClass):
            return self.cls.py
        for b in self.cls.ext_bases():
            if isinstance(b, BuiltinClass) and b.py:
                return b.py
        return Exception

    def __repr__(self):
        return "%s%r" % (self.cls.name, tuple(self.args))


class GenVal:
    """A generator: run(hook) executes its body, calling hook(value) per yield."""

    def __init__(self, run):
        self.run = run


class IterVal(HeapObj):
    """Iterator over a SymSeq with a position."""

    kind = "iter"

    def __init__(self, seq):
        super().__init__("iter")
        self.f["seq"] = seq
        self.f["pos"] = 0


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class LazyHavoc:
    """local variable of unknown kind after a loop: the kind is chosen when read"""

    def __init__(self, kinds, loc, info):
        self.kinds, self.loc, self.info = kinds, loc, info

    def resolve(self, ip, fr, name):
        kd = self.kinds[P().choose(len(self.kinds))]
        if kd == "undef":
            fr.f.pop(name, None)
            return LazyHavoc
        v = ip.havoc_kind(kd, self.loc, self.info)
        fr.f[name] = v
        return v


def exc(name, *args):
    return PyExc(ExcVal(BuiltinClass(name, getattr(builtins, name)), args))


def kind_of(v):
    if v is None:
        return "none"
    if is_boolv(v):
        return "bool"
    if is_int(v):
        return "int"
    if is_num(v):
        return "real"
    if is_objterm(v):
        return "obj"
    if isinstance(v, str):
        return "str:" + v
    if isinstance(v, tuple):
        return ("tuple",) + tuple(kind_of(x) for x in v)
    if isinstance(v, (SymSeq, list)):
        return "seq"
    if isinstance(v, HeapObj):
        return "ref:" + v.uid
    if isinstance(v, (BoundMethod, Builtin, FuncVal, ClassVal, ExtVal, Opaque)) and not isinstance(v, Text):
        return ("host", id(v))
    return ("other", type(v).__name__)


class LoopInfo:
    def __init__(self):
        self.modset = {}
        self.kinds = {}
        self.dead = set()
        self.hosts = {}
        self.defined = {}


class Interp:
    def __init__(self, unit):
        self.unit = unit
        self.ext = unit.ext
        self.contracts = unit.contracts
        self.depth = 0
        self.stack = []
        self.mod_globals = {}
        self.handling = []
        self.cls_cache = {}

    # ------------------------------------------------------------------ names
    def module_get(self, mod, name):
        key = (mod.name, name)
        if key in self.mod_globals:
            return self.mod_globals[key]
        if name == "__name__":
            return mod.name
        b = mod.bindings.get(name)
        if b is None:
            sub = load_module(mod.name + "." + name)
            if sub is not None:
                return sub
            raise KeyError(name)
        if isinstance(b, tuple):
            v = self.do_import(mod, b[0], b[1])
        elif isinstance(b, ast.FunctionDef):
            v = self.make_func(b, mod, None, mod.name + "." + b.name)
            v = self.apply_decos(b, v, None, mod)
        elif isinstance(b, ast.ClassDef):
            v = self.make_class(b, mod, None)
        else:
            fr = Frame("<module %s>" % mod.name, mod, None)
            v = self.ev(b.value, fr)
        self.mod_globals[key] = v
        return v

    def do_import(self, mod, st, alias):
        if isinstance(st, ast.Import):
            if alias.asname:
                return self.import_dotted(alias.name)
            return self.import_dotted(alias.name.split(".")[0])
        base = st.module or ""
        if st.level:
            pkg = mod.name if mod.path.endswith("__init__.py") else mod.name.rpartition(".")[0]
            for _ in range(st.level - 1):
                pkg = pkg.rpartition(".")[0]
            base = pkg + ("." + base if base else "")
        m = load_module(base)
        if m is not None:
            bnd = m.bindings.get(alias.name)
            if isinstance(bnd, tuple) and getattr(bnd[0], "module", None) == base:
                sub = load_module(base + "." + alias.name)
                if sub is not None:
                    return sub
            try:
                return self.module_get(m, alias.name)
            except KeyError:
                sub = load_module(base + "." + alias.name)
                if sub is not None:
                    return sub
                raise Unsupported("cannot import %s from %s" % (alias.name, base))
        return self.ext_value(base + "." + alias.name)

    def import_dotted(self, name):
        m = load_module(name)
        if m is not None:
            return m
        return ExtVal(name)

    def ext_value(self, name):
        if name in self.ext:
            return self.ext[name]
        if name.startswith("builtins."):
            nm = name[9:]
            if hasattr(builtins, nm):
                return self.builtin(nm)
        return ExtVal(name)

    def builtin(self, name):
        from . import builtin_fns

        if name in builtin_fns.TABLE:
            return builtin_fns.TABLE[name]
        c = getattr(builtins, name, None)
        if isinstance(c, type):
            return BuiltinClass(name, c)
        return None

    def lookup(self, name, fr):
        f = fr
        if name in fr.globals_decl:
            f = None
        while f is not None:
            if name in f.f:
                v = f.f[name]
                if isinstance(v, LazyHavoc):
                    v = v.resolve(self, f, name)
                    if v is LazyHavoc:
                        raise exc("UnboundLocalError", name)
                if v is POISON:
                    raise Unsupported("value of %s unknown after loop" % name)
                return v
            f = f.parent
        try:
            return self.module_get(fr.module, name)
        except KeyError:
            pass
        v = self.builtin(name)
        if v is None:
            raise exc("NameError", name)
        return v

    def assign_name(self, name, v, fr):
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.f:
                    f.set(name, v)
                    return
                f = f.parent
            raise Unsupported("nonlocal")
        if name in fr.globals_decl:
            raise Unsupported("global write")
        fr.set(name, v)

    # -------------------------------------------------------- functions/classes
    def make_func(self, node, module, closure, qual, cls=None):
        f = FuncVal(node, module, closure, qual, cls)
        fr = closure or Frame("<defaults>", module, None)
        f.defaults = [self.ev(d, fr) for d in node.args.defaults]
        f.kw_defaults = [
            None if d is None else (self.ev(d, fr),) for d in node.args.kw_defaults
        ]
        f.is_gen = (
            any(
                isinstance(n, (ast.Yield, ast.YieldFrom))
                for n in self.own_nodes(node)
            )
            if isinstance(node, ast.FunctionDef)
            else False
        )
        return f

    def own_nodes(self, fnode):
        todo = list(fnode.body)
        while todo:
            n = todo.pop()
            yield n
            for c in ast.iter_child_nodes(n):
                if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    todo.append(c)

    def apply_decos(self, node, v, fr, mod):
        f = fr or Frame("<deco>", mod, None)
        for d in reversed(node.decorator_list):
            dn = ast.unparse(d)
            last = dn.split(".")[-1].split("(")[0]
            if last in ("abstractmethod", "no_grad", "wraps"):
                continue
            if last in ("property", "abstractproperty"):
                v = PropertyVal(v)
            elif last == "setter":
                prev = f.f.get(dn.split(".")[0])
                v = PropertyVal(prev.fget if prev else None, v)
            elif last == "staticmethod":
                v = StaticM(v)
            elif last == "classmethod":
                v = ClassM(v)
            elif last == "lazy_property":
                v = PropertyVal(v)
            elif last == "contextmanager":
                v.ctxmgr = True
            else:
                dv = self.ev(d, f)
                v = self.call(dv, [v], {})
        return v

    def make_class(self, node, module, fr):
        key = (module.name, node.name, node.lineno)
        if key in self.cls_cache:
            return self.cls_cache[key]
        f = fr or Frame("<class>", module, None)
        bases = []
        for b in node.bases:
            v = self.ev(b.value if isinstance(b, ast.Subscript) else b, f)
            if isinstance(v, (ClassVal, BuiltinClass, ExtVal)):
                bases.append(v)
            elif isinstance(v, Opaque):
                continue
            else:
                bases.append(ExtVal(ast.unparse(b)))
        c = ClassVal(node.name, module, node, bases, module.name + "." + node.name)
        self.cls_cache[key] = c
        cf = Frame("<classbody %s>" % node.name, module, f if fr else None)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                fn = self.make_func(st, module, fr, c.qual + "." + st.name, c)
                cf.f[st.name] = self.apply_decos(st, fn, cf, module)
            elif isinstance(st, ast.Assign):
                self.ex_stmt(st, cf)
            elif isinstance(st, ast.AnnAssign):
                if st.value is not None:
                    self.assign(st.target, self.ev(st.value, cf), cf)
            elif isinstance(st, (ast.Pass, ast.Expr)):
                pass
            elif isinstance(st, ast.ClassDef):
                cf.f[st.name] = self.make_class(st, module, cf)
            else:
                raise Unsupported("class body statement")
        c.ns = dict(cf.f)
        return c

    def get_class(self, modname, clsname):
        return self.module_get(load_module(modname), clsname)

    def get_func(self, modname, name):
        return self.module_get(load_module(modname), name)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None, node=None):
        kwargs = kwargs or {}
        if isinstance(f, Builtin):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.self_] + list(args), kwargs, node)
        if isinstance(f, FuncVal):
            c = self.contracts.get(f.qual)
            if c is not None:
                return c(self, f, list(args), dict(kwargs))
            return self.call_body(f, list(args), dict(kwargs))
        if isinstance(f, ClassVal):
            return self.instantiate(f, list(args), dict(kwargs))
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, BuiltinClass):
            if f.py is not None and issubclass(f.py, BaseException):
                return ExcVal(f, tuple(args))
            raise Unsupported("call of class %s" % f.name)
        if isinstance(f, ExtVal):
            h = self.ext.get(f.name)
            if h is not None:
                return self.call(h, args, kwargs)
            raise Unsupported("external function %s has no contract" % f.name)
        if isinstance(f, Model):
            return f.getattr(self, "__call__").fn(self, *args, **kwargs)
        if isinstance(f, PyObj):
            m, c = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
            if hasattr(self.unit, "call_module"):
                return self.unit.call_module(self, f, args, kwargs)
        if callable(f) and not isinstance(f, (z3.ExprRef, type)):
            return f(self, *args, **kwargs)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kwargs):
        c = self.contracts.get(cls.qual)
        if c is not None:
            return c(self, cls, args, kwargs)
        if any(
            isinstance(b, BuiltinClass)
            and b.py is not None
            and issubclass(b.py, BaseException)
            for b in cls.ext_bases()
        ):
            return ExcVal(cls, tuple(args))
        o = PyObj(cls, self.alloc_label(cls.name))
        init, owner = cls.lookup("__init__")
        if init is not None:
            self.call(BoundMethod(init, o), args, kwargs)
        return o

    def alloc_label(self, what):
        s = "/".join(x[0] for x in self.stack[-2:])
        ln = self.stack[-1][1] if self.stack else 0
        return "%s@%s:%s" % (what, s, ln)

    def bind_args(self, f, args, kwargs, fr):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kwargs)
        pos = list(args)
        star = None
        for i, nm in enumerate(names):
            if i < len(pos):
                if nm in kw:
                    raise exc("TypeError", "multiple values for %s" % nm)
                fr.f[nm] = pos[i]
            elif nm in kw:
                fr.f[nm] = kw.pop(nm)
            else:
                di = i - (len(names) - len(f.defaults))
                if di < 0:
                    raise exc("TypeError", "missing argument %s" % nm)
                fr.f[nm] = f.defaults[di]
        rest = pos[len(names):]
        if a.vararg:
            fr.f[a.vararg.arg] = tuple(rest)
        elif rest:
            raise exc("TypeError", "too many arguments for " + f.qual)
        for x, d in zip(a.kwonlyargs, f.kw_defaults):
            if x.arg in kw:
                fr.f[x.arg] = kw.pop(x.arg)
            elif d is not None:
                fr.f[x.arg] = d[0]
            else:
                raise exc("TypeError", "missing " + x.arg)
        if a.kwarg:
            fr.f[a.kwarg.arg] = PyDict(kw, self.alloc_label("kwargs"))
        elif kw:
            raise exc("TypeError", "unexpected keyword %s" % sorted(kw))

    def call_body(self, f, args, kwargs):
        self.unit.touch(f.qual)
        fr = Frame(f.qual, f.module, f.closure)
        fr.func = f
        fr.args_ = args
        self.bind_args(f, args, kwargs, fr)
        if isinstance(f.node, ast.Lambda):
            return self.in_frame(f, lambda: self.ev(f.node.body, fr))
        if getattr(f, "is_gen", False):

            def run(hook):
                p = P()
                p.gen_hooks.append(hook)
                fr.hook = hook
                try:
                    self.in_frame(f, lambda: self.ex(f.node.body, fr))
                except ReturnSig:
                    pass
                finally:
                    p.gen_hooks.pop()

            g = GenVal(run)
            g.ctxmgr = getattr(f, "ctxmgr", False)
            return g
        try:
            self.in_frame(f, lambda: self.ex(f.node.body, fr))
        except ReturnSig as r:
            return r.value
        return None

    def in_frame(self, f, thunk):
        if len(self.stack) > 60:
            raise Unsupported("recursion too deep (needs a contract): " + f.qual)
        self.stack.append((f.qual, f.node.lineno))
        n = len(self.stack)
        try:
            return thunk()
        finally:
            del self.stack[n - 1:]

    # ------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if o is POISON:
            raise Unsupported("poison")
        if isinstance(o, PyObj):
            v, c = o.cls.lookup(name)
            if isinstance(v, PropertyVal):
                return self.call(v.fget, [o])
            if name in o.f:
                r = o.f[name]
                if r is POISON:
                    raise Unsupported("value of .%s unknown after loop" % name)
                return r
            if c is not None:
                return self.bind(v, o)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            h = self.unit.getattr_hook(self, o, name)
            if h is not NotImplemented:
                return h
            ga, c = o.cls.lookup("__getattr__")
            if ga is not None:
                return self.call(ga, [o, name])
            raise exc("AttributeError", name)
        if isinstance(o, Model):
            return o.getattr(self, name)
        if isinstance(o, ClassVal):
            v, c = o.lookup(name)
            if v is not None:
                if isinstance(v, ClassM):
                    return BoundMethod(v.fn, o)
                return v.fn if isinstance(v, StaticM) else v
            if name == "__name__":
                return o.name
            for b in o.ext_bases():
                r = self.ext_class_attr(b, name)
                if r is not None:
                    return r
            raise exc("AttributeError", name)
        if isinstance(o, SuperVal):
            mro = o.self_.cls.mro() if isinstance(o.self_, PyObj) else o.self_.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], o.self_)
            if name == "__init__":
                return Builtin("object.__init__", lambda ip, *a, **k: None)
            h = self.unit.super_hook(self, o, name)
            if h is not NotImplemented:
                return h
            raise Unsupported("super().%s" % name)
        if isinstance(o, ModuleVal):
            try:
                return self.module_get(o, name)
            except KeyError:
                raise Unsupported("%s.%s" % (o.name, name))
        if isinstance(o, ExtVal):
            return self.ext_value(o.name + "." + name)
        if isinstance(o, Builtin) and o.name + "." + name in self.ext:
            return self.ext[o.name + "." + name]
        from . import builtin_fns

        r = builtin_fns.method(self, o, name)
        if r is not None:
            return r
        raise Unsupported("attribute %s of %r" % (name, o))

    def ext_class_attr(self, b, name):
        if isinstance(b, ExtVal):
            return self.ext.get(b.name + "." + name)
        return None

    def bind(self, v, o):
        if isinstance(v, (FuncVal, Builtin)):
            if isinstance(v, FuncVal):
                return BoundMethod(v, o)
            return BoundMethod(v, o)
        if isinstance(v, StaticM):
            return v.fn
        if isinstance(v, ClassM):
            return BoundMethod(v.fn, o.cls if isinstance(o, PyObj) else o)
        if isinstance(v, PropertyVal):
            return self.call(v.fget, [o])
        return v

    def hasattr(self, o, name):
        if isinstance(o, PyObj):
            if name in o.f:
                return True
            v, c = o.cls.lookup(name)
            return v is not None
        try:
            self.getattr(o, name)
            return True
        except PyExc:
            return False

    def setattr(self, o, name, v):
        if isinstance(o, PyObj):
            pv, c = o.cls.lookup(name)
            if isinstance(pv, PropertyVal):
                if pv.fset is None:
                    raise exc("AttributeError", "can't set " + name)
                self.call(pv.fset, [o, v])
                return
            o.set(name, v)
            return
        if isinstance(o, Model):
            o.setattr(self, name, v)
            return
        raise Unsupported("setattr on %r" % (o,))

    # ------------------------------------------------------------- statements
    def ex(self, body, fr):
        for st in body:
            self.ex_stmt(st, fr)

    def ex_stmt(self, st, fr):
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], st.lineno)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__)
        self.unit.steps += 1
        m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Import(self, st, fr):
        for a in st.names:
            fr.set(
                a.asname or a.name.split(".")[0],
                self.do_import(fr.module, st, a),
            )

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            fr.set(a.asname or a.name, self.do_import(fr.module, st, a))

    def s_Global(self, st, fr):
        fr.globals_decl.update(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr.module, fr, fr.fn_name + ".<locals>." + st.name)
        f.cls = getattr(getattr(fr, "func", None), "cls", None)
        self.assign_name(st.name, self.apply_decos(st, f, fr, fr.module), fr)

    def s_ClassDef(self, st, fr):
        self.assign_name(st.name, self.make_class(st, fr.module, fr), fr)

    def s_Return(self, st, fr):
        raise ReturnSig(None if st.value is None else self.ev(st.value, fr))

    def s_Break(self, st, fr):
        raise BreakSig()

    def s_Continue(self, st, fr):
        raise ContinueSig()

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.aug(st.op, cur, self.ev(st.value, fr))
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.aug(st.op, cur, self.ev(st.value, fr))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            cur = self.getitem(o, i)
            v = self.aug(st.op, cur, self.ev(st.value, fr))
            self.setitem(o, i, v)
        else:
            raise Unsupported("augassign")

    def aug(self, op, cur, v):
        if isinstance(cur, PyList) and isinstance(op, ast.Add):
            from . import builtin_fns

            builtin_fns.list_extend(self, cur, v)
            return cur
        if isinstance(cur, Model) and hasattr(cur, "aug"):
            return cur.aug(self, op, v)
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        n = len(elts)
        if any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported("starred unpack")
        if isinstance(v, tuple):
            items = v
        else:
            it = self.iterate(v)
            if isinstance(it, SymSeq):
                ok = P().decide(fold(num(it.n) == n)) if is_term(it.n) else it.n == n
                if not ok:
                    raise exc("ValueError", "unpack")
                items = [seqs.seq_at(it, i) for i in range(n)]
            elif isinstance(it, GenVal):
                items = self.collect(it)
            else:
                items = it
        if len(items) != n:
            raise exc("ValueError", "unpack")
        return items

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.delete(t.id)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if not isinstance(o, PyObj):
                    raise Unsupported("del attr")
                if t.attr not in o.f:
                    raise exc("AttributeError", t.attr)
                o.delete(t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            else:
                raise Unsupported("del")

    def s_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.ex(st.body, fr)
        else:
            self.ex(st.orelse, fr)

    def s_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            raise exc("AssertionError")

    def s_Raise(self, st, fr):
        if st.exc is None:
            if not self.handling:
                raise exc("RuntimeError")
            raise PyExc(self.handling[-1])
        v = self.ev(st.exc, fr)
        if isinstance(v, BuiltinClass):
            v = ExcVal(v, ())
        elif isinstance(v, ClassVal):
            v = self.instantiate(v, [], {})
        raise PyExc(v)

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        if isinstance(t, BuiltinClass):
            return issubclass(e.pyclass(), t.py)
        if isinstance(t, ClassVal):
            return isinstance(e.cls, ClassVal) and e.cls.issub(t)
        if isinstance(t, ExtVal):
            return getattr(e, "extname", None) == t.name
        raise Unsupported("except type")

    def s_Try(self, st, fr):
        try:
            try:
                self.ex(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(
                        e.value, self.ev(h.type, fr)
                    ):
                        self.handling.append(e.value)
                        if h.name:
                            fr.set(h.name, e.value)
                        try:
                            self.ex(h.body, fr)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.ex(st.orelse, fr)
        except (PyExc, ReturnSig, BreakSig, ContinueSig):
            self.ex(st.finalbody, fr)
            raise
        else:
            self.ex(st.finalbody, fr)

    def s_With(self, st, fr):
        self.with_items(st.items, st.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.ex(body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, GenVal):
            state = {}

            def hook(v):
                state["n"] = 1
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                try:
                    self.with_items(items[1:], body, fr)
                except (ReturnSig, BreakSig, ContinueSig) as s:
                    state["sig"] = s
                return None

            cm.run(hook)
            if "n" not in state:
                raise exc("RuntimeError", "generator didn't yield")
            if "sig" in state:
                raise state["sig"]
            return
        enter = self.getattr(cm, "__enter__")
        v = self.call(enter, [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.with_items(items[1:], body, fr)
        except PyExc as e:
            r = self.call(
                self.getattr(cm, "__exit__"), [Opaque("exctype"), e.value, Opaque("tb")]
            )
            if r is not None and self.truth(r):
                return
            raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.call(self.getattr(cm, "__exit__"), [None, None, None])
            raise
        else:
            self.call(self.getattr(cm, "__exit__"), [None, None, None])

    # ------------------------------------------------------------------ loops
    def s_For(self, st, fr):
        it = self.iterate(self.ev(st.iter, fr))

        def body(x):
            self.assign(st.target, x, fr)
            self.ex(st.body, fr)

        if isinstance(it, GenVal):

            class Stop(Exception):
                pass

            def hook(v):
                try:
                    body(v)
                except ContinueSig:
                    pass
                except BreakSig:
                    raise Stop()

            try:
                it.run(hook)
            except Stop:
                return
            self.ex(st.orelse, fr)
            return
        if isinstance(it, SymSeq) and not is_term(it.n) and it.n is not None:
            it = [seqs.seq_at(it, i) for i in range(it.n)]
        if isinstance(it, list):
            for x in it:
                try:
                    body(x)
                except ContinueSig:
                    continue
                except BreakSig:
                    return
            self.ex(st.orelse, fr)
            return
        seq = it

        def guard(k):
            if seq.n is None:
                return True
            return P().decide(fold(num(k) < num(seq.n)))

        def bodyk(k):
            body(seqs.seq_at(seq, k))

        if self.pointwise_for(st, fr, seq, body):
            self.ex(st.orelse, fr)
            return
        if self.sym_loop(st, fr, guard, bodyk, seq.n, over=seq):
            self.ex(st.orelse, fr)

    # One arbitrary index j stands for all: an iteration over all indices whose
    # i-th round changes nothing but what belongs to index i changes what belongs
    # to j exactly as its j-th round does.
    def pointwise(self, seq):
        pw = P().ghost.get("pw")
        if pw is None or not isinstance(seq, SymSeq) or not is_term(seq.n) or pw.cur != "":
            return None
        return pw if P().entails(fold(num(seq.n) == num(pw.n))) else None

    def pw_probe(self, pw, seq, run):
        """does a round i != j leave everything but its own alone?"""
        p = P()
        bad = []

        def probe():
            i = self.fresh_ix(seq.n)
            p.assume(i != num(pw.j))
            mark, known = len(p.log), set(p.objs)
            pw.cur = "other"
            try:
                run(seqs.seq_at(seq, i))
            except PyExc:
                pass        # the exception of round i is the case j = i
            except ContinueSig:
                pass
            except (BreakSig, ReturnSig):
                bad.append("leaves the loop")
            except Unsupported as e:
                bad.append(str(e))
            finally:
                pw.cur = ""
            for o, field in p.log[mark:]:
                if o.uid in known and not isinstance(o, Frame):
                    bad.append("writes %s.%s" % (o.uid, field))
            return not bad

        p.all_cases(probe)
        return not bad

    def pointwise_for(self, st, fr, seq, body):
        pw = self.pointwise(seq)
        if pw is None:
            return False
        names = set()
        for b in st.body + [st.target]:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)

        def poison():
            for nm in names:
                fr.set(nm, POISON)

        def run(x):
            poison()
            body(x)

        if not self.pw_probe(pw, seq, run):
            return False
        pw.cur = "mine"
        try:
            run(seqs.seq_at(seq, pw.j))
        except ContinueSig:
            pass
        except (BreakSig, ReturnSig):
            raise Unsupported("loop left at one index")
        finally:
            pw.cur = ""
        poison()
        return True

    def pointwise_map(self, seq, f):
        pw = self.pointwise(seq)
        if pw is None or not self.pw_probe(pw, seq, f):
            return None
        p = P()
        pw.cur = "mine"
        try:
            mine = f(seqs.seq_at(seq, pw.j))
        finally:
            pw.cur = ""
        others = self.lazy_seq(seq, f, False)

        def at(i):
            if p.decide(fold(num(i) == num(pw.j))):
                return mine
            cur, pw.cur = pw.cur, "other"
            try:
                return pw.other(self, i, others.at(i))
            finally:
                pw.cur = cur

        return SymSeq(seq.n, at)

    def s_While(self, st, fr):
        # a loop whose guard is decided concretely is unrolled
        def guard(k):
            return self.truth(self.ev(st.test, fr))

        def bodyk(k):
            self.ex(st.body, fr)

        if self.sym_loop(st, fr, guard, bodyk, None, is_while=True):
            self.ex(st.orelse, fr)

    def loop_key(self, st):
        return "/".join(x[0] for x in self.stack) + ":%d" % st.lineno

    def sym_loop(self, st, fr, guard, body, n, is_while=False, over=None):
        """True if the loop ends by its guard, False if by break."""
        p = P()
        u = self.unit
        key = self.loop_key(st)
        bound = u.unroll(key, self, fr)
        if bound is not None:
            k = 0
            while guard(k):
                if k >= bound:
                    u.cut = True
                    raise PathDead()
                try:
                    body(k)
                except ContinueSig:
                    pass
                except BreakSig:
                    return False
                k += 1
            return True
        k0 = 0
        peel = u.peel(key, self, fr)
        while k0 < peel:
            if not guard(k0):
                return True
            try:
                body(k0)
            except ContinueSig:
                pass
            except BreakSig:
                return False
            k0 += 1
        tag = p.ghost.get("looptag")
        if tag is not None:
            key = (key, tag)
        pw = p.ghost.get("pw")
        if pw is not None and pw.cur:
            key = (key, pw.cur)
        info = u.loops.get(key)
        if info is None:
            info = u.loops[key] = LoopInfo()
        u.loops_seen.add(key)
        init = {}
        reps = []
        for (uid, field) in list(info.modset):
            o = p.objs.get(uid)
            if o is None:
                continue
            rep = u.rep_of(o, field)
            if rep is not None:
                if rep not in reps:
                    reps.append(rep)
                continue
            init[(uid, field)] = o.f.get(field, "<undef>")
        ctx = LoopCtx(self, key, fr, init)
        ctx.rep_init = {r.uid: r.view(self) for r in reps}
        if over is not None and k0 == 0:
            ctx.over, ctx.body, ctx.entry = over, body, p.snapshot()
            ctx.stack = list(self.stack)
        ctx.reps = reps
        self.check_reps(info, ctx, k0)
        self.note_kinds(info, init, key)
        self.check_cands(info, ctx, k0, "init", init)
        # arbitrary iteration
        k = p.int("k")
        p.assume(k >= k0)
        if n is not None:
            p.assume(z3.Or(k <= num(n), k == k0))
        for (uid, field) in info.modset:
            # what this loop may change, an enclosing loop may change too
            if uid in p.objs:
                p.log.append((p.objs[uid], field))
        self.havoc_reps(info, ctx, k)
        self.havoc(info, ctx, k, init)
        preds = u.loop_preds(ctx, k)
        for nm, t in preds.items():
            if ("pred", nm) not in info.dead:
                p.assume(t() if callable(t) else t)
        for nm, (n_, fact, lo) in u.loop_qpreds(ctx, k).items():
            if ("qpred", nm) not in info.dead:
                p.forall(n_, fact, lo)
        for t in u.loop_assume(ctx, k):
            p.assume(t)
        logmark = len(p.log)
        before = set(p.objs)
        if guard(k):
            try:
                body(k)
            except ContinueSig:
                pass
            except BreakSig:
                return False
            end = {}
            grew = False
            for (o, field) in p.log[logmark:]:
                if o.uid in before:
                    if (o.uid, field) not in info.modset:
                        info.modset[(o.uid, field)] = len(info.modset)
                        u.dirty = grew = True
            if grew:
                # not yet an arbitrary iteration: start over with the larger frame
                raise PathDead()
            for (uid, field) in info.modset:
                o = p.objs.get(uid)
                if o is not None and u.rep_of(o, field) is None:
                    end[(uid, field)] = o.f.get(field, "<undef>")
            self.note_kinds(info, end, key)
            self.check_reps(info, ctx, fold(k + 1))
            self.check_cands(info, ctx, fold(k + 1), "preserve", end)
            u.loop_backedge(ctx, k)
            raise PathDead()
        return True

    def check_reps(self, info, ctx, k):
        p = P()
        for r in ctx.reps:
            if not p.all_cases(lambda: r.valid(self)):
                raise Unsupported("representation invariant of %s at a loop" % r.uid)
            v = r.view(self)
            for nm, th in self.unit.rep_anchors(ctx, k, r).items():
                ck = ("rep", r.uid, nm)
                if ck in info.dead:
                    continue
                a = th()
                if not p.all_cases(lambda: proves_equal(v, a)):
                    info.dead.add(ck)
                    self.unit.dirty = True

    def havoc_reps(self, info, ctx, k):
        for r in ctx.reps:
            alive = [
                th
                for nm, th in self.unit.rep_anchors(ctx, k, r).items()
                if ("rep", r.uid, nm) not in info.dead
            ]
            r.build(self, alive[0]() if alive else r.fresh_view(self))

    def note_kinds(self, info, vals, key):
        for loc, v in vals.items():
            if isinstance(v, LazyHavoc):
                if v.loc == loc and v.info is info:
                    continue
                for kd in v.kinds:
                    if kd not in info.kinds.setdefault(loc, []):
                        info.kinds[loc].append(kd)
                        self.unit.dirty = True
                continue
            kd = "undef" if isinstance(v, str) and v == "<undef>" else kind_of(v)
            if isinstance(kd, tuple) and kd[0] == "host":
                info.hosts[kd] = v
            ks = info.kinds.setdefault(loc, [])
            if kd not in ks:
                ks.append(kd)
                self.unit.dirty = True

    def cand_anchors(self, info, ctx, k, loc, init):
        out = dict(self.unit.loop_anchors(ctx, k, loc))
        iv = init.get(loc)
        iv0 = ctx.init.get(loc)
        if is_int(iv0):
            out["init+k"] = lambda: seqs.add(iv0, k)
            out["init-k"] = lambda: seqs.sub(iv0, k)
        if ctx.over is not None and isinstance(iv0, (list, SymSeq)):
            o = P().objs.get(loc[0])
            if isinstance(o, PyList) and loc[1] == "data" and o.maxlen is None and ("anchor", loc, "map") not in info.dead:
                out["map"] = lambda: self.map_anchor(ctx, o, iv0, k)
        return out

    def map_anchor(self, ctx, o, iv0, k):
        """the list a loop builds by one append per turn: init ++ [value appended
        by the body at turn i, run from the loop-entry state]"""
        def at(i):
            p = P()
            saved = p.swap_in(ctx.entry)
            st, self.stack = self.stack, list(ctx.stack)
            log0 = len(p.log)
            known = set(ctx.entry)
            try:
                o.f = dict(o.f)
                o.f["data"] = []
                try:
                    ctx.body(i)
                except ContinueSig:
                    pass
                except (BreakSig, ReturnSig, PyExc):
                    raise Unsupported("loop is not a map")
                for ob, field in p.log[log0:]:
                    if ob.uid in known and not isinstance(ob, (Frame, PyList)):
                        raise Unsupported("loop is not a map")
                r = o.f["data"]
                if not isinstance(r, list) or len(r) != 1:
                    raise Unsupported("loop is not a map")
                return r[0]
            finally:
                del p.log[log0:]
                self.stack = st
                for u, (ob, ff) in saved.items():
                    ob.f = ff

        return seqs.seq_concat(iv0, SymSeq(k, at))

    def check_cands(self, info, ctx, k, phase, vals):
        p = P()
        u = self.unit
        for loc, v in vals.items():
            for nm, th in self.cand_anchors(info, ctx, k, loc, vals).items():
                ck = ("anchor", loc, nm)
                if ck in info.dead:
                    continue
                a = th()
                ok = (
                    a is not None
                    and not (isinstance(v, str) and v == "<undef>")
                    and v is not POISON
                    and not isinstance(v, LazyHavoc)
                )
                if ok:
                    try:
                        ok = p.all_cases(lambda: proves_equal(v, a))
                    except Unsupported:
                        if nm != "map":
                            raise
                        ok = False
                if not ok:
                    info.dead.add(ck)
                    u.dirty = True
                    if os.environ.get("PYDV_DEBUG") == "2":
                        print("drop anchor", loc, nm, phase, self.stack[-1:])
                    if phase == "preserve" and isinstance(v, SymSeq) and info.defined.get(loc) == nm:
                        # the candidate the iteration started from was wrong; the others are
                        # judged in the next pass, which starts from one of them
                        break
        for nm, (n, fact, lo) in u.loop_qpreds(ctx, k).items():
            ck = ("qpred", nm)
            if ck in info.dead:
                continue
            if not p.forall_holds(n, fact, lo):
                info.dead.add(ck)
                u.dirty = True
                if os.environ.get("PYDV_DEBUG") == "2":
                    print("drop qpred", nm, phase, self.stack[-1:])
        for nm, t in u.loop_preds(ctx, k).items():
            ck = ("pred", nm)
            if ck in info.dead:
                continue
            if not p.all_cases(lambda: p.entails(t() if callable(t) else t)):
                info.dead.add(ck)
                u.dirty = True
                if os.environ.get("PYDV_DEBUG") == "2":
                    print("drop pred", nm, phase, self.stack[-1:])

    def havoc(self, info, ctx, k, init):
        p = P()
        locs = [l for l in info.modset if l in init]
        # ghost locations first, they serve as anchors for the others
        locs.sort(key=lambda l: 0 if getattr(p.objs[l[0]], "ghost", False) else 1)
        late = []
        for loc in locs:
            o = p.objs[loc[0]]
            o.f[loc[1]] = POISON
        for loc in locs:
            o = p.objs[loc[0]]
            alive = []
            for nm, th in self.cand_anchors(info, ctx, k, loc, init).items():
                if ("anchor", loc, nm) in info.dead:
                    continue
                alive.append((nm, th))
            if alive:
                late.append((loc, alive))
                if getattr(o, "ghost", False):
                    self.define(o, loc, alive, info)
                continue
            self.havoc_generic(o, loc, info, init)
        for loc, alive in late:
            o = p.objs[loc[0]]
            if getattr(o, "ghost", False):
                continue
            self.define(o, loc, alive, info)

    def define(self, o, loc, alive, info):
        p = P()
        v = alive[0][1]()
        o.f[loc[1]] = v
        info.defined[loc] = alive[0][0]
        for nm, th in alive[1:]:
            a = th()
            e = eq_term(v, a)
            if e is not None:
                p.assume(e)

    def havoc_generic(self, o, loc, info, init):
        p = P()
        kinds = list(info.kinds.get(loc, []))
        if "real" in kinds and "int" in kinds:
            kinds.remove("int")
        if "obj" in kinds and "none" in kinds:
            kinds.remove("none")
        if hasattr(o, "havoc_field"):
            o.f[loc[1]] = o.havoc_field(loc[1], init[loc])
            return
        custom = self.unit.loop_havoc(self, loc, o, kinds)
        if custom is not NotImplemented:
            o.f[loc[1]] = custom
            return
        if isinstance(o, Frame) and len(kinds) > 1:
            o.f[loc[1]] = LazyHavoc(kinds, loc, info)
            return
        kd = kinds[p.choose(len(kinds))]
        o.f[loc[1]] = POISON
        if kd == "undef":
            o.f.pop(loc[1], None)
        else:
            v = self.havoc_kind(kd, loc, info)
            o.f[loc[1]] = v

    def havoc_kind(self, kd, loc, info):
        p = P()
        nm = "h_" + str(loc[1])
        if kd == "none":
            return None
        if kd == "bool":
            return p.bool(nm)
        if kd == "int":
            return p.int(nm)
        if kd == "real":
            return p.real(nm)
        if kd == "obj":
            return p.obj(nm)
        if isinstance(kd, str) and kd.startswith("str:"):
            return kd[4:]
        if isinstance(kd, str) and kd.startswith("ref:"):
            o = p.objs.get(kd[4:])
            return POISON if o is None else o
        if isinstance(kd, tuple) and kd[0] == "tuple":
            return tuple(self.havoc_kind(x, loc, info) for x in kd[1:])
        if isinstance(kd, tuple) and kd[0] == "host":
            return info.hosts[kd]
        return POISON

    # ---------------------------------------------------------------- iterate
    def iterate(self, v):
        """-> python list | SymSeq | GenVal"""
        if isinstance(v, (list, SymSeq, GenVal)):
            return v
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            d = v.f["data"]
            return list(d) if isinstance(d, list) else d
        if isinstance(v, PyDict):
            return list(v.f["data"].keys())
        if isinstance(v, PySet):
            return list(v.f["data"])
        if isinstance(v, str):
            return list(v)
        if isinstance(v, IterVal):
            s, pos = v.f["seq"], v.f["pos"]
            s = seqs.as_seq(s)
            v.set("pos", s.n)
            return seqs.seq_slice(s, pos, seqs.sub(s.n, pos))
        if isinstance(v, Model):
            m = getattr(v, "iter", None)
            if m is not None:
                return m(self)
        if isinstance(v, PyObj):
            m, c = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(m, [v]))
            m, c = v.cls.lookup("__getitem__")
            if m is not None:
                n = self.length(v)
                return SymSeq(n, lambda i: self.getitem(v, i))
        raise Unsupported("iteration over %r" % (v,))

    def collect(self, g):
        if isinstance(g, GenVal):
            out = []
            g.run(lambda v: out.append(v))
            return out
        if isinstance(g, SymSeq):
            if is_term(g.n) or g.n is None:
                raise Unsupported("collect symbolic")
            return [seqs.seq_at(g, i) for i in range(g.n)]
        return g

    def length(self, v):
        if isinstance(v, (tuple, str, list)):
            return len(v)
        if isinstance(v, SymSeq):
            return v.n
        if isinstance(v, PyList):
            return seqs.seq_len(v.f["data"])
        if isinstance(v, PyDict):
            return len(v.f["data"])
        if isinstance(v, PySet):
            if "n" in v.f:
                return v.f["n"]
            raise Unsupported("len(set)")
        if isinstance(v, PyObj):
            m, c = v.cls.lookup("__len__")
            if m is not None:
                return self.call(BoundMethod(m, v), [])
        if isinstance(v, Model):
            m = getattr(v, "length", None)
            if m is not None:
                return m(self)
        if is_objterm(v):
            return self.unit.obj_len(self, v)
        raise exc("TypeError", "len() of %r" % (v,))

    def truth(self, v):
        return P().decide(self.truth_t(v))

    def truth_t(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_term(v):
            if z3.is_bool(v):
                return v
            if v.sort() == Obj:
                return z3.And(v != NONE, truthy(v))
            return fold(v != 0)
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isinstance(v, (tuple, list)):
            return len(v) > 0
        if isinstance(v, (PyList, PyDict, SymSeq)):
            n = self.length(v)
            return fold(num(n) > 0) if is_term(n) else n > 0
        if isinstance(v, PyObj):
            m, c = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth_t(self.call(BoundMethod(m, v), []))
            m, c = v.cls.lookup("__len__")
            if m is not None:
                n = self.call(BoundMethod(m, v), [])
                return fold(num(n) > 0) if is_term(n) else n > 0
            return True
        if isinstance(v, Model):
            m = getattr(v, "truth", None)
            if m is not None:
                return m(self)
            m = getattr(v, "length", None)
            if m is not None:
                n = m(self)
                return fold(num(n) > 0) if is_term(n) else n > 0
            return True
        if isinstance(v, ExtVal):
            raise Unsupported("truth of external value " + v.name)
        if isinstance(
            v, (FuncVal, BoundMethod, Builtin, ClassVal, Opaque, HeapObj)
        ):
            return True
        raise Unsupported("truth of %r" % (v,))

    # ------------------------------------------------------------ subscripts
    def ev_index(self, node, fr):
        if isinstance(node, ast.Slice):
            return SliceVal(
                None if node.lower is None else self.ev(node.lower, fr),
                None if node.upper is None else self.ev(node.upper, fr),
                None if node.step is None else self.ev(node.step, fr),
            )
        if isinstance(node, ast.Tuple):
            return tuple(self.ev_index(e, fr) for e in node.elts)
        return self.ev(node, fr)

    def norm_index(self, i, n, what="list"):
        """-> non-negative index, raising IndexError paths"""
        p = P()
        if not is_term(i) and not is_term(n):
            j = i + n if i < 0 else i
            if not 0 <= j < n:
                raise exc("IndexError", "%s index out of range" % what)
            return j
        neg = p.decide(fold(num(i) < 0)) if is_term(i) else i < 0
        j = seqs.add(i, n) if neg else i
        lo = fold(num(j) >= 0)
        hi = fold(num(j) < num(n))
        if not p.decide(fold(z3.And(boolt(lo), boolt(hi)))):
            raise exc("IndexError", "%s index out of range" % what)
        return j

    def slice_bounds(self, sl, n):
        """-> lo, length for step 1 (forks)"""
        p = P()
        if sl.step is not None and sl.step != 1:
            raise Unsupported("slice step")

        def clampv(v, default):
            if v is None:
                return default
            if not is_term(v) and not is_term(n):
                if v < 0:
                    v = max(0, v + n)
                return min(v, n)
            if p.decide(fold(num(v) < 0)):
                v = seqs.add(v, n)
                if p.decide(fold(num(v) < 0)):
                    return 0
                return v
            if p.decide(fold(num(v) > num(n))):
                return n
            return v

        lo = clampv(sl.lo, 0)
        hi = clampv(sl.hi, n)
        ln = seqs.sub(hi, lo)
        if p.decide(fold(num(ln) < 0)):
            ln = 0
        return lo, ln

    def getitem(self, o, i):
        p = P()
        if isinstance(o, PyObj):
            m, c = o.cls.lookup("__getitem__")
            if m is None:
                raise exc("TypeError", "not subscriptable")
            return self.call(BoundMethod(m, o), [i])
        if isinstance(o, Model):
            return o.getitem(self, i)
        if isinstance(o, PyDict):
            return self.dict_get(o, i)
        if isinstance(o, (PyList, tuple, SymSeq)):
            d = o.f["data"] if isinstance(o, PyList) else o
            n = seqs.seq_len(d)
            if isinstance(i, SliceVal):
                if isinstance(o, PyList) and o.tag == "deque":
                    raise exc("TypeError", "deque slice")
                if i.step is not None and not is_term(i.step) and i.step == -1:
                    if i.lo is None and i.hi is None:
                        r = seqs.seq_rev(d)
                        return PyList(r, self.alloc_label("slice"))
                if isinstance(d, (list, tuple)) and all(
                    x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)
                ):
                    r = d[i.lo : i.hi : i.step]
                    return r if isinstance(o, tuple) else PyList(
                        list(r), self.alloc_label("slice")
                    )
                lo, ln = self.slice_bounds(i, n)
                return PyList(seqs.seq_slice(d, lo, ln), self.alloc_label("slice"))
            if is_boolv(i) or not is_int(i):
                raise Unsupported("index %r" % (i,))
            j = self.norm_index(i, n)
            return seqs.seq_at(d, j)
        if isinstance(o, str):
            return o[i]
        if is_objterm(o):
            return self.unit.obj_getitem(self, o, i)
        if isinstance(o, (ClassVal, BuiltinClass, ExtVal)):
            return Opaque("generic")
        raise Unsupported("getitem on %r" % (o,))

    def dict_key(self, d, key):
        """find the entry of d equal to key: (found, storedkey)"""
        data = d.f["data"]
        if not is_term(key):
            try:
                if key in data:
                    return True, key
            except TypeError:
                raise Unsupported("dict key %r" % (key,))
            cands = [k for k in data if is_term(k)]
        else:
            cands = list(data)
        for k in cands:
            e = eq_term(k, key)
            if e is None:
                continue
            if P().decide(e):
                return True, k
        return False, key

    def dict_get(self, d, key):
        found, k = self.dict_key(d, key)
        if found:
            return d.f["data"][k]
        if d.default is not None:
            v = self.call(d.default, [])
            self.dict_set(d, key, v)
            return v
        raise PyExc(ExcVal(BuiltinClass("KeyError", KeyError), (key,)))

    def dict_set(self, d, key, v):
        found, k = self.dict_key(d, key)
        nd = dict(d.f["data"])
        nd[k] = v
        d.set("data", nd)

    def setitem(self, o, i, v):
        if isinstance(o, PyObj):
            m, c = o.cls.lookup("__setitem__")
            if m is None:
                raise exc("TypeError", "no item assignment")
            self.call(BoundMethod(m, o), [i, v])
            return
        if isinstance(o, Model):
            o.setitem(self, i, v)
            return
        if isinstance(o, PyDict):
            self.dict_set(o, i, v)
            return
        if isinstance(o, PyList):
            d = o.f["data"]
            n = seqs.seq_len(d)
            if isinstance(i, SliceVal):
                vi = self.iterate(v)
                if i.lo is None and i.hi is None and i.step is None:
                    o.set("data", vi if isinstance(vi, SymSeq) else list(self.collect(vi)))
                    return
                lo, ln = self.slice_bounds(i, n)
                hi = seqs.add(lo, ln)
                r = seqs.seq_concat(
                    seqs.seq_concat(seqs.seq_slice(d, 0, lo), vi),
                    seqs.seq_slice(d, hi, seqs.sub(n, hi)),
                )
                o.set("data", r)
                return
            j = self.norm_index(i, n, "assignment")
            if isinstance(d, list) and not is_term(j):
                nd = list(d)
                nd[j] = v
                o.set("data", nd)
            else:
                o.set("data", seqs.seq_set(d, j, v))
            return
        raise Unsupported("setitem on %r" % (o,))

    def delitem(self, o, i):
        if isinstance(o, PyDict):
            found, k = self.dict_key(o, i)
            if not found:
                raise exc("KeyError", i)
            nd = dict(o.f["data"])
            del nd[k]
            o.set("data", nd)
            return
        if isinstance(o, PyList):
            d = o.f["data"]
            n = seqs.seq_len(d)
            if isinstance(i, SliceVal):
                if i.lo is None and i.hi is None and i.step is None:
                    o.set("data", [])
                    return
                lo, ln = self.slice_bounds(i, n)
                hi = seqs.add(lo, ln)
                o.set(
                    "data",
                    seqs.seq_concat(
                        seqs.seq_slice(d, 0, lo),
                        seqs.seq_slice(d, hi, seqs.sub(n, hi)),
                    ),
                )
                return
            j = self.norm_index(i, n)
            if isinstance(d, list) and not is_term(j):
                nd = list(d)
                del nd[j]
                o.set("data", nd)
            elif not is_term(j) and j == 0:
                o.set("data", seqs.seq_slice(d, 1, seqs.sub(n, 1)))
            else:
                j1 = seqs.add(j, 1)
                o.set(
                    "data",
                    seqs.seq_concat(
                        seqs.seq_slice(d, 0, j),
                        seqs.seq_slice(d, j1, seqs.sub(n, j1)),
                    ),
                )
            return
        if isinstance(o, PyObj):
            m, c = o.cls.lookup("__delitem__")
            if m is not None:
                self.call(BoundMethod(m, o), [i])
                return
        if isinstance(o, Model) and hasattr(o, "delitem"):
            o.delitem(self, i)
            return
        raise Unsupported("delitem")

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.collect(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        if not e.elts:
            return self.unit.new_list(self)
        return PyList(list(self.e_Tuple(e, fr)), self.alloc_label("list"))

    def e_Set(self, e, fr):
        return PySet([self.ev(x, fr) for x in e.elts], self.alloc_label("set"))

    def e_Dict(self, e, fr):
        if not e.keys:
            return self.unit.new_dict(self)
        d = PyDict({}, self.alloc_label("dict"))
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                for kk, vv in src.f["data"].items():
                    self.dict_set(d, kk, vv)
            else:
                kk = self.ev(k, fr)
                self.dict_set(d, kk, self.ev(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            elif isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None:
                parts.append(self.ev(v.value, fr))
            else:
                return Opaque("fstring")
        return Text.of(parts)

    def e_Lambda(self, e, fr):
        f = self.make_func(e, fr.module, fr, fr.fn_name + ".<lambda:%d>" % e.lineno)
        f.cls = getattr(getattr(fr, "func", None), "cls", None)
        return f

    def e_IfExp(self, e, fr):
        if self.truth(self.ev(e.test, fr)):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        is_and = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.ev(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v if not is_term(v) else False if z3.is_bool(v) else v
            if not is_and and t:
                return v if not is_term(v) else True if z3.is_bool(v) else v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_t(v)
            return (not t) if isinstance(t, bool) else fold(z3.Not(t))
        if isinstance(v, Model):
            return v.unary(self, e.op)
        if is_objterm(v):
            return self.unit.obj_unary(self, e.op, v)
        if isinstance(e.op, ast.USub):
            return fold(-num(v)) if is_term(v) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if is_boolv(v) and is_term(v):
                raise Unsupported("~bool")
            return fold(-num(v) - 1) if is_term(v) else ~v
        raise Unsupported("unary")

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        p = P()
        if isinstance(a, Model) and hasattr(a, "binop"):
            r = a.binop(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, Model) and hasattr(b, "binop"):
            r = b.binop(self, op, a, True)
            if r is not NotImplemented:
                return r
        if isinstance(a, PyObj) or isinstance(b, PyObj):
            names = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul"}
            nm = names.get(type(op))
            if nm and isinstance(a, PyObj):
                m, c = a.cls.lookup("__%s__" % nm)
                if m is not None:
                    return self.call(m, [a, b])
            if nm and isinstance(b, PyObj):
                m, c = b.cls.lookup("__r%s__" % nm)
                if m is not None:
                    return self.call(m, [b, a])
            raise Unsupported("binop on object")
        if isinstance(op, ast.Mod) and isinstance(a, str):
            args = list(b) if isinstance(b, tuple) else [b]
            bits = re.split("%[sd]", a)
            if len(bits) == len(args) + 1 and "%" not in "".join(bits):
                return Text.of([x for q in zip(bits, args) for x in q] + [bits[-1]])
            return Opaque("fmt")
        if isinstance(op, ast.Add) and (isinstance(a, Text) or isinstance(b, Text)) and isinstance(a, (str, Text)) and isinstance(b, (str, Text)):
            return Text.of([a, b])
        if isinstance(op, ast.Add):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
                return Opaque("strcat")
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PyList) and isinstance(b, PyList):
                da, db = a.f["data"], b.f["data"]
                if isinstance(da, list) and isinstance(db, list):
                    return PyList(da + db, self.alloc_label("list"))
                return PyList(seqs.seq_concat(da, db), self.alloc_label("list"))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, PyList) and is_int(y):
                    d = x.f["data"]
                    if isinstance(d, list) and not is_term(y):
                        return PyList(d * y, self.alloc_label("list"))
                    if isinstance(d, list) and len(d) == 1:
                        yy = y if p.decide(fold(num(y) >= 0)) else 0
                        return PyList(
                            seqs.seq_const(yy, d[0]), self.alloc_label("list")
                        )
                    raise Unsupported("list repetition")
                if isinstance(x, tuple) and isinstance(y, int):
                    return x * y
        if isinstance(op, ast.BitAnd) or isinstance(op, ast.BitOr):
            if is_boolv(a) and is_boolv(b):
                if isinstance(a, bool) and isinstance(b, bool):
                    return (a and b) if isinstance(op, ast.BitAnd) else (a or b)
                f = z3.And if isinstance(op, ast.BitAnd) else z3.Or
                return fold(f(boolt(a), boolt(b)))
            if isinstance(a, int) and isinstance(b, int):
                return a & b if isinstance(op, ast.BitAnd) else a | b
        if is_objterm(a) or is_objterm(b):
            return self.unit.obj_binop(self, op, a, b)
        if not ((is_num(a) or is_boolv(a)) and (is_num(b) or is_boolv(b))):
            raise Unsupported("binop %s on %r, %r" % (type(op).__name__, a, b))
        if not is_term(a) and not is_term(b):
            try:
                return self.const_binop(op, a, b)
            except ZeroDivisionError:
                raise exc("ZeroDivisionError")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and math.isinf(x):
                raise Unsupported("arithmetic with inf")
        if isinstance(op, ast.Add):
            return fold(num(a) + num(b))
        if isinstance(op, ast.Sub):
            return fold(num(a) - num(b))
        if isinstance(op, ast.Mult):
            return fold(num(a) * num(b))
        if isinstance(op, ast.Div):
            if p.decide(fold(num(b) == 0)):
                raise exc("ZeroDivisionError")
            return fold(real(a) / real(b))
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if p.decide(fold(num(b) == 0)):
                raise exc("ZeroDivisionError")
            if not (is_int(a) or is_boolv(a)) or not (is_int(b) or is_boolv(b)):
                raise Unsupported("real floor division")
            na, nb = num(a), num(b)
            if p.decide(fold(nb > 0)):
                return fold(na / nb) if isinstance(op, ast.FloorDiv) else self.unit.mod(self, na, nb)
            raise Unsupported("division by a negative number")
        if isinstance(op, ast.Pow):
            return self.unit.power(self, a, b)
        raise Unsupported("binop " + type(op).__name__)

    def const_binop(self, op, a, b):
        t = type(op)
        import operator

        table = {
            ast.Add: operator.add,
            ast.Sub: operator.sub,
            ast.Mult: operator.mul,
            ast.FloorDiv: operator.floordiv,
            ast.Mod: operator.mod,
            ast.Pow: operator.pow,
            ast.BitXor: operator.xor,
            ast.LShift: operator.lshift,
            ast.RShift: operator.rshift,
        }
        if t is ast.Div:
            if b == 0:
                raise ZeroDivisionError()
            return a / b
        return table[t](a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            if isinstance(res, Model) and not self.truth(res):
                return res
            r = self.compare(op, left, right)
            left = right
            if res is None or isinstance(res, Model) or isinstance(r, Model):
                if res is not None and not isinstance(res, Model) and not self.truth(res):
                    return res
                res = r
            else:
                if isinstance(res, bool) and isinstance(r, bool):
                    res = res and r
                else:
                    res = fold(z3.And(boolt(res), boolt(r)))
            if isinstance(res, bool) and not res:
                return False
        return res

    def neg(self, t):
        return (not t) if isinstance(t, bool) else fold(z3.Not(t))

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return r if isinstance(op, ast.Is) else self.neg(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else self.neg(r)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, Model) and hasattr(x, "compare"):
                r = x.compare(self, op, y, sw)
                if r is not NotImplemented:
                    return r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            return r if isinstance(op, ast.Eq) else self.neg(r)
        if a is None or b is None:
            raise exc("TypeError", "ordering with None")
        if isinstance(a, str) and isinstance(b, str):
            pass
        elif not ((is_num(a) or is_boolv(a)) and (is_num(b) or is_boolv(b))):
            if is_objterm(a) or is_objterm(b):
                return self.unit.obj_compare(self, op, a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                raise Unsupported("tuple ordering")
            raise Unsupported("ordering of %r and %r" % (a, b))
        if not is_term(a) and not is_term(b):
            return {
                ast.Lt: a < b,
                ast.LtE: a <= b,
                ast.Gt: a > b,
                ast.GtE: a >= b,
            }[type(op)]
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, float) and math.isinf(x):
                # finite term against infinity
                big = x > 0
                less = (not big) if not sw else big  # is a < b
                if isinstance(op, (ast.Lt, ast.LtE)):
                    return less
                return not less
        a, b = num(a), num(b)
        return fold(
            {
                ast.Lt: a < b,
                ast.LtE: a <= b,
                ast.Gt: a > b,
                ast.GtE: a >= b,
            }[type(op)]
        )

    def identical(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if is_objterm(o):
                return fold(o == NONE)
            if o is POISON:
                raise Unsupported("poison")
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(y, bool):
                return x == y
            if is_boolv(y):
                return fold(boolt(x) == y)
            if is_objterm(y):
                return self.unit.obj_is_bool(self, y, x)
            return False
        if isinstance(a, HeapObj) or isinstance(b, HeapObj):
            return a is b
        if is_objterm(a) and is_objterm(b):
            return fold(a == b)
        if isinstance(a, (Opaque, ClassVal, FuncVal, ExtVal)) or isinstance(
            b, (Opaque, ClassVal, FuncVal, ExtVal)
        ):
            if isinstance(a, ExtVal) and isinstance(b, ExtVal):
                return a.name == b.name
            return a is b
        if isinstance(a, BuiltinClass) and isinstance(b, BuiltinClass):
            return a.name == b.name
        e = eq_term(a, b)
        if e is not None:
            return e
        return a is b

    def equal(self, a, b):
        if isinstance(a, PyObj):
            m, c = a.cls.lookup("__eq__")
            if m is not None:
                return self.call(m, [a, b])
        e = eq_term(a, b)
        if e is not None:
            return e
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.equal(x, y) for x, y in zip(a, b)]
            if all(isinstance(r, bool) for r in rs):
                return all(rs)
            return fold(z3.And(*[boolt(r) for r in rs]))
        if isinstance(a, (PyList, SymSeq)) and isinstance(b, (PyList, SymSeq)):
            da = a.f["data"] if isinstance(a, PyList) else a
            db = b.f["data"] if isinstance(b, PyList) else b
            if isinstance(da, list) and isinstance(db, list):
                return self.equal(tuple(da), tuple(db))
            raise Unsupported("comparison of symbolic lists")
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, Opaque) or isinstance(b, Opaque) or is_objterm(
                a
            ) or is_objterm(b):
                raise Unsupported("string comparison")
            return False
        if isinstance(a, (HeapObj, Opaque)) or isinstance(b, (HeapObj, Opaque)):
            return a is b
        if isinstance(a, ExtVal) and isinstance(b, ExtVal):
            return a.name == b.name
        raise Unsupported("comparison of %r and %r" % (a, b))

    def contains(self, c, x):
        if isinstance(c, PyObj):
            m, _ = c.cls.lookup("__contains__")
            if m is not None:
                return self.truth_t(self.call(m, [c, x]))
        if isinstance(c, Model) and hasattr(c, "contains"):
            return c.contains(self, x)
        if isinstance(c, PyDict):
            return self.dict_key(c, x)[0]
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, PySet) and "mem" in c.f:
            return c.f["mem"](x)
        it = self.iterate(c)
        if isinstance(it, SymSeq):
            return self.seq_contains(it, x)
        for y in self.collect(it):
            r = self.equal(y, x) if not (y is None or x is None) else self.identical(
                y, x
            )
            if P().decide(r):
                return True
        return False

    def seq_contains(self, s, x):
        """x in s: either a witness index, or none (fact instantiated lazily)"""
        p = P()
        b = p.bool("contains")
        if p.decide(b):
            w = p.int("w")
            p.assume(z3.And(w >= 0, w < num(s.n)))
            e = eq_term(s.at(w), x)
            if e is None:
                raise Unsupported("contains")
            p.assume(e)
            return True

        def fact(i):
            e = eq_term(s.at(i), x)
            if e is None:
                raise Unsupported("contains")
            return z3.Not(boolt(e))

        p.forall(s.n, fact)
        return False

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = fr.func.cls
            return SuperVal(cls, fr.args_[0])
        if isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) == 2:
            cls = self.ev(e.args[0], fr)
            if isinstance(cls, ClassVal):
                return SuperVal(cls, self.ev(e.args[1], fr))
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value, fr))
                if isinstance(it, SymSeq) and is_term(it.n) and len(e.args) == 1 and isinstance(f, Builtin) and f.name == "zip":
                    return self.transpose(it)
                args += self.collect(it)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, Model) and hasattr(d, "as_kwargs"):
                    kw.update(d.as_kwargs())
                else:
                    for kk, vv in d.f["data"].items():
                        if kk in kw:
                            raise exc("TypeError", "duplicate keyword")
                        kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if self.stack:
            self.stack[-1] = (self.stack[-1][0], e.lineno)
        return self.call(f, args, kw, e)

    def transpose(self, s):
        """zip(*s) of a sequence of equally long tuples"""
        p = P()
        if not p.decide(fold(num(s.n) >= 1)):
            return []
        pw = p.ghost.get("pw")
        i = pw.j if pw is not None and p.entails(fold(num(s.n) == num(pw.n))) else self.fresh_ix(s.n)
        t = seqs.seq_at(s, i)
        if not isinstance(t, tuple):
            raise Unsupported("zip(*) of %r" % (t,))
        w = len(t)

        def col(c):
            def at(i):
                x = seqs.seq_at(s, i)
                if not isinstance(x, tuple) or len(x) != w:
                    raise Unsupported("zip(*) of ragged sequences")
                return x[c]

            return SymSeq(s.n, at)

        return [col(c) for c in range(w)]

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.ev(e.value, fr)
        return fr.hook(v)

    def e_YieldFrom(self, e, fr):
        it = self.iterate(self.ev(e.value, fr))
        if isinstance(it, GenVal):
            it.run(fr.hook)
            return None
        for x in self.collect(it):
            fr.hook(x)
        return None

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    # -- comprehensions ---------------------------------------------------------
    def e_ListComp(self, e, fr):
        r = self.comp(e.elt, e.generators, fr)
        if isinstance(r, list):
            return PyList(r, self.alloc_label("listcomp"))
        return PyList(r, self.alloc_label("listcomp"))

    def e_GeneratorExp(self, e, fr):
        # evaluated at once; the repository consumes each generator at once too
        r = self.comp(e.elt, e.generators, fr)
        return r

    def e_SetComp(self, e, fr):
        r = self.comp(e.elt, e.generators, fr)
        if isinstance(r, SymSeq):
            raise Unsupported("set comprehension")
        return PySet(r, self.alloc_label("set"))

    def e_DictComp(self, e, fr):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        r = self.comp(pair, e.generators, fr)
        if isinstance(r, SymSeq):
            return self.unit.dict_from_seq(self, r)
        d = PyDict({}, self.alloc_label("dict"))
        for k, v in r:
            self.dict_set(d, k, v)
        return d

    def comp(self, elt, gens, fr):
        cf = Frame(fr.fn_name, fr.module, fr)
        cf.func = getattr(fr, "func", None)
        cf.args_ = getattr(fr, "args_", None)
        if len(gens) == 1 and not gens[0].ifs:
            it = self.iterate(self.ev(gens[0].iter, fr))
            if isinstance(it, SymSeq) and is_term(it.n):
                r = self.pointwise_map(it, lambda x: (self.assign(gens[0].target, x, cf), self.ev(elt, cf))[1])
                return r if r is not None else self.lazy_map(it, elt, gens[0].target, cf)
            out = []
            for x in self.collect(it):
                self.assign(gens[0].target, x, cf)
                out.append(self.ev(elt, cf))
            return out
        out = []

        def rec(i):
            if i == len(gens):
                out.append(self.ev(elt, cf))
                return
            g = gens[i]
            it = self.iterate(self.ev(g.iter, cf if i else fr))
            if isinstance(it, SymSeq) and is_term(it.n):
                if i == 0 and len(gens) == 1:
                    raise FilteredComp(it)
                raise Unsupported("nested comprehension over symbolic sequence")
            for x in self.collect(it):
                self.assign(g.target, x, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    rec(i + 1)

        try:
            rec(0)
        except FilteredComp as f:
            return self.filter_map(f.seq, elt, gens[0], cf)
        return out

    def filter_map(self, seq, elt, g, cf):
        """[elt for target in seq if guard]: the increasing enumeration pos of
        the indices where the guard holds, and its inverse rank"""
        p = P()

        def guard(x):
            self.assign(g.target, x, cf)
            return all(self.truth(self.ev(c, cf)) for c in g.ifs)

        if p.unit.mode == "bmc":
            out = []
            for i in range(p.expand(seq.n)):
                x = seqs.seq_at(seq, i)
                if guard(x):
                    self.assign(g.target, x, cf)
                    out.append(self.ev(elt, cf))
            return out
        p.unit.loops_seen.add("fold")
        gs = self.lazy_seq(seq, guard)

        def gt(i):
            return p.bool_term(lambda: gs.at(i))

        cnt = p.int("cnt")
        pos = p.fn("pos", z3.IntSort(), z3.IntSort())
        rank = p.fn("rank", z3.IntSort(), z3.IntSort())
        p.assume(z3.And(cnt >= 0, cnt <= num(seq.n)))

        def at_pos(j):
            i = pos(j)
            return z3.And(
                i >= 0, i < num(seq.n), gt(i), rank(i) == j,
                z3.Implies(j + 1 < cnt, i < pos(j + 1)),
                z3.Implies(j > 0, pos(j - 1) < i),
            )

        def at_idx(i):
            r = rank(i)
            p.instantiate(r)
            return gt(i) == z3.And(r >= 0, r < cnt, pos(r) == i)

        at_pos.tag = at_idx.tag = "filter"
        p.forall(cnt, at_pos)
        p.forall(seq.n, at_idx)
        p.instantiate(z3.IntVal(0))

        def sel(j):
            p.instantiate(j)
            return seqs.seq_at(seq, pos(num(j)))

        r = self.lazy_map(SymSeq(cnt, sel), elt, g.target, cf)
        r.filter_of = (seq, pos, rank, gt)
        return r

    def lazy_map(self, seq, elt, target, cf):
        """[elt for target in seq] as a closure evaluated in the present heap."""
        return self.lazy_seq(
            seq, lambda x: (self.assign(target, x, cf), self.ev(elt, cf))[1]
        )

    def lazy_seq(self, seq, f, probe=True):
        p = P()
        stack = list(self.stack)
        snap = p.snapshot()
        memo = {}

        def eval_at(i, strict):
            key = (i if not is_term(i) else z3.simplify(i).get_id())
            saved = p.swap_in(snap)
            st = self.stack
            self.stack = list(stack)
            log0 = len(p.log)
            known = set(snap)
            try:
                v = f(seqs.seq_at(seq, i))
                for o, field in p.log[log0:]:
                    if o.uid in known and not isinstance(o, Frame):
                        if not getattr(o, "ghost_ok", False):
                            raise Unsupported("side effect in a comprehension")
            finally:
                self.stack = st
                for u, (o, ff) in saved.items():
                    o.f = ff
            return v

        # does the element expression raise for some index?
        if probe and self.unit.probe_comprehensions and p.lazy_depth == 0:
            if self.may_raise(lambda: eval_at(self.fresh_ix(seq.n), True)):
                b = p.bool("comp_raises")
                if p.decide(b):
                    i = self.fresh_ix(seq.n)
                    eval_at(i, True)
                    raise PathDead()

        def at(i):
            p.lazy_depth += 1
            try:
                return eval_at(i, False)
            except PyExc:
                raise PathDead()
            finally:
                p.lazy_depth -= 1

        return SymSeq(seq.n, at)

    def may_raise(self, fn):
        p = P()
        flag = []

        def body():
            try:
                fn()
            except PyExc:
                flag.append(1)
            return True

        p.all_cases(body)
        return bool(flag)

    def fresh_ix(self, n):
        p = P()
        i = p.int("cx")
        p.assume(i >= 0)
        if n is not None:
            p.assume(i < num(n))
        p.alive()
        return i


class FilteredComp(Exception):
    def __init__(self, seq):
        self.seq = seq


class LoopCtx:
    def __init__(self, ip, key, fr, init):
        self.ip = ip
        self.key = key
        self.fr = fr
        self.init = init
        self.over = None

    def func(self):
        return self.ip.stack[-1][0]
