"""Abstract interpreter: from Python syntax trees to guarded value graphs.

Statements transform an abstract state (environment, abstract heap, path
guard).  At every join of the control flow the states are *merged* (guarded
unions), paths are not enumerated.  Heap objects have an identity and an
origin, so aliasing and mutation of what the caller owns are visible.  Values
of inputs are symbols; operations on them build terms (terms.py).  Nothing of
the analysed package is imported or executed.
"""
import ast
import builtins
import string as _string
import os
import time
import warnings
import collections
from collections import namedtuple

import numpy as np

from . import cells
from . import dtypes
from . import terms as tm
from .terms import AND, B, FALSE, NOT, OR, SCALARS, T, TRUE, const, mk

SRC_DEFAULT = "/repo/src"


class AnalysisBroken(Exception):
    """An anchor (module, public function) vanished or source does not parse."""


class Unsupported(Exception):
    pass

class Tup:
    __slots__ = ("items", "names")

    def __init__(self, items, names=None):
        self.items = tuple(items)
        self.names = names  # of the fields of a named tuple (its class, names)

    def __repr__(self):
        return f"Tup{self.items!r}"


class Ref:
    __slots__ = ("addr", "path")

    def __init__(self, addr, path=()):
        self.addr, self.path = addr, path

    def __repr__(self):
        return f"Ref({self.addr}{self.path or ''})"


class Fun:
    def __init__(self, node, module, qual, closure=None, cls=None):
        self.node, self.module, self.qual, self.closure, self.cls = node, module, qual, closure, cls
        self.defaults = {}
        self.kind = None  # staticmethod / classmethod / property
        self.setter = None

    def __repr__(self):
        return f"Fun({self.qual})"


def is_exception(b):
    """External base that is an exception of the language."""
    o = getattr(builtins, b.name[9:], None) if b.name.startswith("builtins.") else None
    return isinstance(o, type) and issubclass(o, BaseException)


class BoundM:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Cls:
    def __init__(self, name, module, bases, node):
        self.name, self.module, self.bases, self.node = name, module, bases, node
        self.attrs = {}
        self.tainted = set()  # attributes which functions set: their values are not known
        self.frozen = False
        self.dataclass_fields = None

    @property
    def qual(self):
        return f"{self.module.name}.{self.name}"

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
            else:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and name in c.attrs:
                return c.attrs[name]
        return None

    def __repr__(self):
        return f"Cls({self.qual})"


class Mod:
    def __init__(self, name, tree, path, is_pkg):
        self.name, self.tree, self.path, self.is_pkg = name, tree, path, is_pkg
        self.env, self.state = {}, "new"
        self.tainted = set()  # names which functions rebind

    def __repr__(self):
        return f"Mod({self.name})"


class Ext:
    __slots__ = ("name",)
    _pool = {}

    def __new__(cls, name):
        o = cls._pool.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._pool[name] = o
        return o

    def __repr__(self):
        return f"Ext({self.name})"


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class U:
    """Guarded union of values (or of heap contents)."""

    __slots__ = ("cases",)

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return "U{" + "; ".join(f"{tm.show_guard(g)}: {v!r}" for g, v in self.cases) + "}"


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()

Obj = namedtuple("Obj", "kind content origin cls")
RaiseRec = namedtuple("RaiseRec", "pc cls value loc heap envs stack")
Exit = namedtuple("Exit", "pc value loc heap")
Event = namedtuple("Event", "kind pc loc data stack")


def leaf_key(v):
    if v is None or isinstance(v, SCALARS):
        return ("s", type(v).__name__, repr(v) if isinstance(v, float) else v)
    if isinstance(v, T):
        return ("t", v.id)
    if isinstance(v, Tup):
        return ("tup",) + tuple(leaf_key(x) for x in v.items)
    if isinstance(v, Ref):
        return ("ref", v.addr, v.path)
    if isinstance(v, tuple):
        return ("c",) + tuple(leaf_key(x) for x in v)
    if isinstance(v, U):
        return ("u",) + tuple((g, leaf_key(x)) for g, x in v.cases)
    if isinstance(v, BoundM):
        return ("bm", leaf_key(v.fn), leaf_key(v.self_))
    return ("id", id(v))


def mk_union(pairs):
    flat = []
    for g, v in pairs:
        if g == 0:
            continue
        if isinstance(v, U):
            for h, w in v.cases:
                gh = AND(g, h)
                if gh:
                    flat.append((gh, w))
        else:
            flat.append((g, v))
    if not flat:
        return UNBOUND
    groups = {}
    for g, v in flat:
        k = leaf_key(v)
        if k in groups:
            groups[k] = (OR(groups[k][0], g), v)
        else:
            groups[k] = (g, v)
    cases = list(groups.values())
    if len(cases) == 1:
        return cases[0][1]
    if all(isinstance(v, Tup) for _, v in cases) and len({len(v.items) for _, v in cases}) == 1:
        n = len(cases[0][1].items)
        names = cases[0][1].names
        return Tup([mk_union([(g, v.items[i]) for g, v in cases]) for i in range(n)], names if all(v.names is names for _, v in cases) else None)
    return U(cases)


def cases_of(v, pc=TRUE):
    if isinstance(v, U):
        return [(g, w) for g, w in v.cases if AND(pc, g)]
    return [(TRUE, v)]


def simp(v, pc):
    """Drop the cases which are impossible under pc."""
    if isinstance(v, U):
        cs = [(B.restrict(g, pc), w) for g, w in v.cases if AND(pc, g)]
        if len(cs) == 1:
            return cs[0][1]
        if cs:
            return U(cs)
    return v


class State:
    __slots__ = ("heap", "envs", "pc")

    def __init__(self, heap=None, envs=None, pc=TRUE):
        self.heap = heap if heap is not None else {}
        self.envs = envs if envs is not None else [{}]
        self.pc = pc

    @property
    def env(self):
        return self.envs[-1]

    def fork(self, g=TRUE):
        return State(dict(self.heap), self.envs[:-1] + [dict(self.envs[-1])], AND(self.pc, g))

    def become(self, o):
        self.heap, self.envs, self.pc = o.heap, o.envs, o.pc


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Ref):
        return a.addr == b.addr and a.path == b.path
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    return isinstance(a, SCALARS) and a == b


def same_state(p, q):
    """Whether nothing changed between two passes of a loop (new objects count as a change)."""
    if p[2] != q[2] or len(p[1]) != len(q[1]) or p[0].keys() != q[0].keys():
        return False
    for k, o in p[0].items():
        w = q[0][k]
        if o is not w and not (o.kind == w.kind and same_value(o.content, w.content)):
            return False
    return all(e.keys() == f.keys() and all(same_value(v, f[k]) for k, v in e.items()) for e, f in zip(p[1], q[1]))


def merge_contents(kind, pairs):
    """pairs: [(guard, content)] -> content"""
    keys = {leaf_key(c) for _, c in pairs}
    if len(keys) == 1:
        return pairs[0][1]
    cs = [c for _, c in pairs]
    if all(type(c) is tuple for c in cs):
        if kind in ("list", "set") and len({len(c) for c in cs}) == 1:
            return tuple(mk_union([(g, c[i]) for g, c in pairs]) for i in range(len(cs[0])))
        if kind in ("dict", "inst"):
            ks = [tuple(k for k, _ in c) for c in cs]
            if all(leaf_key(k) == leaf_key(ks[0]) for k in ks):
                return tuple((cs[0][i][0], mk_union([(g, c[i][1]) for g, c in pairs])) for i in range(len(cs[0])))
            if kind == "inst":
                names = []
                for k in ks:
                    names += [x for x in k if x not in names]
                return tuple((n, mk_union([(g, dict(c).get(n, UNBOUND)) for g, c in pairs])) for n in names)
    return mk_union(pairs)


class Interp:
    def __init__(self, src=SRC_DEFAULT, package="wulfric", stubs=None, skip_tests=True):
        self.src, self.package = src, package
        self.pyfloat = False  # symbols of numbers are numbers of Python, not of numpy
        self.case_guard = TRUE  # guard of the case which is being computed
        self.set_reverse = False  # sets of strings and objects are iterated backwards
        self.modules = {}
        self.base_heap = {}
        self.next_addr = 1
        self.stubs = dict(stubs or {})
        self.ext_stubs = {}
        self.events = []
        self.sinks = [[]]
        self.loopstack = []
        self.named_tuples = False
        self.has_dunders = False  # a class of the package defines an operator
        self.frames = []
        self.loc = ("<top>", "<top>", 0)
        self.stack = []
        self.mayraise = []
        self.trydepth = 0
        self.unavailable_ok = True
        self.functions_seen = set()
        self.calls_resolved = 0
        self.calls_external = 0
        self.while_hook = None
        self.missing = set()
        self.load_raises = []
        self.for_hook = None
        self.max_unroll = 4000
        self.while_limit = 2
        self.unsup = []
        self.assume_available = False
        self.fuel = 3_000_000
        self._load_sources()

    # ------------------------------------------------------------------ sources
    def _load_sources(self):
        root = os.path.join(self.src, self.package)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"no package at {root}")
        for d, _, files in sorted(os.walk(root)):
            if "__pycache__" in d or os.path.basename(d) == "_tests" or "/_tests/" in d + "/":
                continue
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.src)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[: -len(".__init__")] if is_pkg else rel
                try:
                    with open(p, encoding="utf-8") as fh, warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(fh.read(), p)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{p}: {e}")
                self.modules[name] = Mod(name, tree, os.path.relpath(p, os.path.dirname(self.src)), is_pkg)

    def load(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken(f"module {name} not found")
        if m.state != "new":
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if m.state != "new":
                return m
        m.state = "loading"
        st = State(self.base_heap, [m.env], TRUE)
        save = (self.loc, self.frames, self.loopstack, self.sinks, self.stack)
        self.frames, self.loopstack, self.stack = [], [], [name]
        self.sinks = [[]]
        m.env.update({"__name__": name, "__file__": m.path})
        self.curmod_push(m)
        cells.rewrite(m.tree)
        for s in m.tree.body:
            try:
                self.exec_stmt(s, st)
            except Unsupported as e:
                self.unsup.append((m.name, s.lineno, str(e)))
            self._sync(m, st)
        self.curmod_pop()
        self.base_heap = st.heap
        self.load_raises += [(name, x) for x in self.sinks[-1]]
        self.loc, self.frames, self.loopstack, self.sinks, self.stack = save
        m.state = "done"
        return m

    def _sync(self, m, st):
        if st.envs[-1] is not m.env:
            m.env.clear()
            m.env.update(st.envs[-1])
            st.envs[-1] = m.env
        if st.heap is not self.base_heap:
            self.base_heap.update(st.heap)
            st.heap = self.base_heap

    def curmod_push(self, m):
        self._modstack = getattr(self, "_modstack", [])
        self._modstack.append(m)

    def curmod_pop(self):
        self._modstack.pop()

    @property
    def mod(self):
        return self._modstack[-1]

    def stub_public(self, dotted, fn):
        """Replace the body of a public function by a summary fn(interp, state, args, kwargs)."""
        f = self.public(dotted)
        self.stubs[f.qual] = fn
        return f

    def public(self, dotted):
        """Resolve a public dotted name such as 'wulfric.crystal.get_primitive'."""
        parts = dotted.split(".")
        m = self.load(parts[0])
        v = m
        for p in parts[1:]:
            v2 = None
            if isinstance(v, Mod):
                if p in v.env:
                    v2 = v.env[p]
                elif f"{v.name}.{p}" in self.modules:
                    v2 = self.load(f"{v.name}.{p}")
            elif isinstance(v, Cls):
                v2 = v.lookup(p)
            if v2 is None:
                raise AnalysisBroken(f"public name {dotted} not found (at {p})")
            v = v2
        return v

    # ------------------------------------------------------------------ heap
    def alloc(self, st, kind, content, origin="fresh", cls=None):
        a = self.next_addr
        self.next_addr += 1
        st.heap[a] = Obj(kind, content, origin, cls)
        return Ref(a)

    def obj(self, st, ref):
        o = st.heap.get(ref.addr)
        if o is None:
            o = self.base_heap.get(ref.addr)
        return o

    def new_list(self, st, items, origin="fresh"):
        return self.alloc(st, "list", tuple(items), origin)

    def new_dict(self, st, pairs, origin="fresh", cls=None):
        return self.alloc(st, "dict", tuple(pairs), origin, cls)

    def new_array(self, st, t, origin="fresh"):
        return self.alloc(st, "array", t, origin)

    def content(self, st, ref):
        """Content of the object (path applied), simplified under the path guard."""
        o = self.obj(st, ref)
        c = simp(o.content, st.pc)
        if not ref.path:
            return c
        return self.lift(st, c, lambda x: self._walk(st, x, ref.path))

    def _walk(self, st, x, path):
        for p in path:
            x = x if isinstance(x, T) else self.as_T(st, Tup(x) if isinstance(x, tuple) else x)
            if p == ("T",):
                x = tm.transpose(x)
            elif p[:1] == ("view",):
                x = view_of(x, p)
            else:
                x = tm.getitem(x, p)
        return x

    def lift(self, st, v, fn):
        if isinstance(v, U):
            return mk_union([(g, self.in_case(g, fn, w)) for g, w in cases_of(v, st.pc)])
        return fn(v)

    def in_case(self, g, fn, *args):
        """fn(*args) where errors are raised only under the guard g."""
        old, self.case_guard = self.case_guard, AND(self.case_guard, g)
        try:
            return fn(*args)
        finally:
            self.case_guard = old

    def lift2(self, st, a, b, fn):
        ca, cb = cases_of(a, st.pc), cases_of(b, st.pc)
        if len(ca) * len(cb) > 96:
            return fn(self.as_T(st, a), self.as_T(st, b))
        out = []
        for g, x in ca:
            for h, y in cb:
                gh = AND(g, h)
                if AND(gh, st.pc):
                    out.append((gh, self.in_case(gh, fn, x, y)))
        return mk_union(out)

    def set_content(self, st, ref, content, how="write", data=None):
        o = self.obj(st, ref)
        if o.origin != "fresh" or ref.addr not in st.heap:
            self.event("mutate", st, (o.origin, how, data, ref.addr))
        st.heap[ref.addr] = o._replace(content=content)

    # ------------------------------------------------------------------ snapshots
    def as_T(self, st, v, depth=0):
        if isinstance(v, T):
            return v
        if v is None or isinstance(v, SCALARS):
            return const(v)
        if depth > 30:
            return mk("deep")
        if isinstance(v, U):
            cs = cases_of(v, st.pc)
            r = self.as_T(st, cs[-1][1], depth + 1)
            for g, w in reversed(cs[:-1]):
                r = mk("ite", g, self.as_T(st, w, depth + 1), r)
            return r
        if isinstance(v, Tup):
            return mk("tuple", *[self.as_T(st, x, depth + 1) for x in v.items])
        if isinstance(v, tuple):
            return mk("list", *[self.as_T(st, x, depth + 1) for x in v])
        if isinstance(v, Ref):
            o = self.obj(st, v)
            c = self.content(st, v)
            return self._content_T(st, o, c, depth)
        if isinstance(v, SliceV):
            return mk("slice", *[self.as_T(st, x, depth + 1) for x in (v.a, v.b, v.c)])
        if isinstance(v, Fun):
            return mk("fn", v.qual)
        if isinstance(v, Cls):
            return mk("fn", v.qual)
        if isinstance(v, Ext):
            return mk("fn", v.name)
        if isinstance(v, BoundM):
            return mk("bound", self.as_T(st, v.fn, depth + 1), self.as_T(st, v.self_, depth + 1))
        if isinstance(v, Mod):
            return mk("fn", v.name)
        return mk("opaque", repr(v))

    def _content_T(self, st, o, c, depth):
        if isinstance(c, U):
            cs = cases_of(c, st.pc)
            r = self._content_T(st, o, cs[-1][1], depth)
            for g, w in reversed(cs[:-1]):
                r = mk("ite", g, self._content_T(st, o, w, depth), r)
            return r
        if isinstance(c, T):
            return c
        if o.kind == "list":
            return mk("list", *[self.as_T(st, x, depth + 1) for x in c])
        if o.kind == "set":
            return mk("set", *[self.as_T(st, x, depth + 1) for x in c])
        if o.kind == "dict":
            return mk("dict", *[(self.as_T(st, k, depth + 1), self.as_T(st, x, depth + 1)) for k, x in c])
        if o.kind == "inst":
            return mk("inst", o.cls.qual if isinstance(o.cls, Cls) else str(o.cls), *[(k, self.as_T(st, x, depth + 1)) for k, x in c if x is not UNBOUND])
        return mk("opaque", o.kind)

    def from_T(self, st, t, origin="fresh"):
        """Value of a term: allocate a heap object when it is array/list-like."""
        if not isinstance(t, T):
            return t
        if t.op == "k":
            return t.args[1]
        if t.op == "sym" and isinstance(t.args[1], tuple) and t.args[1][0] == "list":
            return self.alloc(st, "list", t, origin)
        s = tm.shape(t)
        if s is not None and s != ():
            return self.new_array(st, t, origin)
        if t.op == "tuple":
            return Tup([self.from_T(st, x) for x in t.args])
        return t

    # ------------------------------------------------------------------ events, raising
    def event(self, kind, st, data):
        self.events.append(Event(kind, st.pc, self.loc, data, tuple(self.stack)))

    def raise_(self, st, cls, value=None, guard=TRUE):
        guard = AND(guard, self.case_guard)
        pc = AND(st.pc, guard)
        if pc == 0:
            return
        self.sinks[-1].append(
            RaiseRec(pc, cls, value, self.loc, dict(st.heap), st.envs[:-1] + [dict(st.envs[-1])], tuple(self.stack))
        )
        st.pc = AND(st.pc, NOT(guard))

    def raise_builtin(self, st, name, msg="", guard=TRUE):
        self.raise_(st, Ext("builtins." + name), msg, guard)

    # ------------------------------------------------------------------ truth
    def truth(self, st, v):
        """BDD of the truth value."""
        if isinstance(v, U):
            r = 0
            for g, w in cases_of(v, st.pc):
                r = OR(r, AND(g, self.truth(st, w)))
            return r
        if v is None or isinstance(v, SCALARS):
            return TRUE if v else FALSE
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, (Fun, Cls, Ext, Mod, BoundM)):
            return TRUE
        if isinstance(v, Ref):
            for n in ("__bool__", "__len__"):
                f = self.inst_method(st, v, n)
                if f is not None:
                    return self.truth(st, self.call(st, f, [], {}))
            o = self.obj(st, v)
            c = self.content(st, v)
            if isinstance(c, U):
                r = 0
                for g, w in cases_of(c, st.pc):
                    r = OR(r, AND(g, self._truth_content(o, w)))
                return r
            return self._truth_content(o, c)
        if isinstance(v, T):
            return self._truth_T(v)
        return tm.atom(mk("truth", mk("opaque", repr(v))))

    def _truth_content(self, o, c):
        if o.cls == ("iter",):
            return TRUE
        if isinstance(c, tuple):
            return (TRUE if c else FALSE) if o.kind in ("list", "dict", "set") else TRUE
        return self._truth_T(c)

    def _truth_T(self, t):
        if t.op == "k":
            return TRUE if t.args[1] else FALSE
        if t.op == "guard":
            return t.args[0]
        if t.op == "ite":
            return B.ite(t.args[0], self._truth_T(t.args[1]), self._truth_T(t.args[2]))
        if t.op == "not":
            return NOT(self._truth_T(t.args[0]))
        if t.op == "cmp":
            return self._cmp_atom(t.args[0], t.args[1], t.args[2])
        v = tm.np_const(t)
        if v is not None:
            try:
                return TRUE if v else FALSE
            except Exception:
                pass
        return tm.atom(mk("truth", t) if t.op not in ("isnone", "isinstance", "mayraise", "unavailable", "truth") else t)

    def _cmp_atom(self, op, a, b):
        if tm.is_const(a) and tm.is_const(b):
            x, y = tm.np_const(a), tm.np_const(b)
            if x is not None and y is not None or (tm.is_k(a) and tm.is_k(b)):
                try:
                    r = {"<": lambda: x < y, "==": lambda: x == y, "<=": lambda: x <= y, ">": lambda: x > y,
                         ">=": lambda: x >= y, "!=": lambda: x != y}[op]()
                    if not isinstance(r, np.ndarray):
                        return TRUE if r else FALSE
                except Exception:
                    pass
        if a is b and tm.shape(a) == ():
            return TRUE if op in ("==", "<=", ">=") else FALSE
        if op == ">":
            return self._cmp_atom("<", b, a)
        if op == "<=":
            return NOT(self._cmp_atom("<", b, a))
        if op == ">=":
            return NOT(self._cmp_atom("<", a, b))
        if op == "!=":
            return NOT(self._cmp_atom("==", a, b))
        if op == "==" and a.id > b.id:
            a, b = b, a
        return tm.atom(mk("cmp", op, a, b))

    def bool_value(self, g):
        if g == TRUE:
            return True
        if g == FALSE:
            return False
        return mk("guard", g)

    # ------------------------------------------------------------------ comparison
    def compare(self, st, op, a, b):
        """Value of a comparison (may be an array term)."""
        if isinstance(a, T) and a.op == "guard":
            a = U([(a.args[0], True), (NOT(a.args[0]), False)])
        if isinstance(b, T) and b.op == "guard":
            b = U([(b.args[0], True), (NOT(b.args[0]), False)])
        if isinstance(a, U) or isinstance(b, U):
            return self._as_bool_union(self.lift2(st, a, b, lambda x, y: self.compare(st, op, x, y)), st)
        if op in ("is", "is not"):
            r = self._is(st, a, b)
            return self.bool_value(NOT(r) if op == "is not" else r)
        if op in ("in", "not in"):
            r = self._in(st, a, b)
            return self.bool_value(NOT(r) if op == "not in" else r)
        pa, pb = a is None or isinstance(a, SCALARS), b is None or isinstance(b, SCALARS)
        if pa and pb:
            try:
                return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
                        "==": lambda: a == b, "!=": lambda: a != b}[op]()
            except TypeError:
                self.raise_builtin(st, "TypeError", f"{op} not supported")
                return False
        if self.has_dunders:
            if op == "!=":
                f = self.inst_method(st, a, "__ne__")
                if f is not None:
                    return self.call(st, f, [b], {})
            if op in COMPARED:
                for x, y, n in ((a, b, COMPARED[op][0]), (b, a, COMPARED[op][1])):
                    f = self.inst_method(st, x, n)
                    if f is not None:
                        return self.call(st, f, [y], {})
        if op in ("==", "!="):
            r = self._eq(st, a, b)
            if isinstance(r, int):
                return self.bool_value(NOT(r) if op == "!=" else r)
            return mk("cmp", op, *r)
        for x, y in ((a, b), (b, a)):
            seq = isinstance(x, Tup) or isinstance(x, Ref) and self.obj(st, x).kind in KINDS
            if seq and (y is None or isinstance(y, (int, float, str))):
                self.raise_builtin(st, "TypeError", f"{op} not supported")
                return False
        if a is None or b is None:
            self.raise_builtin(st, "TypeError", f"{op} not supported")
            return False
        ta, tb = self.as_T(st, a), self.as_T(st, b)
        sa, sb = tm.shape(ta), tm.shape(tb)
        if (sa not in (None, ())) or (sb not in (None, ())):
            return self.from_T(st, mk("cmp", op, ta, tb))
        return self.bool_value(self._cmp_atom(op, ta, tb))

    def _as_bool_union(self, v, st):
        if isinstance(v, U) and all(isinstance(w, bool) or (isinstance(w, T) and w.op in ("guard", "cmp")) for _, w in v.cases):
            if all(not (isinstance(w, T) and w.op == "cmp") for _, w in v.cases):
                r = 0
                for g, w in v.cases:
                    r = OR(r, AND(g, self.truth(st, w)))
                return self.bool_value(r)
        return v

    def _is(self, st, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return TRUE
            if isinstance(x, T):
                if x.op in ("sym", "k", "bin", "arr", "un", "cmp", "getitem", "fstr", "guard") and not (
                    x.op == "sym" and x.args[1] == "opt"
                ):
                    return FALSE
                if x.op == "call" and (x.args[0].startswith("numpy.") or x.args[0].startswith("math.")):
                    return FALSE
                return tm.atom(mk("isnone", x))
            return FALSE
        if isinstance(a, (bool,)) or isinstance(b, (bool,)):
            if isinstance(a, SCALARS) and isinstance(b, SCALARS):
                return TRUE if a is b else FALSE
            return self.truth(st, a) if b is True else (NOT(self.truth(st, a)) if b is False else FALSE)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return TRUE if leaf_key(a) == leaf_key(b) else FALSE
        if isinstance(a, (Cls, Ext, Fun, Mod)) or isinstance(b, (Cls, Ext, Fun, Mod)):
            return TRUE if a is b else FALSE
        return tm.atom(mk("cmp", "is", self.as_T(st, a), self.as_T(st, b)))

    def _eq(self, st, a, b):
        """BDD int, or a pair of terms when the result is an array."""
        if isinstance(a, U) or isinstance(b, U):
            r = 0
            for g, x in cases_of(a, st.pc):
                for h, y in cases_of(b, st.pc):
                    e = self._eq(st, x, y)
                    if not isinstance(e, int):
                        return (self.as_T(st, a), self.as_T(st, b))
                    r = OR(r, AND(g, h, e))
            return r
        pa, pb = a is None or isinstance(a, SCALARS), b is None or isinstance(b, SCALARS)
        if pa and pb:
            return TRUE if a == b else FALSE
        for x, y in ((a, b), (b, a)):
            f = self.inst_method(st, x, "__eq__") if self.has_dunders else None
            if f is not None:
                return self.truth(st, self.call(st, f, [y], {}))
            if isinstance(x, Ref):
                c = self.obj(st, x).cls
                if isinstance(c, Cls) and getattr(c, "members", None) is not None and (pa or pb):
                    mixed = any(isinstance(q, Ext) and q.name in ("builtins.str", "builtins.int", "enum.StrEnum", "enum.IntEnum") for q in c.mro())
                    return self._eq(st, self.getattr(st, x, "value"), y) if mixed else FALSE
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            r = TRUE
            for x, y in zip(a.items, b.items):
                e = self._eq(st, x, y)
                if not isinstance(e, int):
                    e = tm.atom(mk("cmp", "==", *e))
                r = AND(r, e)
            return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(st, a), self.obj(st, b)
            if oa.kind == "array" or ob.kind == "array":
                return (self.as_T(st, a), self.as_T(st, b))
            if leaf_key(a) == leaf_key(b):
                return TRUE
            ca, cb = self.content(st, a), self.content(st, b)
            if oa.kind != ob.kind:
                return FALSE
            if type(ca) is tuple and type(cb) is tuple and oa.kind == "list":
                return self._eq(st, Tup(ca), Tup(cb))
            ta, tb = self.as_T(st, a), self.as_T(st, b)
            if ta is tb:
                return TRUE
            return tm.atom(mk("cmp", "==", *sorted((ta, tb), key=lambda t: t.id)))
        if isinstance(a, (Fun, Cls, Ext, Mod)) or isinstance(b, (Fun, Cls, Ext, Mod)):
            return TRUE if a is b else FALSE
        if (isinstance(a, Ref) and self.obj(st, a).kind == "array") or (isinstance(b, Ref) and self.obj(st, b).kind == "array"):
            return (self.as_T(st, a), self.as_T(st, b))
        if a is None or b is None:
            x = b if a is None else a
            if isinstance(x, (Ref, Tup)):
                return FALSE
            return self._is(st, a, b)
        if (isinstance(a, (Ref, Tup)) and pb) or (isinstance(b, (Ref, Tup)) and pa):
            return FALSE
        ta, tb = self.as_T(st, a), self.as_T(st, b)
        return self._cmp_atom("==", ta, tb)

    def _in(self, st, a, b):
        if isinstance(a, U) or isinstance(b, U):
            r = 0
            for g, x in cases_of(a, st.pc):
                for h, y in cases_of(b, st.pc):
                    r = OR(r, AND(g, h, self._in(st, x, y)))
            return r
        if isinstance(b, str):
            if isinstance(a, str):
                return TRUE if a in b else FALSE
            return tm.atom(mk("cmp", "in", self.as_T(st, a), const(b)))
        items = None
        if isinstance(b, Cls) and getattr(b, "members", None) is not None:
            items = [w for _, w, _ in b.members]
        elif isinstance(b, Tup):
            items = b.items
        elif isinstance(b, Ref):
            f = self.inst_method(st, b, "__contains__")
            if f is not None:
                return self.truth(st, self.call(st, f, [a], {}))
            if self.inst_method(st, b, "__iter__") is not None:
                k = self.known_items(st, b)
                if k is not None and not isinstance(k, U):
                    return self._in_items(st, a, k)
            c = self.content(st, b)
            if isinstance(c, U):
                r = 0
                o = self.obj(st, b)
                for g, w in cases_of(c, st.pc):
                    if type(w) is tuple:
                        its = w if o.kind in ("list", "set") else [k for k, _ in w]
                        r = OR(r, AND(g, self._in_items(st, a, its)))
                    else:
                        r = OR(r, AND(g, tm.atom(mk("cmp", "in", self.as_T(st, a), w))))
                return r
            o = self.obj(st, b)
            if type(c) is tuple:
                items = [k for k, _ in c] if o.kind == "dict" else c
                if o.kind == "inst":
                    items = None
            elif isinstance(c, T) and c.op == "arr" and len(c.args[0]) == 1:
                items = c.args[1:]
        if items is not None:
            return self._in_items(st, a, items)
        return tm.atom(mk("cmp", "in", self.as_T(st, a), self.as_T(st, b)))

    def _in_items(self, st, a, items):
        r = 0
        for x in items:
            e = self._eq(st, a, x)
            if not isinstance(e, int):
                e = tm.atom(mk("cmp", "==", *e))
            r = OR(r, e)
            if r == TRUE:
                break
        return r

    # ------------------------------------------------------------------ names
    def lookup_name(self, st, name):
        for env in (st.env,):
            if name in env:
                v = env[name]
                if isinstance(v, U) and any(w is UNBOUND for _, w in v.cases):
                    g = 0
                    rest = []
                    for h, w in v.cases:
                        if w is UNBOUND:
                            g = OR(g, h)
                        else:
                            rest.append((h, w))
                    if AND(st.pc, g):
                        self.event("maybe_unbound", st, (name, AND(st.pc, g)))
                        self.raise_builtin(st, "UnboundLocalError", name, g)
                    return simp(mk_union(rest), st.pc) if rest else UNBOUND
                if v is not UNBOUND:
                    return simp(v, st.pc)
        fr = self.frames[-1] if self.frames else None
        clo = fr.closure if fr else None
        while clo is not None:
            if name in clo[0]:
                return simp(clo[0][name], st.pc)
            clo = clo[1]
        m = self.mod
        if name in m.tainted and self.frames:
            return mk("unknown", "global", name)
        if name in m.env and m.env[name] is not UNBOUND:
            return simp(m.env[name], st.pc)
        if hasattr(builtins, name):
            return {"True": True, "False": False, "None": None}.get(name, Ext("builtins." + name))
        if name in st.env:
            self.event("maybe_unbound", st, (name, st.pc))
            self.raise_builtin(st, "UnboundLocalError", name)
        else:
            self.event("unresolved_name", st, (name, st.pc))
            self.raise_builtin(st, "NameError", name)
        return mk("unknown", "name", name)

    # ------------------------------------------------------------------ merging of states
    def merge(self, sts):
        """sts: [(guard, State)] - only states with pc != 0 matter."""
        sts = [(g, s) for g, s in sts if s.pc != 0]
        if not sts:
            s = State()
            s.pc = 0
            return s
        if len(sts) == 1:
            return sts[0][1]
        base = sts[0][1]
        total = OR(*[s.pc for _, s in sts])
        sts = [(B.restrict(g, total), s) for g, s in sts]
        heap = {}
        addrs = []
        seen = set()
        for _, s in sts:
            for a in s.heap:
                if a not in seen:
                    seen.add(a)
                    addrs.append(a)
        for a in addrs:
            objs = [(g, s.heap.get(a, self.base_heap.get(a))) for g, s in sts]
            objs = [(g, o) for g, o in objs if o is not None]
            o0 = objs[0][1]
            if all(o is o0 for _, o in objs):
                heap[a] = o0
                continue
            heap[a] = o0._replace(content=merge_contents(o0.kind, [(g, o.content) for g, o in objs]))
        env = {}
        names = []
        for _, s in sts:
            for n in s.env:
                if n not in env:
                    env[n] = None
                    names.append(n)
        for n in names:
            vals = [(g, s.env.get(n, UNBOUND)) for g, s in sts]
            v0 = vals[0][1]
            env[n] = v0 if all(v is v0 for _, v in vals) else mk_union(vals)
        return State(heap, base.envs[:-1] + [env], total)

    def branch(self, st, cases, fn):
        """Effectful case split: fn(state, leaf) -> value; merged."""
        cases = [(g, w) for g, w in cases if AND(st.pc, g)]
        if len(cases) == 1:
            return fn(st, cases[0][1])
        sts, vals = [], []
        for g, w in cases:
            s = st.fork(g)
            v = fn(s, w)
            sts.append((g, s))
            if s.pc:
                vals.append((g, v))
        st.become(self.merge(sts))
        return mk_union(vals) if vals else mk("unknown", "dead")

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st.pc == 0:
                return
            self.exec_stmt(s, st)

    def exec_stmt(self, s, st):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("analysis budget exhausted")
        if tm.DEADLINE[0] is not None and time.process_time() > tm.DEADLINE[0]:
            raise tm.OutOfTime("statements")
        self.loc = (self.mod.path, self.stack[-1] if self.stack else "", s.lineno)
        tm.CURRENT_LOC[0] = self.loc
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {self.loc}")
        m(s, st)

    def s_Pass(self, s, st):
        pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            if st.pc:
                self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        elif isinstance(s.target, ast.Name) and self.stack and self.stack[-1].startswith("class "):
            pass

    def s_AugAssign(self, s, st):
        op = OPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.lookup_name(st, s.target.id)
            rhs = self.eval(s.value, st)
            new = self.inplace(st, op, cur, rhs, is_literal(s.value))
            st.env[s.target.id] = new
            return
        if isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, st)
            cur = self.getattr(st, o, s.target.attr)
            rhs = self.eval(s.value, st)
            self.setattr(st, o, s.target.attr, self.inplace(st, op, cur, rhs, is_literal(s.value)))
            return
        if isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, st)
            i = self.eval_index(s.target.slice, st)
            cur = self.getitem(st, o, i)
            rhs = self.eval(s.value, st)
            self.setitem(st, o, i, self.inplace(st, op, cur, rhs, is_literal(s.value)))
            return
        raise Unsupported("augassign")

    def inplace(self, st, op, cur, rhs, literal=False):
        if st.pc == 0:
            return cur
        if isinstance(cur, U):
            return self.branch(st, cases_of(cur, st.pc), lambda s, w: self.inplace(s, op, w, rhs, literal))
        if isinstance(cur, Ref):
            o = self.obj(st, cur)
            if o.kind == "array":
                v = self.binary(st, op, cur, rhs)
                if self._dtype(st, cur) == "int" and self._dtype(st, v) == "float":
                    self.raise_builtin(st, "TypeError")
                    return cur
                self.store_array(st, cur, v, "in-place " + op)
                return cur
            m = self.inst_method(st, cur, f"__i{DUNDER.get(op, '?')}__")
            if m is not None:
                return self.call(st, m, [rhs], {})
            if o.kind == "list" and op == "+":
                self.list_extend(st, cur, rhs)
                return cur
            if o.kind == "list" and op == "*" and isinstance(rhs, int) and type(o.content) is tuple:
                self.set_content(st, cur, o.content * rhs, "in-place *")
                return cur
            if o.kind == "set" and op in ("|", "&", "-", "^") and isinstance(rhs, Ref) and self.obj(st, rhs).kind == "set":
                self.set_content(st, cur, self.content(st, self.set_op(st, op, cur, rhs)), "in-place " + op)
                return cur
            if o.kind == "dict" and op == "|":
                self.dict_update(st, cur, rhs)
                return cur
        return self.binary(st, op, cur, rhs, literal)

    def _dtype(self, st, v):
        try:
            return dtypes.dtype(self.as_T(st, v), dtypes.INTS)
        except Exception:
            return None

    def store_array(self, st, ref, v, how):
        t = self.lift(st, v, lambda w: self.as_T(st, w))
        if not how.startswith("in-place") and not isinstance(t, U):
            d = self._dtype(st, Ref(ref.addr))
            if d == "int" and self._dtype(st, t) == "float":
                t = mk("call", "numpy.trunc", (t,), ())
            elif d != "int":
                t = dtypes.as_float(t, dtypes.INTS)
        if not ref.path:
            s = tm.shape(self.as_T(st, ref))
            if not isinstance(t, U):
                ts = tm.shape(t)
                if ts == () and s is not None and s != () and all(isinstance(n, int) for n in s):
                    t = tm.arr(s, [t] * int(np.prod(s)))
            self.set_content(st, ref, t, how)
        else:
            o = self.obj(st, ref)

            def upd(c, w):
                return self._store_path(c if isinstance(c, T) else self.as_T(st, Tup(c)), ref.path, w)

            self.set_content(st, ref, self.lift2(st, o.content, t, upd), how)

    def _store_path(self, c, path, v):
        p = path[0]
        if p == ("T",):
            inner = tm.transpose(c)
            return tm.transpose(v if len(path) == 1 else self._store_path(inner, path[1:], v))
        if p[:1] == ("view",):
            new = v if len(path) == 1 else self._store_path(view_of(c, p), path[1:], v)
            return unview(c, p, new)
        if len(path) == 1:
            return tm.setitem(c, p, v)
        return tm.setitem(c, p, self._store_path(tm.getitem(c, p), path[1:], v))

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, t)
            for x, w in zip(t.elts, items):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, self.new_list(st, w.items if isinstance(w, Tup) else ()), st)
                else:
                    self.assign(x, w, st)
            return
        if isinstance(t, ast.Attribute):
            self.setattr(st, self.eval(t.value, st), t.attr, v)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            self.setitem(st, o, i, v)
            return
        raise Unsupported("assign target")

    def unpack(self, st, v, t):
        n = len(t.elts)
        star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if isinstance(v, U):
            cols = [[] for _ in range(n)]
            for g, w in cases_of(v, st.pc):
                for c, x in zip(cols, self.unpack(st, w, t)):
                    c.append((g, x))
            return [mk_union(c) for c in cols]
        known = self.known_items(st, v)
        if known is None:
            return [mk("unknown", "unpack", self.as_T(st, v), k) if not isinstance(v, T) else mk("item", v, k) for k in range(n)]
        if isinstance(known, U):
            cols = [[] for _ in range(n)]
            for g, w in cases_of(known, st.pc):
                if len(w) != n and not star:
                    self.raise_builtin(st, "ValueError", "unpack", g)
                    continue
                for c, x in zip(cols, w):
                    c.append((g, x))
            return [mk_union(c) if c else mk("unknown", "unpack") for c in cols]
        known = list(known)
        if star:
            k = star[0]
            tail = n - k - 1
            mid = known[k: len(known) - tail]
            return known[:k] + [Tup(mid)] + (known[len(known) - tail:] if tail else [])
        if len(known) != n:
            self.raise_builtin(st, "ValueError", "unpack")
            return [mk("unknown", "unpack")] * n
        return known

    def s_If(self, s, st):
        c = self.truth(st, self.eval(s.test, st))
        if st.pc == 0:
            return
        loc = self.loc
        g = AND(st.pc, c)
        if g == 0:
            return self.exec_block(s.orelse, st)
        if AND(st.pc, NOT(c)) == 0:
            return self.exec_block(s.body, st)
        s1, s2 = st.fork(c), st.fork(NOT(c))
        self.exec_block(s.body, s1)
        self.exec_block(s.orelse, s2)
        self.loc = loc
        st.become(self.merge([(c, s1), (NOT(c), s2)]))

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else None
        if st.pc == 0:
            return
        if not self.frames:
            raise Unsupported("return outside function")
        self.loc = (self.mod.path, self.stack[-1], s.lineno)
        self.frames[-1].returns.append(Exit(st.pc, v, self.loc, dict(st.heap)))
        st.pc = 0

    def s_Raise(self, s, st):
        if s.exc is None:
            cur = self.frames[-1].handling if self.frames else None
            if cur:
                self.raise_(st, cur[0], cur[1])
            else:
                self.raise_builtin(st, "RuntimeError")
            return
        v = self.eval(s.exc, st)
        self.loc = (self.mod.path, self.stack[-1] if self.stack else "", s.lineno)
        for g, w in cases_of(v, st.pc):
            cls, val = self.exc_class(st, w)
            s_ = st
            self.sinks[-1].append(
                RaiseRec(AND(st.pc, g), cls, val, self.loc, dict(st.heap), st.envs[:-1] + [dict(st.env)], tuple(self.stack))
            )
        st.pc = 0

    def exc_class(self, st, w):
        if isinstance(w, (Cls, Ext)):
            return w, w
        if isinstance(w, Ref):
            o = self.obj(st, w)
            if o.kind in ("inst", "exc"):
                return o.cls, w
        if isinstance(w, T) and w.op == "exc":
            return Ext(w.args[0]), w
        return Ext("builtins.Exception"), w

    def s_Assert(self, s, st):
        c = self.truth(st, self.eval(s.test, st))
        self.raise_builtin(st, "AssertionError", "", NOT(c))

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                i = self.eval_index(t.slice, st)
                self.delitem(st, o, i)
            elif isinstance(t, ast.Attribute):
                self.delattr(st, self.eval(t.value, st), t.attr)
            else:
                raise Unsupported("del")

    def delitem(self, st, o, i):
        if isinstance(o, U):
            self.branch(st, cases_of(o, st.pc), lambda s, w: self.delitem(s, w, i))
            return
        m = self.inst_method(st, o, "__delitem__")
        if m is not None:
            self.call(st, m, [i], {})
            return
        ob = self.obj(st, o) if isinstance(o, Ref) else None
        if ob is not None and ob.kind == "dict" and type(self.content(st, o)) is tuple:
            c = self.content(st, o)
            k = leaf_key(i)
            if not any(leaf_key(a) == k for a, _ in c):
                if all(self._is_constkey(a) for a, _ in c) and self._is_constkey(i):
                    self.raise_builtin(st, "KeyError", i)
                return
            self.set_content(st, o, tuple((a, b) for a, b in c if leaf_key(a) != k), "del item", i)
            return
        if ob is not None and ob.kind == "list" and type(self.content(st, o)) is tuple and isinstance(i, int):
            c = list(self.content(st, o))
            del c[i]
            self.set_content(st, o, tuple(c), "del item", i)
            return
        if ob is not None:
            self.set_content(st, o, mk("unknown", "del", self.as_T(st, o)), "del item", i)

    def s_Global(self, s, st):
        for n in s.names:
            self.event("global", st, n)
            self.mod.tainted.add(n)

    def s_Nonlocal(self, s, st):
        self.event("nonlocal", st, tuple(s.names))

    def s_Break(self, s, st):
        self.loopstack[-1][0].append(st.fork())
        st.pc = 0

    def s_Continue(self, s, st):
        self.loopstack[-1][1].append(st.fork())
        st.pc = 0

    def s_Import(self, s, st):
        for a in s.names:
            v = self.import_module(a.name if a.asname else a.name.split(".")[0], st)
            st.env[a.asname or a.name.split(".")[0]] = v

    def import_module(self, name, st):
        if name in self.modules:
            return self.load(name)
        root = name.split(".")[0]
        if root == self.package:
            self.raise_builtin(st, "ImportError", name)
            return mk("unknown", "import", name)
        if root in self.missing:
            self.raise_builtin(st, "ModuleNotFoundError", name)
            return mk("unknown", "import", name)
        if root not in STDLIB_OK:
            g = tm.atom(mk("unavailable", root))
            self.event("import", st, root)
            if not self.assume_available:
                self.raise_(st, Ext("builtins.ImportError"), name, g)
        return Ext(name)

    def s_ImportFrom(self, s, st):
        mod = s.module or ""
        if s.level:
            base = self.mod.name.split(".")
            if not self.mod.is_pkg:
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)] if s.level > 1 else base
            mod = ".".join(base + ([mod] if mod else []))
        if mod in self.modules or mod.split(".")[0] == self.package:
            if mod not in self.modules:
                if "_tests" in mod:
                    for a in s.names:
                        st.env[a.asname or a.name] = Ext(mod + "." + a.name)
                    return
                self.raise_builtin(st, "ImportError", mod)
                return
            m = self.load(mod)
            for a in s.names:
                if a.name == "*":
                    al = m.env.get("__all__")
                    if isinstance(al, Ref):
                        names = [x for x in self.content(State(self.base_heap), al)]
                    else:
                        names = [n for n in m.env if not n.startswith("_")]
                    for n in names:
                        if n in m.env:
                            st.env[n] = m.env[n]
                        else:
                            self.event("bad_all", st, (mod, n))
                else:
                    if a.name in m.env:
                        st.env[a.asname or a.name] = m.env[a.name]
                    elif f"{mod}.{a.name}" in self.modules:
                        st.env[a.asname or a.name] = self.load(f"{mod}.{a.name}")
                    elif "_tests" in a.name:
                        st.env[a.asname or a.name] = Ext(mod + "." + a.name)
                    else:
                        self.event("bad_import", st, (mod, a.name))
                        self.raise_builtin(st, "ImportError", f"{mod}.{a.name}")
            return
        self.import_module(mod, st)
        for a in s.names:
            st.env[a.asname or a.name] = self.ext_attr(mod, a.name)

    def ext_attr(self, mod, name):
        full = f"{mod}.{name}"
        if full in EXT_CONST:
            return EXT_CONST[full]
        if name in ("__name__", "__qualname__") and mod.startswith("builtins."):
            return mod.split(".")[-1]
        return Ext(full)

    def s_FunctionDef(self, s, st):
        f = self.make_fun(s, st)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st)
        st.env[s.name] = v

    def make_fun(self, s, st, name=None):
        prefix = self.stack[-1] if self.stack else self.mod.name
        if prefix.startswith("class "):
            prefix = prefix[6:]
        qual = f"{prefix}.{name or s.name}"
        clo = None
        if self.frames:
            clo = self.frames[-1].closure if self.frames[-1].is_class else (st.env, self.frames[-1].closure)
        f = Fun(s, self.mod, qual, clo)
        a = s.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            f.defaults[p.arg] = self.eval(d, st)
            if isinstance(f.defaults[p.arg], Ref):
                o = self.obj(st, f.defaults[p.arg])
                st.heap[f.defaults[p.arg].addr] = o._replace(origin=f"default:{qual}.{p.arg}")
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                f.defaults[p.arg] = self.eval(d, st)
        return f

    def decorate(self, d, v, st):
        if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") and isinstance(v, Fun):
            v.kind = d.id
            return v
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter") and isinstance(v, Fun):
            p = self.lookup_name(st, d.value.id)
            p2 = Fun(p.node, p.module, p.qual, p.closure, p.cls)
            p2.defaults, p2.kind, p2.setter = p.defaults, "property", p.setter
            if d.attr == "setter":
                p2.setter = v
            return p2
        if isinstance(d, ast.Call) and isinstance(d.func, (ast.Name, ast.Attribute)) and ast.unparse(d.func).split(".")[-1] in ("lru_cache", "wraps", "cache"):
            dv = self.eval(d.func, st)
            if isinstance(dv, Ext) and dv.name in ("functools.lru_cache", "functools.wraps", "functools.cache"):
                self.event("decorator", st, (dv.name, getattr(v, "qual", "")))
                return v
        dv = self.eval(d, st)
        if isinstance(dv, Ext) and dv.name == "functools.cached_property" and isinstance(v, Fun):
            v.kind = "cached_property"
            return v
        if isinstance(dv, Ext) and dv.name == "contextlib.contextmanager":
            return mk("callv", mk("contextmanager", getattr(v, "qual", "")), (), ())
        if isinstance(dv, Ext) and dv.name in ("abc.abstractmethod", "functools.wraps", "functools.lru_cache", "functools.cache"):
            self.event("decorator", st, (dv.name, getattr(v, "qual", "")))
            return v
        if isinstance(dv, T):
            return v
        return self.call(st, dv, [v], {})

    def s_ClassDef(self, s, st):
        bases = [self.eval(b, st) for b in s.bases]
        c = Cls(s.name, self.mod, bases, s)
        for d in s.decorator_list:
            txt = ast.unparse(d)
            if "dataclass" in txt:
                c.dataclass_fields = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
                if isinstance(d, ast.Call):
                    c.frozen = any(k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords)
        outer = st.envs[-1]
        st.envs = st.envs + [{}]
        self.stack = self.stack + [f"class {self.mod.name}.{s.name}"]
        fr = self.frames
        # names of the class body are not visible in methods, those of the enclosing function are
        cf = Frame(s.name, (outer, fr[-1].closure) if fr else None)
        cf.is_class = True
        self.frames = (fr or []) + [cf]
        for x in s.body:
            self.exec_stmt(x, st)
        c.attrs = st.envs[-1]
        st.envs = st.envs[:-1]
        self.stack = self.stack[:-1]
        self.frames = fr
        self.finish_class(c, s, st)
        for v in c.attrs.values():
            if isinstance(v, Fun):
                v.cls = c
                if v.setter:
                    v.setter.cls = c
        st.env[s.name] = c

    def finish_class(self, c, s, st):
        if OPERATORS & set(c.attrs):
            self.has_dunders = True
        ext = [b.name for b in c.mro() if isinstance(b, Ext)]
        if any(n.split(".")[0] == "enum" for n in ext):
            c.members = []
            for n, v in list(c.attrs.items()):
                if n.startswith("_") or isinstance(v, (Fun, Cls)):
                    continue
                if isinstance(v, Tup) or not self._is_constkey(v):
                    raise Unsupported("member of an enumeration")
                same = [w for m, w, x in c.members if leaf_key(x) == leaf_key(v)]
                c.attrs[n] = same[0] if same else self.alloc(st, "inst", (("name", n), ("value", v), ("_name_", n), ("_value_", v)), "fresh", c)
                if not same:
                    c.members.append((n, c.attrs[n], v))
        if c.dataclass_fields is not None:
            inherited = []
            for b in c.mro()[:0:-1]:
                inherited += [n for n in (getattr(b, "dataclass_fields", None) or []) if n not in inherited]
            c.dataclass_fields = inherited + [n for n in c.dataclass_fields if n not in inherited]
        if "typing.NamedTuple" in ext:
            c.tuple_fields = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
            self.named_tuples = True

    def _context_rewritten(self, s, st):
        """contextlib.suppress as a try statement, or None."""
        i = s.items[0]
        e = i.context_expr
        if not isinstance(e, ast.Call) or not isinstance(e.func, (ast.Name, ast.Attribute)):
            return None
        if ast.unparse(e.func).split(".")[-1] != "suppress":
            return None
        f = self.eval(e.func, st)
        if not (isinstance(f, Ext) and f.name == "contextlib.suppress"):
            return None
        rest = s.body if len(s.items) == 1 else [ast.With(s.items[1:], s.body, None)]
        n = ast.Try(rest, [ast.ExceptHandler(ast.Tuple(e.args, ast.Load()), None, [ast.Pass()])], [], [])
        return ast.fix_missing_locations(ast.copy_location(n, s))

    def s_Match(self, s, st):
        v = self.eval(s.subject, st)
        if st.pc == 0:
            return

        def go(st, w):
            out, left = [], TRUE
            for case in s.cases:
                if AND(st.pc, left) == 0:
                    break
                x = st.fork(left)
                g, binds = self.match_pattern(x, case.pattern, w)
                x.pc = AND(x.pc, g)
                if x.pc == 0:
                    continue
                for n, y in binds:
                    x.env[n] = y
                if case.guard is not None:
                    c = self.truth(x, self.eval(case.guard, x))
                    x.pc = AND(x.pc, c)
                    g = AND(g, c)
                here = AND(left, g)
                left = AND(left, NOT(g))
                self.exec_block(case.body, x)
                out.append((here, x))
            y = st.fork(left)
            out.append((left, y))
            st.become(self.merge(out))

        if isinstance(v, U):
            self.branch(st, cases_of(v, st.pc), go)
        else:
            go(st, v)

    def match_pattern(self, st, p, v):
        """(guard, bindings) of a structural pattern on a value which is not a union."""
        if isinstance(v, U):
            raise Unsupported("match of alternatives")
        if isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
            w = self.eval(p.value, st) if isinstance(p, ast.MatchValue) else p.value
            e = self._eq(st, v, w) if isinstance(p, ast.MatchValue) else self._is(st, v, w)
            if not isinstance(e, int):
                raise Unsupported("match of arrays")
            return e, []
        if isinstance(p, ast.MatchAs):
            g, b = self.match_pattern(st, p.pattern, v) if p.pattern is not None else (TRUE, [])
            return g, b + ([(p.name, v)] if p.name is not None else [])
        if isinstance(p, ast.MatchOr):
            g = 0
            for q in p.patterns:
                h, b = self.match_pattern(st, q, v)
                if b:
                    raise Unsupported("match of alternatives with names")
                g = OR(g, h)
            return g, []
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, str) or v is None or isinstance(v, SCALARS) or isinstance(v, Ref) and self.obj(st, v).kind not in ("list",):
                return 0, []
            k = self.known_items(st, v)
            if k is None or isinstance(k, U):
                raise Unsupported("match of an unknown sequence")
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if len(k) < n - 1 if star else len(k) != n:
                return 0, []
            g, out = TRUE, []
            i = star[0] if star else n
            pairs = list(zip(p.patterns[:i], k[:i]))
            if star:
                tail = n - i - 1
                if p.patterns[i].name is not None:
                    out.append((p.patterns[i].name, self.new_list(st, k[i:len(k) - tail])))
                pairs += list(zip(p.patterns[i + 1:], k[len(k) - tail:]))
            for q, x in pairs:
                h, b = self.match_pattern(st, q, x)
                g, out = AND(g, h), out + b
            return g, out
        if isinstance(p, ast.MatchMapping):
            if not (isinstance(v, Ref) and self.obj(st, v).kind == "dict"):
                return 0, []
            g, out = TRUE, []
            for kn, q in zip(p.keys, p.patterns):
                k = self.eval(kn, st)
                h = self._in(st, k, v)
                if h == 0:
                    return 0, []
                if h != TRUE or p.rest is not None:
                    raise Unsupported("match of an unknown mapping")
                w, b = self.match_pattern(st, q, self.getitem(st, v, k))
                g, out = AND(g, w), out + b
            return g, out
        if isinstance(p, ast.MatchClass) and not p.kwd_patterns and len(p.patterns) <= 1:
            c = self.eval(p.cls, st)
            g = self.truth(st, self.call(st, Ext("builtins.isinstance"), [v, c], {}))
            if p.patterns:
                if not (isinstance(c, Ext) and c.name in ("builtins.str", "builtins.int", "builtins.float", "builtins.bool", "builtins.list", "builtins.tuple", "builtins.dict")):
                    raise Unsupported("match of a class")
                h, b = self.match_pattern(st, p.patterns[0], v)
                return AND(g, h), b
            return g, []
        raise Unsupported("match of " + type(p).__name__)

    def s_With(self, s, st):
        n = self._context_rewritten(s, st)
        if n is not None:
            self.exec_stmt(n, st)
            return
        exits = []
        for i in s.items:
            v = self.eval(i.context_expr, st)
            if st.pc == 0:
                return
            self.event("with_enter", st, self.as_T(st, v))
            exits.append(v)
            v = self._dunder(st, v, "__enter__", [], v)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        n0 = len(self.sinks[-1])
        f0 = len(self.frames[-1].returns) if self.frames else 0
        l0 = [len(x) for x in self.loopstack[-1]] if self.loopstack else [0, 0]
        pc0 = st.pc
        self.exec_block(s.body, st)
        for v in reversed(exits):
            # __exit__ runs on every way out of the block
            s2 = st.fork()
            s2.pc = pc0
            self.event("with_exit", s2, self.as_T(st, v))
            self._on_ways_out(n0, f0, st, lambda x, v=v: self._dunder(x, v, "__exit__", [None, None, None], None))
            self._on_jumps(l0, lambda x, v=v: self._dunder(x, v, "__exit__", [None, None, None], None))
            if st.pc:
                self._dunder(st, v, "__exit__", [None, None, None], None)

    def _dunder(self, st, v, name, args, default):
        """Calls v.name(*args) if v is an instance of an analysed class which defines it."""
        if isinstance(v, U):
            return self.branch(st, cases_of(v, st.pc), lambda x, w: self._dunder(x, w, name, args, w if default is v else default))
        if isinstance(v, Ref):
            c = self.obj(st, v).cls
            f = c.lookup(name) if isinstance(c, Cls) else None
            if f is not None:
                return self.call(st, BoundM(f, v), list(args), {})
            for b in c.mro() if isinstance(c, Cls) else ():
                if isinstance(b, Ext) and not is_exception(b) and b.name not in ("builtins.object", "abc.ABC"):
                    raise Unsupported("context manager")
        if isinstance(v, T) and v.op == "callv":
            raise Unsupported("context manager")
        return default

    def inst_method(self, st, v, name):
        """Method of the class of an instance, or None."""
        if isinstance(v, Ref):
            c = self.obj(st, v).cls
            f = c.lookup(name) if isinstance(c, Cls) else None
            if isinstance(f, Fun):
                return BoundM(f, v)
        return None

    def dunder_binary(self, st, op, a, b):
        for x, y, pre in ((a, b, ""), (b, a, "r")):
            f = self.inst_method(st, x, f"__{pre}{DUNDER.get(op, '?')}__")
            if f is not None:
                return self.call(st, f, [y], {})
        return NotImplemented

    def _on_ways_out(self, n0, f0, st, fn):
        """Runs fn on the states of the raises (after the n0-th) and returns (after the f0-th) recorded in a block."""
        def run(x):
            if x.pc == 0:
                return x.heap
            self.sinks.append([])
            n = len(self.frames[-1].returns) if self.frames else 0
            fn(x)
            self.sinks.pop()
            if self.frames:
                del self.frames[-1].returns[n:]
            return x.heap
        recs = self.sinks[-1]
        for i in range(n0, len(recs)):
            r = recs[i]
            if r.heap is not None:
                recs[i] = r._replace(heap=run(State(dict(r.heap), [e for e in st.envs[:-1]] + [dict((r.envs or [st.env])[min(len(st.envs), len(r.envs or [0])) - 1])], r.pc)))
        if self.frames:
            rets = self.frames[-1].returns
            for i in range(f0, len(rets)):
                e = rets[i]
                if e.heap is not None:
                    rets[i] = e._replace(heap=run(State(dict(e.heap), st.envs[:-1] + [dict(st.env)], e.pc)))

    def _on_jumps(self, l0, fn):
        """Runs fn on the states of the breaks and continues recorded in a block."""
        if self.loopstack:
            top = self.loopstack[-1]
            self.loopstack.append(([], []))
            for k in (0, 1):
                for x in top[k][l0[k]:]:
                    if x.pc:
                        fn(x)
            self.loopstack.pop()

    def s_Try(self, s, st):
        pre = st.fork()
        depth = len(st.envs)
        n0 = len(self.sinks[-1])
        f0 = len(self.frames[-1].returns) if self.frames else 0
        l0 = [len(x) for x in self.loopstack[-1]] if self.loopstack else [0, 0]
        self.sinks.append([])
        save_mr = self.mayraise
        self.mayraise = []
        self.trydepth += 1
        self.exec_block(s.body, st)
        self.trydepth -= 1
        recs = self.sinks.pop()
        mr = self.mayraise
        self.mayraise = save_mr
        out = []
        if st.pc:
            self.exec_block(s.orelse, st)
        # opaque operations may raise what the handlers catch
        if s.handlers and mr:
            for hi, h in enumerate(s.handlers):
                desc = mk("mayraise", self.loc[0], s.lineno, hi, mr[0], self._occurrence((id(s), hi, mr[0])), tuple(dict.fromkeys(mr)))
                g = tm.atom(desc)
                cls = self._handler_classes(h, pre)
                if cls and all(isinstance(c, Ext) and c.name in ("builtins.ImportError", "builtins.ModuleNotFoundError") for c in cls):
                    continue
                recs.append(
                    RaiseRec(AND(pre.pc, g), cls[0] if cls else Ext("builtins.Exception"), mk("exc", cls[0].name if cls and isinstance(cls[0], Ext) else "builtins.Exception"),
                             self.loc, dict(pre.heap), pre.envs[:-1] + [dict(pre.env)], tuple(self.stack))
                )
                st.pc = AND(st.pc, NOT(g))
        out.append((st.pc, st.fork()))
        for r in recs:
            if r.pc == 0:
                continue
            handled = False
            for h in s.handlers:
                cls = self._handler_classes(h, pre)
                if not cls or any(self.exc_subclass(r.cls, c) for c in cls):
                    s2 = State(dict(r.heap), [e for e in r.envs[:depth - 1]] + [dict(r.envs[depth - 1])], r.pc)
                    if h.name:
                        v = r.value
                        if not isinstance(v, (Ref, T)) :
                            v = self.alloc(s2, "exc", mk("exc", r.cls.name if isinstance(r.cls, Ext) else r.cls.qual), "fresh", r.cls)
                        s2.env[h.name] = v
                    fr = self.frames[-1] if self.frames else None
                    old = fr.handling if fr else None
                    if fr:
                        fr.handling = (r.cls, r.value)
                    self.exec_block(h.body, s2)
                    if fr:
                        fr.handling = old
                    if h.name:
                        s2.env.pop(h.name, None) if s2.pc else None
                    out.append((r.pc, s2))
                    handled = True
                    break
            if not handled:
                self.sinks[-1].append(r)
        st.become(self.merge([(g, x) for g, x in out]))
        if s.finalbody:
            # the block runs on every way out
            fin = pre.fork()
            self._on_ways_out(n0, f0, fin, lambda x: self.exec_block(s.finalbody, x))
            self._on_jumps(l0, lambda x: self.exec_block(s.finalbody, x))
            pc = st.pc
            if pc == 0:
                s3 = pre.fork()
                self.exec_block(s.finalbody, s3)
            else:
                self.exec_block(s.finalbody, st)

    def _occurrence(self, key):
        self._occ = getattr(self, "_occ", {})
        self._occ[key] = self._occ.get(key, 0) + 1
        return self._occ[key]

    def _handler_classes(self, h, st):
        if h.type is None:
            return []
        v = self.eval(h.type, st.fork())
        return list(v.items) if isinstance(v, Tup) else [v]

    def exc_subclass(self, c, base):
        if c is base:
            return True
        if isinstance(c, Cls):
            return any(self.exc_subclass(b, base) for b in c.bases)
        if isinstance(c, Ext) and isinstance(base, Ext):
            x, y = (getattr(builtins, n.name.split(".")[-1], None) for n in (c, base))
            if isinstance(x, type) and isinstance(y, type):
                return issubclass(x, y)
            return base.name in ("builtins.Exception", "builtins.BaseException")
        return False

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        if self.while_hook is not None and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and len(s.iter.args) == 1 and not s.iter.keywords \
                and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and not isinstance(s.iter.args[0], (ast.Starred, ast.Constant)):
            w = self.counted_while(s)
            n = self.eval(s.iter.args[0], st)
            if st.pc == 0:
                return
            if not isinstance(n, int) or n > self.max_unroll:
                st.env[w.limit], st.env[w.counter] = n, 0
                if s.target.id not in st.env:
                    st.env[s.target.id] = 0
                return self.exec_block([w], st)
        it = self.eval(s.iter, st)
        if st.pc == 0:
            return
        self.run_for(st, it, lambda x, v: self.assign(s.target, v, x), lambda x: self.exec_block(s.body, x),
                     (lambda x: self.exec_block(s.orelse, x)) if s.orelse else None, node=s)

    def counted_while(self, s):
        """for i in range(n), as the loop "while" that it is."""
        w = getattr(s, "_while", None)
        if w is None:
            k = f"{s.lineno}:{s.col_offset}"
            name = lambda n, c: ast.copy_location(ast.Name(id=n, ctx=c()), s)  # noqa: E731
            loc = lambda x: ast.copy_location(x, s)  # noqa: E731
            c, m = f".counter{k}", f".limit{k}"
            w = loc(ast.While(
                test=loc(ast.Compare(left=name(c, ast.Load), ops=[ast.Lt()], comparators=[name(m, ast.Load)])),
                body=[loc(ast.Assign(targets=[s.target], value=name(c, ast.Load))),
                      loc(ast.Assign(targets=[name(c, ast.Store)], value=loc(ast.BinOp(left=name(c, ast.Load), op=ast.Add(), right=loc(ast.Constant(1))))))] + s.body,
                orelse=s.orelse))
            w.counter, w.limit = c, m
            s._while = w
        return w

    def run_for(self, st, it, bind, body, orelse=None, node=None):
        if isinstance(it, U):
            self.branch(st, cases_of(it, st.pc), lambda x, w: self.run_for(x, w, bind, body, orelse, node))
            return
        known = self.known_items(st, it)
        if isinstance(known, U):
            self.branch(st, cases_of(known, st.pc), lambda x, w: self.run_for(x, Tup(w), bind, body, orelse, node))
            return
        if known is None:
            return self.run_unknown_for(st, it, bind, body, orelse, node)
        self.exhaust(st, it)
        breaks = []
        pc0 = st.pc
        for i, v in enumerate(known):
            if st.pc == 0:
                break
            if i >= self.max_unroll:
                raise Unsupported("loop too long")
            self.loopstack.append(([], []))
            bind(st, v)
            body(st)
            br, co = self.loopstack.pop()
            breaks += br
            for x in br:
                self.exhaust(x, it, known[i + 1:])
            if co:
                # guards: pcs of continue states are disjoint
                st.become(self.merge([(st.pc, st.fork())] + [(c.pc, c) for c in co]))
        if orelse and st.pc:
            orelse(st)
        if breaks:
            st.become(self.merge([(st.pc, st.fork())] + [(b.pc, b) for b in breaks]))

    def iterator(self, st, v):
        """Marks a fresh list as an iterator: it can be consumed once."""
        if isinstance(v, Ref) and not v.path:
            o = st.heap[v.addr]
            if o.kind == "list" and o.cls is None:
                st.heap[v.addr] = o._replace(cls=("iter",))
        return v

    def is_iterator(self, st, v):
        return isinstance(v, Ref) and not v.path and self.obj(st, v).cls == ("iter",)

    def exhaust(self, st, v, rest=()):
        if self.is_iterator(st, v) and type(st.heap[v.addr].content) is tuple:
            st.heap[v.addr] = st.heap[v.addr]._replace(content=tuple(rest))

    def run_unknown_for(self, st, it, bind, body, orelse, node):
        """Loop over a sequence of unknown length: everything it may change is havocked."""
        tag = mk("loop", self.loc[0], self.loc[2], self.as_T(st, it))
        elem = mk("elem", self.as_T(st, it), mk("ix", len(self.loopstack)))
        self.event("unknown_loop", st, tag)
        changed_env, changed_heap = set(), set()
        rounds = 0
        while True:
            s1 = st.fork(tm.atom(mk("nonempty", tag)))
            self._havoc(s1, changed_env, changed_heap, tag, "in")
            before_env, before_heap = dict(s1.env), dict(s1.heap)
            self.loopstack.append(([], []))
            nret = len(self.frames[-1].returns) if self.frames else 0
            nraise = len(self.sinks[-1])
            nev = len(self.events)
            bind(s1, self.from_T(s1, elem, self._origin_of(st, it) + "[]"))
            body(s1)
            br, co = self.loopstack.pop()
            outs = [s1] + br + co
            e2, h2 = set(changed_env), set(changed_heap)
            for o in outs:
                if o.pc == 0:
                    continue
                for n in set(o.env) | set(before_env):
                    if leaf_key(o.env.get(n, UNBOUND)) != leaf_key(before_env.get(n, UNBOUND)):
                        e2.add(n)
                for a in before_heap:
                    if o.heap.get(a) is not before_heap[a]:
                        h2.add(a)
                for a in o.heap:
                    if a not in before_heap and a in self.base_heap:
                        h2.add(a)
            rounds += 1
            if (e2, h2) == (changed_env, changed_heap) or rounds > 6:
                break
            changed_env, changed_heap = e2, h2
            if self.frames:
                del self.frames[-1].returns[nret:]
            del self.sinks[-1][nraise:]
            del self.events[nev:]
        maps = {}
        for a in changed_heap:
            b = before_heap.get(a)
            if b is None or b.kind != "list" or a not in st.heap or br:
                continue
            vals = {o.heap[a].content for o in [s1] + co if o.pc and isinstance(o.heap[a].content, T)}
            if len(vals) != 1 or any(o.pc and not isinstance(o.heap[a].content, T) for o in [s1] + co):
                continue
            w = vals.pop()
            if w.op == "append" and w.args[0] is b.content:
                m = mk("map", tag.args[2], elem, w.args[1])
                c0 = st.heap[a].content
                maps[a] = m if c0 == () else mk("concat", self.as_T(st, Ref(a)), m)
        self._havoc(st, changed_env, changed_heap, tag, "out")
        for a, m in maps.items():
            st.heap[a] = st.heap[a]._replace(content=m)
        if orelse and st.pc:
            orelse(st)

    def _origin_of(self, st, v):
        if isinstance(v, Ref):
            return self.obj(st, v).origin
        return "fresh"

    def _havoc(self, st, env, heap, tag, when):
        for n in sorted(env):
            v = st.env.get(n, UNBOUND)
            if isinstance(v, Ref) and self.obj(st, v).kind == "array":
                st.env[n] = self.new_array(st, mk("carry", tag, n, when, ("arr", tm.shape(self.as_T(st, v)) or ("?",))))
            else:
                st.env[n] = mk("carry", tag, n, when, "any")
        for a in sorted(heap):
            o = st.heap.get(a, self.base_heap.get(a))
            s = None
            if o.kind == "array" and isinstance(o.content, T):
                s = tm.shape(o.content)
            st.heap[a] = o._replace(content=mk("carry", tag, f"heap{o.origin}@{a}", when, ("arr", s) if s else "any"))

    def s_While(self, s, st):
        if self.while_hook is not None:
            r = self.while_hook(self, s, st)
            if r:
                return
        pc0 = st.pc
        breaks = []
        n = same = 0
        last = None
        while st.pc:
            c = self.truth(st, self.eval(s.test, st))
            if st.pc == 0:
                break
            stop = AND(st.pc, NOT(c))
            if stop:
                b = st.fork(NOT(c))
                if s.orelse:
                    self.exec_block(s.orelse, b)
                breaks.append(b)
                st.pc = AND(st.pc, c)
                if st.pc == 0:
                    break
            n += 1
            if c == TRUE and not breaks:
                # the condition holds and nothing changed since the last two times: the loop never ends
                now = (dict(st.heap), [dict(e) for e in st.envs], len(self.events))
                same = same + 1 if last is not None and same_state(last, now) else 0
                last = now
                if same >= 2:
                    self.raise_builtin(st, "EndlessLoop", "the loop never ends")
                    break
            # only loops whose exits are decided by constants are unrolled
            self.loopstack.append(([], []))
            self.exec_block(s.body, st)
            br, co = self.loopstack.pop()
            breaks += br
            if co:
                st.become(self.merge([(st.pc, st.fork())] + [(x.pc, x) for x in co]))
            if n >= (self.while_limit if any(b.pc for b in breaks) else 3000):
                if st.pc:
                    self.event("while_cut", st, n)
                    tag = mk("while", self.loc[0], s.lineno)
                    self._havoc(st, set(k for k in st.env if not isinstance(st.env[k], (Mod, Fun, Cls, Ext))), set(), tag, "out")
                    breaks.append(st.fork())
                    st.pc = 0
                break
        live = [(b.pc, b) for b in breaks if b.pc]
        st.become(self.merge(live))

    # ------------------------------------------------------------------ iteration
    def known_items(self, st, v):
        """tuple of values, U of tuples, or None"""
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, range):
            return tuple(v)
        if isinstance(v, Cls) and getattr(v, "members", None) is not None:
            return tuple(w for _, w, _ in v.members)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            c = self.content(st, v)

            def items(c):
                if type(c) is tuple:
                    if o.kind == "set" and self.set_reverse and not all(isinstance(x, (int, float)) for x in c):
                        return c[::-1]
                    if o.kind in ("list", "set"):
                        return c
                    if o.kind == "dict":
                        return tuple(k for k, _ in c)
                    if o.kind == "inst":
                        f = o.cls.lookup("__iter__") if isinstance(o.cls, Cls) else None
                        return None if f is None else self.known_items(st, self.call(st, BoundM(f, v), [], {}))
                if isinstance(c, T):
                    if c.op in ("list", "tuple"):
                        return tuple(self.from_T(st, x) for x in c.args)
                    if c.op == "dict":
                        return tuple(self.from_T(st, k) for k, _ in c.args)
                    s = tm.shape(c)
                    if s and isinstance(s[0], int):
                        return tuple(self._array_elem(st, v, i, s) for i in range(s[0]))
                return None

            if isinstance(c, U):
                out = []
                for g, w in cases_of(c, st.pc):
                    x = items(w)
                    if x is None:
                        return None
                    out.append((g, x))
                lens = {len(x) for _, x in out}
                if len(lens) == 1:
                    return tuple(mk_union([(g, x[i]) for g, x in out]) for i in range(lens.pop()))
                return U(out)
            return items(c)
        if isinstance(v, T):
            if v.op in ("list", "tuple"):
                return tuple(self.from_T(st, x) for x in v.args)
            s = tm.shape(v)
            if s and isinstance(s[0], int):
                return tuple(self.from_T(st, tm.getitem(v, (i,))) for i in range(s[0]))
        return None

    def _array_elem(self, st, ref, i, s):
        if len(s) > 1:
            return Ref(ref.addr, ref.path + ((i,),))
        t = self.lift(st, self.content(st, ref), lambda c: self._scalar(tm.getitem(c, (i,))))
        return t

    @staticmethod
    def _scalar(t):
        return t.args[1] if tm.is_k(t) else t

    # ------------------------------------------------------------------ expressions
    def eval(self, n, st):
        if st.pc == 0:
            return mk("unknown", "dead")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at {self.loc}")
        old = self.loc
        if hasattr(n, "lineno"):
            self.loc = (self.loc[0], self.loc[1], n.lineno)
            tm.CURRENT_LOC[0] = self.loc
        v = m(n, st)
        self.loc = old
        return v

    def e_Constant(self, n, st):
        return n.value

    def e_Name(self, n, st):
        return self.lookup_name(st, n.id)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        st.env[n.target.id] = v
        return v

    def _elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                k = self.known_items(st, v)
                if k is None or isinstance(k, U):
                    raise Unsupported("star of unknown")
                out += list(k)
            else:
                out.append(self.eval(x, st))
        return out

    def e_Tuple(self, n, st):
        return Tup(self._elts(n.elts, st))

    def e_List(self, n, st):
        return self.new_list(st, self._elts(n.elts, st))

    def e_Set(self, n, st):
        return self.make_set(st, self._elts(n.elts, st))

    def make_set(self, st, items):
        seen, out = set(), []
        for x in items:
            k = leaf_key(x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        r = self.alloc(st, "set", tuple(out))
        self.event("set", st, r.addr)
        return r

    def e_Dict(self, n, st):
        r = self.new_dict(st, ())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(st, r, self.eval(v, st))
                continue
            kk = self.eval(k, st)
            vv = self.eval(v, st)
            if st.pc == 0:
                break
            o = self.obj(st, r)
            if type(o.content) is tuple and any(leaf_key(a) == leaf_key(kk) for a, _ in o.content):
                self.event("dup_key", st, self.as_T(st, kk))
            self.setitem(st, r, kk, vv)
        return r

    def dict_update(self, st, r, v):
        if isinstance(v, U):
            self.branch(st, cases_of(v, st.pc), lambda s, w: self.dict_update(s, r, w))
            return
        if isinstance(v, Ref):
            c = self.content(st, v)
            if type(c) is tuple and self.obj(st, v).kind == "dict":
                for k, x in c:
                    self.setitem(st, r, k, x)
                return
            if isinstance(c, U) and self.obj(st, v).kind == "dict" and all(type(w) is tuple for _, w in cases_of(c, st.pc)):
                self.branch(st, cases_of(c, st.pc), lambda s, w: [self.setitem(s, r, k, x) for k, x in w] and None)
                return
            k = self.known_items(st, v) if self.obj(st, v).kind != "dict" else None
            if k is not None:
                self.dict_pairs(st, r, k)
                return
        self.set_content(st, r, mk("unknown", "dict_update", self.as_T(st, v)), "update")

    def dict_pairs(self, st, r, k):
        if isinstance(k, U):
            self.branch(st, cases_of(k, st.pc), lambda s, w: self.dict_pairs(s, r, w))
            return
        for pair in k:
            self.dict_pair(st, r, pair)

    def dict_pair(self, st, r, pair):
        if isinstance(pair, U):
            self.branch(st, cases_of(pair, st.pc), lambda s, w: self.dict_pair(s, r, w))
            return
        p = self.known_items(st, pair)
        if p is not None and not isinstance(p, U) and len(p) == 2:
            self.setitem(st, r, p[0], p[1])
        else:
            self.set_content(st, r, mk("unknown", "dict_update", self.as_T(st, pair)), "update")

    def e_JoinedStr(self, n, st):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                parts.append(self.eval(x, st))
        return self.join_parts(st, parts)

    def join_parts(self, st, parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        us = [p for p in parts if isinstance(p, U)]
        if us:
            n = 1
            for p in us:
                n *= len(cases_of(p, st.pc))
            if n <= 64:
                i = next(k for k, p in enumerate(parts) if isinstance(p, U))
                return mk_union([(g, self.join_parts(st, parts[:i] + [w] + parts[i + 1:])) for g, w in cases_of(parts[i], st.pc)])
        flat = []
        for p in parts:
            t = self.as_T(st, p)
            for q in (t.args if t.op == "fstr" else (t,)):
                if flat and tm.is_k(q) and tm.is_k(flat[-1]) and isinstance(q.args[1], str) and isinstance(flat[-1].args[1], str):
                    flat[-1] = const(flat[-1].args[1] + q.args[1])
                elif not (tm.is_k(q) and q.args[1] == ""):
                    flat.append(q)
        if len(flat) == 1 and tm.is_k(flat[0]):
            return flat[0].args[1]
        return mk("fstr", *flat)

    def e_FormattedValue(self, n, st):
        v = self.eval(n.value, st)
        spec = self.eval(n.format_spec, st) if n.format_spec is not None else ""
        conv = chr(n.conversion) if n.conversion and n.conversion > 0 else ""
        return self.lift2(st, v, spec, lambda x, s: self.format_value(st, x, s, conv))

    def format_value(self, st, x, spec, conv):
        if (x is None or isinstance(x, SCALARS)) and isinstance(spec, str):
            y = {"r": repr, "s": str, "a": ascii, "": lambda z: z}[conv](x)
            try:
                return format(y, spec)
            except Exception:
                self.raise_builtin(st, "ValueError", "format")
                return ""
        for n in ("__format__",) if conv == "" else ():
            f = self.inst_method(st, x, n)
            if f is not None:
                return self.call(st, f, [spec], {})
        for n in ("__str__", "__repr__") if conv in ("", "s") else ("__repr__",):
            f = self.inst_method(st, x, n)
            if f is not None:
                return self.lift(st, self.call(st, f, [], {}), lambda y: self.format_value(st, y, spec, ""))
        t = self.as_T(st, x)
        if t.op == "fstr" and spec == "" and conv in ("", "s"):
            return t
        if t.op == "sym" and t.args[1] == "str" and spec == "" and conv in ("", "s"):
            return t
        return mk("fmt", t, spec if isinstance(spec, str) else self.as_T(st, spec), conv)

    def e_Lambda(self, n, st):
        fd = ast.FunctionDef(name="<lambda>", args=n.args, body=[ast.Return(value=n.body, lineno=n.lineno, col_offset=0)], decorator_list=[], lineno=n.lineno, col_offset=0)
        return self.make_fun(fd, st, "<lambda>")

    def e_IfExp(self, n, st):
        c = self.truth(st, self.eval(n.test, st))
        if st.pc == 0:
            return mk("unknown", "dead")
        return self.branch(st, [(c, True), (NOT(c), False)], lambda s, w: self.eval(n.body if w else n.orelse, s))

    def e_BoolOp(self, n, st):
        def go(vals, s):
            v = self.eval(vals[0], s)
            if len(vals) == 1 or s.pc == 0:
                return v
            c = self.truth(s, v)
            stop = NOT(c) if isinstance(n.op, ast.And) else c
            v = self.simp_short(s, v, stop)
            if AND(s.pc, stop) == 0:
                return go(vals[1:], s)
            if AND(s.pc, NOT(stop)) == 0:
                return v
            return self.branch(s, [(stop, True), (NOT(stop), False)], lambda x, w: v if w else go(vals[1:], x))

        r = go(n.values, st)
        return self._as_bool_union(r, st)

    def simp_short(self, st, v, stop):
        return v

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return self.bool_value(NOT(self.truth(st, v)))
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)]

        m = self.inst_method(st, v, {"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op])
        if m is not None:
            return self.call(st, m, [], {})

        def f(w):
            if isinstance(w, bool):
                w = int(w)
            if isinstance(w, SCALARS):
                try:
                    return {"-": lambda: -w, "+": lambda: +w, "~": lambda: ~w}[op]()
                except TypeError:
                    self.raise_builtin(st, "TypeError")
                    return mk("unknown", "unary")
            if self.pyseq(st, w):
                self.raise_builtin(st, "TypeError", f"bad operand type for unary {op}")
                return mk("unknown", "typeerror")
            return tm.unop(op, self.as_T(st, w))

        return self.wrap_arrays(st, v, self.lift(st, self.deref(st, v), f))

    def deref(self, st, v):
        """Terms/scalars instead of array references (pure operations)."""
        if isinstance(v, Ref) and self.obj(st, v).kind == "array":
            return self.content(st, v)
        if isinstance(v, U):
            return mk_union([(g, self.deref(st, w)) for g, w in cases_of(v, st.pc)])
        return v

    def wrap_arrays(self, st, src, v):
        """Allocate one fresh array object for a (union of) array term(s)."""
        cs = cases_of(v, st.pc)
        if all(isinstance(w, T) and (tm.shape(w) not in (None, ())) for _, w in cs):
            return self.new_array(st, v)
        if isinstance(v, U):
            return mk_union([(g, self.from_T(st, w)) for g, w in cs])
        if isinstance(v, T):
            return self.from_T(st, v)
        return v

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        if st.pc == 0:
            return mk("unknown", "dead")
        return self.binary(st, OPS[type(n.op)], a, b, is_literal(n.left) or is_literal(n.right))

    def pyseq(self, st, v):
        """"list" or "tuple" if the value is certainly a plain sequence and not an array."""
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o.kind == "list" and not isinstance(o.cls, Cls) and type(self.content(st, v)) is tuple:
                return "list"
        return None

    def seq_type_error(self, st, op, a, b, literal):
        """Arithmetic that lists and tuples do not have: both operands are plain, or the other one is a literal number."""
        x, y = self.pyseq(st, a), self.pyseq(st, b)
        if x and y:
            return not (op == "+" and x == y)
        if not (x or y):
            return False
        other = b if x else a
        if self.pyfloat and isinstance(other, T) and other.op == "sym" and other.args[1] == "float":
            return True
        if not literal:
            return False
        return isinstance(other, (int, float)) and (op != "*" or isinstance(other, float))

    def binary(self, st, op, a, b, literal=False):
        if self.has_dunders and not (isinstance(a, U) or isinstance(b, U)):
            r = self.dunder_binary(st, op, a, b)
            if r is not NotImplemented:
                return r
        # lists, strings, tuples, sets
        if self._structural(st, a) or self._structural(st, b):
            ca, cb = cases_of(a, st.pc), cases_of(b, st.pc)
            if len(ca) * len(cb) > 1:
                return self.lift2(st, a, b, lambda x, y: self.binary(st, op, x, y, literal))
            a, b = ca[0][1], cb[0][1]
            r = self.binary_struct(st, op, a, b)
            if r is not NotImplemented:
                return r
            if self.seq_type_error(st, op, a, b, literal):
                self.raise_builtin(st, "TypeError", f"unsupported operand of {op}: list or tuple")
                return mk("unknown", "typeerror")
        a, b = self.deref(st, a), self.deref(st, b)
        if self._structural(st, a) and self._structural(st, b) is False and not isinstance(a, U):
            a = self.numeric(st, a)
        if self._structural(st, b) and not isinstance(b, U):
            b = self.numeric(st, b)
        r = self.lift2(st, a, b, lambda x, y: self.bin_leaf(st, op, x, y))
        return self.wrap_arrays(st, None, r)

    def _structural(self, st, v):
        if isinstance(v, U):
            return any(self._structural(st, w) for _, w in v.cases)
        if isinstance(v, (str, Tup)):
            return True
        if isinstance(v, Ref):
            return self.obj(st, v).kind != "array"
        if isinstance(v, T):
            return v.op in ("fstr", "fmt") or (v.op == "sym" and v.args[1] == "str")
        return False

    def binary_struct(self, st, op, a, b):
        strish = lambda x: isinstance(x, str) or (isinstance(x, T) and (x.op in ("fstr", "fmt", "mcall", "call", "getitem", "unknown", "elem", "attr", "lookup", "item") or (x.op == "sym" and x.args[1] == "str")))
        if op == "+":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if strish(a) and strish(b):
                return self.join_parts(st, [a, b])
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Ref) and isinstance(b, Ref):
                oa, ob = self.obj(st, a), self.obj(st, b)
                if oa.kind == ob.kind == "list":
                    ca, cb = self.content(st, a), self.content(st, b)
                    if type(ca) is tuple and type(cb) is tuple:
                        return self.new_list(st, ca + cb)
                    return self.alloc(st, "list", mk("concat", self.as_T(st, a), self.as_T(st, b)))
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and not isinstance(y, bool):
                    if isinstance(x, str):
                        return x * y
                    if isinstance(x, Tup):
                        return Tup(x.items * y)
                    if isinstance(x, Ref) and self.obj(st, x).kind == "list" and type(self.content(st, x)) is tuple:
                        return self.new_list(st, self.content(st, x) * y)
        if op == "%" and isinstance(a, str):
            if isinstance(b, SCALARS):
                try:
                    return a % b
                except Exception:
                    pass
            from . import lib
            its = b.items if isinstance(b, Tup) else (b,) if not isinstance(b, Ref) or self.obj(st, b).kind in ("array", "list") else None
            parts = lib.percent_parts(self, st, a, its) if its is not None else None
            if parts is not None:
                return self.join_parts(st, parts)
            return mk("call", "builtins.percent", (const(a), self.as_T(st, b)), ())
        if op in ("|", "&", "-", "^") and isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(st, a), self.obj(st, b)
            if oa.kind == ob.kind == "set":
                return self.set_op(st, op, a, b)
            if oa.kind == ob.kind == "dict" and op == "|":
                r = self.new_dict(st, ())
                self.dict_update(st, r, a)
                self.dict_update(st, r, b)
                return r
        if isinstance(a, str) and (isinstance(b, (int, float)) or b is None) or isinstance(b, str) and (isinstance(a, (int, float)) or a is None):
            if op == "+":
                self.raise_builtin(st, "TypeError", "str +")
                return mk("unknown", "typeerror")
        return NotImplemented

    def set_op(self, st, op, a, b):
        ca, cb = self.content(st, a), self.content(st, b)
        if type(ca) is tuple and type(cb) is tuple:
            kb = {leaf_key(x) for x in cb}
            ka = {leaf_key(x) for x in ca}
            if op == "|":
                return self.make_set(st, ca + cb)
            if op == "&":
                return self.make_set(st, [x for x in ca if leaf_key(x) in kb])
            if op == "-":
                return self.make_set(st, [x for x in ca if leaf_key(x) not in kb])
            return self.make_set(st, [x for x in ca if leaf_key(x) not in kb] + [x for x in cb if leaf_key(x) not in ka])
        return self.alloc(st, "set", mk("setop", op, self.as_T(st, a), self.as_T(st, b)))

    def numeric(self, st, v):
        """nested list/tuple -> array term"""
        return self.to_array_T(st, v)

    def bin_leaf(self, st, op, x, y):
        if isinstance(x, SCALARS) and isinstance(y, SCALARS):
            try:
                return tm.PYBIN[op](x, y)
            except ZeroDivisionError:
                self.raise_builtin(st, "ZeroDivisionError")
            except TypeError as e:
                self.raise_builtin(st, "TypeError", str(e))
            except Exception as e:
                self.raise_builtin(st, type(e).__name__, str(e))
            return mk("unknown", "err")
        if x is None or y is None:
            self.raise_builtin(st, "TypeError", f"unsupported operand of {op}: None")
            return mk("unknown", "typeerror")
        tx, ty = self.num_T(st, x), self.num_T(st, y)
        try:
            return self._scalar(tm.binop(op, tx, ty))
        except Exception:
            return mk("bin", op, tx, ty)

    def num_T(self, st, v):
        if isinstance(v, (Tup, Ref)):
            return self.to_array_T(st, v)
        return self.as_T(st, v)

    def to_array_T(self, st, v):
        """np.array(v) as a term."""
        if isinstance(v, T):
            if v.op in ("list", "tuple"):
                return self._lit(st, [self.to_array_T(st, x) for x in v.args])
            return v
        if v is None or isinstance(v, SCALARS):
            return const(v)
        if isinstance(v, U):
            cs = cases_of(v, st.pc)
            r = self.to_array_T(st, cs[-1][1])
            for g, w in reversed(cs[:-1]):
                r = mk("ite", g, self.to_array_T(st, w), r)
            return r
        if isinstance(v, Ref):
            o = self.obj(st, v)
            c = self.content(st, v)
            if isinstance(c, U):
                cs = cases_of(c, st.pc)
                f = lambda w: w if isinstance(w, T) else self._lit(st, [self.to_array_T(st, x) for x in w])
                r = f(cs[-1][1])
                for g, w in reversed(cs[:-1]):
                    r = mk("ite", g, f(w), r)
                return r
            if isinstance(c, T):
                return self.to_array_T(st, c) if c.op in ("list", "tuple") else c
            if o.kind == "list":
                return self._lit(st, [self.to_array_T(st, x) for x in c])
            return self.as_T(st, v)
        if isinstance(v, Tup):
            return self._lit(st, [self.to_array_T(st, x) for x in v.items])
        return self.as_T(st, v)

    def _lit(self, st, items):
        if not items:
            return mk("arr", (0,))
        shapes = [tm.shape(x) for x in items]
        if all(s is not None for s in shapes) and len(set(shapes)) == 1 and all(isinstance(n, int) for n in shapes[0]):
            s = shapes[0]
            if s == ():
                return tm.arr((len(items),), items)
            els = []
            ok = True
            for x in items:
                e = tm.expand(x)
                if e is None:
                    ok = False
                    break
                els += list(e.args[1:])
            if ok:
                return tm.arr((len(items),) + s, els)
        elif all(s is not None and all(isinstance(n, int) for n in s) for s in shapes) and st.pc != 0:
            self.raise_builtin(st, "ValueError", "setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return mk("call", "numpy.array", (mk("list", *items),), ())

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        res = None
        for op, r in zip(n.ops, n.comparators):
            if st.pc == 0:
                break
            right = self.eval(r, st)
            v = self.compare(st, CMPS[type(op)], left, right)
            if res is None:
                res = v
            else:
                res = self.bool_value(AND(self.truth(st, res), self.truth(st, v)))
            left = right
        return res

    def e_Attribute(self, n, st):
        o = self.eval(n.value, st)
        return self._attr_value(self.getattr(st, o, n.attr))

    def _attr_value(self, v):
        """Attribute of an opaque term which is not called at once: a term."""
        if isinstance(v, BoundM) and isinstance(v.fn, Ext) and v.fn.name.startswith("term.") and isinstance(v.self_, T):
            return mk("attr", v.self_, v.fn.name[5:])
        if isinstance(v, U) and any(isinstance(w, BoundM) for _, w in v.cases):
            return U([(g, self._attr_value(w)) for g, w in v.cases])
        return v

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        i = self.eval_index(n.slice, st)
        if st.pc == 0:
            return mk("unknown", "dead")
        return self.getitem(st, o, i)

    def eval_index(self, n, st):
        return self.eval(n, st)

    def e_Slice(self, n, st):
        f = lambda x: None if x is None else self.eval(x, st)
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def e_Starred(self, n, st):
        raise Unsupported("starred")

    def e_ListComp(self, n, st):
        r = self.new_list(st, ())
        self._comp(n.generators, st, lambda s: self.list_append(s, r, self.eval(n.elt, s)))
        return r

    def e_GeneratorExp(self, n, st):
        return self.iterator(st, self.e_ListComp(n, st))

    def e_SetComp(self, n, st):
        r = self.new_list(st, ())
        self._comp(n.generators, st, lambda s: self.list_append(s, r, self.eval(n.elt, s)))
        k = self.known_items(st, r)
        if k is None or isinstance(k, U):
            return self.alloc(st, "set", mk("toset", self.as_T(st, r)))
        return self.make_set(st, k)

    def e_DictComp(self, n, st):
        r = self.new_dict(st, ())
        self._comp(n.generators, st, lambda s: self.setitem(s, r, self.eval(n.key, s), self.eval(n.value, s)))
        return r

    def _comp(self, gens, st, body):
        saved = dict(st.env)
        names = set()
        for g in gens:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)

        def go(gs, s):
            if not gs:
                body(s)
                return
            g = gs[0]
            it = self.eval(g.iter, s)
            if s.pc == 0:
                return

            def inner(x):
                for c in g.ifs:
                    t = self.truth(x, self.eval(c, x))
                    if x.pc == 0:
                        return
                    if AND(x.pc, NOT(t)):
                        y = x.fork(NOT(t))
                        self.loopstack[-1][1].append(y)
                        x.pc = AND(x.pc, t)
                        if x.pc == 0:
                            return
                go(gs[1:], x)

            self.run_for(s, it, lambda x, v: self.assign(g.target, v, x), inner)

        go(gens, st)
        if st.pc:
            for n in names:
                if n in saved:
                    st.env[n] = saved[n]
                else:
                    st.env.pop(n, None)

    # ------------------------------------------------------------------ attributes
    def getattr(self, st, o, name):
        if isinstance(o, U):
            return self.branch(st, cases_of(o, st.pc), lambda s, w: self.getattr(s, w, name))
        if isinstance(o, Mod):
            if name in o.env:
                return o.env[name]
            if f"{o.name}.{name}" in self.modules:
                return self.load(f"{o.name}.{name}")
            self.raise_builtin(st, "AttributeError", name)
            return mk("unknown", "attr")
        if isinstance(o, Ext):
            return self.ext_attr(o.name, name)
        if isinstance(o, Cls):
            if any(isinstance(c, Cls) and name in c.tainted for c in o.mro()):
                return mk("unknown", "class attribute", name)
            v = o.lookup(name)
            if v is not None:
                if isinstance(v, Fun) and v.kind == "classmethod":
                    return BoundM(v, o)
                return v
            if name in ("__name__", "__qualname__"):
                return o.name
            for b in o.mro():
                if isinstance(b, Ext):
                    return self.ext_attr(b.name, name)
            if name in ("__init__", "__setattr__", "__new__"):
                return Ext("builtins.object." + name)
            self.raise_builtin(st, "AttributeError", name)
            return mk("unknown", "attr")
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if ob.kind == "inst" or (ob.cls is not None and isinstance(ob.cls, Cls)):
                return self.inst_getattr(st, o, ob, name)
            if ob.kind == "array":
                return self.array_attr(st, o, name)
            if ob.kind == "exc":
                if name in ("add_note", "with_traceback"):
                    return BoundM(Ext("exc." + name), o)
                return mk("attr", self.as_T(st, o), name)
            if ob.kind == "ext":
                return BoundM(Ext("method." + name), o)
            if ob.kind in KINDS and not hasattr(KINDS[ob.kind], name) and not (isinstance(ob.cls, tuple) and hasattr(SPECIAL.get(ob.cls[0]), name)):
                self.raise_builtin(st, "AttributeError", f"{ob.kind}.{name}")
                return mk("unknown", "attr")
            return BoundM(Ext(ob.kind + "." + name), o)
        if isinstance(o, Tup) and o.names is not None:
            if name in o.names[1]:
                return o.items[o.names[1].index(name)]
            if name in ("_asdict", "_replace", "_fields"):
                return Tup(o.names[1]) if name == "_fields" else BoundM(Ext("ntuple." + name), o)
            a = o.names[0].lookup(name) if o.names[0] is not None else None
            if isinstance(a, Fun):
                return self.call(st, BoundM(a, o), [], {}) if a.kind == "property" else BoundM(a, o)
        if isinstance(o, Tup) and self.named_tuples and not hasattr(tuple, name):
            return mk("unknown", "attr", name)
        if isinstance(o, (str, Tup)) and not hasattr(str if isinstance(o, str) else tuple, name):
            self.raise_builtin(st, "AttributeError", name)
            return mk("unknown", "attr")
        if isinstance(o, str):
            return BoundM(Ext("str." + name), o)
        if o is None:
            self.raise_builtin(st, "AttributeError", f"None.{name}")
            return mk("unknown", "attr")
        if isinstance(o, SCALARS):
            return BoundM(Ext("scalar." + name), o)
        if isinstance(o, Tup):
            return BoundM(Ext("tuple." + name), o)
        if isinstance(o, Fun):
            if name in ("__name__", "__qualname__"):
                return o.node.name
            if name == "__doc__":
                return None
            return mk("attr", mk("fn", o.qual), name)
        if isinstance(o, BoundM):
            return mk("attr", self.as_T(st, o), name)
        if isinstance(o, T):
            return self.term_attr(st, o, name)
        raise Unsupported(f"getattr {o!r}.{name}")

    def term_attr(self, st, o, name):
        self.note_mayraise(mk("attr", o, name))
        if name in ("T", "shape", "ndim", "size"):
            s = tm.shape(o)
            if name == "T":
                return self.from_T(st, tm.transpose(o))
            if name == "shape" and s is not None and all(isinstance(n, int) for n in s):
                return Tup(s)
            if name == "ndim" and s is not None:
                return len(s)
        return BoundM(Ext("term." + name), o)

    def inst_getattr(self, st, o, ob, name):
        c = ob.cls
        d = UNBOUND
        if ob.kind == "inst":
            cont = ob.content
            if type(cont) is tuple:
                for k, v in cont:
                    if k == name:
                        d = simp(v, st.pc)
        a = c.lookup(name)
        if isinstance(a, Fun) and a.kind == "property":
            return self.call(st, BoundM(a, o), [], {})
        if isinstance(a, Fun) and a.kind == "cached_property" and d is UNBOUND:
            v = self.call(st, BoundM(a, o), [], {})
            self.setattr(st, o, name, v, raw=True)
            return v
        if d is not UNBOUND:
            return d
        if a is not None:
            if isinstance(a, Fun):
                if a.kind == "staticmethod":
                    return a
                if a.kind == "classmethod":
                    return BoundM(a, c)
                return BoundM(a, o)
            if isinstance(a, Ext):
                return BoundM(a, o)
            return a
        if name == "__class__":
            return c
        if ob.kind == "dict" and hasattr(dict, name):
            return BoundM(Ext("dict." + name), o)
        g = c.lookup("__getattr__")
        if g is not None:
            return self.call(st, BoundM(g, o), [name], {})
        for b in c.mro():
            if isinstance(b, Ext) and b.name.startswith("builtins.") and b.name not in ("builtins.object", "builtins.dict"):
                if isinstance(getattr(builtins, b.name[9:], None), type) and issubclass(getattr(builtins, b.name[9:]), BaseException):
                    return BoundM(Ext("exc." + name), o)
        if any(isinstance(b, Ext) for b in c.mro()) or not (ob.kind == "inst" and type(ob.content) is tuple):
            if not all(isinstance(b, Cls) or b.name in ("abc.ABC", "builtins.object", "builtins.dict", "builtins.Exception") for b in c.mro()):
                return mk("attr", self.as_T(st, o), name)
        if name == "__dict__":
            return mk("attr", self.as_T(st, o), name)
        self.raise_builtin(st, "AttributeError", f"{c.name}.{name}")
        return mk("unknown", "attr", name)

    def array_attr(self, st, o, name):
        t = self.content(st, o)
        s = tm.shape(t) if isinstance(t, T) else (lambda ss: ss.pop() if len(ss) == 1 else None)({tm.shape(w) for _, w in cases_of(t, st.pc)})
        if name == "T":
            return Ref(o.addr, o.path + (("T",),)) if not (o.path and o.path[-1] == ("T",)) else Ref(o.addr, o.path[:-1])
        if name == "shape":
            if s is not None:
                return Tup([n if isinstance(n, int) else mk("dim", self.as_T(st, o), i) for i, n in enumerate(s)])
            return mk("attr", self.as_T(st, o), "shape")
        if name == "ndim" and s is not None:
            return len(s)
        if name == "size" and s is not None and all(isinstance(n, int) for n in s):
            return int(np.prod(s))
        if name == "dtype":
            return mk("attr", self.as_T(st, o), "dtype")
        return BoundM(Ext("array." + name), o)

    def delattr(self, st, o, name, raw=False):
        if isinstance(o, U):
            self.branch(st, cases_of(o, st.pc), lambda s, w: self.delattr(s, w, name, raw))
            return
        if not isinstance(o, Ref):
            self.event("delattr", st, (self.as_T(st, o), name))
            return
        ob = self.obj(st, o)
        if isinstance(ob.cls, Cls) and not raw:
            a = ob.cls.lookup(name)
            if isinstance(a, Fun) and a.kind == "property":
                if getattr(a, "deleter", None) is None:
                    self.raise_builtin(st, "AttributeError", f"can't delete {name}")
                    return
                self.call(st, BoundM(a.deleter, o), [], {})
                return
            da = ob.cls.lookup("__delattr__")
            if da is not None:
                self.call(st, BoundM(da, o), [name], {})
                return
            if ob.cls.frozen:
                self.raise_builtin(st, "AttributeError", "frozen")
                return
        if ob.kind == "inst" and type(ob.content) is tuple:
            if not any(k == name for k, _ in ob.content):
                self.raise_builtin(st, "AttributeError", name)
                return
            self.set_content(st, o, tuple((k, v) for k, v in ob.content if k != name), "del attr", name)
            return
        if ob.kind in KINDS and isinstance(ob.cls, Cls):
            self.raise_builtin(st, "AttributeError", name)
            return
        self.event("delattr", st, (self.as_T(st, o), name))

    def setattr(self, st, o, name, v, raw=False):
        if isinstance(o, U):
            self.branch(st, cases_of(o, st.pc), lambda s, w: self.setattr(s, w, name, v))
            return
        if isinstance(o, Cls):
            if not self.frames or self.frames[-1].is_class:
                o.attrs[name] = v
                return
            o.tainted.add(name)
            self.event("mutate", st, (f"const:{o}", "setattr", name, None))
            return
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if isinstance(ob.cls, Cls) and not raw:
                a = ob.cls.lookup(name)
                if isinstance(a, Fun) and a.kind == "property":
                    if a.setter is None:
                        self.raise_builtin(st, "AttributeError", f"can't set {name}")
                        return
                    self.call(st, BoundM(a.setter, o), [v], {})
                    return
                sa = ob.cls.lookup("__setattr__")
                if sa is not None:
                    self.call(st, BoundM(sa, o), [name, v], {})
                    return
                if ob.cls.frozen:
                    self.raise_builtin(st, "AttributeError", "frozen")
                    return
            if ob.kind == "inst":
                c = ob.content if type(ob.content) is tuple else ()
                new = tuple((k, v if k == name else w) for k, w in c)
                if not any(k == name for k, _ in c):
                    new += ((name, v),)
                self.set_content(st, o, new, "setattr", name)
                return
            self.event("setattr", st, (self.as_T(st, o), name))
            return
        if isinstance(o, (Cls, Mod)):
            self.event("mutate", st, (f"const:{o}", "setattr", name, None))
            return
        self.event("setattr", st, (self.as_T(st, o), name))

    # ------------------------------------------------------------------ items
    def _is_constkey(self, k):
        return k is None or isinstance(k, SCALARS) or (isinstance(k, Tup) and all(self._is_constkey(x) for x in k.items))

    def norm_index(self, st, i):
        """index value -> tuple for tm.getitem or None"""
        items = i.items if isinstance(i, Tup) else (i,)
        out = []
        for x in items:
            if x is None:
                out.append(("none",))
            elif isinstance(x, SliceV):
                p = []
                for y in (x.a, x.b, x.c):
                    if y is None or isinstance(y, int):
                        p.append(y)
                    else:
                        p.append(self.as_T(st, y))
                out.append(("slice",) + tuple(p))
            elif isinstance(x, bool):
                return None
            elif isinstance(x, int):
                out.append(x)
            elif isinstance(x, float):
                return None
            else:
                t = self.as_T(st, x)
                if t.op == "list" or t.op == "tuple":
                    t = self.to_array_T(st, t)
                out.append(t)
        return tuple(out)

    def getitem(self, st, o, i):
        if isinstance(o, U):
            return self.branch(st, cases_of(o, st.pc), lambda s, w: self.getitem(s, w, i))
        if isinstance(i, U) and not isinstance(i, SliceV):
            return self.branch(st, cases_of(i, st.pc), lambda s, w: self.getitem(s, o, w))
        if isinstance(o, (str, Tup)):
            seq = o if isinstance(o, str) else o.items
            if isinstance(i, int):
                try:
                    return seq[i]
                except IndexError:
                    self.raise_builtin(st, "IndexError")
                    return mk("unknown", "index")
            if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
                r = seq[i.a: i.b: i.c]
                return r if isinstance(o, str) else Tup(r)
            if self.bad_index(st, i):
                self.raise_builtin(st, "TypeError", "indices must be integers or slices")
                return mk("unknown", "typeerror")
            if isinstance(o, Tup):
                return mk("getitem", self.as_T(st, o), (self.as_T(st, i),))
            return mk("getitem", const(o), (self.as_T(st, i),))
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if isinstance(ob.cls, Cls):
                g = ob.cls.lookup("__getitem__")
                if g is not None:
                    return self.call(st, BoundM(g, o), [i], {})
            c = self.content(st, o)
            if ob.kind == "array" or (isinstance(c, T) and ob.kind == "list" and tm.shape(c) not in (None, ())):
                return self.array_getitem(st, o, i)
            if isinstance(c, U):
                return self.branch(st, cases_of(c, st.pc), lambda s, w: self.container_getitem(s, o, ob, w, i))
            return self.container_getitem(st, o, ob, c, i)
        if isinstance(o, T):
            self.note_mayraise(mk("getitem?", o))
            idx = self.norm_index(st, i)
            if idx is not None and tm.shape(o) not in (None,):
                return self.from_T(st, tm.getitem(o, idx))
            return mk("getitem", o, (self.as_T(st, i) if not isinstance(i, int) else i,))
        if isinstance(o, Ext) or isinstance(o, Cls):
            if isinstance(o, Ext) and o.name in ("calendar.month_name", "calendar.month_abbr") and isinstance(i, int) and 1 <= i <= 12:
                return getattr(_calendar, o.name[9:])[i]
            if isinstance(o, Ext) and o.name == "sys.version_info" and isinstance(i, int) and -5 <= i < 5:
                return (3, 12, 3, "final", 0)[i]   # the interpreter which the package is installed for
            if isinstance(o, Cls) and getattr(o, "members", None) is not None and isinstance(i, str):
                for n, w, _ in o.members:
                    if n == i:
                        return w
                self.raise_builtin(st, "KeyError", i)
                return mk("unknown", "enum")
            return mk("typing", repr(o))
        if o is None or isinstance(o, SCALARS):
            self.raise_builtin(st, "TypeError", "not subscriptable")
            return mk("unknown", "typeerror")
        raise Unsupported(f"getitem {o!r}")

    def bad_index(self, st, i):
        """Certainly not an index of a plain sequence."""
        if i is None or i is Ellipsis or isinstance(i, (float, str, Tup)):
            return True
        if isinstance(i, Ref):
            o = self.obj(st, i)
            return o.kind in ("list", "dict", "set") or o.kind == "array" and tm.shape(self.as_T(st, i)) not in (None, ())
        return False

    def container_getitem(self, st, o, ob, c, i):
        if type(c) is tuple:
            if ob.kind == "list":
                if isinstance(i, bool):
                    i = int(i)
                if isinstance(i, int):
                    try:
                        return simp(c[i], st.pc)
                    except IndexError:
                        self.raise_builtin(st, "IndexError")
                        return mk("unknown", "index")
                if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
                    return self.new_list(st, c[i.a: i.b: i.c])
                if self.bad_index(st, i):
                    self.raise_builtin(st, "TypeError", "list indices must be integers or slices")
                    return mk("unknown", "typeerror")
                if isinstance(i, T):
                    return mk("getitem", self.as_T(st, o), (i,))
                return mk("unknown", "listindex", self.as_T(st, o), self.as_T(st, i))
            if ob.kind == "dict":
                fill = self.dict_filler(st, o, ob)
                if fill is not None:
                    g = self._in(st, i, o)
                    return self.branch(st, [(g, True), (NOT(g), False)], lambda x, w: self.dict_get(x, o, c, i, None, True) if w else fill(x, i))
                return self.dict_get(st, o, c, i, None, True)
            if ob.kind == "inst":
                return mk("unknown", "inst getitem")
        self.note_mayraise(mk("getitem?", c))
        if ob.kind == "list" or ob.kind == "ext":
            idx = self.norm_index(st, i)
            if isinstance(c, T) and c.op == "sym" and isinstance(c.args[1], tuple) and c.args[1][0] == "list" and isinstance(i, (int, T)):
                return mk("getitem", c, idx)
        return mk("getitem", c if isinstance(c, T) else self.as_T(st, o), (self.as_T(st, i) if not isinstance(i, int) else i,))

    def dict_filler(self, st, o, ob):
        """What gives the value of a missing key, or None."""
        if isinstance(ob.cls, Cls):
            f = ob.cls.lookup("__missing__")
            return (lambda x, i: self.call(x, BoundM(f, o), [i], {})) if f is not None else None
        if isinstance(ob.cls, tuple) and ob.cls[0] == "counter":
            return lambda x, i: 0
        if isinstance(ob.cls, tuple) and ob.cls[0] == "defaultdict" and ob.cls[1] is not None:
            def fill(x, i):
                v = self.call(x, ob.cls[1], [], {})
                self.setitem(x, o, i, v)
                return v
            return fill
        return None

    def dict_get(self, st, o, c, i, default, raise_missing):
        if self._is_constkey(i) and all(self._is_constkey(k) for k, _ in c):
            for k, v in c:
                if k == i or (leaf_key(k) == leaf_key(i)):
                    return simp(v, st.pc)
            if raise_missing:
                self.raise_builtin(st, "KeyError", i)
                return mk("unknown", "key", repr(i))
            return default
        # symbolic key: alternatives over the known keys, the latest binding first
        alts, left = [], TRUE
        for k, v in reversed(c):
            e = self._eq(st, i, k)
            if not isinstance(e, int):
                return mk("lookup", self.as_T(st, o), self.as_T(st, i))
            g = AND(left, e)
            if AND(st.pc, g):
                alts.append((g, v))
            left = AND(left, NOT(e))
        miss = AND(st.pc, left)
        if miss and len(alts) > 40:
            return mk("lookup", self.as_T(st, o), self.as_T(st, i))
        if miss:
            if raise_missing:
                self.raise_builtin(st, "KeyError", i, left)
            else:
                alts.append((left, default))
        if not alts:
            return mk("unknown", "key")
        return simp(mk_union(alts), st.pc)

    def array_getitem(self, st, o, i):
        idx = self.norm_index(st, i)
        if idx is None:
            return mk("unknown", "index")
        t = self.content(st, o)
        ts = [(g, tm.getitem(w, idx)) for g, w in cases_of(t, st.pc)]
        ss = {tm.shape(w) for _, w in ts}
        fancy = any(isinstance(x, T) and tm.shape(x) != () for x in idx)
        bad = [w for _, w in ts if False]
        for _, w in cases_of(t, st.pc):
            s = tm.shape(w)
            if s is not None:
                pos = 0
                for x in idx:
                    if isinstance(x, tuple) and x[0] == "none":
                        continue
                    if pos >= len(s) or (isinstance(x, int) and isinstance(s[pos], int) and not -s[pos] <= x < s[pos]):
                        self.raise_builtin(st, "IndexError")
                        return mk("unknown", "index")
                    pos += 1
        if ss == {()}:
            return self._scalar_u(mk_union(ts))
        if fancy or None in ss:
            if None in ss and not fancy:
                return Ref(o.addr, o.path + (idx,))
            return self.new_array(st, mk_union(ts))
        return Ref(o.addr, o.path + (idx,))

    def _scalar_u(self, v):
        if isinstance(v, U):
            return mk_union([(g, self._scalar(w) if isinstance(w, T) else w) for g, w in v.cases])
        return self._scalar(v) if isinstance(v, T) else v

    def setitem(self, st, o, i, v):
        if st.pc == 0:
            return
        if isinstance(o, U):
            self.branch(st, cases_of(o, st.pc), lambda s, w: self.setitem(s, w, i, v))
            return
        if isinstance(i, U):
            self.branch(st, cases_of(i, st.pc), lambda s, w: self.setitem(s, o, w, v))
            return
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if isinstance(ob.cls, Cls) and ob.cls.lookup("__setitem__") is not None:
                self.call(st, BoundM(ob.cls.lookup("__setitem__"), o), [i, v], {})
                return
            if ob.kind == "array" or o.path:
                idx = self.norm_index(st, i)
                if idx is None:
                    self.set_content(st, o, mk("unknown", "setitem"), "setitem", i)
                    return
                self.store_array(st, Ref(o.addr, o.path + (idx,)), v if not isinstance(v, (Tup, Ref)) else self._arr_or(st, v), "setitem")
                return
            c = ob.content
            if isinstance(c, U):
                self.set_content(
                    st, o, self._lift_content(st, ob.kind, c, lambda s, w: self._set_in(s, o, ob, w, i, v)), "setitem", i)
                return
            self.set_content(st, o, self._set_in(st, o, ob, c, i, v), "setitem", i)
            return
        if isinstance(o, (Tup, str, int, float)) or o is None:
            self.raise_builtin(st, "TypeError")
            return
        self.event("setitem_opaque", st, (self.as_T(st, o), self.as_T(st, i), self.as_T(st, v)))

    def _arr_or(self, st, v):
        return self.to_array_T(st, v)

    def _lift_content(self, st, kind, c, fn):
        return merge_contents(kind, [(g, fn(st, w)) for g, w in cases_of(c, st.pc)])

    def _set_in(self, st, o, ob, c, i, v):
        if type(c) is tuple:
            if ob.kind == "dict":
                k = leaf_key(i)
                if any(leaf_key(a) == k for a, _ in c):
                    if self._is_constkey(i) or leaf_key(c[-1][0]) == k:
                        return tuple((a, v if leaf_key(a) == k else b) for a, b in c)
                    return tuple((a, b) for a, b in c if leaf_key(a) != k) + ((i, v),)
                if self._is_constkey(i) and isinstance(i, (int, float)):
                    for n, (a, b) in enumerate(c):
                        if isinstance(a, (int, float)) and a == i:
                            return c[:n] + ((a, v),) + c[n + 1:]
                return c + ((i, v),)
            if ob.kind == "list":
                if isinstance(i, bool):
                    i = int(i)
                if isinstance(i, int):
                    if not -len(c) <= i < len(c):
                        self.raise_builtin(st, "IndexError")
                        return c
                    n = i % len(c)
                    return c[:n] + (v,) + c[n + 1:]
                if isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
                    k = self.known_items(st, v)
                    if k is not None and not isinstance(k, U):
                        l = list(c)
                        l[i.a: i.b: i.c] = list(k)
                        return tuple(l)
                if isinstance(i, T):
                    return tuple(mk_union([(self._cmp_atom("==", i, const(n)), v), (NOT(self._cmp_atom("==", i, const(n))), x)]) for n, x in enumerate(c))
        return mk("setitem", c if isinstance(c, T) else self._content_T(st, ob, c, 0), (self.as_T(st, i),), self.as_T(st, v))

    def list_append(self, st, r, v):
        if st.pc == 0:
            return
        ob = self.obj(st, r)

        def f(s, c):
            if type(c) is tuple:
                return c + (v,)
            return mk("append", c, self.as_T(s, v))

        c = self._lift_content(st, "list", ob.content, f) if isinstance(ob.content, U) else f(st, ob.content)
        self.set_content(st, r, c, "append")

    def list_extend(self, st, r, v):
        if isinstance(v, U):
            self.branch(st, cases_of(v, st.pc), lambda s, w: self.list_extend(s, r, w))
            return
        k = self.known_items(st, v)
        ob = self.obj(st, r)
        if k is None or isinstance(k, U):
            self.set_content(st, r, mk("concat", self.as_T(st, r), self.as_T(st, v)), "extend")
            return

        def f(s, c):
            if type(c) is tuple:
                return c + tuple(k)
            t = c
            for x in k:
                t = mk("append", t, self.as_T(s, x))
            return t

        c = self._lift_content(st, "list", ob.content, f) if isinstance(ob.content, U) else f(st, ob.content)
        self.set_content(st, r, c, "extend")

    # ------------------------------------------------------------------ calls
    def note_mayraise(self, t):
        if self.trydepth:
            a = t.args[0] if isinstance(t, T) and t.op == "getitem?" else None
            if isinstance(a, T) and a.op == "attr" and a.args[1] == "args" and isinstance(a.args[0], T) and a.args[0].op == "exc":
                return  # arguments of a caught exception: access is guarded by the program
            self.mayraise.append(t)

    def e_Call(self, n, st):
        if isinstance(n.func, ast.Attribute):
            o = self.eval(n.func.value, st)
            f = self.getattr(st, o, n.func.attr)
        else:
            f = self.eval(n.func, st)
        args, kwargs = [], {}
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                if isinstance(v, U):
                    v = simp(v, st.pc)
                if isinstance(v, U):
                    ks = [(g, self.known_items(st, w)) for g, w in cases_of(v, st.pc)]
                    same = all(isinstance(x, tuple) for _, x in ks) and len({len(x) for _, x in ks}) == 1
                    k = tuple(mk_union([(g, x[i]) for g, x in ks]) for i in range(len(ks[0][1]))) if same else None
                else:
                    k = self.known_items(st, v)
                if k is None or isinstance(k, U):
                    raise Unsupported("*args of unknown length")
                args += list(k)
            else:
                args.append(self.eval(x, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if isinstance(v, Ref) and self.obj(st, v).kind == "dict" and type(self.content(st, v)) is tuple:
                    for kk, vv in self.content(st, v):
                        kwargs[kk] = vv
                else:
                    raise Unsupported("**kwargs of unknown")
            else:
                kwargs[k.arg] = v
        if st.pc == 0:
            return mk("unknown", "dead")
        return self.call(st, f, args, kwargs, n)

    def call(self, st, f, args, kwargs, node=None):
        if isinstance(f, U):
            return self.branch(st, cases_of(f, st.pc), lambda s, w: self.call(s, w, args, kwargs, node))
        if isinstance(f, BoundM):
            if isinstance(f.fn, Ext):
                from . import lib
                return lib.call_method(self, st, f.fn.name, f.self_, args, kwargs)
            return self.call(st, f.fn, [f.self_] + args, kwargs, node)
        if isinstance(f, Fun):
            stub = self.stubs.get(f.qual)
            if stub is not None:
                self.calls_resolved += 1
                return stub(self, st, args, kwargs)
            return self.call_fun(st, f, args, kwargs)
        if isinstance(f, Cls):
            stub = self.stubs.get(f.qual)
            if stub is not None:
                return stub(self, st, args, kwargs)
            return self.instantiate(st, f, args, kwargs)
        if isinstance(f, Ext):
            from . import lib
            self.calls_external += 1
            return lib.call_ext(self, st, f.name, args, kwargs)
        if isinstance(f, Ref):
            ob = self.obj(st, f)
            if isinstance(ob.cls, Cls) and ob.cls.lookup("__call__"):
                return self.call(st, BoundM(ob.cls.lookup("__call__"), f), args, kwargs)
        if f is None:
            self.raise_builtin(st, "TypeError", "None not callable")
            return mk("unknown", "typeerror")
        if isinstance(f, T) and f.op == "attr" and isinstance(f.args[1], str):
            from . import lib
            return lib.call_method(self, st, "term." + f.args[1], f.args[0], args, kwargs)
        t = mk("callv", self.as_T(st, f), tuple(self.as_T(st, a) for a in args), tuple(sorted((k, self.as_T(st, v)) for k, v in kwargs.items())))
        self.note_mayraise(t)
        self.event("call_opaque", st, t)
        return t

    def instantiate(self, st, c, args, kwargs):
        ext_bases = [b for b in c.mro() if isinstance(b, Ext)]
        is_dict = any(b.name == "builtins.dict" for b in ext_bases)
        if is_dict:
            r = self.new_dict(st, (), "fresh", c)
            if c.lookup("__init__") is not None:
                self.call(st, BoundM(c.lookup("__init__"), r), args, kwargs)
                return r
            if args:
                self.dict_update(st, r, args[0])
            for k, v in kwargs.items():
                self.setitem(st, r, k, v)
            return r
        members = getattr(c, "members", None)
        if members is not None and len(args) == 1:
            for _, w, v in members:
                if leaf_key(v) == leaf_key(args[0]) or leaf_key(w) == leaf_key(args[0]):
                    return w
            if self._is_constkey(args[0]):
                self.raise_builtin(st, "ValueError", f"{args[0]!r} is not a valid {c.name}")
                return mk("unknown", "enum")
            g, out = TRUE, []
            for _, w, v in members:
                e = self._eq(st, args[0], v)
                if not isinstance(e, int):
                    return mk("unknown", "enum")
                out.append((AND(g, e), w))
                g = AND(g, NOT(e))
            self.raise_builtin(st, "ValueError", f"not a valid {c.name}", g)
            return simp(mk_union(out), st.pc)
        fields = getattr(c, "tuple_fields", None)
        if fields is not None:
            vals = dict(zip(fields, args))
            vals.update(kwargs)
            if len(args) > len(fields) or set(vals) - set(fields) or any(n not in vals and n not in c.attrs for n in fields):
                self.raise_builtin(st, "TypeError", c.name)
                return mk("unknown", "typeerror")
            return Tup([vals[n] if n in vals else c.attrs[n] for n in fields], self._names_of(c, fields))
        # abstract methods; BaseException.__new__ keeps the positional arguments
        r = self.alloc(st, "inst", (("args", Tup(list(args))),) if any(is_exception(b) for b in ext_bases) else (), "fresh", c)
        init = c.lookup("__init__")
        new = c.lookup("__new__")
        if init is not None:
            self.call(st, BoundM(init, r), args, kwargs)
        elif c.dataclass_fields is not None:
            vals = dict(zip(c.dataclass_fields, args))
            vals.update(kwargs)
            for n in c.dataclass_fields:
                if n not in vals and c.lookup(n) is not None:
                    v = c.lookup(n)
                    if isinstance(v, Tup) and v.names == "field":
                        kw = dict(v.items)
                        if "default" in kw:
                            vals[n] = kw["default"]
                        elif "default_factory" in kw:
                            vals[n] = self.call(st, kw["default_factory"], [], {})
                    else:
                        vals[n] = v
            if len(args) > len(c.dataclass_fields) or set(vals) - set(c.dataclass_fields) or any(n not in vals for n in c.dataclass_fields):
                self.raise_builtin(st, "TypeError", c.name)
                return mk("unknown", "typeerror")
            st.heap[r.addr] = self.obj(st, r)._replace(content=tuple((n, vals[n]) for n in c.dataclass_fields if n in vals))
            post = c.lookup("__post_init__")
            if post is not None:
                self.call(st, BoundM(post, r), [], {})
        elif ext_bases and args:
            st.heap[r.addr] = self.obj(st, r)._replace(content=(("args", Tup(args)),))
        return r

    def _names_of(self, c, fields):
        self._named = getattr(self, "_named", {})
        self.named_tuples = True
        return self._named.setdefault((id(c), tuple(fields)), (c, tuple(fields)))

    def prelude(self, name):
        """Function or class of the model of the standard library, by its qualified name, or None."""
        if name not in PRELUDE:
            return None
        if "wsa_prelude" not in self.modules:
            path = os.path.join(os.path.dirname(__file__), "prelude.txt")
            self.modules["wsa_prelude"] = Mod("wsa_prelude", ast.parse(open(path).read()), "model of the standard library", False)
        return self.load("wsa_prelude").env[PRELUDE[name]]

    def bind_args(self, st, f, args, kwargs):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(pos) and a.vararg is None:
            self.raise_builtin(st, "TypeError", f"too many arguments for {f.qual}")
            return None
        for n, v in zip(pos, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(pos):])
        extra = []
        allowed = set(pos) | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in allowed:
                if k in env:
                    self.raise_builtin(st, "TypeError", f"multiple values for {k}")
                    return None
                env[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                self.event("bad_call", st, (f.qual, k))
                self.raise_builtin(st, "TypeError", f"unexpected argument {k} for {f.qual}")
                return None
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(st, extra)
        for n in list(pos) + [p.arg for p in a.kwonlyargs]:
            if n not in env:
                if n in f.defaults:
                    env[n] = f.defaults[n]
                else:
                    self.event("bad_call", st, (f.qual, n))
                    self.raise_builtin(st, "TypeError", f"missing argument {n} for {f.qual}")
                    return None
        return env

    def call_fun(self, st, f, args, kwargs):
        if len(self.stack) > 60 or self.stack.count(f.qual) > (30 if args and all(self._is_constkey(x) for x in args) else 3):
            self.event("recursion", st, f.qual)
            return mk("unknown", "recursion", f.qual)
        self.calls_resolved += 1
        self.functions_seen.add(f.qual)
        env = self.bind_args(st, f, args, kwargs)
        if env is None:
            return mk("unknown", "badcall")
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            return self.call_generator(st, f, env)
        fr = Frame(f.qual, f.closure)
        save_loc, save_ls = self.loc, self.loopstack
        caller_envs, pc0 = st.envs, st.pc
        st.envs = caller_envs + [env]
        self.frames.append(fr)
        self.stack = self.stack + [f.qual]
        self.loopstack = []
        self.curmod_push(f.module)
        save_td = self.trydepth
        try:
            self.exec_block(f.node.body, st)
        finally:
            self.curmod_pop()
            self.stack = self.stack[:-1]
            self.frames.pop()
            self.loopstack = save_ls
            self.loc = save_loc
            self.trydepth = save_td
        exits = fr.returns
        if st.pc:
            exits = exits + [Exit(st.pc, None, (f.module.path, f.qual, f.node.body[-1].lineno), st.heap)]
        self.last_exits = exits
        exits = [e for e in exits if e.pc]
        if not exits:
            st.envs, st.pc = caller_envs, 0
            return mk("unknown", "noreturn")
        pc = OR(*[e.pc for e in exits])
        if len(exits) == 1:
            st.heap, st.envs, st.pc = exits[0].heap, caller_envs, exits[0].pc
            return exits[0].value
        gs = [B.restrict(e.pc, pc0) for e in exits]
        sts = [(g, State(e.heap, [{}], e.pc)) for g, e in zip(gs, exits)]
        m = self.merge(sts)
        v = mk_union([(g, e.value) for g, e in zip(gs, exits)])
        st.heap, st.envs, st.pc = m.heap, caller_envs, pc
        return simp(v, st.pc)

    def call_generator(self, st, f, env):
        """A generator is evaluated eagerly into the list of what it yields."""
        out = self.new_list(st, ())
        g = Fun(_GenRewrite().visit(ast.parse(ast.unparse(f.node)).body[0]), f.module, f.qual + "#gen", f.closure, f.cls)
        env = dict(env)
        env["__yield__"] = out
        fr = Frame(f.qual, f.closure)
        save_loc, save_ls = self.loc, self.loopstack
        caller = st.envs
        st.envs = caller + [env]
        self.frames.append(fr)
        self.stack = self.stack + [f.qual]
        self.loopstack = []
        self.curmod_push(f.module)
        try:
            self.exec_block(g.node.body, st)
        finally:
            self.curmod_pop()
            self.stack = self.stack[:-1]
            self.frames.pop()
            self.loopstack = save_ls
            self.loc = save_loc
        sts = [(e.pc, State(e.heap, [{}], e.pc)) for e in fr.returns] + ([(st.pc, State(st.heap, [{}], st.pc))] if st.pc else [])
        m = self.merge(sts)
        st.heap, st.envs, st.pc = m.heap, caller, m.pc
        return self.iterator(st, out)

    # ------------------------------------------------------------------ entry point
    def run(self, fn, args, kwargs=None, st=None):
        """Analyse one call; returns a Result."""
        if isinstance(fn, str):
            fn = self.public(fn)
        st = st or State()
        ev0 = len(self.events)
        save = self.sinks
        self.sinks = [[]]
        self._modstack = getattr(self, "_modstack", [])
        if isinstance(fn, Fun):
            self.curmod_push(fn.module)
        elif isinstance(fn, Cls):
            self.curmod_push(fn.module)
        else:
            self.curmod_push(next(iter(self.modules.values())))
        self.last_exits = []
        try:
            v = self.call(st, fn, list(args), dict(kwargs or {}))
        finally:
            self.curmod_pop()
        raises = self.sinks[-1]
        self.sinks = save
        return Result(self, v if st.pc else UNBOUND, st, raises, self.events[ev0:], self.last_exits)


class _GenRewrite(ast.NodeTransformer):
    def visit_Yield(self, n):
        v = n.value or ast.Constant(value=None)
        return ast.copy_location(
            ast.Call(func=ast.Attribute(value=ast.Name(id="__yield__", ctx=ast.Load()), attr="append", ctx=ast.Load()), args=[self.visit(v)], keywords=[]), n)

    def visit_YieldFrom(self, n):
        return ast.copy_location(
            ast.Call(func=ast.Attribute(value=ast.Name(id="__yield__", ctx=ast.Load()), attr="extend", ctx=ast.Load()), args=[self.visit(n.value)], keywords=[]), n)


class Frame:
    def __init__(self, qual, closure):
        self.qual, self.closure = qual, closure
        self.is_class = False
        self.returns = []
        self.handling = None


class Result:
    def __init__(self, it, value, st, raises, events, exits):
        self.it, self.value, self.st, self.raises, self.events, self.exits = it, value, st, raises, events, exits

    def T(self, v=None):
        return self.it.as_T(self.st, self.value if v is None else v)

    def cases(self, v=None):
        return cases_of(self.value if v is None else v, self.st.pc)


def is_literal(n):
    """Number written in the source: a Python number, never one of numpy."""
    if isinstance(n, ast.UnaryOp):
        n = n.operand
    return isinstance(n, ast.Constant) and isinstance(n.value, (int, float))


def view_of(x, p):
    """Array term of a view: the elements in another order or shape."""
    e = tm.expand(x)
    if e is None:
        return mk("mcall", x, p[1], p[2], ())
    q = getattr(np.arange(len(e.args) - 1).reshape(e.args[0]), p[1])(*p[2])
    return tm.arr(q.shape, [e.args[1 + int(k)] for k in q.flatten()])


def unview(c, p, new):
    """Term of the base after the view of it was changed to new."""
    s, e = tm.shape(c), tm.expand(new)
    if e is None or s is None or not all(isinstance(n, int) for n in s):
        return mk("unknown", "view", c, new)
    q = getattr(np.arange(int(np.prod(s))).reshape(s), p[1])(*p[2]).flatten()
    if len(q) != len(e.args) - 1:
        return mk("unknown", "view", c, new)
    out = [None] * len(q)
    for k, x in zip(q, e.args[1:]):
        out[int(k)] = x
    return tm.arr(s, out)


DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "@": "matmul", "|": "or", "&": "and", "^": "xor"}
COMPARED = {"<": ("__lt__", "__gt__"), ">": ("__gt__", "__lt__"), "<=": ("__le__", "__ge__"), ">=": ("__ge__", "__le__")}
OPERATORS = {f"__{p}{n}__" for n in DUNDER.values() for p in ("", "r", "i")} | {n for p in COMPARED.values() for n in p} | {"__eq__", "__ne__", "__neg__", "__bool__", "__contains__"}
PRELUDE = {"itertools." + n: n for n in ("takewhile", "dropwhile", "filterfalse", "compress", "starmap", "islice", "groupby", "pairwise", "batched")}
PRELUDE.update({"functools.partial": "partial", "operator.attrgetter": "attrgetter", "operator.methodcaller": "methodcaller", "collections.namedtuple": "namedtuple"})
SPECIAL = {"counter": collections.Counter, "OrderedDict": collections.OrderedDict, "defaultdict": collections.defaultdict, "deque": collections.deque}
KINDS = {"list": list, "dict": dict, "set": set, "frozenset": frozenset}
OPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
}
CMPS = {
    ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in",
    ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not",
}
EXT_CONST = {
    **{"string." + n: getattr(_string, n) for n in ("digits", "ascii_letters", "ascii_lowercase", "ascii_uppercase", "punctuation", "whitespace", "hexdigits", "printable")},
    "numpy.pi": float(np.pi), "math.pi": float(np.pi), "numpy.inf": float("inf"), "math.inf": float("inf"),
    "numpy.newaxis": None, "numpy.e": float(np.e), "math.e": float(np.e), "numpy.nan": float("nan"), "math.nan": float("nan"),
    "math.tau": float(2 * np.pi), "numpy.finfo().eps": float(np.finfo(float).eps), "numpy.finfo().tiny": float(np.finfo(float).tiny),
    "numpy.finfo().max": float(np.finfo(float).max), "numpy.finfo().min": float(np.finfo(float).min), "numpy.finfo().resolution": float(np.finfo(float).resolution),
    "sys.float_info.epsilon": float(np.finfo(float).eps), "sys.float_info.min": float(np.finfo(float).tiny), "sys.float_info.max": float(np.finfo(float).max),
}
import calendar as _calendar  # noqa: E402
import sys as _sys  # noqa: E402

STDLIB_OK = set(_sys.stdlib_module_names) | {"numpy"}
