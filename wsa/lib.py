"""Transfer functions of builtins, methods and numpy/math functions."""
import itertools
import math
import re
import string

import numpy as np

from . import dtypes
from . import terms as tm
from .interp import (
    BoundM, Cls, Ext, Fun, Mod, Ref, SliceV, T, Tup, U, UNBOUND, Unsupported, cases_of, leaf_key, mk_union, simp,
)
from .terms import AND, FALSE, NOT, OR, SCALARS, TRUE, const, mk

PURE_NP = True
STRING_METHODS = set(dir(str))


def conc(v):
    return v is None or isinstance(v, SCALARS)


def conc_deep(it, st, v):
    """Concrete python value of a fully known abstract value, or raise KeyError."""
    if conc(v):
        return v
    if isinstance(v, Tup):
        return tuple(conc_deep(it, st, x) for x in v.items)
    if isinstance(v, Ref):
        o = it.obj(st, v)
        c = it.content(st, v)
        if type(c) is tuple:
            if o.kind == "list":
                return [conc_deep(it, st, x) for x in c]
            if o.kind == "set":
                return {conc_deep(it, st, x) for x in c}
            if o.kind == "dict":
                return {conc_deep(it, st, k): conc_deep(it, st, x) for k, x in c}
        if isinstance(c, T):
            x = tm.np_const(c)
            if x is not None:
                return x
    if isinstance(v, T):
        x = tm.np_const(v)
        if x is not None:
            return x
    if isinstance(v, Ext) and v.name in ("builtins.int", "builtins.float", "builtins.bool", "builtins.str", "builtins.complex"):
        return {"int": int, "float": float, "bool": bool, "str": str, "complex": complex}[v.name[9:]]
    if isinstance(v, Ext) and v.name.startswith("numpy.") and hasattr(np, v.name[6:]):
        return getattr(np, v.name[6:])
    if isinstance(v, SliceV):
        return slice(conc_deep(it, st, v.a), conc_deep(it, st, v.b), conc_deep(it, st, v.c))
    raise KeyError


def abstract(it, st, x):
    """Abstract value of a concrete python result."""
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return abstract(it, st, x.item())
        if x.dtype == object:
            raise KeyError
        return it.new_array(st, tm.from_np(x))
    if isinstance(x, np.generic):
        return x.item()
    if conc(x):
        return x
    if isinstance(x, tuple):
        return Tup([abstract(it, st, y) for y in x])
    if isinstance(x, list):
        return it.new_list(st, [abstract(it, st, y) for y in x])
    if isinstance(x, dict):
        return it.new_dict(st, [(abstract(it, st, k), abstract(it, st, y)) for k, y in x.items()])
    if isinstance(x, range):
        return it.new_list(st, list(x))
    raise KeyError


def dist(it, st, vals, fn):
    """Distribute fn over unions among vals (pure; bounded)."""
    n = 1
    for v in vals:
        if isinstance(v, U):
            n *= len(cases_of(v, st.pc))
    if n == 1:
        return fn([cases_of(v, st.pc)[0][1] if isinstance(v, U) and cases_of(v, st.pc) else v for v in vals])
    if n > 64:
        return fn([it.as_T(st, v) if isinstance(v, U) else v for v in vals])
    out = []

    def go(i, g, acc):
        if AND(st.pc, g) == 0:
            return
        if i == len(vals):
            out.append((g, it.in_case(g, fn, acc)))
            return
        for h, w in cases_of(vals[i], st.pc):
            go(i + 1, AND(g, h), acc + [w])

    go(0, TRUE, [])
    return mk_union(out)


# ---------------------------------------------------------------------------- external functions
def call_ext(it, st, name, args, kwargs):
    h = it.ext_stubs.get(name)
    if h is not None:
        return h(it, st, args, kwargs)
    h = HANDLERS.get(name)
    if h is not None:
        return h(it, st, args, kwargs)
    if name.startswith("builtins."):
        b = name[9:]
        if b in EXC_NAMES:
            return it.alloc(st, "exc", mk("exc", name, tuple(it.as_T(st, a) for a in args)), "fresh", Ext(name))
        return builtin(it, st, b, args, kwargs)
    if name.startswith("numpy."):
        return np_call(it, st, name, args, kwargs)
    if name.startswith("math."):
        return math_call(it, st, name, args, kwargs)
    if name.startswith("copy."):
        if name == "copy.deepcopy":
            return deepcopy(it, st, args[0])
        if name == "copy.copy":
            return shallow(it, st, args[0])
    if name == "functools.reduce":
        k = it.known_items(st, args[1])
        if k is not None and not isinstance(k, U):
            k = list(k)
            acc = args[2] if len(args) > 2 else k.pop(0)
            for x in k:
                acc = it.call(st, args[0], [acc, x], {})
            return acc
    if name.startswith("itertools."):
        r = itertools_call(it, st, name[10:], args, kwargs)
        if r is not None:
            return it.iterator(st, r)
    if name.startswith("operator."):
        f = name[9:]
        ops = {"matmul": "@", "mul": "*", "add": "+", "sub": "-", "truediv": "/", "pow": "**", "mod": "%"}
        if f in ops:
            return it.binary(st, ops[f], args[0], args[1])
        if f == "neg":
            return it.binary(st, "*", -1, args[0])
        if f == "itemgetter":
            return BoundM(Ext("term.itemgetter"), Tup(args))
        if f in ("lt", "le", "gt", "ge", "eq", "ne"):
            return it.compare(st, {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}[f], args[0], args[1])
    if name.startswith("os."):
        return os_call(it, st, name, args, kwargs)
    if name in ("collections.OrderedDict",):
        r = builtin(it, st, "dict", args, kwargs)
        st.heap[r.addr] = st.heap[r.addr]._replace(cls=("OrderedDict",))
        return r
    if name == "collections.defaultdict":
        r = builtin(it, st, "dict", args[1:], kwargs)
        st.heap[r.addr] = st.heap[r.addr]._replace(cls=("defaultdict", args[0] if args else kwargs.get("default_factory")))
        return r
    if name == "collections.Counter":
        return counter(it, st, args, kwargs)
    if name == "collections.deque":
        r = builtin(it, st, "list", args[:1], {})
        n = args[1] if len(args) > 1 else kwargs.get("maxlen")
        st.heap[r.addr] = st.heap[r.addr]._replace(cls=("deque", n))
        deque_trim(it, st, r, True)
        return r
    if name == "dataclasses.field":
        return Tup(list(kwargs.items()), "field")
    if name == "collections.namedtuple" and isinstance(args[0], str):
        f = args[1].replace(",", " ").split() if isinstance(args[1], str) else it.known_items(st, args[1])
        if f is not None and not isinstance(f, U) and all(isinstance(x, str) for x in f):
            c = Cls(args[0], it.mod, [Ext("typing.NamedTuple")], None)
            c.tuple_fields = list(f)
            d = it.known_items(st, kwargs["defaults"]) if "defaults" in kwargs else ()
            c.attrs = dict(zip(c.tuple_fields[len(f) - len(d):], d))
            it.named_tuples = True
            return c
    if name.startswith("re.") and name[3:] in ("split", "sub", "findall", "match", "search", "fullmatch", "escape"):
        try:
            v = [conc_deep(it, st, x) for x in args]
            k = {a: conc_deep(it, st, x) for a, x in kwargs.items()}
            r = getattr(re, name[3:])(*v, **k)
        except (KeyError, TypeError, re.error):
            r = KeyError
        if r is not KeyError:
            if isinstance(r, re.Match):
                n = r.re.groups + 1
                it.prelude("functools.partial")
                c = it.modules["wsa_prelude"].env["Match"]
                return it.instantiate(st, c, [Tup([r.group(i) for i in range(n)]), it.new_dict(st, tuple(r.re.groupindex.items())), Tup([Tup(r.span(i)) for i in range(n)])], {})
            return abstract(it, st, r)
    f = it.prelude(name)
    if f is not None:
        return it.call(st, f, args, kwargs)
    if name in ("warnings.warn",):
        it.event("warn", st, tuple(it.as_T(st, a) for a in args))
        cat = args[1] if len(args) > 1 else kwargs.get("category")
        if cat is not None and (isinstance(cat, (str, int, float, Tup)) or isinstance(cat, T) and cat.op in ("fstr", "concat", "str")):
            it.raise_builtin(st, "TypeError", "category must be a Warning subclass")
        return None
    if name.startswith("collections.abc.") or name.startswith("typing."):
        return mk("typing", name)
    return T_call(it, st, name, args, kwargs)


def T_call(it, st, name, args, kwargs):
    t = mk("call", name, tuple(it.as_T(st, a) for a in args), tuple(sorted((k, it.as_T(st, v)) for k, v in kwargs.items())))
    it.note_mayraise(t)
    it.event("call", st, (name, tuple(args), tuple(sorted(kwargs.items())), t))
    if name.split(".")[0] in ("spglib", "scipy", "plotly", "matplotlib"):
        n = it._occurrence(("ext", t))
        return mk("ext", t, n)
    return t


EXC_NAMES = {
    n for n, v in vars(__import__("builtins")).items() if isinstance(v, type) and issubclass(v, BaseException)
}


def h_open(it, st, args, kwargs):
    n = it._occurrence(("open",))
    t = mk("file", n, tuple(it.as_T(st, a) for a in args), tuple(sorted((k, it.as_T(st, v)) for k, v in kwargs.items())))
    it.note_mayraise(t)
    it.event("open", st, t)
    return it.alloc(st, "ext", t, "fresh:file", None)


def h_object_setattr(it, st, args, kwargs):
    o, n, v = args
    it.setattr(st, o, n, v, raw=True)


HANDLERS = {"builtins.open": h_open, "builtins.object.__setattr__": h_object_setattr,
            "builtins.object.__delattr__": lambda it, st, a, k: it.delattr(st, a[0], a[1], raw=True)}


def deepcopy(it, st, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, U):
        return mk_union([(g, deepcopy(it, st, w, memo)) for g, w in v.cases])
    if isinstance(v, Tup):
        return Tup([deepcopy(it, st, x, memo) for x in v.items])
    if isinstance(v, Ref):
        if v.path:
            return it.new_array(st, it.content(st, v))
        if v.addr in memo:
            return memo[v.addr]
        o = it.obj(st, v)
        r = it.alloc(st, o.kind, o.content, "fresh", o.cls)
        memo[v.addr] = r

        def c(x):
            if isinstance(x, U):
                return U([(g, c(w)) for g, w in x.cases])
            if type(x) is tuple:
                if o.kind in ("dict", "inst"):
                    return tuple((k, deepcopy(it, st, y, memo)) for k, y in x)
                return tuple(deepcopy(it, st, y, memo) for y in x)
            return x

        st.heap[r.addr] = st.heap[r.addr]._replace(content=c(o.content))
        return r
    return v


def shallow(it, st, v):
    if isinstance(v, U):
        return mk_union([(g, shallow(it, st, w)) for g, w in cases_of(v, st.pc)])
    if isinstance(v, Ref):
        o = it.obj(st, v)
        return it.alloc(st, o.kind, it.content(st, v), "fresh", o.cls)
    return v


# ---------------------------------------------------------------------------- builtins
LAZY = ("zip", "map", "filter", "enumerate", "reversed", "iter")
CONSUMERS = LAZY + ("list", "tuple", "sorted", "set", "frozenset", "sum", "min", "max", "dict", "any", "all")


def builtin(it, st, b, args, kwargs):
    """Iterators are consumed by what reads them."""
    if b not in CONSUMERS:
        return builtin_(it, st, b, args, kwargs)
    ours = [a for a in args if it.is_iterator(st, a)]
    if b == "iter" and ours:
        return args[0]
    if b == "zip" and len({a.addr for a in ours}) < len(ours):
        if len({a.addr for a in ours}) > 1 or len(ours) != len(args):
            raise Unsupported("zip of an iterator and itself")
        k = it.known_items(st, ours[0])
        if k is None or isinstance(k, U):
            raise Unsupported("zip of an iterator and itself")
        it.exhaust(st, ours[0])
        n = len(args)
        return it.iterator(st, it.new_list(st, [Tup(k[i:i + n]) for i in range(0, len(k) - n + 1, n)]))
    r = builtin_(it, st, b, args, kwargs)
    for a in ours:
        it.exhaust(st, a)
    return it.iterator(st, r) if b in LAZY else r


def builtin_(it, st, b, args, kwargs):
    if b in ("len",):
        return length(it, st, args[0])
    if b == "range":
        def f(a):
            if all(isinstance(x, int) for x in a):
                return range_list(it, st, range(*a))
            return it.alloc(st, "list", mk("range", *[it.as_T(st, x) for x in a]))
        return dist(it, st, args, f)
    if b in ("list", "tuple", "sorted", "reversed", "set", "frozenset", "enumerate", "iter"):
        if not args:
            if b == "tuple":
                return Tup(())
            return it.alloc(st, "set" if b in ("set", "frozenset") else "list", ())
        v = args[0]
        if isinstance(v, U):
            return it.branch(st, cases_of(v, st.pc), lambda s, w: builtin(it, s, b, [w] + args[1:], kwargs))
        f = it.inst_method(st, v, "__reversed__") if b == "reversed" else None
        if f is not None:
            return it.call(st, f, [], {})
        k = it.known_items(st, v)
        if isinstance(k, U):
            return it.branch(st, cases_of(k, st.pc), lambda s, w: builtin(it, s, b, [Tup(w)] + args[1:], kwargs))
        if k is None:
            it.note_mayraise(mk(b, it.as_T(st, v)))
            t = mk("seq", b, it.as_T(st, v))
            return it.alloc(st, "set" if b in ("set", "frozenset") else "list", t)
        if b == "list":
            return it.new_list(st, k)
        if b == "iter":
            return it.new_list(st, k)
        if b == "tuple":
            return Tup(k)
        if b == "reversed":
            return it.new_list(st, tuple(reversed(k)))
        if b in ("set", "frozenset"):
            return it.make_set(st, k)
        if b == "enumerate":
            start = args[1] if len(args) > 1 else kwargs.get("start", 0)
            return it.new_list(st, [Tup([i + start if isinstance(start, int) else it.binary(st, "+", i, start), x]) for i, x in enumerate(k)])
        return do_sorted(it, st, k, kwargs, v)
    if b == "zip":
        ks = []
        for v in args:
            k = it.known_items(st, v)
            if k is None or isinstance(k, U):
                return it.alloc(st, "list", mk("zip", *[it.as_T(st, x) for x in args]))
            ks.append(k)
        return it.new_list(st, [Tup(x) for x in zip(*ks)])
    if b == "dict":
        r = it.new_dict(st, ())
        if args:
            v = args[0]
            vs = cases_of(v, st.pc)
            known = isinstance(v, Ref) and it.obj(st, v).kind == "dict"
            if known or it.known_items(st, v) is not None:
                it.dict_update(st, r, v)
            else:
                r = it.alloc(st, "dict", mk("todict", it.as_T(st, v)))
        for k, v in kwargs.items():
            it.setitem(st, r, k, v)
        return r
    if b in ("map", "filter"):
        fn = args[0]
        k = it.known_items(st, args[1])
        if k is None or isinstance(k, U):
            if b == "map":
                e = mk("elem", it.as_T(st, args[1]), mk("ix", 0))
                s = st.fork()
                body = it.call(s, fn, [e], {})
                return it.alloc(st, "list", mk("map", it.as_T(st, args[1]), it.as_T(s, body)))
            return it.alloc(st, "list", mk("seq", b, it.as_T(st, fn), it.as_T(st, args[1])))
        if b == "map":
            rest = [it.known_items(st, a) for a in args[2:]]
            return it.new_list(st, [it.call(st, fn, [x] + [r[i] for r in rest], {}) for i, x in enumerate(k)])
        r = it.new_list(st, ())
        for x in k:
            c = it.truth(st, it.call(st, fn, [x], {}) if fn is not None else x)
            if AND(st.pc, c) == 0:
                continue
            if AND(st.pc, NOT(c)) == 0:
                it.list_append(st, r, x)
            else:
                it.branch(st, [(c, 1), (NOT(c), 0)], lambda s, w: it.list_append(s, r, x) if w else None)
        return r
    if b in ("any", "all", "sum"):
        k = it.known_items(st, args[0])
        if k is None or isinstance(k, U):
            t = mk("call", "builtins." + b, tuple(it.as_T(st, a) for a in args), ())
            return it.bool_value(tm.atom(mk("truth", t))) if b != "sum" else t
        if b == "sum":
            acc = args[1] if len(args) > 1 else kwargs.get("start", 0)
            for x in k:
                acc = it.binary(st, "+", acc, boolnum(x))
            return acc
        r = TRUE if b == "all" else FALSE
        for x in k:
            c = it.truth(st, x)
            r = AND(r, c) if b == "all" else OR(r, c)
        return it.bool_value(r)
    if b in ("min", "max"):
        items = args
        if len(args) == 1:
            k = it.known_items(st, args[0])
            if k is None or isinstance(k, U):
                return T_pure(it, st, "builtins." + b, args, kwargs)
            items = list(k)
        if "key" in kwargs:
            keys = [it.call(st, kwargs["key"], [x], {}) for x in items]
        else:
            keys = list(items)
        if not items:
            if "default" in kwargs:
                return kwargs["default"]
            it.raise_builtin(st, "ValueError", b)
            return mk("unknown", b)
        if all(conc(x) for x in keys):
            try:
                i = {"min": min, "max": max}[b](range(len(keys)), key=lambda j: keys[j])
                return items[i]
            except TypeError:
                it.raise_builtin(st, "TypeError", b)
                return mk("unknown", b)
        if "key" not in kwargs and not any(isinstance(x, (Ref, Tup, str)) for x in items):
            return mk("call", "builtins." + b, tuple(it.as_T(st, x) for x in items), ())
        best, bk = items[0], keys[0]
        for x, kx in zip(items[1:], keys[1:]):
            c = it.truth(st, it.compare(st, "<", kx, bk) if b == "min" else it.compare(st, "<", bk, kx))
            best = mk_union([(c, x), (NOT(c), best)])
            bk = mk_union([(c, kx), (NOT(c), bk)])
        return best
    if b in ("str", "repr"):
        if not args:
            return ""
        return it.lift(st, args[0], lambda x: it.format_value(st, x, "", "" if b == "str" else "r"))
    if b == "format":
        return it.lift2(st, args[0], args[1] if len(args) > 1 else "", lambda x, s: it.format_value(st, x, s, ""))
    if b in ("int", "float", "bool", "complex"):
        if not args:
            return {"int": 0, "float": 0.0, "bool": False, "complex": 0j}[b]

        def f(x):
            if b == "bool":
                return it.bool_value(it.truth(st, x))
            x = boolnum(x)
            if isinstance(x, Ref):
                c = it.content(st, x)
                if isinstance(c, T):
                    x = c
            if conc(x):
                try:
                    return {"int": int, "float": float, "complex": complex}[b](x, *[a for a in args[1:]])
                except Exception as e:
                    it.raise_builtin(st, type(e).__name__, str(e))
                    return mk("unknown", b)
            t = it.as_T(st, x)
            if b == "float" and dtypes.INTS and tm.shape(t) == () and dtypes.dtype(t, dtypes.INTS) == "int":
                return dtypes.as_float(t, dtypes.INTS)
            if b == "float" and (t.op in ("bin", "un", "getitem") or (t.op == "call" and t.args[0].startswith(("numpy", "math")))) and tm.shape(t) == ():
                return t
            if b == "float" and t.op == "sym" and t.args[1] == "num":
                return t
            if b == "int" and t.op == "sym" and t.args[1] == "int":
                return t
            it.note_mayraise(mk(b, t))
            return mk("call", "builtins." + b, (t,), ())

        return it.lift(st, args[0], f)
    if b in ("abs", "round", "pow", "divmod"):
        def f(a):
            a = [boolnum(x) for x in a]
            if it.pyseq(st, a[0]) or b == "round" and isinstance(a[0], T) and tm.shape(a[0]) not in (None, ()):
                it.raise_builtin(st, "TypeError", f"bad operand type for {b}()")
                return mk("unknown", b)
            if all(conc(x) for x in a):
                try:
                    return abstract(it, st, {"abs": abs, "round": round, "pow": pow, "divmod": divmod}[b](*a))
                except Exception as e:
                    it.raise_builtin(st, type(e).__name__, str(e))
                    return mk("unknown", b)
            if b == "abs" and isinstance(a[0], T) and a[0].op == "call" and a[0].args[0] == "builtins.abs":
                return a[0]
            ts = tuple(it.num_T(st, x) for x in a)
            if b == "pow":
                return it.bin_leaf(st, "**", a[0], a[1])
            return mk("call", "builtins." + b, ts, ())
        r = dist(it, st, [it.deref(st, x) for x in args], f)
        return it.wrap_arrays(st, None, r)
    if b == "isinstance":
        return isinstance_(it, st, args[0], args[1])
    if b == "issubclass":
        return True if it.exc_subclass(args[0], args[1]) else False
    if b == "type":
        return type_of(it, st, args[0])
    if b == "callable":
        return isinstance(args[0], (Fun, BoundM, Cls, Ext))
    if b == "hasattr":
        s = st.fork()
        it.sinks.append([])
        it.getattr(s, args[0], args[1])
        r = it.sinks.pop()
        g = OR(*[x.pc for x in r])
        return it.bool_value(NOT(g))
    if b == "getattr":
        if len(args) == 3:
            it.sinks.append([])
            s = st.fork()
            v = it.getattr(s, args[0], args[1])
            r = it.sinks.pop()
            g = OR(*[x.pc for x in r])
            st.heap = s.heap
            return mk_union([(NOT(g), v), (g, args[2])])
        if isinstance(args[1], str):
            return it.getattr(st, args[0], args[1])
        return mk("unknown", "getattr")
    if b == "setattr":
        if isinstance(args[1], str):
            it.setattr(st, args[0], args[1], args[2])
        else:
            it.event("setattr", st, (it.as_T(st, args[0]), "?"))
        return None
    if b == "delattr":
        if isinstance(args[1], str):
            it.delattr(st, args[0], args[1])
        else:
            it.event("delattr", st, (it.as_T(st, args[0]), "?"))
        return None
    if b == "print":
        f = kwargs.get("file")
        if isinstance(f, Ref) and isinstance(it.obj(st, f).cls, Cls) and it.obj(st, f).cls.lookup("write") is not None:
            sep, end = kwargs.get("sep", " "), kwargs.get("end", "\n")
            parts = []
            for i, x in enumerate(args):
                parts += [sep] * (i > 0) + [x]
            r = ""
            for x in parts + [end]:
                r = it.binary(st, "+", r, x if isinstance(x, str) else it.call(st, Ext("builtins.str"), [x], {}))
            return it.call(st, it.getattr(st, f, "write"), [r], {})
        it.event("print", st, tuple(it.as_T(st, a) for a in args))
        return None
    if b == "next":
        f = it.inst_method(st, args[0], "__next__")
        if f is not None:
            return it.call(st, f, [], {})
        k = it.known_items(st, args[0])
        if k is not None and not isinstance(k, U):
            if k:
                if isinstance(args[0], Ref):
                    st.heap[args[0].addr] = it.obj(st, args[0])._replace(content=tuple(k[1:]))
                return k[0]
            if len(args) > 1:
                return args[1]
            it.raise_builtin(st, "StopIteration")
            return mk("unknown", "next")
        if isinstance(k, U):
            out = []
            for g, w in cases_of(k, st.pc):
                out.append((g, w[0] if w else (args[1] if len(args) > 1 else mk("unknown", "next"))))
            return mk_union(out)
        return mk("unknown", "next", it.as_T(st, args[0]))
    if b == "super":
        return super_(it, st, args)
    if b == "vars":
        return mk("unknown", "vars")
    if b == "id" or b == "hash":
        it.event("nondet", st, b)
        return mk("call", "builtins." + b, tuple(it.as_T(st, a) for a in args), ())
    if b in ("staticmethod", "classmethod", "property"):
        if isinstance(args[0], Fun):
            args[0].kind = b
        return args[0]
    if b == "slice":
        a = list(args)
        if len(a) == 1:
            a = [None, a[0], None]
        return SliceV(*(a + [None] * (3 - len(a))))
    if b == "object":
        return it.alloc(st, "ext", mk("object", it.next_addr))
    if b in ("chr", "ord", "hex", "oct", "bin", "ascii") and all(conc(x) for x in args):
        return {"chr": chr, "ord": ord, "hex": hex, "oct": oct, "bin": bin, "ascii": ascii}[b](*args)
    if b == "str.maketrans":
        try:
            return abstract(it, st, str.maketrans(*[conc_deep(it, st, x) for x in args]))
        except KeyError:
            return T_call(it, st, "builtins." + b, args, kwargs)
    if b == "dict.fromkeys":
        k = it.known_items(st, args[0])
        if isinstance(k, U):
            return it.branch(st, cases_of(k, st.pc), lambda s, w: builtin(it, s, b, [Tup(w)] + args[1:], kwargs))
        if k is not None:
            r = it.new_dict(st, ())
            for x in k:
                it.setitem(st, r, x, args[1] if len(args) > 1 else None)
            return r
        return it.alloc(st, "dict", mk("fromkeys", it.as_T(st, args[0]), it.as_T(st, args[1] if len(args) > 1 else None)))
    if b.split(".")[0] in ("dict", "list", "str", "set") and "." in b and args:
        return call_method(it, st, b, args[0], args[1:], kwargs)
    return T_call(it, st, "builtins." + b, args, kwargs)


def boolnum(x):
    if isinstance(x, T) and x.op == "guard":
        return U([(x.args[0], 1), (NOT(x.args[0]), 0)])
    return x


def T_pure(it, st, name, args, kwargs):
    return mk("call", name, tuple(it.num_T(st, a) for a in args), tuple(sorted((k, it.as_T(st, v)) for k, v in kwargs.items())))


def range_list(it, st, r):
    return it.new_list(st, list(r))


def length(it, st, v):
    if isinstance(v, U):
        return mk_union([(g, length(it, st, w)) for g, w in cases_of(v, st.pc)])
    if isinstance(v, str):
        return len(v)
    if conc(v):
        it.raise_builtin(st, "TypeError", "len")
        return mk("unknown", "len")
    if it.is_iterator(st, v):
        it.raise_builtin(st, "TypeError", "len of an iterator")
        return mk("unknown", "len")
    f = it.inst_method(st, v, "__len__")
    if f is not None:
        return it.call(st, f, [], {})
    k = it.known_items(st, v)
    if isinstance(k, U):
        return mk_union([(g, len(w)) for g, w in cases_of(k, st.pc)])
    if k is not None:
        return len(k)
    t = it.as_T(st, v)
    it.note_mayraise(mk("len", t))
    s = tm.shape(t)
    if s:
        return mk("dim", t, 0)
    return mk("len", t)


def do_sorted(it, st, k, kwargs, src):
    key = kwargs.get("key")
    rev = kwargs.get("reverse", False)
    keys = [it.call(st, key, [x], {}) for x in k] if key is not None else list(k)
    try:
        ck = [conc_deep(it, st, x) for x in keys]
        order = sorted(range(len(k)), key=lambda i: ck[i], reverse=bool(rev))
        return it.new_list(st, [k[i] for i in order])
    except KeyError:
        pass
    except TypeError:
        it.raise_builtin(st, "TypeError", "sorted")
        return mk("unknown", "sorted")
    if len(k) <= 1:
        return it.new_list(st, k)
    if len(k) <= 4 and rev in (True, False):
        # stable insertion network over symbolic comparisons
        perms = []
        n = len(k)
        lt = {}
        for i in range(n):
            for j in range(n):
                if i != j:
                    a, b = (keys[i], keys[j]) if not rev else (keys[j], keys[i])
                    lt[i, j] = it.truth(st, it.compare(st, "<", a, b))
        out = []
        for p in itertools.permutations(range(n)):
            g = TRUE
            for x in range(n):
                for y in range(x + 1, n):
                    i, j = p[x], p[y]
                    # i before j: key i < key j, or not key j < key i and i < j
                    g = AND(g, OR(lt[i, j], AND(NOT(lt[j, i]), TRUE if i < j else FALSE)))
            if AND(st.pc, g):
                out.append((g, p))
        if out:
            return it.new_list(st, [mk_union([(g, k[p[i]]) for g, p in out]) for i in range(n)])
    return it.alloc(st, "list", mk("seq", "sorted", it.as_T(st, src), it.as_T(st, key) if key is not None else None, bool(rev) if conc(rev) else None))


def super_(it, st, args):
    fr = it.frames[-1] if it.frames else None
    if args:
        return mk("super")
    # zero-argument super: first argument of the frame's function
    for f in (fr,):
        if f is None:
            break
        self_ = None
        for n, v in st.env.items():
            self_ = v
            break
        cls = None
        q = f.qual.rsplit(".", 1)[0]
        if isinstance(self_, Ref):
            ob = it.obj(st, self_)
            if isinstance(ob.cls, Cls):
                for c in ob.cls.mro():
                    if isinstance(c, Cls) and c.qual == q:
                        cls = c
                return _SuperV(it, st, self_, ob.cls, cls)
    return mk("super")


def _SuperV(it, st, self_, c, cls):
    mro = c.mro()
    i = mro.index(cls) if cls in mro else 0
    r = it.alloc(st, "ext", mk("superobj", self_.addr), "fresh")
    it._supers = getattr(it, "_supers", {})
    it._supers[r.addr] = (self_, mro[i + 1:])
    return r


def type_of(it, st, v):
    if isinstance(v, U):
        return mk_union([(g, type_of(it, st, w)) for g, w in cases_of(v, st.pc)])
    if conc(v):
        return Ext("builtins." + type(v).__name__)
    if isinstance(v, Tup):
        return Ext("builtins.tuple")
    if isinstance(v, Ref):
        o = it.obj(st, v)
        if isinstance(o.cls, (Cls, Ext)):
            return o.cls
        if o.kind == "array":
            return Ext("numpy.ndarray")
        if o.kind in ("list", "dict", "set"):
            return Ext("builtins." + o.kind)
    return mk("typeof", it.as_T(st, v))


ITERABLES = ("typing.Iterable", "collections.abc.Iterable", "collections.abc.Sequence", "typing.Sequence", "collections.abc.Sized", "collections.abc.Collection")
NUMBERS = {"numbers.Number", "numbers.Real"}


def isinstance_(it, st, v, c):
    if isinstance(v, U):
        r = 0
        for g, w in cases_of(v, st.pc):
            r = OR(r, AND(g, it.truth(st, isinstance_(it, st, w, c))))
        return it.bool_value(r)
    if isinstance(c, U):
        r = 0
        for g, w in cases_of(c, st.pc):
            r = OR(r, AND(g, it.truth(st, isinstance_(it, st, v, w))))
        return it.bool_value(r)
    if isinstance(c, Tup):
        r = 0
        for x in c.items:
            r = OR(r, it.truth(st, isinstance_(it, st, v, x)))
        return it.bool_value(r)
    cn = c.name if isinstance(c, Ext) else (c.qual if isinstance(c, Cls) else None)
    if cn is None:
        return it.bool_value(tm.atom(mk("isinstance", it.as_T(st, v), it.as_T(st, c))))
    if conc(v):
        if cn in ITERABLES:
            return isinstance(v, (str, bytes))
        if cn in NUMBERS:
            return isinstance(v, (int, float, complex))
        if cn == "numbers.Integral":
            return isinstance(v, int)
        if cn.startswith("builtins."):
            cl = getattr(__import__("builtins"), cn[9:], None)
            return isinstance(v, cl) if isinstance(cl, type) else False
        return False
    if isinstance(v, Tup):
        return cn in ("builtins.tuple", "builtins.object") or cn in ITERABLES
    if isinstance(v, Ref):
        o = it.obj(st, v)
        if isinstance(o.cls, Cls):
            if any(b is c or (isinstance(b, Ext) and isinstance(c, Ext) and b.name == c.name) for b in o.cls.mro()):
                return True
            return cn == "builtins.object"
        if isinstance(o.cls, Ext):
            return it.exc_subclass(o.cls, c)
        if o.kind == "array":
            return cn in ("numpy.ndarray", "builtins.object") or cn in ITERABLES
        if o.kind in ("list", "dict", "set"):
            if o.kind == "dict" and cn in ("collections.abc.Mapping", "typing.Mapping"):
                return True
            if o.kind == "list" and o.origin.startswith("any"):
                return it.bool_value(tm.atom(mk("isinstance", it.as_T(st, v), cn)))
            return cn in ("builtins." + o.kind, "builtins.object") or cn in ITERABLES
        if isinstance(o.content, T):
            return it.bool_value(tm.atom(mk("isinstance", o.content, cn)))
        return False
    if isinstance(v, T):
        s = v.args[1] if v.op == "sym" else None
        if v.op in ("fstr", "fmt"):
            s = "str"
        if v.op in ("bin", "un") and tm.shape(v) == ():
            s = "num"
        if s == "str":
            return cn == "builtins.str" or cn in ITERABLES
        if s == "num":
            return cn in ("builtins.float", "builtins.object") or cn in NUMBERS
        if s == "int":
            return cn in ("builtins.int", "builtins.object", "numbers.Integral") or cn in NUMBERS
        if s == "bool":
            return cn in ("builtins.bool", "builtins.int")
        if v.op == "call" and v.args[0] == "builtins.int":
            return cn == "builtins.int"
        return it.bool_value(tm.atom(mk("isinstance", v, cn)))
    if isinstance(v, (Fun, BoundM)):
        return False
    if isinstance(v, (Cls, Ext)):
        return cn == "builtins.type"
    return it.bool_value(tm.atom(mk("isinstance", it.as_T(st, v), cn)))


# ---------------------------------------------------------------------------- itertools / os
def itertools_call(it, st, f, args, kwargs):
    ks = [it.known_items(st, a) for a in args if not conc(a)]
    if any(k is None or isinstance(k, U) for k in ks):
        return None
    if f == "product":
        rep = kwargs.get("repeat", 1)
        return it.new_list(st, [Tup(x) for x in itertools.product(*ks, repeat=rep)])
    if f == "chain":
        return it.new_list(st, [x for k in ks for x in k])
    if f == "chain.from_iterable":
        out = []
        for x in ks[0]:
            k = it.known_items(st, x)
            if k is None or isinstance(k, U):
                return None
            out += list(k)
        return it.new_list(st, out)
    if f == "pairwise":
        return it.new_list(st, [Tup(x) for x in zip(ks[0], ks[0][1:])])
    if f in ("combinations", "permutations"):
        n = args[1] if len(args) > 1 else kwargs.get("r")
        return it.new_list(st, [Tup(x) for x in getattr(itertools, f)(ks[0], *([n] if n is not None else []))])
    if f == "islice" and all(conc(a) for a in args[1:]):
        return it.new_list(st, list(itertools.islice(ks[0], *args[1:])))
    if f == "accumulate":
        out, acc = [], None
        items = list(ks[0])
        if "initial" in kwargs:
            items = [kwargs["initial"]] + items
        fn = args[1] if len(args) > 1 else None
        for i, x in enumerate(items):
            acc = x if i == 0 else (it.call(st, fn, [acc, x], {}) if fn is not None else it.binary(st, "+", acc, x))
            out.append(acc)
        return it.new_list(st, out)
    if f == "repeat" and len(args) > 1 and conc(args[1]):
        return it.new_list(st, [args[0]] * args[1])
    if f == "zip_longest":
        return it.new_list(st, [Tup(x) for x in itertools.zip_longest(*ks, fillvalue=kwargs.get("fillvalue"))])
    return None


def os_call(it, st, name, args, kwargs):
    if name == "os.path.join":
        return dist(it, st, args, lambda a: "/".join(a) if all(isinstance(x, str) for x in a) else mk("call", name, tuple(it.as_T(st, x) for x in a), ()))
    if name in ("os.path.split", "os.path.abspath", "os.path.dirname", "os.path.realpath", "os.path.basename", "os.path.normpath") and isinstance(args[0], str):
        import posixpath

        if name in ("os.path.abspath", "os.path.realpath"):
            return args[0] if args[0].startswith("/") else "/" + args[0]
        return abstract(it, st, getattr(posixpath, name[8:])(args[0]))
    return T_call(it, st, name, args, kwargs)


# ---------------------------------------------------------------------------- math
def math_call(it, st, name, args, kwargs):
    f = getattr(math, name[5:], None)

    def g(a):
        a = [boolnum(x) for x in a]
        if all(conc(x) for x in a) and f is not None:
            try:
                return abstract(it, st, f(*a))
            except KeyError:
                pass
            except Exception as e:
                it.raise_builtin(st, type(e).__name__, str(e))
                return mk("unknown", name)
        t = mk("call", name, tuple(it.num_T(st, x) for x in a), ())
        it.note_mayraise(t)
        return t

    return dist(it, st, [it.deref(st, x) for x in args], g)


# ---------------------------------------------------------------------------- numpy
FRESH_COPY = {"numpy.array", "numpy.copy", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray"}


def np_dtype(v):
    if isinstance(v, Ext):
        return {"builtins.float": float, "builtins.int": int, "builtins.bool": bool, "numpy.float64": float, "numpy.int64": int,
                "builtins.complex": complex, "numpy.bool_": bool, "numpy.double": float, "builtins.object": object, "builtins.str": str, "numpy.int32": int}.get(v.name)
    if isinstance(v, str):
        return {"float": float, "int": int, "bool": bool, "float64": float, "int64": int}.get(v)
    return None


def cast_T(t, dt):
    if dt is float and dtypes.INTS:
        t = dtypes.as_float(t, dtypes.INTS)
    if t.op == "ite":
        return mk("ite", t.args[0], cast_T(t.args[1], dt), cast_T(t.args[2], dt))
    if dt is float:
        if t.op == "arr":
            return tm.arr(t.args[0], [const(float(e.args[1])) if tm.is_k(e) and isinstance(e.args[1], (int, float)) else e for e in t.args[1:]])
        if tm.is_k(t) and isinstance(t.args[1], int):
            return const(float(t.args[1]))
        return t
    if dt is int:
        if t.op == "arr":
            return tm.arr(t.args[0], [cast_T(e, int) for e in t.args[1:]])
        if tm.is_k(t) and isinstance(t.args[1], (int, float)):
            return const(int(t.args[1]))
        if t.op == "sym" and t.args[1] == "int":
            return t
        if t.op == "un" and t.args[0] == "-" and t.args[1].op == "call" and t.args[1].args[0] == "numpy.sign":
            return t
        return mk("call", "numpy.trunc", (t,), ())
    if dt is bool:
        if tm.is_const(t):
            return tm.from_np(np.array(tm.np_const(t)).astype(bool))
        return mk("cmp", "!=", t, const(0))
    return t


UFUNCS = {**dict.fromkeys(("add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "mod", "remainder", "power", "maximum", "minimum"), 2),
          **dict.fromkeys(("negative", "abs", "absolute", "sqrt", "sign", "floor", "ceil", "rint", "square", "reciprocal", "trunc"), 1)}


def np_call(it, st, name, args, kwargs):
    f = name[6:]
    if f in ("empty", "empty_like"):
        try:
            sh = np.shape(conc_deep(it, st, args[0])) if f == "empty_like" else conc_deep(it, st, kwargs.get("shape", args[0] if args else None))
            sh = (sh,) if isinstance(sh, int) else tuple(int(x) for x in sh)
        except (KeyError, TypeError):
            v = tm.shape(it.as_T(st, args[0])) if f == "empty_like" and args else None
            sh = v if v is not None and all(isinstance(x, int) for x in v) else None
        if sh is not None:
            n = int(np.prod(sh, dtype=int))
            return it.new_array(st, mk("arr", sh, *[mk("unknown", "uninitialised", i) for i in range(n)]) if sh else mk("unknown", "uninitialised", 0))
        return it.new_array(st, mk("unknown", "uninitialised", *[it.as_T(st, a) for a in args]))
    if name in FRESH_COPY or f in ("float64",):
        return np_array(it, st, name, args, kwargs)
    if f in ("fill_diagonal", "put", "copyto", "place", "putmask", "put_along_axis"):
        if isinstance(args[0], Ref):
            s = tm.shape(it.as_T(st, args[0]))
            if f == "fill_diagonal" and s and len(set(s)) == 1 and isinstance(s[0], int) and tm.shape(it.as_T(st, args[1])) == ():
                for i in range(s[0]):
                    it.setitem(st, args[0], Tup([i] * len(s)), args[1])
            elif f == "copyto" and not kwargs:
                it.store_array(st, args[0], args[1], "np.copyto")
            else:
                it.set_content(st, args[0], mk("unknown", name, tuple(it.as_T(st, a) for a in args), ()), "np." + f)
        return None
    if f.endswith(".at") and args and isinstance(args[0], Ref):
        it.set_content(st, args[0], mk("unknown", name, tuple(it.as_T(st, a) for a in args), ()), name)
        return None
    if f == "ndindex":
        try:
            n = [conc_deep(it, st, a) for a in args]
            n = n[0] if len(n) == 1 and isinstance(n[0], tuple) else n
            return it.iterator(st, it.new_list(st, [Tup(x) for x in np.ndindex(*n)]))
        except (KeyError, TypeError):
            return T_call(it, st, name, args, kwargs)
    if f in ("reshape", "ravel", "squeeze", "swapaxes", "atleast_1d", "atleast_2d", "expand_dims") and args and isinstance(args[0], Ref) and it.obj(st, args[0]).kind == "array" and not kwargs:
        s = tm.shape(it.as_T(st, args[0]))
        if f in ("atleast_1d", "atleast_2d", "expand_dims"):
            try:
                args = [args[0], getattr(np, f)(np.empty(s), *[conc_deep(it, st, x) for x in args[1:]]).shape] if s is not None and len(args) == (1 if f != "expand_dims" else 2) else None
            except Exception:
                args = None
            if args is not None:
                return array_method(it, st, "reshape", args[0], [Tup(args[1])], {})
        else:
            return array_method(it, st, f, args[0], args[1:], kwargs)
    if f == "transpose" and args and isinstance(args[0], Ref) and it.obj(st, args[0]).kind == "array" and not kwargs:
        return it.getattr(st, args[0], "T") if len(args) == 1 else array_method(it, st, "transpose", args[0], args[1:], kwargs)
    if f in UFUNCS and len(args) == UFUNCS[f] + 1 and isinstance(args[-1], Ref) and "out" not in kwargs:
        args, kwargs = args[:-1], {**kwargs, "out": args[-1]}
    if "out" in kwargs and isinstance(kwargs["out"], Ref):
        kwargs = dict(kwargs)
        out = kwargs.pop("out")
        v = np_call(it, st, name, args, kwargs)
        it.store_array(st, out, v, "out=")
        return out
    # full constant folding
    try:
        ca = [conc_deep(it, st, a) for a in args]
        ck = {k: conc_deep(it, st, v) for k, v in kwargs.items()}
        fn = np
        for p in f.split("."):
            fn = getattr(fn, p)
        ok = not f.startswith("random") and f not in ("savetxt", "loadtxt", "save", "load", "genfromtxt", "set_printoptions")
    except (KeyError, AttributeError):
        ok = False
    if ok:
        try:
            with np.errstate(all="ignore"):
                r = fn(*ca, **ck)
            return abstract(it, st, r)
        except KeyError:
            pass
        except Exception as e:
            it.raise_builtin(st, type(e).__name__ if type(e).__name__ != "LinAlgError" else "ValueError", str(e))
            return mk("unknown", name)
    if "out" in kwargs and isinstance(kwargs["out"], Ref):
        out = kwargs.pop("out")
        v = np_call(it, st, name, args, kwargs)
        it.store_array(st, out, v, "out=")
        return out

    uk = [it.deref(st, a) for a in args]
    names = sorted(kwargs)
    uk += [it.deref(st, kwargs[k]) for k in names]

    def g(vals):
        a = [boolnum(x) for x in vals[: len(args)]]
        kw = dict(zip(names, vals[len(args):]))
        return np_term(it, st, name, f, a, kw)

    r = dist(it, st, uk, g)
    return it.wrap_arrays(st, None, r)


def np_term(it, st, name, f, a, kw):
    ts = [it.to_array_T(st, x) if not (isinstance(x, (Ref, Tup)) and f in ("concatenate", "vstack", "hstack", "stack", "column_stack", "meshgrid")) else it.as_T(st, x) for x in a]
    if f in ("linalg.norm", "dot", "matmul", "cross", "inner") and ts and ts[0].op == "list":
        pass
    if f in ("matmul", "dot") and len(ts) == 2:
        s0, s1 = tm.shape(ts[0]), tm.shape(ts[1])
        if s0 and s1:
            return tm.binop("@", ts[0], ts[1])
    if f in ("add", "subtract", "multiply", "divide", "power", "mod", "remainder", "true_divide") and len(ts) == 2:
        return tm.binop({"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "true_divide": "/", "power": "**", "mod": "%", "remainder": "%"}[f], ts[0], ts[1])
    if f == "negative":
        return tm.unop("-", ts[0])
    if f == "transpose" and len(ts) == 1:
        return tm.transpose(ts[0])
    if f == "finfo" and (not a or np_dtype(a[0]) is float):
        return Ext("numpy.finfo()")
    if f == "eye" or f == "identity":
        pass
    if f in ("vstack", "stack", "row_stack") and len(ts) == 1 and not kw:
        k = it.known_items(st, a[0]) if isinstance(a[0], (Ref, Tup)) else None
        if k is not None and not isinstance(k, U):
            items = [it.to_array_T(st, x) for x in k]
            ss = {tm.shape(x) for x in items}
            if len(ss) == 1 and None not in ss and (f == "stack" or len(next(iter(ss))) == 1):
                return it._lit(st, items)
            if f != "stack" and items and None not in ss and all(len(x) == 2 for x in ss) and len({x[1] for x in ss}) == 1:
                name = "numpy.concatenate"  # pieces of a table, one under another
    if f in ("deg2rad", "radians"):
        return tm.binop("*", ts[0], const(math.pi / 180))
    if f in ("rad2deg", "degrees"):
        return tm.binop("*", ts[0], const(180 / math.pi))
    if f in ("all", "any") and len(ts) == 1 and not kw:
        pass
    t = mk("call", name, tuple(ts), tuple(sorted((k, it.as_T(st, v)) for k, v in kw.items())))
    it.note_mayraise(t)
    return t


def np_array(it, st, name, args, kwargs):
    v = args[0]
    dt = np_dtype(kwargs.get("dtype", args[1] if len(args) > 1 else None))
    copyf = kwargs.get("copy", True)
    if isinstance(v, U):
        if all(isinstance(w, Ref) and it.obj(st, w).kind == "array" for _, w in cases_of(v, st.pc)) and name in ("numpy.array", "numpy.copy") and copyf is True:
            t = it.deref(st, v)
            if dt is not None:
                t = it.lift(st, t, lambda x: cast_T(x, dt))
            return it.new_array(st, t)
        return it.branch(st, cases_of(v, st.pc), lambda s, w: np_array(it, s, name, [w] + args[1:], kwargs))
    if isinstance(v, Ref) and it.obj(st, v).kind == "array":
        if name not in ("numpy.array", "numpy.copy") or copyf is not True:
            return v  # may alias
        t = it.content(st, v)
        if dt is not None:
            t = it.lift(st, t, lambda x: cast_T(x, dt))
        return it.new_array(st, t)
    if isinstance(v, Ref) and isinstance(it.content(st, v), U) and it.obj(st, v).kind == "list":
        t = it.lift(st, it.content(st, v), lambda c: _arr_of(it, st, Tup(c) if type(c) is tuple else c, dt))
        return it.new_array(st, t)
    if isinstance(v, T) and v.op not in ("list", "tuple"):
        s = tm.shape(v)
        it.note_mayraise(mk("call", "numpy.array", (v,), ()))
        if s is None:
            return it.new_array(st, mk("call", "numpy.array", (v,), (("dtype", const(dt.__name__)),) if dt else ()))
        if s == ():
            return cast_T(v, dt) if dt else v
        return it.new_array(st, cast_T(v, dt) if dt else v)
    t = _arr_of(it, st, v, dt)
    if t.op == "call" and st.pc != 0:
        it.note_mayraise(t)
    if tm.shape(t) == ():
        return it._scalar(t)
    return it.new_array(st, t)


def _arr_of(it, st, v, dt):
    t = it.to_array_T(st, v)
    if t.op == "arr" and not dt and any(tm.is_k(e) and isinstance(e.args[1], float) for e in t.args[1:]):
        t = tm.arr(t.args[0], [const(float(e.args[1])) if tm.is_k(e) and type(e.args[1]) is int else e for e in t.args[1:]])
    return cast_T(t, dt) if dt else t


# ---------------------------------------------------------------------------- methods
def call_method(it, st, name, self_, args, kwargs):
    kind, m = name.split(".", 1) if not name.startswith("builtins.") else name[9:].split(".", 1)
    if isinstance(self_, U):
        return it.branch(st, cases_of(self_, st.pc), lambda s, w: call_method(it, s, name, w, args, kwargs))
    if kind == "str" or (isinstance(self_, str) and hasattr(str, m)):
        return str_method(it, st, m, self_, args, kwargs)
    if kind == "exc":
        return None
    if kind == "list":
        return list_method(it, st, m, self_, args, kwargs)
    if kind == "dict":
        return dict_method(it, st, m, self_, args, kwargs)
    if kind == "set":
        return set_method(it, st, m, self_, args, kwargs)
    if kind == "array":
        return array_method(it, st, m, self_, args, kwargs)
    if kind == "ntuple":
        if m == "_asdict":
            return it.new_dict(st, tuple(zip(self_.names[1], self_.items)))
        d = dict(zip(self_.names[1], self_.items))
        d.update(kwargs)
        return Tup([d[n] for n in self_.names[1]], self_.names)
    if kind == "tuple":
        if m == "index" and conc(args[0]):
            return dict((leaf_key(x), i) for i, x in reversed(list(enumerate(self_.items)))).get(leaf_key(args[0]), mk("unknown", "index"))
        if m == "count":
            return sum(1 for x in self_.items if leaf_key(x) == leaf_key(args[0]))
    if kind == "scalar":
        if m in ("real", "item"):
            return self_
        try:
            return abstract(it, st, getattr(self_, m)(*args))
        except Exception:
            if isinstance(self_, (int, float)):
                try:
                    return abstract(it, st, getattr(np.float64(self_), m)(*args))
                except Exception:
                    pass
            return mk("unknown", m)
    if kind == "method" and isinstance(self_, Ref):  # opaque external object (file, figure)
        o = it.obj(st, self_)
        sup = getattr(it, "_supers", {}).get(self_.addr)
        if sup is not None:
            return super_call(it, st, sup, m, args, kwargs)
        it.note_mayraise(mk("mcall?", it.as_T(st, self_), m))
        it.event("method", st, (it.as_T(st, self_), m, tuple(args), tuple(sorted(kwargs.items())), self_.addr))
        if m == "readlines" or m == "readline" or m == "read":
            d = getattr(it, "file_content", None)
            if d is not None:
                return d(it, st, m)
        t = mk("mcall", it.as_T(st, self_), m, tuple(it.as_T(st, a) for a in args), tuple(sorted((k, it.as_T(st, v)) for k, v in kwargs.items())))
        return t
    if kind == "term":
        return term_method(it, st, m, self_, args, kwargs)
    if kind == "object":
        if m == "__setattr__":
            it.setattr(st, self_, args[0], args[1], raw=True)
            return None
        if m == "__delattr__":
            it.delattr(st, self_, args[0], raw=True)
            return None
        return None
    return mk("mcall", it.as_T(st, self_), m, tuple(it.as_T(st, a) for a in args), tuple(sorted((k, it.as_T(st, v)) for k, v in kwargs.items())))


def super_call(it, st, sup, m, args, kwargs):
    self_, mro = sup
    for c in mro:
        if isinstance(c, Cls) and m in c.attrs:
            return it.call(st, BoundM(c.attrs[m], self_), args, kwargs)
        if isinstance(c, Ext) and c.name == "builtins.dict":
            return call_method(it, st, "dict." + m, self_, args, kwargs)
    if m == "__setattr__":
        it.setattr(st, self_, args[0], args[1], raw=True)
    if m == "__delattr__":
        it.delattr(st, self_, args[0], raw=True)
    if m == "__init__" and isinstance(self_, Ref) and it.obj(st, self_).kind == "inst" and args:
        it.setattr(st, self_, "args", Tup(args), raw=True)
    return None


def term_method(it, st, m, o, args, kwargs):
    if m == "itemgetter" and isinstance(o, Tup):
        vals = [it.getitem(st, args[0], i) for i in o.items]
        return vals[0] if len(vals) == 1 else Tup(vals)
    t = mk("mcall", it.as_T(st, o), m, tuple(it.as_T(st, a) for a in args), tuple(sorted((k, it.as_T(st, v)) for k, v in kwargs.items())))
    it.note_mayraise(t)
    if m in ("lower", "upper", "strip") and isinstance(o, T) and o.op == "mcall" and o.args[1] == m:
        return o
    root = o
    while isinstance(root, T) and root.op in ("mcall", "attr"):
        root = root.args[0]
    it.event("method", st, (it.as_T(st, o), m, tuple(args), tuple(sorted(kwargs.items())), None))
    if isinstance(o, T) and o.op == "sym" and o.args[1] == "str":
        return t
    return t


def str_method(it, st, m, s, args, kwargs):
    if isinstance(s, str):
        if m == "join":
            v = args[0]
            if isinstance(v, U):
                return it.branch(st, cases_of(v, st.pc), lambda x, w: str_method(it, x, m, s, [w], kwargs))
            k = it.known_items(st, v)
            it.exhaust(st, v)
            if isinstance(k, U):
                return mk_union([(g, join(it, st, s, w)) for g, w in cases_of(k, st.pc)])
            if k is not None:
                return join(it, st, s, k)
            return mk("mcall", const(s), "join", (it.as_T(st, v),), ())
        if m == "format":
            parts = format_parts(it, st, s, args, kwargs)
            if parts is not None:
                return it.join_parts(st, parts)

            def f(vals):
                if all(conc(x) for x in vals):
                    try:
                        return s.format(*vals[: len(args)], **dict(zip(kwargs, vals[len(args):])))
                    except Exception:
                        pass
                return mk("mcall", const(s), "format", tuple(it.as_T(st, x) for x in vals[: len(args)]),
                          tuple(sorted((k, it.as_T(st, x)) for k, x in zip(kwargs, vals[len(args):]))))
            return dist(it, st, list(args) + list(kwargs.values()), f)

        def f(vals):
            try:
                cv = [conc_deep(it, st, x) for x in vals]
                r = getattr(s, m)(*cv[: len(args)], **dict(zip(kwargs, cv[len(args):])))
                return abstract(it, st, r)
            except KeyError:
                pass
            except Exception as e:
                it.raise_builtin(st, type(e).__name__, str(e))
                return mk("unknown", m)
            t = mk("mcall", const(s), m, tuple(it.as_T(st, x) for x in vals), ())
            return it.bool_value(tm.atom(t)) if m in ("startswith", "endswith") else t

        if m == "maketrans":
            pass
        return dist(it, st, list(args) + list(kwargs.values()), f)
    return term_method(it, st, m, s, args, kwargs)


def format_parts(it, st, s, args, kwargs):
    """Parts of s.format(*args, **kwargs) as those of a formatted string, or None."""
    out, auto = [], 0
    try:
        for text, field, spec, conv in string.Formatter().parse(s):
            if text:
                out.append(text)
            if field is None:
                continue
            if "{" in spec:
                return None
            m = re.fullmatch(r"(\w*)((?:\[\w+\])*)", field)
            if m is None:
                return None
            key = m.group(1)
            if key == "":
                key, auto = str(auto), auto + 1
            v = args[int(key)] if key.isdigit() else kwargs[key]
            for i in re.findall(r"\[(\w+)\]", m.group(2)):
                v = it.getitem(st, v, int(i) if i.isdigit() else i)
            out.append(it.lift(st, v, lambda x: it.format_value(st, x, spec, conv or "")))
    except (ValueError, IndexError, KeyError):
        return None
    return out


def percent_parts(it, st, s, args):
    """Parts of s % args as those of a formatted string, or None."""
    out, pos, k = [], 0, 0
    for m in re.finditer(r"%(?P<flags>[-+ 0#]*)(?P<width>\d*)(?P<prec>\.\d+)?(?P<conv>.)", s):
        out.append(s[pos:m.start()])
        pos = m.end()
        f, w, p, c = m.group("flags"), m.group("width"), m.group("prec") or "", m.group("conv")
        if c == "%":
            out.append("%")
            continue
        if c not in "sdifFeEgGrx" or k >= len(args) or "#" in f:
            return None
        text = c in "sr"
        align = "<" if "-" in f and w else ">" if w and text else ""
        sign = "" if text else "+" if "+" in f else " " if " " in f else ""
        zero = "0" if "0" in f and "-" not in f and not text and w else ""
        spec = align + sign + zero + w + p + ("" if text else "d" if c == "i" else c)
        v = args[k]
        k += 1
        if c in "dix":
            v = it.call(st, Ext("builtins.int"), [v], {})
        out.append(it.lift(st, v, lambda x: it.format_value(st, x, spec, "r" if c == "r" else "s" if text else "")))
    if k != len(args) or "%" in s[pos:]:
        return None
    return out + [s[pos:]]


def join(it, st, s, k):
    parts = []
    for i, x in enumerate(k):
        if i:
            parts.append(s)
        parts.append(x)
    if not parts:
        return ""
    return it.join_parts(st, parts)


DEQUE = ("append", "appendleft", "extend", "extendleft", "popleft", "rotate")


def list_method(it, st, m, r, args, kwargs):
    k = it.obj(st, r).cls
    if isinstance(k, tuple) and k[0] == "deque" and m in DEQUE:
        if m in ("append", "extend"):
            (it.list_append if m == "append" else it.list_extend)(st, r, args[0])
            deque_trim(it, st, r, True)
            return None
        return deque_method(it, st, m, r, args, kwargs)
    if m == "append":
        it.list_append(st, r, args[0])
        return None
    if m == "extend":
        it.list_extend(st, r, args[0])
        return None
    if m == "copy":
        return shallow(it, st, r)
    c = it.content(st, r)
    if isinstance(c, U):
        return it.branch(st, cases_of(c, st.pc), lambda s, w: _list_m(it, s, m, r, w, args, kwargs))
    return _list_m(it, st, m, r, c, args, kwargs)


def _list_m(it, st, m, r, c, args, kwargs):
    if type(c) is tuple:
        if m == "pop":
            i = args[0] if args else -1
            if isinstance(i, int):
                if not c or not -len(c) <= i < len(c):
                    it.raise_builtin(st, "IndexError")
                    return mk("unknown", "pop")
                l = list(c)
                v = l.pop(i)
                it.set_content(st, r, tuple(l), "pop")
                return v
        if m == "insert" and isinstance(args[0], int):
            l = list(c)
            l.insert(args[0], args[1])
            it.set_content(st, r, tuple(l), "insert")
            return None
        if m in ("remove", "index", "count"):
            eqs = [it._eq(st, x, args[0]) for x in c]
            if all(e in (0, 1) for e in eqs):
                if m == "count":
                    return sum(eqs)
                if 1 not in eqs:
                    it.raise_builtin(st, "ValueError", m)
                    return mk("unknown", m)
                i = eqs.index(1)
                if m == "index":
                    return i
                it.set_content(st, r, c[:i] + c[i + 1:], "remove")
                return None
            if m == "index" and all(isinstance(e, int) for e in eqs):
                out, left = [], TRUE
                for i, e in enumerate(eqs):
                    out.append((AND(left, e), i))
                    left = AND(left, NOT(e))
                if AND(st.pc, left):
                    it.raise_builtin(st, "ValueError", m, left)
                return mk_union(out)
        if m == "sort":
            v = do_sorted(it, st, c, kwargs, r)
            it.set_content(st, r, it.content(st, v), "sort")
            return None
        if m == "reverse":
            it.set_content(st, r, tuple(reversed(c)), "reverse")
            return None
        if m == "clear":
            it.set_content(st, r, (), "clear")
            return None
    t = mk("mcall", it.as_T(st, r), m, tuple(it.as_T(st, a) for a in args), ())
    if m in ("pop", "insert", "remove", "sort", "reverse", "clear"):
        it.set_content(st, r, mk("unknown", "list." + m, it.as_T(st, r), tuple(it.as_T(st, a) for a in args)), m)
    return t


def counter(it, st, args, kwargs):
    r = it.new_dict(st, ())
    st.heap[r.addr] = st.heap[r.addr]._replace(cls=("counter",))
    if args:
        count(it, st, r, args[0], 1)
    for k, v in kwargs.items():
        it.setitem(st, r, k, v)
    return r


def count(it, st, r, v, sign):
    if isinstance(v, U):
        it.branch(st, cases_of(v, st.pc), lambda s, w: count(it, s, r, w, sign))
        return
    k = it.known_items(st, v)
    if isinstance(k, U):
        it.branch(st, cases_of(k, st.pc), lambda s, w: count(it, s, r, Tup(w), sign))
        return
    if k is None:
        it.set_content(st, r, mk("unknown", "Counter", it.as_T(st, v)), "update")
        return
    pairs = isinstance(v, Ref) and it.obj(st, v).kind == "dict"
    for x in k:
        n = it.getitem(st, v, x) if pairs else 1
        it.setitem(st, r, x, it.binary(st, "+" if sign > 0 else "-", it.getitem(st, r, x), n))


def counter_method(it, st, m, r, args, kwargs):
    c = it.content(st, r)
    if m in ("update", "subtract"):
        for a in args:
            count(it, st, r, a, 1 if m == "update" else -1)
        return None
    if type(c) is tuple:
        if m == "total":
            return builtin(it, st, "sum", [it.new_list(st, [v for _, v in c])], {})
        if all(isinstance(v, int) for _, v in c):
            if m == "elements":
                return it.new_list(st, [k for k, v in c for _ in range(v)])
            n = args[0] if args else kwargs.get("n")
            return it.new_list(st, [Tup([k, v]) for k, v in sorted(c, key=lambda p: -p[1])][:n])
    return mk("unknown", "Counter." + m, it.as_T(st, r))


def deque_trim(it, st, r, left):
    n = it.obj(st, r).cls[1]
    c = it.content(st, r)
    if isinstance(n, int) and type(c) is tuple and len(c) > n:
        it.set_content(st, r, c[len(c) - n:] if left else c[:n], "maxlen")


def deque_method(it, st, m, r, args, kwargs):
    o = it.obj(st, r)
    c = it.content(st, r)
    if type(c) is not tuple:
        it.set_content(st, r, mk("unknown", "deque." + m), m)
        return mk("unknown", "deque." + m)
    if m in ("appendleft", "extendleft"):
        k = (args[0],) if m == "appendleft" else it.known_items(st, args[0])
        if k is None or isinstance(k, U):
            it.set_content(st, r, mk("unknown", "deque." + m), m)
            return None
        it.set_content(st, r, tuple(reversed(k)) + c, m)
        deque_trim(it, st, r, False)
        return None
    if m == "popleft":
        if not c:
            it.raise_builtin(st, "IndexError")
            return mk("unknown", "pop")
        it.set_content(st, r, c[1:], m)
        return c[0]
    if m == "rotate":
        n = args[0] if args else 1
        if c and isinstance(n, int):
            n %= len(c)
            it.set_content(st, r, c[len(c) - n:] + c[:len(c) - n], m)
        return None
    v = list_method(it, st, m, Ref(r.addr), args, kwargs)
    deque_trim(it, st, r, True)
    return v


def dict_method(it, st, m, r, args, kwargs):
    k = it.obj(st, r).cls
    if k == ("counter",) and m in ("update", "subtract", "most_common", "elements", "total"):
        return counter_method(it, st, m, r, args, kwargs)
    if m == "__init__":
        if args:
            it.dict_update(st, r, args[0])
        for a, v in kwargs.items():
            it.setitem(st, r, a, v)
        return None
    if k == ("OrderedDict",) and m in ("move_to_end", "popitem") and type(it.content(st, r)) is tuple:
        c = list(it.content(st, r))
        last = (args[1 if m == "move_to_end" else 0:] or [kwargs.get("last", True)])[0]
        if m == "popitem" and c and isinstance(last, bool):
            x = c.pop(-1 if last else 0)
            it.set_content(st, r, tuple(c), m)
            return Tup(x)
        if m == "move_to_end" and isinstance(last, bool):
            x = [p for p in c if leaf_key(p[0]) == leaf_key(args[0])]
            if not x:
                it.raise_builtin(st, "KeyError", args[0])
                return None
            c.remove(x[0])
            it.set_content(st, r, tuple(c + x if last else x + c), m)
            return None
    o = it.obj(st, r)
    c = it.content(st, r)
    if m in ("update", "__init__"):
        if args:
            it.dict_update(st, r, args[0])
        for k, v in kwargs.items():
            it.setitem(st, r, k, v)
        return None
    if m in ("__setitem__",):
        ob = it.obj(st, r)
        it.set_content(st, r, it._lift_content(st, ob.kind, ob.content, lambda s, w: it._set_in(s, r, ob, w, args[0], args[1])) if isinstance(ob.content, U) else it._set_in(st, r, ob, ob.content, args[0], args[1]), "setitem", args[0])
        return None
    if m == "__delitem__":
        it.delitem(st, r, args[0])
        return None
    if m == "copy":
        return shallow(it, st, r)
    if isinstance(c, U):
        return it.branch(st, cases_of(c, st.pc), lambda s, w: _dict_m(it, s, m, r, w, args, kwargs))
    return _dict_m(it, st, m, r, c, args, kwargs)


def _dict_m(it, st, m, r, c, args, kwargs):
    if type(c) is tuple:
        if m == "keys":
            return it.new_list(st, [k for k, _ in c])
        if m == "values":
            return it.new_list(st, [v for _, v in c])
        if m == "items":
            return it.new_list(st, [Tup([k, v]) for k, v in c])
        if m == "__getitem__":
            return it.getitem(st, r, args[0])
        if m == "__contains__":
            return it.bool_value(it._in(st, args[0], r))
        if m == "get":
            d = args[1] if len(args) > 1 else kwargs.get("default")
            return it.dict_get(st, r, c, args[0], d, False) if not isinstance(args[0], U) else mk_union([(g, it.dict_get(st, r, c, w, d, False)) for g, w in cases_of(args[0], st.pc)])
        if m == "setdefault":
            d = args[1] if len(args) > 1 else None
            g = it._in(st, args[0], r)
            if AND(st.pc, g) == 0:
                it.setitem(st, r, args[0], d)
                return d
            if AND(st.pc, NOT(g)) == 0:
                return it.getitem(st, r, args[0])
            def go(s, w):
                if w:
                    return it.getitem(s, r, args[0])
                it.setitem(s, r, args[0], d)
                return d
            return it.branch(st, [(g, True), (NOT(g), False)], go)
        if m == "pop":
            if it._is_constkey(args[0]):
                for k, v in c:
                    if leaf_key(k) == leaf_key(args[0]):
                        it.set_content(st, r, tuple((a, b) for a, b in c if leaf_key(a) != leaf_key(args[0])), "pop", args[0])
                        return v
                if len(args) > 1:
                    return args[1]
                it.raise_builtin(st, "KeyError")
                return mk("unknown", "pop")
        if m == "clear":
            it.set_content(st, r, (), "clear")
            return None
    t = mk("mcall", it.as_T(st, r), m, tuple(it.as_T(st, a) for a in args), ())
    if m in ("pop", "popitem", "setdefault", "clear"):
        it.set_content(st, r, mk("unknown", "dict." + m), m)
    if m in ("keys", "values", "items"):
        return it.alloc(st, "list", t)
    return t


def set_method(it, st, m, r, args, kwargs):
    c = it.content(st, r)
    if type(c) is tuple:
        if m == "add":
            if leaf_key(args[0]) not in {leaf_key(x) for x in c}:
                it.set_content(st, r, c + (args[0],), "add")
            return None
        if m in ("union", "intersection", "difference", "symmetric_difference"):
            cur = r
            for a in args:
                k = it.known_items(st, a)
                if k is None or isinstance(k, U):
                    return it.alloc(st, "set", mk("setop", m, it.as_T(st, r), it.as_T(st, a)))
                cur = it.set_op(st, {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[m], cur, it.make_set(st, k))
            return cur
        if m in ("issubset", "issuperset", "isdisjoint"):
            k = it.known_items(st, args[0])
            if k is not None and not isinstance(k, U) and all(it._is_constkey(x) for x in tuple(k) + c):
                return getattr({leaf_key(x) for x in c}, m)({leaf_key(x) for x in k})
        if m in ("discard", "remove"):
            it.set_content(st, r, tuple(x for x in c if leaf_key(x) != leaf_key(args[0])), m)
            return None
        if m == "copy":
            return shallow(it, st, r)
        if m == "update":
            for a in args:
                k = it.known_items(st, a)
                if k is not None and not isinstance(k, U):
                    for x in k:
                        set_method(it, st, "add", r, [x], {})
            return None
    if m in ("add", "discard", "remove", "update", "pop", "clear"):
        it.set_content(st, r, mk("unknown", "set." + m, it.as_T(st, r)), m)
        return None
    return mk("mcall", it.as_T(st, r), m, tuple(it.as_T(st, a) for a in args), ())


VIEW_METHODS = {"reshape", "ravel", "squeeze", "view", "swapaxes", "transpose"}


def array_method(it, st, m, r, args, kwargs):
    if m == "copy" or m == "astype":
        dt = np_dtype(args[0] if args else kwargs.get("dtype")) if m == "astype" else None
        t = it.content(st, r)
        if m == "astype" and kwargs.get("copy", True) is not True and dt is float and it._dtype(st, r) != "int":
            return r
        return it.new_array(st, it.lift(st, t, lambda x: cast_T(x, dt)) if dt else t)
    if m == "tolist":
        def conv(c):
            s = tm.shape(c)
            e = tm.expand(c)
            if e is None:
                return None
            def go(pre, ss):
                if not ss:
                    return it._scalar(tm.getitem(e, pre))
                return it.new_list(st, [go(pre + (i,), ss[1:]) for i in range(ss[0])])
            return go((), s)
        c = it.content(st, r)
        if not isinstance(c, U):
            v = conv(c)
            if v is not None:
                return v
        return it.alloc(st, "list", mk("mcall", it.as_T(st, r), m, (), ()))
    if m in ("transpose",) and not args:
        return it.getattr(st, r, "T")
    if m == "dot":
        return it.binary(st, "@", r, args[0])
    if m in ("sum", "min", "max", "mean", "prod", "all", "any", "round", "clip", "argmin", "argmax", "cumsum", "ptp", "std", "nonzero", "conj", "trace", "diagonal", "repeat", "argsort", "take"):
        return np_call(it, st, "numpy." + m, [r] + list(args), kwargs)
    if m == "flatten":
        t = it.content(st, r)

        def f(c):
            e = tm.expand(c)
            if e is not None:
                return tm.arr((len(e.args) - 1,), e.args[1:])
            return mk("mcall", c, "flatten", (), ())
        return it.wrap_arrays(st, None, it.lift(st, t, f))
    if m == "item" and not args:
        t = it.content(st, r)
        return t
    if m in ("sort", "fill", "put", "resize", "itemset", "setflags", "partition"):
        if m == "setflags":
            return None
        if m == "sort" and not args and not kwargs:
            it.store_array(st, r, np_call(it, st, "numpy.sort", [r], {}), "array.sort")
            return None
        if m == "fill":
            it.setitem(st, r, SliceV(None, None, None), args[0])
            return None
        it.set_content(st, r, mk("unknown", "array." + m, it.as_T(st, r), tuple(it.as_T(st, a) for a in args)), "array." + m)
        return None
    if m in VIEW_METHODS:
        if m == "view" and not args and not kwargs:
            return r
        try:
            a = tuple(conc_deep(it, st, x) for x in args)
            s = {tm.shape(c) for _, c in cases_of(it.content(st, r), st.pc)}
            if len(s) == 1 and not kwargs and m != "view":
                np.shape(getattr(np.empty(s.pop()), m)(*a))
                return Ref(r.addr, r.path + (("view", m, a),))
        except Exception:
            pass
        t = mk("mcall", it.as_T(st, r), m, tuple(it.as_T(st, x) for x in args), tuple(sorted((k, it.as_T(st, v)) for k, v in kwargs.items())))
        return it.new_array(st, t, it.obj(st, r).origin)
    t = mk("mcall", it.as_T(st, r), m, tuple(it.as_T(st, a) for a in args), tuple(sorted((k, it.as_T(st, v)) for k, v in kwargs.items())))
    it.note_mayraise(t)
    return it.from_T(st, t)
