"""Attribute and key access of SyntacticSugar are the same thing; SpglibData objects are read-only.

Sequences of operations on the objects are analysed with symbolic values and
compared with a plain dictionary (reference model); assignments and deletions of
every attribute of SpglibData have to raise.
"""
import ast
import itertools

from .. import oracle, rint
from ..core import Undecided, Violation, fun_loc
from ..interp import Cls, Mod, State, U
from ..terms import sym
from . import calls
from .common import crystal_interp

LEVEL = "other"
FLOOR = 90
DRIVER = '''
import wulfric

def read_attr(d): return d.KEY
def read_item(d): return d["KEY"]
def read_get(d): return d.get("KEY", 5)
def has(d): return "KEY" in d
def hasattr_(d): return hasattr(d, "KEY")
def write_attr(d, v): d.KEY = v
def write_item(d, v): d["KEY"] = v
def write_setattr(d, v): setattr(d, "KEY", v)
def write_update(d, v): d.update({"KEY": v})
def del_attr(d): del d.KEY
def del_item(d): del d["KEY"]
def del_delattr(d): delattr(d, "KEY")
def del_pop(d): d.pop("KEY")
def add(d): return wulfric.add_sugar(d)
def remove(d): return wulfric.remove_sugar(d)
def keys(d): return list(d)
def pairs(d): return [(k, d[k]) for k in d]
def items(d): return list(d.items())
def size(d): return len(d)
def kinds(d): return (isinstance(d, dict), isinstance(d, wulfric.SyntacticSugar), type(d) is dict, type(d) is wulfric.SyntacticSugar)
'''
WRITES = ("write_attr", "write_item", "write_setattr", "write_update")
DELS = ("del_attr", "del_item", "del_delattr", "del_pop")
READS = ("read_attr", "read_item", "read_get", "has", "hasattr_")
FIELDS = ("original_cell", "original_positions", "original_types", "spglib_version", "space_group_number", "crystal_family", "centring_type", "conventional_cell",
          "conventional_positions", "conventional_types", "primitive_cell", "primitive_positions", "primitive_types", "symprec", "angle_tolerance")


def driver(it, key):
    name = "wsa_sugar_" + key
    if name not in it.modules:
        it.modules[name] = Mod(name, ast.parse(DRIVER.replace("KEY", key)), "sequence of operations", False)
    return it.load(name)


def check(ctx):
    it = ctx.interp("plain")
    for how in ("SyntacticSugar()", "add_sugar", "SyntacticSugar(dict)"):
        for w in WRITES:
            for key in ("names", "number", "brand_new", "_private", "x_"):
                ctx.ob(f"{how}: {w} of {key}, all reads", sequence, ctx, it, how, key, (w,))
        for w, d in itertools.product(WRITES, DELS):
            ctx.ob(f"{how}: {w}, {d}, all reads", sequence, ctx, it, how, "names", (w, d))
        for d in DELS:
            ctx.ob(f"{how}: {d} of a missing key", sequence, ctx, it, how, "absent", (d,))
        ctx.ob(f"{how}: reads of a missing key", sequence, ctx, it, how, "absent", ())
    for src in ("dict", "sugar", "empty", "removed", "odd keys"):
        for f in ("add", "remove"):
            ctx.ob(f"{f}_sugar of {src}", convert, ctx, it, f, src)
    for f in ("add_sugar", "remove_sugar"):
        for bad in ("list", "pairs", "str", "None", "number", "array"):
            ctx.ob(f"{f} of {bad}", refused, ctx, it, f, bad)
    for a in FIELDS + ("brand_new",):
        for op in ("write_attr", "write_setattr", "del_attr", "del_delattr"):
            ctx.ob(f"SpglibData: {op} of {a}", frozen, ctx, it, a, op)


class Run:
    def __init__(self, it, key):
        self.it, self.m, self.st = it, driver(it, key), State()
        self.st.heap.update(it.base_heap)

    def __call__(self, op, *args):
        f = self.m.env[op]
        n = len(self.it.sinks)
        self.it.curmod_push(f.module)
        self.it.sinks.append([])
        try:
            v = self.it.call(self.st, f, list(args), {})
        finally:
            raises = self.it.sinks.pop()
            self.it.curmod_pop()
        assert len(self.it.sinks) == n
        return v, raises

    def term(self, v):
        return self.it.as_T(self.st, v)


class Gone(Exception):
    pass


def model(d, op, key, v):
    """Reference: a dictionary; attribute access is key access with AttributeError."""
    if op in WRITES:
        d[key] = v
        return None
    if op in DELS:
        if key not in d:
            raise Gone("KeyError" if op in ("del_item", "del_pop") else "KeyError or AttributeError")
        del d[key]
        return None
    if op == "read_attr" and key not in d:
        raise Gone("AttributeError")
    if op == "read_item" and key not in d:
        raise Gone("KeyError")
    return {"read_attr": lambda: d[key], "read_item": lambda: d[key], "read_get": lambda: d.get(key, 5), "has": lambda: key in d, "hasattr_": lambda: key in d}[op]()


def start(run, how):
    it, st = run.it, run.st
    ref = {}
    if how == "SyntacticSugar()":
        d = it.call(st, it.public("wulfric.SyntacticSugar"), [], {})
    else:
        ref = {"names": sym("v_names", "any"), "number": sym("v_number", "any")}
        src = it.new_dict(st, list(ref.items()), "input:d")
        d = run("add", src)[0] if how == "add_sugar" else it.call(st, it.public("wulfric.SyntacticSugar"), [src], {})
    return d, ref


def sugar_loc(it, name=None):
    c = it.public("wulfric.SyntacticSugar")
    f = c.lookup(name) if name else None
    return fun_loc(f if f is not None and hasattr(f, "node") else c)


def step(run, d, ref, op, key, v=None):
    it = run.it
    st0 = run.st
    probe = op.startswith(("read", "has"))
    if probe:
        run.st = st0.fork(1) if hasattr(st0, "fork") else st0
    try:
        got, raises = run(op, *([d] if v is None else [d, v]))
        dead = run.st.pc == 0
        try:
            want = model(ref, op, key, v)
            err = None
        except Gone as e:
            want, err = None, str(e)
        loc = sugar_loc(it)
        if err is not None:
            if not dead:
                raise Violation(f"{op.replace('_', ' ')} of a missing key does not raise", loc, f"missing {op}")
            c = rint.cls_name(raises[-1].cls)
            if c not in err.split(" or "):
                raise Violation(f"{op.replace('_', ' ')} of a missing key raises {c} instead of {err}", raises[-1].loc, f"class {op}")
            return False
        if dead:
            raise Violation(f"{op.replace('_', ' ')} of an existing key raises {rint.cls_name(raises[-1].cls)}", raises[-1].loc, f"raises {op}")
        if probe:
            if isinstance(got, U) or rint.cls_name(type(got)) == "NoneType" and want is not None:
                raise Undecided("value is not definite")
            a, b = run.term(got), run.term(want)
            if a is not b:
                raise Violation(f"{op.replace('_', ' ')} gives {a} where the dictionary has {b}", loc, f"value {op}")
        return True
    finally:
        if probe:
            run.st = st0


def sequence(ctx, it, how, key, ops):
    run = Run(it, key)
    d, ref = start(run, how)
    if run.st.pc == 0:
        raise Violation(f"{how} raises", sugar_loc(it), "construction raises")
    for i, op in enumerate(ops):
        if not step(run, d, ref, op, key, sym(f"new{i}", "any") if op in WRITES else None):
            return
    for op in READS:
        step(run, d, ref, op, key)
    content(run, d, ref, "the object", sugar_loc(it))
    ctx.count("operations", len(ops) + len(READS))


def content(run, d, ref, what, loc):
    it = run.it
    for op in ("pairs", "items"):
        v, _ = run(op, d)
        got = it.known_items(run.st, v)
        if got is None or isinstance(got, U):
            raise Undecided("items are not known")
        got = [tuple(it.known_items(run.st, x)) for x in got]
        if [k for k, _ in got] != list(ref):
            raise Violation(f"{what} has the keys {[k for k, _ in got]} instead of {list(ref)}", loc, "keys")
        for (k, x) in got:
            if run.term(x) is not run.term(ref[k]):
                raise Violation(f"value of {k} in {what} is another one", loc, "values")
    v, _ = run("size", d)
    if v != len(ref):
        raise Violation(f"len of {what} is {v}", loc, "len")


def convert(ctx, it, f, src):
    run = Run(it, "names")
    ref = {} if src == "empty" else {"names": sym("v_names", "any"), "number": sym("v_number", "any"), "z": 3, "a": sym("va", "any")}
    if src == "odd keys":
        ref = {"_private": 1, "x_": 2, 5: 3, "two words": 4, "names": sym("v_names", "any"), "keys": 5, "": 6}
    s = it.new_dict(run.st, list(ref.items()), "input:d")
    if src == "sugar":
        s, _ = run("add", s)
    if src == "removed":
        s, _ = run("add", s)
        s, _ = run("remove", s)
    loc = fun_loc(it.public(f"wulfric.{f}_sugar"))
    out, raises = run(f, s)
    if run.st.pc == 0:
        raise Violation(f"{f}_sugar of a dictionary raises {rint.cls_name(raises[-1].cls)}", raises[-1].loc, f"{f} raises")
    k, _ = run("kinds", out)
    k = it.known_items(run.st, k)
    want = (True, True, False, True) if f == "add" else (True, False, True, False)
    if any(not isinstance(x, bool) for x in k):
        raise Undecided("class of the result is not known")
    if tuple(k) != want:
        raise Violation(f"{f}_sugar returns an object of another class", loc, f"{f} class")
    content(run, out, ref, f"result of {f}_sugar", loc)
    before = run.term(s)
    run("write_item", out, sym("changed", "any"))
    if run.term(s) is not before:
        raise Violation(f"result of {f}_sugar and its argument are the same dictionary", loc, f"{f} aliases")
    content(run, s, ref, f"argument of {f}_sugar", loc)


def refused(ctx, it, f, bad):
    st = State()
    st.heap.update(it.base_heap)
    x = {"list": lambda: it.new_list(st, [1, 2]), "pairs": lambda: it.new_list(st, [it.new_list(st, ["a", 1])]), "str": lambda: "abc", "None": lambda: None, "number": lambda: 5,
         "array": lambda: calls.cell(it, st, "array")}[bad]()
    r = it.run(f"wulfric.{f}", [x], {}, st=st)
    if rint.returned(r):
        raise Violation(f"{f} accepts an object which is not a dictionary ({bad})", r.exits[-1].loc if r.exits else None, f"{f} accepts")
    for e in rint.sure(r):
        if rint.cls_name(e.cls) != "ValueError":
            raise Violation(f"{f} raises {rint.cls_name(e.cls)} instead of ValueError for {bad}", e.loc, f"{f} class")


def frozen(ctx, it, a, op):
    run = Run(it, a)
    d = calls.sd(it, run.st)
    args = [d] + ([sym("new", "any")] if op.startswith("write") else [])
    before = run.term(d)
    _, raises = run(op, *args)
    c = it.public("wulfric.SpglibData")
    loc = fun_loc(c)
    if rint.returned(run):
        if run.term(d) is before:
            raise Violation(f"{op.replace('_', ' ')} of {a} of SpglibData is silently ignored", loc, "ignored")
        raise Violation(f"SpglibData can be changed: {op.replace('_', ' ')} of {a}", loc, "not frozen")
    if rint.cls_name(raises[-1].cls) not in ("AttributeError", "FrozenInstanceError", "TypeError"):
        raise Violation(f"{op.replace('_', ' ')} of {a} raises {rint.cls_name(raises[-1].cls)}", raises[-1].loc, "class of the error")
