"""Objects and errors of the package survive copy, deepcopy and pickle.

The copy protocol of Python is applied to the analysed classes. Errors: the
arguments kept by BaseException (positional ones of the constructor, or the ones
given to super().__init__) have to be accepted by the constructor again and give
the same text. Objects: look-ups of special names on an object without
attributes have to end with AttributeError, items and attributes have to be
values that can be copied, and stored items have to come back unchanged.
"""
import ast

from .. import oracle
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..inputs import sarr
from ..interp import BoundM, Cls, Fun, Mod, Ref, State, Tup, U, cases_of, is_exception
from ..interp import Ext
from . import calls, kobj
from .common import crystal_interp, run_crystal

LEVEL = "other"
FLOOR = 25
ASSUMPTIONS = ["arrays, numbers, strings, lists and dictionaries can be copied and pickled", "errors of the language and of libraries can be pickled"]
HOOKS = ("__reduce__", "__reduce_ex__", "__getstate__", "__setstate__", "__copy__", "__deepcopy__", "__getnewargs__", "__getnewargs_ex__", "__slots__", "__new__")
SPECIAL = ("__deepcopy__", "__copy__", "__setstate__", "__getnewargs__", "__getnewargs_ex__")
DRIVER = '''
import wulfric

def f0(): return wulfric.crystal.get_atom_species("qq", raise_on_fail=True)
def f1(a): return wulfric.crystal.get_atoms_species(a, raise_on_fail=True)
def look(d): return d.NAME
def store(d): d["key"] = "value"
def read(d): return d["key"]
def count(d): return len(d)
'''


def check(ctx):
    it = ctx.interp("plain")
    cr = crystal_interp(ctx)
    for label, kind, fn, conv in TRIGGERS:
        ctx.ob(f"errors of {label}", errors, ctx, cr if kind == "crystal" else it, label, kind, fn, conv)
    for fam, cen in oracle.LATTICE_TYPES:
        for fn in ("wulfric.crystal.get_conventional", "wulfric.kpoints.get_path_and_points"):
            ctx.ob(f"errors of {fn.split('.')[-1]} {fam}{cen}", errors, ctx, cr, f"{fn.split('.')[-1]} SC {fam}{cen}", "crystal", fn, (fam, cen, "SC"))
    for n in SPECIAL:
        for how in ("empty", "filled"):
            ctx.ob(f"SyntacticSugar, {n}, {how}", special, ctx, n, how)
    ctx.ob("SyntacticSugar items", items, ctx, it)
    for name in ("SpglibData", "Kpoints", "SyntacticSugar"):
        ctx.ob(f"{name} attributes", attributes, ctx, cr if name == "Kpoints" else it, name)


TRIGGERS = [
    ("get_conventional, unknown convention", "crystal", "wulfric.crystal.get_conventional", ("o", "P", "qq")),
    ("get_primitive, unknown convention", "crystal", "wulfric.crystal.get_primitive", ("o", "P", "qq")),
    ("get_path_and_points, unknown convention", "crystal", "wulfric.kpoints.get_path_and_points", ("o", "P", "qq")),
    ("get_atom_species", "species", "f0", None),
    ("get_atoms_species", "species", "f1", None),
    ("get_niggli", "niggli", None, None),
]


def driver(it, name="NAME"):
    m = "wsa_copies_" + name
    if m not in it.modules:
        it.modules[m] = Mod(m, ast.parse(DRIVER.replace("NAME", name)), "copies", False)
    return it.load(m)


def errors(ctx, it, label, kind, fn, conv):
    if kind == "crystal":
        r, *_ = run_crystal(it, fn, conv[0], conv[1], conv[2])
    elif kind == "species":
        st = State()
        a = [calls.atoms(it, st, "array", values=dict(names=["Cr1", "qq", "Br"]))] if fn == "f1" else []
        r = it.run(driver(it).env[fn], a, {}, st=st)
    else:
        st = State()
        c = it.new_array(st, tm.from_np(__import__("numpy").array([[1.0, 5, 0], [0, 1, 7], [0, 0, 1]])))
        r = it.run("wulfric.cell.get_niggli", [c], dict(implementation="wulfric", max_iterations=1), st=st)
    seen = set()
    for x in r.raises:
        if not isinstance(x.cls, Cls) or not isinstance(x.value, Ref):
            continue
        o = x.heap.get(x.value.addr) or it.base_heap.get(x.value.addr)
        if o is None or o.kind != "inst":
            continue
        key = (x.cls.name, x.loc)
        if key in seen:
            continue
        seen.add(key)
        rebuilt(ctx, it, label, x, o)
    if not seen and kind != "crystal":
        raise Undecided("no error of the package is raised")


def rebuilt(ctx, it, label, x, o):
    c = x.cls
    if any(h in k.attrs for k in c.mro() if isinstance(k, Cls) for h in HOOKS):
        raise Undecided(f"{c.name} has its own protocol of copies")
    state = dict(o.content)
    args = state.get("args")
    if not isinstance(args, Tup):
        raise Undecided("arguments of the error are not known")
    ctx.count("errors")
    loc = fun_loc(c.lookup("__init__")) if isinstance(c.lookup("__init__"), Fun) else x.loc
    st = State()
    st.heap.update(x.heap)
    new, raises = kobj.act(it, st, lambda: it.call(st, c, list(args.items), {}))
    bad = [q for q in raises if q.pc != 0]
    if bad:
        raise Violation(f"{c.name} raised by {label} can not be pickled or copied: it is rebuilt from {len(args.items)} arguments and its constructor fails", loc, f"pickle {c.name}")
    ob = it.obj(st, new)
    if ob is None or ob.kind != "inst":
        raise Undecided("rebuilt error is not known")
    both = dict(ob.content)
    both.update({k: v for k, v in state.items() if k != "args"})
    st.heap[new.addr] = ob._replace(content=tuple(both.items()))
    old, nw = text(it, st, x.value, c), text(it, st, new, c)
    if old is None or nw is None:
        raise Undecided("text of the error is not known")
    if old is not nw:
        raise Violation(f"text of {c.name} raised by {label} is another one after pickling or copying: {tm.show(nw, 3)[:80]}", loc, f"text {c.name}")


def text(it, st, e, c):
    f = c.lookup("__str__")
    if f is None:
        a = dict(it.obj(st, e).content).get("args")
        return None if a is None else it.as_T(st, a)
    v, raises = kobj.act(it, st, lambda: it.call(st, BoundM(f, e), [], {}))
    return None if raises else it.as_T(st, v)


def special(ctx, n, how):
    it = ctx.interp("plain")
    st = State()
    d = it.instantiate(st, it.public("wulfric.SyntacticSugar"), [], {})
    if how == "filled":
        it.setitem(st, d, "names", tm.sym("v", "any"))
    c = it.obj(st, d).cls
    if isinstance(c, Cls) and any(n in k.attrs for k in c.mro() if isinstance(k, Cls)):
        raise Undecided(f"SyntacticSugar defines {n}")
    r = it.run(driver(it, n).env["look"], [d], {}, st=st)
    loc = fun_loc(c.lookup("__getattr__")) if isinstance(c.lookup("__getattr__"), Fun) else None
    ctx.count("lookups")
    if r.st.pc != 0:
        raise Violation(f"SyntacticSugar pretends to have {n}", loc, f"special {n}")
    for x in r.raises:
        k = getattr(x.cls, "name", str(x.cls)).split(".")[-1]
        if k != "AttributeError":
            raise Violation(f"look-up of {n} on a SyntacticSugar object raises {k} instead of AttributeError: it can not be copied or pickled", x.loc or loc, f"special {k}")


def items(ctx, it):
    """Items are set one by one with the own __setitem__ of the class on a new object."""
    st = State()
    d = it.instantiate(st, it.public("wulfric.SyntacticSugar"), [], {})
    m = driver(it, "key")
    r = it.run(m.env["store"], [d], {}, st=st)
    loc = None
    if r.st.pc == 0 or r.raises:
        raise Violation("an item can not be stored in a new SyntacticSugar object", r.raises[-1].loc if r.raises else loc, "items raise")
    v = it.run(m.env["read"], [d], {}, st=r.st)
    n = it.run(m.env["count"], [d], {}, st=v.st)
    if v.value != "value" or n.value != 1:
        raise Violation("a stored item of a SyntacticSugar object is another one when read", loc, "items differ")
    ctx.count("lookups")


def build(it, name):
    st = State()
    if name == "Kpoints":
        r = kobj.make(it, path="GAMMA-X|Y-Z", n=7)
        return r.st, r.value
    if name == "SyntacticSugar":
        d = it.new_dict(st, [("names", it.new_list(st, ["Cr1"])), ("positions", sarr(it, st, "p", (1, 3)))])
        r = it.run("wulfric.add_sugar", [d], {}, st=st)
        return r.st, r.value
    from . import c15_spglib_data as c15
    r, _ = c15.run(it, "dict", 12)
    if r.st.pc == 0 or not isinstance(r.value, Ref):
        raise Undecided("SpglibData is not constructed")
    return r.st, r.value


def attributes(ctx, it, name):
    st, v = build(it, name)
    c = it.obj(st, v).cls
    for k in c.mro():
        if isinstance(k, Cls):
            for h in HOOKS:
                if h in k.attrs:
                    raise Undecided(f"{name} has its own protocol of copies ({h})")
    o = it.obj(st, v)
    pairs = o.content if isinstance(o.content, tuple) else ()
    ctx.count("objects")
    for k, x in pairs:
        bad = unpicklable(it, st, x, 0)
        if bad:
            raise Violation(f"{name} objects can not be pickled: attribute {k} is {bad}", fun_loc(c.lookup("__init__")) if isinstance(c.lookup("__init__"), Fun) else None, f"{name} {k}")


def unpicklable(it, st, x, depth):
    if depth > 6:
        return None
    if isinstance(x, U):
        for g, w in cases_of(x, st.pc):
            b = unpicklable(it, st, w, depth + 1)
            if b:
                return b
        return None
    if isinstance(x, Fun):
        return "a lambda or a local function" if x.node.__class__.__name__ == "Lambda" or "<locals>" in x.qual or x.closure else None
    if isinstance(x, BoundM):
        return unpicklable(it, st, x.fn, depth + 1)
    if isinstance(x, Mod):
        return "a module"
    if isinstance(x, Tup):
        for y in x.items:
            b = unpicklable(it, st, y, depth + 1)
            if b:
                return b
    if isinstance(x, Ref):
        o = it.obj(st, x)
        if o is None:
            return None
        if o.kind in ("gen", "generator", "iter"):
            return "a generator"
        c = o.content
        if isinstance(c, tuple):
            for y in c:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if not isinstance(z, str):
                        b = unpicklable(it, st, z, depth + 1)
                        if b:
                            return b
    return None
