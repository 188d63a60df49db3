"""Returned objects share no mutable state with arguments, SpglibData or tables of the package.

Ownership analysis: objects reachable from the result (through containers,
instances, views) are compared with objects which existed before the call.
"""
from .. import rint
from ..core import Undecided, Violation
from ..interp import Ref, State, Tup, U, cases_of
from ..inputs import sarr
from . import kobj
from .c12_no_side_effects import interp_for
from .calls import kp_inputs, table

LEVEL = "proof"
FLOOR = 40

# values of the given dictionary / content of files
SKIP = ("add_sugar", "remove_sugar", "hpkot_get_example", "load_poscar", "get_niggli")


def check(ctx):
    for label, fn, build, inplace in table():
        if fn.split(".")[-1] in SKIP or inplace:
            continue
        ctx.ob(label, one, ctx, label, fn, build)
    ctx.ob("Kpoints()", kp, ctx)
    for rel in (True, False):
        ctx.ob(f"Kpoints.add_hs_point(relative={rel})", kp_add, ctx, rel)
    ctx.ob("Kpoints.path", kp_path, ctx)
    ctx.ob("Kpoints.copy()", kp_copy, ctx)


def reach(it, st, v, seen=None):
    """Addresses of objects reachable from the value, with the access path."""
    seen = {} if seen is None else seen
    todo = [(v, "result")]
    while todo:
        x, p = todo.pop()
        if isinstance(x, U):
            todo += [(w, p) for _, w in cases_of(x, st.pc)]
        elif isinstance(x, (Tup,)):
            todo += [(w, f"{p}[{i}]") for i, w in enumerate(x.items)]
        elif isinstance(x, Ref):
            if x.addr in seen:
                continue
            seen[x.addr] = p
            o = it.obj(st, x)
            for _, c in cases_of(o.content, st.pc):
                if type(c) is tuple:
                    if o.kind in ("dict", "inst"):
                        todo += [(b, f"{p}.{a}" if o.kind == "inst" else f"{p}[{a!r}]") for a, b in c]
                    else:
                        todo += [(b, f"{p}[{i}]") for i, b in enumerate(c)]
    return seen


def shared(it, st, v, what, loc=None):
    for a, p in reach(it, st, v).items():
        o = st.heap.get(a)
        if o is None or a in it.base_heap:
            o = o or it.base_heap.get(a)
            if a in it.base_heap and o.kind in ("list", "dict", "set", "array"):
                raise Violation(f"{p} of {what} is a module-level object: changing it changes later results", loc, f"{what.split('(')[0]} returns module-level object at {p.split('[')[0]}")
            continue
        if o.origin.startswith("input:") and o.kind in ("list", "dict", "set", "array", "inst"):
            raise Violation(f"{p} of {what} is the object {o.origin[6:]} given by the caller (or a view of it)", loc, f"{what.split('(')[0]} shares {o.origin[6:].split('[')[0]}")


def one(ctx, label, fn, build):
    it = interp_for(ctx, fn)
    st = State()
    args, kw = build(it, st)
    r = it.run(fn, args, kw, st=st)
    ctx.count("calls_analysed")
    loc = next((e.loc for e in r.exits), None)
    if st.pc == 0:
        return
    shared(it, r.st, r.value, label, loc)


def kp(ctx):
    it = ctx.interp("plain")
    st = State()
    args, kw = kp_inputs(it, st)
    r = it.run("wulfric.Kpoints", args, kw, st=st)
    f = it.public("wulfric.Kpoints").lookup("__init__")
    shared(it, r.st, r.value, "Kpoints()", (f.module.path, f.qual, f.node.lineno))


def kp_act(ctx, what, name, act):
    it = ctx.interp("plain")
    st = State()
    args, kw = kp_inputs(it, st)
    r = it.run("wulfric.Kpoints", args, kw, st=st)
    _, raises = kobj.act(it, r.st, lambda: act(it, r))
    if r.st.pc == 0:
        raise Undecided(f"{what} always raises")
    shared(it, r.st, r.value, what, kobj.loc(it, name))


def kp_add(ctx, rel):
    kp_act(ctx, f"Kpoints.add_hs_point(relative={rel})", "add_hs_point",
           lambda it, r: it.call(r.st, it.getattr(r.st, r.value, "add_hs_point"), ["new", sarr(it, r.st, "q", (3,))], dict(relative=rel)))


def kp_path(ctx):
    def act(it, r):
        nm = list(rint.val(kobj.R(it, r.st), it.getattr(r.st, r.value, "hs_names"), {}))
        it.setattr(r.st, r.value, "path", it.new_list(r.st, [it.new_list(r.st, nm[:2], "input:path"), it.new_list(r.st, nm[::-1], "input:path")], "input:path"))
    kp_act(ctx, "Kpoints.path", "path", act)


def kp_copy(ctx):
    it = ctx.interp("plain")
    st = State()
    args, kw = kp_inputs(it, st)
    r = it.run("wulfric.Kpoints", args, kw, st=st)
    c = it.public("wulfric.Kpoints")
    it.curmod_push(c.module)
    it.sinks.append([])
    try:
        v = it.call(r.st, it.getattr(r.st, r.value, "copy"), [], {})
    finally:
        it.sinks.pop()
        it.curmod_pop()
    f = c.lookup("copy")
    loc = (f.module.path, f.qual, f.node.lineno)
    a, b = reach(it, r.st, r.value), reach(it, r.st, v)
    both = set(a) & set(b)
    if both:
        p = b[sorted(both)[0]]
        raise Violation(f"copy shares {p} with the original", loc, "copy shares state")
    if it.as_T(r.st, v) is not it.as_T(r.st, r.value):
        raise Violation("copy differs from the original", loc, "copy differs")
