"""Functions change neither their arguments nor the state of the package.

Effect analysis: every write to an object which was not created by the call
(argument, part of an argument, module-level object) is an effect. Documented
in-place functions may change the atoms they are given, nothing else.
"""
from .. import terms as tm
from ..core import Undecided, Violation
from ..interp import State, cases_of
from ..inputs import sarr
from .calls import atoms, cell, kp_inputs, table, vec
from .common import crystal_interp

LEVEL = "proof"
FLOOR = 60
ASSUMPTIONS = ["spglib, scipy, plotly do not modify their arguments"]

PLAIN = {"get_spglib_types", "get_spglib_data", "validate_atoms", "validate_spglib_data", "get_params", "from_params"}


def interp_for(ctx, fn):
    """The functions which the others are analysed modulo are analysed with their own bodies."""
    if fn.split(".")[-1] in PLAIN or not fn.startswith(("wulfric.crystal", "wulfric.kpoints", "wulfric.Kpoints")):
        return ctx.interp("plain")
    return crystal_interp(ctx)


def check(ctx):
    for label, fn, build, inplace in table():
        ctx.ob(label, one, ctx, label, fn, build, inplace)
    for m in KP_CALLS:
        ctx.ob(f"Kpoints.{m[0]}", kp, ctx, *m)
    for name, build in ENGINE:
        ctx.ob(f"PlotlyEngine.{name}", engine, ctx, name, build)


def snapshot(it, st):
    """Terms of the inputs and of module-level objects (address -> term)."""
    return {a: it._content_T(st, o, o.content, 0) for a, o in st.heap.items() if o.origin.startswith("input:")}


def effects(it, r, pre, inplace, label, new_ok=()):
    for e in r.events:
        if e.kind != "mutate":
            continue
        origin, how, data, addr = e.data
        if origin.startswith("fresh") and addr not in it.base_heap:
            continue
        if inplace and (origin.startswith("input:atoms.positions") or (origin == "input:atoms" and data == "positions")):
            continue
        if origin.startswith("input:"):
            ends = [r.st.heap.get(addr)] + [x.heap.get(addr) for x in r.raises]
            if addr in pre and all(o is None or it._content_T(r.st, o, o.content, 0) is pre[addr] for o in ends):
                continue
            what = "argument " + origin[6:]
        else:
            what = "module-level object"
        yield e, what


def one(ctx, label, fn, build, inplace):
    it = interp_for(ctx, fn)
    st = State()
    args, kw = build(it, st)
    pre = snapshot(it, st)
    r = it.run(fn, args, kw, st=st)
    ctx.count("calls_analysed")
    for e, what in effects(it, r, pre, inplace, label):
        name = fn.split(".")[-1]
        tag = ""
        if name == "get_unique_names":
            tag = " " + str(kw.get("strategy"))
        raise Violation(f"{name} writes to {what} ({e.data[1]})", e.loc, f"{name}{tag} writes to {what}")
    globals_written(it, r, fn)


def globals_written(it, r, fn):
    for e in r.events:
        if e.kind == "global":
            raise Violation(f"{fn.split('.')[-1]} rebinds the module-level name {e.data}", e.loc, f"{fn.split('.')[-1]} rebinds {e.data}")


def method(name, *args, **kw):
    return lambda it, st, k: it.call(st, it.getattr(st, k, name), [a(it, st) if callable(a) else a for a in args], kw)


def prop(name):
    return lambda it, st, k: it.getattr(st, k, name)


KP_CALLS = [("__init__", None)] + [(n, f) for n, f in [
    ("ticks", method("ticks")), ("ticks relative", method("ticks", relative=True)), ("points", method("points")), ("points relative", method("points", relative=True)),
    ("flat_points", method("flat_points")), ("labels", prop("labels")), ("path_string", prop("path_string")), ("path", prop("path")), ("n", prop("n")),
    ("copy", method("copy")), ("hs_table", method("hs_table")), ]]


def kp(ctx, name, action):
    it = ctx.interp("plain")
    st = State()
    args, kw = kp_inputs(it, st)
    pre = snapshot(it, st)
    r = it.run("wulfric.Kpoints", args, kw, st=st)
    for e, what in effects(it, r, pre, (), name):
        raise Violation(f"Kpoints() writes to {what} ({e.data[1]})", e.loc, f"Kpoints writes to {what}")
    if action is None:
        return
    k = r.value
    before = it.as_T(r.st, k)
    n0 = len(it.events)
    pre = snapshot(it, r.st)
    it.curmod_push(it.public("wulfric.Kpoints").module)
    it.sinks.append([])
    try:
        action(it, r.st, k)
    finally:
        it.sinks.pop()
        it.curmod_pop()
    if it.as_T(r.st, k) is not before:
        e = next((e for e in it.events[n0:] if e.kind == "mutate"), None) or next((e for e in it.events[n0:]), None)
        raise Violation(f"{name} changes the Kpoints object", e.loc if e else None, f"Kpoints {name} changes self")
    for e in it.events[n0:]:
        if e.kind == "mutate" and (e.data[0].startswith("input:") or e.data[3] in it.base_heap):
            raise Violation(f"{name} writes to {e.data[0]}", e.loc, f"Kpoints {name} writes")


def _atoms(*keys, types=None, form="array"):
    return lambda it, st: atoms(it, st, form, keys, types=types, values=dict(names=["Cr1", "Br", "x"], species=["Cr", "Br", "X"]))


def _c(it, st):
    return cell(it, st, "array")


def _v(name):
    return lambda it, st: vec(it, st, "array", name)


def _kp(it, st):
    old = set(st.heap)
    args, kw = kp_inputs(it, st)
    k = it.call(st, it.public("wulfric.Kpoints"), args, kw)
    for a in list(st.heap):
        o = st.heap[a]
        if o.origin == "fresh" and a not in old:
            st.heap[a] = o._replace(origin="input:kp")
    return k


def _d(**kw):
    return lambda it, st: it.new_dict(st, list(kw.items()), "input:kwargs_write_html")


ENGINE = [
    ("plot_points", dict(points=lambda it, st: sarr(it, st, "points", (4, 3)), legend_label="x")),
    ("plot_line", dict(start_point=_v("start"), end_point=_v("end"), legend_label="x")),
    ("plot_vector", dict(start_point=_v("start"), end_point=_v("end"), vector_label="v")),
    ("plot_cell", dict(cell=_c, shift=_v("shift"), legend_label="x")),
    ("plot_lattice", dict(cell=_c, shift=_v("shift"), legend_label="x")),
    ("plot_wigner_seitz_cell", dict(cell=_c, shift=_v("shift"), legend_label="x")),
    ("plot_brillouin_zone", dict(cell=_c, shift=_v("shift"), legend_label="x")),
    ("plot_atoms", dict(cell=_c, atoms=_atoms("names"), shift=_v("shift"), legend_label="x")),
    ("plot_atoms", dict(cell=_c, atoms=_atoms("species", "mykey"))),
    ("plot_atoms", dict(cell=_c, atoms=_atoms("names", "species", types=[1, 2, 3]))),
    ("plot_kpath", dict(kp=_kp, shift=_v("shift"), legend_label="x")),
    ("plot_kpoints", dict(kp=_kp, shift=_v("shift"), legend_label="x")),
    ("plot_kpoints", dict(kp=_kp, only_from_kpath=True)),
    ("save", dict(output_name="f.html", kwargs_write_html=_d(auto_open=False))),
    ("save", dict(output_name="f.html", kwargs_write_html=_d())),
    ("save", dict(legend_position="left", axes_visible=False, kwargs_write_html=_d(full_html=False, config=None), title="t")),
    ("show", dict(legend_position="RIGHT", axes_visible=False, width=100)),
    ("plot_points", dict(points=lambda it, st: sarr(it, st, "points", (2, 3)), colors=lambda it, st: it.new_list(st, ["red", "#112233"], "input:colors"))),
    ("plot_atoms", dict(cell=_c, atoms=_atoms("names"), colors=lambda it, st: it.new_list(st, ["red", "#112233", "blue"], "input:colors"))),
]


def engine(ctx, name, build):
    it = ctx.interp("plain")
    st = State()
    r0 = it.run("wulfric.PlotlyEngine", [], {}, st=st)
    c = it.public("wulfric.PlotlyEngine")
    kw = {k: (v(it, st) if callable(v) else v) for k, v in build.items()}
    pre = snapshot(it, st)
    r = it.run(c.lookup(name), [r0.value], kw, st=st)
    for e, what in effects(it, r, pre, (), name):
        raise Violation(f"PlotlyEngine.{name} writes to {what} ({e.data[1]})", e.loc, f"PlotlyEngine.{name} writes to {what}")
