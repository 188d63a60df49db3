"""Errors of refused calls are of the documented class and name what is refused.

Calls with offending values (symbolic where a value is refused for any text or
number) are propagated through the analysed functions; the text of the error
that is raised is evaluated at sample points and searched for the offending
value, its place and the supported values.
"""
import re

import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..inputs import sarr, satoms, spglib_data
from ..interp import BoundM, Cls, Ref, State, Tup
from . import calls, kobj, plots
from .c33_atoms_refused import alter, lst, make, pos
from .common import OTYPES, PTYPES, crystal_env, crystal_interp, ctypes_of
from .files import Disk

LEVEL = "other"
FLOOR = 60
ASSUMPTIONS = ["texts of errors are searched for values, without regard to letter case and wording"]


def sym(n, kind="any"):
    return tm.sym(n, kind)


def case(fn, args, cls, words, env=None, never=(), kw=None, key="plain"):
    return dict(fn=fn, args=args, cls=cls, words=words, env=env or {}, never=never, kw=kw or {}, key=key)


def L(*items):
    return lambda it, st: it.new_list(st, [x(it, st) if callable(x) else x for x in items], "input:value")


def build(it, st, x):
    return x(it, st) if callable(x) else x


def cases():
    VE = "ValueError"
    for v in ("=<", "=>", "=", "<>", "qq"):
        yield f"compare_with_tolerance {v!r}", case("wulfric.compare_with_tolerance", [sym("x", "float"), sym("condition", "str"), sym("y", "float")], VE, [f'"{v}"', "<=", ">=", "==", "!="], dict(x=1.0, y=2.0, condition=v))
    for s, w in (("GAMMA-X|M|R-X", ["2", "M"]), ("K|GAMMA-X", ["1", "K"]), ("GAMMA-X|X-M|R", ["3", "R"])):
        yield f"get_path_as_list {s}", case("wulfric.kpoints.get_path_as_list", [s], VE, w)
    for v in (42, None, 2.5):
        yield f"get_path_as_list {v}", case("wulfric.kpoints.get_path_as_list", [v], VE, [str(v)])
    yield "get_path_as_string 42", case("wulfric.kpoints.get_path_as_string", [42], VE, ["42"])
    yield "get_path_as_string [[A, B], 77]", case("wulfric.kpoints.get_path_as_string", [L(L("A", "B"), 77)], VE, ["2", "77"])
    yield "get_path_as_string [55, [A, B]]", case("wulfric.kpoints.get_path_as_string", [L(55, L("A", "B"))], VE, ["1", "55"])
    for f in ("add_sugar", "remove_sugar"):
        yield f"{f} list", case("wulfric." + f, [L(1, 2)], VE, ["list"])
        yield f"{f} string", case("wulfric." + f, ["text"], VE, ["str"])
    yield "get_atom_species", case("wulfric.crystal.get_atom_species", ["?q1"], "FailedToDeduceAtomSpecies", ["?q1"], kw=dict(raise_on_fail=True))
    yield "get_atoms_species", case("wulfric.crystal.get_atoms_species", [lambda it, st: it.new_dict(st, [("names", it.new_list(st, ["Fe", "?q1", "Br"]))], "input:atoms")], "FailedToDeduceAtomSpecies", ["?q1"],
                                    kw=dict(raise_on_fail=True), never=["'Fe'", "'Br'"])
    yield "get_unique_names", case("wulfric.crystal.get_unique_names", [lambda it, st: it.new_dict(st, [("names", it.new_list(st, ["Fe", "Fe"]))], "input:atoms")], VE, ["qq", "all", "repeated-only"], kw=dict(strategy="qq"))
    yield "sc_get_example", case("wulfric.cell.sc_get_example", ["qq"], VE, ["qq", "ORCF3", "TRI1a", "MCLC5", "CUB"])
    for fn in ("hpkot_get_example",):
        yield fn, case("wulfric.crystal." + fn, ["qq"], VE, ["qq", r"\baP3\b", r"\boF2\b", r"\bhR1\b", r"\bmC3\b", r"\btI\b", r"\bcP\b"])
    yield "get_spglib_types", case("wulfric.get_spglib_types", [lambda it, st: it.new_dict(st, [("positions", sarr(it, st, "p", (1, 3)))])], VE, ["spglib_types", "species", "names"])
    for v in ("qq", "ase"):
        yield f"get_niggli {v}", case("wulfric.cell.get_niggli", [lambda it, st: sarr(it, st, "cell", (3, 3))], VE, [v, "spglib", "wulfric"], dict(cell=np.eye(3)), kw=dict(implementation=v), key="niggli")
    cub = lambda it, st: it.new_array(st, tm.from_np(np.array([[1.0, 5, 0], [0, 1, 7], [0, 0, 1]])))
    for n in (1, 2):
        yield f"get_niggli {n} iterations", case("wulfric.cell.get_niggli", [cub], "NiggliReductionFailed", [str(n)], kw=dict(implementation="wulfric", max_iterations=n))
    # atoms
    for i in range(3):
        for bad in (42, None, 1.5):
            yield f"name {i} {bad}", atoms(dict(names=lst([bad if j == i else "Cr" for j in range(3)])), [r"\b%d\b" % i, "names", str(bad)])
        for bad in ("Fe1", "fe", "Xx"):
            yield f"species {i} {bad}", atoms(dict(species=lst([bad if j == i else "Fe" for j in range(3)])), [r"\b%d\b" % i, "species", bad])
        for bad in (1.5, 0, -7, "t"):
            yield f"type {i} {bad}", atoms(dict(spglib_types=lst([bad if j == i else 1 for j in range(3)])), [r"\b%d\b" % i, "spglib_types", str(bad)])
    for k in ("positions", "names", "species", "spglib_types", "mykey"):
        yield f"no {k}", atoms({k: Ellipsis}, [f'"{k}"'] + [x for x in ("positions", "names", "species", "spglib_types", "mykey") if x != k], rk=[k])
    for k, v in (("names", ["Cr"]), ("species", ["Cr"]), ("spglib_types", [1]), ("mykey", [1])):
        yield f"short {k}", atoms({k: lst(v)}, ["names", "species", "spglib_types", "mykey", "positions", r"\b1\b", r"\b3\b"])
    for m in (2, 4):
        yield f"positions of {m} components", atoms(dict(positions=pos(3, "array", m)), ["positions", r"\(3, %d\)" % m], env={"atoms.positions": np.zeros((3, m))})
    # conventions, data
    for fn, sup in (("wulfric.crystal.get_conventional", ["HPKOT", "SC", "spglib"]), ("wulfric.crystal.get_primitive", ["HPKOT", "SC", "spglib"]), ("wulfric.kpoints.get_path_and_points", ["HPKOT", "SC"]),
                    ("wulfric.Kpoints.from_crystal", ["HPKOT", "SC"])):
        for v in ("qq", "ita"):
            yield f"{fn.split('.')[-1]} convention {v}", dict(crystal=fn, kw=dict(convention=v), cls="ConventionNotSupported", words=[v] + [r"\b%s\b" % x for x in sup], data=True, env={}, never=["spglib"] if len(sup) == 2 else [])
    for fn in ("wulfric.crystal.get_conventional", "wulfric.crystal.get_primitive", "wulfric.kpoints.get_path_and_points", "wulfric.Kpoints.from_crystal", "wulfric.crystal.sc_get_variation",
               "wulfric.crystal.hpkot_get_extended_bl_symbol"):
        for v, w in ((5, "int"), ("data", "str")):
            yield f"{fn.split('.')[-1]} data {w}", dict(crystal=fn, kw={}, cls="TypeError", words=["spglib_data", "SpglibData", w], data=v, env={}, never=[])


def atoms(changes, words, rk=None, env=None):
    d = alter(changes)
    kw = {} if rk is None else dict(required_keys=L(*rk))
    return case("wulfric.crystal.validate_atoms", [lambda it, st: make(it, st, d)], "ValueError", words, env=env or {"atoms.positions": np.zeros((3, 3))}, kw=kw)


def check(ctx):
    cs = dict(cases())
    for label, c in cs.items():
        ctx.ob(label, refusal, ctx, label, c)
    for n in range(8):
        ctx.ob(f"parallelepiped_check, names of conditions {n}", parallelepiped, ctx, n)
    for what in ("cell", "positions", "types"):
        ctx.ob(f"validate_spglib_data, {what}", stale, ctx, what)
    for label in ("coordinate", "path", "one point", "n", "labels", "names", "several"):
        ctx.ob(f"Kpoints, {label}", kpoints, ctx, label)
    for mode in ("direct", "D", "qq"):
        ctx.ob(f"dump_poscar, mode {mode}", dump, ctx, mode)
    ctx.ob("dump_poscar, name", dump, ctx, None)
    ctx.ob("load_poscar, missing file", load, ctx)
    for what in ("shape", "failure"):
        ctx.ob(f"get_spglib_data, {what}", data, ctx, what)
    for sp, an in ((None, None), (1e-07, 5), (0.5, 0.25), (7, 3)):
        ctx.ob(f"get_spglib_data, failure, symprec {sp}", data, ctx, "failure", sp, an)
    for name in ("save", "show"):
        for v in ("middle", "qq"):
            ctx.ob(f"{name}, legend {v}", legend, ctx, name, v)


def text(it, x):
    """The term of the text of the raised error."""
    v = x.value
    st = State()
    if x.heap is not None:
        st.heap.update(x.heap)
    if isinstance(v, Ref):
        o = it.obj(st, v)
        if o is not None and o.kind == "inst":
            f = o.cls.lookup("__str__") if isinstance(o.cls, Cls) else None
            if f is not None:
                w, raises = kobj.act(it, st, lambda: it.call(st, BoundM(f, v), [], {}))
                return it.as_T(st, w)
            a = dict(o.content).get("args")
            return it.as_T(st, a.items[0]) if isinstance(a, Tup) and len(a.items) == 1 else None
        v = it.as_T(st, v)
    if isinstance(v, tm.T) and v.op == "exc" and len(v.args) == 2:
        a = v.args[1]
        if isinstance(a, tuple):
            return a[0] if len(a) == 1 else None
    return None


def message(it, x, env):
    t = text(it, x)
    if t is None:
        raise Undecided("text of the error is not known")
    if isinstance(t, str):
        return t
    try:
        return str(tm.evaluate(t, env, {}))
    except tm.Unevaluable as e:
        raise Undecided(f"text of the error is not closed-form: {e}")


def judge(ctx, it, r, label, cls, words, env, never=(), loc=None):
    x = rint.raised(r, env, strict=True) if r.st.pc != 0 else (rint.raised(r, env) or r.raises[-1])
    if x is None:
        if r.raises and any(isinstance(q.pc, int) is False for q in r.raises):
            raise Undecided("conditions of the error are not closed-form")
        raise Violation(f"{label}: accepted", loc or (r.exits[-1].loc if r.exits else None), f"{label} accepted")
    if rint.cls_name(x.cls) != cls:
        raise Violation(f"{label}: {rint.cls_name(x.cls)} instead of {cls}", x.loc, f"{label} class")
    m = message(it, x, env)
    ctx.count("errors")
    for w in words:
        if not found(w, m):
            raise Violation(f"{label}: the error does not name {w!r}: {m[:160]!r}", x.loc, f"{label} names {w}")
    for w in never:
        if found(w, m):
            raise Violation(f"{label}: the error names {w!r}: {m[:160]!r}", x.loc, f"{label} wrongly names {w}")
    return m


def found(w, m):
    return w.lower() in m.lower() or re.search(w, m, re.I) is not None if "\\" in w else w.lower() in m.lower()


def refusal(ctx, label, c):
    if "crystal" in c:
        return crystal(ctx, label, c)
    it = ctx.interp("messages " + c["key"])
    it.assume_available = True
    if c["key"] == "niggli":
        it.while_hook = lambda i, s, st: setattr(st, "pc", 0) or True
    st = State()
    args = [build(it, st, a) for a in c["args"]]
    kw = {k: build(it, st, v) for k, v in c["kw"].items()}
    r = it.run(c["fn"], args, kw, st=st)
    judge(ctx, it, r, label, c["cls"], c["words"], c["env"], c["never"], fun_loc(it.public(c["fn"])) if not isinstance(it.public(c["fn"]), Cls) else None)


def crystal(ctx, label, c):
    it = crystal_interp(ctx)
    st = State()
    cell = sarr(it, st, "cell", (3, 3))
    at = satoms(it, st, len(OTYPES), ("names",))
    data = spglib_data(it, st, 16, "o", "P", OTYPES, ctypes_of("P"), PTYPES) if c["data"] is True else c["data"]
    r = it.run(c["crystal"], [cell, at], dict(c["kw"], spglib_data=data), st=st)
    env = crystal_env(oracle.rng(ctx.seed, label), "o", "P")
    judge(ctx, it, r, label, c["cls"], c["words"], env, c["never"])


CONDITIONS = {
    "(a <= 0": lambda p, l, t: p[0] < l, "(b <= 0": lambda p, l, t: p[1] < l, "(c <= 0": lambda p, l, t: p[2] < l,
    "(alpha >= 180": lambda p, l, t: p[3] > 180 - t, "(beta >= 180": lambda p, l, t: p[4] > 180 - t, "(gamma >= 180": lambda p, l, t: p[5] > 180 - t,
    "(alpha <= 0": lambda p, l, t: p[3] < t, "(beta <= 0": lambda p, l, t: p[4] < t, "(gamma <= 0": lambda p, l, t: p[5] < t,
    "gamma < alpha + beta": lambda p, l, t: p[5] > p[3] + p[4] - t, "beta < alpha + gamma": lambda p, l, t: p[4] > p[3] + p[5] - t,
    "alpha < beta + gamma": lambda p, l, t: p[3] > p[4] + p[5] - t, "alpha + beta < 360 - gamma": lambda p, l, t: p[3] + p[4] > 360 - p[5] - t,
    "alpha + gamma < 360 - beta": lambda p, l, t: p[3] + p[5] > 360 - p[4] - t, "beta + gamma < 360 - alpha": lambda p, l, t: p[4] + p[5] > 360 - p[3] - t,
}


def parallelepiped(ctx, seed):
    it = ctx.interp("plain")
    fn = "wulfric.geometry.parallelepiped_check"
    st = State()
    names = ["pa", "pb", "pc", "alpha", "beta", "gamma"]
    r = it.run(fn, [sym(n, "float") for n in names], dict(raise_error=True, length_tolerance=sym("lt", "float"), angle_tolerance=sym("at", "float")), st=st)
    g = oracle.rng(ctx.seed, "parallelepiped", seed)
    loc = fun_loc(it.public(fn))
    done = 0
    for k in range(80):
        p = np.concatenate([g.uniform(-1, 5, size=3) if k % 3 == 0 else g.uniform(1, 5, size=3), g.uniform(-30, 220, size=3) if k % 2 else g.uniform(20, 170, size=3)])
        if k >= 40:  # next to the bounds of one or two of them
            ends = [0.5, -0.5, 0.05, -0.05, 179.5, 180.5, 179.95, 180.05]
            p[3:] = g.uniform(80, 100, size=3)
            for _ in range(1 + k % 2):
                p[3 + int(g.integers(3))] = ends[int(g.integers(8))]
            if k % 3 == 0:
                p[int(g.integers(3))] = [0.05, -0.05, 0.5, -0.5][int(g.integers(4))]
        lt, at = 1e-3, 1e-2
        want = {n for n, f in CONDITIONS.items() if f(p, lt, at)}
        env = dict(zip(names, map(float, p)), lt=lt, at=at)
        x = rint.raised(r, env, strict=True)
        if (x is not None) != bool(want):
            return  # decided by the check of the verdict
        if x is None:
            continue
        m = re.sub(r"\s+", "", message(it, x, env).lower())
        done += 1
        got = {n for n in CONDITIONS if re.sub(r"\s+", "", n) in m}
        if got != want:
            q = sorted(got ^ want)[0]
            raise Violation(f"parameters {np.round(p, 3).tolist()}: the error {'names' if q in got else 'does not name'} the condition {q.strip('(')!r}", x.loc or loc, f"parallelepiped {q}")
    if not done:
        raise Undecided("no point is refused")
    ctx.count("errors", done)


def stale(ctx, what):
    from . import c14_spglib_gate as c14
    it = c14.gate_interp(ctx)
    cs = c14.CASES[0]
    st, cell, at = c14.setup(it, cs)
    ot = [1, 2, 1, 2] if what == "types" else c14.OT
    r = it.run("wulfric.validate_spglib_data", [cell, at, c14.fresh(it, st, cs, "sd", otypes=ot)], {}, st=st)
    g = oracle.rng(ctx.seed, "stale", what)
    for _ in range(3):
        env = crystal_env(g, *cs[:2])
        if what != "types":
            k = "sd.original_cell" if what == "cell" else "sd.original_positions"
            env[k] = np.asarray(env[k]) + 0.1
        m = judge(ctx, it, r, f"validate_spglib_data, other {what}", "ValueError", [r"\b%s mismatch" % what], env)
        rest = m.lower().split(":")[-1]
        for o in {"cell", "positions", "types"} - {what}:
            if re.search(r"\b%s\b" % o, rest):
                raise Violation(f"the error about other {what} names {o}", None, f"stale {what} names {o}")


def kpoints(ctx, label):
    it = ctx.interp("plain")
    env = kobj.env(oracle.rng(ctx.seed, label))
    if label in ("labels", "names"):
        r = kobj.make(it, m=5, **{label: ["p1", "p2", "p3"]})
        return judge(ctx, it, r, f"Kpoints with 3 {label} of 5 points", "ValueError", [label, r"\b3\b", r"\b5\b"], env)
    r = kobj.make(it, path="GAMMA-X|Y-Z", n=7)
    st, k = r.st, r.value
    if label == "coordinate":
        v, raises = kobj.call(it, st, k, "add_hs_point", "Y", sarr(it, st, "new", (3,)), "y")
        words = ["Y"]
    else:
        attr, value, words = dict(path=("path", "GAMMA-X|Y-Qq", ["Qq", "GAMMA", r"\bX\b", r"\bY\b", r"\bZ\b", r"\bW\b"]), several=("path", "GAMMA-X|Q1-Z", ["Q1", "GAMMA", r"\bW\b"]), n=("n", 7.5, ["7.5", "float"])).get(label, (None,) * 3)
        if label == "one point":
            attr, value, words = "path", it.new_list(st, [it.new_list(st, ["GAMMA", "X"]), it.new_list(st, ["Y"])]), [r"\bY\b"]
        v, raises = kobj.act(it, st, lambda: it.setattr(st, k, attr, value))
    if not raises:
        raise Violation(f"Kpoints, {label}: accepted", None, f"{label} accepted")
    judge(ctx, it, Res(st, raises), f"Kpoints, {label}", "ValueError", words, dict(env, new=np.zeros(3)))


def dump(ctx, mode):
    from . import c25_poscar_write as c25
    it = ctx.interp("messages dump")
    disk = Disk(it)
    if mode is None:
        r, loc, f = c25.run(it, disk, ["1", "?"], "array", "names", {})
        words = [r"'1'|\b1\b|\?"]
    else:
        r, loc, f = c25.run(it, disk, ["Fe"], "array", "species", dict(mode=mode))
        words = ["Direct", "Cartesian", ": %s|\"%s\"|'%s'" % (mode, mode, mode) + r"\b|\b%s\b" % mode]
    judge(ctx, it, r, "dump_poscar", "ValueError", words, {}, loc=loc)


def load(ctx):
    from . import c24_poscar_read as c24
    it = ctx.interp("messages load")
    r, loc, f = c24.run(it, Disk(it, dirs=["there"]), c24.lines("1", True, None, "Direct", (2, 1)), "nowhere/at/all")
    judge(ctx, it, r, "load_poscar", "FileNotFoundError", ["POSCAR", "nowhere/at/all"], {}, loc=loc)


def data(ctx, what, sp=0.00321, at_=0.654):
    it = ctx.interp("messages data")
    it.assume_available = True
    it.ext_stubs["spglib.get_symmetry_dataset"] = lambda i, st, a, k: None
    st = State()
    c = sarr(it, st, "cell", (2, 3) if what == "shape" else (3, 3))
    at = calls.atoms(it, st, "array", ("names",), n=2, values=dict(names=["Cr1", "Br"]))
    r = it.run("wulfric.get_spglib_data", [c, at], {} if sp is None else dict(spglib_symprec=sp, spglib_angle_tolerance=at_), st=st)
    env = {"cell": np.ones((2, 3)) if what == "shape" else np.eye(3), "atoms.positions": np.zeros((2, 3))}
    if what == "shape":
        judge(ctx, it, r, "cell of two vectors", "ValueError", [r"\(2, 3\)", r"\(3, 3\)"], env)
    else:
        judge(ctx, it, r, "failure of spglib", "RuntimeError", ["1e-05", "-1"] if sp is None else [str(sp), str(at_)], env)


def legend(ctx, name, v):
    it = plots.plot_interp(ctx)
    p = plots.Plot(it)
    f, raises = kobj.act(it, p.st, lambda: it.call(p.st, it.getattr(p.st, p.pe, name), [], dict(legend_position=v)))
    if not raises:
        raise Violation(f"{name}(legend_position={v!r}): accepted", p.loc(name), "legend accepted")
    judge(ctx, it, Res(p.st, raises), f"{name}(legend_position={v!r})", "ValueError", [v, "top", "bottom", "left", "right"], {})


class Res:
    def __init__(self, st, raises):
        self.st, self.raises, self.exits = st, raises, []
