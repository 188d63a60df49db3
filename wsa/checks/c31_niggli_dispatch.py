"""Choice of the implementation of the Niggli reduction and the adapter of spglib.

Every way out of get_niggli is enumerated for every spelling of the
implementation; the call of spglib is an uninterpreted operation whose
arguments and results are followed through the value graph.
"""
import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import Interp, State
from .calls import cell

LEVEL = "other"
FLOOR = 15
FN = "wulfric.cell.get_niggli"
ASSUMPTIONS = ["spglib.niggli_reduce returns the reduced cell or None"]


def check(ctx):
    for f in ("array", "list"):
        for imp in (None, "spglib", "SPGLIB", "SpgLib"):
            for eps in (None, "given"):
                ctx.ob(f"implementation {imp} ({f}, eps {eps})", adapter, ctx, f, imp, eps, False)
            ctx.ob(f"implementation {imp} ({f}), spglib fails", adapter, ctx, f, imp, None, True)
        for imp in ("", "wulfric ", "spg", "niggli", "none", "ase"):
            ctx.ob(f"implementation {imp!r} ({f})", refused, ctx, f, imp)
        for imp in ("wulfric", "WULFRIC", "Wulfric"):
            ctx.ob(f"implementation {imp} ({f})", own, ctx, f, imp)


def interp(ctx, key, ret):
    it = ctx.interp("niggli dispatch " + key)
    it.calls = []

    def stub(i, st, a, k):
        b = dict(zip(("lattice", "eps"), a))
        b.update(k)
        i.calls.append({x: i.as_T(st, y) for x, y in b.items()})
        return ret(i, st)
    it.ext_stubs["spglib.niggli_reduce"] = stub
    it.assume_available = True
    return it


def run(it, f, imp, **kw):
    st = State()
    if imp is not None:
        kw["implementation"] = imp
    return it.run(FN, [cell(it, st, f)], kw, st=st)


def adapter(ctx, f, imp, eps, fails):
    it = interp(ctx, f"{f} {imp} {eps} {fails}", (lambda i, st: None) if fails else (lambda i, st: i.new_array(st, tm.sym("reduced", ("arr", (3, 3))))))
    r = run(it, f, imp, **({} if eps is None else dict(eps_relative=tm.sym("eps", "float"))))
    loc = fun_loc(it.public(FN))
    if fails:
        if rint.returned(r):
            raise Violation("failure of spglib (None) is not reported", r.exits[-1].loc if r.exits else loc, "None returned")
        if any(rint.cls_name(x.cls) != "RuntimeError" for x in rint.sure(r)):
            raise Violation(f"{rint.cls_name(r.raises[-1].cls)} instead of RuntimeError when spglib fails", r.raises[-1].loc, "class of failure")
        return
    if r.st.pc == 0:
        raise Violation(f"{rint.cls_name(r.raises[-1].cls)} for a supported implementation", r.raises[-1].loc, "raises")
    if not it.calls:
        raise Violation(f"spglib is not asked for implementation = {imp!r}", loc, "not asked")
    g = oracle.rng(ctx.seed, f, str(imp))
    e = dict(cell=oracle.random_cell(g), reduced=oracle.random_cell(g), eps=3e-4)
    for i in range(3):
        for j in range(3):
            e[f"cell[{i}][{j}]"] = float(e["cell"][i, j])
    if rint.raised(r, e) is not None:
        raise Violation("raises for a supported implementation", rint.raised(r, e).loc, "raises")
    for c in it.calls:
        if not rint.close(tm.evaluate(c["lattice"], e), e["cell"]):
            raise Violation("spglib gets another cell", loc, "cell for spglib")
        got = tm.evaluate(c["eps"], e) if "eps" in c else None
        if eps is not None and (got is None or not rint.close(got, 3e-4, 1e-12)):
            raise Violation(f"spglib gets the tolerance {got}, not the given one", loc, "tolerance for spglib")
    if not rint.close(rint.val(r, r.value, e), e["reduced"]):
        raise Violation("the cell found by spglib is not returned", r.exits[-1].loc if r.exits else loc, "returned cell")


def refused(ctx, f, imp):
    it = interp(ctx, f"{f} {imp}", lambda i, st: i.new_array(st, tm.sym("reduced", ("arr", (3, 3)))))
    it.while_hook = lambda i, s, st: setattr(st, "pc", 0) or True
    r = run(it, f, imp)
    loc = fun_loc(it.public(FN))
    g = oracle.rng(ctx.seed, f, imp)
    c = oracle.random_cell(g)
    e = dict(cell=c)
    for i in range(3):
        for j in range(3):
            e[f"cell[{i}][{j}]"] = float(c[i, j])
    if it.calls:
        raise Violation(f"implementation {imp!r} is accepted as spglib", loc, "accepted")
    x = rint.raised(r, e, strict=True)
    if x is None:
        raise Violation(f"unsupported implementation {imp!r} is accepted", loc, "accepted")
    if rint.cls_name(x.cls) != "ValueError":
        raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError for an unsupported implementation", x.loc, "class")


def own(ctx, f, imp):
    it = interp(ctx, f"{f} {imp}", lambda i, st: i.new_array(st, tm.sym("reduced", ("arr", (3, 3)))))
    hit = []

    def hook(i, s, st):
        hit.append(1)
        st.pc = 0
        return True
    it.while_hook = hook
    r = run(it, f, imp)
    if it.calls:
        raise Violation(f"spglib is asked for implementation = {imp!r}", fun_loc(it.public(FN)), "asked")
    if not hit and any(x.pc == 1 for x in r.raises):
        raise Violation(f"implementation {imp!r} is refused", r.raises[-1].loc, "refused")
