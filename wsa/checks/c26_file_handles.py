"""Files opened by the package are closed on every way out; files of the caller stay open.

Typestate of file objects (open / closed) in the abstract heap, inspected at
every return and every raise of the reader and the writer.
"""
import ast

from .. import rint
from ..core import Undecided, Violation, fun_loc
from ..interp import Cls, Ref, State
from .c24_poscar_read import FN as READ, lines
from .c25_poscar_write import FN as WRITE
from .calls import atoms, cell
from .files import Disk

LEVEL = "other"
FLOOR = 20
ASSUMPTIONS = ["exceptions raised implicitly by malformed numbers or by the file system while reading or writing are not considered"]


def check(ctx):
    it = ctx.interp("plain")
    for how in ("object", "path", "directory", "default"):
        for what in ("valid", "Cartesian", "2 scale factors", "-3 scale factors", "no names"):
            ctx.ob(f"load_poscar, {what}, file given as {how}", read, ctx, it, how, what)
    for how in ("object", "path", "default"):
        for what in ("valid", "Cartesian", "wrong mode", "names without an element"):
            ctx.ob(f"dump_poscar, {what}, file given as {how}", write, ctx, it, how, what)
    ctx.ob("every open() of the package is in an analysed function", inventory, ctx, it)


def closed(it, heap, f):
    st = State(heap=dict(heap))
    return it.getattr(st, f, "closed")


def judge(it, r, disk, given, what, fn):
    ways = [(e.pc, e.heap, e.loc, "the result is returned") for e in r.exits] + [(x.pc, x.heap, x.loc, f"{rint.cls_name(x.cls)} is raised") for x in r.raises]
    if not ways and r.st.pc != 0:
        ways = [(r.st.pc, r.st.heap, fun_loc(it.public(fn)), "the result is returned")]
    elif not r.exits and r.st.pc != 0:
        ways.append((r.st.pc, r.st.heap, fun_loc(it.public(fn)), "the function ends"))
    for pc, heap, loc, how in ways:
        if heap is None:
            continue
        for name, mode, f, oloc in disk.opened:
            if f.addr not in heap:
                continue        # opened on another path
            c = closed(it, heap, f)
            if c is False:
                raise Violation(f"{name} opened here stays open when {how} at line {loc[2] if loc else '?'}", oloc, f"left open {fn}")
            if c is not True:
                t = it.as_T(State(heap=dict(heap)), c)
                raise Undecided(f"state of the file is {t}")
        if given is not None and given.addr in heap:
            c = closed(it, heap, given)
            if c is not False:
                raise Violation(f"file of the caller is closed when {how}", loc, f"closed {fn}")


def read(ctx, it, how, what):
    text = lines("1", what != "no names", None, "Cartesian" if what == "Cartesian" else "Direct", (2, 1), nscale={"2 scale factors": 2, "-3 scale factors": 3}.get(what))
    disk = Disk(it, {"some/file": text, "POSCAR": text, "some/dir/POSCAR": text}, dirs=["some", "some/dir"])
    st = State()
    arg = dict(object=None, path="some/file", directory="some/dir", default=None)[how]
    given = disk.new(st, text, "given", "r") if how == "object" else None
    with disk:
        r = it.run(READ, [given] if given is not None else [] if arg is None else [arg], {}, st=st)
    if how != "object" and not disk.opened:
        raise Undecided("no file is opened")
    judge(it, r, disk, given, what, READ)
    ctx.count("ways out", len(r.exits) + len(r.raises))


def write(ctx, it, how, what):
    disk = Disk(it)
    st = State()
    given = disk.new(st, [], "given", "w") if how == "object" else None
    kw = {"file_object": given if how == "object" else "some/file"} if how != "default" else {}
    if what in ("Cartesian", "wrong mode"):
        kw["mode"] = "Cartesian" if what == "Cartesian" else "wrong"
    nm = ["Fe1", "O1"] if what != "names without an element" else ["Fe1", "?"]
    c, a = cell(it, st, "array"), atoms(it, st, "array", ("names",), n=2, values=dict(names=nm))
    with disk:
        r = it.run(WRITE, [c, a], kw, st=st)
    judge(it, r, disk, given, what, WRITE)
    ctx.count("ways out", len(r.exits) + len(r.raises))


# functions which open files, analysed here (public ones; helpers are inlined into them)
def inventory(ctx, it):
    """open() outside of `with` anywhere else in the package has to be followed by close() in the same function."""
    n = 0
    for m in it.modules.values():
        if m.name == "wsa_model":
            continue
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.Module)):
                continue
            body = [x for x in own(fn)]
            withs = {id(i.context_expr) for x in body if isinstance(x, ast.With) for i in x.items}
            for x in body:
                if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == "open" or isinstance(x.func, ast.Attribute) and x.func.attr == "open"
                                                and isinstance(x.func.value, ast.Name) and x.func.value.id in ("io", "codecs")):
                    n += 1
                    if id(x) in withs:
                        continue
                    # handed over to the caller: the caller is analysed
                    if any(isinstance(y, ast.Return) and y.value is x for y in body):
                        continue
                    if not any(isinstance(y, ast.Attribute) and y.attr in ("close", "closing", "enter_context", "callback") or isinstance(y, ast.Name) and y.id in ("closing", "ExitStack") for y in body):
                        if any(isinstance(y, ast.Return) and y.value is not None for y in body) and m.name.startswith("wulfric.io"):
                            continue        # decided by the typestate of the public functions
                        raise Violation("file opened here is never closed", (m.path, m.name, x.lineno), f"never closed {m.name}")
    ctx.count("calls of open", n)


def own(fn):
    """Nodes of the function without nested functions."""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(x)
