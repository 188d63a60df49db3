"""The text of logo(): every line of info once and in order, comment and length of lines as requested.

The function is analysed for every number of lines of info up to twenty and
every combination of options; the text it returns is read line by line.
"""
import itertools

from .. import rint
from ..core import Undecided, Violation, fun_loc
from ..interp import State

LEVEL = "other"
FLOOR = 120
FN = "wulfric.logo"
WIDTH = 62


def check(ctx):
    it = ctx.interp("plain")
    for n in [*range(21), 31, 48, 73]:
        for flat in (False, True):
            ctx.ob(f"{n} lines of info, flat={flat}", one, ctx, it, n, flat, None, None)
    for n, flat, ll, c in itertools.product((0, 1, 5, 7, 8, 10), (False, True), (None, 10, 62, 63, 100), (None, True, False, "% ", "! # ", "", " ")):
        if ll is not None or c is not None:
            ctx.ob(f"{n} lines of info, flat={flat}, line_length={ll}, comment={c!r}", one, ctx, it, n, flat, ll, c)
    for kw in ({}, dict(flat=True), dict(line_length=80, comment=True)):
        ctx.ob(f"default info, {kw}", default, ctx, it, kw)


def text(it, kw, n=None):
    st = State()
    st.heap.update(it.base_heap)
    info = None if n is None else [f"line {i} of info" + "." * (i % 5) for i in range(n)]
    if info is not None:
        kw = dict(kw, info=it.new_list(st, info, "input:info"))
    r = it.run(FN, [], kw, st=st)
    if r.st.pc == 0:
        raise Violation(f"logo raises {rint.cls_name(r.raises[-1].cls)}", r.raises[-1].loc, "raises")
    v = rint.val(r, r.value, {}, {})
    if not isinstance(v, str):
        raise Undecided("result is not a constant")
    return v, info, r.exits[-1].loc if r.exits else fun_loc(it.public(FN))


def shape(lines, ll, comment, loc):
    c = "# " if comment is True else "" if comment in (None, False) else comment
    width = len(lines[0]) - len(c)
    if not (WIDTH - 1 <= width <= WIDTH and (ll or 0) <= width) and width != ll:
        raise Violation(f"lines have {width} characters, line_length={ll}", loc, "length")
    for x in lines:
        if not x.startswith(c):
            raise Violation(f"line {x!r} does not begin with the comment {c!r}", loc, "comment")
        if len(x) != len(c) + width:
            raise Violation(f"line of {len(x) - len(c)} characters instead of {width}: {x!r}", loc, "length")
    return [x[len(c):] for x in lines]


def one(ctx, it, n, flat, ll, comment):
    kw = dict(flat=flat)
    if ll is not None:
        kw["line_length"] = ll
    if comment is not None:
        kw["comment"] = comment
    out, info, loc = text(it, kw, n)
    lines = shape(out.split("\n"), ll, comment, loc)
    bare, _, _ = text(it, dict(flat=flat), 0)
    head = [x.strip() for x in bare.split("\n")]
    if [x.strip() for x in lines[:len(head)]] != head:
        raise Violation("the logo changes with info, comment or line_length", loc, "logo")
    body = lines[len(head):]
    found = []
    for x in body:
        found += sorted((x.index(s), s) for s in info if s in x.split("   ") or s in [p.strip() for p in x.split("  ")])
    found = [s for _, s in found]
    if found != info:
        raise Violation(f"lines of info {found} are shown instead of {info}", loc, "info")
    if n:
        first, i1, _ = text(it, dict(flat=flat), 1)
        cat = picture(first.split("\n")[len(head):], i1)
        if picture(body, info) != cat:
            raise Violation(f"picture next to {n} lines of info is {picture(body, info)}", loc, "picture")
    if n and len(body) != max(7, n) or not n and body:
        raise Violation(f"{len(body)} lines below the logo for {n} lines of info", loc, "lines")
    ctx.count("lines", len(lines))


def picture(body, info):
    """Lines of the body without the text of info."""
    out = []
    for x in body:
        for s in info:
            if s in [p.strip() for p in x.split("  ")]:
                x = x.replace(s, " " * len(s), 1)
        out.append(x.strip())
    return [x for x in out if x]


def default(ctx, it, kw):
    out, _, loc = text(it, kw)
    env = it.load("wulfric").env
    lines = shape(out.split("\n"), kw.get("line_length"), kw.get("comment"), loc)
    for k, w in (("__version__", "Version: "), ("__doclink__", "Documentation: "), ("__release_date__", "Release date: ")):
        if isinstance(env.get(k), str) and w + env[k] not in out:
            raise Violation(f"default text does not tell {k} = {env[k]}", loc, "default info")
