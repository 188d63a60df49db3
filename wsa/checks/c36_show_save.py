"""show() and save() forward what they are given, options mean what they say.

Calls of PlotlyEngine are analysed over a model of the figure; what reaches
update_layout, update_scenes, show and write_html is read off for every
option, and every way out is enumerated for unknown options.
"""
from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation
from ..inputs import sarr
from . import kobj, plots
from .plots import Plot

LEVEL = "other"
FLOOR = 40
ASSUMPTIONS = ["plotly applies the layout it is given"]
# side of the figure where the legend is placed: (anchor which touches the figure, coordinate)
LEGEND = {"top": dict(yanchor="bottom", y=1.0, xanchor="center", x=0.5), "bottom": dict(yanchor="top", y=0.0, xanchor="center", x=0.5),
          "left": dict(yanchor="middle", y=0.5, xanchor="right", x=0.0), "right": dict(yanchor="middle", y=0.5, xanchor="left", x=1.0)}


def check(ctx):
    it = plots.plot_interp(ctx)
    for out in ("show", "save"):
        for p in (None, "top", "bottom", "left", "right", "TOP", "Bottom", "lEFT", "RIGHT"):
            for vis in (None, True, False):
                ctx.ob(f"{out}: legend {p}, axes visible {vis}", options, ctx, it, out, p, vis)
        for p in ("", "middle", "top ", "centre", "up", "top-left"):
            ctx.ob(f"{out}: legend {p!r}", refused, ctx, it, out, p)
        ctx.ob(f"{out}: keywords", keywords, ctx, it, out)
        for kw in (dict(width=300), dict(title="t", height=5, paper_bgcolor="red"), dict(showlegend=False), {}):
            ctx.ob(f"{out}: keywords {sorted(kw)}", forwarded, ctx, it, out, kw, None)
        ctx.ob(f"{out}: nothing is plotted", empty, ctx, it, out)
    for kw in ({}, dict(auto_open=True), dict(full_html=True, div_id="d"), dict(include_plotlyjs=False), dict(config=None, auto_play=False, validate=False)):
        ctx.ob(f"save: kwargs_write_html {sorted(kw)}", forwarded, ctx, it, "save", {}, kw)
    for out in ("show", "save"):
        ctx.ob(f"{out}: order", order, ctx, it, out)
    ctx.ob("save: default name", name, ctx, it, None)
    ctx.ob("save: given name", name, ctx, it, "a/b.html")
    ctx.ob("show with the fix of the gallery", gallery, ctx, it)
    ctx.ob("figures of the constructor", made, ctx, it)


def engine(it):
    p = Plot(it)
    p.call("plot_points", sarr(it, p.st, "pts0", (3, 3)))
    return p


def env(ctx):
    g = oracle.rng(ctx.seed, "out")
    e = kobj.env(g)
    e.update(plots.rand_env(g, {"pts0": (3, 3)}))
    return e


def act(p, out, **kw):
    if out == "save":
        kw.setdefault("output_name", "f.html")
    v = p.call(out, **kw)
    return v


def options(ctx, it, out, pos, vis):
    p = engine(it)
    kw = {}
    if pos is not None:
        kw["legend_position"] = pos
    if vis is not None:
        kw["axes_visible"] = vis
    act(p, out, **kw)
    e = env(ctx)
    p.at(e)
    legends = [l["legend"] for l in p.record("layout", e) if "legend" in l]
    want = LEGEND[(pos or "top").lower()]
    if not legends:
        raise Violation(f"{out}() does not place the legend", p.loc(out), "no legend")
    for k, v in want.items():
        if not rint.same(legends[-1].get(k), v):
            raise Violation(f"{out}(): {k} of the legend is {legends[-1].get(k)!r} for the position {pos!r}", p.loc(out), f"legend {k}")
    hidden = set()
    for d, row, col in p.record("scenes", e):
        for ax in "xyz":
            x = d.get(f"{ax}axis_visible", (d.get(f"{ax}axis") or {}).get("visible"))
            if x is not None:
                (hidden.discard if x else hidden.add)(ax)
                if not x and (row, col) != (None, None):
                    hidden.add("only one subplot")
    if vis is False and hidden != set("xyz"):
        raise Violation(f"{out}(axes_visible=False) hides {sorted(hidden)}", p.loc(out), "hidden axes")
    if vis is not False and hidden:
        raise Violation(f"{out}() hides axes", p.loc(out), "axes are hidden")
    done = p.record("out", e)
    if len(done) != 1 or done[0][0] != ("show" if out == "show" else "html"):
        raise Violation(f"{out}() leads to {done}", p.loc(out), "output")


def refused(ctx, it, out, pos):
    p = engine(it)
    kw = dict(legend_position=pos)
    if out == "save":
        kw["output_name"] = "f"
    v, raises = kobj.act(it, p.st, lambda: it.call(p.st, it.getattr(p.st, p.pe, out), [], kw))
    if rint.returned(p):
        raise Violation(f"{out}() accepts the position {pos!r}", p.loc(out), "accepted")
    for x in raises:
        if rint.cls_name(x.cls) != "ValueError":
            raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError for the position {pos!r}", x.loc, "class")


def keywords(ctx, it, out):
    p = engine(it)
    kw = dict(title="my title", width=tm.sym("w", "float"))
    if out == "save":
        kw["kwargs_write_html"] = it.new_dict(p.st, [("full_html", False), ("include_plotlyjs", "cdn")])
    act(p, out, **kw)
    e = env(ctx)
    e["w"] = 512.5
    if out == "save":
        done = p.record("out", e)
        if len(done) != 1:
            raise Violation("the figure is not saved once", p.loc(out), "saved")
        if set(done[0][3]) != {"full_html", "include_plotlyjs"}:
            raise Violation(f"write_html() is called with the options {sorted(done[0][3])}", p.loc(out), "kwargs_write_html")
        for k, v in (("full_html", False), ("include_plotlyjs", "cdn")):
            if done[0][3].get(k, "missing") != v:
                raise Violation(f"kwargs_write_html[{k!r}] is not given to write_html", p.loc(out), "kwargs_write_html")
    lay = {}
    for l in p.record("layout", e):
        lay.update(l)
    if lay.get("title") != "my title" or not rint.same(lay.get("width"), 512.5):
        raise Violation(f"keywords of {out}() are not given to update_layout", p.loc(out), "kwargs")


def forwarded(ctx, it, out, kw, html):
    p = engine(it)
    act(p, out, **kw, **({} if html is None else dict(kwargs_write_html=it.new_dict(p.st, list(html.items())))))
    if p.st.pc == 0:
        raise Violation(f"{out}() raises with the keywords {sorted(kw)}", p.loc(out), "kwargs")
    e = env(ctx)
    lay = {}
    for l in p.record("layout", e):
        lay.update(l)
    for k, v in kw.items():
        if not rint.same(lay.get(k, "missing"), v):
            raise Violation(f"{k}={v!r} of {out}() is not given to update_layout", p.loc(out), "kwargs")
    done = p.record("out", e)
    if len(done) != 1 or done[0][0] != ("show" if out == "show" else "html"):
        raise Violation(f"{out}() leads to {done}", p.loc(out), "output")
    if html is not None:
        got = dict(done[0][3])
        if {k: got.get(k, "missing") for k in html} != html:
            raise Violation(f"kwargs_write_html {html} is not given to write_html", p.loc(out), "kwargs_write_html")
        if set(got) - set(html):
            raise Violation(f"write_html() is called with {sorted(set(got) - set(html))}, which is not in kwargs_write_html {html}", p.loc(out), "extra options of write_html")


def empty(ctx, it, out):
    """A figure without anything plotted by the engine leaves as well."""
    p = Plot(it)
    act(p, out)
    if p.st.pc == 0:
        raise Undecided("refused")
    done = p.record("out", env(ctx))
    if len(done) != 1 or done[0][0] != ("show" if out == "show" else "html"):
        raise Violation(f"{out}() of a figure without plotted objects leads to {done}", p.loc(out), "output")


def order(ctx, it, out):
    """Ranges of axes are set before the figure leaves."""
    p = engine(it)
    act(p, out)
    e = env(ctx)
    n = len([1 for d, _, _ in p.record("scenes", e) if "xaxis" in d or "xaxis_range" in d])
    done = p.record("out", e)
    if not n or len(done) != 1 or done[0][1] < n:
        raise Violation(f"{out}() sets the ranges of axes after the figure has left", p.loc(out), "order")


def name(ctx, it, given):
    p = engine(it)
    p.call("save", **({} if given is None else dict(output_name=given)))
    done = p.record("out", env(ctx))
    if len(done) != 1 or done[0][2] != (given or "wulfric-plot.html"):
        raise Violation(f"figure is saved to {done[0][2] if done else None!r} instead of {given or 'wulfric-plot.html'!r}", p.loc("save"), "name")


def gallery(ctx, it):
    from ..interp import State
    st = State()
    fig = it.call(st, it.load("wsa_plot").env["Figure"], [], {})
    r = it.run("wulfric.PlotlyEngine", [fig], dict(_sphinx_gallery_fix=True), st=st)
    v, _ = kobj.act(it, r.st, lambda: it.call(r.st, it.getattr(r.st, r.value, "show"), [], {}))
    if r.st.pc == 0 or getattr(v, "addr", None) != getattr(fig, "addr", 0):
        raise Undecided("figure is not returned")


def made(ctx, it):
    from ..interp import State
    for rows, cols in ((None, None), (2, 3), (1, 2), (3, 1)):
        it.made.clear()
        r = it.run("wulfric.PlotlyEngine", [], {} if rows is None else dict(rows=rows, cols=cols), st=State())
        loc = fun = r.it.public("wulfric.PlotlyEngine")
        from ..core import fun_loc
        loc = fun_loc(fun)
        if r.st.pc == 0:
            raise Violation("PlotlyEngine() raises", r.raises[-1].loc, "constructor raises")
        if len(it.made) != 1:
            raise Undecided("figure is not made by make_subplots")
        k = it.made[0][2]
        got = tuple(rint.val(r, k[x], {}) if x in k else 1 for x in ("rows", "cols"))
        if got != (rows or 1, cols or 1):
            raise Violation(f"{got} subplots are made instead of {(rows or 1, cols or 1)}", loc, "subplots")
        if "specs" not in k:
            raise Violation("subplots are not three-dimensional", loc, "specs")
        sp = rint.val(r, k["specs"], {})
        if len(sp) != (rows or 1) or any(len(x) != (cols or 1) for x in sp) or any(y.get("type") not in ("scene", "scatter3d") for x in sp for y in x):
            raise Violation("subplots are not three-dimensional", loc, "specs")
