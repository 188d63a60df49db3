"""Model of plotly figures: traces, layout and scenes are recorded by an analysed class."""
import ast

import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import Mod, State, Tup
from . import kobj

MODEL = '''
from plotly.unmodelled import figure as _plotly_figure


class Figure:
    def __init__(self):
        self.traces = []
        self.layout = []
        self.scenes = []
        self.out = []
        self.other = []

    def __getattr__(self, name):
        self.other.append(name)
        return _plotly_figure(name)

    def add_scatter3d(self, row=None, col=None, **kwargs):
        self.traces.append((trace("scatter3d", kwargs), row, col))
        return self

    def add_cone(self, row=None, col=None, **kwargs):
        self.traces.append((trace("cone", kwargs), row, col))
        return self

    def update(self, dict1=None, overwrite=False, **kwargs):
        d = dict(dict1 or {})
        d.update(kwargs)
        self.layout.append(d["layout"])
        return self

    def add_traces(self, data, rows=None, cols=None, **kwargs):
        if isinstance(data, (list, tuple)):
            for i, x in enumerate(data):
                r = rows[i] if isinstance(rows, (list, tuple)) else rows
                c = cols[i] if isinstance(cols, (list, tuple)) else cols
                self.traces.append((x, r, c))
        else:
            r = rows[0] if isinstance(rows, (list, tuple)) else rows
            c = cols[0] if isinstance(cols, (list, tuple)) else cols
            self.traces.append((data, r, c))
        return self

    def add_trace(self, trace, row=None, col=None, **kwargs):
        self.traces.append((trace, row, col))
        return self

    def update_layout(self, dict1=None, overwrite=False, **kwargs):
        d = dict(dict1 or {})
        d.update(kwargs)
        self.layout.append(d)
        return self

    def update_scenes(self, patch=None, selector=None, overwrite=False, row=None, col=None, **kwargs):
        d = dict(patch or {})
        d.update(kwargs)
        self.scenes.append((d, row, col))
        return self

    def for_each_scene(self, fn, selector=None, row=None, col=None):
        fn(Scene(self, row, col))
        return self

    def show(self, *args, **kwargs):
        self.out.append(("show", len(self.scenes)))

    def write_html(self, file, *args, **kwargs):
        self.out.append(("html", len(self.scenes), file, kwargs))


class Scene:
    def __init__(self, figure, row, col):
        self.figure = figure
        self.row = row
        self.col = col

    def update(self, dict1=None, overwrite=False, **kwargs):
        self.figure.update_scenes(dict1, row=self.row, col=self.col, **kwargs)
        return self


def io_show(fig, *args, **kwargs):
    fig.show(*args, **kwargs)


def io_write_html(fig, file, *args, **kwargs):
    fig.write_html(file, *args, **kwargs)


def trace(kind, kwargs):
    d = {"type": kind}
    d.update(kwargs)
    return d
'''


def plot_interp(ctx, key="plots"):
    new = key not in ctx._it
    it = ctx.interp(key)
    if new:
        it.assume_available = True
        it.modules["wsa_plot"] = Mod("wsa_plot", ast.parse(MODEL), "model of figures", False)
        n = [0]

        def choices(it_, st, a, k):
            n[0] += 1
            return it_.new_list(st, [f"random{n[0]}"])
        it.ext_stubs["random.choices"] = choices
        env = it.load("wsa_plot").env
        for name, kind in (("Scatter3d", "scatter3d"), ("Cone", "cone")):
            it.ext_stubs["plotly.graph_objects." + name] = lambda i, st, a, k, kind=kind: i.call(st, env["trace"], [kind, i.new_dict(st, list(k.items()))], {})
        for name in ("show", "write_html"):
            it.ext_stubs["plotly.io." + name] = lambda i, st, a, k, name=name: i.call(st, env["io_" + name], list(a), dict(k))
        it.made = []

        def subplots(i, st, a, k):
            i.made.append((st.pc, [i.as_T(st, x) for x in a], {x: i.as_T(st, y) for x, y in k.items()}))
            return i.call(st, env["Figure"], [], {})
        it.ext_stubs["plotly.subplots.make_subplots"] = subplots
        it.ext_stubs["plotly.graph_objects.Figure"] = lambda i, st, a, k: i.call(st, env["Figure"], [], {})
    return it


class Plot:
    """A PlotlyEngine over the model of a figure."""

    def __init__(self, it, st=None):
        self.it = it
        st = st or State()
        self.fig = it.call(st, it.load("wsa_plot").env["Figure"], [], {})
        r = it.run("wulfric.PlotlyEngine", [self.fig], {}, st=st)
        if r.st.pc == 0:
            raise Violation("PlotlyEngine(fig) raises", r.raises[-1].loc, "constructor")
        self.pe, self.st = r.value, r.st
        self.raises = []

    def call(self, name, *a, **k):
        v, x = kobj.act(self.it, self.st, lambda: self.it.call(self.st, self.it.getattr(self.st, self.pe, name), list(a), k))
        self.raises += [(name, y) for y in x]
        if self.st.pc == 0:
            raise Violation(f"{name} raises {rint.cls_name(x[-1].cls)} for valid arguments", x[-1].loc, f"{name} raises")
        return v

    def loc(self, name):
        return fun_loc(self.it.public("wulfric.PlotlyEngine").lookup(name))

    def at(self, env, memo=None):
        """Checks the raises at the point."""
        for name, x in self.raises:
            if x.pc == 1 or rint.guard(x.pc, env, memo):
                raise Violation(f"{name} raises {rint.cls_name(x.cls)} for valid arguments", x.loc, f"{name} raises at point")

    def record(self, what, env, memo=None):
        other = rint.val(kobj.R(self.it, self.st), self.it.getattr(self.st, self.fig, "other"), env, memo)
        if len(other):
            raise Undecided(f"{other[0]} of figures is not modelled")
        return rint.val(kobj.R(self.it, self.st), self.it.getattr(self.st, self.fig, what), env, memo)


class Trace:
    def __init__(self, t):
        d, self.row, self.col = t
        if not isinstance(d, dict):
            raise Undecided("trace is not a dictionary")
        self.d = d
        self.kind, self.mode = d.get("type"), d.get("mode", "")
        try:
            self.xyz = [np.array([np.nan if v is None else v for v in np.asarray(d[k], dtype=object).ravel()], dtype=float) for k in "xyz"]
        except KeyError:
            raise Undecided("trace without coordinates")
        if len({len(v) for v in self.xyz}) != 1:
            raise Undecided("coordinates of a trace of different length")
        self.points = np.array(self.xyz).T

    def lines(self):
        """Polylines (split at gaps)."""
        out, cur = [], []
        for p in self.points:
            if np.isnan(p).any():
                if cur:
                    out.append(np.array(cur))
                cur = []
            else:
                cur.append(p)
        if cur:
            out.append(np.array(cur))
        return out


def traces(p, env, memo=None):
    return [Trace(t) for t in p.record("traces", env, memo)]


def segments(ts):
    out = []
    for t in ts:
        if "lines" in t.mode:
            for q in t.lines():
                out += [(a, b) for a, b in zip(q, q[1:])]
    return out


def markers(ts):
    return [t for t in ts if "markers" in t.mode]


def seg_key(s):
    a, b = (tuple(np.round(x, 5) + 0.0) for x in s)
    return tuple(sorted((a, b)))


def rand_env(g, names):
    """names: {symbol: shape}"""
    e = {}
    for n, s in names.items():
        v = g.uniform(-3, 3, size=s)
        e[n] = v
        for ix in np.ndindex(*s):
            e[n + "".join(f"[{i}]" for i in ix)] = float(v[ix])
    return e
