"""Shared: Kpoints objects with symbolic coordinates, calls of their methods."""
from ..core import Undecided, Violation, fun_loc
from ..inputs import sarr
from ..interp import State
from .. import oracle, rint

NAMES = ["GAMMA", "X", "Y", "Z", "W"]
LABELS = ["$G$", "x", "y", "z", "w"]


class R:
    """A Result-like pair for rint.val."""

    def __init__(self, it, st):
        self.it, self.st = it, st


def make(it, path=None, n=None, names=NAMES, labels=LABELS, m=None, rcell="rcell", **kw):
    st = State()
    rc = sarr(it, st, rcell, (3, 3))
    m = len(names) if m is None else m
    a = dict(coordinates=it.new_list(st, [sarr(it, st, f"k{i}", (3,)) for i in range(m)], "input:coordinates"))
    if names is not None:
        a["names"] = it.new_list(st, list(names), "input:names")
    if labels is not None:
        a["labels"] = it.new_list(st, list(labels), "input:labels")
    if path is not None:
        a["path"] = path if not isinstance(path, (list, tuple)) else it.new_list(st, [it.new_list(st, list(s), "input:path") for s in path], "input:path")
    if n is not None:
        a["n"] = n
    a.update(kw)
    return it.run("wulfric.Kpoints", [rc], a, st=st)


def act(it, st, fn):
    """Runs fn() (calls of methods) and collects the raises."""
    it.curmod_push(it.public("wulfric.Kpoints").module)
    it.sinks.append([])
    try:
        v = fn()
    finally:
        raises = it.sinks.pop()
        it.curmod_pop()
    return v, raises


def call(it, st, k, name, *args, **kw):
    return act(it, st, lambda: it.call(st, it.getattr(st, k, name), list(args), kw))


def get(it, st, k, name):
    return act(it, st, lambda: it.getattr(st, k, name))


def env(g, m=5):
    e = {f"k{i}": g.uniform(-1, 1, size=3) for i in range(m)}
    e["rcell"] = oracle.random_cell(g)
    e.update({f"k{i}": g.uniform(-1, 1, size=3) for i in range(m, 15)})
    return e


def loc(it, name):
    f = it.public("wulfric.Kpoints").lookup(name)
    f = getattr(f, "fget", f)
    try:
        return fun_loc(f)
    except Exception:
        return fun_loc(it.public("wulfric.Kpoints"))
