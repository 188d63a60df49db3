"""Ticks, labels, points and distances of a k-path agree with each other and with the path.

Kpoints objects with symbolic coordinates and reciprocal cell are analysed for
every shape of the path and number of intermediate points; the value graphs of
labels, ticks, points and flat_points are compared with the definition.
"""
import numpy as np

from .. import oracle, rint
from ..core import Undecided, Violation
from . import kobj
from .kobj import LABELS, NAMES

LEVEL = "other"
FLOOR = 40
PATHS = [[["GAMMA", "X"]], [["GAMMA", "X", "Y"]], [["GAMMA", "X"], ["Y", "Z", "GAMMA"]], [["X", "Y"], ["Y", "X"], ["GAMMA", "Z"]],
         [["Z", "GAMMA", "Z"], ["X", "W", "Y", "GAMMA"]], [["GAMMA", "X", "Y", "Z", "W"]], [["W", "X"], ["Y", "GAMMA"], ["Z", "X"], ["X", "GAMMA", "Y"]], [["GAMMA", "X"], ["X", "Y"]],
         [["X", "Y", "Z"], ["Z", "W"], ["W", "X"], ["GAMMA", "X"]],
         [["GAMMA", "X"], ["GAMMA", "X"]], [["X", "Y"], ["Z", "W"], ["X", "Y"]], [["X", "X", "Y"], ["Y", "Y"]], [["X", "Y", "Z", "W", "GAMMA", "X", "Z", "GAMMA", "Y", "W", "X"]],
         [["X", "Y"], ["Z", "W"], ["Y", "X"], ["W", "Z"], ["GAMMA", "W"], ["X", "Z"], ["Y", "GAMMA"], ["GAMMA", "X"], ["Z", "Y", "W"]],
         [["X", "Y", "Z", "W", "GAMMA"] * 4], [["X", "Y"], ["Z", "W", "GAMMA"]] * 7, None]
NS = [0, 1, 2, 7, None]
LONG = 10  # number of points of a path which is analysed for one n only


def check(ctx):
    it = ctx.interp("plain")
    for i, p in enumerate(PATHS):
        for n in NS:
            if p is not None and sum(map(len, p)) > LONG and n != 2:
                continue
            ctx.ob(f"path {'-'.join('.'.join(s) for s in p) if p else 'default'}, n = {n}", one, ctx, it, p, n)
            if p is not None and n == 2:
                ctx.ob(f"path string {'|'.join('-'.join(s) for s in p)}", one, ctx, it, p, n, True)
    for d in (0, 1):
        ctx.ob(f"n changed after construction ({d})", changed, ctx, it, d)
    for n in (None, 0, 3):
        for m in (5, 1, 0):
            ctx.ob(f"empty path, {m} points, n = {n}", empty, ctx, it, n, m)


def value(it, r, name, kw, env):
    fn = kobj.get if kw is None else kobj.call
    v, raises = fn(it, r.st, r.value, name, **({} if kw is None else kw))
    res = kobj.R(it, r.st)
    for x in raises:
        if x.pc == 1 or rint.guard(x.pc, env):
            raise Violation(f"{name} raises {rint.cls_name(x.cls)}", x.loc, f"{name} raises")
    return rint.val(res, v, env)


def expected(path, n, env, relative):
    rc = np.eye(3) if relative else env["rcell"]
    xyz = {nm: env[f"k{i}"] @ rc for i, nm in enumerate(NAMES)}
    lab, ticks, pts, flat, at = [], [0.0], [], [], 0.0
    for i, s in enumerate(path):
        first = LABELS[NAMES.index(s[0])]
        if i:
            lab[-1] += "|" + first
        else:
            lab.append(first)
        for a, b in zip(s, s[1:]):
            lab.append(LABELS[NAMES.index(b)])
            d = np.linalg.norm(xyz[b] - xyz[a])
            t = np.linspace(0, 1, n + 2)[:, None]
            pts.append(xyz[a] + t * (xyz[b] - xyz[a]))
            flat.append(at + t[:, 0] * d)
            at += d
            ticks.append(at)
    return lab, np.array(ticks), np.concatenate(pts), np.concatenate(flat)


def compare(it, r, path, n, env, desc):
    got = value(it, r, "labels", None, env)
    lab = expected(path, n, env, False)[0]
    if list(got) != lab:
        raise Violation(f"labels are {list(got)}, {lab} expected; {desc}", kobj.loc(it, "labels"), "labels")
    for kw in ({}, dict(relative=False), dict(relative=True)):
        rel = kw.get("relative", False)
        _, ticks, pts, flat = expected(path, n, env, rel)
        for name, want in (("ticks", ticks), ("points", pts), ("flat_points", flat)):
            v = np.asarray(value(it, r, name, kw, env))
            how = f"{name}({'relative=' + str(rel) if kw else ''})"
            if v.shape != want.shape:
                raise Violation(f"{how} has the shape {v.shape}, {want.shape} expected: n + 2 points per segment, one tick per label; {desc}", kobj.loc(it, name), f"{name} shape")
            if not rint.close(v, want):
                i = int(np.argmax(np.abs(v - want).reshape(len(v), -1).max(axis=1)))
                raise Violation(f"{how}[{i}] is {np.round(v[i], 5).tolist()}, {np.round(want[i], 5).tolist()} expected; {desc}", kobj.loc(it, name), f"{name} value")


def one(ctx, it, path, n, string=False):
    r = kobj.make(it, path="|".join("-".join(s) for s in path) if string else path, n=n)
    if r.st.pc == 0:
        raise Violation(f"valid path raises {rint.cls_name(r.raises[-1].cls)}", r.raises[-1].loc, "raises")
    path = path or [NAMES]
    g = oracle.rng(ctx.seed, str(path), n)
    for _ in range(2 if not ctx.thorough else 10):
        e = kobj.env(g)
        k = n if n is not None else value(it, r, "n", None, e)
        if n is not None and value(it, r, "n", None, e) != n:
            raise Violation(f"n is {value(it, r, 'n', None, e)}, {n} was given", kobj.loc(it, "n"), "n")
        compare(it, r, path, k, e, f"path {path}, n = {k}")
        e = dict(e, k1=e["k0"])  # two names of one point
        compare(it, r, path, k, e, f"path {path}, n = {k}, GAMMA and X at the same place")
        ctx.count("points")


def empty(ctx, it, n, m):
    r = kobj.make(it, path=[], n=n, names=NAMES[:m], labels=LABELS[:m])
    if r.st.pc == 0:
        raise Violation(f"empty path raises {rint.cls_name(r.raises[-1].cls)}", r.raises[-1].loc, "raises")
    e = kobj.env(oracle.rng(ctx.seed, "empty"))
    if list(value(it, r, "labels", None, e)) != []:
        raise Violation("there are labels for an empty path", kobj.loc(it, "labels"), "labels")
    for kw in ({}, dict(relative=False), dict(relative=True)):
        for name, shape in (("ticks", (0,)), ("points", (0, 3)), ("flat_points", (0,))):
            v = value(it, r, name, kw, e)
            if v is None or np.asarray(v).shape != shape:
                raise Violation(f"{name}() of an empty path is {v!r}, an empty array expected", kobj.loc(it, name), f"{name} empty")


def changed(ctx, it, d):
    """Attributes are changed after construction: nothing is cached."""
    path = [["GAMMA", "X"], ["Y", "Z", "GAMMA"]]
    r = kobj.make(it, path=path, n=3)
    g = oracle.rng(ctx.seed, "changed")
    e = kobj.env(g)
    compare(it, r, path, 3, e, "before the change")
    new = [["Z", "X", "Y"]]
    if d == 0:
        kobj.act(it, r.st, lambda: it.setattr(r.st, r.value, "n", 6))
        compare(it, r, path, 6, e, "after n = 6")
    kobj.act(it, r.st, lambda: it.setattr(r.st, r.value, "path", "Z-X-Y"))
    compare(it, r, new, 6 if d == 0 else 3, e, "after the change of the path")
