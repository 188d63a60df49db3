"""Own Niggli reduction: invariant of the loop, Niggli conditions on the way out, bounded number of passes.

The body of the reduction loop is analysed once from an arbitrary state that
satisfies the invariant (accumulated matrix U unimodular, every other loop
variable has the value it would get initially from the cell U^T @ cell). The
value graph of one pass gives: the invariant again after the pass, the Niggli
conditions on every way out, and the refusal after max_iterations passes.
"""
import ast
import itertools

import numpy as np

from .. import oracle, rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import UNBOUND, Ref, State, Tup
from ..terms import T, mk
from .calls import cell

LEVEL = "other"
FLOOR = 8
ASSUMPTIONS = ["convergence (a bound on the number of passes for a given cell) is not decided, only that the number of passes is limited",
               "floating point error of one pass is within 1e-6; comparisons within the tolerance of the code"]
FN = "wulfric.cell.get_niggli"
EYE = np.eye(3)
EPS = 1e-3


def closed(t):
    try:
        return np.asarray(tm.evaluate(t, {}))
    except tm.Unevaluable:
        return None


class Loop:
    """One pass through the reduction loop from an arbitrary state of the invariant."""

    def __init__(self):
        self.spec, self.counters, self.fixed = [], [], []
        self.outs, self.node, self.busy = [], None, False

    def symbolise(self, it, st, v, name):
        if isinstance(v, Tup):
            return Tup([self.symbolise(it, st, x, f"{name}.{i}") for i, x in enumerate(v.items)])
        if isinstance(v, Ref):
            o = it.obj(st, v)
            if o.kind == "list":
                return it.new_list(st, [self.symbolise(it, st, x, f"{name}.{i}") for i, x in enumerate(it.known_items(st, v))])
            t = it.as_T(st, v)
            w = closed(t)
            if o.kind == "array" and w is not None:
                if w.shape == (3, 3) and np.allclose(w, EYE):
                    return it.new_array(st, tm.sym("U", ("arr", (3, 3))))
                self.fixed.append((name, w))
                return v
            if o.kind == "array" and tm.shape(t):
                self.spec.append((f"loop:{name}", t))
                return it.new_array(st, tm.sym(f"loop:{name}", ("arr", tm.shape(t))))
            raise Undecided(f"loop variable {name} of an unknown kind")
        if tm.is_k(v):
            v = v.args[1]
        if isinstance(v, bool) or v is None or isinstance(v, str):
            self.fixed.append((name, v))
            return v
        if isinstance(v, int):
            s = tm.sym(f"count:{name}", "int")
            self.counters.append((name, v))
            return s
        if isinstance(v, T):
            self.spec.append((f"loop:{name}", v))
            return tm.sym(f"loop:{name}", "num")
        raise Undecided(f"loop variable {name} of an unknown kind")

    def hook(self, it, s, st):
        if self.node is not None or self.busy:
            if self.node is s:
                raise Undecided("the loop is entered twice")
            return False
        self.node = s
        stored = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stored.add(x.id)
            while isinstance(x, (ast.Subscript, ast.Attribute)):
                if isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    stored.add(x.value.id)
                x = x.value
        self.names = sorted(n for n in stored if st.env.get(n, UNBOUND) is not UNBOUND)
        for n in self.names:
            st.env[n] = self.symbolise(it, st, st.env[n], n)
        self.start = {n: st.env[n] for n in self.names}
        heap0 = dict(st.heap)
        breaks = []
        c = it.truth(st, it.eval(s.test, st))
        stop = st.fork(tm.NOT(c))
        if stop.pc:
            if s.orelse:
                it.exec_block(s.orelse, stop)
            breaks.append(stop)
        st.pc = tm.AND(st.pc, c)
        it.loopstack.append(([], []))
        it.exec_block(s.body, st)
        br, co = it.loopstack.pop()
        breaks += br
        self.outs = [o for o in [st.fork()] + co if o.pc]
        own = {v.addr for v in self.start.values() if isinstance(v, Ref)}
        for o in self.outs:
            if any(o.heap.get(a) is not heap0[a] and a not in own for a in heap0):
                raise Undecided("the loop changes objects which are not its variables")
        live = [(b.pc, b) for b in breaks if b.pc]
        if not live:
            raise Violation("the loop of the reduction is never left", (it.loc[0], it.loc[1], s.lineno), "never left")
        st.become(it.merge(live))
        return True


def niggli(G, t=None):
    """Violated Niggli condition of the metric (A, B, C, xi, eta, zeta), or None (Int. Tables A, 9.2.2)."""
    return next(violated(G, t), None)


def violated(G, t=None):
    """All violated Niggli conditions of the metric (t: tolerance)."""
    A, B, C = G[0, 0], G[1, 1], G[2, 2]
    x, e, z = 2 * G[1, 2], 2 * G[0, 2], 2 * G[0, 1]
    t = 1e-7 * C if t is None else t

    def gt(a, b):
        return a > b + t

    def eq(a, b):
        return abs(a - b) <= t
    if gt(A, B):
        yield "A <= B"
    if gt(B, C):
        yield "B <= C"
    if gt(abs(x), B):
        yield "|xi| <= B"
    if gt(abs(e), A):
        yield "|eta| <= A"
    if gt(abs(z), A):
        yield "|zeta| <= A"
    pos = all(gt(v, 0) for v in (x, e, z))
    neg = all(not gt(v, 0) for v in (x, e, z))
    if not (pos or neg):
        yield "xi, eta, zeta all positive or none of them"
    if neg and gt(abs(x) + abs(e) + abs(z), A + B):
        yield "|xi| + |eta| + |zeta| <= A + B"
    if eq(A, B) and gt(abs(x), abs(e)):
        yield "if A = B, then |xi| <= |eta|"
    if eq(B, C) and gt(abs(e), abs(z)):
        yield "if B = C, then |eta| <= |zeta|"
    if pos:
        if eq(x, B) and gt(z, 2 * e):
            yield "if xi = B, then zeta <= 2 eta"
        if eq(e, A) and gt(z, 2 * x):
            yield "if eta = A, then zeta <= 2 xi"
        if eq(z, A) and gt(e, 2 * x):
            yield "if zeta = A, then eta <= 2 xi"
    else:
        if eq(abs(x), B) and not eq(z, 0):
            yield "if |xi| = B, then zeta = 0"
        if eq(abs(e), A) and not eq(z, 0):
            yield "if |eta| = A, then zeta = 0"
        if eq(abs(z), A) and not eq(e, 0):
            yield "if |zeta| = A, then eta = 0"
        if eq(abs(x) + abs(e) + abs(z), A + B) and gt(A, abs(e) + abs(z) / 2):
            yield "if |xi| + |eta| + |zeta| = A + B, then A <= |eta| + |zeta| / 2"


def unimodular(g, steps):
    U = np.eye(3)
    for _ in range(steps):
        i, j = g.permutation(3)[:2]
        E = np.eye(3)
        E[i, j] = g.integers(-1, 2)
        U = U @ E
    if g.random() < 0.3:
        U = U @ np.roll(np.eye(3), 1, axis=0)
    return U


def metric(A, B, C, x, e, z):
    return np.array([[A, z / 2, e / 2], [z / 2, B, x / 2], [e / 2, x / 2, C]])


def metrics(g, kind, count):
    """Metrics with many exact ties (kind 'ties', 'near', 'sum', 'single'), already reduced ones ('reduced'), generic ('generic')."""
    out = []
    if kind == "tolerance":
        return perturbed(g, count)
    if kind == "single":
        return single(g, max(1, count // 50))
    while len(out) < count:
        if kind == "generic":
            p = np.concatenate([g.uniform(1, 6, 3), g.uniform(-6, 6, 3)])
        elif kind == "near":
            A, B, C = np.sort(g.integers(2, 6, 3))
            s = g.choice([-1, 1])
            p = np.array([A, B, C, s * g.choice([B, g.integers(0, B + 1)]), s * g.choice([A, g.integers(0, A + 1)]), s * g.choice([A, g.integers(0, A + 1)])], dtype=float)
        elif kind == "sum":
            A, B, C = np.sort(g.integers(2, 8, 3))
            z, e = -g.integers(0, A + 1), -g.integers(0, A + 1)
            p = np.array([A, B, C, -(A + B) - e - z, e, z], dtype=float)
            if abs(p[3]) > B:
                continue
        else:
            p = np.concatenate([g.integers(1, 7, 3), g.integers(-6, 7, 3)]).astype(float)
        G = metric(*p)
        if np.linalg.eigvalsh(G)[0] < 0.15:
            continue
        if kind == "reduced" and niggli(G):
            continue
        out.append(G)
    return out


def single(g, count):
    """Metrics which violate one condition only, the same number for each condition and signs of xi, eta, zeta."""
    groups = {}
    tries = 0
    while tries < 30000:
        tries += 1
        A, B, C = np.sort(g.integers(1, 7, 3))
        if g.random() < 0.3:
            A, B, C = g.permutation([A, B, C])
        p = np.array([A, B, C, *g.integers(-8, 9, 3)], dtype=float)
        k = g.integers(0, 8)
        if k & 1:
            p[3] = g.choice([-1, 0, 1]) * B
        if k & 2:
            p[4] = g.choice([-1, 0, 1]) * A
        if k & 4:
            p[5] = g.choice([-1, 0, 1]) * A
        G = metric(*p)
        v = list(violated(G))
        if len(v) != 1 or np.linalg.eigvalsh(G)[0] < 0.1:
            continue
        q = groups.setdefault((v[0], tuple(np.sign(p[3:])) if "<=" in v[0] and "if" not in v[0] else ()), [])
        if len(q) < count:
            q.append(G)
    return [G for q in groups.values() for G in q]


def perturbed(g, count):
    """Metrics which differ from ties by a fraction or by a multiple of the tolerance, where both decide."""
    out = []
    for k, G in enumerate(single(g, max(2, count // 30)) + metrics(g, "near", count)):
        s = (1.0, 60.0, 1.0, 0.02)[k % 4]
        G = G * s**2
        t = EPS * np.linalg.det(G) ** (1 / 6)
        for u in (0.2, -0.2, 5, -5):
            i, j = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)][g.integers(0, 6)]
            H = G.copy()
            H[i, j] += u * t * (1 if i == j else 0.5)
            H[j, i] = H[i, j]
            if (niggli(H, t / 2) is None) == (niggli(H, 2 * t) is None) and np.linalg.eigvalsh(H)[0] > 0.05 * s**2:
                out.append(H)
    return out


def rotation(g):
    q, r = np.linalg.qr(g.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    return q if np.linalg.det(q) > 0 else -q


def analyse(ctx, form):
    it = ctx.interp("niggli" + form)
    if not hasattr(it, "niggli_loop"):
        st = State()
        c = cell(it, st, form)
        lp = it.niggli_loop = Loop()
        it.while_hook = lp.hook
        try:
            it.niggli_r = it.run(FN, [c], dict(eps_relative=tm.sym("eps", "float"), implementation="wulfric", max_iterations=tm.sym("limit", "int")), st=st)
        finally:
            it.while_hook = None
    if it.niggli_loop.node is None:
        raise Undecided("the reduction is not a while loop of the analysed function")
    return it, it.niggli_loop, it.niggli_r


def setcell(env, c):
    env = dict(env)
    env["cell"] = c
    for i in range(3):
        for j in range(3):
            env[f"cell[{i}][{j}]"] = float(c[i, j])
    return env


def initial(lp, env, c):
    memo = {}
    e = setcell(env, c)
    try:
        return {k: tm.evaluate(t, e, memo) for k, t in lp.spec}
    except tm.Unevaluable as x:
        raise Undecided(f"initial value is not closed-form: {x}")


def flat(it, o, lp, v, name, out):
    if isinstance(v, Tup):
        for i, x in enumerate(v.items):
            flat(it, o, lp, x, f"{name}.{i}", out)
    elif isinstance(v, Ref) and it.obj(o, v).kind == "list":
        for i, x in enumerate(it.known_items(o, v)):
            flat(it, o, lp, x, f"{name}.{i}", out)
    else:
        out[name] = it.as_T(o, v)


def check(ctx):
    for form in ("array", "list"):
        for kind, n in (("ties", 150), ("near", 150), ("single", 200), ("sum", 150), ("reduced", 80), ("generic", 40), ("tolerance", 60)):
            ctx.ob(f"one pass, {kind} metrics ({form})", passes, ctx, form, kind, n * (8 if ctx.thorough else 1))
        ctx.ob(f"limit on the number of passes ({form})", limit, ctx, form)
        ctx.ob(f"cell without volume ({form})", degenerate, ctx, form)


def passes(ctx, form, kind, count):
    it, lp, r = analyse(ctx, form)
    g = oracle.rng(ctx.seed, form, kind)
    loc = fun_loc(it.public(FN))
    nxt = []
    for o in lp.outs:
        d = {}
        for n in lp.names:
            flat(it, o, lp, o.env.get(n), n, d)
        nxt.append((o, d))
    counts = {n for n, _ in lp.counters}
    fixed = dict(lp.fixed)
    names = [k[5:] for k, _ in lp.spec]
    mats = None
    eps, tol = (EPS, 0.05) if kind == "tolerance" else (1e-5, 1e-6)
    for G in metrics(g, kind, count):
        cur = np.linalg.cholesky(G) @ rotation(g)
        if g.random() < 0.5:
            cur = -cur
        U = unimodular(g, int(g.integers(0, 4)))
        env = setcell({"U": U, "eps": eps, "limit": 1000}, np.linalg.inv(U).T @ cur)
        for n, v0 in lp.counters:
            env[f"count:{n}"] = v0 + int(g.integers(0, 9))
        env.update(initial(lp, env, cur))
        desc = f"metric A, B, C = {np.round(np.diag(G), 3).tolist()}, xi, eta, zeta = {np.round([2 * G[1, 2], 2 * G[0, 2], 2 * G[0, 1]], 3).tolist()}"
        ctx.count("points")
        memo = {}
        x = rint.raised(r, env, memo, strict=True)
        if x is not None:
            raise Violation(f"{rint.cls_name(x.cls)} is raised within the limit of passes; {desc}", x.loc, "raises")
        live = [(o, d) for o, d in nxt if rint.guard(o.pc, env, memo)]
        T = eps * np.linalg.det(G) ** (1 / 6) if kind == "tolerance" else None
        if T:
            desc += f" +- tolerance {T:.2g}"
        bad = niggli(G, T)
        if not live:
            got = np.asarray(rint.val(r, r.value, env, memo), dtype=float)
            at = rint.exit_at(r, env, memo, loc)
            M = got @ np.linalg.inv(env["cell"])
            if got.shape != (3, 3) or not rint.close(M, np.round(M), 1e-6) or abs(abs(np.linalg.det(M)) - 1) > 1e-6:
                raise Violation(f"the returned cell is not an integer combination of the given vectors with determinant 1; {desc}", at, "returned lattice")
            if np.linalg.det(M) < 0:
                raise Violation(f"the returned cell has the handedness opposite to the given one; {desc}", at, "returned handedness")
            bad = niggli(got @ got.T, T and 2 * T)
            if bad:
                raise Violation(f"the reduction ends with a cell which violates '{bad}'; {desc}", at, "not Niggli")
            continue
        if len(live) > 1:
            raise Undecided("two ways of one pass at once")
        o, d = live[0]
        vals = {}
        for n, t in d.items():
            try:
                vals[n] = tm.evaluate(t, env, memo)
            except tm.Unevaluable as e:
                raise Undecided(f"next value of {n} is not closed-form: {e}")
        if mats is None:
            mats = [n for n in d if n not in counts and n not in fixed and n not in names]
        new = cur
        if mats:
            M = np.linalg.inv(U) @ np.asarray(vals[mats[0]], dtype=float)
            det = np.linalg.det(M)
            where = rint.blame(r, d[mats[0]]) or loc
            if not rint.close(M, np.round(M), 1e-6) or abs(abs(det) - 1) > 1e-6:
                raise Violation(f"one pass multiplies the matrix of the transformation by {np.round(M, 3).tolist()}, which is not unimodular; {desc}", where, "pass lattice")
            if det < 0:
                raise Violation(f"one pass changes the handedness (matrix {np.round(M).astype(int).tolist()}); {desc}", where, "pass handedness")
            new = np.asarray(vals[mats[0]]).T @ env["cell"]
        want = initial(lp, env, new)
        for n in names:
            if not rint.close(vals[n], want[f"loop:{n}"], tol):
                raise Violation(f"after one pass the loop variable {n} is {np.round(vals[n], 5).tolist()}, {np.round(want[f'loop:{n}'], 5).tolist()} follows from the matrix of the transformation; {desc}", rint.blame(r, d[n]) or loc, f"pass variable {n}")
        for n, v in fixed.items():
            if not np.array_equal(vals[n], v):
                raise Undecided(f"loop variable {n} changes from its initial constant")
        if bad is None:
            raise Violation(f"the reduction goes on with a cell which satisfies all Niggli conditions; {desc}", loc, "no end")


def limit(ctx, form):
    it, lp, r = analyse(ctx, form)
    loc = fun_loc(it.public(FN))
    g = oracle.rng(ctx.seed, form, "limit")
    if not lp.counters:
        raise Undecided("no counter of passes is identified")
    step = False
    for G in metrics(g, "near", 40):
        if niggli(G) is None:
            continue
        cur = np.linalg.cholesky(G)
        env = setcell({"U": EYE, "eps": 1e-5, "limit": 20}, cur)
        env.update(initial(lp, env, cur))
        for L, ks in ((20, (0, 5, 18, 24, 1000)), (1, (4, 1000)), (2, (0, 5)), (5, (0, 3, 8)), (1000, (0, 900, 998, 1003)), (100000, (99000, 100003))):
            env["limit"] = L
            for k in ks:
                for n, v0 in lp.counters:
                    env[f"count:{n}"] = v0 + k
                x = rint.raised(r, env, {}, strict=True)
                if k < L - 1 and x is not None:
                    raise Violation(f"{rint.cls_name(x.cls)} after {k} passes with max_iterations = {L}", x.loc, "early refusal")
                if k > L + 1 and x is None:
                    raise Violation(f"no NiggliReductionFailed after {k} passes with max_iterations = {L}", loc, "no limit")
                if x is not None and rint.cls_name(x.cls) != "NiggliReductionFailed":
                    raise Violation(f"{rint.cls_name(x.cls)} instead of NiggliReductionFailed", x.loc, "class of refusal")
                if x is None:
                    for o in lp.outs:
                        if rint.guard(o.pc, env):
                            nv = [rint.val(r, o.env[n], env) - env[f"count:{n}"] for n, _ in lp.counters]
                            if not any(v == 1 for v in nv):
                                raise Violation("a pass is not counted, the number of passes is not limited", loc, "not counted")
                            step = True
    if not step:
        raise Undecided("no continued pass")


def degenerate(ctx, form):
    it, lp, r = analyse(ctx, form)
    for c in ([[1, 0, 0], [0, 1, 0], [0, 0, 0]], [[1, 0, 0], [0, 0, 0], [0, 1, 0]], [[0, 0, 0]] * 3):
        env = setcell({"U": EYE, "eps": 1e-5, "limit": 20}, np.array(c, dtype=float))
        for x in r.raises:
            try:
                if rint.guard(x.pc, env):
                    break
            except Undecided:
                continue
        else:
            raise Violation("a cell without volume is accepted", fun_loc(it.public(FN)), "zero volume")
        if rint.cls_name(x.cls) != "ValueError":
            raise Violation(f"{rint.cls_name(x.cls)} instead of ValueError for a cell without volume", x.loc, "zero volume class")
