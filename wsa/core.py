"""Obligations, verdicts, known findings, evidence."""
import importlib
import json
import os
import pickle
import select
import sys
import time
import traceback

from . import terms as tm
from .interp import AnalysisBroken, Interp, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("WSA_SRC", "/repo/src")


class Violation(Exception):
    """A definite breach: key identifies rule and construct (no line numbers)."""

    def __init__(self, msg, loc=None, key=None):
        super().__init__(msg)
        self.msg, self.loc, self.key = msg, loc, key


class Undecided(Exception):
    pass


def where(loc):
    if not loc:
        return ""
    return f"{loc[0]}:{loc[2]} ({loc[1]})"


def fun_loc(f):
    """Location of a Fun / Cls object."""
    n = getattr(f, "node", None)
    return (f.module.path, getattr(f, "qual", "?"), n.lineno if n is not None else 0)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.results = []  # (name, verdict, loc, msg, key)
        self._it = {}
        self.budget = 60.0 if self.thorough else 20.0
        self.total = 780.0 if self.thorough else 560.0
        self.t0 = time.time()
        self.samples = []
        self.notes = []
        self.counters = {}
        self.index = -1
        self.share = None  # (k, n): this process decides the obligations k, k + n, k + 2n...

    def interp(self, key="default", **opts):
        """A (shared) interpreter; every obligation works on its own State."""
        if key not in self._it:
            it = Interp(src=SRC)
            it.assume_available = opts.get("assume_available", True)
            it.missing = set(opts.get("missing", ()))
            it.set_reverse = opts.get("set_reverse", False)
            it.load("wulfric")
            self._it[key] = it
        return self._it[key]

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def ob(self, name, fn, *args, budget=None):
        """Decide one obligation. fn returns normally (holds), raises Violation or anything else (undecided)."""
        self.index += 1
        if self.share is not None and self.index % self.share[1] != self.share[0]:
            return None
        if time.time() - self.t0 > self.total:
            self.results.append((name, "UNDECIDED", None, "time budget of the check is exhausted", None))
            return None
        tm.DEADLINE[0] = time.process_time() + (budget or self.budget)
        try:
            r = fn(*args)
            self.results.append((name, "PASS", None, "", None))
            return r
        except Violation as e:
            self.results.append((name, "VIOLATION", e.loc, e.msg, e.key or name))
        except Undecided as e:
            self.results.append((name, "UNDECIDED", None, str(e), None))
        except AnalysisBroken:
            raise
        except (Unsupported, tm.OutOfTime, RecursionError, MemoryError) as e:
            self.results.append((name, "UNDECIDED", None, f"{type(e).__name__}: {e}", None))
        except Exception as e:  # the analysis does not understand a construct: not a verdict
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.results.append((name, "UNDECIDED", None, f"internal {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}", None))
            if os.environ.get("WSA_DEBUG"):
                traceback.print_exc()
        finally:
            tm.DEADLINE[0] = None
        return None


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                d = dict(x.split("=", 1) for x in line[len("known: "):].split(" ", 2)[:2])
                out.append((d["property"], d["key"], line.split(" ", 3)[3] if len(line.split(" ", 3)) > 3 else ""))
    return out


def run_alone(ctx, mod):
    mod.check(ctx)
    its = list(ctx._it.values())
    ctx.functions = set().union(*[i.functions_seen for i in its]) if its else set()
    ctx.modules = max([len(i.modules) for i in its] or [0])
    ctx.calls = sum(i.calls_resolved for i in its)


def run_parallel(ctx, mod, n):
    """Obligations are dealt to n forked workers; results come back pickled over pipes, in the order of obligations."""
    sys.stdout.flush()
    pipes = []
    for k in range(n):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            out = None
            try:
                ctx.share = (k, n)
                try:
                    run_alone(ctx, mod)
                    out = ("ok", ctx.results, ctx.counters, ctx.samples, ctx.notes, ctx.functions, ctx.modules, ctx.calls, ctx.index + 1)
                except AnalysisBroken as e:
                    out = ("broken", str(e))
                except BaseException as e:
                    out = ("broken", f"internal {type(e).__name__}: {e}")
                    if os.environ.get("WSA_DEBUG"):
                        traceback.print_exc()
                with os.fdopen(wr, "wb") as f:
                    f.write(pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append((rd, pid))
    bufs = [b""] * n
    live = {rd: k for k, (rd, _) in enumerate(pipes)}
    while live:
        for rd in select.select(list(live), [], [])[0]:
            d = os.read(rd, 1 << 20)
            if d:
                bufs[live[rd]] += d
            else:
                os.close(rd)
                del live[rd]
    ctx.functions, ctx.modules, ctx.calls = set(), 0, 0
    parts, broken, total = [], None, 0
    for k in range(n):
        os.waitpid(pipes[k][1], 0)
        if not bufs[k]:
            parts.append([])
            ctx.lost = True
            continue
        o = pickle.loads(bufs[k])
        if o[0] == "broken":
            broken = broken or o[1]
            continue
        parts.append(o[1])
        for a, b in o[2].items():
            ctx.counters[a] = ctx.counters.get(a, 0) + b
        ctx.samples += o[3]
        ctx.notes += o[4]
        ctx.functions |= o[5]
        ctx.modules = max(ctx.modules, o[6])
        ctx.calls += o[7]
        total = max(total, o[8])
    if broken:
        return broken
    order = []
    for j in range(max([len(x) for x in parts] or [0])):
        order += [x[j] for x in parts if j < len(x)]
    ctx.results = order
    lost = total - len(order)
    ctx.results += [("lost worker", "UNDECIDED", None, "a worker process died (memory or time)", None)] * max(0, lost)


def run_check(pid, tier="quick", seed=1, quiet=False):
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    modname = next((m[:-3] for m in sorted(os.listdir(os.path.join(VERIF, "wsa", "checks"))) if m.lower().startswith(pid.lower() + "_")), None)
    if modname is None:
        print(f"no check for {pid}")
        return 2
    mod = importlib.import_module(f"wsa.checks.{modname}")
    n = int(os.environ.get("WSA_JOBS", "0")) or min(8, os.cpu_count() or 1)
    if not getattr(mod, "PARALLEL", True):
        n = 1
    try:
        broken = run_parallel(ctx, mod, n) if n > 1 else run_alone(ctx, mod)
    except AnalysisBroken as e:
        broken = str(e)
    if broken:
        print(f"ANALYSIS-BROKEN property={pid}: {broken}")
        return 2
    res = ctx.results
    viol = [r for r in res if r[1] == "VIOLATION"]
    und = [r for r in res if r[1] == "UNDECIDED"]
    ok = [r for r in res if r[1] == "PASS"]
    known = [k for k in load_known() if k[0] == pid]
    new, seen_known = [], []
    for r in viol:
        k = next((k for k in known if k[1] == r[4].replace(" ", "_")), None)
        if k:
            seen_known.append((k, r))
        else:
            new.append(r)
    fs = sorted(ctx.functions)
    cov = {
        "obligations": len(res), "discharged": len(ok), "undecided": len(und),
        "checker_cmd": f"python3-vt /verif/check.py {pid} --tier {tier}",
        "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
        "explanation": getattr(mod, "EXPLANATION", (mod.__doc__ or "").strip()),
        "rule": getattr(mod, "RULE", (mod.__doc__ or "").strip().split("\n")[0]),
        "modules_parsed": ctx.modules,
        "functions_analysed": fs[:80],
        "functions_analysed_count": len(fs),
        "calls_resolved": ctx.calls,
        "samples": (ctx.samples or [r[0] for r in ok[:5]])[:12],
        "undecided_list": [f"{r[0]}: {r[3]}"[:300] for r in und[:30]],
        "known_findings": [r[4] for _, r in seen_known],
    }
    cov.update(ctx.counters)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if not quiet:
        print(f"{pid}: {len(res)} obligations, {len(ok)} hold, {len(viol)} violated, {len(und)} undecided; "
              f"{cov['functions_analysed_count']} functions analysed; {ev['wall_s']} s")
        for r in und[:40]:
            print(f"  UNDECIDED {r[0]}: {r[3][:200]}")
    for k, r in {r[4]: (k, r) for k, r in seen_known}.values():
        print(f"KNOWN-FINDING: property={pid} {k[2] or r[3]} [{where(r[2])}]")
    if new:
        rp = os.path.join(VERIF, "evidence", f"{pid}.violations.txt")
        with open(rp, "w", encoding="utf-8") as f:
            for r in new:
                f.write(f"rule/instance: {r[0]}\nkey: {r[4]}\nwhere: {where(r[2])}\nwhat: {r[3]}\nreplay: cd /verif && {cov['checker_cmd']}\n\n")
        for r in new[:10]:
            print(f"  {r[0]}: {r[3]} [{where(r[2])}]")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    floor = getattr(mod, "FLOOR", 1)
    if len(res) < floor:
        print(f"ANALYSIS-BROKEN property={pid}: {len(res)} obligations, at least {floor} expected")
        return 2
    return 0


TRUSTED = [
    "the abstract interpreter of /verif/wsa (Python semantics of the constructs used in the package, transfer functions of numpy/builtins/itertools)",
    "CPython ast module",
]
