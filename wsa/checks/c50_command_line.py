"""The command wulfric does what its argument says.

The function main() is analysed for every form of the command line. Arguments
are parsed by the rules the analysed code declares (calls of add_argument);
printed texts, calls of test() and the ways out are compared with the documented
ones. The entry point that is installed has to be this function.
"""
import argparse
import ast
import contextlib
import io
import os
import re

from .. import rint
from .. import terms as tm
from ..core import Undecided, Violation, fun_loc
from ..interp import Mod, State

LEVEL = "other"
FLOOR = 8
ASSUMPTIONS = ["argparse parses the command line as declared by the calls of add_argument"]
MODEL = '''
from wsa_ext import parse, unknown

class Namespace:
    def __init__(self, values):
        for k in values:
            setattr(self, k, values[k])

class Parser:
    def __init__(self, kw):
        self.kw = kw
        self.calls = []

    def add_argument(self, *args, **kwargs):
        self.calls.append((args, kwargs))

    def parse_args(self, args=None, namespace=None):
        return Namespace(parse(self.calls))

    def print_help(self, file=None):
        print("<help>")

    def print_usage(self, file=None):
        print("<usage>")

    def __getattr__(self, name):
        return unknown(name)
'''
CASES = [([], "help"), (["logo"], "logo"), (["warranty"], "warranty"), (["test"], "test"), (["--version"], "version"), (["-v"], "version"), (["logo", "--version"], "version"), (["-v", "test"], "version"),
         (["qq"], "error"), (["Logo"], "error"), (["--qq"], "error"), (["logo", "warranty"], "error")]


def check(ctx):
    for argv, want in CASES:
        ctx.ob("wulfric " + " ".join(argv), command, ctx, argv, want)
    ctx.ob("entry point", entry, ctx)


def const(it, st, v):
    try:
        return tm.evaluate(it.as_T(st, v), {}, {})
    except tm.Unevaluable as e:
        raise Undecided(f"argument of the parser is not a constant: {e}")


def interp(ctx, argv):
    it = ctx.interp("cli " + " ".join(argv))
    it.modules["wsa_cli"] = Mod("wsa_cli", ast.parse(MODEL), "command line", False)
    env = it.load("wsa_cli").env
    it.code = None
    it.tests = 0

    def parse(i, st, a, k):
        p = argparse.ArgumentParser(prog="wulfric")
        for x in i.known_items(st, a[0]) or []:
            pos, kw = x.items
            args = [const(i, st, y) for y in (i.known_items(st, pos) or [])]
            d = i.as_T(st, kw)
            kws = tm.evaluate(d, {}, {}) if not isinstance(d, dict) else d
            p.add_argument(*args, **dict(kws))
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                ns = p.parse_args(argv)
        except SystemExit as e:
            i.code = e.code
            st.pc = 0
            return None
        return i.new_dict(st, list(vars(ns).items()))
    it.ext_stubs["wsa_ext.parse"] = parse
    def unknown(i, st, a, k):
        raise Undecided(f"method {a[0]} of the parser is not modelled")
    it.ext_stubs["wsa_ext.unknown"] = unknown
    it.ext_stubs["argparse.ArgumentParser"] = lambda i, s, a, k: i.call(s, env["Parser"], [i.new_dict(s, list(k.items()))], {})

    def tests(i, st, a, k):
        i.tests += 1
        return None
    for n in ("wulfric._tests.test", "wulfric.test"):
        it.ext_stubs[n] = tests
    return it


def command(ctx, argv, want):
    it = interp(ctx, argv)
    f = it.load("wulfric.__main__").env.get("main")
    if f is None:
        raise Violation("wulfric.__main__ has no function main", None, "no main")
    loc = fun_loc(f)
    r = it.run(f, [], {}, st=State())
    ctx.count("commands")
    line = "wulfric " + " ".join(argv)
    if want == "error":
        if it.code is None and r.st.pc != 0:
            raise Violation(f"{line} is accepted", r.exits[-1].loc if r.exits else loc, f"{line} accepted")
        return
    if r.st.pc == 0 and it.code is None and r.raises and all(rint.cls_name(x.cls) == "SystemExit" for x in r.raises):
        pass
    elif r.st.pc == 0 or it.code is not None:
        raise Violation(f"{line} fails" + (f" with {rint.cls_name(r.raises[-1].cls)}" if r.raises else ""), r.raises[-1].loc if r.raises else loc, f"{line} fails")
    out = []
    for e in r.events:
        if e.kind == "print":
            if e.pc == 0:
                continue
            out.append((" ".join(shown(x) for x in e.data), e.loc))
    text = "\n".join(x for x, _ in out)
    where = out[-1][1] if out and out[-1][1] and out[-1][1][0] != "command line" else loc
    if (it.tests > 0) != (want == "test"):
        raise Violation(f"{line} {'runs' if it.tests else 'does not run'} the tests", loc, f"{line} tests")
    if want == "test":
        return
    if want == "help":
        if "<help>" not in text:
            raise Violation("wulfric without arguments does not print the help", where, "help")
    elif "<help>" in text:
        raise Violation(f"{line} prints the help", where, f"{line} help")
    if want == "logo":
        g = it.run("wulfric.logo", [], {}, st=State())
        if text.strip("\n") != tm.evaluate(it.as_T(g.st, g.value), {}, {}):
            raise Violation(f"{line} prints something else than logo(): {text[:60]!r}", where, "logo")
    if want == "warranty" and "THERE IS NO WARRANTY FOR THE PROGRAM" not in text:
        raise Violation(f"{line} prints no warranty", where, "warranty")
    v = version(it)
    if want == "version" and (v not in re.split(r"[\sv]", text) or len(text) > 60):
        raise Violation(f"{line} prints {text[:60]!r}, the version is {v}", where, "version")


def shown(x):
    if isinstance(x, tm.T) and x.op in ("fn", "bound"):
        return f"<function {x.args[0]}>"
    try:
        return str(tm.evaluate(x, {}, {}))
    except tm.Unevaluable as e:
        raise Undecided(f"printed text is not a constant: {e}")


def version(it):
    v = it.load("wulfric").env.get("__version__")
    if not isinstance(v, str):
        raise Undecided("__version__ is not a constant")
    return v


def entry(ctx):
    it = ctx.interp("plain")
    p = os.path.join(ctx.src, "..", "pyproject.toml") if hasattr(ctx, "src") else "/repo/pyproject.toml"
    if not os.path.exists(p):
        raise Undecided("no pyproject.toml")
    import tomllib
    with open(p, "rb") as f:
        d = tomllib.load(f)
    e = d.get("project", {}).get("scripts", {}).get("wulfric")
    if e is None:
        raise Violation("the command wulfric is not installed", None, "no entry point")
    m, _, n = e.partition(":")
    if m not in it.modules or it.load(m).env.get(n) is None:
        raise Violation(f"the command wulfric runs {e}, which does not exist", None, "entry point")
    w = d["project"].get("version")
    if w is not None and w != version(it):
        raise Violation(f"the package is installed as the version {w}, __version__ is {version(it)}", None, "version of the package")
