"""Model of text files: an analysed class instead of the objects returned by open()."""
import ast

from .. import terms as tm
from ..interp import Mod, State, Tup

MODEL = '''
class Now:
    year, month, day, hour, minute, second, microsecond = 2024, 5, 17, 8, 9, 10, 0

    def strftime(self, f):
        return "17 May 2024"

    def isoformat(self):
        return "2024-05-17"

    def __str__(self):
        return "2024-05-17"


class File:
    def __init__(self, lines, name, mode):
        self.lines = lines
        self.name = name
        self.mode = mode
        self.text = []
        self.closed = False

    def readlines(self):
        r = list(self.lines)
        self.lines = []
        return r

    def readline(self):
        if len(self.lines) == 0:
            return ""
        r = self.lines[0]
        self.lines = self.lines[1:]
        return r

    def read(self):
        return "".join(self.readlines())

    def __iter__(self):
        return self.readlines()

    def __next__(self):
        return self.readline()

    def write(self, text):
        self.text.append(text)

    def writelines(self, lines):
        for x in lines:
            self.text.append(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.closed = True
'''


class Disk:
    """Files and directories known to the model; records what is opened."""

    def __init__(self, it, files=None, dirs=()):
        self.it, self.files, self.dirs, self.opened = it, dict(files or {}), set(dirs), []
        if "wsa_model" not in it.modules:
            it.modules["wsa_model"] = Mod("wsa_model", ast.parse(MODEL), "model of files", False)
        self.cls = it.load("wsa_model").env["File"]

    def new(self, st, lines, name, mode):
        return self.it.call(st, self.cls, [self.it.new_list(st, list(lines)), name, mode], {})

    def __enter__(self):
        self.it.ext_stubs["builtins.open"] = self.open
        self.it.ext_stubs["io.open"] = self.open
        self.it.ext_stubs["builtins.float"] = number
        now = self.it.load("wsa_model").env["Now"]
        for x in ("now", "today", "utcnow"):
            self.it.ext_stubs["datetime.datetime." + x] = lambda it, st, a, k: it.call(st, now, [], {})
        return self

    def __exit__(self, *a):
        for k in ("builtins.open", "io.open", "builtins.float", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow"):
            self.it.ext_stubs.pop(k, None)

    def open(self, it, st, args, kwargs):
        b = dict(zip(("file", "mode"), args))
        b.update(kwargs)
        name, mode = b.get("file"), b.get("mode", "r")
        it.event("open", st, (name, mode))
        if not isinstance(name, str) or not isinstance(mode, str):
            from ..core import Undecided
            raise Undecided(f"name of an opened file is not a constant: {name!r}")
        if name in self.dirs or name.endswith("/"):
            it.raise_builtin(st, "IsADirectoryError", name)
            return None
        if mode[0] == "r" and name not in self.files:
            it.raise_builtin(st, "FileNotFoundError", name)
            return None
        f = self.new(st, self.files.get(name, []) if mode[0] == "r" else [], name, mode)
        self.opened.append((name, mode, f, it.loc))
        return f


def number(it, st, args, kwargs):
    """float() of the tokens <name> is the symbol name."""
    from ..lib import builtin
    x = args[0] if args else 0.0
    if isinstance(x, str) and x.startswith("<") and x.endswith(">"):
        return tm.sym(x[1:-1], "float")
    return builtin(it, st, "float", args, kwargs)
