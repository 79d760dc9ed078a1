"""Process-wide settings: every statement of the package that changes the state of the interpreter process (warning filters, numpy error
handling, print options, random state, environment, working directory, standard streams, import path, recursion limit, signal handlers,
locale, plotting defaults) must sit inside a construct that puts the setting back on every way out."""
import ast

from ..drive import excluded
from ..project import make_engine

RULES = {
    "settings": "a process-wide setting is changed only under a context manager or try/finally that restores it",
    "import-time": "importing a module changes no process-wide setting for good",
}
# setting -> functions that change it
SETTERS = {
    "warnings": {"warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings"},
    "numpy errors": {"numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "scipy.special.seterr"},
    "print options": {"numpy.set_printoptions", "numpy.set_string_function"},
    "random state": {"numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate"},
    "environment": {"os.putenv", "os.unsetenv", "os.environ.update", "os.environ.setdefault", "os.environ.pop", "os.environ.clear", "os.environ.__setitem__"},
    "working directory": {"os.chdir", "os.fchdir", "os.umask"},
    "import path": {"sys.path.append", "sys.path.insert", "sys.path.extend", "sys.path.remove", "sys.path.pop", "sys.path.clear", "site.addsitedir", "sys.modules.pop", "sys.modules.clear", "sys.modules.update"},
    "interpreter": {"sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.setswitchinterval", "sys.set_int_max_str_digits", "gc.disable", "gc.set_threshold", "faulthandler.enable", "signal.signal", "signal.alarm", "atexit.register", "threading.setprofile", "threading.settrace", "threading.stack_size", "multiprocessing.set_start_method", "socket.setdefaulttimeout"},
    "locale": {"locale.setlocale", "decimal.setcontext", "mpmath.mp.dps"},
    "logging": {"logging.basicConfig", "logging.disable", "logging.captureWarnings", "logging.setLoggerClass", "logging.root.setLevel"},
    "plotting": {"matplotlib.use", "matplotlib.rc", "matplotlib.rcdefaults", "matplotlib.pyplot.style.use", "matplotlib.style.use", "matplotlib.rcParams.update", "matplotlib.pyplot.rcParams.update", "matplotlib.pyplot.rc", "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff", "seaborn.set", "seaborn.set_theme"},
    "tensor settings": {"jax.config.update"},
}
BY_FN = {f: k for k, fs in SETTERS.items() for f in fs}
# objects whose items or attributes are process-wide settings
STORES = {"os.environ": "environment", "sys.stdout": "standard streams", "sys.stderr": "standard streams", "sys.stdin": "standard streams", "sys.path": "import path",
          "sys.argv": "interpreter", "sys.excepthook": "interpreter", "sys.displayhook": "interpreter", "sys.dont_write_bytecode": "interpreter", "sys.modules": "import path",
          "warnings.filters": "warnings", "warnings.showwarning": "warnings", "warnings.formatwarning": "warnings", "warnings.warn": "warnings",
          "matplotlib.rcParams": "plotting", "matplotlib.pyplot.rcParams": "plotting", "builtins": "interpreter", "mpmath.mp.dps": "locale", "mpmath.mp.prec": "locale"}
# context managers that restore a setting
SCOPES = {"warnings.catch_warnings": {"warnings"}, "numpy.errstate": {"numpy errors"}, "scipy.special.errstate": {"numpy errors"}, "numpy.printoptions": {"print options"},
          "matplotlib.rc_context": {"plotting"}, "matplotlib.pyplot.rc_context": {"plotting"}, "matplotlib.style.context": {"plotting"}, "matplotlib.pyplot.style.context": {"plotting"},
          "contextlib.chdir": {"working directory"}, "decimal.localcontext": {"locale"}, "mpmath.workdps": {"locale"}, "mpmath.workprec": {"locale"}}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Scan:
    def __init__(self, tree, pkg=None):
        self.tree = tree
        self.pkg = pkg if pkg is not None else []   # all modules of the package, to find helpers and their uses
        self.pkg.append(self)
        self.parents = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
        self.alias = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module:
                for a in n.names:
                    self.alias[a.asname or a.name] = n.module + "." + a.name
        # a second name for a module or one of its functions
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                d = self.dotted(n.value)
                if d and (d in BY_FN or d in STORES) and n.targets[0].id not in self.alias:
                    self.alias[n.targets[0].id] = d

    def dotted(self, e):
        if isinstance(e, ast.Name):
            return self.alias.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b + "." + e.attr if b else None
        return None

    def changes(self):
        """(node, setting, what) for every place that changes a process-wide setting."""
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Call):
                d = self.dotted(n.func)
                if d in BY_FN:
                    if d.endswith(("simplefilter", "filterwarnings")) or not self.is_query(d, n):
                        yield n, BY_FN[d], d
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) and getattr(n, "value", 1) is not None else []
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        d = self.dotted(x.value)
                        if d in STORES:
                            yield n, STORES[d], d
                    elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        d = self.dotted(x)
                        if d in STORES:
                            yield n, STORES[d], d
                        elif d is not None and d.rpartition(".")[0] == "builtins":
                            yield n, "interpreter", d

    def is_query(self, d, call):
        return d in ("multiprocessing.set_start_method",) and False

    def restored(self, node, setting, depth=0):
        """Whether `node` runs only inside a scope that restores `setting`."""
        child, p = node, self.parents.get(node)
        while p is not None:
            if isinstance(p, (ast.With, ast.AsyncWith)) and any(child is s for s in p.body):
                for it in p.items:
                    if self.scope(it.context_expr, setting):
                        return True
            if isinstance(p, ast.Try) and any(child is s for s in p.finalbody):
                return True  # this is the restoring statement
            if isinstance(p, ast.Try) and any(child is s for s in p.body) and self.resets(p.finalbody, setting):
                return True
            blk = self.block_of(child, p)
            if blk is not None and isinstance(p, (ast.With, ast.AsyncWith)):
                for s in blk[:next(k for k, s in enumerate(blk) if s is child)]:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "enter_context" and n.args and self.scope(n.args[0], setting):
                            return True
            # the change directly before the try whose finally undoes it
            blk = self.block_of(child, p)
            if blk is not None:
                i = next(k for k, s in enumerate(blk) if s is child)
                for s in blk[i + 1:]:
                    if isinstance(s, ast.Try) and self.resets(s.finalbody, setting):
                        return True
                    if not isinstance(s, (ast.Assign, ast.AnnAssign, ast.Pass)) and not self.simple_setter(s):
                        break
                    if any(isinstance(x, ast.Call) for x in ast.walk(s)) and not self.simple_setter(s):
                        break
            if isinstance(p, FUNCS):
                # a helper: every use of it in this module is a call inside such a scope; a context manager written as a generator
                name = getattr(p, "name", None)
                if name is None or depth > 3:
                    return False
                cls = self.parents.get(p)
                if name == "__exit__" and isinstance(cls, ast.ClassDef) and self.resets([child], setting):
                    return True
                if name == "__enter__" and isinstance(cls, ast.ClassDef):
                    return any(isinstance(f, ast.FunctionDef) and f.name == "__exit__" and self.resets(f.body, setting) for f in cls.body)
                uses = [(s, n) for s in self.pkg for n in ast.walk(s.tree) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)
                        or isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load)]
                return bool(uses) and all(s.restored(u, setting, depth + 1) for s, u in uses)
            child, p = p, self.parents.get(p)
        return False

    def block_of(self, s, p):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(p, f, None)
            if isinstance(b, list) and any(s is x for x in b):
                return b
        return None

    def simple_setter(self, s):
        return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and self.dotted(s.value.func) in BY_FN

    def resets(self, body, setting):
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    d = self.dotted(n.func)
                    if d in BY_FN and BY_FN[d] == setting and (d.endswith((".pop", ".remove")) or self.saved(n.args + [k.value for k in n.keywords])):
                        return True
                    if setting == "import path" and d is None and isinstance(n.func, ast.Attribute) and n.func.attr in ("remove", "pop"):
                        return True
                    if isinstance(n.func, ast.Attribute) and n.func.attr == "__exit__":
                        return True
                if isinstance(n, (ast.Assign, ast.Delete)):
                    for t in n.targets:
                        d = self.dotted(t.value) if isinstance(t, ast.Subscript) else self.dotted(t) if isinstance(t, ast.Attribute) else None
                        if d in STORES and STORES[d] == setting and (isinstance(n, ast.Delete) or self.saved([n.value])):
                            return True
        return False

    def saved(self, args):
        """Whether a restoring statement uses a value kept in a variable (and not a constant of its own)."""
        return any(isinstance(x, ast.Name) and x.id not in self.alias for a in args for x in ast.walk(a))

    def scope(self, e, setting, depth=0):
        f = e.func if isinstance(e, ast.Call) else e
        d = self.dotted(f)
        if d in SCOPES:
            return setting in SCOPES[d]
        if isinstance(e, ast.Call) and isinstance(f, ast.Attribute) and f.attr in ("option_context",):
            return setting == "print options"
        # a context manager of this module (generator with try/finally, or with a restoring with-statement around the yield)
        name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if name and depth < 3:
            return any(s.manager(name, setting, depth) for s in self.pkg)
        return False

    def manager(self, name, setting, depth):
        for n in ast.walk(self.tree):
            if isinstance(n, ast.ClassDef) and n.name == name and any(isinstance(f, ast.FunctionDef) and f.name == "__exit__" and self.resets(f.body, setting) for f in n.body):
                return True
            if isinstance(n, ast.FunctionDef) and n.name == name:
                for y in ast.walk(n):
                    if isinstance(y, (ast.Yield, ast.YieldFrom)):
                        q = self.parents.get(y)
                        while q is not None and q is not n:
                            if isinstance(q, ast.With) and any(self.scope(i.context_expr, setting, depth + 1) for i in q.items):
                                return True
                            if isinstance(q, ast.Try) and self.resets(q.finalbody, setting):
                                return True
                            q = self.parents.get(q)
                    if isinstance(y, ast.Return) and y.value is not None and self.scope(y.value, setting, depth + 1):
                        return True
        return False

    def where(self, node):
        names, p = [], self.parents.get(node)
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.append(p.name)
            p = self.parents.get(p)
        return ".".join(reversed(names)) or "<module>"


CONTROL = """
import os, sys, warnings
import numpy as np
from warnings import simplefilter
def a():
    warnings.simplefilter("ignore")
def b():
    old = np.seterr(all="ignore")
    x = 1 / 0
    np.seterr(**old)
def c():
    os.environ["X"] = "1"
def d():
    sys.stdout = None
simplefilter("once")
def e():
    old = os.getcwd()
    os.chdir("/")
    work()
    os.chdir(old)
def ok1():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
def ok2():
    old = np.seterr(all="ignore")
    try:
        x = 1 / 0
    finally:
        np.seterr(**old)
def ok3():
    with np.errstate(all="ignore"):
        return 1
def _quiet():
    warnings.filterwarnings("ignore")
def ok4():
    with warnings.catch_warnings():
        _quiet()
def f():
    np.seterr(all="ignore")
    try:
        x = 1 / 0
    finally:
        np.seterr(all="warn")
class Quiet:
    def __enter__(self):
        self.old = np.seterr(all="ignore")
    def __exit__(self, *a):
        old = self.old
        np.seterr(**old)
def ok5():
    with Quiet():
        np.seterr(divide="ignore")
def ok6():
    with ExitStack() as stack:
        stack.enter_context(warnings.catch_warnings())
        warnings.simplefilter("ignore")
"""


def run(rep, repo, tier):
    c = Scan(ast.parse(CONTROL))
    got = sorted({c.where(n) for n, s, d in c.changes() if not c.restored(n, s)})
    if got != ["<module>", "a", "b", "c", "d", "e", "f"]:
        raise RuntimeError(f"settings rule fails its control: {got}")
    eng = make_engine(repo)
    pkg = []
    scans = [(mn, m, Scan(m.tree, pkg)) for mn, m in sorted(eng.modules.items()) if not m.rust and not excluded(mn)]
    for mn, m, s in scans:
        rep.obligation("import-time", mn)
        for n, setting, d in s.changes():
            w = s.where(n)
            ok = s.restored(n, setting)
            rep.obligation("settings", f"{mn}:{w} {d}")
            if not ok:
                rep.violation("import-time" if w == "<module>" else "settings", f"{mn}:{w} {d}",
                              f"{d} in {mn}:{w} changes a process-wide setting ({setting}) that is not put back on every way out", f"{m.rel}:{n.lineno}")
    rep.floor("import-time", 50)
