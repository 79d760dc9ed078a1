"""Whole-package driver: evaluates every function and method of the package (outside the excluded parts) on unknown arguments
whose identity is tracked, constructing objects through their own constructors."""
import ast
import re

from .interp import Budget, Ctx, Dead, Lazy, State
from .project import root_ctx
from .values import *
from .values import E

EXCLUDE = ("hazma.experimental", "hazma._core")
SCALARS = {"float", "int", "bool", "complex", "str", "RealOrRealArray_scalar"}
STRINGS = {"str"}


def excluded(name):
    return any(name == x or name.startswith(x + ".") for x in EXCLUDE) or name.startswith("rust")


class Unit:
    """One function, or one method / property accessor evaluated on objects of class `cls`."""

    def __init__(self, module, cls, name, f, kind):
        self.module, self.cls, self.name, self.f, self.kind = module, cls, name, f, kind
        self.label = (cls.module.name + ":" + cls.name + "." if cls else module.name + ":") + name + (".setter" if kind == "fset" else "")
        self.public = not name.startswith("_") or (name.startswith("__") and name.endswith("__"))
        self.own = cls is None or cls.ns.get(name) is not None


def decorators(f):
    return {ast.unparse(d).split("(")[0].split(".")[-1] for d in getattr(f.node, "decorator_list", [])}


def accessors(n, v):
    if isinstance(v, Func) and isinstance(v.node, ast.FunctionDef):
        yield "method", v
    elif isinstance(v, Prop):
        for k in ("fget", "fset"):
            g = getattr(v, k, None)
            if isinstance(g, Func):
                yield k, g


def members(c):
    """name -> (value, defining class), along the inheritance chain."""
    out = {}
    for k in c.mro():
        for n, v in k.ns.items():
            out.setdefault(n, (v, k))
    return out


def abstract_members(c):
    """Names that stay abstract in class `c`."""
    out = []
    for n, (v, k) in members(c).items():
        if any("abstractmethod" in decorators(f) for _, f in accessors(n, v)):
            out.append((n, k))
    return out


def is_abc(c):
    """Whether Python enforces the abstract methods of `c`."""
    return any((isinstance(b, Ext) and b.name.split(".")[-1] == "ABC") for k in c.mro() for b in k.bases) or \
        any(kw.arg == "metaclass" and "ABCMeta" in ast.dump(kw.value) for k in c.mro() for kw in k.node.keywords)


def is_protocol(c):
    return any(isinstance(b, Ext) and b.name.split(".")[-1] == "Protocol" for k in [c] for b in k.bases)


class World:
    """Functions and classes of the package, with the inheritance relation."""

    def __init__(self, eng):
        self.eng = eng
        self.functions, self.classes = [], []
        for mn, m in sorted(eng.modules.items()):
            if excluded(mn):
                continue
            for n, v in list(eng.module_ns(m).items()):
                if isinstance(v, Func) and v.module is m and isinstance(v.node, ast.FunctionDef) and v.node.name == n:
                    self.functions.append(Unit(m, None, n, v, "func"))
                elif isinstance(v, Cls) and v.module is m and v.name == n:
                    self.classes.append(v)
        st = State()
        for c in self.classes:
            for n, v in list(c.ns.items()):
                if isinstance(v, Lazy):         # methods imported in the class body
                    c.ns[n] = eng.resolve_lazy(v, st)
        self.children = {id(c): [] for c in self.classes}
        for c in self.classes:
            for k in c.mro()[1:]:
                if id(k) in self.children:
                    self.children[id(k)].append(c)

    def abstract(self, c):
        ch = self.children[id(c)]
        if is_protocol(c):
            return True
        left = abstract_members(c)
        if left and (is_abc(c) or any(k is c for _, k in left)):
            return True
        if ch and (c.name.startswith("_") or (c.lookup("__init__")[0] is None and any(k.lookup("__init__")[0] is not None for k in ch))):
            return True
        return False

    def concrete(self):
        return [c for c in self.classes if not self.abstract(c)]

    def methods(self, inherited=True):
        out = []
        for c in self.concrete():
            if c.is_enum():
                continue
            for n, (v, k) in members(c).items():
                if not inherited and k is not c:
                    continue
                for kind, f in accessors(n, v):
                    if "abstractmethod" not in decorators(f):
                        out.append(Unit(f.module, c, n, f, kind))
        return out


def sweep(repo, fn, select=None, jobs=8, budget=60000, make=None, both=True):
    """Evaluates every unit in `jobs` processes; fn(eng, unit, events, result, error, full) -> list of plain items."""
    import os
    import pickle
    from .project import make_engine
    eng = (make or make_engine)(repo)
    w = World(eng)
    us = w.functions + w.methods()
    if select:
        us = [u for u in us if select(u)]
    eng.events.clear()
    eng.implementers = {c.name: c for c in w.concrete()}
    eng.abstract_ids = {id(c) for c in w.classes if w.abstract(c)}
    pids = []
    for j in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                out = []
                for u in us[j::jobs]:
                    for full in ((True, False) if both else (True,)):
                        ev, res, err = run_unit(eng, u, full=full, budget=budget)
                        out.append((u.label, full, err, fn(eng, u, ev, res, err, full)))
                        eng.events.clear()
                with os.fdopen(wr, "wb") as fh:
                    pickle.dump(out, fh)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        pids.append((pid, r))
    out = []
    for pid, r in pids:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError("an analysis worker failed")
        out += pickle.loads(data)
    return eng, w, us, sorted(out, key=lambda x: (x[0], not x[1]))


def parallel(items, fn, jobs=8):
    """[fn(x) for x in items] in `jobs` processes; results must be picklable."""
    import os
    import pickle
    items = list(items)
    pids, out = [], {}
    for j in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                res = [(i, fn(items[i])) for i in range(j, len(items), jobs)]
                with os.fdopen(wr, "wb") as fh:
                    pickle.dump(res, fh)
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wr)
        pids.append((pid, r))
    for pid, r in pids:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError("an analysis worker failed")
        out.update(pickle.loads(data))
    return [out[i] for i in range(len(items))]


# stands for the protocol / abstract model parameters of helper functions
STAND_IN = {"hazma.rh_neutrino": ("hazma.rh_neutrino", "RHNeutrino"), "hazma.vector_mediator._gev": ("hazma.vector_mediator", "VectorMediatorGeV")}


def stand_in(eng, module, st):
    for p, (mn, cn) in STAND_IN.items():
        if module.name.startswith(p) and mn in eng.modules:
            v = eng.module_ns(eng.modules[mn], st).get(cn)
            if isinstance(v, Lazy):
                v = eng.resolve_lazy(v, st)
            if isinstance(v, Cls):
                return v
    return None


def annotation(a):
    return ast.unparse(a.annotation).strip("'\"") if a.annotation is not None else ""


def doc_types(f):
    """Parameter types given in a numpy-style docstring."""
    d = ast.get_docstring(f.node) if isinstance(f.node, ast.FunctionDef) else None
    out = {}
    for m in re.finditer(r"^\s*([A-Za-z_][\w, ]*?)\s*:\s*([^\n]+)$", d or "", re.M):
        for n in m.group(1).split(","):
            out.setdefault(n.strip(), m.group(2))
    return out


def doc_scalar(f, name):
    t = doc_types(f).get(name) if f is not None else None
    return t is not None and set(re.findall(r"[A-Za-z]+", t.split("optional")[0].split("default")[0])) <= {"float", "int", "integer", "double", "str", "string", "bool", "boolean", "number", "or"}


def param(eng, module, st, a, tag, default, depth=0, f=None):
    """Abstract value of a parameter, from its annotation, docstring and default; arrays and containers carry their identity."""
    if getattr(eng, "param_hook", None) is not None:
        v = eng.param_hook(a, tag, f)
        if v is not None:
            return v
    ann = annotation(a)
    if not ann and doc_scalar(f, a.arg):
        return unknown(kind="scalar", deps=frozenset([("in", a.arg)]))
    parts = {p.strip().split("[")[0].split(".")[-1] for p in ann.replace("Optional[", "").replace("Union[", "").replace("]", "").replace("|", ",").split(",")} - {"", "None"}
    if ann and parts and parts <= SCALARS:
        return unknown(kind="scalar", deps=frozenset([("in", a.arg)]))
    if default is not None and isinstance(default, Num) and not ann and default.kind == "scalar" and default.const is not None:
        return unknown(kind="scalar", deps=frozenset([("in", a.arg)]))
    if depth < 2 and len(parts) == 1 and ann:
        n = next(iter(parts))
        v = eng.module_ns(module, st).get(n)
        if isinstance(v, Lazy):
            v = eng.resolve_lazy(v, st)
        if isinstance(v, Cls) and not v.is_enum() and id(v) in getattr(eng, "abstract_ids", ()):
            v = stand_in(eng, module, st) if is_protocol(v) else None
        if isinstance(v, Cls) and not v.is_enum():
            o = instance(eng, v, st, tag + ":" + a.arg + ".", depth + 1)
            if o is not None:
                return o
        if isinstance(v, Cls) and v.is_enum():
            return Alt([x for x in v.ns.values() if isinstance(x, EnumVal)])
    return unknown(alias=frozenset([("param", tag + a.arg)]), deps=frozenset([("in", a.arg)]))


def arguments(eng, f, st, tag, skip_self, full, depth=0):
    a = f.node.args
    pos = a.posonlyargs + a.args
    if skip_self:
        pos = pos[1:]
    nd = len(a.defaults)
    allpos = a.posonlyargs + a.args
    args, kw = [], {}
    for i, p in enumerate(pos):
        j = allpos.index(p) - (len(allpos) - nd)
        d = f.defaults[j] if j >= 0 else None
        if j >= 0 and not full:
            continue
        args.append(param(eng, f.module, st, p, tag, d, depth, f)) if j < 0 or full else None
    for p in a.kwonlyargs:
        d = f.kwdefaults.get(p.arg)
        if d is None or full:
            kw[p.arg] = param(eng, f.module, st, p, tag, d, depth, f)
    return args, kw


def haskw(f):
    return f.node.args.kwarg is not None


def instance(eng, c, st, tag, depth=0, full=False):
    """Object of class `c`, through its constructor, on unknown arguments."""
    ctx = root_ctx(eng, c.module)
    init, _ = c.lookup("__init__")
    try:
        if isinstance(init, Func):
            args, kw = arguments(eng, init, st, tag, True, full, depth)
            return eng.call(c, args, kw, st, ctx, c.module.tree, haskw(init))
        if isinstance(init, DataInit):
            kw = {}
            for n, f in eng.data_fields(init.cls).items():
                d = f["default"]
                none = d is None or (isinstance(d, FieldV) and d.default is None and d.factory is None)
                if f["init"] and (none or full):
                    fake = ast.arg(arg=n, annotation=field_annotation(init.cls, n))
                    kw[n] = param(eng, c.module, st, fake, tag, f["default"] if isinstance(f["default"], Num) else None, depth)
            return eng.call(c, [], kw, st, ctx, c.module.tree)
        if any(isinstance(b, Ext) and b.name.endswith("NamedTuple") for b in c.ext_bases()):
            kw = {n: param(eng, c.module, st, ast.arg(arg=n, annotation=field_annotation(c, n)), tag, None, depth) for n in eng.data_fields(c, True)}
            return eng.call(c, [], kw, st, ctx, c.module.tree)
        return eng.call(c, [], {}, st, ctx, c.module.tree)
    except Dead:
        return None


def field_annotation(c, n):
    for k in c.mro():
        for s in k.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == n:
                return s.annotation
    return None


def closures(eng, st, v, d=0):
    if d > 3:
        return
    if isinstance(v, Func):
        yield v
    elif isinstance(v, Alt):
        for x in v.vals:
            yield from closures(eng, st, x, d + 1)
    elif isinstance(v, Tup):
        for x in v.elems:
            yield from closures(eng, st, x, d + 1)
    elif isinstance(v, Ref):
        h = eng.get(st, v.id)
        if h.kind == "list":
            for x in list(h.elems) + ([h.rest] if h.rest is not None else []):
                yield from closures(eng, st, x, d + 1)
        elif h.kind == "dict":
            for x in list(h.items.values()) + ([h.rest] if h.rest is not None else []):
                yield from closures(eng, st, x, d + 1)


def named(f, args, kw, skip):
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args][1 if skip else 0:]
    return {**dict(zip(pos, args)), **kw}


def note(eng, st, roots):
    """Keeps the objects that exist before the call, to compare them with what they are afterwards."""
    eng.roots = {n: r for n, r in roots.items() if isinstance(r, Ref)}
    eng.pre, eng.state = dict(st.heap), st


def run_unit(eng, u, full=True, budget=60000):
    """Evaluates one unit; returns (events, result, error)."""
    st = State()
    ctx = root_ctx(eng, u.f.module)
    i0 = len(eng.events)
    eng.steps = 0
    eng.memo, eng.cached_refs = {}, {}
    eng.roots, eng.pre, eng.state = {}, {}, st
    old, eng.max_steps = eng.max_steps, budget
    err = res = None
    try:
        f = u.f
        c = u.cls
        is_m = c is not None and getattr(f, "kindm", None) != "static"
        if is_m and u.name not in ("__init__", "__new__"):
            if getattr(f, "kindm", None) == "class":
                f = f.bind(c)
            else:
                o = instance(eng, c, st, "ctor.", 0)
                if o is None:
                    raise Dead()
                f = f.bind(o)
            args, kw = arguments(eng, u.f, st, "", True, full)
            note(eng, st, {"self": f.bound, **named(u.f, args, kw, True)})
            res = eng.call(f, args, kw, st, ctx, u.f.module.tree, haskw(u.f))
        elif is_m and u.name == "__init__":
            res = instance(eng, c, st, "", 0, full)
        else:
            args, kw = arguments(eng, u.f, st, "", False, full)
            note(eng, st, named(u.f, args, kw, False))
            res = eng.call(f, args, kw, st, ctx, u.f.module.tree, haskw(u.f))
        for g in list(closures(eng, st, res))[:20]:
            if g.node.args.vararg is not None:
                continue
            a2, k2 = arguments(eng, g, st, "closure.", g.bound is not None, full)
            try:
                eng.call(g, a2, k2, st, ctx, g.module.tree, haskw(g))
            except Dead:
                pass
    except Dead:
        err = "always raises"
    except Budget:
        err = "too large"
    except RecursionError:
        err = "recursion"
    except (KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
        err = f"engine: {type(e).__name__}: {e}"
    finally:
        eng.max_steps = old
        eng.stack = []
    return eng.events[i0:], res, err
