"""Hidden sharing between calls: functions created in a loop that capture the loop's variables and outlive the iteration, and writes
that reach module-level, class-level or default-argument storage."""
import ast

from ..drive import decorators, excluded, sweep
from ..project import global_hook, make_engine
from ..values import *

RULES = {
    "late-binding": "a function created in a loop or comprehension and kept beyond the iteration does not refer to variables the loop rebinds",
    "shared-state": "no call writes module-level variables, class attributes, module-level or class-level tables, default arguments or the arrays held by cached results",
}
LOOPS = (ast.For, ast.AsyncFor, ast.While)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
KEEP = {"append", "add", "setdefault", "insert", "extend", "update", "appendleft", "register", "submit", "partial", "__setitem__", "dict", "list", "tuple", "wraps"}
ARRAYS = {"array", "linspace", "logspace", "geomspace", "arange", "zeros", "ones", "full", "loadtxt", "genfromtxt", "eye", "asarray", "empty", "zeros_like", "ones_like"}


def targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def scope_walk(node, top=True):
    """Nodes of the same scope (does not enter nested functions or classes)."""
    yield node
    if not top and isinstance(node, FUNCS + (ast.ClassDef,)):
        return
    for c in ast.iter_child_nodes(node):
        yield from scope_walk(c, False)


def rebound(loop):
    out = set()
    if isinstance(loop, COMPS):
        for g in loop.generators:
            out |= targets(g.target)
        return out
    if isinstance(loop, (ast.For, ast.AsyncFor)):
        out |= targets(loop.target)
    for s in loop.body:
        for n in scope_walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def free_names(f):
    """Names a function reads when it runs and does not bind itself."""
    a = f.args
    own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    body = f.body if isinstance(f.body, list) else [f.body]
    read = set()
    for s in body:
        for n in scope_walk(s):
            if isinstance(n, ast.Name):
                (own if isinstance(n.ctx, ast.Store) else read).add(n.id)
            elif isinstance(n, FUNCS):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    own.add(n.name)
                read |= free_names(n)
                for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                    read |= {m.id for m in ast.walk(d) if isinstance(m, ast.Name)}
            elif isinstance(n, COMPS):
                own |= rebound(n)
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Nonlocal) or isinstance(n, ast.Global):
                own -= set(n.names)
    return read - own


def params(f, method):
    a = f.args
    xs = [x.arg for x in a.posonlyargs + a.args]
    return (xs[1:] if method else xs), {x.arg for x in a.kwonlyargs}


def carried(f, method=False):
    """Parameters of a function that live on in what it returns (or, for __init__, in the object)."""
    pos, kwo = params(f, method)
    names, out = set(pos) | kwo, set()
    inner = {}
    for n in ast.walk(f):
        if n is not f and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            inner[n.name] = free_names(n) & names
    for n in ast.walk(f):
        vs = []
        if isinstance(n, ast.Return) and n.value is not None and not method:
            vs = [n.value]
        elif method and isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) for t in n.targets):
            vs = [n.value]
        while vs:
            v = vs.pop()
            if isinstance(v, ast.Name):
                out |= {v.id} & names | inner.get(v.id, set())
            elif isinstance(v, ast.Lambda):
                out |= free_names(v) & names
            elif isinstance(v, (ast.Tuple, ast.List)):
                vs += v.elts
            elif isinstance(v, ast.Dict):
                vs += v.values
            elif isinstance(v, ast.IfExp):
                vs += [v.body, v.orelse]
    return pos, out


def holders(trees):
    """Callables (by bare name) of the project that keep an argument alive: name -> (positional parameters or None for all, parameters kept)."""
    out = {}
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, ast.ClassDef):
                deco = {getattr(d, "attr", getattr(d, "id", "")) for x in n.decorator_list for d in [x.func if isinstance(x, ast.Call) else x]}
                bases = {getattr(b, "attr", getattr(b, "id", "")) for b in n.bases}
                init = [f for f in n.body if isinstance(f, ast.FunctionDef) and f.name == "__init__"]
                if "NamedTuple" in bases or "dataclass" in deco and not init:
                    out.setdefault(n.name, []).append((None, None))
                elif init:
                    out.setdefault(n.name, []).append(carried(init[0], True))
                else:
                    out.setdefault(n.name, []).append(([], set()))
            elif isinstance(n, ast.FunctionDef):
                out.setdefault(n.name, []).append(carried(n))
    return {k: v[0] for k, v in out.items() if len(v) == 1 and (v[0][0] is None or v[0][1])}


HOLD = {}


def holds(call, node, kw):
    """Whether the result of `call` keeps its argument `node` (passed as keyword `kw`, or by position) alive."""
    f = call.func
    h = HOLD.get(f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", ""))
    if h is None:
        return False
    if h[0] is None:
        return True
    if kw is not None:
        return kw in h[1]
    if node in call.args and not any(isinstance(a, ast.Starred) for a in call.args):
        i = call.args.index(node)
        return i < len(h[0]) and h[0][i] in h[1]
    return False


def kept(node, parents, loop):
    """Whether the value of expression `node`, inside `loop`, is stored beyond the iteration."""
    while True:
        p = parents.get(node)
        if p is None:
            return False
        if isinstance(p, COMPS):
            return node is getattr(p, "elt", None) or node is getattr(p, "value", None)
        if isinstance(p, (ast.IfExp, ast.BoolOp, ast.NamedExpr, ast.Starred)):
            node = p
            continue
        if isinstance(p, (ast.Dict, ast.List, ast.Tuple, ast.Set)):
            node = p
            if isinstance(parents.get(p), (ast.For, ast.comprehension)):
                return False
            continue
        kw = None
        if isinstance(p, ast.keyword):
            kw = p.arg
            node, p = p, parents.get(p)
        if isinstance(p, ast.Call):
            if node is p.func:
                return False
            n = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, "id", "")
            if n in ("partial", "dict", "list", "tuple", "wraps", "vectorize", "lru_cache", "cache"):
                node = p
                continue
            if holds(p, node, kw):
                node = p
                continue
            return n in KEEP
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in ts):
                return True
            names = set().union(*(targets(t) for t in ts))
            if isinstance(p, ast.AugAssign):
                return True
            return any(name_kept(n, parents, loop, {p}) for n in names)
        if isinstance(p, (ast.Yield, ast.YieldFrom)):
            return True
        return False


def name_kept(name, parents, loop, skip=frozenset()):
    if isinstance(loop, COMPS):
        return False
    for s in loop.body:
        for n in scope_walk(s):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and kept(n, parents, loop):
                return True
    return False


def late(tree):
    """(function node, loop, captured names) for functions that outlive the loop iteration that made them; count of candidates."""
    parents = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
    out, n = [], 0
    for f in ast.walk(tree):
        if not isinstance(f, FUNCS):
            continue
        p, child = parents.get(f), f
        while p is not None and not isinstance(p, FUNCS + (ast.ClassDef, ast.Module)):
            inside = isinstance(p, COMPS) and not (p.generators and child is p.generators[0]) or isinstance(p, LOOPS) and child in p.body
            if inside:
                n += 1
                names = free_names(f) & rebound(p)
                if names and (kept(f, parents, p) if isinstance(f, ast.Lambda) else name_kept(f.name, parents, p)):
                    out.append((f, p, names))
                    break
            p, child = parents.get(p), p
    return out, n


def qual(tree, node):
    names = []

    def go(n, path):
        if n is node:
            names.append(path)
            return
        for c in ast.iter_child_nodes(n):
            go(c, path + [c.name] if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and c is not node else path)
    go(tree, [])
    return ".".join(names[0]) if names and names[0] else "<module>"


def engine(repo):
    eng = make_engine(repo)
    base = eng.global_hook
    arrays = {}
    for mn, m in eng.modules.items():
        if m.rust:
            continue
        arrays[mn] = set()
        for s in m.tree.body:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and v is not None and any(
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ARRAYS for n in ast.walk(v)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    arrays[mn] |= targets(t)

    def hook(module, name, value):
        v = base(module, name, value) if base is not None else value
        if isinstance(v, Num) and name in arrays.get(module.name, ()) and v.kind != "scalar" and v.const is None:
            v = v.replace(alias=v.alias | {("global", module.name + "." + name)}) if hasattr(v, "replace") else aliased(v, ("global", module.name + "." + name))
        return v
    eng.global_hook = hook
    return eng


def aliased(v, a):
    return Num(v.const, v.dim, v.form, v.lin, v.nz, v.deps, v.alias | {a}, v.cond, v.kind)


def origin(eng, ref, names={}):
    """Where a module-level container is bound."""
    if not names:
        for mn, m in eng.modules.items():
            if m.rust or excluded(mn) or m.state != 2:
                continue
            for n, v in eng.module_ns(m).items():
                if isinstance(v, Ref):
                    names.setdefault(v.id, f"{mn}.{n}")
                elif isinstance(v, Cls) and v.module is m:
                    for k, x in v.ns.items():
                        if isinstance(x, Ref):
                            names.setdefault(x.id, f"{mn}.{v.name}.{k}")
    return names.get(ref)


def collect(eng, u, ev, res, err, full):
    out, n = [], 0
    for x in ev:
        k, i = x.kind, x.info
        if k in ("container_write", "mutate", "setattr", "global_write"):
            n += 1
        if i.get("maybe") or x.func == "<module>" or x.module.rust:
            continue
        if k == "global_write":
            out.append((f"{x.module.name}.{i['name']}", f"a call assigns the module variable {i['name']}", x.where))
        elif k == "class_write":
            out.append((f"{i['cls'].name}.{i['name']}", f"a call assigns the class attribute {i['cls'].name}.{i['name']}", x.where))
        elif k == "module_write":
            out.append((f"{i['module']}.{i['name']}", f"a call assigns {i['name']} of module {i['module']}", x.where))
        elif k == "container_write" and i["ref"] in eng.base:
            o = origin(eng, i["ref"])
            o = o or f"default argument or nested table used by {u.label}"
            out.append((o, f"a call of {u.label} writes into {o}, which all calls share", x.where))
        elif k == "container_write" and i["ref"] in eng.cached_refs:
            o = eng.cached_refs[i["ref"]]
            out.append((o, f"a call of {u.label} changes the object that {o} caches and hands to every caller", x.where))
        elif k == "mutate":
            for a in i["alias"]:
                if a[0] == "global":
                    out.append((a[1], f"a call of {u.label} changes the module-level array {a[1]} in place ({i['how']})", x.where))
                elif a[0] == "cached":
                    out.append((a[1], f"a call of {u.label} changes the array that {a[1]} caches and hands to every caller ({i['how']})", x.where))
    return out, n


CONTROL = """
class Pair(NamedTuple):
    f: object
    n: int
def twice(f):
    def g(e):
        return 2 * f(e)
    return g
def total(f):
    return f(1.0) + f(2.0)
def bad(xs):
    fs, d = [], {}
    for x in xs:
        d[x] = Pair(f=lambda: x, n=1)
        fs.append(twice(lambda e: e + x))
    for x in xs:
        y = 2 * x
        def g(e):
            return e + y
        fs.append(g)
        d[x] = lambda e: e * x
    return fs, [lambda e: e - x for x in xs], d
def good(xs):
    fs = [(lambda e, x=x: e - x) for x in xs]
    def make(x):
        return lambda e: e + x
    for x in xs:
        fs.append(make(x))
        z = sorted(xs, key=lambda t: t - x)
        fs.append(total(lambda e: e + x))
    return fs, z, [(lambda e: e + x)(1.0) for x in xs]
"""


def control():
    """The late-binding rule finds the five planted instances of a fixture and nothing else."""
    t = ast.parse(CONTROL)
    HOLD.clear()
    HOLD.update(holders([t]))
    if sorted(qual(t, f).split(".")[0] for f, _, _ in late(t)[0]) != ["bad"] * 5:
        raise RuntimeError("late-binding rule fails its control")


def run(rep, repo, tier):
    control()
    eng, w, us, out = sweep(repo, collect, budget=60000 if tier == "quick" else 1000000, make=engine)
    for label, full, err, (xs, n) in out:
        if err and err != "always raises":
            rep.open("shared-state", label, err)
        else:
            rep.obligation("shared-state", label)
        rep.count("writes resolved", n)
        for con, msg, where in xs:
            rep.violation("shared-state", con, msg, where, f"reached from {label}")
    HOLD.clear()
    HOLD.update(holders([m.tree for m in eng.modules.values() if not m.rust]))
    for mn, m in sorted(eng.modules.items()):
        if m.rust or excluded(mn):
            continue
        xs, n = late(m.tree)
        rep.count("functions made in loops", n)
        rep.obligation("late-binding", mn)
        for f, loop, names in xs:
            q = qual(m.tree, f)
            rep.violation("late-binding", f"{mn}:{q}", f"a function made in a loop in {q} and kept beyond the iteration reads {', '.join(sorted(names))}, which the loop rebinds", f"{m.rel}:{f.lineno}")
    rep.floor("shared-state", 300)
    rep.floor("late-binding", 50)
