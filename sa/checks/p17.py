"""Name and signature resolution: static scoping of every name, resolution of every import and exported name, and abstract
evaluation of every function and method of the package (each concrete class through its own constructor) for missing attributes,
missing table keys, ill-fitting calls; completeness of concrete classes against their abstract bases."""
import ast
import builtins
import os
import symtable

from ..drive import World, abstract_members, accessors, decorators, excluded, is_abc, is_protocol, sweep
from ..interp import Lazy, State
from ..project import root_ctx
from ..values import *

RULES = {
    "names": "every name read in a function or module resolves to a local, enclosing, module or builtin name",
    "imports": "every name imported from a module of the package is defined by it",
    "exports": "every name listed in __all__ exists",
    "attributes": "every attribute read on a package object or module exists; read-only properties are not assigned; None has no attributes",
    "calls": "every call passes arguments its callee accepts",
    "tables": "constant keys and indices that are looked up are present",
    "abstract": "classes that nothing derives from implement the abstract methods of their bases, and no query on a concrete class runs an abstract method",
}
KIND = {"undefined_name": "names", "maybe_unbound": "names", "import_missing": "imports", "module_attr_missing": "attributes", "attr_missing": "attributes", "none_attr": "attributes",
        "readonly_set": "attributes", "arity": "calls", "key_missing": "tables", "index_range": "tables", "unpack_mismatch": "tables"}
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__class__", "reveal_type", "WindowsError"}


def describe(x):
    i = x.info
    k = x.kind
    if k == "undefined_name":
        return i["name"], f"name '{i['name']}' is not defined"
    if k == "maybe_unbound":
        return f"{i['name']} in {x.func}", f"local variable '{i['name']}' is not bound on every path to its use"
    if k == "import_missing":
        return f"{i['module']}.{i['name']}", f"'{i['name']}' is not defined in {i['module']}"
    if k == "module_attr_missing":
        n = f"{i.get('module')}.{i.get('name')}"
        return n, f"module attribute {n} does not exist"
    if k in ("attr_missing", "readonly_set"):
        return f"{i['cls'] if isinstance(i['cls'], str) else i['cls'].name}.{i['name']}", f"attribute '{i['name']}' of {i['cls'] if isinstance(i['cls'], str) else i['cls'].name} " + ("does not exist" if k == "attr_missing" else "cannot be assigned")
    if k == "none_attr":
        return f"None.{i['name']} in {x.func}", f"attribute '{i['name']}' of None"
    if k == "arity":
        f = i["f"]
        n = f"{f.module.name}:{getattr(f, 'qual', f.name)}"
        return f"{n}: {i['err']}", f"call of {n}: {i['err']}"
    if k == "key_missing":
        return f"{i['key']!r} in {x.func}", f"key {i['key']!r} is not among {list(i['keys'])[:12]}"
    if k == "index_range":
        return f"{i['k']} of {i['n']} in {x.func}", f"index {i['k']} of a sequence of {i['n']}"
    return f"{i.get('want')}/{i.get('got')} in {x.func}", f"unpacks {i.get('got')} values into {i.get('want')}"


def collect(eng, u, ev, res, err, full):
    out = []
    n = {}
    for x in ev:
        if x.kind == "call":
            n["calls"] = n.get("calls", 0) + 1
            f = x.info["f"]
            if u.cls is not None and not x.info.get("maybe") and isinstance(f, Func) and isinstance(f.node, ast.FunctionDef) and "abstractmethod" in decorators(f) \
                    and isinstance(f.cls, Cls) and any(k is f.cls for k in u.cls.mro()) and x.func != "<entry>" and (k := u.cls.lookup(f.name)[0]) is not None and f.node in [g.node for _, g in accessors(f.name, k)]:
                out.append(("abstract", f"{u.cls.name}.{f.name}", f"a query on {u.cls.name} runs the abstract method {f.cls.name}.{f.name}, which {u.cls.name} does not implement", x.where))
        elif x.kind in ("attr_read", "method", "prop_read"):
            n["attributes"] = n.get("attributes", 0) + 1
        if x.kind not in KIND or x.info.get("maybe") or x.func == "<entry>" or excluded(x.module.name):
            continue
        if x.kind == "maybe_unbound" and not u.public:
            continue  # private helpers are judged with the arguments that public callers pass
        con, msg = describe(x)
        if x.kind == "none_attr":  # by the entry point, so that moving the use into a helper does not rename the finding
            con = f"None used by {u.f.cls.name + '.' if isinstance(u.f.cls, Cls) else u.module.name + ':'}{u.name}"
        out.append((KIND[x.kind], con, msg, x.where))
    if any(r == "abstract" for r, *_ in out):
        out = [o for o in out if not o[1].startswith("None used")]  # what an abstract method returns is reported there
    return out, n


def scopes(rep, eng, w):
    """Static scoping of every module (also code that no analysed path reaches)."""
    for mn, m in sorted(eng.modules.items()):
        if excluded(mn):
            continue
        ns = set(eng.module_ns(m))
        tree = m.tree
        star = any(isinstance(s, ast.ImportFrom) and any(a.name == "*" for a in s.names) for s in ast.walk(tree))
        top = symtable.symtable(m.src, m.rel, "exec")
        ns |= {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        declared = set()
        for s in ast.walk(tree):
            if isinstance(s, ast.Global):
                declared |= set(s.names)
        ns |= declared

        def walk(t, cls):
            if t.get_type() == "class":
                cls = t.get_name()
            for s in t.get_symbols():
                n = s.get_name()
                if not s.is_referenced() or s.is_local() and t.get_type() != "module" or s.is_free() or s.is_parameter():
                    continue
                if s.is_global() or t.get_type() == "module":
                    if n in ns or n in BUILTINS:
                        rep.obligation("names", f"{mn}: {n}")
                    elif star:
                        rep.open("names", f"{mn}: {n}", "star import")
                    else:
                        rep.violation("names", n, f"name '{n}' is not defined", f"{m.rel}:{t.get_lineno()} ({t.get_name()})")
            for c in t.get_children():
                if c.get_type() in ("annotation", "TypeVar bound", "type alias", "type parameter"):
                    continue
                walk(c, cls)
        walk(top, None)

        ctx = root_ctx(eng, m)
        for s in ast.walk(tree):
            if isinstance(s, ast.ImportFrom):
                base = eng.abs_module(s, m)
                tm = eng.modules.get(base)
                if tm is None:
                    if base and (base == "hazma" or base.startswith("hazma.")) and not eng.exists_native(base) and not os.path.isdir(os.path.join(eng.root, *base.split("."))):
                        rep.violation("imports", base, f"module {base} does not exist", f"{m.rel}:{s.lineno}")
                    continue
                for a in s.names:
                    if a.name == "*":
                        continue
                    i0 = len(eng.events)
                    eng.resolve_lazy(Lazy(base, a.name), State(), s, ctx)
                    bad = [x for x in eng.events[i0:] if x.kind == "import_missing"]
                    if bad:
                        rep.violation("imports", f"{base}.{a.name}", f"'{a.name}' is not defined in {base}", f"{m.rel}:{s.lineno}")
                    else:
                        rep.obligation("imports", f"{mn} <- {base}.{a.name}")
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split(".")[0] == "hazma" and a.name not in eng.modules and not eng.exists_native(a.name):
                        rep.violation("imports", a.name, f"module {a.name} does not exist", f"{m.rel}:{s.lineno}")
        for s in tree.body:
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name) and t.id == "__all__" and isinstance(s.value, (ast.List, ast.Tuple)):
                    for e in s.value.elts:
                        if isinstance(e, ast.Constant) and isinstance(e.value, str):
                            if e.value in ns or e.value in m.children:
                                rep.obligation("exports", f"{mn}.{e.value}")
                            elif not star:
                                rep.violation("exports", f"{mn}.{e.value}", f"'{e.value}' is exported but not defined", f"{m.rel}:{s.lineno}")


def classes(rep, eng, w):
    for c in w.classes:
        if is_protocol(c) or excluded(c.module.name) or w.children[id(c)] or not is_abc(c):
            continue
        left = abstract_members(c)
        if any(n in c.ns for n, _ in left):
            continue
        for n, k in left:
            rep.violation("abstract", f"{c.name}.{n}", f"class {c.name} does not implement abstract '{n}' of {k.name}, so it cannot be instantiated", f"{c.module.rel}:{c.node.lineno}")
        if not left:
            rep.obligation("abstract", c.name)


def run(rep, repo, tier):
    eng, w, us, out = sweep(repo, collect, budget=60000 if tier == "quick" else 1000000)
    for label, full, err, (xs, n) in out:
        if err:
            rep.open("calls", label, err)
        else:
            rep.count("functions and methods evaluated")
        for k, v in n.items():
            rep.count(k + " resolved", v)
            rep.instances.setdefault(k, {"decided": 0, "sample": []})["decided"] += v
        for rule, con, msg, where in xs:
            rep.violation(rule, con, msg, where, f"reached from {label}")
    scopes(rep, eng, w)
    classes(rep, eng, w)
    rep.count("modules", len([m for m in eng.modules if not excluded(m)]))
    rep.count("concrete classes", len(w.concrete()))
    rep.floor("names", 1000)
    rep.floor("imports", 200)
    rep.floor("calls", 1000)
