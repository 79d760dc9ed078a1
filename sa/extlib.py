"""Abstract semantics of the builtins and of the numpy/scipy functions the package uses."""
import ast
import math
import os

from .values import *
from .values import E
from . import interp as I
from .interp import (is_zero, is_wild, lits_of_num, pykey, CANNOT, dmul, dpow, literal, from_key)

PASS = {"abs", "absolute", "fabs", "real", "imag", "conj", "conjugate", "sum", "mean", "median", "max", "min", "amax", "amin", "nanmax", "nanmin", "squeeze",
        "asarray", "array", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "ravel", "copy", "float", "float64", "nan_to_num", "flip", "sort", "cumsum",
        "concatenate", "append", "stack", "hstack", "vstack", "expand_dims", "broadcast_to", "round", "ceil", "floor", "transpose", "reshape", "diff",
        "average", "nansum", "rint", "flatten", "array2string", "std", "real_if_close", "complex128", "complex", "int", "swapaxes", "moveaxis",
        "diag", "tile", "repeat", "float_", "trace", "roll", "unique", "column_stack", "row_stack", "sorted", "outer_", "triu", "tril", "fsum", "nanmean", "cumulative_trapezoid_"}
REDUCE = {"sum", "mean", "median", "max", "min", "amax", "amin", "nanmax", "nanmin", "average", "nansum", "std", "nanmean", "fsum"}
KEEP1 = {"abs", "absolute", "fabs", "real", "imag", "conj", "conjugate", "asarray", "array", "asanyarray", "ascontiguousarray", "atleast_1d", "ravel", "copy", "nan_to_num", "flip", "sort", "cumsum",
         "round", "ceil", "floor", "rint", "flatten", "real_if_close", "astype"}
ALIASING = {"asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "ravel", "squeeze", "expand_dims", "broadcast_to", "transpose", "reshape",
            "real", "swapaxes", "moveaxis", "nan_to_num_"}
ZEROS = {"zeros", "zeros_like"}
DIMLESS_ARG = {"exp", "expm1", "log", "log10", "log2", "log1p", "sin", "cos", "tan", "sinh", "cosh", "tanh", "arcsin", "arccos", "arctan", "arcsinh", "arccosh", "arctanh",
               "asin", "acos", "atan", "acosh", "asinh", "atanh", "spence", "k0", "k1", "k2", "kn", "k1e", "k0e", "kve", "kv", "kne", "erf", "erfc", "gamma", "expit", "zeta"}
BOOLF = {"isnan", "isinf", "isfinite", "any", "all", "isscalar", "allclose", "isclose", "array_equal", "callable", "hasattr", "issubclass", "isreal", "iscomplexobj", "isrealobj"}
FOLD = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "log10": math.log10, "sin": math.sin, "cos": math.cos, "abs": abs, "absolute": abs, "fabs": abs, "float": float}
MUTATING_NP = {"copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill_diagonal": 0, "shuffle": 0}


def num(v, eng, st):
    return v if isinstance(v, Num) else eng.numify(v, st)


def out_alias(eng, kw, node, ctx, st):
    o = kw.get("out")
    if o is not None:
        for x in (o.elems if isinstance(o, Tup) else (o,)):
            if isinstance(x, Num) and x.alias:
                eng.emit("mutate", node, ctx, alias=x.alias, how="out= argument", deps=x.deps)
            if isinstance(x, Ref) and eng.alias_of(x, st):
                eng.emit("mutate", node, ctx, alias=eng.alias_of(x, st), how="out= argument", deps=E)


RNGS = {"numpy.random.default_rng", "numpy.random.Generator", "numpy.random.RandomState", "random.Random", "scipy._lib._util.check_random_state",
        "numpy.random.mtrand.RandomState", "numpy.random._generator.default_rng"}


NONDET = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time",
          "os.urandom", "os.getpid", "builtins.id", "uuid.uuid4", "uuid.uuid1", "secrets.randbits", "secrets.randbelow", "secrets.token_bytes",
          "datetime.datetime.now", "threading.get_ident"}


def dyn_key(v):
    return ("name", fkey(v.form) if isinstance(v, Num) and v.form else str(v))


def dirty(eng, o, st):
    """Attributes of an object, by the (unknown) name used, that were assigned dynamically and not put back."""
    m = eng.get(st, o.id).attrs.get("*")
    return frozenset(d[1] for d in m.deps if d[0] == "dirty") if isinstance(m, Num) else E


def set_dirty(eng, o, st, keys):
    h = eng.get(st, o.id)
    at = {k: v for k, v in h.attrs.items() if k != "*"}
    if keys:
        at["*"] = unknown(deps=frozenset(("dirty", k) for k in keys))
    st.heap[o.id] = HObj(h.cls, at, h.lazy, h.label)


def dict_of_update(eng, h, st, items, rest, node, ctx):
    """An update of obj.__dict__: writes the attributes themselves."""
    o = Ref(h.origin[1])
    ho = eng.get(st, o.id)
    at = dict(ho.attrs)
    for k, v in items.items():
        if isinstance(k, str):
            if k != "*":
                eng.emit("setattr", node, ctx, cls=ho.cls, name=k, obj=o.id, value=v, old=at.get(k))
            at[k] = v
    if rest is None and "*" not in items and set(at) - {"*"} <= set(items):
        at.pop("*", None)
    st.heap[o.id] = HObj(ho.cls, at, ho.lazy, ho.label)
    if rest is not None:
        eng.emit("setattr_dynamic", node, ctx, obj=o.id, value=rest)
        set_dirty(eng, o, st, dirty(eng, o, st) | {"__dict__"})


def call_ext(eng, name, args, kw, st, ctx, node):
    eng.emit("ext_call", node, ctx, name=name, args=args, kw=kw)
    last = name.rpartition(".")[2]
    top = name.split(".")[0]
    out_alias(eng, kw, node, ctx, st)
    if name in NONDET:
        return unknown(deps=frozenset([("env", name)]), kind="scalar")
    r = paths(eng, name, last, args, kw, st, ctx, node)
    if r is not None:
        return r
    if top == "builtins":
        r = builtin(eng, last, args, kw, st, ctx, node)
        if r is not None:
            return r
    if top in ("rust", "rustext"):
        return rust_ext(eng, name, last, args, kw, st, ctx, node)
    if last == "partial" and args:
        return Partial(args[0], args[1:], dict(kw))
    if last in ("vectorize", "jit", "njit", "lru_cache", "cache", "wraps", "singledispatch", "contextmanager", "total_ordering", "overload", "final", "runtime_checkable", "no_type_check"):
        if args and isinstance(args[0], (Func, Partial, Alt)) and last != "wraps":
            if last in ("lru_cache", "cache") and isinstance(args[0], Func):
                f = args[0].bind(args[0].bound)
                f.attrs = dict(f.attrs, cached=True)
                return f
            return args[0]
        if last == "vectorize" and args:
            return args[0]
        return Ext("functools.lru_cache" if last in ("lru_cache", "cache") else "builtins._identity")
    if last == "_identity":
        return args[0] if args else unknown()
    if name in RNGS:
        if len(args) == 1 and isinstance(args[0], RngV):
            return args[0]
        return RngV(eng.deps_many(args, st) | eng.deps_many(kw.values(), st), "an unseeded generator" if all(isinstance(a, NoneV) for a in list(args) + list(kw.values())) else "a generator")
    if top == "copy" and last in ("copy", "deepcopy") and args:
        r = clone(eng, args[0], st, deep=last == "deepcopy")
        if last == "copy" and isinstance(r, Num):
            r.alias = frozenset([("copied", node.lineno)])
        if last == "copy" and (isinstance(r, Num) or isinstance(r, Ref) and eng.get(st, r.id).kind == "obj"):
            eng.emit("shallow_copy", node, ctx, obj=r.id if isinstance(r, Ref) else None, of=args[0], alias=r.alias if isinstance(r, Num) else E)
        return r
    if last in ("field",) and top == "dataclasses":
        if "default" in kw:
            return kw["default"]
        i = kw.get("init")
        k = kw.get("kw_only")
        return FieldV(kw.get("default"), kw.get("default_factory"), not (isinstance(i, Num) and i.const is False), isinstance(k, Num) and k.const is True)
    if last in ("namedtuple", "NewType", "TypeVar", "Enum"):
        return Ext(name + "()")
    if last == "cast" and top == "typing" and len(args) == 2:
        return args[1]
    if last == "reduce" and args:
        el = eng.elements(args[1], st) if len(args) > 1 else None
        if el is not None and el[1] is None and el[0] and len(el[0]) < 64:
            it = list(el[0])
            acc = args[2] if len(args) > 2 else it.pop(0)
            for x in it:
                acc = eng.call(args[0], [acc, x], {}, st, ctx, node)
            return acc
        eng.call_callable_unknown(args[0], st, ctx, node)
        return unknown(deps=eng.deps_many(args, st))
    if top == "operator":
        opm = {"mul": ast.Mult(), "add": ast.Add(), "sub": ast.Sub(), "truediv": ast.Div(), "pow": ast.Pow()}
        if last in opm and len(args) == 2:
            return eng.binop(opm[last], args[0], args[1], st, ctx, node)
    if top == "warnings" or top == "logging":
        return NONE
    if top in ("numpy", "math", "scipy", "cmath"):
        r = numlib(eng, name, last, args, kw, st, ctx, node)
        if r is not None:
            return r
    return generic(eng, name, args, kw, st, ctx, node)


READERS = {"loadtxt", "genfromtxt", "fromfile", "memmap", "read_csv", "read_table", "load", "open", "fromtxt", "loadmat", "read_text", "read_bytes"}


def path_of(eng, v, st):
    """Known text of a path argument."""
    if isinstance(v, Str):
        return v.s
    if isinstance(v, PathV):
        return v.p
    return None


def file_read(eng, v, st, ctx, node, how):
    """The file named by `v` is read: what is computed from it depends on it."""
    vs = v.vals if isinstance(v, Alt) else (v,)
    deps = E
    for x in vs:
        p = path_of(eng, x, st)
        rel = None
        if p is not None:
            a = os.path.normpath(os.path.join(eng.root, p))
            rel = os.path.relpath(a, eng.root)
            deps = deps | {("file", rel)}
        eng.emit("file_read", node, ctx, path=rel, how=how)
    return deps


def paths(eng, name, last, args, kw, st, ctx, node):
    top = name.split(".")[0]
    A = args
    known = [path_of(eng, a, st) for a in A]
    if top in ("pathlib", "importlib", "importlib_resources", "pkg_resources", "os", "posixpath"):
        if last in ("Path", "PurePath", "PosixPath") and A and all(k is not None for k in known):
            return PathV(os.path.join(*known))
        if last == "files" and A:
            pk = known[0] if known[0] is not None else (A[0].mod.name if isinstance(A[0], ModV) else None)
            if pk is not None:
                return PathV(os.path.join(eng.root, *pk.split(".")))
        if last in ("path", "resource_filename") and len(A) >= 2 and all(k is not None for k in known[:2]):
            return PathV(os.path.join(eng.root, *known[0].split("."), known[1])) if last == "path" else Str(os.path.join(eng.root, *known[0].split("."), known[1]))
        if last == "as_file" and A:
            return A[0]
        if last == "join" and A and all(k is not None for k in known):
            return Str(os.path.join(*known))
        if last in ("abspath", "realpath", "normpath", "expanduser", "fspath") and A and known[0] is not None:
            return Str(known[0])
        if last == "split" and name.endswith("path.split") and A and known[0] is not None:
            return Tup([Str(x) for x in os.path.split(known[0])])
        if last == "dirname" and A and known[0] is not None:
            return Str(os.path.dirname(known[0]))
        if last == "basename" and A and known[0] is not None:
            return Str(os.path.basename(known[0]))
    if last in READERS and (top in ("numpy", "pandas", "scipy", "builtins", "io", "gzip", "codecs")) and A:
        d = file_read(eng, A[0], st, ctx, node, last)
        r = unknown(deps=d | eng.deps_many(A, st))
        if last in ("loadtxt", "genfromtxt") and "usecols" not in kw:
            fs = [x[1] for x in d if x[0] == "file"]
            u = kw.get("unpack")
            if len(fs) == 1 and (u is None or isinstance(u, Num) and isinstance(u.const, bool)):
                r.kind = ("table", fs[0], u is not None and u.const)
        return r
    return None


def rust_ext(eng, name, last, args, kw, st, ctx, node):
    if name == "rust.err":
        raise I.Dead()
    if name == "rust.panic":
        eng.emit("rust_panic", node, ctx)
        raise I.Dead()
    if name.startswith("rustext.enum."):
        return Variant(name, dict({str(i): x for i, x in enumerate(args)}, **kw))
    if name == "rust.include":
        base = os.path.dirname(ctx.module.path)
        p = os.path.normpath(os.path.join(base, args[0].s)) if args and isinstance(args[0], Str) else None
        rel = os.path.relpath(p, os.path.abspath(eng.root)) if p else None
        eng.emit("file_read", node, ctx, path=rel, how="include")
        return unknown(deps=frozenset([("file", rel)]))
    if name == "rust.enum":
        return Ext("rustext.enum." + (args[0].s if args and isinstance(args[0], Str) else "?"))
    if name == "rust.map" and len(args) == 2:
        el = eng.elements(args[1], st) if not isinstance(args[1], Num) else None
        if el is not None and el[1] is None and len(el[0]) <= 64:
            return eng.alloc(st, HList([eng.call(args[0], [x], {}, st, ctx, node) for x in el[0]]))
        if el is not None:
            r = None
            for x in list(el[0]) + ([el[1]] if el[1] is not None else []):
                r = eng.join(r, eng.call(args[0], [x], {}, st, ctx, node), st)
            return eng.alloc(st, HList((), r if r is not None else unknown()))
        return eng.call(args[0], [args[1]], {}, st, ctx, node)
    if name == "rust.fold" and len(args) == 3:
        el = eng.elements(args[0], st)
        if el is not None and el[1] is None and len(el[0]) <= 64:
            acc = args[1]
            for x in el[0]:
                acc = eng.call(args[2], [acc, x], {}, st, ctx, node)
            return acc
    if name == "rust.mod" and len(args) == 2 and all(isinstance(a, Str) for a in args):
        from .interp import Lazy
        mod, nm = args[0].s, args[1].s
        if mod in eng.modules:
            ns = eng.module_ns(eng.modules[mod], st)
            if nm in ns:
                return eng.resolve_lazy(Lazy(mod, nm), st)
            if nm in eng.modules[mod].children:
                from .values import ModV
                return ModV(eng.modules[mod].children[nm])
        par, _, c = mod.rpartition(".")
        if par in eng.modules:
            ns = eng.module_ns(eng.modules[par], st)
            if c in ns:
                return eng.getattr(eng.resolve_lazy(Lazy(par, c), st), nm, st, ctx, node)
        return Ext("rustext." + mod + "." + nm)
    if name == "rust.update" and args:
        k = dict(kw)
        if isinstance(args[0], Cls) and len(args) > 1 and isinstance(args[1], Ref):
            h = eng.get(st, args[1].id)
            if h.kind == "obj":
                k = dict(h.attrs)
                k.update(kw)
        elif isinstance(args[0], Cls):
            return eng.instantiate(args[0], [], k, st, ctx, node, True)
        return eng.call(args[0], [], k, st, ctx, node)
    if last == "new" and name.split(".")[-2] in ("LazyLock", "OnceLock", "Lazy") and args:
        return eng.call(args[0], [], {}, st, ctx, node)
    return generic(eng, name, args, kw, st, ctx, node)


def generic(eng, name, args, kw, st, ctx, node):
    deps = eng.deps_many(args, st) | eng.deps_many(kw.values(), st)
    lin = {}
    for a in list(args) + list(kw.values()):
        for k, c in eng.lin_deep(a, st).items():
            lin[k] = (None, True)
        v = eng.call_callable_unknown(a, st, ctx, node)
        if v is not None:
            deps |= eng.deps_of(v, st)
            for k in eng.lin_deep(v, st):
                lin[k] = (None, True)
    return unknown(deps=deps, lin=lin)


def clone(eng, v, st, deep, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Num):
        return v.copy(alias=E)
    if isinstance(v, Tup):
        return Tup([clone(eng, x, st, deep, memo) if deep else x for x in v.elems])
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        h = eng.get(st, v.id)
        r = eng.alloc(st, h)
        memo[v.id] = r
        f = (lambda x: clone(eng, x, st, deep, memo)) if deep else (lambda x: x)
        if h.kind == "list":
            st.heap[r.id] = HList([f(x) for x in h.elems], f(h.rest) if h.rest is not None else None, E, h.typ)
        elif h.kind == "dict":
            st.heap[r.id] = HDict({k: f(x) for k, x in h.items.items()}, f(h.rest) if h.rest is not None else None, E, None)
        elif h.kind == "obj":
            at = {}
            for k, x in h.attrs.items():
                x = f(x)
                if isinstance(x, Func) and isinstance(x.bound, Ref) and x.bound.id == v.id and deep:
                    x = x.bind(r)
                at[k] = x
            st.heap[r.id] = HObj(h.cls, at, h.lazy, h.label)
        return r
    if isinstance(v, Func) and deep and isinstance(v.bound, Ref) and v.bound.id in memo:
        return v.bind(memo[v.bound.id])
    return v


def summary(eng, v, st):
    el = eng.elements(v, st)
    return el


def builtin(eng, f, args, kw, st, ctx, node):
    A = args
    if f in ("len",):
        el = eng.elements(A[0], st) if A and not isinstance(A[0], Num) else None
        if el is not None and el[1] is None:
            return literal(len(el[0]))
        eng.emit("len", node, ctx, arg=A[0] if A else None)
        return Num(dim=LIT, form={fresh_atom(): 1.0}, kind="scalar")
    if f == "range":
        cs = [a.const if isinstance(a, Num) else None for a in A]
        if all(isinstance(c, int) for c in cs) and cs and len(range(*cs)) <= 64:
            return eng.alloc(st, HList([literal(i) for i in range(*cs)]))
        return eng.alloc(st, HList((), Num(dim=LIT, form={fresh_atom(): 1.0}, deps=eng.deps_many(A, st), kind="scalar")))
    if f == "enumerate":
        el = eng.elements(A[0], st)
        s0 = A[1].const if len(A) > 1 and isinstance(A[1], Num) else 0
        if el is not None and el[1] is None:
            return eng.alloc(st, HList([Tup([literal(i + (s0 or 0)), x]) for i, x in enumerate(el[0])]))
        return eng.alloc(st, HList((), Tup([Num(dim=LIT, form={fresh_atom(): 1.0}, kind="scalar"), eng.element_of(A[0], st)])))
    if f == "zip":
        els = [eng.elements(a, st) for a in A]
        if els and all(e is not None and e[1] is None for e in els):
            return eng.alloc(st, HList([Tup(t) for t in zip(*[e[0] for e in els])]))
        return eng.alloc(st, HList((), Tup([eng.element_of(a, st) for a in A])))
    if f == "map":
        els = [eng.elements(a, st) for a in A[1:]]
        if els and all(e is not None and e[1] is None and len(e[0]) <= 64 for e in els):
            return eng.alloc(st, HList([eng.call(A[0], list(t), {}, st, ctx, node) for t in zip(*[e[0] for e in els])]))
        skip = st.fork()
        try:
            v = eng.call(A[0], [eng.element_of(a, st) for a in A[1:]], {}, st, ctx, node)
            eng.join_states(st, skip, (), ())
        except I.Dead:
            st.heap, st.path = skip.heap, skip.path
            v = unknown()
        return eng.alloc(st, HList((), v))
    if f == "filter":
        el = eng.elements(A[1], st)
        if el is not None and el[1] is None:
            out, ok = [], True
            for x in el[0]:
                t = eng.truth(eng.call(A[0], [x], {}, st, ctx, node), st)[0] if not isinstance(A[0], NoneV) else eng.truth(x, st)[0]
                if t is None:
                    ok = False
                if t is not False:
                    out.append(x)
            if ok:
                return eng.alloc(st, HList(out))
            r = None
            for x in out:
                r = eng.join(r, x, st)
            return eng.alloc(st, HList((), r or unknown()))
        return eng.alloc(st, HList((), eng.element_of(A[1], st)))
    if f == "sum":
        el = eng.elements(A[0], st)
        start = A[1] if len(A) > 1 else kw.get("start", literal(0))
        if el is not None and el[1] is None:
            r = start
            for x in el[0]:
                r = eng.binop(ast.Add(), r, x, st, ctx, node)
            return r
        x = eng.element_of(A[0], st)
        x = num(x, eng, st)
        return x.copy(const=x.const if is_zero(x) else None, form={fresh_atom(): 1.0}, alias=E, kind=None, lin={k: (None, True) for k in x.lin} if not isinstance(A[0], Num) else x.lin, cond=None)
    if f in ("min", "max"):
        xs = A
        if len(A) == 1:
            el = eng.elements(A[0], st)
            if el is None:
                x = num(eng.element_of(A[0], st), eng, st)
                return x.copy(const=None, alias=E, form={fresh_atom(): 1.0}, kind="scalar", cond=None)
            xs = list(el[0]) + ([el[1]] if el[1] is not None else [])
        if "key" in kw:
            r = None
            for x in xs:
                r = eng.join(r, x, st)
            return r if r is not None else unknown()
        return minmax(eng, f, xs, st, ctx, node)
    if f == "abs":
        return numlib(eng, "numpy.abs", "abs", A, kw, st, ctx, node)
    if f in ("float", "int", "complex", "round"):
        if not A:
            return literal(0)
        if isinstance(A[0], Str):
            try:
                return literal({"float": float, "int": int}[f](A[0].s))
            except Exception:
                return unknown(kind="scalar")
        x = num(A[0], eng, st)
        c = x.const
        try:
            c = {"float": float, "int": int, "round": round, "complex": complex}[f](c) if c is not None else None
        except Exception:
            c = None
        return x.copy(const=c, alias=E, kind="scalar", form=x.form if f in ("float",) else ({1: float(c)} if isinstance(c, (int, float)) else {fresh_atom(): 1.0}), dim=x.dim, cond=x.cond)
    if f == "bool":
        t, c = eng.truth(A[0], st) if A else (False, None)
        return literal(t) if t is not None else Num(dim=LIT, cond=c, deps=eng.deps_of(A[0], st), form={fresh_atom(): 1.0})
    if f in ("list", "tuple", "set", "sorted", "reversed", "frozenset", "iter"):
        if not A:
            return Tup([]) if f == "tuple" else eng.alloc(st, HList([], typ="set" if "set" in f else "list"))
        el = eng.elements(A[0], st)
        if el is not None:
            xs = list(el[0])
            if f == "reversed":
                xs.reverse()
            if f in ("set", "frozenset") and el[1] is None:
                seen, ys = set(), []
                for x in xs:
                    k = pykey(x)
                    if k is not CANNOT and k in seen:
                        continue
                    if k is not CANNOT:
                        seen.add(k)
                    ys.append(x)
                xs = ys
            if f == "sorted" and el[1] is None:
                ks = [pykey(x) for x in xs]
                if not kw and all(k is not CANNOT for k in ks):
                    try:
                        xs = [x for _, x in sorted(zip(ks, xs), key=lambda t: t[0])]
                    except Exception:
                        pass
                elif kw:
                    r = None
                    for x in xs:
                        r = eng.join(r, x, st)
                    if "key" in kw and xs:
                        eng.call_callable_unknown(kw["key"], st, ctx, node)
                    return eng.alloc(st, HList(xs))
            if f == "tuple" and el[1] is None:
                return Tup(xs)
            return eng.alloc(st, HList(xs, el[1], E, "set" if "set" in f else "list"))
        return eng.alloc(st, HList((), eng.element_of(A[0], st)))
    if f == "dict":
        items, rest = {}, None
        if A:
            if isinstance(A[0], Ref) and eng.get(st, A[0].id).kind == "dict":
                h = eng.get(st, A[0].id)
                items, rest = dict(h.items), h.rest
            else:
                el = eng.elements(A[0], st)
                if el is not None and el[1] is None:
                    for x in el[0]:
                        e2 = eng.elements(x, st)
                        if e2 and len(e2[0]) == 2 and pykey(e2[0][0]) is not CANNOT:
                            items[pykey(e2[0][0])] = e2[0][1]
                        else:
                            rest = unknown()
                else:
                    rest = unknown()
        items.update(kw)
        return eng.alloc(st, HDict(items, rest))
    if f in ("isinstance", "issubclass"):
        r = isinst(eng, A[0], A[1], st) if len(A) == 2 and f == "isinstance" else None
        if r is None:
            key = ("isinst", I.fkey(A[0].form) if isinstance(A[0], Num) and A[0].form else id(A[0]), ast.unparse(node.args[1]) if isinstance(node, ast.Call) and len(node.args) > 1 else "")
            return Num(dim=LIT, cond=("lit", Lit("opaque", tok=key)), form={fresh_atom(): 1.0})
        return literal(r)
    if f == "hasattr":
        o, n = A[0], A[1].s if isinstance(A[1], Str) else None
        if isinstance(o, Num):
            if o.kind == "array" and n in ("__len__", "__iter__", "shape"):
                return literal(True)
            if o.kind == "scalar" or (o.const is not None):
                return literal(False)
            return Num(dim=LIT, cond=("lit", Lit("opaque", tok=("hasattr", I.fkey(o.form) if o.form else id(o), n))), form={fresh_atom(): 1.0})
        if isinstance(o, Ref) and n:
            h = eng.get(st, o.id)
            if h.kind == "obj" and h.cls is not None:
                return literal(n in h.attrs or h.cls.lookup(n)[0] is not None) if not h.lazy else unknown()
            return literal(n in ("__len__", "__iter__", "append", "keys", "__getitem__"))
        if isinstance(o, (Tup, Str)):
            return literal(n in ("__len__", "__iter__", "__getitem__"))
        return Num(dim=LIT, form={fresh_atom(): 1.0})
    if f == "getattr":
        if isinstance(A[1], Str):
            if len(A) > 2 and isinstance(A[0], Ref):
                h = eng.get(st, A[0].id)
                if h.kind == "obj" and not h.lazy and A[1].s not in h.attrs and h.cls and h.cls.lookup(A[1].s)[0] is None:
                    return A[2]
            return eng.getattr(A[0], A[1].s, st, ctx, node)
        r = unknown(deps=eng.deps_of(A[0], st))
        if isinstance(A[0], Ref) and eng.get(st, A[0].id).kind == "obj" and dyn_key(A[1]) not in dirty(eng, A[0], st):
            r.form = {("getattr", A[0].id, dyn_key(A[1])): 1.0}
        return r
    if f == "setattr":
        if isinstance(A[1], Str):
            eng.setattr(A[0], A[1].s, A[2], st, ctx, node)
        else:
            eng.emit("setattr_dynamic", node, ctx, obj=A[0].id if isinstance(A[0], Ref) else None, value=A[2])
            if isinstance(A[0], Num) and A[0].alias:
                eng.emit("mutate", node, ctx, alias=A[0].alias, how="attribute assignment", deps=A[0].deps)
            if isinstance(A[0], Ref) and eng.get(st, A[0].id).kind == "obj":
                k = dyn_key(A[1])
                back = isinstance(A[2], Num) and A[2].form is not None and list(A[2].form) == [("getattr", A[0].id, k)]
                set_dirty(eng, A[0], st, dirty(eng, A[0], st) - {k} if back else dirty(eng, A[0], st) | {k})
        return NONE
    if f in ("any", "all"):
        el = eng.elements(A[0], st)
        if el is not None and el[1] is None:
            ts = [eng.truth(x, st) for x in el[0]]
            if f == "any" and any(t[0] is True for t in ts):
                return literal(True)
            if f == "all" and any(t[0] is False for t in ts):
                return literal(False)
            rest = [t for t in ts if t[0] is None]
            if not rest:
                return literal(f == "all")
            return Num(dim=LIT, cond=("or" if f == "any" else "and", tuple(t[1] for t in rest if t[1] is not None)), deps=eng.deps_of(A[0], st), form={fresh_atom(): 1.0})
        return Num(dim=LIT, cond=("lit", Lit("opaque", tok=(f, fresh_atom()[2]))), form={fresh_atom(): 1.0})
    if f == "next":
        el = eng.elements(A[0], st)
        if el is not None and el[0]:
            return el[0][0]
        return eng.element_of(A[0], st)
    if f == "type":
        if A and isinstance(A[0], Ref):
            h = eng.get(st, A[0].id)
            if h.kind == "obj":
                return h.cls
        return unknown()
    if f == "vars" and A and isinstance(A[0], Ref) and eng.get(st, A[0].id).kind == "obj":
        return eng.getattr(A[0], "__dict__", st, ctx, node)
    if f == "str" and A and isinstance(A[0], PathV):
        return Str(A[0].p)
    if f in ("print", "repr", "id", "hash", "open", "input", "vars", "dir", "format", "divmod", "slice", "ord", "chr"):
        return unknown(deps=eng.deps_many(A, st))
    if f == "str" and len(A) == 1 and isinstance(A[0], EnumVal):
        g = eng.getattr(A[0], "__str__", st, ctx, node)
        return eng.call(g, [], {}, st, ctx, node) if isinstance(g, Func) else unknown()
    if f == "str":
        return A[0] if A and isinstance(A[0], Str) else unknown()
    if f == "pow" and len(A) == 2:
        return eng.binop(ast.Pow(), A[0], A[1], st, ctx, node)
    if f == "callable":
        if A and isinstance(A[0], (Func, Cls, Partial, Method)):
            return literal(True)
        if A and isinstance(A[0], (Str, NoneV, Tup)):
            return literal(False)
        return Num(dim=LIT, form={fresh_atom(): 1.0})
    if f in I.EXC or f in ("object",):
        return unknown()
    return None


def minmax(eng, f, xs, st, ctx, node):
    r = None
    for x in xs:
        x = num(x, eng, st)
        if r is None:
            r = x
            continue
        d = eng.unify(r, x, ctx, node, f)
        c = None
        if isinstance(r.const, (int, float)) and isinstance(x.const, (int, float)):
            c = (min if f in ("min", "minimum", "fmin") else max)(r.const, x.const)
        nz = E
        for u, v in ((r, x), (x, r)):
            if is_zero(u) and v.form:
                nz = frozenset([Lit("pos", form=v.form if f in ("max", "maximum", "fmax") else {k: -c_ for k, c_ in v.form.items()})])
                if v.nz is not ALL:
                    nz = nz | v.nz
        if c == 0:
            nz = ALL
        if eng.open_forms and c is None and r.form and x.form:
            big = f in ("max", "maximum", "fmax")
            if big and is_zero(r) != is_zero(x):
                form = x.form if is_zero(r) else r.form  # the formula where the quantity is not cut off
            else:
                form = {("in", f"{f} of {I.shash((I.fkey(r.form), I.fkey(x.form)))}"): 1.0}
            r = Num(c, d, form, None, nz, r.deps | x.deps, E, None, None)
            continue
        r = Num(c, d, {1: float(c)} if c is not None else {("h", I.shash((f, I.fkey(r.form or {}), I.fkey(x.form or {})))): 1.0}, None, nz, r.deps | x.deps, E, None, None)
    return r if r is not None else unknown()


def isinst(eng, o, t, st):
    if isinstance(t, Tup):
        rs = [isinst(eng, o, x, st) for x in t.elems]
        return True if True in rs else (None if None in rs else False)
    n = t.name.split(".")[-1] if isinstance(t, Ext) else None
    if isinstance(o, Ref):
        h = eng.get(st, o.id)
        if h.kind == "obj":
            if isinstance(t, Cls):
                return any(c.node is t.node for c in h.cls.mro())
            return None if n not in ("str", "int", "float", "list", "dict", "tuple", "ndarray") else False
        if isinstance(t, Cls):
            return False
        k = {"list": ("list", "Iterable", "Sequence"), "dict": ("dict", "Iterable", "Mapping")}[h.kind]
        if h.kind == "list" and h.typ == "set":
            k = ("set", "Iterable")
        return n in k if n in ("list", "dict", "tuple", "str", "int", "float", "ndarray", "Iterable", "Sequence", "Mapping", "set", "complex") else None
    if isinstance(o, Str):
        return n in ("str", "Iterable", "Sequence") if n is not None else (False if isinstance(t, Cls) else None)
    if isinstance(o, Tup):
        return n in ("tuple", "Iterable", "Sequence") if n is not None else False
    if isinstance(o, NoneV):
        return False if n != "NoneType" else True
    if isinstance(o, EnumVal):
        return o.cls.node is t.node if isinstance(t, Cls) else False
    if isinstance(o, Func):
        return False if n in ("str", "int", "float", "list", "dict", "tuple", "ndarray") else None
    if isinstance(o, Num):
        if isinstance(t, Cls):
            return False if (o.const is not None or o.kind is not None or o.dim is not None) else None
        if n == "str":
            return False if (o.const is not None or o.kind is not None or o.dim is not None) else None
        if o.kind == "scalar" or (o.const is not None and o.kind != "array"):
            if n in ("ndarray", "list", "dict", "tuple", "Iterable", "Sequence"):
                return False
            if n == "float" and (isinstance(o.const, float) or eng.exact and o.const is None and o.kind == "scalar"):
                return True
        if o.kind == "array":
            if n in ("ndarray", "Iterable"):
                return True
            if n in ("float", "int", "list", "dict", "tuple", "str"):
                return False
    return None


# leading parameters of numerical functions that may be passed by keyword
SIG = {"trapezoid": ("y", "x", "dx"), "trapz": ("y", "x", "dx"), "simpson": ("y", "x", "dx"), "simps": ("y", "x", "dx"), "interp": ("x", "xp", "fp"),
       "where": ("condition", "x", "y"), "linspace": ("start", "stop", "num"), "geomspace": ("start", "stop", "num"), "logspace": ("start", "stop", "num"),
       "zeros_like": ("a",), "ones_like": ("a",), "array": ("object",), "asarray": ("a",), "isscalar": ("element",), "stack": ("arrays",),
       "concatenate": ("arrays",), "take": ("a", "indices"), "expand_dims": ("a", "axis"), "quad": ("func", "a", "b"), "full_like": ("a", "fill_value"),
       "full": ("shape", "fill_value"), "clip": ("a", "a_min", "a_max"), "copy": ("a",), "squeeze": ("a",), "dot": ("a", "b"), "diff": ("a",)}


def numlib(eng, name, f, args, kw, st, ctx, node):
    A = args
    if f in SIG and kw and len(A) < len(SIG[f]):
        A = list(A)
        kw = dict(kw)
        for n in SIG[f][len(A):]:
            if n not in kw:
                break
            A.append(kw.pop(n))
        args = A
    deps = eng.deps_many(A, st) | eng.deps_many(kw.values(), st)
    if f in MUTATING_NP and A:
        al = eng.alias_of(A[0], st)
        if al:
            eng.emit("mutate", node, ctx, alias=al, how=f"np.{f}", deps=E)
        return NONE
    if f == "at" and len(A) >= 2:
        al = eng.alias_of(A[0], st)
        if al:
            eng.emit("mutate", node, ctx, alias=al, how=name, deps=E)
        return NONE
    if f in ZEROS:
        r = Num(0.0, LIT, {1: 0.0}, None, ALL, E, E, None, "array")
        sh = A[0] if A else kw.get("shape")
        if f == "zeros" and isinstance(sh, (Tup, Ref)):
            el = eng.elements(sh, st)
            rest = el is None or len(el[0]) > 1 or el[1] is not None
            sh = el[0][0] if el is not None and el[0] else None
            if isinstance(sh, Num) and isinstance(sh.const, int) and 2 <= sh.const <= 4 and rest:
                r.poly = tuple(Num(0.0, LIT, {1: 0.0}, None, ALL, E, E, None, "array") for _ in range(sh.const))
        elif f == "zeros" and isinstance(sh, Num) and isinstance(sh.const, int) and not isinstance(sh.const, bool) and 2 <= sh.const <= 8:
            r.poly = tuple(Num(0.0, LIT, {1: 0.0}, None, ALL, E, E, None, "scalar") for _ in range(sh.const))
        return r
    if f in ("ones", "ones_like"):
        return Num(1.0, LIT, {1: 1.0}, None, E, E, E, None, "array")
    if f in ("eye", "identity"):
        return Num(None, LIT, {fresh_atom(): 1.0}, kind="array")
    if f in ("empty", "empty_like"):
        return unknown(kind="array")
    if f in ("full", "full_like") and len(A) >= 2:
        x = num(A[1], eng, st)
        return x.copy(kind="array", alias=E)
    if f == "array" and A or f == "asarray" and A:
        v = A[0]
        if isinstance(v, (Tup, Ref)):
            h = eng.get(st, v.id) if isinstance(v, Ref) else None
            if h is None or h.kind == "list":
                el = eng.elements(v, st)
                small = tuple(el[0]) if el is not None and el[1] is None and 0 < len(el[0]) <= 16 and all(isinstance(y, Num) and y.kind == "scalar" for y in el[0]) else None
                if el is not None and el[1] is None and el[0] and all(isinstance(x, Num) and (x.const is not None) for x in el[0]):
                    x = num(v, eng, st)
                    r = Num(x.const, x.dim, {fresh_atom(): 1.0}, None, E if not is_zero(x) else ALL, deps, E, None, "array")
                    r.poly = small
                    return r
                x = num(v, eng, st)
                # elementwise content: the union of the kernels of the entries
                r = x.copy(kind="array", alias=E, lin=eng.lin_deep(v, st), deps=deps, cond=None)
                r.poly = small
                if el is not None and not el[0] and isinstance(el[1], Num) and el[1].poly is not None:
                    r.poly1 = el[1].poly
                return r
    if f in PASS and A:
        v = A[0]
        if f in ("append", "concatenate", "stack", "hstack", "vstack", "column_stack"):
            xs = A[:2] if f == "append" else [A[0]]
            r = None
            rows = None
            lin = {}
            for x in xs:
                k, c = (eng.elements(x, st) or ((x,), None)) if not isinstance(x, Num) else ((x,), None)
                for kk, cc in eng.lin_deep(x, st).items():
                    lin[kk] = cc if kk not in lin or lin[kk] == cc else (None, True)
                if f == "stack" and not k and isinstance(c, Num) and c.poly is not None and not (isinstance(kw.get("axis"), Num) and kw["axis"].const != 0):
                    rows = c.poly
                for y in k + ((c,) if c is not None else ()):
                    y = num(y, eng, st)
                    r = y if r is None else eng.join_num(r, y)
            r = r if r is not None else unknown(deps=deps)
            r = r.copy(alias=E, deps=deps, const=r.const if is_zero(r) else None, form={fresh_atom(): 1.0}, kind="array", cond=None, lin=lin)
            r.poly1 = rows
            return r
        if f == "sum" and len(A) == 1 and "axis" not in kw:
            el = eng.elements(v, st)
            if el is not None and el[1] is None and el[0] and all(isinstance(y, Num) and y.kind == "scalar" for y in el[0]):
                r = el[0][0]
                for y in el[0][1:]:
                    r = eng.binop(ast.Add(), r, y, st, ctx, node)
                return r
        x = num(v, eng, st)
        c = x.const
        fl = FOLD.get(f)
        if c is not None and fl is not None and not isinstance(c, bool):
            try:
                c = fl(c)
            except Exception:
                c = None
        elif f in ("abs", "absolute"):
            c = None if not is_zero(x) else 0
        elif f in ("ceil", "floor", "round", "int", "diff", "cumsum", "mean", "max", "min", "amax", "amin", "std", "median") and not is_zero(x):
            c = None
        alias = x.alias if f in ALIASING else E
        if f == "array" and isinstance(kw.get("copy"), Num) and kw["copy"].const is False:
            alias = x.alias
        keepf = f in ALIASING or f in ("array", "copy", "float", "float64", "complex128", "sort", "flatten", "real", "expand_dims", "squeeze", "nan_to_num", "flip")
        form = x.form if keepf else ({1: float(c)} if isinstance(c, (int, float)) and not isinstance(c, bool) else {("f", f, I.fkt(x.form)) if x.form is not None and I.size(I.fkt(x.form), I.CLIP[0]) < I.CLIP[0] * 80 // 150 else fresh_atom(): 1.0})
        lin = x.lin
        if not isinstance(v, Num):
            lin = eng.lin_deep(v, st)
        if f == "sum" and not isinstance(v, Num) :
            el = eng.elements(v, st)
            if el is not None and el[1] is None:
                lin = {}
                for y in el[0]:
                    lin = I.lin_add(lin, eng.lin_deep(y, st))
        kind = "array" if f in ("asarray", "array", "atleast_1d", "atleast_2d", "asanyarray", "ravel", "broadcast_to", "expand_dims", "diff", "cumsum", "flip", "sort") else ("scalar" if f in ("float", "float64", "max", "min", "amax", "amin", "complex128") else x.kind)
        if f == "atleast_1d" and x.kind == "scalar" and isinstance(v, Num):
            kind = VECTOR
        if isinstance(x.kind, Vec):
            kind = ("scalar" if "axis" not in kw and len(A) == 1 else None) if f in REDUCE else x.kind if f in KEEP1 and isinstance(v, Num) else "array"
        if isinstance(v, Num) and f in ("asarray", "array") and x.const is not None:
            kind = "array"
        nz = lits_of_num(x)
        r = Num(c, x.dim if f != "diff" else x.dim, form, lin, nz, x.deps | (deps if not isinstance(v, Num) else E), alias, x.cond if keepf else None, kind)
        if f in ("array", "asarray", "atleast_1d"):
            el = eng.elements(v, st)
            if el is not None and el[1] is None and 0 < len(el[0]) <= 16 and all(isinstance(y, Num) and y.kind == "scalar" for y in el[0]):
                r.poly = tuple(el[0])
        if f == "sum" and isinstance(v, Num) and v.poly is not None and v.poly1 is None and (len(A) == 1 and set(kw) <= {"axis"}) and (not kw or isinstance(kw["axis"], Num) and kw["axis"].const == 0) and all(isinstance(y, Num) for y in v.poly):
            n = len(eng.events)
            t = v.poly[0]
            for y in v.poly[1:]:
                t = eng.arith(ast.Add(), t, y, ctx, node)
            del eng.events[n:]
            r.form = t.form
        return r
    if f in ("sqrt", "csqrt") and A:
        x = num(A[0], eng, st)
        c = None
        if isinstance(x.const, (int, float)) and x.const >= 0:
            c = math.sqrt(x.const)
        form = {1: c} if c is not None else ({("pow", I.fkt(x.form), 0.5): 1.0} if x.form else {fresh_atom(): 1.0})
        if c is None and x.form and len(x.form) == 1:
            (k, v), = x.form.items()
            if isinstance(k, tuple) and k[0] == "pow" and k[2] == 2 and v > 0:
                form = {a: cc * math.sqrt(v) for a, cc in k[1]}
        return Num(c, dpow(x.dim, 0.5), I.clip(form), {k: (None, True) for k in x.lin}, lits_of_num(x), x.deps, E, None, x.kind)
    if f in ("square",) and A:
        return eng.binop(ast.Pow(), num(A[0], eng, st), literal(2), st, ctx, node)
    if f in ("cbrt",) and A:
        x = num(A[0], eng, st)
        return Num(None, dpow(x.dim, 1 / 3), {fresh_atom(): 1.0}, None, lits_of_num(x), x.deps)
    if f in ("power", "float_power") and len(A) == 2:
        return eng.binop(ast.Pow(), A[0], A[1], st, ctx, node)
    bop = {"add": ast.Add(), "subtract": ast.Sub(), "multiply": ast.Mult(), "divide": ast.Div(), "true_divide": ast.Div(), "mod": ast.Mod(), "fmod": ast.Mod(),
           "matmul": ast.Mult(), "dot": ast.Mult(), "inner": ast.Mult(), "outer": ast.Mult(), "vdot": ast.Mult(), "cross": ast.Mult()}
    if f in bop and len(A) >= 2:
        return eng.binop(bop[f], A[0], A[1], st, ctx, node)
    if f == "negative" and A:
        return eng.binop(ast.Mult(), literal(-1), A[0], st, ctx, node)
    if f == "reciprocal" and A:
        return eng.binop(ast.Div(), literal(1), A[0], st, ctx, node)
    if f in DIMLESS_ARG and A:
        a = A[-1] if f in ("kn", "kv", "kve") else A[0]
        x = num(a, eng, st)
        if x.dim not in (None, LIT, D0) and not is_wild(x):
            eng.emit("dim_arg", node, ctx, fn=f, dim=x.dim)
        c = None
        if isinstance(x.const, (int, float)) and f in FOLD:
            try:
                c = FOLD[f](x.const)
            except Exception:
                c = None
        tag = f
        if f in ("kn", "kv", "kve"):
            o = num(A[0], eng, st).const if len(A) > 1 else None
            tag = f"k{int(o)}" if f != "kve" and isinstance(o, (int, float)) and o == int(o) else None
        def closed(y):
            c = c0 if y is x else None
            if y is not x and isinstance(y.const, (int, float)) and f in FOLD:
                try:
                    c = FOLD[f](y.const)
                except Exception:
                    c = None
            return Num(c, D0 if y.dim is not LIT else LIT, {1: float(c)} if c is not None else {("f", tag, I.fkt(y.form)) if tag is not None and y.form is not None and I.size(I.fkt(y.form), I.CLIP[0]) < I.CLIP[0] * 80 // 150 else fresh_atom(): 1.0}, None, E, deps, E, None, y.kind)
        c0 = c
        r = closed(x)
        if x.poly is not None and x.poly1 is None and all(isinstance(y, Num) for y in x.poly):
            r.poly = tuple(closed(y) for y in x.poly)
        return r
    if f in ("arctan2", "atan2", "heaviside", "sign"):
        if len(A) == 2 and f != "heaviside":
            eng.unify(num(A[0], eng, st), num(A[1], eng, st), ctx, node, f)
        if f == "heaviside":
            x = num(A[0], eng, st)
            nz = frozenset([Lit("pos", form=x.form)]) if x.form else E
            return Num(None, LIT, {fresh_atom(): 1.0}, None, nz, deps)
        return Num(None, LIT, {fresh_atom(): 1.0}, None, E, deps)
    if f == "hypot" and len(A) == 2:
        return Num(None, eng.unify(num(A[0], eng, st), num(A[1], eng, st), ctx, node, f), {fresh_atom(): 1.0}, None, E, deps)
    if f in ("maximum", "minimum", "fmax", "fmin") and len(A) == 2:
        return minmax(eng, f, A, st, ctx, node)
    if f == "clip" and A:
        x = num(A[0], eng, st)
        for y in A[1:]:
            if isinstance(y, Num):
                eng.unify(x, y, ctx, node, f)
        lo = A[1] if len(A) > 1 else (kw.get("a_min") or kw.get("min"))
        nz = E
        if isinstance(lo, Num) and is_zero(lo) and x.form:
            nz = frozenset([Lit("pos", form=x.form)]) | (x.nz if x.nz is not ALL else E)
            hi = A[2] if len(A) > 2 else (kw.get("a_max") or kw.get("max"))
            if eng.open_forms and (hi is None or hi is NONE):
                return x.copy(const=None, alias=E, deps=deps, nz=nz, cond=None)
        return x.copy(const=None, alias=E, form={fresh_atom(): 1.0}, deps=deps, nz=nz, cond=None)
    if f in ("logical_and", "logical_or", "bitwise_and", "bitwise_or") and len(A) == 2:
        a, b = num(A[0], eng, st), num(A[1], eng, st)
        if a.cond is not None and b.cond is not None:
            return Num(None, LIT, {fresh_atom(): 1.0}, None, E, deps, E, ("and" if "and" in f else "or", (a.cond, b.cond)), "array")
        for x, y in ((a, b), (b, a)):
            if x.const is not None:
                if bool(x.const) == ("and" in f):
                    return y
                return x
        return Num(None, LIT, {fresh_atom(): 1.0}, None, E, deps, E, ("and" if "and" in f else "or", tuple(z.cond if z.cond is not None else ("unk", 0) for z in (a, b))), "array")
    if f in ("logical_not", "invert", "bitwise_not") and A:
        a = num(A[0], eng, st)
        return Num(not a.const if a.const is not None else None, LIT, {fresh_atom(): 1.0}, None, E, deps, E, ("not", a.cond) if a.cond else None, a.kind)
    if f in ("greater", "less", "greater_equal", "less_equal", "equal", "not_equal") and len(A) == 2:
        op = {"greater": ast.Gt(), "less": ast.Lt(), "greater_equal": ast.GtE(), "less_equal": ast.LtE(), "equal": ast.Eq(), "not_equal": ast.NotEq()}[f]
        return eng.compare(op, A[0], A[1], st, ctx, node)
    if f in ("allclose", "array_equal", "isclose") and len(A) >= 2:
        r = eng.compare_eq(A[0], A[1], st)
        if r is None:
            ea, eb = eng.elements(A[0], st), eng.elements(A[1], st)
            if ea and eb and ea[1] is None and eb[1] is None and f != "isclose":
                rs = [eng.compare_eq(x, y, st) for x, y in zip(ea[0], eb[0])]
                r = False if len(ea[0]) != len(eb[0]) and f == "array_equal" or False in rs else (True if all(q is True for q in rs) else None)
        if r is not None:
            return literal(r)
    if f in BOOLF:
        x = num(A[0], eng, st) if A else unknown()
        if f in ("any", "all") and x.cond is not None and x.kind == "scalar":
            return x
        if f == "isscalar" and A:
            if isinstance(A[0], Num):
                if A[0].kind == "array":
                    return literal(False)
                if A[0].kind == "scalar" or A[0].const is not None:
                    return literal(True)
            elif isinstance(A[0], (Ref, Tup)):
                return literal(False)
            elif isinstance(A[0], Str):
                return literal(True)
        tok = (f, I.fkey(x.form)) if x.form else (f, fresh_atom()[2])
        if f in ("any", "all") and x.cond is not None:
            # np.all(mask) true implies the mask; np.any(mask) false implies its negation
            sub = x.cond
            l = Lit("opaque", tok=tok)
            return Num(None, LIT, {fresh_atom(): 1.0}, None, E, deps, E, ("and", (sub, ("lit", l))) if f == "all" else ("or", (sub, ("lit", l))))
        return Num(None, LIT, {fresh_atom(): 1.0}, None, E, deps, E, ("lit", Lit("opaque", tok=tok)))
    if f == "where":
        if len(A) == 3:
            c = num(A[0], eng, st)
            t, cc = eng.truth(c, st) if c.cond is not None or c.const is not None else (None, c.cond)
            a, b = num(A[1], eng, st), num(A[2], eng, st)
            if t is True and c.const is not None:
                return a
            if t is False and c.const is not None:
                return b
            eng.unify(a, b, ctx, node, "where")
            r = eng.join_num(a, b, tuple(cond_lits(c.cond, True)), tuple(cond_lits(c.cond, False)))
            return r.copy(alias=E, deps=r.deps | c.deps, kind="array" if "array" in (a.kind, b.kind, c.kind) else None)
        return Num(None, LIT, {fresh_atom(): 1.0}, None, E, deps)
    if f == "select" and len(A) >= 2:
        cs, vs = eng.elements(A[0], st), eng.elements(A[1], st)
        d = A[2] if len(A) > 2 else kw.get("default", literal(0))
        if cs and vs:
            r = num(d, eng, st)
            for c, v in reversed(list(zip(cs[0], vs[0]))):
                c, v = num(c, eng, st), num(v, eng, st)
                eng.unify(v, r, ctx, node, "select")
                r = eng.join_num(v, r, tuple(cond_lits(c.cond, True)), tuple(cond_lits(c.cond, False)))
            return r.copy(alias=E)
        return unknown(deps=deps)
    if f == "piecewise" and len(A) >= 3:
        x = num(A[0], eng, st)
        cs, fs = eng.elements(A[1], st), eng.elements(A[2], st)
        if cs and fs and cs[1] is None and fs[1] is None:
            r = literal(0) if len(fs[0]) == len(cs[0]) else eng.call(fs[0][-1], [x], {}, st, ctx, node) if not isinstance(fs[0][-1], Num) else fs[0][-1]
            for c, fn in reversed(list(zip(cs[0], fs[0]))):
                c = num(c, eng, st)
                v = fn if isinstance(fn, Num) else num(eng.call(fn, [x], {}, st, ctx, node), eng, st)
                r = eng.join_num(v, num(r, eng, st), tuple(cond_lits(c.cond, True)), tuple(cond_lits(c.cond, False)))
            return r.copy(alias=E)
    if f in ("linspace", "arange"):
        a = [num(x, eng, st) for x in A[:2]]
        d = eng.unify(a[0], a[1], ctx, node, f) if len(a) == 2 else a[0].dim
        return Num(None, d, {fresh_atom(): 1.0}, None, E, deps, E, None, "array")
    if f == "geomspace":
        a = [num(x, eng, st) for x in A[:2]]
        d = eng.unify(a[0], a[1], ctx, node, f)
        return Num(None, d, {fresh_atom(): 1.0}, None, E, deps, E, None, "array")
    if f == "logspace":
        for x in A[:2]:
            x = num(x, eng, st)
            if x.dim not in (None, LIT, D0):
                eng.emit("dim_arg", node, ctx, fn=f, dim=x.dim)
        return Num(None, None, {fresh_atom(): 1.0}, None, E, deps, E, None, "array")
    if f in ("trapz", "trapezoid", "simps", "simpson", "cumulative_trapezoid", "cumtrapz") and A:
        y = num(A[0], eng, st)
        x = A[1] if len(A) > 1 else kw.get("x", kw.get("dx"))
        xd = num(x, eng, st).dim if x is not None else LIT
        r = Num(0 if is_zero(y) else None, dmul(y.dim, xd), {fresh_atom(): 1.0}, y.lin, lits_of_num(y), deps)
        if y.poly1 is not None and isinstance(kw.get("axis"), Num) and kw["axis"].const == 0:
            r.poly = tuple(Num(0 if is_zero(z) else None, dmul(z.dim, xd), {fresh_atom(): 1.0}, z.lin, lits_of_num(z), z.deps | (eng.deps_of(x, st) if x is not None else E)) for z in y.poly1)
        return r
    if f in ("quad", "quad_vec", "fixed_quad", "romberg", "quadrature") and len(A) >= 3:
        lo, hi = num(A[1], eng, st), num(A[2], eng, st)
        xd = eng.unify(lo, hi, ctx, node, f)
        if xd is LIT and is_wild(lo) and is_wild(hi):
            xd = None
        if is_wild(lo) and not is_wild(hi):
            xd = hi.dim
        x = Num(None, xd, {fresh_atom("x"): 1.0}, None, E, lo.deps | hi.deps, E, None, "scalar")
        extra = kw.get("args")
        more = []
        if extra is not None:
            el = eng.elements(extra, st)
            if el is not None and not isinstance(extra, Num):
                more = list(el[0])
            elif isinstance(extra, Num) and extra.kind == "scalar":
                more = [extra]
            else:                       # a tuple of unknown length: as many as the integrand needs
                more = [unknown() for _ in range(max(required_args(A[0]) - 1, 0))]
        r = safe_call(eng, A[0], [x] + more, st, ctx, node)
        r = num(r, eng, st)
        out = Num(0 if is_zero(r) else None, dmul(r.dim, xd) if r.dim is not None and xd is not None else None, {fresh_atom(): 1.0}, r.lin, lits_of_num(r), deps | r.deps, E, None, "scalar")
        return Tup([out, unknown(dim=out.dim)])
    if f in ("dblquad", "nquad") and len(A) >= 2:
        if f == "dblquad" and len(A) >= 5:
            lo, hi = num(A[1], eng, st), num(A[2], eng, st)
            x = Num(None, eng.unify(lo, hi, ctx, node, f), {fresh_atom("x"): 1.0}, None, E, lo.deps | hi.deps)

            def lim(v):
                return num(safe_call(eng, v, [x], st, ctx, node), eng, st) if isinstance(v, (Func, Partial)) else num(v, eng, st)
            l2, h2 = lim(A[3]), lim(A[4])
            y = Num(None, eng.unify(l2, h2, ctx, node, f), {fresh_atom("y"): 1.0}, None, E, l2.deps | h2.deps)
            more = []
            if "args" in kw:
                el = eng.elements(kw["args"], st)
                more = list(el[0]) if el else []
            r = num(safe_call(eng, A[0], [y, x] + more, st, ctx, node), eng, st)
            d = dmul(dmul(r.dim, x.dim), y.dim)
            return Tup([Num(0 if is_zero(r) else None, d, {fresh_atom(): 1.0}, r.lin, lits_of_num(r), deps | r.deps, E, None, "scalar"), unknown(dim=d)])
        rd = generic(eng, name, A, kw, st, ctx, node)
        return Tup([rd, unknown()])
    if f in ("root_scalar", "brentq", "newton", "bisect", "ridder", "fsolve", "minimize_scalar", "root", "minimize"):
        br = kw.get("bracket", A[1] if len(A) > 1 else None)
        x = unknown()
        if br is not None:
            b = num(br, eng, st)
            x = Num(None, b.dim if b.dim is not LIT else D0, {fresh_atom(): 1.0}, None, E, b.deps, kind="scalar")
        r = None
        if A:
            more = []
            if "args" in kw:
                el = eng.elements(kw["args"], st)
                more = list(el[0]) if el else []
            r = safe_call(eng, A[0], [x] + more, st, ctx, node)
        d = deps | (eng.deps_of(r, st) if r is not None else E)
        if f == "root_scalar":
            return eng.alloc(st, HObj(None, {"root": x.copy(deps=d), "converged": unknown(deps=d), "iterations": unknown(), "function_calls": unknown(), "flag": unknown()}, label="RootResults"))
        if f in ("brentq", "bisect", "ridder", "newton"):
            return x.copy(deps=d)
        return unknown(deps=d)
    if f == "interp" and len(A) >= 3:
        x, xp, fp = (num(v, eng, st) for v in A[:3])
        eng.unify(x, xp, ctx, node, "interp")
        nz = lits_of_num(fp)
        return Num(0 if is_zero(fp) else None, fp.dim, {fresh_atom(): 1.0}, fp.lin, nz, deps, E, None, x.kind)
    if f in ("interp1d", "InterpolatedUnivariateSpline", "UnivariateSpline", "CubicSpline", "PchipInterpolator", "RegularGridInterpolator") and len(A) >= 2:
        y = num(A[1], eng, st)
        deps = deps | column_tokens("abscissa", num(A[0], eng, st)) | column_tokens("ordinate", y)
        r = unknown(deps=deps, lin={k: (None, True) for k in y.lin}, dim=y.dim)
        r.kind = "fn"
        r.form = {("fn", fresh_atom()): 1.0}
        if f != "RegularGridInterpolator":
            xd = num(A[0], eng, st).dim
            r.argdim = xd if isinstance(xd, tuple) else None
        return r
    if f in ("polyval", "prod", "einsum", "histogram", "meshgrid", "loadtxt", "genfromtxt", "digitize", "searchsorted", "argmax", "argmin", "argsort", "nonzero", "count_nonzero"):
        if f == "meshgrid":
            return eng.alloc(st, HList([num(x, eng, st).copy(alias=E) for x in A]))
        if f in ("digitize", "searchsorted", "argmax", "argmin", "argsort", "count_nonzero", "nonzero"):
            return Num(dim=LIT, form={fresh_atom(): 1.0}, deps=deps)
        if f == "prod":
            el = eng.elements(A[0], st) if A else None
            if el is not None and el[1] is None and not isinstance(A[0], Num):
                r = literal(1)
                for x in el[0]:
                    r = eng.binop(ast.Mult(), r, x, st, ctx, node)
                return r
        return unknown(deps=deps)
    if f in ("vectorize",):
        return A[0]
    return None


def column_tokens(tag, v):
    """(tag, file, column, factor) for the table columns `v` is made of; the factor is known when it is a multiple of one column."""
    f = v.form if isinstance(v.form, dict) else None
    k = None
    if f is not None and len(f) == 1:
        (a, c), = f.items()
        if isinstance(a, tuple) and a[0] == "col" and isinstance(c, (int, float)):
            k = float(f"{c:.12g}")
    return {(tag, d[1], d[2], k) for d in v.deps if d[0] == "col"}


def required_args(f):
    pre, kw = 0, ()
    while isinstance(f, Partial):
        pre, kw, f = pre + len(f.args), tuple(kw) + tuple(f.kw), f.f
    if not isinstance(f, Func):
        return 1
    a = f.node.args
    names = [p.arg for p in a.posonlyargs + a.args][: len(a.posonlyargs + a.args) - len(a.defaults)]
    return len([n for n in names if n not in kw]) - pre - (1 if f.bound is not None and f.kindm != "static" else 0)


def safe_call(eng, f, args, st, ctx, node):
    skip = st.fork()
    try:
        v = eng.call(f, args, {}, st, ctx, node)
        eng.join_states(st, skip, (), ())
        return v
    except I.Dead:
        st.heap, st.path, st.dead = skip.heap, skip.path, False
        return unknown()


MUT_LIST = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "setdefault", "popitem", "__setitem__"}
MUT_ND = {"sort", "fill", "put", "partition", "resize", "itemset", "setfield", "setflags", "append", "extend", "insert", "remove", "pop", "clear", "update", "setdefault", "reverse", "popitem", "add"}
ND_PASS = {"sum", "mean", "copy", "astype", "reshape", "ravel", "flatten", "min", "max", "squeeze", "transpose", "conj", "conjugate", "item", "tolist", "cumsum", "round", "repeat", "take"}


def call_method(eng, m, args, kw, st, ctx, node):
    o, n = m.obj, m.name
    eng.emit("method", node, ctx, obj=o, name=n, args=args, kw=kw)
    if isinstance(o, RngV):
        d = o.deps | eng.deps_many(args, st) | eng.deps_many(kw.values(), st)
        if n == "spawn":
            return eng.alloc(st, HList((), RngV(d, o.how)))
        if n in ("seed", "setstate", "set_state"):
            return NONE
        eng.emit("draw", node, ctx, rng=o, name=n)
        return unknown(deps=d)
    if isinstance(o, Ref):
        h = eng.get(st, o.id)
        if n in MUT_LIST and h.kind in ("list", "dict"):
            if h.alias:
                eng.emit("mutate", node, ctx, alias=h.alias, how=f".{n}()", deps=E)
            eng.emit("container_write", node, ctx, ref=o.id, how=n)
        if h.kind == "list":
            return list_method(eng, o, h, n, args, kw, st, ctx, node)
        if h.kind == "dict":
            return dict_method(eng, o, h, n, args, kw, st, ctx, node)
    if isinstance(o, PathV):
        known = [path_of(eng, a, st) for a in args]
        if n in ("absolute", "resolve", "expanduser"):
            return o
        if n in ("joinpath", "with_name") and all(k is not None for k in known):
            return PathV(os.path.join(o.p if n == "joinpath" else os.path.dirname(o.p), *known))
        if n in ("as_posix", "__str__", "__fspath__"):
            return Str(o.p)
        if n in ("open", "read_text", "read_bytes"):
            return unknown(deps=file_read(eng, o, st, ctx, node, n))
        return unknown()
    if isinstance(o, Str):
        return str_method(eng, o, n, args, st)
    if isinstance(o, SuperV):
        if n in ("__init__", "__post_init__", "__init_subclass__"):
            return NONE
        if n == "__setattr__" and len(args) == 2 and isinstance(args[0], Str):
            eng.setattr(o.obj, args[0].s, args[1], st, ctx, node)
            return NONE
        return unknown()
    if isinstance(o, Tup):
        if n == "index" or n == "count":
            if n == "index" and args:
                for i, x in enumerate(o.elems):
                    r = eng.compare_eq(x, args[0], st)
                    if r is True:
                        return literal(i)
                    if r is None:
                        break
            return Num(dim=LIT, form={fresh_atom(): 1.0})
        return unknown(deps=eng.deps_of(o, st))
    if isinstance(o, Num):
        deps = o.deps | eng.deps_many(args, st) | eng.deps_many(kw.values(), st)
        if n in MUT_ND and o.alias and o.kind != "scalar":
            eng.emit("mutate", node, ctx, alias=o.alias, how=f".{n}()", deps=o.deps)
        out_alias(eng, kw, node, ctx, st)
        if n == "sum" and o.poly is not None and not args and not kw:
            r = o.poly[0]
            for y in o.poly[1:]:
                r = eng.binop(ast.Add(), r, y, st, ctx, node)
            return r
        if n in ND_PASS:
            alias = o.alias if n in ("reshape", "ravel", "squeeze", "transpose") else E
            if n == "astype" and isinstance(kw.get("copy"), Num) and kw["copy"].const is False:
                alias = o.alias
            keep = n in ("copy", "astype", "reshape", "ravel", "flatten", "squeeze", "transpose", "tolist", "conj")
            if n == "reshape" and o.poly is not None and o.poly1 is None:
                sh = args[0].elems if len(args) == 1 and isinstance(args[0], Tup) else args
                if len(sh) == 2 and all(isinstance(y, Num) for y in sh) and sh[1].const == 1 and sh[0].const in (-1, len(o.poly)):
                    return o.copy(kind="column", poly=o.poly, alias=alias)
            return o.copy(const=o.const if (keep or is_zero(o)) else None, alias=alias, form=o.form if keep else {fresh_atom(): 1.0}, cond=o.cond if keep or n in ("item",) else None,
                          kind="scalar" if n in ("item", "min", "max") or n in REDUCE and isinstance(o.kind, Vec) and not args and not kw else ((o.kind if n in KEEP1 or not isinstance(o.kind, Vec) else "array") if keep else None), lin=o.lin)
        if n == "dot" and args:
            return eng.binop(ast.Mult(), o, args[0], st, ctx, node)
        if n in ("all", "any"):
            if o.cond is not None:
                l = Lit("opaque", tok=(n, I.fkey(o.form)))
                return Num(None, LIT, {fresh_atom(): 1.0}, None, E, deps, E, ("and" if n == "all" else "or", (o.cond, ("lit", l))))
            return Num(None, LIT, {fresh_atom(): 1.0}, None, E, deps, E, ("lit", Lit("opaque", tok=(n, I.fkey(o.form) if o.form else id(o)))))
        if n in ("get", "pop", "setdefault", "values", "keys", "items"):
            return unknown(deps=deps, lin=o.lin, alias=o.alias if n in ("get", "values", "setdefault") else E)
        if o.kind == "fn":
            ad = o.argdim if isinstance(o.argdim, tuple) else None
            if n in ("integral", "derivative", "antiderivative", "get_knots"):
                for a in args if n == "integral" else ():
                    a = num(a, eng, st)
                    if ad is not None and isinstance(a.dim, tuple) and not is_wild(a) and a.dim != ad:
                        eng.emit("dim_mismatch", node, ctx, what="integration bound", a=a.dim, b=ad)
                if n == "get_knots":
                    return Num(dim=ad, form={fresh_atom(): 1.0}, deps=deps, kind="array")
                d = None
                if ad is not None and o.dim is not None:
                    d = dmul(o.dim, ad if n != "derivative" else dpow(ad, -1))
                if n == "integral":
                    return unknown(deps=deps, lin=o.lin, dim=d)
                r = unknown(deps=deps, lin={k: (None, True) for k in o.lin}, dim=d)
                if n == "derivative" and o.form is not None:
                    k = kw.get("n", kw.get("nu", args[0] if args else literal(1)))
                    if isinstance(k, Num) and isinstance(k.const, int):
                        r.form = I.clip({("dfn", I.fkt(o.form), k.const): 1.0})
                r.kind, r.argdim = "fn", ad
                return r
        if n == "integral":
            return unknown(deps=deps, lin=o.lin)
        for a in args:
            eng.call_callable_unknown(a, st, ctx, node)
        return unknown(deps=deps, lin={k: (None, True) for k in o.lin})
    for a in args:
        eng.call_callable_unknown(a, st, ctx, node)
    return unknown(deps=eng.deps_of(o, st) | eng.deps_many(args, st))


def list_method(eng, o, h, n, args, kw, st, ctx, node):
    if n in ("append", "add"):
        if h.typ == "set" and h.rest is None and pykey(args[0]) is not CANNOT and any(pykey(x) == pykey(args[0]) for x in h.elems):
            return NONE
        if h.rest is None:
            st.heap[o.id] = HList(h.elems + (args[0],), None, h.alias, h.typ)
        else:
            st.heap[o.id] = HList(h.elems, eng.join(h.rest, args[0], st), h.alias, h.typ)
        return NONE
    if n in ("extend", "update"):
        eng.list_extend(o, args[0], st, ctx, node)
        return NONE
    if n == "insert" and len(args) == 2:
        if h.rest is None and isinstance(args[0], Num) and isinstance(args[0].const, int):
            el = list(h.elems)
            el.insert(args[0].const, args[1])
            st.heap[o.id] = HList(el, None, h.alias, h.typ)
        return NONE
    if n == "pop":
        if h.rest is None and h.elems:
            i = args[0].const if args and isinstance(args[0], Num) else -1
            if isinstance(i, int) and -len(h.elems) <= i < len(h.elems):
                el = list(h.elems)
                v = el.pop(i)
                st.heap[o.id] = HList(el, None, h.alias, h.typ)
                return v
        return eng.element_of(o, st)
    if n in ("remove", "discard"):
        if h.rest is None:
            el = list(h.elems)
            for i, x in enumerate(el):
                if eng.compare_eq(x, args[0], st) is True:
                    el.pop(i)
                    break
            st.heap[o.id] = HList(el, None, h.alias, h.typ)
        return NONE
    if n == "copy":
        return eng.alloc(st, HList(h.elems, h.rest, E, h.typ))
    if n == "clear":
        st.heap[o.id] = HList((), None, h.alias, h.typ)
        return NONE
    if n == "index" and args:
        if h.rest is None:
            for i, x in enumerate(h.elems):
                r = eng.compare_eq(x, args[0], st)
                if r is True:
                    return literal(i)
                if r is None:
                    break
        return Num(dim=LIT, form={fresh_atom(): 1.0})
    if n == "count" and args and h.rest is None:
        rs = [eng.compare_eq(x, args[0], st) for x in h.elems]
        if None not in rs:
            return literal(sum(1 for r in rs if r))
    if n in ("sort", "reverse"):
        if n == "reverse" and h.rest is None:
            st.heap[o.id] = HList(tuple(reversed(h.elems)), None, h.alias, h.typ)
        return NONE
    if n in ("union", "intersection", "difference", "symmetric_difference"):
        el = list(h.elems)
        rest = h.rest
        ea = eng.elements(args[0], st) if args else ((), None)
        if ea and ea[1] is None and rest is None:
            ks = [pykey(x) for x in ea[0]]
            if any(k is CANNOT for k in ks) or any(pykey(x) is CANNOT for x in el):
                return eng.alloc(st, HList((), eng.join(eng.element_of(o, st), eng.element_of(args[0], st), st) if n != "difference" else eng.element_of(o, st), E, "set"))
            if n == "union":
                el += [x for x in ea[0] if pykey(x) not in [pykey(y) for y in el]]
            elif n == "intersection":
                el = [x for x in el if pykey(x) in ks]
            elif n == "difference":
                el = [x for x in el if pykey(x) not in ks]
            return eng.alloc(st, HList(el, None, E, "set"))
        return eng.alloc(st, HList((), eng.element_of(o, st), E, "set"))
    return unknown(deps=eng.deps_of(o, st))


def dict_method(eng, o, h, n, args, kw, st, ctx, node):
    if n == "items":
        if h.rest is None:
            return eng.alloc(st, HList([Tup([from_key(k), v]) for k, v in h.items.items()]))
        r = None
        for v in list(h.items.values()) + [h.rest]:
            r = eng.join(r, v, st)
        return eng.alloc(st, HList((), Tup([unknown(), r])))
    if n == "keys":
        return eng.alloc(st, HList([from_key(k) for k in h.items], unknown() if h.rest is not None else None))
    if n == "values":
        return eng.alloc(st, HList(list(h.items.values()), h.rest))
    if n in ("get", "pop", "setdefault"):
        if eng.probe is not None and args[0] is eng.probe:
            eng.mark(st, out=h.rest is not None)
        k = pykey(args[0])
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        if k is not CANNOT:
            if k in h.items:
                v = h.items[k]
                if n == "pop":
                    it = dict(h.items)
                    del it[k]
                    st.heap[o.id] = HDict(it, h.rest, h.alias, h.origin)
                return v
            if h.rest is None:
                if n == "setdefault":
                    it = dict(h.items)
                    it[k] = d
                    st.heap[o.id] = HDict(it, None, h.alias, h.origin)
                if n == "pop" and len(args) < 2:
                    eng.emit("key_missing", node, ctx, key=k, keys=tuple(h.items), ref=o.id)
                    raise I.Dead()
                if n == "get" and len(args) < 2:
                    eng.emit("get_missing", node, ctx, key=k, keys=tuple(h.items))
                return d
            return eng.join(h.rest, d, st) if n != "pop" or len(args) > 1 else h.rest
        r = d if (n == "get" or len(args) > 1) else None
        for v in list(h.items.values()) + ([h.rest] if h.rest is not None else []):
            r = eng.join(r, v, st)
        return r if r is not None else unknown()
    if n == "update":
        it = dict(h.items)
        rest = h.rest
        if args:
            a = args[0]
            if isinstance(a, Ref) and eng.get(st, a.id).kind == "dict":
                ha = eng.get(st, a.id)
                it.update(ha.items)
                if ha.rest is not None:
                    rest = ha.rest if rest is None else eng.join(rest, ha.rest, st)
            else:
                rest = unknown()
        it.update(kw)
        st.heap[o.id] = HDict(it, rest, h.alias, h.origin)
        if isinstance(h.origin, tuple) and h.origin[0] == "dictof":
            a = eng.get(st, args[0].id) if args and isinstance(args[0], Ref) and eng.get(st, args[0].id).kind == "dict" else None
            dict_of_update(eng, h, st, dict(a.items if a is not None else {}, **kw), a.rest if a is not None else unknown() if args else None, node, ctx)
        return NONE
    if n == "copy":
        return eng.alloc(st, HDict(h.items, h.rest))
    if n == "clear":
        st.heap[o.id] = HDict({}, None, h.alias, h.origin)
        return NONE
    if n == "popitem":
        return Tup([unknown(), eng.element_of(o, st)])
    return unknown(deps=eng.deps_of(o, st))


def str_method(eng, o, n, args, st):
    s = o.s
    a = [x.s if isinstance(x, Str) else (x.const if isinstance(x, Num) else None) for x in args]
    try:
        if n == "split" and (not a or a[0] is not None):
            return eng.alloc(st, HList([Str(x) for x in s.split(*a)]))
        if n in ("strip", "lower", "upper", "lstrip", "rstrip", "title", "capitalize"):
            return Str(getattr(s, n)(*a))
        if n in ("startswith", "endswith") and a and isinstance(a[0], str):
            return literal(getattr(s, n)(a[0]))
        if n == "replace" and len(a) >= 2 and None not in a:
            return Str(s.replace(*a[:2]))
        if n in ("count", "index", "find") and isinstance(a[0], str):
            return literal(getattr(s, n)(a[0]))
        if n == "join" and args:
            el = eng.elements(args[0], st)
            if el is not None and el[1] is None and all(isinstance(x, Str) for x in el[0]):
                return Str(s.join(x.s for x in el[0]))
            return unknown()
        if n == "format":
            if all(isinstance(x, Str) for x in args):
                return Str(s.format(*[x.s for x in args]))
            return unknown()
    except Exception:
        pass
    return unknown()
