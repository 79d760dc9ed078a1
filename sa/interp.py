"""Interprocedural abstract interpreter over the package's Python syntax trees.

It evaluates a function on abstract arguments (values.py). Branches whose condition the abstract values
do not decide are both evaluated and joined; loops over structurally known iterables are unrolled, others
are evaluated on a summary element; calls are inlined with recursion cut off to an unknown value.
Nothing of the package is imported or executed.
"""
import ast
import math
import os
import warnings
from fractions import Fraction

from . import naming
from .values import *
from .values import E

CANNOT = object()
RUST_NAMES = {"__np__": "numpy", "__rust_err__": "rust.err", "__rust_panic__": "rust.panic", "__rust_opaque__": "rust.opaque",
              "__rust_map__": "rust.map", "__rust_fold__": "rust.fold", "__rust_enum__": "rust.enum", "__rust_mod__": "rust.mod",
              "__rust_update__": "rust.update", "__wrap__": "rust.wrap", "__rust_include__": "rust.include", "__rustext__": "rustext", "__dataclass__": "rust.dataclass"}
NATIVE_PREFIX = "hazma._core"


class Budget(Exception):
    pass


class Dead(Exception):
    """Path ended (raise)."""


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.frame = None
        self.state = 0  # 0 new, 1 running, 2 done
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.children = {}
        self.rust = name == "rust" or name.startswith("rust.")

    def __repr__(self):
        return f"Module({self.name})"


class Lazy(V):
    """from m import n, resolved on use."""
    __slots__ = ("mod", "name")

    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class State:
    __slots__ = ("heap", "path", "dead", "facts")

    def __init__(self, heap=None, path=(), facts=()):
        self.heap = heap if heap is not None else {}
        self.path = path
        self.dead = False
        self.facts = facts  # ((text of a branch condition, outcome, node), ...) that hold here; only used to correlate branches

    def fork(self):
        return State(dict(self.heap), self.path, self.facts)


def test_facts(test, sign):
    """The branch conditions that hold when `test` has the given outcome, each with the names it mentions."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return test_facts(test.operand, not sign)
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == sign:
        out = ()
        for v in test.values:
            out += test_facts(v, sign)
        return out
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.NotEq, ast.NotIn, ast.IsNot)):
        op = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}[type(test.ops[0])]()
        return test_facts(ast.copy_location(ast.Compare(test.left, [op], test.comparators), test), not sign)
    return ((ast.dump(test), sign, test, frozenset(n.id for n in ast.walk(test) if isinstance(n, ast.Name))),)


def alternatives(node):
    """(dump of X, set of dumps of constants) for X == c, X in (c, ...) and disjunctions of those."""
    if isinstance(node, ast.BoolOp) and isinstance(node.op, ast.Or):
        xs = [alternatives(v) for v in node.values]
        if all(xs) and len({x[0] for x in xs}) == 1:
            return xs[0][0], set().union(*(x[1] for x in xs))
        return None
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        c = node.comparators[0]
        if isinstance(node.ops[0], (ast.Eq, ast.Is)):
            return ast.dump(node.left), {ast.dump(c)}
        if isinstance(node.ops[0], ast.In) and isinstance(c, (ast.Tuple, ast.List, ast.Set)):
            return ast.dump(node.left), {ast.dump(e) for e in c.elts}
    return None


def correlated(keys, facts):
    """Whether one of the branch conditions `keys` is known to hold given `facts`."""
    have = {(f[0], f[1]) for f in facts}
    if any((k[0], k[1]) in have for k in keys):
        return True
    cover = {}
    for k in keys:
        a = alternatives(k[2]) if k[1] else None
        if a:
            cover.setdefault(a[0], set()).update(a[1])
    for k in keys:  # T and not T both bind it
        if (k[0], not k[1]) in {(q[0], q[1]) for q in keys}:
            return True
    for f in facts:
        a = alternatives(f[2]) if f[1] else None
        if a and a[0] in cover and a[1] <= cover[a[0]]:
            return True
    return False


class Ctx:
    __slots__ = ("frame", "module", "cls", "func", "returns", "yields", "breaks", "continues", "globals_", "nonlocals", "outer", "captured", "depth", "path0", "node", "frames")

    def __init__(self, frame, module, cls, func, outer, depth, path0, frames=()):
        self.frame, self.module, self.cls, self.func, self.outer, self.depth = frame, module, cls, func, outer, depth
        self.returns, self.yields, self.breaks, self.continues = [], None, [], []
        self.globals_, self.nonlocals = set(), set()
        self.captured = False
        self.path0 = path0
        self.node = None
        self.frames = frames


class Event:
    __slots__ = ("kind", "module", "func", "node", "info", "stack")

    def __init__(self, kind, module, func, node, info, stack):
        self.kind, self.module, self.func, self.node, self.info, self.stack = kind, module, func, node, info, stack

    @property
    def where(self):
        return f"{self.module.rel}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<{self.kind} {self.where} in {self.func}: {self.info}>"


BUILTIN_NAMES = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
EXC = {n for n in BUILTIN_NAMES if n.endswith("Error") or n.endswith("Exception") or n.endswith("Warning")}


def is_table(v):
    """A two-dimensional table read from a data file, as the reader returned it or transposed."""
    return isinstance(v, Num) and isinstance(v.kind, tuple) and v.kind[0] == "table"


def table_column(v, k):
    return Num(form={("col", v.kind[1], k): 1.0}, deps=v.deps | {("col", v.kind[1], k)}, kind="array")


class Engine:
    def __init__(self, root="/repo", pkg="hazma", exclude_tests=True, max_steps=400000, max_depth=40, with_rust=True):
        self.with_rust = with_rust
        self.native = {}            # (submodule, python name) -> (rust module name, function name)
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.base = {}
        self.nid = 0
        self.events = []
        self.stack = []
        self.memo = {}          # results of functools.lru_cache functions
        self.cached_refs = {}
        self.steps = 0
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.onedim = set()         # atoms a check declared to stand for one-dimensional arrays (broadcast over rows)
        self.call_hook = None       # f(engine, fv, args, kw, node, st, ctx) -> value or None
        self.probe, self.probe_id, self.watch, self.watch_rets = None, -1, None, None  # see checks/p16.py
        self.global_hook = None     # f(module, name, value) -> value
        self.exact_param = None     # the argument in question
        self.exact = None           # unknown results are named by what they were computed from: "number" or "array", what the argument is
        self.open_forms = False     # a quantity that is zero on some branches keeps the formula of the others
        self.attr_atom_hook = None  # f(clsname, attr) -> dim
        self.record = True
        self.local_names = {}
        self.maybe = 0
        self.branch_keys = ((), ())
        self._load(root, pkg)

    # ------------------------------------------------------------ project
    def _load(self, root, pkg):
        top = os.path.join(root, pkg)
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                base = f[:-3]
                if base.endswith("_test") or base.startswith("test_") or base == "conftest":
                    continue
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(src)
                self.modules[name] = Module(name, p, rel, tree, src)
        self.crate = None
        if self.with_rust:
            from .rustlower import Crate
            self.crate = Crate(root)
            for n, (p, rel, tree, src) in self.crate.modules.items():
                self.modules[n] = Module(n, p, rel, tree, src)
            self.native = native_registry(self.crate)
        for n, m in self.modules.items():
            par = n.rpartition(".")[0]
            if par in self.modules:
                self.modules[par].children[n.rpartition(".")[2]] = m

    def new_id(self):
        self.nid += 1
        return self.nid

    def get(self, st, id):
        h = st.heap.get(id)
        return h if h is not None else self.base[id]

    def alloc(self, st, h):
        i = self.new_id()
        st.heap[i] = h
        return Ref(i)

    def emit(self, kind, node, ctx, **info):
        if self.maybe:
            info["maybe"] = True
        if self.record:
            self.events.append(Event(kind, ctx.module, ctx.func, node, info, tuple(self.stack)))

    def module_frame(self, m):
        if m.state == 0:
            m.state = 1
            m.frame = self.new_id()
            self.base[m.frame] = HFrame({"__name__": Str(m.name), "__file__": Str(m.path)})
            st = State()
            ctx = Ctx(m.frame, m, None, "<module>", None, 0, ())
            saved, self.record = self.record, self.record
            s0 = self.steps
            stack, self.stack = self.stack, []
            try:
                self.exec_block(m.tree.body, st, ctx)
            except Dead:
                pass
            finally:
                self.record = saved
                self.steps = s0
                self.stack = stack
            self.base.update(st.heap)
            m.state = 2
        return m.frame

    def module_ns(self, m, st=None):
        f = self.module_frame(m)
        h = None
        if st is not None:
            h = st.heap.get(f)
        return (h or self.base[f]).vars

    # ------------------------------------------------------------ names
    def resolve_lazy(self, v, st, node=None, ctx=None):
        n = 0
        while isinstance(v, Lazy):
            n += 1
            if n > 20:
                return unknown()
            m = self.modules.get(v.mod)
            if m is None:
                return Ext(v.mod + "." + v.name)
            ns = self.module_ns(m, st)
            if v.name in ns:
                v = ns[v.name]
            elif v.name in m.children:
                v = ModV(m.children[v.name])
            elif m.state == 1:
                return unknown()
            else:
                sub = v.mod + "." + v.name
                if self.exists_native(sub):
                    return Ext(sub)
                if ctx is not None:
                    self.emit("import_missing", node, ctx, module=v.mod, name=v.name)
                return unknown()
        return v

    def exists_native(self, dotted):
        p = os.path.join(self.root, *dotted.split("."))
        return any(os.path.exists(p + e) for e in (".pyx", ".so", ".pyi")) or dotted.startswith(self.pkg + "._core")

    def load_name(self, name, st, ctx, node):
        if name not in ctx.globals_:
            h = self.get(st, ctx.frame)
            if isinstance(h, HFrame) and name in h.vars:
                if name in h.maybe and not correlated(h.maybe[name], st.facts):
                    self.emit("maybe_unbound", node, ctx, name=name)
                return self.resolve_lazy(h.vars[name], st, node, ctx)
            for f in ctx.frames:
                h = self.get_opt(st, f)
                if h is not None and name in h.vars:
                    return self.resolve_lazy(h.vars[name], st, node, ctx)
        name = mangle(name, ctx)
        ns = self.module_ns(ctx.module, st)
        if name in ns:
            return self.resolve_lazy(ns[name], st, node, ctx)
        if name in BUILTIN_NAMES:
            return Ext("builtins." + name)
        if ctx.module.rust:
            if name in RUST_NAMES:
                return Ext(RUST_NAMES[name])
            if name in ctx.module.children:
                return ModV(ctx.module.children[name])
            return Ext("rustext." + name)
        self.emit("undefined_name", node, ctx, name=name)
        return unknown()

    def get_opt(self, st, id):
        h = st.heap.get(id)
        return h if h is not None else self.base.get(id)

    def store_name(self, name, val, st, ctx, node=None):
        if name in ctx.globals_:
            f = self.module_frame(ctx.module)
            self.emit("global_write", node, ctx, name=name)
        elif name in ctx.nonlocals:
            f = None
            for fr in ctx.frames:
                h = self.get_opt(st, fr)
                if h is not None and name in h.vars:
                    f = fr
                    break
            if f is None:
                return
        else:
            f = ctx.frame
        h = self.get(st, f)
        nv = dict(h.vars)
        if ctx.func == "<module>" and self.global_hook is not None:
            val = self.global_hook(ctx.module, name, val)
        nv[name] = val
        st.heap[f] = HFrame(nv, {k: v for k, v in h.maybe.items() if k != name} if h.maybe else None)
        if st.facts:
            st.facts = tuple(x for x in st.facts if name not in x[3])
        if ctx.func == "<module>" and f == ctx.module.frame:
            # module globals must be visible to functions called during module execution and by importers
            self.base[f] = st.heap.pop(f)
            self.base.update({k: v for k, v in st.heap.items()})

    # ------------------------------------------------------------ joins
    def join(self, a, b, st, la=(), lb=()):
        if a is b:
            return a
        if isinstance(a, Lazy):
            a = self.resolve_lazy(a, st)
        if isinstance(b, Lazy):
            b = self.resolve_lazy(b, st)
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            return self.join_num(a, b, la, lb)
        if isinstance(a, Str) and isinstance(b, Str) and a.s == b.s:
            return a
        if isinstance(a, NoneV) and isinstance(b, NoneV):
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        if isinstance(a, EnumVal) and a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.elems) == len(b.elems):
            return Tup([self.join(x, y, st, la, lb) for x, y in zip(a.elems, b.elems)])
        if type(a) is type(b) and isinstance(a, Func) and a.node is b.node and a.frames == b.frames and self.same_bound(a.bound, b.bound):
            return a
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref):
            ha, hb = self.get(st, a.id), self.get(st, b.id)
            if isinstance(ha, HList) and isinstance(hb, HList) and len(ha.elems) == len(hb.elems) and ha.rest is None and hb.rest is None and ha.typ == hb.typ:
                return self.alloc(st, HList([self.join(x, y, st, la, lb) for x, y in zip(ha.elems, hb.elems)], None, ha.alias | hb.alias, ha.typ))
            if isinstance(ha, HDict) and isinstance(hb, HDict) and list(ha.items) == list(hb.items) and ha.rest is None and hb.rest is None:
                return self.alloc(st, HDict({k: self.join(v, hb.items[k], st, la, lb) for k, v in ha.items.items()}, None, ha.alias | hb.alias))
            if isinstance(ha, HObj) and isinstance(hb, HObj) and ha.cls is hb.cls and ha.cls is not None and ha.cls.module.rust and set(ha.attrs) == set(hb.attrs):
                return self.alloc(st, HObj(ha.cls, {k: self.join(v, hb.attrs[k], st, la, lb) for k, v in ha.attrs.items()}, ha.lazy, ha.label))    # a struct is a value
        vs, ws = [], []
        for x, l in ((a, la), (b, lb)):
            xw = x.when if isinstance(x, Alt) else None
            for n, y in enumerate(x.vals if isinstance(x, Alt) else (x,)):
                w = xw[n] if xw is not None else (E,) if not isinstance(x, Alt) else None
                if w is not None:
                    w = tuple(c | frozenset(l) for c in w)
                for i, z in enumerate(vs):
                    if self.same(y, z):
                        ws[i] = ws[i] + w if ws[i] is not None and w is not None and len(ws[i]) + len(w) <= 8 else None
                        break
                else:
                    vs.append(y)
                    ws.append(w)
        if len(vs) == 1:
            return vs[0]
        if len(vs) > 6:
            return unknown(deps=self.deps_of(a, st) | self.deps_of(b, st), lin=self.lin_of(vs, st))
        return Alt(vs, ws if all(w is not None for w in ws) else None)

    def same_bound(self, a, b):
        if a is b:
            return True
        return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Num) and isinstance(b, Num):
            return a.const is not None and a.const == b.const and a.deps == b.deps
        if isinstance(a, Str) and isinstance(b, Str):
            return a.s == b.s
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, Func) and isinstance(b, Func):
            return a.node is b.node and a.frames == b.frames and self.same_bound(a.bound, b.bound)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, RngV) and isinstance(b, RngV):
            return a.deps == b.deps and a.how == b.how
        if isinstance(a, EnumVal):
            return a == b
        return False

    def lin_of(self, vs, st):
        out = {}
        for v in vs:
            if isinstance(v, Num):
                for k, c in v.lin.items():
                    out[k] = c if k not in out or out[k] == c else (None, True)
        return out

    def join_num(self, a, b, la=(), lb=()):
        za, zb = is_zero(a), is_zero(b)
        nza, nzb = lits_of_num(a), lits_of_num(b)
        if nza is ALL and nzb is ALL:
            nz = ALL
        elif nza is ALL:
            nz = nzb | frozenset(lb)
        elif nzb is ALL:
            nz = nza | frozenset(la)
        else:
            nz = (nza | frozenset(la)) & (nzb | frozenset(lb))
        const = a.const if (a.const is not None and type(a.const) is type(b.const) and (a.const == b.const)) else None
        if za and not zb:
            dim = b.dim
        elif zb and not za:
            dim = a.dim
        elif a.dim is LIT:
            dim = b.dim
        elif b.dim is LIT:
            dim = a.dim
        else:
            dim = a.dim if a.dim == b.dim else None
        if a.form is not None and b.form is not None and fkey(a.form) == fkey(b.form):
            form = a.form
        elif self.open_forms and za != zb and (a.form if zb else b.form) is not None:
            form = a.form if zb else b.form  # the formula where the quantity is not switched off
        elif self.open_forms and no_limit(a) != no_limit(b):
            form = a.form if no_limit(b) else b.form
        else:
            form = {naming.join(naming.key(self, a, None), naming.key(self, b, None)) if self.exact else fresh_atom("join"): 1.0}
        if not a.lin:
            lin = b.lin if (za or not b.lin) else {k: (c if za else c) for k, c in b.lin.items()}
        elif not b.lin:
            lin = a.lin
        else:
            lin = {}
            for k in set(a.lin) | set(b.lin):
                ca, cb = a.lin.get(k), b.lin.get(k)
                lin[k] = ca if ca == cb else (cb if ca is None else ca if cb is None else (None, True))
        cond = a.cond if a.cond == b.cond else None
        r = Num(const, dim, form, lin, nz, a.deps | b.deps, a.alias | b.alias, cond, (a.kind if a.kind != "array" else vec(a.kind, b.kind)) if a.kind == b.kind else None)
        if a.poly is not None and b.poly is not None and len(a.poly) == len(b.poly):
            r.poly = tuple(x if x is y else self.join_num(x, y, la, lb) for x, y in zip(a.poly, b.poly))
        return r

    def join_states(self, a, b, la, lb, ka=(), kb=()):
        """Join b into a (both alive)."""
        self.branch_keys = (ka, kb)
        ha, hb = a.heap, b.heap
        for k in set(ha) | set(hb):
            x, y = ha.get(k), hb.get(k)
            if x is y:
                continue
            if x is None:
                x = self.base.get(k)
                if x is None:
                    ha[k] = y
                    continue
            if y is None:
                y = self.base.get(k)
                if y is None:
                    ha[k] = x
                    continue
            if x is y:
                ha[k] = x
                continue
            ha[k] = None
            ha[k] = self.join_heap(x, y, a, b, la, lb)
        # common path prefix
        p = []
        for u, v in zip(a.path, b.path):
            if u == v:
                p.append(u)
            else:
                break
        a.path = tuple(p)
        return a

    def join_heap(self, x, y, a, b, la, lb):
        if isinstance(x, HMark):
            return HMark(x.may or y.may, x.must and y.must, x.out or y.out)
        st = _Both(a, b, self)
        keys = self.branch_keys
        if isinstance(x, HFrame):
            out = {}
            for k in list(x.vars) + [k for k in y.vars if k not in x.vars]:
                u, v = x.vars.get(k), y.vars.get(k)
                out[k] = u if u is v else self.join(u, v, st, la, lb)
            ka, kb = keys
            maybe = {}
            if x.maybe or y.maybe or (ka and len(out) > min(len(x.vars), len(y.vars))):
                for k in out:
                    u = () if k not in x.vars else x.maybe.get(k)
                    v = () if k not in y.vars else y.maybe.get(k)
                    # None: bound; (): unbound; otherwise the conditions under which it is bound
                    if u is None and v is None:
                        continue
                    if not ka and (u == () or v == ()):
                        if u is None or v is None:
                            continue  # loops and exception handlers: not judged
                    maybe[k] = (ka if u is None else tuple(u)) + (kb if v is None else tuple(v))
            return HFrame(out, maybe)
        if isinstance(x, HObj):
            out = {}
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                u, v = x.attrs.get(k), y.attrs.get(k)
                out[k] = u if u is v else self.join(u, v, st, la, lb)
            return HObj(x.cls, out, x.lazy, x.label)
        if isinstance(x, HDict) and isinstance(y, HDict):
            out = {}
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                u, v = x.items.get(k), y.items.get(k)
                out[k] = u if u is v else self.join(u, v, st, la, lb)
            rest = x.rest if x.rest is y.rest else self.join(x.rest, y.rest, st)
            return HDict(out, rest, x.alias | y.alias, x.origin)
        if isinstance(x, HList) and isinstance(y, HList):
            if len(x.elems) == len(y.elems):
                el = [u if u is v else self.join(u, v, st, la, lb) for u, v in zip(x.elems, y.elems)]
                rest = x.rest if x.rest is y.rest else self.join(x.rest, y.rest, st)
                return HList(el, rest, x.alias | y.alias, x.typ)
            rest = None
            n = min(len(x.elems), len(y.elems))
            for v in x.elems[n:] + y.elems[n:] + tuple(r for r in (x.rest, y.rest) if r is not None):
                rest = v if rest is None else self.join(rest, v, st)
            el = [u if u is v else self.join(u, v, st, la, lb) for u, v in zip(x.elems[:n], y.elems[:n])]
            return HList(el, rest, x.alias | y.alias, x.typ)
        return x

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, ctx):
        for s in stmts:
            if st.dead:
                return
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget()
            try:
                self.exec(s, st, ctx)
            except Dead:
                st.dead = True
                return

    def exec(self, s, st, ctx):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is not None:
            m(s, st, ctx)

    def x_Expr(self, s, st, ctx):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.eval(s.value, st, ctx)
            return
        self.eval(s.value, st, ctx)

    def x_Assign(self, s, st, ctx):
        v = self.eval(s.value, st, ctx)
        for t in s.targets:
            self.assign(t, v, st, ctx)

    def x_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            v = self.eval(s.value, st, ctx)
            self.assign(s.target, v, st, ctx)

    def x_AugAssign(self, s, st, ctx):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.eval(load, st, ctx)
        v = self.eval(s.value, st, ctx)
        if isinstance(cur, Num) and cur.alias and cur.kind != "scalar":
            if not isinstance(t, ast.Subscript):
                self.emit("mutate", s, ctx, alias=cur.alias, how="in-place operator", deps=cur.deps)
        if isinstance(cur, Ref):
            h = self.get(st, cur.id)
            if h.kind == "list" and isinstance(s.op, ast.Add):
                if h.alias:
                    self.emit("mutate", s, ctx, alias=h.alias, how="in-place operator", deps=E)
                self.list_extend(cur, v, st, ctx, s)
                self.emit("container_write", s, ctx, ref=cur.id)
                return
            if h.kind == "obj":
                self.emit("aug_obj", s, ctx)
        res = self.binop(s.op, cur, v, st, ctx, s)
        if isinstance(res, Num) and isinstance(cur, Num) and cur.kind != "scalar" and not isinstance(t, ast.Subscript):
            res = res.copy(alias=cur.alias, poly=res.poly, poly1=res.poly1)
        if isinstance(t, ast.Subscript):
            self.assign(t, res, st, ctx, aug=v)
        else:
            self.assign(t, res, st, ctx)

    def assign(self, t, v, st, ctx, aug=None):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, ctx, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            el = self.elements(v, st)
            if el is not None and el[1] is None and not star and len(el[0]) != n:
                self.emit("unpack_mismatch", t, ctx, want=n, got=len(el[0]))
                el = None
            if el is not None and el[1] is None and not star:
                for e, x in zip(t.elts, el[0]):
                    self.assign(e, x, st, ctx)
            elif el is not None and el[1] is None and star:
                i = star[0]
                k = len(el[0]) - (n - 1)
                vals = list(el[0][:i]) + [self.alloc(st, HList(el[0][i:i + k]))] + list(el[0][i + k:])
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, ctx)
            elif is_table(v) and v.kind[2] and not star:
                for k, e in enumerate(t.elts):
                    self.assign(e, table_column(v, k), st, ctx)
            else:
                x = self.element_of(v, st)
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, ctx)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, ctx)
            self.setattr(o, mangle(t.attr, ctx), v, st, ctx, t)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, st, ctx, aug)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctx)

    def store_sub(self, t, v, st, ctx, aug=None):
        base = self.eval(t.value, st, ctx)
        idx = self.eval(t.slice, st, ctx)
        for b in (base.vals if isinstance(base, Alt) else (base,)):
            if isinstance(b, Ref):
                h = self.get(st, b.id)
                if h.alias if h.kind != "obj" else False:
                    self.emit("mutate", t, ctx, alias=h.alias, how="item assignment", deps=E)
                self.emit("container_write", t, ctx, ref=b.id, value=v, idx=idx)
                if h.kind == "dict" and isinstance(h.origin, tuple) and h.origin[0] == "dictof":
                    from . import extlib
                    k = pykey(idx)
                    extlib.dict_of_update(self, h, st, {k: v} if k is not CANNOT else {}, v if k is CANNOT else None, t, ctx)
                if h.kind == "dict":
                    k = pykey(idx)
                    strong = not isinstance(base, Alt)
                    if k is CANNOT:
                        st.heap[b.id] = HDict(h.items, self.join(h.rest, v, st) if h.rest is not None else v, h.alias, h.origin)
                    else:
                        it = dict(h.items)
                        it[k] = v if strong or k not in it else self.join(it[k], v, st)
                        st.heap[b.id] = HDict(it, h.rest, h.alias, h.origin)
                elif h.kind == "list":
                    i = idx.const if isinstance(idx, Num) else None
                    if isinstance(i, int) and not isinstance(i, bool) and -len(h.elems) <= i < len(h.elems) and h.rest is None:
                        el = list(h.elems)
                        el[i] = v
                        st.heap[b.id] = HList(el, None, h.alias, h.typ)
                    else:
                        st.heap[b.id] = HList([self.join(x, v, st) for x in h.elems], self.join(h.rest, v, st) if h.rest is not None else None, h.alias, h.typ)
                elif h.kind == "obj":
                    f, c = h.cls.lookup("__setitem__") if h.cls else (None, None)
                    if isinstance(f, Func):
                        self.call(f.bind(b), [idx, v], {}, st, ctx, t)
            elif isinstance(b, Num):
                if b.alias:
                    self.emit("mutate", t, ctx, alias=b.alias, how="item assignment", deps=b.deps)
                vn = v if isinstance(v, Num) else unknown(deps=self.deps_of(v, st), lin=self.lin_deep(v, st))
                la = lits_of_num(idx) if isinstance(idx, Num) else E
                la = E if la is ALL else la
                new = self.join_num(vn, b, la, ())
                # where the mask is false the old value stays: nz(old) or (nz(v) and mask)
                nb, nv = lits_of_num(b), lits_of_num(vn)
                if nb is ALL:
                    nz = nv if nv is ALL else nv | la
                elif nv is ALL:
                    nz = nb
                else:
                    nz = (nv | la) & nb
                dim = new.dim
                if b.dim is not None and b.dim is not LIT and vn.dim is not None and vn.dim is not LIT and b.dim != vn.dim:
                    dim = None
                lin = new.lin
                if aug is not None and isinstance(aug, Num):
                    lin = lin_add(b.lin, aug.lin)
                new = new.copy(const=None if not (is_zero(b) and is_zero(vn)) else 0, nz=nz, dim=dim, lin=lin, alias=b.alias, kind=b.kind, cond=None,
                               form=vn.form if self.open_forms and no_limit(b) and not no_limit(vn) else new.form if self.open_forms and is_zero(b) and not is_zero(vn) else {("u", "masked", naming.key(self, b, st), naming.key(self, idx, st), naming.key(self, vn, st)) if self.exact else fresh_atom("masked"): 1.0})
                if b.poly is not None:
                    new.poly = self.row_write(b.poly, idx, vn)
                if isinstance(t.value, ast.Name):
                    self.store_name(t.value.id, new, st, ctx, t)
                elif isinstance(t.value, ast.Attribute):
                    o = self.eval(t.value.value, st, ctx)
                    self.setattr(o, mangle(t.value.attr, ctx), new, st, ctx, t, quiet=True)
                elif isinstance(t.value, ast.Subscript):
                    self.store_sub(ast.copy_location(ast.Subscript(t.value.value, t.value.slice, ast.Store()), t), new, st, ctx)

    def row_write(self, rows, idx, v):
        """Rows of a small array after one of them (constant index) is assigned; None when which one is unknown."""
        ix = idx.elems if isinstance(idx, Tup) else (idx,)
        i = ix[0].const if ix and isinstance(ix[0], Num) else None
        if not isinstance(i, int) or isinstance(i, bool) or not -len(rows) <= i < len(rows):
            return None
        i %= len(rows)
        whole = all(isinstance(x, SliceV) for x in ix[1:])
        return tuple(r if j != i else (v if whole else self.join_num(v, r)) for j, r in enumerate(rows))

    def x_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, ctx)
                k = self.eval(t.slice, st, ctx)
                if isinstance(b, Ref):
                    h = self.get(st, b.id)
                    if h.kind != "obj" and h.alias:
                        self.emit("mutate", t, ctx, alias=h.alias, how="del item", deps=E)
                    if h.kind == "dict" and pykey(k) in h.items:
                        it = dict(h.items)
                        del it[pykey(k)]
                        st.heap[b.id] = HDict(it, h.rest, h.alias, h.origin)
                elif isinstance(b, Num) and b.alias:
                    self.emit("mutate", t, ctx, alias=b.alias, how="del item", deps=E)

    def x_Return(self, s, st, ctx):
        v = self.eval(s.value, st, ctx) if s.value is not None else NONE
        ctx.returns.append((st.path[len(ctx.path0):] if st.path[:len(ctx.path0)] == ctx.path0 else st.path, v, st.fork(), s))
        st.dead = True

    def x_Raise(self, s, st, ctx):
        if s.exc is not None:
            self.eval(s.exc, st, ctx)
        raise Dead()

    def x_Assert(self, s, st, ctx):
        v = self.eval(s.test, st, ctx)
        t, c = self.truth(v, st)
        self.emit("assert", s, ctx, truth=t, cond=c)
        if t is False:
            raise Dead()
        st.facts += test_facts(s.test, True)

    def x_If(self, s, st, ctx):
        v = self.eval(s.test, st, ctx)
        t, c = self.truth(v, st)
        if t is True:
            self.exec_block(s.body, st, ctx)
            return
        if t is False:
            self.exec_block(s.orelse, st, ctx)
            return
        self.branch(c, lambda x: self.exec_block(s.body, x, ctx), lambda x: self.exec_block(s.orelse, x, ctx), st, s.test)

    def branch(self, c, fa, fb, st, test=None):
        la, lb = tuple(cond_lits(c, True)), tuple(cond_lits(c, False))
        p = st.path
        s2 = st.fork()
        st.path = p + la
        s2.path = p + lb
        f0 = st.facts
        ka = kb = ()
        if test is not None:
            ka, kb = test_facts(test, True), test_facts(test, False)
            st.facts, s2.facts = f0 + ka, f0 + kb
        try:
            fa(st)
        except Dead:
            st.dead = True
        try:
            fb(s2)
        except Dead:
            s2.dead = True
        if st.dead and s2.dead:
            return
        if st.dead:
            st.heap, st.path, st.dead, st.facts = s2.heap, s2.path, False, s2.facts
            return
        if s2.dead:
            return
        self.join_states(st, s2, la, lb, ka, kb)
        n = 0
        while n < min(len(st.facts), len(s2.facts)) and st.facts[n] is s2.facts[n]:
            n += 1
        st.facts = st.facts[:n]

    def x_Pass(self, s, st, ctx):
        pass

    def x_Global(self, s, st, ctx):
        ctx.globals_.update(s.names)

    def x_Nonlocal(self, s, st, ctx):
        ctx.nonlocals.update(s.names)

    def x_For(self, s, st, ctx):
        it = self.eval(s.iter, st, ctx)
        el = self.elements(it, st)
        sb, sc = ctx.breaks, ctx.continues
        ctx.breaks = []
        if el is not None and el[1] is None and len(el[0]) <= 64:
            for x in el[0]:
                ctx.continues = []
                self.assign(s.target, x, st, ctx)
                self.exec_block(s.body, st, ctx)
                self.merge_into(st, ctx.continues)
                if st.dead:
                    break
            if not st.dead and s.orelse:
                self.exec_block(s.orelse, st, ctx)
        else:
            x = self.element_of(it, st)
            for _ in range(2):
                ctx.continues = []
                skip = st.fork()
                self.assign(s.target, x, st, ctx)
                self.exec_block(s.body, st, ctx)
                self.merge_into(st, ctx.continues)
                if st.dead:
                    st.heap, st.path, st.dead = skip.heap, skip.path, False
                    break
                st.path = skip.path
                self.join_states(st, skip, (), ())
            if s.orelse:
                self.exec_block(s.orelse, st, ctx)
        self.merge_into(st, ctx.breaks)
        ctx.breaks, ctx.continues = sb, sc

    x_AsyncFor = x_For

    def merge_into(self, st, states):
        for x in states:
            if st.dead:
                st.heap, st.path, st.dead, st.facts = x.heap, x.path, False, x.facts
            else:
                self.join_states(st, x, (), ())

    def x_While(self, s, st, ctx):
        sb, sc = ctx.breaks, ctx.continues
        ctx.breaks = []
        p = st.path
        for _ in range(2):
            ctx.continues = []
            v = self.eval(s.test, st, ctx)
            t, c = self.truth(v, st)
            if t is False:
                break
            skip = st.fork() if t is None else None
            st.path = st.path + (tuple(cond_lits(c, True)) if t is None else ())
            self.exec_block(s.body, st, ctx)
            self.merge_into(st, ctx.continues)
            if st.dead:
                if skip is not None:
                    st.heap, st.path, st.dead = skip.heap, skip.path, False
                break
            st.path = p
            if skip is not None:
                skip.path = p
                self.join_states(st, skip, (), ())
        self.merge_into(st, ctx.breaks)
        if not st.dead:
            st.path = p
        ctx.breaks, ctx.continues = sb, sc

    def x_Break(self, s, st, ctx):
        ctx.breaks.append(st.fork())
        st.dead = True

    def x_Continue(self, s, st, ctx):
        ctx.continues.append(st.fork())
        st.dead = True

    def x_Try(self, s, st, ctx):
        pre = st.fork()
        self.exec_block(s.body, st, ctx)
        if not st.dead and s.orelse:
            self.exec_block(s.orelse, st, ctx)
        outs = []
        for h in s.handlers:
            x = pre.fork()
            if h.type is not None:
                self.eval(h.type, x, ctx)
            if h.name:
                self.store_name(h.name, unknown(), x, ctx)
            self.exec_block(h.body, x, ctx)
            if not x.dead:
                outs.append(x)
        self.merge_into(st, outs)
        if s.finalbody:
            d = st.dead
            st.dead = False
            self.exec_block(s.finalbody, st, ctx)
            st.dead = st.dead or d

    x_TryStar = x_Try

    def x_With(self, s, st, ctx):
        for i in s.items:
            v = self.eval(i.context_expr, st, ctx)
            if isinstance(v, Ref) and self.get(st, v.id).kind == "obj":
                h = self.get(st, v.id)
                f, _ = h.cls.lookup("__enter__") if h.cls else (None, None)
                if isinstance(f, Func):
                    v = self.call(f.bind(v), [], {}, st, ctx, i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, ctx)
        self.exec_block(s.body, st, ctx)

    x_AsyncWith = x_With

    def x_Match(self, s, st, ctx):
        subj = self.eval(s.subject, st, ctx)
        rest = st.fork()
        outs = []
        for c in s.cases:
            if rest.dead:
                break
            tri = self.match_pattern(c.pattern, subj, rest, ctx)
            if tri is False:
                continue
            x = rest.fork()
            self.bind_pattern(c.pattern, subj, x, ctx)
            if c.guard is not None:
                g = self.eval(c.guard, x, ctx)
                t, cc = self.truth(g, x)
                if t is False:
                    continue
                if t is None:
                    tri = None
                    x.path = x.path + tuple(cond_lits(cc, True))
            self.exec_block(c.body, x, ctx)
            if not x.dead:
                outs.append(x)
            if tri is True:
                rest.dead = True
        st.dead = rest.dead
        if not rest.dead:
            st.heap, st.path = rest.heap, rest.path
        self.merge_into(st, outs)

    def match_pattern(self, p, v, st, ctx):
        if isinstance(p, ast.MatchValue):
            pv = self.eval(p.value, st, ctx)
            r = self.compare_eq(v, pv, st)
            return r
        if isinstance(p, ast.MatchAs):
            return True if p.pattern is None else self.match_pattern(p.pattern, v, st, ctx)
        if isinstance(p, ast.MatchOr):
            rs = [self.match_pattern(q, v, st, ctx) for q in p.patterns]
            return True if True in rs else (None if None in rs else False)
        if isinstance(p, ast.MatchSingleton):
            if p.value is None:
                return isinstance(v, NoneV) if not (isinstance(v, Num) and v.const is None) and not isinstance(v, Alt) else None
            return None
        return None

    def bind_pattern(self, p, v, st, ctx):
        for q in ast.walk(p):
            if isinstance(q, ast.MatchAs) and q.name:
                self.store_name(q.name, v if q is p else unknown(), st, ctx)
            elif isinstance(q, ast.MatchStar) and q.name:
                self.store_name(q.name, unknown(), st, ctx)

    def x_FunctionDef(self, s, st, ctx):
        f = self.make_func(s, st, ctx)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, f, st, ctx)
        self.store_name(s.name, v, st, ctx, s)

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, s, st, ctx):
        a = s.args
        defaults = [self.eval(d, st, ctx) for d in a.defaults]
        kwd = {k.arg: self.eval(d, st, ctx) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        frames = () if ctx.func == "<module>" else ((ctx.frame,) if not isinstance(ctx.func, _ClsMark) else ()) + tuple(ctx.frames)
        ctx.captured = True
        name = getattr(s, "name", "<lambda>")
        qual = (ctx.cls.qual + "." if ctx.cls is not None and isinstance(ctx.func, _ClsMark) else (str(ctx.func) + "." if ctx.func != "<module>" else "")) + name
        f = Func(s, ctx.module, frames, ctx.cls, name, None, defaults, kwd, None, qual)
        self.emit("def", s, ctx, func=f)
        return f

    def decorate(self, d, v, f, st, ctx):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter"):
            base = self.eval(d.value, st, ctx)
            if isinstance(base, Prop):
                if d.attr == "setter":
                    return Prop(base.fget, v)
                if d.attr == "getter":
                    return Prop(v, base.fset)
                return base
            return unknown()
        dv = self.eval(d, st, ctx)
        if isinstance(dv, Ext):
            n = dv.name
            last = n.split(".")[-1]
            if last in ("property", "cached_property", "abstractproperty"):
                p = Prop(v)
                p.cached = last == "cached_property"
                return p
            if last in ("lru_cache", "cache") and isinstance(v, Func):
                v.attrs["cached"] = True
                return v
            if last == "staticmethod":
                if isinstance(v, Func):
                    v.kindm = "static"
                return v
            if last == "classmethod":
                if isinstance(v, Func):
                    v.kindm = "class"
                return v
            if last in ("abstractmethod",):
                if isinstance(v, Func):
                    v.attrs["abstract"] = True
                elif isinstance(v, Prop):
                    v.fget.attrs["abstract"] = True
                return v
            return v
        if isinstance(dv, (Func, Partial)):
            return self.call(dv, [v], {}, st, ctx, d)
        return v

    def x_ClassDef(self, s, st, ctx):
        bases = [self.eval(b, st, ctx) for b in s.bases]
        bases = [b for b in bases]
        cls = Cls(s.name, s, ctx.module, bases, {}, (ctx.cls.qual + "." if ctx.cls else "") + s.name)
        fid = self.new_id()
        st.heap[fid] = HFrame({})
        cctx = Ctx(fid, ctx.module, cls, _ClsMark(s.name), ctx, ctx.depth, st.path, ((ctx.frame,) if ctx.func != "<module>" else ()) + tuple(ctx.frames))
        self.exec_block(s.body, st, cctx)
        ns = {mangle(k, cctx): v for k, v in self.get(st, fid).vars.items()}
        cls.ns = ns
        for d in s.decorator_list:
            dv = self.eval(d, st, ctx)
            n = dv.name if isinstance(dv, Ext) else (dv.f.name if isinstance(dv, Partial) and isinstance(dv.f, Ext) else "")
            if "dataclass" in n or (isinstance(d, ast.Call) and "dataclass" in ast.unparse(d.func)):
                cls.ns["__dataclass__"] = True
                if "__init__" not in ns:
                    cls.ns["__init__"] = DataInit(cls)
        if cls.is_enum():
            for k, v in list(ns.items()):
                if not k.startswith("_") and not isinstance(v, (Func, Prop)):
                    ns[k] = EnumVal(cls, k, v)
        self.store_name(s.name, cls, st, ctx, s)

    def x_Import(self, s, st, ctx):
        for a in s.names:
            m = self.modules.get(a.name)
            if a.asname:
                v = ModV(m) if m else Ext(a.name)
                if not m and a.name.startswith(self.pkg + ".") and not self.exists_native(a.name):
                    self.emit("import_missing", s, ctx, module=a.name, name=None)
                self.store_name(a.asname, v, st, ctx, s)
            else:
                if not m and a.name.startswith(self.pkg + ".") and not self.exists_native(a.name):
                    self.emit("import_missing", s, ctx, module=a.name, name=None)
                top = a.name.split(".")[0]
                tm = self.modules.get(top)
                self.store_name(top, ModV(tm) if tm else Ext(top), st, ctx, s)

    def x_ImportFrom(self, s, st, ctx):
        mod = self.abs_module(s, ctx.module)
        m = self.modules.get(mod)
        for a in s.names:
            if a.name == "*":
                if m:
                    ns = self.module_ns(m)
                    al = ns.get("__all__")
                    names = [k for k in ns if not k.startswith("_")]
                    if isinstance(al, Ref):
                        h = self.get(st, al.id)
                        if h.kind == "list" and h.rest is None and all(isinstance(x, Str) for x in h.elems):
                            names = [x.s for x in h.elems]
                    for k in names:
                        if k in ns:
                            self.store_name(k, ns[k], st, ctx, s)
                continue
            if m is not None:
                v = Lazy(mod, a.name)
            elif mod.split(".")[0] == self.pkg and not self.exists_native(mod):
                self.emit("import_missing", s, ctx, module=mod, name=a.name)
                v = unknown()
            else:
                v = ext_attr(mod, a.name)
            self.store_name(a.asname or a.name, v, st, ctx, s)

    def abs_module(self, s, module):
        if not s.level:
            return s.module or ""
        parts = module.name.split(".")
        if not module.is_pkg:
            parts = parts[:-1]
        up = s.level - 1
        parts = parts[: len(parts) - up] if up else parts
        return ".".join(parts + ([s.module] if s.module else []))

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, ctx):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return unknown()
        return m(e, st, ctx)

    def e_Constant(self, e, st, ctx):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, str):
            return Str(v)
        if isinstance(v, (bool, int, float, complex)):
            return literal(v)
        return EllipsisV() if v is Ellipsis else unknown()

    def e_Name(self, e, st, ctx):
        return self.load_name(e.id, st, ctx, e)

    def e_NamedExpr(self, e, st, ctx):
        v = self.eval(e.value, st, ctx)
        self.assign(e.target, v, st, ctx)
        return v

    def e_JoinedStr(self, e, st, ctx):
        out = []
        ok = True
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(str(p.value))
            else:
                v = self.eval(p.value, st, ctx)
                if isinstance(v, Str) and p.format_spec is None and p.conversion == -1:
                    out.append(v.s)
                elif isinstance(v, Num) and isinstance(v.const, int) and p.format_spec is None:
                    out.append(str(v.const))
                else:
                    ok = False
        return Str("".join(out)) if ok else unknown()

    def e_Tuple(self, e, st, ctx):
        return Tup(self.eval_elts(e.elts, st, ctx) or [])

    def eval_elts(self, elts, st, ctx):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, ctx)
                el = self.elements(v, st)
                if el is not None and el[1] is None:
                    out += list(el[0])
                else:
                    out.append(self.element_of(v, st))
            else:
                out.append(self.eval(x, st, ctx))
        return out

    def e_List(self, e, st, ctx):
        return self.alloc(st, HList(self.eval_elts(e.elts, st, ctx)))

    def e_Set(self, e, st, ctx):
        return self.alloc(st, HList(self.eval_elts(e.elts, st, ctx), typ="set"))

    def e_Dict(self, e, st, ctx):
        items, rest = {}, None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, st, ctx)
                if isinstance(d, Ref) and self.get(st, d.id).kind == "dict":
                    h = self.get(st, d.id)
                    items.update(h.items)
                    if h.rest is not None:
                        rest = h.rest if rest is None else self.join(rest, h.rest, st)
                else:
                    rest = unknown()
                continue
            kv = self.eval(k, st, ctx)
            vv = self.eval(v, st, ctx)
            key = pykey(kv)
            if key is CANNOT:
                rest = vv if rest is None else self.join(rest, vv, st)
            else:
                if key in items:
                    self.emit("dup_key", k, ctx, key=key)
                items[key] = vv
        return self.alloc(st, HDict(items, rest))

    def e_Lambda(self, e, st, ctx):
        return self.make_func(e, st, ctx)

    def e_IfExp(self, e, st, ctx):
        v = self.eval(e.test, st, ctx)
        t, c = self.truth(v, st)
        if t is True:
            return self.eval(e.body, st, ctx)
        if t is False:
            return self.eval(e.orelse, st, ctx)
        box = {}
        la, lb = tuple(cond_lits(c, True)), tuple(cond_lits(c, False))

        def fa(x):
            box["a"] = self.eval(e.body, x, ctx)

        def fb(x):
            box["b"] = self.eval(e.orelse, x, ctx)
        self.branch(c, fa, fb, st)
        if "a" not in box:
            if "b" not in box:
                raise Dead()
            return box["b"]
        if "b" not in box:
            return box["a"]
        return self.join(box["a"], box["b"], st, la, lb)

    def e_BoolOp(self, e, st, ctx):
        isand = isinstance(e.op, ast.And)
        vals, conds = [], []
        p0 = st.path
        for x in e.values:
            v = self.eval(x, st, ctx)
            t, c = self.truth(v, st)
            if t is (not isand):
                if not vals:
                    st.path = p0
                    return v
                vals.append(v)
                conds.append(("const", t))
                break
            if t is isand:
                if x is e.values[-1]:
                    vals.append(v)
                    last = v
                continue
            vals.append(v)
            conds.append(c)
            st.path = st.path + tuple(cond_lits(c, isand))
        st.path = p0
        if not conds:
            return vals[-1] if vals else literal(isand)
        if any(isinstance(c, tuple) and c[0] == "const" for c in conds):
            # and with a definitely false tail / or with a definitely true tail
            return Num(const=None, dim=LIT, cond=("unk", None), deps=self.deps_many(vals, st)) if not all(isinstance(v, Num) for v in vals) else literal(not isand, self.deps_many(vals, st))
        cond = conds[0] if len(conds) == 1 and len(vals) == 1 else ("and" if isand else "or", tuple(conds))
        allnum = all(isinstance(v, Num) for v in vals)
        if not allnum:
            r = vals[0]
            for v in vals[1:]:
                r = self.join(r, v, st)
            return r
        if all(v.cond is not None for v in vals):
            return Num(dim=LIT, cond=cond, deps=self.deps_many(vals, st), form={fresh_atom(): 1.0})
        r = vals[0]
        for v in vals[1:]:
            r = self.join_num(r, v)
        return r.copy(cond=cond)

    def e_UnaryOp(self, e, st, ctx):
        v = self.eval(e.operand, st, ctx)
        if isinstance(e.op, ast.Not):
            t, c = self.truth(v, st)
            if t is not None:
                return literal(not t)
            return Num(dim=LIT, cond=("not", c), deps=self.deps_of(v, st), form={fresh_atom(): 1.0})
        if isinstance(v, Num):
            if isinstance(e.op, ast.Invert):
                return Num(dim=LIT, cond=("not", v.cond) if v.cond else None, deps=v.deps, form={fresh_atom(): 1.0})
            if isinstance(e.op, ast.USub):
                c = None
                if v.const is not None and not isinstance(v.const, bool):
                    c = -v.const
                return Num(c, v.dim, {k: -x for k, x in v.form.items()} if v.form else None, lin_scale(v.lin, -1), v.nz, v.deps, E, None, v.kind)
            return v.copy(alias=E)
        return unknown(deps=self.deps_of(v, st))

    def e_BinOp(self, e, st, ctx):
        a = self.eval(e.left, st, ctx)
        b = self.eval(e.right, st, ctx)
        return self.binop(e.op, a, b, st, ctx, e)

    def is_onedim(self, x):
        return bool(x.form) and len(x.form) == 1 and next(iter(x.form)) in self.onedim

    def binop(self, op, a, b, st, ctx, node):
        if isinstance(a, Alt) or isinstance(b, Alt):
            av = a.vals if isinstance(a, Alt) else (a,)
            bv = b.vals if isinstance(b, Alt) else (b,)
            if all(isinstance(x, Num) for x in av + bv):
                r = None
                for x in av:
                    for y in bv:
                        r = self.join(r, self.binop(op, x, y, st, ctx, node), st)
                return r
            a = self.numify(a, st)
            b = self.numify(b, st)
        if isinstance(a, EnumVal):
            a = a.value
        if isinstance(b, EnumVal):
            b = b.value
        if isinstance(a, Num) and isinstance(b, Num):
            r = self.arith(op, a, b, ctx, node)
            for x, y in ((a, b), (b, a)):
                if isinstance(x.kind, Vec) and x.poly is None and y.poly is not None and y.poly1 is None and len(y.poly) > 1 and y.kind != "column":
                    self.emit("broadcast", node, ctx, n=len(y.poly), deps=x.deps)
            if a.poly is not None and b.poly is not None and len(a.poly) == len(b.poly):
                n = len(self.events)
                r.poly = tuple(self.binop(op, x, y, st, ctx, node) for x, y in zip(a.poly, b.poly))
                del self.events[n:]
            elif isinstance(op, ast.Add) and a.poly is not None and is_zero(b) or isinstance(op, ast.Add) and b.poly is not None and is_zero(a):
                r.poly = a.poly if a.poly is not None else b.poly
            elif a.poly is not None and b.poly is None and (b.kind == "scalar" or a.kind == "column" or self.onedim and self.is_onedim(b)) or \
                    b.poly is not None and a.poly is None and (a.kind == "scalar" or b.kind == "column" or self.onedim and self.is_onedim(a)):
                n = len(self.events)
                r.poly = tuple(self.arith(op, x, b, ctx, node) for x in a.poly) if a.poly is not None else tuple(self.arith(op, a, x, ctx, node) for x in b.poly)
                del self.events[n:]
            if "column" in (a.kind, b.kind) and r.poly is not None:
                r.kind = "column"
            if (a.poly1 is None) != (b.poly1 is None) and a.poly is None and b.poly is None:
                n = len(self.events)
                r.poly1 = tuple(self.arith(op, x, b, ctx, node) for x in a.poly1) if a.poly1 is not None else tuple(self.arith(op, a, x, ctx, node) for x in b.poly1)
                del self.events[n:]
            return r
        if isinstance(op, ast.Div) and isinstance(a, PathV):
            return PathV(os.path.join(a.p, b.s if isinstance(b, Str) else b.p)) if isinstance(b, (Str, PathV)) else unknown()
        if isinstance(op, ast.Add):
            if isinstance(a, Str) and isinstance(b, Str):
                return Str(a.s + b.s)
            ea, eb = self.elements(a, st), self.elements(b, st)
            if ea is not None and eb is not None and not isinstance(a, Num) and not isinstance(b, Num) and type(a) is type(b):
                if isinstance(a, Tup):
                    return Tup(ea[0] + eb[0])
                rest = None
                for r in (ea[1], eb[1]):
                    if r is not None:
                        rest = r if rest is None else self.join(rest, r, st)
                if ea[1] is None:
                    return self.alloc(st, HList(ea[0] + eb[0], eb[1]))
                for r in eb[0]:
                    rest = self.join(rest, r, st)
                return self.alloc(st, HList(ea[0], rest))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Num) and isinstance(x, (Tup, Ref)):
                    el = self.elements(x, st)
                    if el is not None and el[1] is None and (isinstance(x, Tup) or self.get(st, x.id).kind == "list"):
                        if isinstance(y.const, int) and y.const * len(el[0]) < 200:
                            r = list(el[0]) * y.const
                            return Tup(r) if isinstance(x, Tup) else self.alloc(st, HList(r))
                        if y.const is None and el[0]:
                            r = el[0][0]
                            for z in el[0][1:]:
                                r = self.join(r, z, st)
                            return self.alloc(st, HList((), r))
        if isinstance(op, ast.Mod) and isinstance(a, Str):
            return unknown()
        if isinstance(op, ast.BitOr):
            if isinstance(a, Ref) and isinstance(b, Ref) and self.get(st, a.id).kind == "dict" and self.get(st, b.id).kind == "dict":
                ha, hb = self.get(st, a.id), self.get(st, b.id)
                it = dict(ha.items)
                it.update(hb.items)
                return self.alloc(st, HDict(it, ha.rest if hb.rest is None else hb.rest))
        # numpy broadcasting over python sequences: elementwise on a joined element
        d = self.deps_of(a, st) | self.deps_of(b, st)
        na, nb = self.numify(a, st), self.numify(b, st)
        if isinstance(na, Num) and isinstance(nb, Num):
            return self.arith(op, na, nb, ctx, node)
        return unknown(deps=d)

    def numify(self, v, st):
        """Collapse a container to one numeric summary (as numpy would broadcast over it)."""
        if isinstance(v, Num):
            return v
        if isinstance(v, (Tup, Ref)):
            el = self.elements(v, st)
            if el is not None:
                xs = list(el[0]) + ([el[1]] if el[1] is not None else [])
                r = None
                for x in xs:
                    x = self.numify(x, st)
                    r = x if r is None else self.join_num(r, x)
                return r.copy(alias=E) if r is not None else unknown()
            return unknown(deps=self.deps_of(v, st), lin=self.lin_deep(v, st))
        if isinstance(v, Alt):
            r = None
            for x in v.vals:
                if isinstance(x, NoneV):
                    continue
                x = self.numify(x, st)
                r = x if r is None else self.join_num(r, x)
            return r or unknown()
        return unknown(deps=self.deps_of(v, st))

    def arith(self, op, a, b, ctx, node):
        deps = a.deps | b.deps
        kind = "scalar" if a.kind == b.kind == "scalar" else (vec(a.kind if a.const is None else "scalar", b.kind if b.const is None else "scalar") if "array" in (a.kind, b.kind) else None)
        const = fold(op, a.const, b.const)
        if isinstance(op, (ast.Add, ast.Sub)):
            dim = self.unify(a, b, ctx, node, "add")
            form = None
            if a.form is not None and b.form is not None:
                sg = 1 if isinstance(op, ast.Add) else -1
                form = dict(a.form)
                for k, v in b.form.items():
                    w = form.get(k, 0.0)
                    form[k] = w + sg * v if abs(w + sg * v) > 1e-12 * abs(v) else 0.0
                form = {k: v for k, v in form.items() if v} or {1: 0.0}
            na, nb = lits_of_num(a), lits_of_num(b)
            if na is ALL and nb is ALL:
                nz = ALL
            elif na is ALL:
                nz = nb
            elif nb is ALL:
                nz = na
            else:
                nz = na & nb
            lin = lin_add(a.lin, b.lin if isinstance(op, ast.Add) else lin_scale(b.lin, -1))
            r = Num(const, dim, form, lin, nz, deps, E, None, kind)
            if const is not None and const == 0 and not isinstance(const, bool):
                r.nz = ALL
            return r
        if isinstance(op, (ast.Mult, ast.MatMult)):
            dim = dmul(a.dim, b.dim)
            if is_zero(a) or is_zero(b):
                return Num(0 if const is None else const, LIT, {1: 0.0}, None, ALL, deps, E, None, kind)
            if a.cond is not None and b.cond is not None:
                return Num(None, LIT, {fresh_atom(): 1.0}, None, E, deps, E, ("and", (a.cond, b.cond)), kind)
            if a.const is not None and a.form is not None and b.form is not None and isinstance(a.const, (int, float)):
                form = {k: v * float(a.const) for k, v in b.form.items()}
            elif b.const is not None and a.form is not None and b.form is not None and isinstance(b.const, (int, float)):
                form = {k: v * float(b.const) for k, v in a.form.items()}
            elif a.form is not None and b.form is not None:
                fa, fb = fkt(a.form), fkt(b.form)
                if fa == fb:
                    form = {("pow", fa, 2): 1.0}
                else:
                    form = {("mul",) + tuple(sorted((fa, fb), key=repr)): 1.0}
            else:
                form = {fresh_atom(): 1.0}
            na, nb = lits_of_num(a), lits_of_num(b)
            nz = ALL if na is ALL or nb is ALL else na | nb
            return Num(const, dim, clip(form), lin_mul(a, b), nz, deps, E, None, kind)
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            dim = dmul(a.dim, dpow(b.dim, -1))
            if is_zero(a) and not is_zero(b):
                return Num(0 if const is None else const, LIT, {1: 0.0}, None, ALL, deps, E, None, kind)
            if isinstance(b.const, (int, float)) and b.const != 0 and a.form is not None:
                form = {k: v / float(b.const) for k, v in a.form.items()}
            elif a.form is not None and b.form is not None:
                fa, fb = fkt(a.form), fkt(b.form)
                form = {1: 1.0} if fa == fb else {("div", fa, fb): 1.0}
            else:
                form = {fresh_atom(): 1.0}
            nz = lits_of_num(a)
            lin = {}
            if a.lin:
                if isinstance(b.const, (int, float)) and b.const:
                    lin = lin_scale(a.lin, 1.0 / b.const)
                else:
                    lin = {k: (c, True) for k, (c, _) in a.lin.items()}
            for k in b.lin:
                lin[k] = (None, True)
            return Num(const, dim, clip(form), lin, nz, deps, E, None, kind)
        if isinstance(op, ast.Pow):
            p = b.const
            if isinstance(p, (int, float)) and not isinstance(p, bool):
                dim = dpow(a.dim, p)
                if isinstance(p, float) and p == int(p):
                    p = int(p)
                if p == 1:
                    form = a.form
                elif isinstance(a.const, (int, float)) and const is not None and isinstance(const, (int, float)):
                    form = {1: float(const)}
                elif a.form is not None:
                    form = {("pow", fkt(a.form), p): 1.0}
                    if len(a.form) == 1 and isinstance(p, int):
                        (k, v), = a.form.items()
                        if k != 1:
                            form = {("pow", fkt({k: 1.0}), p): v ** p}
                else:
                    form = {fresh_atom(): 1.0}
                nz = lits_of_num(a) if p > 0 else E
            else:
                dim = D0 if a.dim == D0 else (LIT if a.dim is LIT else None)
                if b.dim not in (None, LIT, D0):
                    self.emit("dim_arg", node, ctx, fn="**", dim=b.dim)
                fa, fb = fkt(a.form) if a.form is not None else None, fkt(b.form) if b.form is not None else None
                form = {("expo", fa, fb) if fa is not None and fb is not None and size(fa, CLIP[0]) + size(fb, CLIP[0]) < CLIP[0] * 80 // 150 else fresh_atom(): 1.0}
                nz = E
            lin = {k: (None, True) for k in list(a.lin) + list(b.lin)}
            if p == 1:
                lin = a.lin
            return Num(const, dim, clip(form), lin, nz, deps, E, None, kind)
        if isinstance(op, ast.Mod):
            dim = self.unify(a, b, ctx, node, "mod")
            return Num(const, dim, {("u", "mod", naming.key(self, a, None), naming.key(self, b, None)) if self.exact else fresh_atom(): 1.0}, a.lin, E, deps, E, None, kind)
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            if a.cond is not None and b.cond is not None:
                return Num(const, LIT, {fresh_atom(): 1.0}, None, E, deps, E, ("and" if isinstance(op, ast.BitAnd) else "or", (a.cond, b.cond)), kind)
            c = None
            if isinstance(op, ast.BitAnd) and (a.cond is not None or b.cond is not None):
                c = ("and", tuple(x.cond if x.cond is not None else ("unk", id(x)) for x in (a, b)))
            return Num(const, LIT, {fresh_atom(): 1.0}, None, E, deps, E, c, kind)
        return Num(const, None, {fresh_atom(): 1.0}, None, E, deps, E, None, kind)

    def unify(self, a, b, ctx, node, what):
        if is_wild(a):
            return b.dim
        if is_wild(b):
            return a.dim
        if a.dim is None or b.dim is None:
            return None
        if a.dim is LIT and b.dim is LIT:
            return LIT
        if a.dim is LIT or b.dim is LIT:
            d = b.dim if a.dim is LIT else a.dim
            lit = a if a.dim is LIT else b
            if d != D0 and (lit.const is not None):
                self.emit("dim_literal", node, ctx, what=what, lit=lit.const, dim=d)
            return d
        if a.dim != b.dim:
            self.emit("dim_mismatch", node, ctx, what=what, a=a.dim, b=b.dim)
            return None
        return a.dim

    def e_Compare(self, e, st, ctx):
        left = self.eval(e.left, st, ctx)
        parts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, ctx)
            parts.append(self.compare(op, left, right, st, ctx, e))
            left = right
        if len(parts) == 1:
            return parts[0]
        if any(p.const is False for p in parts):
            return literal(False)
        rest = [p for p in parts if p.const is not True]
        if not rest:
            return literal(True)
        if len(rest) == 1:
            return rest[0]
        return Num(dim=LIT, cond=("and", tuple(p.cond for p in rest)), deps=self.deps_many(rest, st), form={fresh_atom(): 1.0})

    def mark(self, st, out=False):
        m = getattr(st, 'heap', {}).get(self.probe_id) or self.base.get(self.probe_id)
        if m is not None and hasattr(st, 'heap'):
            st.heap[self.probe_id] = HMark(True, True, m.out) if not out else HMark(m.may, m.must, True)

    def compare_eq(self, a, b, st):
        """True/False/None"""
        if self.probe is not None and (a is self.probe or b is self.probe) and not isinstance(a, NoneV) and not isinstance(b, NoneV):
            self.mark(st, out=pykey(a) is CANNOT or pykey(b) is CANNOT)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, EnumVal) and isinstance(y, Num) and any(isinstance(c, Ext) and c.name.split(".")[-1] in ("IntEnum", "IntFlag") for c in x.cls.ext_bases()):
                return self.compare_eq(x.value, y, st) if isinstance(x.value, Num) else None
        ka, kb = pykey(a), pykey(b)
        if ka is not CANNOT and kb is not CANNOT:
            return ka == kb
        if isinstance(a, Alt) or isinstance(b, Alt):
            av = a.vals if isinstance(a, Alt) else (a,)
            bv = b.vals if isinstance(b, Alt) else (b,)
            rs = {self.compare_eq(x, y, st) for x in av for y in bv}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(a, (Ext, Variant)) and isinstance(b, (Ext, Variant)) and a.name.startswith("rustext.enum.") and b.name.startswith("rustext.enum."):
            return a.name == b.name
        if isinstance(a, (Str, NoneV, EnumVal)) and isinstance(b, (Str, NoneV, EnumVal)):
            return type(a) is type(b) and pykey(a) == pykey(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            ea, eb = self.elements(a, st), self.elements(b, st)
            if ea and eb and ea[1] is None and eb[1] is None:
                if len(ea[0]) != len(eb[0]):
                    return False
                rs = [self.compare_eq(x, y, st) for x, y in zip(ea[0], eb[0])]
                return False if False in rs else (True if all(r is True for r in rs) else None)
        if isinstance(a, (Tup,)) and isinstance(b, Tup):
            if len(a.elems) != len(b.elems):
                return False
            rs = [self.compare_eq(x, y, st) for x, y in zip(a.elems, b.elems)]
            return False if False in rs else (True if all(r is True for r in rs) else None)
        return None

    def alt_cond(self, a, b, st):
        """Condition under which a value that is one of several (each under known path conditions) equals a known one."""
        if isinstance(b, Alt):
            a, b = b, a
        if not isinstance(a, Alt) or a.when is None or isinstance(b, Alt):
            return None
        out = {True: [], False: []}
        for v, w in zip(a.vals, a.when):
            r = self.compare_eq(v, b, st)
            if r is None:
                return None
            out[r] += [("and", tuple(("lit", l) for l in sorted(c, key=repr))) for c in w]
        return ("alt",) + tuple(xs[0] if len(xs) == 1 else ("or", tuple(xs)) for xs in (out[True], out[False]))

    def compare(self, op, a, b, st, ctx, node):
        deps = self.deps_of(a, st) | self.deps_of(b, st)
        unk = Num(dim=LIT, cond=("lit", Lit("opaque", tok=("cmp", fresh_atom()[2]))), deps=deps, form={fresh_atom(): 1.0})
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = None
            if isinstance(b, NoneV):
                if isinstance(a, NoneV):
                    r = True
                elif isinstance(a, Alt):
                    r = False if not any(isinstance(x, NoneV) or (isinstance(x, Num) and x.const is None) for x in a.vals) else None
                elif isinstance(a, Num):
                    r = False if (a.const is not None or a.kind is not None or a.dim not in (None,)) else None
                    if r is None:
                        return Num(dim=LIT, cond=("lit", Lit("opaque", tok=("isnone", fkey(a.form) if a.form else id(a)), pol=isinstance(op, ast.Is))), deps=deps, form={fresh_atom(): 1.0})
                else:
                    r = False
            else:
                r = self.compare_eq(a, b, st)
            if r is None:
                return unk
            return literal(r if isinstance(op, ast.Is) else not r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a, st)
            if r is None:
                return unk
            return literal(r if isinstance(op, ast.In) else not r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.compare_eq(a, b, st)
            if r is not None:
                return literal(r if isinstance(op, ast.Eq) else not r)
            c = self.alt_cond(a, b, st)
            if c is not None:
                return Num(dim=LIT, cond=c if isinstance(op, ast.Eq) else ("not", c), deps=deps, form={fresh_atom(): 1.0})
            if isinstance(a, Num) and isinstance(b, Num):
                self.unify(a, b, ctx, node, "compare")
                if a.form is not None and b.form is not None:
                    f = fsub(a.form, b.form)
                    return Num(dim=LIT, cond=("lit", Lit("eq", form=f, pol=isinstance(op, ast.Eq))), deps=deps, form={fresh_atom(): 1.0})
            if isinstance(a, Num) and isinstance(b, (Str, EnumVal)) or isinstance(b, Num) and isinstance(a, (Str, EnumVal)):
                n, s = (a, b) if isinstance(a, Num) else (b, a)
                if n.const is not None and not isinstance(s, EnumVal):
                    return literal(isinstance(op, ast.NotEq))
                return Num(dim=LIT, cond=("lit", Lit("opaque", tok=("eqs", fkey(n.form) if n.form else id(n), pykey(s)), pol=isinstance(op, ast.Eq))), deps=deps, form={fresh_atom(): 1.0})
            return unk
        if isinstance(a, (Alt, Tup, Ref)) or isinstance(b, (Alt, Tup, Ref)):
            a, b = self.numify(a, st), self.numify(b, st)
        if isinstance(a, Num) and isinstance(b, Num):
            self.unify(a, b, ctx, node, "compare")
            if isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)):
                r = {ast.Lt: a.const < b.const, ast.LtE: a.const <= b.const, ast.Gt: a.const > b.const, ast.GtE: a.const >= b.const}[type(op)]
                return literal(r, deps)
            if a.form is not None and b.form is not None:
                f = fsub(a.form, b.form) if isinstance(op, (ast.Gt, ast.GtE)) else fsub(b.form, a.form)
                l = Lit("pos", form=f)
                d = self.decide(l, st)
                if d is not None:
                    return literal(d, deps)
                kind = "array" if "array" in (a.kind, b.kind) else ("scalar" if a.kind == b.kind == "scalar" else None)
                return Num(dim=LIT, cond=("lit", l), deps=deps, form={fresh_atom(): 1.0}, kind=kind)
        return unk

    def decide(self, l, st):
        if l.kind != "pos":
            for g in st.path:
                if g == l:
                    return True
                n = l.neg()
                if n is not None and g == n:
                    return False
            return None
        f = l.form
        ks = [k for k in f if k != 1 and abs(f[k]) > 1e-12]
        if not ks:
            c = f.get(1, 0.0)
            return c > 0 if c != 0 else None
        for g in st.path:
            if g.kind != "pos":
                continue
            for sg in (1, -1):
                # sg*f == g + c ?
                ok = True
                for k in set(f) | set(g.form):
                    if k == 1:
                        continue
                    if abs(sg * f.get(k, 0.0) - g.form.get(k, 0.0)) > 1e-9:
                        ok = False
                        break
                if not ok:
                    continue
                c = sg * f.get(1, 0.0) - g.form.get(1, 0.0)
                if c >= -1e-12:
                    return sg == 1
        return None

    def contains(self, c, x, st):
        if self.probe is not None and x is self.probe:
            self.probe = None
            r = self.contains(c, x, st)
            self.probe = x
            self.mark(st, out=r is None)
            return r
        if isinstance(c, Str) and isinstance(x, Str):
            return x.s in c.s
        if isinstance(c, Alt):
            rs = {self.contains(y, x, st) for y in c.vals}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(x, Alt):
            rs = {self.contains(c, y, st) for y in x.vals}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(c, Ref):
            h = self.get(st, c.id)
            if h.kind == "dict":
                k = pykey(x)
                if k is CANNOT:
                    return None
                if k in h.items:
                    return True
                return False if h.rest is None else None
        el = self.elements(c, st)
        if el is None or isinstance(c, Num):
            return None
        rs = [self.compare_eq(x, y, st) for y in el[0]]
        if True in rs:
            return True
        if el[1] is not None or None in rs:
            return None
        return False

    def e_Attribute(self, e, st, ctx):
        o = self.eval(e.value, st, ctx)
        return self.getattr(o, mangle(e.attr, ctx), st, ctx, e)

    def getattr(self, o, name, st, ctx, node):
        if isinstance(o, Lazy):
            o = self.resolve_lazy(o, st, node, ctx)
        if isinstance(o, Alt):
            r = None
            for x in o.vals:
                if isinstance(x, NoneV):
                    continue
                r = self.join(r, self.getattr(x, name, st, ctx, node), st)
            return r if r is not None else unknown()
        if isinstance(o, ModV):
            ns = self.module_ns(o.mod, st)
            if name in ns:
                return self.resolve_lazy(ns[name], st, node, ctx)
            if name in o.mod.children:
                return ModV(o.mod.children[name])
            if self.exists_native(o.mod.name + "." + name):
                return Ext(o.mod.name + "." + name)
            if o.mod.state == 2 and not (name.startswith("__") and name.endswith("__")) and "__getattr__" not in ns:
                self.emit("module_attr_missing", node, ctx, module=o.mod.name, name=name)
            return unknown()
        if isinstance(o, Ext):
            return ext_attr(o.name, name)
        if isinstance(o, EnumVal):
            if name == "value":
                return o.value
            if name == "name":
                return Str(o.name)
            f, c = o.cls.lookup(name)
            if isinstance(f, Prop):
                return self.call(f.fget.bind(o), [], {}, st, ctx, node)
            if isinstance(f, Func):
                return f.bind(o)
            return unknown()
        if isinstance(o, Cls):
            v, c = o.lookup(name)
            if v is not None:
                v = self.resolve_lazy(v, st, node, ctx)
                if isinstance(v, Func) and v.kindm == "class":
                    return v.bind(o)
                return v
            if name in ("__name__", "__qualname__"):
                return Str(o.name)
            if name in ("__dict__", "__doc__", "__module__", "__mro__", "__members__"):
                return unknown()
            if not o.ext_bases() or all(isinstance(b, Ext) and b.name in ("builtins.object", "abc.ABC", "typing.Protocol", "typing.Generic") for b in o.ext_bases()):
                self.emit("attr_missing", node, ctx, cls=o.name, name=name)
            return unknown()
        if isinstance(o, SuperV):
            h = self.get(st, o.obj.id) if isinstance(o.obj, Ref) else None
            mro = (h.cls if h else o.obj if isinstance(o.obj, Cls) else o.cls).mro()
            nodes = [c.node for c in mro]
            i = nodes.index(o.cls.node) + 1 if o.cls.node in nodes else 1
            for c in mro[i:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Func):
                        return v.bind(o.obj) if v.kindm != "static" else v
                    if isinstance(v, Prop):
                        return self.call(v.fget.bind(o.obj), [], {}, st, ctx, node)
                    if isinstance(v, DataInit):
                        return DataInit(v.cls, o.obj)
                    return v
            return Method(o, name)
        if isinstance(o, Ref):
            h = self.get(st, o.id)
            if h.kind == "obj":
                return self.obj_getattr(o, h, name, st, ctx, node)
            return Method(o, name)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return Str(o.name)
            return unknown()
        if isinstance(o, Num):
            if name == "T" and is_table(o):
                return o.copy(kind=("table", o.kind[1], not o.kind[2]))
            if name in ("T", "real", "imag", "flat"):
                return o.copy(const=None, cond=None, form=o.form if name != "imag" else {fresh_atom(): 1.0})
            if o.kind == "fn" and name == "x":
                return Num(dim=o.argdim, form={fresh_atom(): 1.0}, deps=o.deps, kind="array")
            if name in ("shape", "size", "ndim", "dtype", "itemsize", "nbytes"):
                return Num(dim=LIT, form={fresh_atom(): 1.0}, deps=E, kind="scalar" if name in ("size", "ndim") else None)
            return Method(o, name)
        if isinstance(o, RngV):
            return unknown(deps=o.deps) if name in ("bit_generator", "_bit_generator", "seed_seq") else Method(o, name)
        if isinstance(o, PathV):
            return path_attr(o, name)
        if isinstance(o, Variant):
            return o.fields[name] if name in o.fields else unknown(deps=self.deps_of(o, st))
        if isinstance(o, (Str, Tup)):
            return Method(o, name)
        if isinstance(o, NoneV):
            self.emit("none_attr", node, ctx, name=name)
            return unknown()
        if isinstance(o, Prop):
            return unknown()
        if isinstance(o, Partial):
            return unknown()
        return unknown()

    def obj_getattr(self, o, h, name, st, ctx, node):
        cv, c = h.cls.lookup(name) if h.cls else (None, None)
        if isinstance(cv, Lazy):
            cv = self.resolve_lazy(cv, st, node, ctx)
        if isinstance(cv, FieldV):
            cv = cv.default
        if isinstance(cv, Prop):
            self.emit("prop_read", node, ctx, cls=h.cls, name=name, obj=o.id)
            if cv.cached and name in h.attrs:
                return h.attrs[name]
            if isinstance(cv.fget, Func):
                v = self.call(cv.fget.bind(o), [], {}, st, ctx, node)
                if cv.cached and o.id in st.heap:
                    h = self.get(st, o.id)
                    st.heap[o.id] = HObj(h.cls, dict(h.attrs, **{name: v}), h.lazy, h.label)
                return v
            return self.call(cv.fget, [o], {}, st, ctx, node)
        if name in h.attrs:
            self.emit("attr_read", node, ctx, cls=h.cls, name=name, obj=o.id)
            return self.resolve_lazy(h.attrs[name], st, node, ctx)
        if cv is not None:
            if isinstance(cv, Func):
                if cv.kindm == "static":
                    return cv
                if cv.kindm == "class":
                    return cv.bind(h.cls)
                return cv.bind(o)
            if isinstance(cv, Partial):
                return Partial(cv.f, [o] + list(cv.args), cv.kw) if False else cv
            return cv
        if name == "__class__":
            return h.cls
        if name == "__dict__":
            return self.alloc(st, HDict(h.attrs, None, E, ("dictof", o.id)))
        ga, _ = h.cls.lookup("__getattr__") if h.cls else (None, None)
        if isinstance(ga, Func):
            return self.call(ga.bind(o), [Str(name)], {}, st, ctx, node)
        if h.lazy:
            dim = self.attr_atom_hook(h, name) if self.attr_atom_hook else None
            v = Num(dim=dim, form={("in", (h.label or "self") + "." + name): 1.0}, deps=frozenset([("attr", name)]))
            at = dict(h.attrs)
            at[name] = v
            st.heap[o.id] = HObj(h.cls, at, h.lazy, h.label)
            return v
        ext = [b for b in (h.cls.ext_bases() if h.cls else []) if not (isinstance(b, Ext) and b.name in ("builtins.object", "abc.ABC", "typing.Protocol", "typing.Generic", "typing.NamedTuple"))]
        if h.cls is not None and not ext:
            self.emit("attr_missing", node, ctx, cls=h.cls.name, name=name, obj=o.id)
        return unknown()

    def setattr(self, o, name, v, st, ctx, node, quiet=False):
        for x in (o.vals if isinstance(o, Alt) else (o,)):
            if isinstance(x, Ref):
                h = self.get(st, x.id)
                if h.kind != "obj":
                    continue
                cv, c = h.cls.lookup(name) if h.cls else (None, None)
                if isinstance(cv, Prop) and not cv.cached:
                    if isinstance(cv.fset, Func):
                        self.call(cv.fset.bind(x), [v], {}, st, ctx, node)
                    else:
                        self.emit("readonly_set", node, ctx, cls=h.cls.name, name=name)
                        raise Dead()
                    continue
                if not quiet:
                    self.emit("setattr", node, ctx, cls=h.cls, name=name, obj=x.id, value=v, old=h.attrs.get(name))
                at = dict(h.attrs)
                at[name] = v if not isinstance(o, Alt) or name not in at else self.join(at[name], v, st)
                st.heap[x.id] = HObj(h.cls, at, h.lazy, h.label)
            elif isinstance(x, Cls):
                self.emit("class_write", node, ctx, cls=x, name=name)
                x.ns[name] = v
            elif isinstance(x, ModV):
                self.emit("module_write", node, ctx, module=x.mod.name, name=name)
            elif isinstance(x, Func):
                x.attrs[name] = v
            elif isinstance(x, Ext):
                self.emit("ext_write", node, ctx, name=x.name + "." + name)
            elif isinstance(x, Num) and x.alias:
                self.emit("mutate", node, ctx, alias=x.alias, how=f"attribute assignment .{name}", deps=x.deps)

    def e_Subscript(self, e, st, ctx):
        o = self.eval(e.value, st, ctx)
        if isinstance(o, (Ext, Cls)) and not (isinstance(o, Cls) and o.is_enum()):
            return o if not isinstance(o, Ext) or o.name.startswith("typing") or o.name.startswith("builtins") else unknown()
        i = self.eval(e.slice, st, ctx)
        return self.subscript(o, i, st, ctx, e)

    def subscript(self, o, i, st, ctx, node):
        if isinstance(o, Alt) or isinstance(i, Alt):
            r, n = None, 0
            self.maybe += 1          # an alternative may be infeasible on this path
            try:
                for x in (o.vals if isinstance(o, Alt) else (o,)):
                    for y in (i.vals if isinstance(i, Alt) else (i,)):
                        try:
                            r = self.join(r, self.subscript(x, y, st, ctx, node), st)
                            n += 1
                        except Dead:
                            pass
            finally:
                self.maybe -= 1
            if not n:
                raise Dead()
            return r
        if isinstance(i, EnumVal) and isinstance(i.value, Num):
            if not (isinstance(o, Ref) and self.get(st, o.id).kind == "dict"):
                i = i.value
        if is_table(o):
            k = i if o.kind[2] else i.elems[1] if isinstance(i, Tup) and len(i.elems) == 2 and isinstance(i.elems[0], SliceV) else None
            if isinstance(k, Num) and isinstance(k.const, int) and not isinstance(k.const, bool) and k.const >= 0:
                return table_column(o, k.const)
            o = o.copy(kind=None)
        if isinstance(o, Num) and o.poly is not None and isinstance(i, Num) and isinstance(i.const, int) and not isinstance(i.const, bool) and -len(o.poly) <= i.const < len(o.poly):
            return o.poly[i.const]
        if isinstance(o, Num) and o.poly is not None and isinstance(i, Tup) and len(i.elems) > 1:
            i0 = i.elems[0]
            rest = i.elems[1] if len(i.elems) == 2 else Tup(i.elems[1:])
            if isinstance(i0, Num) and isinstance(i0.const, int) and not isinstance(i0.const, bool) and -len(o.poly) <= i0.const < len(o.poly):
                return self.subscript(o.poly[i0.const], rest, st, ctx, node)
            if isinstance(i0, EllipsisV) or isinstance(i0, SliceV):
                r = self.subscript(o.copy(poly=None), i, st, ctx, node)
                sl = getattr(node, "slice", None)
                whole = isinstance(sl, ast.Tuple) and isinstance(sl.elts[0], ast.Slice) and sl.elts[0].lower is sl.elts[0].upper is sl.elts[0].step is None
                if isinstance(r, Num) and whole and len(i.elems) == 2 and i.elems[1] is NONE and o.poly1 is None:
                    return r.copy(poly=o.poly, kind="column")
                if isinstance(r, Num) and isinstance(i0, EllipsisV):
                    r = r.copy(poly=tuple(self.subscript(x, rest, st, ctx, node) for x in o.poly))
                return r
        if isinstance(o, (Tup, Ref)) and not (isinstance(o, Ref) and self.get(st, o.id).kind in ("dict", "obj")):
            el = self.elements(o, st)
            if isinstance(i, Num) and isinstance(i.const, int) and el is not None:
                n = len(el[0])
                k = i.const
                if el[1] is None:
                    if -n <= k < n:
                        return el[0][k]
                    self.emit("index_range", node, ctx, n=n, k=k)
                    return unknown()
                if 0 <= k < n:
                    return el[0][k]
            if isinstance(i, SliceV) and el is not None and el[1] is None:
                r = getattr(node.slice, "_", None)
                sl = self.const_slice(node.slice, st, ctx) if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) else None
                if sl is not None:
                    return Tup(el[0][sl]) if isinstance(o, Tup) else self.alloc(st, HList(el[0][sl]))
                return o
            return self.element_of(o, st)
        if isinstance(o, Ref):
            h = self.get(st, o.id)
            if h.kind == "dict":
                if self.probe is not None and i is self.probe:
                    self.mark(st, out=h.rest is not None)
                k = pykey(i)
                if k is not CANNOT:
                    if k in h.items:
                        return h.items[k]
                    if h.rest is not None:
                        return h.rest
                    self.emit("key_missing", node, ctx, key=k, keys=tuple(h.items), ref=o.id)
                    raise Dead()
                vals = list(h.items.values()) + ([h.rest] if h.rest is not None else [])
                r = None
                for v in vals:
                    r = self.join(r, v, st)
                return r if r is not None else unknown()
            f, c = h.cls.lookup("__getitem__") if h.cls else (None, None)
            if isinstance(f, Func):
                return self.call(f.bind(o), [i], {}, st, ctx, node)
            el = self.elements(o, st)
            if el is not None:
                return self.subscript(Tup(el[0]), i, st, ctx, node)
            return unknown()
        if isinstance(o, Num):
            keep = isinstance(i, SliceV) or (isinstance(i, Tup) and any(isinstance(x, SliceV) for x in i.elems)) or isinstance(i, NoneV)
            idx = E
            for x in i.elems if isinstance(i, Tup) else (i,):
                if isinstance(x, Num) and x.const is None and x.cond is None and x.kind != "array":
                    idx = idx | x.deps  # which entry is taken depends on the index
            form = o.form
            if self.exact and o.form is not None and not is_zero(o):
                one = isinstance(i, Num) and isinstance(i.const, int) and not isinstance(i.const, bool)
                sl = node.slice if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) else None
                part = sl is not None and any(x is not None for x in (sl.lower, sl.upper, sl.step))
                if (one or part) and (self.exact == "array" if isinstance(o.kind, Vec) else o.kind is None and not any(d[0] == "in" for d in o.deps)):
                    form = {("u", "item", fkt(o.form), i.const if one else ast.unparse(sl)): 1.0}
            return o.copy(form=form, alias=o.alias if keep else E, const=o.const if is_zero(o) else None, kind=(o.kind if isinstance(o.kind, Vec) and isinstance(i, Num) and i.cond is not None else None) if not keep else VECTOR2 if isinstance(o.kind, Vec) and not isinstance(i, SliceV) else o.kind, deps=o.deps | idx)
        if isinstance(o, Str):
            if isinstance(i, Num) and isinstance(i.const, int) and -len(o.s) <= i.const < len(o.s):
                return Str(o.s[i.const])
            return unknown()
        return unknown(deps=self.deps_of(o, st))

    def const_slice(self, s, st, ctx):
        out = []
        for x in (s.lower, s.upper, s.step):
            if x is None:
                out.append(None)
                continue
            v = self.eval(x, st, ctx)
            if isinstance(v, Num) and isinstance(v.const, int):
                out.append(v.const)
            else:
                return None
        return slice(*out)

    def e_Slice(self, e, st, ctx):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.eval(x, st, ctx)
        return SliceV()

    def e_Starred(self, e, st, ctx):
        return self.eval(e.value, st, ctx)

    def e_Yield(self, e, st, ctx):
        v = self.eval(e.value, st, ctx) if e.value is not None else NONE
        if ctx.yields is None:
            ctx.yields = []
        ctx.yields.append(v)
        return unknown()

    def e_YieldFrom(self, e, st, ctx):
        v = self.eval(e.value, st, ctx)
        if ctx.yields is None:
            ctx.yields = []
        ctx.yields.append(self.element_of(v, st))
        return unknown()

    def e_Await(self, e, st, ctx):
        return self.eval(e.value, st, ctx)

    # comprehensions run in their own scope: closures created inside share that scope's variables
    def comp(self, e, st, ctx, emitf):
        fid = self.new_id()
        st.heap[fid] = HFrame({})
        c2 = Ctx(fid, ctx.module, ctx.cls, ctx.func, ctx, ctx.depth, ctx.path0, ((ctx.frame,) if ctx.func != "<module>" or True else ()) + tuple(ctx.frames))
        c2.func = ctx.func if ctx.func != "<module>" else "<comp>"
        c2.globals_ = ctx.globals_
        known = self.comp_gen(e.generators, 0, st, c2, emitf)
        return known

    def comp_gen(self, gens, i, st, ctx, emitf):
        if i == len(gens):
            emitf(st, ctx)
            return True
        g = gens[i]
        it = self.eval(g.iter, st, ctx)
        el = self.elements(it, st)
        known = el is not None and el[1] is None and len(el[0]) <= 64
        xs = el[0] if known else [self.element_of(it, st)]
        for x in xs:
            self.assign(g.target, x, st, ctx)
            skip = False
            p = st.path
            for c in g.ifs:
                v = self.eval(c, st, ctx)
                t, cc = self.truth(v, st)
                if t is False:
                    skip = True
                    break
                if t is None:
                    known = False
                    st.path = st.path + tuple(cond_lits(cc, True))
            if not skip:
                k2 = self.comp_gen(gens, i + 1, st, ctx, emitf)
                known = known and k2
            st.path = p
        return known

    def e_ListComp(self, e, st, ctx):
        out = []
        known = self.comp(e, st, ctx, lambda s, c: out.append(self.eval(e.elt, s, c)))
        if known:
            return self.alloc(st, HList(out))
        r = None
        for x in out:
            r = self.join(r, x, st)
        if self.exact == "array" and isinstance(r, Num) and r.form is not None and not is_zero(r) and any(g.ifs for g in e.generators) and ("in", self.exact_param) in r.deps:
            r = r.copy(form={("u", "item", fkt(r.form), "where a condition holds"): 1.0})
        return self.alloc(st, HList((), r if r is not None else unknown()))

    def e_SetComp(self, e, st, ctx):
        r = self.e_ListComp(e, st, ctx)
        h = self.get(st, r.id)
        st.heap[r.id] = HList(h.elems, h.rest, h.alias, "set")
        return r

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st, ctx):
        out = []
        known = self.comp(e, st, ctx, lambda s, c: out.append((self.eval(e.key, s, c), self.eval(e.value, s, c))))
        items, rest = {}, None
        for k, v in out:
            kk = pykey(k)
            if kk is CANNOT:
                rest = self.join(rest, v, st) if rest is not None else v
            else:
                items[kk] = v
        if not known and rest is None and False:
            rest = unknown()
        return self.alloc(st, HDict(items, rest))

    # ------------------------------------------------------------ helpers on values
    def truth(self, v, st):
        """(True|False|None, cond)"""
        if isinstance(v, Num):
            if v.const is not None:
                return bool(v.const), None
            if v.cond is not None:
                c = v.cond
                ls = cond_lits(c, True)
                ds = [self.decide(l, st) for l in ls]
                if ls and all(d is True for d in ds) and c[0] != "or":
                    return True, c
                if any(d is False for d in ds):
                    return False, c
                ns = cond_lits(c, False)
                dn = [self.decide(l, st) for l in ns]
                if any(d is False for d in dn):
                    return True, c
                return None, c
            f = fkey(v.form) if v.form else id(v)
            l = Lit("opaque", tok=("truth", f))
            return self.decide(l, st), ("lit", l)
        if isinstance(v, Str):
            return bool(v.s), None
        if isinstance(v, NoneV):
            return False, None
        if isinstance(v, Tup):
            return bool(v.elems), None
        if isinstance(v, Ref):
            h = self.get(st, v.id)
            if h.kind == "list":
                if h.elems:
                    return True, None
                return (False, None) if h.rest is None else (None, ("lit", Lit("opaque", tok=("nonempty", v.id))))
            if h.kind == "dict":
                if h.items:
                    return True, None
                return (False, None) if h.rest is None else (None, ("lit", Lit("opaque", tok=("nonempty", v.id))))
            return True, None
        if isinstance(v, (Func, Cls, ModV, EnumVal, Partial, Method)):
            return True, None
        if isinstance(v, Alt):
            rs = {self.truth(x, st)[0] for x in v.vals}
            if len(rs) == 1 and None not in rs:
                return rs.pop(), None
        return None, ("lit", Lit("opaque", tok=("t", fresh_atom()[2])))

    def elements(self, v, st):
        """(known elements, summary of further ones or None) or None"""
        if isinstance(v, Tup):
            return v.elems, None
        if isinstance(v, Ref):
            h = self.get(st, v.id)
            if h.kind == "list":
                return h.elems, h.rest
            if h.kind == "dict":
                if h.rest is None:
                    return tuple(from_key(k) for k in h.items), None
                return tuple(from_key(k) for k in h.items), unknown()
            if h.kind == "obj" and h.cls is not None and any(isinstance(b, Ext) and b.name.endswith("NamedTuple") for b in h.cls.ext_bases()):
                fs = list(self.data_fields(h.cls, True))
                if all(n in h.attrs for n in fs):
                    return tuple(h.attrs[n] for n in fs), None
            return None
        if isinstance(v, Str):
            return (tuple(Str(c) for c in v.s), None) if len(v.s) <= 64 else None
        if isinstance(v, Num) and v.poly is not None:
            return v.poly, None
        if isinstance(v, Cls) and v.is_enum():
            return tuple(x for x in v.ns.values() if isinstance(x, EnumVal)), None
        return None

    def table_width(self, v):
        """Number of columns of a data file of the tree, from its first row of numbers."""
        try:
            with open(os.path.join(self.root, v.kind[1])) as f:
                for line in f:
                    row = line.split("#")[0].strip()
                    if row:
                        return len(row.split(","))
        except OSError:
            pass
        return None

    def element_of(self, v, st):
        if isinstance(v, Alt):
            r = None
            for x in v.vals:
                r = self.join(r, self.element_of(x, st), st)
            return r
        el = self.elements(v, st)
        if el is not None:
            r = None
            for x in list(el[0]) + ([el[1]] if el[1] is not None else []):
                r = self.join(r, x, st)
            return r if r is not None else unknown()
        if isinstance(v, Num):
            return v.copy(const=None if not is_zero(v) else v.const, kind='scalar')
        return unknown(deps=self.deps_of(v, st), lin=self.lin_deep(v, st))

    def deps_of(self, v, st, _d=0):
        if isinstance(v, (Num, RngV)):
            return v.deps
        if _d > 4:
            return E
        if isinstance(v, (Tup, Alt)):
            r = E
            for x in (v.elems if isinstance(v, Tup) else v.vals):
                r |= self.deps_of(x, st, _d + 1)
            return r
        if isinstance(v, Ref):
            h = self.get(st, v.id)
            r = E
            if h.kind == "list":
                for x in h.elems + ((h.rest,) if h.rest is not None else ()):
                    r |= self.deps_of(x, st, _d + 1)
            elif h.kind == "dict":
                for x in list(h.items.values()) + ([h.rest] if h.rest is not None else []):
                    r |= self.deps_of(x, st, _d + 1)
            elif h.kind == "obj":
                for x in h.attrs.values():
                    r |= self.deps_of(x, st, _d + 1)
            return r
        if isinstance(v, EnumVal):
            return E
        if isinstance(v, Func):
            return E
        if isinstance(v, Partial):
            r = E
            for x in list(v.args) + list(v.kw.values()):
                r |= self.deps_of(x, st, _d + 1)
            return r
        if isinstance(v, Method):
            return self.deps_of(v.obj, st, _d + 1)
        if isinstance(v, Variant):
            r = E
            for x in v.fields.values():
                r |= self.deps_of(x, st, _d + 1)
            return r
        return E

    def deps_many(self, vs, st):
        r = E
        for v in vs:
            r |= self.deps_of(v, st)
        return r

    def lin_deep(self, v, st, _d=0):
        if isinstance(v, Num):
            return v.lin
        out = {}
        if _d > 4:
            return out
        xs = ()
        if isinstance(v, Tup):
            xs = v.elems
        elif isinstance(v, Alt):
            xs = v.vals
        elif isinstance(v, Ref):
            h = self.get(st, v.id)
            if h.kind == "list":
                xs = h.elems + ((h.rest,) if h.rest is not None else ())
            elif h.kind == "dict":
                xs = tuple(h.items.values()) + ((h.rest,) if h.rest is not None else ())
        for x in xs:
            for k, c in self.lin_deep(x, st, _d + 1).items():
                out[k] = c if k not in out or out[k] == c else (None, True)
        return out

    def alias_of(self, v, st):
        if isinstance(v, Num):
            return v.alias
        if isinstance(v, Ref):
            h = self.get(st, v.id)
            return getattr(h, "alias", E)
        return E

    def list_extend(self, ref, v, st, ctx, node):
        h = self.get(st, ref.id)
        el = self.elements(v, st)
        if el is not None and el[1] is None and h.rest is None:
            st.heap[ref.id] = HList(h.elems + tuple(el[0]), None, h.alias, h.typ)
        else:
            x = self.element_of(v, st)
            st.heap[ref.id] = HList(h.elems, self.join(h.rest, x, st) if h.rest is not None else x, h.alias, h.typ)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, ctx):
        f = self.eval(e.func, st, ctx)
        if isinstance(f, Ext) and f.name == "builtins.super":
            if not e.args:
                fr = self.get(st, ctx.frame)
                c = ctx
                selfv = None
                while c is not None and selfv is None:
                    fn = c.node
                    if isinstance(fn, (ast.FunctionDef,)) and fn.args.args:
                        selfv = self.get(st, c.frame).vars.get(fn.args.args[0].arg)
                    c = c.outer
                if selfv is not None and ctx.cls is not None:
                    return SuperV(selfv, ctx.cls)
                return unknown()
            a = [self.eval(x, st, ctx) for x in e.args]
            if len(a) == 2 and isinstance(a[0], Cls):
                return SuperV(a[1], a[0])
            return unknown()
        args, kw = [], {}
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, ctx)
                el = self.elements(v, st)
                w = self.table_width(v) if is_table(v) and v.kind[2] else None
                if w:
                    args += [table_column(v, k) for k in range(w)]
                elif el is not None and el[1] is None:
                    args += list(el[0])
                else:
                    star = True
                    if el is not None:
                        args += list(el[0])
                    args.append(_Star(self.element_of(v, st)))
            else:
                args.append(self.eval(a, st, ctx))
        kwstar = False
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, st, ctx)
                if isinstance(v, Ref) and self.get(st, v.id).kind == "dict":
                    h = self.get(st, v.id)
                    for kk, vv in h.items.items():
                        if isinstance(kk, str):
                            kw[kk] = vv
                    if h.rest is not None:
                        kwstar = True
                else:
                    kwstar = True
            else:
                kw[k.arg] = self.eval(k.value, st, ctx)
        return self.call(f, args, kw, st, ctx, e, kwstar=kwstar)

    def call(self, f, args, kw, st, ctx, node, kwstar=False):
        if self.exact and isinstance(f, (Ext, Method, Num)):
            n0 = naming.now()
            if self.exact == "number" and isinstance(f, Ext) and f.name == "numpy.take" and len(args) > 1 and isinstance(args[0], Num) and isinstance(args[1], Num) and isinstance(args[1].const, int):
                return args[0].copy(kind="scalar")      # the one element of an array that was made from a number
            keys = [naming.key(self, x, st) for x in args if not isinstance(x, _Star)] + [(k, naming.key(self, x, st)) for k, x in sorted(kw.items())]
            if isinstance(f, Method):
                keys.insert(0, naming.key(self, f.obj, st))
            if isinstance(f, Num):
                keys.insert(0, naming.key(self, f, st))
            r = naming.name("call" if isinstance(f, Num) else f.name, keys, n0, self.call_now(f, args, kw, st, ctx, node, kwstar))
            x = f.obj if isinstance(f, Method) else args[0] if args else None
            if self.exact == "array" and not isinstance(f, Num) and f.name.rpartition(".")[2] in naming.MIX and not (args if isinstance(f, Method) else args[1:]) and set(kw) <= {"keepdims", "dtype"} \
                    and isinstance(x, Num) and isinstance(x.kind, (Vec, Vec2)) and x.form is not None and x.cond is None and ("in", self.exact_param) in x.deps and isinstance(r, Num) and not is_zero(r):
                return r.copy(form={("u", "item", fkt(x.form), f"{f.name.rpartition('.')[2]} of all"): 1.0})
            return r
        return self.call_now(f, args, kw, st, ctx, node, kwstar)

    def call_now(self, f, args, kw, st, ctx, node, kwstar=False):
        if isinstance(f, Lazy):
            f = self.resolve_lazy(f, st, node, ctx)
        if isinstance(f, Alt):
            r = None
            base = st.fork()
            first = True
            res = []
            for x in f.vals:
                if isinstance(x, NoneV):
                    continue
                s = base.fork()
                try:
                    res.append((self.call(x, args, kw, s, ctx, node, kwstar), s))
                except Dead:
                    pass
            if not res:
                raise Dead()
            r, s0 = res[0]
            st.heap, st.path = s0.heap, s0.path
            for v, s in res[1:]:
                self.join_states(st, s, (), ())
                r = self.join(r, v, st)
            return r
        if self.call_hook is not None:
            v = self.call_hook(self, f, args, kw, node, st, ctx)
            if v is not None:
                return v
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k, st, ctx, node, kwstar)
        if isinstance(f, Func):
            if f.module.rust:
                v = self.rust_intrinsic(f, args, st, ctx, node)
                if v is not None:
                    return v
            return self.call_func(f, args, kw, st, ctx, node, kwstar)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, st, ctx, node, kwstar)
        if isinstance(f, Ref):
            h = self.get(st, f.id)
            if h.kind == "obj" and h.cls is not None:
                c, _ = h.cls.lookup("__call__")
                if isinstance(c, Func):
                    return self.call_func(c.bind(f), args, kw, st, ctx, node, kwstar)
        if isinstance(f, DataInit):
            o = f.bound if f.bound is not None else (args[0] if args else None)
            if isinstance(o, Ref):
                self.data_init(f.cls, o, args if f.bound is not None else args[1:], kw, st, ctx, node, kwstar)
            return NONE
        args = [a.v if isinstance(a, _Star) else a for a in args]
        if isinstance(f, Method):
            return self.call_method(f, args, kw, st, ctx, node)
        if isinstance(f, Ext):
            from . import extlib
            if f.name.startswith(NATIVE_PREFIX + ".") and self.crate is not None:
                return self.call_native(f, args, kw, st, ctx, node, kwstar)
            return extlib.call_ext(self, f.name, args, kw, st, ctx, node)
        # unknown callable
        self.emit("call_unknown", node, ctx, f=f, args=args, kw=kw)
        deps = self.deps_of(f, st) | self.deps_many(args, st) | self.deps_many(kw.values(), st)
        self.havoc(args, kw, st)
        lin = dict(f.lin) if isinstance(f, Num) else {}
        dim = None
        if isinstance(f, Num) and getattr(f, "kind", None) == "fn":
            dim = f.dim
            if args and isinstance(f.argdim, tuple):
                x = self.numify(args[0], st)
                if isinstance(x.dim, tuple) and not is_wild(x) and x.dim != f.argdim:
                    self.emit("dim_mismatch", node, ctx, what="interpolation", a=x.dim, b=f.argdim)
            r = unknown(deps=deps, lin=lin, dim=dim)
            nu = kw.get("nu", literal(0))
            if len(args) == 1 and not set(kw) - {"nu"} and f.form is not None and isinstance(nu, Num) and isinstance(nu.const, int):
                x = self.numify(args[0], st)
                if x.form is not None:
                    g = fkt(f.form) if nu.const == 0 else ((("dfn", fkt(f.form), nu.const), 1.0),)
                    r.form = clip({("app", g, fkt(x.form)): 1.0})
                    r.kind = x.kind
            return r
        return unknown(deps=deps, lin=lin, dim=dim)

    def havoc(self, args, kw, st):
        pass

    def native_func(self, dotted):
        """The Rust function registered for hazma._core.<sub>.<name>, as an analysable function."""
        parts = dotted[len(NATIVE_PREFIX) + 1:].split(".")
        key = ("", parts[0]) if len(parts) == 1 else (parts[0], parts[-1])
        t = self.native.get(key)
        if t is None:
            return None
        m = self.modules.get(t[0])
        if m is None:
            return None
        v = self.module_ns(m).get(t[1])
        return self.resolve_lazy(v, State()) if v is not None else None

    def rust_intrinsic(self, f, args, st, ctx, node):
        """The array-dispatch shims and the quadrature driver, by their documented meaning."""
        mod, n = f.module.name, f.name
        if mod == "rust.dispatch":
            if n in ("map_unary", "map_unary_try") and len(args) == 3:
                return self.call(args[2], [args[0]], {}, st, ctx, node)
            if n == "map_flavors" and len(args) == 3:
                v = self.call(args[2], [args[0]], {}, st, ctx, node)
                return v
            if n == "require_vector" and len(args) == 2:
                return args[0]
        if mod == "rust.kernels.soft_complex":
            xs = [a if isinstance(a, Num) else self.numify(a, st) for a in args]
            if n == "soft_complex_pow_1_5" and len(xs) == 1:
                return self.arith(ast.Pow(), xs[0], literal(1.5), ctx, node)
            if n == "complex_quotient_real_denominator" and len(xs) == 2:
                return self.arith(ast.Div(), xs[0], xs[1], ctx, node)
        if mod == "rust.special" and n in ("spence", "bessel_k1", "bessel_kn"):
            from . import extlib
            fn = {"spence": "spence", "bessel_k1": "k1", "bessel_kn": "kn"}[n]
            return extlib.numlib(self, "scipy.special." + fn, fn, list(args), {}, st, ctx, node)
        if mod == "rust.quad" and n == "quad" and len(args) == 4:
            from . import extlib
            v = extlib.numlib(self, "scipy.integrate.quad", "quad", [args[0], args[1], args[2]], {}, st, ctx, node)
            v = v.elems[0] if isinstance(v, Tup) else v
            ns = self.module_ns(f.module, st)
            c = ns.get("QuadOutcome")
            return self.alloc(st, HObj(c if isinstance(c, Cls) else None, {"value": v, "abserr": unknown(), "neval": unknown(), "last": unknown(), "ier": unknown()}, label="QuadOutcome"))
        return None

    def call_native(self, f, args, kw, st, ctx, node, kwstar):
        g = self.native_func(f.name)
        self.emit("native_call", node, ctx, name=f.name, target=g, args=args, kw=kw)
        if not isinstance(g, Func):
            return unknown(deps=self.deps_many(args, st) | self.deps_many(kw.values(), st))
        return self.call_func(g, args, kw, st, ctx, node, kwstar)

    def call_callable_unknown(self, f, st, ctx, node, args=None):
        """Evaluate a callable handed to foreign code on unknown arguments; its effects are joined."""
        if isinstance(f, (Func, Partial, Alt, Cls)) or (isinstance(f, Ref) and self.get(st, f.id).kind == "obj"):
            g = f
            n = None
            if args is None:
                base = g
                pre = 0
                while isinstance(base, Partial):
                    pre += len(base.args)
                    base = base.f
                if isinstance(base, Func):
                    a = base.node.args
                    n = len(a.posonlyargs) + len(a.args) - len(base.defaults) - pre - (1 if base.bound is not None and base.kindm != "static" else 0)
                    if isinstance(g, Partial):
                        names = [x.arg for x in a.args]
                        n -= sum(1 for k in g.kw if k in names)
                args = [unknown() for _ in range(max(n or 0, 0))]
            if isinstance(g, (Cls, Ref)):
                return unknown()
            skip = st.fork()
            try:
                v = self.call(g, args, {}, st, ctx, node)
                self.join_states(st, skip, (), ())
                return v
            except Dead:
                st.heap, st.path, st.dead = skip.heap, skip.path, False
                return unknown()
        return None

    def call_func(self, f, args, kw, st, ctx, node, kwstar=False):
        if f.attrs.get("cached"):
            return self.call_cached(f, args, kw, st, ctx, node, kwstar)
        return self.call_func_now(f, args, kw, st, ctx, node, kwstar)

    def call_cached(self, f, args, kw, st, ctx, node, kwstar):
        """functools.lru_cache: the second call with the same arguments answers what the first one did."""
        def k(v):
            if isinstance(v, Ref):
                return ("ref", v.id)
            if isinstance(v, Str):
                return ("str", v.s)
            if isinstance(v, Num) and v.const is not None:
                return ("num", v.const)
            if isinstance(v, Tup):
                return ("tup",) + tuple(k(x) for x in v.elems)
            return ("id", id(v))
        allv = ([f.bound] if f.bound is not None and f.kindm != "static" else []) + list(args) + list(kw.values())
        key = (f.node, tuple(k(v) for v in allv), tuple(sorted(kw)))
        if key in self.memo:
            v, keep = self.memo[key]
            if not isinstance(v, Ref) or v.id in st.heap:
                return v
        v = self.call_func_now(f, args, kw, st, ctx, node, kwstar)
        a = ("cached", f.module.name + "." + f.qual)
        if isinstance(v, Num) and v.kind not in ("scalar", "fn") and v.const is None:
            v = v.copy(alias=v.alias | {a})
        elif isinstance(v, Ref):
            self.cached_refs[v.id] = a[1]
        self.memo[key] = (v, allv)
        return v

    def call_func_now(self, f, args, kw, st, ctx, node, kwstar=False):
        depth = ctx.depth + 1
        rec = sum(1 for x in self.stack if x[0] is f.node)
        self.emit("call", node, ctx, f=f, args=args, kw=kw)
        if rec >= 2:
            # least fixed point of the recursion, approximated from below: the recursive path adds nothing new
            raise Dead()
        if depth > self.max_depth:
            self.emit("depth", node, ctx)
            return unknown(deps=self.deps_many([a for a in args if not isinstance(a, _Star)], st) | self.deps_many(kw.values(), st))
        vars = self.bind_args(f, args, kw, st, ctx, node, kwstar)
        fid = self.new_id()
        st.heap[fid] = HFrame(vars)
        c2 = Ctx(fid, f.module, f.cls, f.qual, None, depth, st.path, f.frames)
        c2.node = f.node
        self.stack.append((f.node, f.module.name + ":" + f.qual, getattr(node, "lineno", 0)))
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st, c2)
                if not c2.captured:
                    st.heap.pop(fid, None)
                return v
            self.exec_block(f.node.body, st, c2)
        finally:
            self.stack.pop()
        path0 = c2.path0
        rets = c2.returns
        if self.watch is not None and f.node is self.watch.node:
            # a call inside another call of the watched function (inherited __init__ ...) is overwritten by the outer one
            self.watch_rets = [(l, v, s.heap.get(self.probe_id, self.base.get(self.probe_id))) for l, v, s, _ in rets] + ([((), NONE, st.heap.get(self.probe_id, self.base.get(self.probe_id)))] if not st.dead else [])
        if not st.dead:
            rets = rets + [(st.path[len(path0):] if st.path[:len(path0)] == path0 else (), NONE, None, None)]
        isgen = c2.yields is not None
        if not rets and not isgen:
            raise Dead()
        if isgen:
            r = self.alloc_list_yields(c2.yields, st)
            if st.dead and rets:
                s = rets[0][2]
                if s is not None:
                    st.heap, st.path = s.heap, path0
            st.dead = False
            return r
        res = None
        cur = None
        for (lits, v, s, nd) in rets:
            s = s if s is not None else State(st.heap, st.path)
            if cur is None:
                cur, res, curl = s, v, lits
            else:
                la, lb = curl, lits
                self.join_states(cur, s, la, lb)
                res = self.join(res, v, cur, la, lb)
                curl = tuple(x for x in curl if x in lits)
        st.heap = cur.heap
        st.path = path0 + tuple(l for l in curl) if False else path0
        st.dead = False
        if len(rets) > 1 or rets[0][3] is None:
            pass
        # value returned under a guard on every non-zero return: handled pairwise in join
        if len(rets) == 1 and isinstance(res, Num) and lits and not is_zero(res):
            # the only way out of the function with a value: the other paths raised
            pass
        if not c2.captured and fid in st.heap:
            st.heap.pop(fid, None)
        return res

    def alloc_list_yields(self, ys, st):
        r = None
        for y in ys:
            r = self.join(r, y, st)
        return self.alloc(st, HList((), r if r is not None else unknown()))

    def bind_args(self, f, args, kw, st, ctx, node, kwstar):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        args = list(args)
        if f.bound is not None and f.kindm != "static":
            args = [f.bound] + args
        starv = None
        for i, x in enumerate(args):
            if isinstance(x, _Star):
                starv = x.v
                args = args[:i] + args[i + 1:]
                break
        extra = []
        for i, x in enumerate(args):
            if i < len(pos):
                vars[pos[i]] = x
            else:
                extra.append(x)
        err = None
        if extra and not a.vararg:
            err = f"takes {len(pos)} positional arguments but {len(args)} were given"
        if a.vararg:
            vars[a.vararg.arg] = Tup(extra) if starv is None else self.alloc(st, HList(extra, starv))
        kwo = [x.arg for x in a.kwonlyargs]
        more = {}
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if k in kwo or (k in pos and k not in posonly):
                if k in vars:
                    err = err or f"got multiple values for argument '{k}'"
                vars[k] = v
            elif a.kwarg:
                more[k] = v
            else:
                err = err or f"got an unexpected keyword argument '{k}'"
        if a.kwarg:
            vars[a.kwarg.arg] = self.alloc(st, HDict(more, unknown() if kwstar else None))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vars:
                j = i - (len(pos) - nd)
                if starv is not None:
                    vars[n] = starv
                elif j >= 0:
                    vars[n] = f.defaults[j]
                    if kwstar:
                        vars[n] = self.join(vars[n], unknown(), st)
                elif kwstar:
                    vars[n] = unknown()
                else:
                    err = err or f"missing required argument '{n}'"
                    vars[n] = unknown()
        for n in kwo:
            if n not in vars:
                if n in f.kwdefaults:
                    vars[n] = f.kwdefaults[n]
                elif kwstar:
                    vars[n] = unknown()
                else:
                    err = err or f"missing required keyword-only argument '{n}'"
                    vars[n] = unknown()
        if err:
            self.emit("arity", node, ctx, f=f, err=err)
        return vars

    def instantiate(self, c, args, kw, st, ctx, node, kwstar=False):
        if c.is_enum():
            if len(args) == 1:
                k = pykey(args[0])
                if k is not CANNOT:
                    for v in c.ns.values():
                        if isinstance(v, EnumVal) and pykey(v.value) == k:
                            return v
                    vs = [v for v in c.ns.values() if isinstance(v, EnumVal)]
                    if vs and all(pykey(v.value) is not CANNOT for v in vs) and not isinstance(c.lookup("_missing_")[0], Func):
                        if self.probe is not None and args[0] is self.probe:
                            self.mark(st)
                        raise Dead()
                return Alt([v for v in c.ns.values() if isinstance(v, EnumVal)])
            return unknown()
        r = self.alloc(st, HObj(c, {}, label=c.name))
        self.emit("instantiate", node, ctx, cls=c, args=args, kw=kw)
        init, ic = c.lookup("__init__")
        if isinstance(init, Func):
            self.call_func(init.bind(r), args, kw, st, ctx, node, kwstar)
            return r
        if isinstance(init, DataInit):
            self.data_init(init.cls, r, args, kw, st, ctx, node, kwstar)
            return r
        if any(isinstance(b, Ext) and b.name.endswith("NamedTuple") for b in c.ext_bases()):
            self.data_init(c, r, args, kw, st, ctx, node, kwstar, isnt=True)
        return r

    def data_init(self, c, r, args, kw, st, ctx, node, kwstar=False, isnt=False):
        """The generated constructor of dataclass `c` applied to object `r`."""
        fields = self.data_fields(c, isnt)
        at, init = {}, {}
        args = [x for x in args if not isinstance(x, _Star)]
        err = None
        pos = [n for n, f in fields.items() if f["init"] and not f["kw_only"]]
        given = dict(zip(pos, args))
        if len(args) > len(pos):
            err = "too many arguments"
        for k, v in kw.items():
            if k not in fields or not fields[k]["init"]:
                err = f"unexpected keyword '{k}'"
            elif k in given:
                err = f"multiple values for field '{k}'"
            given[k] = v
        for n, f in fields.items():
            if n in given:
                v = given[n]
            else:
                d = f["default"]
                if isinstance(d, FieldV):
                    if d.factory is not None:
                        v = self.call(d.factory, [], {}, st, ctx, node)
                    else:
                        v = d.default
                else:
                    v = d
                if v is None:
                    if not f["init"]:
                        continue
                    if not kwstar:
                        err = err or f"missing field '{n}'"
                    v = unknown()
                if isinstance(v, Lazy):
                    v = self.resolve_lazy(v, st, node, ctx)
            (init if f["initvar"] else at)[n] = v
        if err:
            self.emit("arity", node, ctx, f=c, err=err)
        h = self.get(st, r.id)
        st.heap[r.id] = HObj(h.cls, {**h.attrs, **at}, label=h.label)
        pi, _ = h.cls.lookup("__post_init__")
        if isinstance(pi, Func):
            self.call_func(pi.bind(r), list(init.values()), {}, st, ctx, node)
        return r

    def data_fields(self, c, isnt=False):
        """Fields of a dataclass / NamedTuple in declaration order along the inheritance chain."""
        out = {}
        for k in reversed(c.mro()):
            if not isnt and not k.ns.get("__dataclass__"):
                continue
            kwo = False
            for s in k.node.body:
                if not (isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)):
                    continue
                ann = ast.unparse(s.annotation)
                if ann.split(".")[-1] == "KW_ONLY":
                    kwo = True
                    continue
                if ann.startswith(("ClassVar", "typing.ClassVar")):
                    continue
                n = s.target.id
                if n.startswith("__") and not n.endswith("__"):
                    n = "_" + k.name.lstrip("_") + n
                d = k.ns.get(n) if s.value is not None else None
                iv = "InitVar" in ann
                out[n] = {"init": d.init if isinstance(d, FieldV) else True, "kw_only": kwo or (isinstance(d, FieldV) and d.kw_only),
                          "initvar": iv, "default": d}
        return out

    def call_method(self, m, args, kw, st, ctx, node):
        from . import extlib
        return extlib.call_method(self, m, args, kw, st, ctx, node)


class _ClsMark(str):
    pass


class _Star:
    def __init__(self, v):
        self.v = v


class _Both:
    """Heap view used while joining two states."""

    def __init__(self, a, b, eng):
        self.a, self.b, self.eng = a, b, eng
        self.path = a.path

    @property
    def heap(self):
        return _BothHeap(self.a, self.b)


class _BothHeap:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def get(self, k, d=None):
        v = self.a.heap.get(k)
        if v is None:
            v = self.b.heap.get(k)
        return v if v is not None else d

    def __setitem__(self, k, v):
        self.a.heap[k] = v


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    return t


def mangle(name, ctx):
    if name.startswith("__") and not name.endswith("__") and ctx.cls is not None:
        return "_" + ctx.cls.name.lstrip("_") + name
    return name


class SymKey:
    """Dictionary key for a symbolic parameter value ("name@state"): differently named ones are taken to differ."""
    __slots__ = ("name", "v")

    def __init__(self, name, v):
        self.name, self.v = name, v

    @staticmethod
    def of(v):
        if v.form is not None and len(v.form) == 1 and v.poly is None:
            (k, c), = v.form.items()
            if c == 1 and isinstance(k, tuple) and k[0] == "in" and isinstance(k[1], str) and "@" in k[1]:
                return SymKey(k[1], v)
        return CANNOT

    def __eq__(self, o):
        return isinstance(o, SymKey) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return repr(self) < repr(o)


def pykey(v):
    if isinstance(v, Str):
        return v.s
    if isinstance(v, Num):
        if v.const is not None and isinstance(v.const, (int, float, bool)):
            return v.const
        return SymKey.of(v)
    if isinstance(v, NoneV):
        return None
    if isinstance(v, EnumVal):
        return v
    if isinstance(v, PathV):
        return ("path", v.p)
    if isinstance(v, Tup):
        ks = tuple(pykey(x) for x in v.elems)
        return CANNOT if any(k is CANNOT for k in ks) else ks
    return CANNOT


def from_key(k):
    if isinstance(k, str):
        return Str(k)
    if isinstance(k, SymKey):
        return k.v
    if k is None:
        return NONE
    if isinstance(k, tuple):
        return Tup([from_key(x) for x in k])
    if isinstance(k, EnumVal):
        return k
    return literal(k)


def no_limit(v):
    """An infinite bound stands for no bound at all, a nan for no value."""
    return isinstance(v.const, float) and (v.const != v.const or v.const in (float("inf"), float("-inf")))


def is_zero(v):
    if v.nz is ALL:
        return True
    return v.const is not None and not isinstance(v.const, bool) and v.const == 0


def is_wild(v):
    if v.nz is ALL:
        return True
    c = v.const
    if c is None or isinstance(c, complex):
        return c == 0
    return c == 0 or (isinstance(c, float) and (math.isinf(c) or math.isnan(c)))


def lits_of_num(v):
    if is_zero(v) or (v.const is False):
        return ALL
    if v.nz is ALL:
        return ALL
    if v.cond is not None:
        return v.nz | frozenset(cond_lits(v.cond, True))
    return v.nz


def dmul(a, b):
    if a is None or b is None:
        return None
    if a is LIT:
        return b
    if b is LIT:
        return a
    return tuple(x + y for x, y in zip(a, b))


def dpow(a, p):
    if a is None:
        return None
    if a is LIT:
        return LIT
    fr = Fraction(p).limit_denominator(48)
    return tuple(x * fr for x in a)


def fold(op, a, b):
    if a is None or b is None or isinstance(a, bool) and isinstance(op, (ast.Add,)) and False:
        return None
    try:
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            return a / b
        if isinstance(op, ast.FloorDiv):
            return a // b
        if isinstance(op, ast.Mod):
            return a % b
        if isinstance(op, ast.Pow):
            if isinstance(b, (int, float)) and abs(b) > 400:
                return None
            return a ** b
        if isinstance(op, ast.BitAnd):
            return a & b
        if isinstance(op, ast.BitOr):
            return a | b
    except Exception:
        return None
    return None


def fsub(a, b):
    f = dict(a)
    for k, v in b.items():
        f[k] = f.get(k, 0.0) - v
    return {k: v for k, v in f.items() if abs(v) > 1e-12} or {1: 0.0}


def fkt(form):
    if len(form) == 1:
        (k, v), = form.items()
        return ((k, v if v == 1.0 else float("%.13g" % v)),) if v else ()
    big = max(map(abs, form.values()), default=0.0) * 1e-15
    return tuple(sorted(((k, v if v == 1.0 else float("%.13g" % v)) for k, v in form.items() if abs(v) > big), key=lambda kv: repr(kv[0])))


def shash(o):
    import hashlib
    return hashlib.md5(repr(o).encode()).hexdigest()[:12]


EXACT = [False]  # see naming.big
CLIP = [150]  # terms larger than this are represented by a hash; a check that differentiates formulas raises it


def size(o, lim=200):
    n = 1
    if isinstance(o, tuple):
        for x in o:
            n += size(x, lim)
            if n > lim:
                return n
    return n


def clip(form):
    if form is None:
        return {fresh_atom(): 1.0}
    for k in form:
        if isinstance(k, tuple) and size(k, CLIP[0]) > CLIP[0]:
            return {naming.big(fkt(form)) if EXACT[0] else ("h", shash(fkt(form))): 1.0}
    return form


def lin_add(a, b):
    if not b:
        return a
    if not a:
        return b
    out = dict(a)
    for k, (c, s) in b.items():
        if k in out:
            c0, s0 = out[k]
            out[k] = (None if c is None or c0 is None else c + c0, s or s0)
        else:
            out[k] = (c, s)
    return out


def lin_scale(a, x):
    if not a:
        return {}
    return {k: (None if c is None else c * x, s) for k, (c, s) in a.items()}


def lin_mul(a, b):
    if not a.lin and not b.lin:
        return {}
    if a.lin and b.lin:
        return {k: (None, True) for k in list(a.lin) + list(b.lin)}
    x, y = (a, b) if a.lin else (b, a)
    if isinstance(y.const, (int, float)) and not isinstance(y.const, bool):
        return lin_scale(x.lin, y.const)
    return {k: (c, True) for k, (c, s) in x.lin.items()}


NP_CONST = {"pi": math.pi, "inf": math.inf, "nan": math.nan, "e": math.e, "Inf": math.inf, "infty": math.inf, "NaN": math.nan}


def path_attr(o, name):
    if name == "parent":
        return PathV(os.path.dirname(o.p))
    if name in ("name", "stem", "suffix"):
        b = os.path.basename(o.p)
        return Str({"name": b, "stem": os.path.splitext(b)[0], "suffix": os.path.splitext(b)[1]}[name])
    return Method(o, name)


def ext_attr(base, name):
    if base in ("numpy", "math", "cmath", "np") and name in NP_CONST:
        return literal(NP_CONST[name])
    return Ext(base + "." + name)


def native_registry(crate):
    """Which Rust function each name of the native extension is bound to, read from the registration code."""
    out = {}
    fns = {}
    for mn, (p, rel, tree, src) in crate.modules.items():
        for x in tree.body:
            if isinstance(x, ast.FunctionDef):
                fns[(mn, x.name)] = x

    def imported(mn, name):
        for x in crate.modules[mn][2].body:
            if isinstance(x, ast.ImportFrom):
                for a in x.names:
                    if (a.asname or a.name) == name:
                        return x.module, a.name
        return None

    def resolve(mn, path):
        """a::b::f seen from module mn -> (module, function)"""
        path = path.replace("crate::", "rust::") if path.startswith("crate::") else path
        parts = path.split("::")
        if parts[0] == "self":
            parts = parts[1:]
        base = "rust" if parts[0] == "rust" else mn
        if parts[0] == "rust":
            parts = parts[1:]
        elif parts[0] == "super":
            base = mn.rpartition(".")[0]
            parts = parts[1:]
        elif len(parts) == 1:
            if (mn, parts[0]) in fns:
                return mn, parts[0]
            im = imported(mn, parts[0])
            if im is not None:
                return im
            return mn, parts[0]
        else:
            im = imported(mn, parts[0])
            if im is not None:
                base, parts = im[0] + "." + im[1], parts[1:]
        return ".".join([base] + parts[:-1]), parts[-1]

    def pyname(mn, fn):
        f = fns.get((mn, fn))
        for a in getattr(f, "rust_attrs", ()) if f is not None else ():
            t = a.replace(" ", "")
            i = t.find("name=")
            if i >= 0 and ("pyo3(" in t or "pyfunction(" in t) and "text_signature" not in t[max(0, i - 5):i]:
                q = t[i + 5:]
                if q[:1] in "\"'":
                    return q[1:].split(q[0])[0]
        return fn

    def walk(mn, fn, sub, seen):
        if (mn, fn) in seen or (mn, fn) not in fns:
            return
        seen = seen | {(mn, fn)}
        for x in ast.walk(fns[(mn, fn)]):
            if not isinstance(x, ast.Call):
                continue
            f = x.func
            if isinstance(f, ast.Name) and f.id == "__wrap__":
                t = resolve(mn, x.args[1].value)
                out[(sub, pyname(*t))] = t
            elif isinstance(f, (ast.Name, ast.Attribute)):
                nm = ast.unparse(f).replace(".", "::")
                strs = [a.value for a in x.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                regs = []
                for a in x.args:
                    if isinstance(a, (ast.Name, ast.Attribute)):
                        t = resolve(mn, ast.unparse(a).replace(".", "::"))
                        if t in fns:
                            regs.append(t)
                if strs and regs:
                    for t in regs:
                        walk(t[0], t[1], strs[0] if not sub else sub, seen)
                else:
                    t = resolve(mn, nm)
                    if t in fns:
                        walk(t[0], t[1], sub, seen)
    for (mn, fn), f in fns.items():
        if any(a.replace(" ", "").lstrip("#[").startswith("pymodule") for a in getattr(f, "rust_attrs", ())):
            walk(mn, fn, "", frozenset())
    return out
