"""Assigning a parameter: for every class with property setters, abstract evaluation of (a) construct with old values, run every public query,
assign new value(s) and (b) construct with the new value(s) directly; whatever public query of (a) still depends on the old value is stale."""
import ast

from ..drive import Budget, Dead, World, arguments, closures, decorators, haskw, members, parallel
from ..interp import Ctx, State
from ..project import atom, make_engine, root_ctx
from ..values import *

RULES = {
    "stale": "after assigning a parameter no public query depends on the value it had before, and each query gives what it gives on an object built with the new value",
    "pair": "after assigning two parameters (either order) both new values are in force",
}
# parameters whose values are words, with the words to try; sequences, with their lengths
WORDS = {"flavor": ("e", "mu", "tau"), "fs": ("mu mu", "pi pi", "e e")}
LENGTHS = {"TwoBody": 2, "ThreeBody": 3, "Rambo": 3}
# constructor settings that select how the others are used
SETTINGS = {"PBH": ({"spectrum_kind": "primary"},), "ThreeBody": ({}, {"msqrd_signature": "momenta"}, {"msqrd": None}), "TwoBody": ({}, {"msqrd_signature": "momenta"}, {"msqrd": None}), "Rambo": ({}, {"msqrd": None})}
SKIP = {"__init__", "__new__", "__setattr__", "__post_init__"}


def value(c, p, state, words=None):
    if words is not None:
        return Str(words)
    if p == "masses":
        return Tup([atom(f"masses@{state}[{i}]@", kind="scalar") for i in range(LENGTHS.get(c.name, 3))])
    if p == "msqrd":
        return unknown(deps=frozenset([("in", f"msqrd@{state}")]), kind="fn")
    return atom(f"{p}@{state}", kind="scalar")


def old_deps(deps, p):
    return {d for d in deps if d[0] == "in" and str(d[1]).startswith(f"{p}@old")}


def new_deps(deps, p):
    return {d for d in deps if d[0] == "in" and str(d[1]).startswith(f"{p}@new")}


class Diff:
    """Definite differences between a value in one state and its counterpart in another."""

    def __init__(self, eng, ps, sa, sb, captures=False):
        self.eng, self.ps, self.sa, self.sb = eng, ps, sa, sb
        self.captures = captures  # compare what functions capture (queries call them instead)
        self.out, self.seen = [], set()

    def deps(self, v, st):
        try:
            return self.eng.deps_of(v, st)
        except (KeyError, RecursionError):
            return frozenset()

    def functions(self, a, b, path):
        if a.node is not b.node:
            self.out.append((path, "is another function"))
            return
        if (id(a), id(b)) in self.seen:
            return
        self.seen.add((id(a), id(b)))
        for n in sorted({x.id for x in ast.walk(a.node) if isinstance(x, ast.Name)}):
            x, y = self.captured(a, n, self.sa), self.captured(b, n, self.sb)
            if x is not None and y is not None:
                self.run(x, y, f"{path}<{n}>")

    def captured(self, f, n, st):
        for i in f.frames:
            h = st.heap.get(i)
            if h is not None and h.kind == "frame" and n in h.vars:
                return h.vars[n]
        return None

    def run(self, a, b, path=""):
        if len(path) > 300 or len(self.out) > 60:
            return self
        if isinstance(a, Ref) and isinstance(b, Ref):
            if (a.id, b.id) in self.seen:
                return self
            self.seen.add((a.id, b.id))
            ha, hb = self.eng.get(self.sa, a.id), self.eng.get(self.sb, b.id)
            if ha.kind != hb.kind:
                self.out.append((path, f"a {ha.kind} where it should be a {hb.kind}"))
            elif ha.kind == "list":
                if ha.rest is None and hb.rest is None and len(ha.elems) != len(hb.elems):
                    self.out.append((path, f"has {len(ha.elems)} elements, should have {len(hb.elems)}"))
                for i, (x, y) in enumerate(zip(ha.elems, hb.elems)):
                    self.run(x, y, f"{path}[{i}]")
                if ha.rest is not None and hb.rest is not None:
                    self.run(ha.rest, hb.rest, f"{path}[...]")
            elif ha.kind == "dict":
                if ha.rest is None and hb.rest is None and set(ha.items) != set(hb.items):
                    self.out.append((path, f"has the keys {sorted(map(str, ha.items))}, should have {sorted(map(str, hb.items))}"))
                for k in ha.items:
                    if k in hb.items:
                        self.run(ha.items[k], hb.items[k], f"{path}[{k}]")
                if ha.rest is not None and hb.rest is not None:
                    self.run(ha.rest, hb.rest, f"{path}[...]")
            elif ha.kind == "obj":
                for k in sorted(set(ha.attrs) & set(hb.attrs)):
                    self.run(ha.attrs[k], hb.attrs[k], f"{path}.{k}")
            return self
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.elems) != len(b.elems):
                self.out.append((path, f"has {len(a.elems)} elements, should have {len(b.elems)}"))
            for i, (x, y) in enumerate(zip(a.elems, b.elems)):
                self.run(x, y, f"{path}[{i}]")
            return self
        if isinstance(a, Func) and isinstance(b, Func):
            if self.captures:
                self.functions(a, b, path)
            return self
        if isinstance(a, Str) and isinstance(b, Str):
            if a.s != b.s:
                self.out.append((path, f"is {a.s!r}, should be {b.s!r}"))
            return self
        da, db = self.deps(a, self.sa), self.deps(b, self.sb)
        for p in self.ps:
            if old_deps(da, p) and not old_deps(db, p):
                self.out.append((path, f"still depends on the old {p}"))
            elif new_deps(db, p) and not new_deps(da, p) and isinstance(a, Num) and isinstance(b, Num) and (a.const is not None or a.form is not None) and b.const is None:
                self.out.append((path, f"does not depend on the new {p}"))
        if isinstance(a, Num) and isinstance(b, Num):
            if a.const is not None and b.const is not None and type(a.const) is type(b.const) and a.const != b.const and a.const == a.const:
                self.out.append((path, f"is {a.const}, should be {b.const}"))
            elif a.form is not None and b.form is not None and a.const is None and b.const is None and named_form(a.form) and named_form(b.form) and fkey(a.form) != fkey(b.form):
                self.out.append((path, f"is {formstr(a.form)}, should be {formstr(b.form)}"))
        elif isinstance(a, NoneV) and isinstance(b, (Str, Tup)) or isinstance(b, NoneV) and isinstance(a, (Str, Tup)):
            self.out.append((path, "is None on one side only"))
        return self


def named_form(f):
    """A linear combination of parameters: two different ones are different functions."""
    return all(k == 1 or (isinstance(k, tuple) and k[0] == "in") for k in f)


def construct(eng, c, vals, st):
    return eng.call(c, [], dict(vals), st, root_ctx(eng, c.module), c.module.tree)


def queries(c):
    for n, (v, k) in sorted(members(c).items()):
        if n.startswith("_") or n in SKIP:
            continue
        if isinstance(v, Prop):
            if isinstance(v.fget, Func):
                yield n, v.fget, True
        elif isinstance(v, Func) and isinstance(v.node, ast.FunctionDef) and getattr(v, "kindm", None) not in ("static", "class") and "abstractmethod" not in decorators(v):
            yield n, v, False


def ask(eng, c, obj, q, st, budget):
    """Evaluates one query (and the functions it returns) on a copy of `st`; -> (result, state) or None."""
    n, f, prop = q
    s = st.fork()
    old, eng.max_steps, eng.steps = eng.max_steps, budget, 0
    eng.memo, eng.cached_refs = {}, {}
    try:
        ctx = root_ctx(eng, c.module)
        r = eng.getattr(obj, n, s, ctx, c.module.tree)
        out = [r]
        if not prop:
            args, kw = arguments(eng, f, s, "", True, False)
            r = eng.call(r, args, kw, s, ctx, c.module.tree, haskw(f))
            out = [r]
        for g in list(closures(eng, s, r))[:12]:
            if g.node.args.vararg is not None:
                continue
            a2, k2 = arguments(eng, g, s, "closure.", g.bound is not None, False)
            try:
                out.append(eng.call(g, a2, k2, s, ctx, g.module.tree, haskw(g)))
            except Dead:
                out.append(NONE)
        return out, s
    except (Dead, Budget, RecursionError):
        return None
    except (KeyError, TypeError, AttributeError, ValueError, IndexError):
        return None
    finally:
        eng.max_steps = old
        eng.stack = []
        eng.events.clear()


def ctor_params(c):
    init, _ = c.lookup("__init__")
    if not isinstance(init, Func):
        return None
    a = init.node.args
    return [x.arg for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs], init


def plans(w):
    """(class, ((parameter, old word, new word), ...)) to try."""
    out, notes = [], []
    for c in w.concrete():
        if c.is_enum():
            continue
        setters = [n for n, (v, k) in members(c).items() if isinstance(v, Prop) and isinstance(v.fset, Func) and not n.startswith("_")]
        if not setters:
            continue
        cp = ctor_params(c)
        if cp is None:
            continue
        ps = [p for p in cp[0] if p in setters]
        one = []
        for p in ps:
            if p in WORDS:
                ws = WORDS[p]
                one += [(p, a, b) for a in ws for b in ws if a != b]
            else:
                one.append((p, None, None))
        for s in setters:
            if s not in cp[0]:
                notes.append(f"{c.module.name}:{c.name}.{s} is not a constructor parameter: only looked at as a query")
        out += [(c, (x,)) for x in one]
        first = {}
        for x in one:
            first.setdefault(x[0], x)
        out += [(c, (first[p], first[q])) for p in ps for q in ps if p != q]
    return out, notes


def attempt(eng, c, plan, budget, warm, settings=None):
    """Returns (status, [(query, what differs)], queries compared)."""
    settings = settings or {}
    names, _ = ctor_params(c)
    words = {p: (a, b) for p, a, b in plan}
    init = ctor_params(c)[1]
    need = len(init.node.args.args) - 1 - len(init.node.args.defaults)
    give = [n for i, n in enumerate(names) if n in words or n not in SKIP_DEFAULT.get(c.name, ()) and (i < need or n in members(c))]

    def vals(state):
        out = {n: NONE if x is None else Str(x) for n, x in settings.items()}
        for n in give:
            if n in settings and not (n in words and state == "new"):
                continue
            if n in words:
                out[n] = value(c, n, state, words[n][state == "new"])
            else:
                out[n] = value(c, n, "old", WORDS[n][0] if n in WORDS else None)
        return out
    ps = [p for p in words]
    sa, sb = State(), State()
    eng.steps, eng.memo, eng.cached_refs = 0, {}, {}
    old, eng.max_steps = eng.max_steps, 20 * budget
    try:
        oa = construct(eng, c, vals("old"), sa)
        ob = construct(eng, c, vals("new"), sb)
    except (Dead, Budget, RecursionError, KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
        return f"the constructor cannot be evaluated ({type(e).__name__})", [], 0
    finally:
        eng.max_steps = old
    qs = list(queries(c))
    if warm:
        for q in qs:
            r = ask(eng, c, oa, q, sa, budget // 4)
            if r is not None:
                sa = r[1]
    ctx = root_ctx(eng, c.module)
    try:
        eng.steps = 0
        for p in ps:
            eng.setattr(oa, p, value(c, p, "new", words[p][1]), sa, ctx, c.module.tree)
    except (Dead, Budget):
        return "cannot be assigned", [], 0
    finally:
        eng.events.clear()
    d = Diff(eng, ps, sa, sb, True).run(oa, ob)
    if not d.out:
        return "same", [], len(qs)
    bad, n = [], 0
    for q in qs:
        ra = ask(eng, c, oa, q, sa, budget)
        if ra is None:
            continue
        rb = ask(eng, c, ob, q, sb, budget)
        if rb is None:
            continue
        n += 1
        dd = Diff(eng, ps, ra[1], rb[1])
        for i, (x, y) in enumerate(zip(ra[0], rb[0])):
            dd.run(x, y, "")
        if dd.out:
            bad.append((q[0], dd.out[0][0], dd.out[0][1]))
    return "differs", bad, n


SKIP_DEFAULT = {}


def run(rep, repo, tier):
    eng = make_engine(repo)
    w = World(eng)
    eng.implementers = {c.name: c for c in w.concrete()}
    eng.abstract_ids = {id(c) for c in w.classes if w.abstract(c)}
    ps, notes = plans(w)
    rep.notes += notes
    budget = 20000 if tier == "quick" else 200000
    eng.events.clear()

    def one(x):
        c, plan = x
        rs = [attempt(eng, c, plan, budget, len(plan) == 1 or tier != "quick", s) for s in SETTINGS.get(c.name, ({},))]
        rs.sort(key=lambda r: (not r[1], r[0] not in ("same", "differs")))
        return rs[0][0], rs[0][1], sum(r[2] for r in rs)
    single = {}
    for (c, plan), (status, bad, n) in zip(ps, parallel(ps, one)):
        rule = "stale" if len(plan) == 1 else "pair"
        what = f"{c.module.name}:{c.name} " + ", then ".join(f"{p}" + (f" = {b!r} (was {a!r})" if b else "") for p, a, b in plan)
        con = f"{c.module.name}:{c.name}." + ", ".join(p for p, _, _ in plan)
        if status not in ("same", "differs"):
            if status == "cannot be assigned":
                rep.count("setters that always raise")
                f = c.lookup(plan[-1][0])[0].fset
                if rule == "stale" and not any(isinstance(s, ast.Raise) for s in f.node.body):
                    rep.violation(rule, con, f"assigning {what} always raises", c.module.name)
            else:
                rep.open(rule, what, status)
            continue
        rep.obligation(rule, what)
        rep.count("queries compared", n)
        if rule == "stale":
            single.setdefault(con, set()).update(b[0] for b in bad)
        elif any(b[0] in single.get(f"{c.module.name}:{c.name}.{p}", ()) for b in bad for p, _, _ in plan):
            continue
        if bad:
            q, path, why = bad[0]
            others = f" (also {', '.join(x[0] for x in bad[1:6])})" if len(bad) > 1 else ""
            rep.violation(rule, con, f"after assigning {what}, {q}{path} {why}{others}", c.module.name)
    rep.floor("stale", 25)
    rep.floor("pair", 60)
