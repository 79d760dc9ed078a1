"""Both sides of the native boundary are interpreted as one program: every symbol Python takes from the extension is looked up in the
registration code, every call is bound to the native signature, and the value that arrives under each native parameter's name is compared,
as a symbolic form, with the model attribute or public argument of that name; each registered function is then followed into its kernel."""
import ast
import re

from .. import alg
from ..drive import excluded
from ..interp import Budget, Dead, State
from ..kernels import LONG
from ..models import Model
from ..project import Entry, atom, make_engine, root_ctx
from ..values import *
from . import p18

RULES = {
    "exported": "every name the Python layer takes from the native extension is registered under that submodule and name",
    "arity": "every call of a native function fits its parameters",
    "argument": "a native parameter receives the model attribute or public argument of its own name",
    "own-function": "a public function that has a native namesake evaluates that one",
    "own-kernel": "a registered native function evaluates the kernel of its own name and hands each parameter to the kernel parameter of the same name",
    "own-particle": "a native spectrum uses its own particle's constants, tables and rest-energy guard",
}
DOMAINS = ("photon", "positron", "neutrino", "scalar_mediator", "vector_mediator")
MODELS = {"scalar_mediator": "ScalarMediator", "vector_mediator": "VectorMediator"}
FERMION = {"e": "electron_mass", "mu": "muon_mass"}
PER_FERMION = {("gvll", "e"): "gvee", ("gvll", "mu"): "gvmumu"}


class _Once:
    """Counts each instance once, however many paths reach it."""

    def __init__(self, rep):
        self.rep, self.seen = rep, set()

    def obligation(self, rule, what):
        if (rule, what) not in self.seen:
            self.seen.add((rule, what))
            self.rep.obligation(rule, what)

    def violation(self, rule, construct, msg, where="", detail=None):
        k = (rule, where, construct.rpartition(":")[2] if rule == "argument" else construct)
        if k not in self.seen:
            self.seen.add(k)
            self.rep.violation(rule, construct, msg, where, detail)

    def __getattr__(self, n):
        return getattr(self.rep, n)


def run(rep, repo, tier):
    rep = _Once(rep)
    eng = make_engine(repo)
    exported(rep, eng)
    mediators(rep, eng, tier)
    B = p18.Bench(repo)
    wrappers(rep, B)
    natives(rep, eng)
    p18.kernels(_Sub(rep), B)
    rep.floor("exported", 30)
    rep.floor("arity", 40)
    rep.floor("argument", 120)
    rep.floor("own-function", 28)
    rep.floor("own-kernel", 90)
    rep.floor("own-particle", 60)


class _Sub:
    """The kernel walk of the spectra check, reported here for the functions that live in the extension."""

    def __init__(self, rep):
        self.rep = rep

    def obligation(self, rule, what):
        self.rep.obligation("own-particle", f"{rule}: {what}")

    def open(self, rule, what, why):
        self.rep.open("own-particle", f"{rule}: {what}", why)

    def violation(self, rule, construct, msg, where="", detail=None):
        self.rep.violation("own-particle", f"{rule} {construct}", msg, where)


def exported(rep, eng):
    subs = {s for s, _ in eng.native if s}
    for mn, m in sorted(eng.modules.items()):
        if m.rust or excluded(mn):
            continue
        alias = {}       # local name -> submodule ('' for the extension itself)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == "hazma._core" or a.name.startswith("hazma._core."):
                        s = a.name[len("hazma._core."):]
                        use(rep, eng, subs, m, n, s, None)
                        if a.asname:
                            alias[a.asname] = s
            elif isinstance(n, ast.ImportFrom):
                base = absolute(n, m)
                if base == "hazma" and any(a.name == "_core" for a in n.names):
                    for a in n.names:
                        if a.name == "_core":
                            alias[a.asname or a.name] = ""
                if base is None or not (base == "hazma._core" or base.startswith("hazma._core.")):
                    continue
                s = base[len("hazma._core."):]
                for a in n.names:
                    if s == "" and a.name in subs:
                        alias[a.asname or a.name] = a.name
                        rep.obligation("exported", f"{mn}: hazma._core.{a.name}")
                    else:
                        use(rep, eng, subs, m, n, s, a.name)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias:
                s = alias[n.value.id]
                if s == "" and n.attr in subs:
                    continue
                if not n.attr.startswith("__"):
                    use(rep, eng, subs, m, n, s, n.attr)


def absolute(n, m):
    if n.level == 0:
        return n.module
    parts = m.name.split(".")
    if not m.rel.endswith("__init__.py"):
        parts = parts[:-1]
    parts = parts[: len(parts) - (n.level - 1)]
    return ".".join(parts + ([n.module] if n.module else []))


def use(rep, eng, subs, m, n, s, name):
    what = "hazma._core" + (f".{s}" if s else "") + (f".{name}" if name else "")
    ok = (s == "" or s in subs) and (name is None or name == "*" or (s, name) in eng.native)
    if ok:
        rep.obligation("exported", f"{m.name}: {what}")
    else:
        rep.violation("exported", f"{m.name}: {what}", f"{m.name} uses {what}, which the native extension does not register", f"{m.rel}:{n.lineno}")


def params(f):
    a = f.node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def bound(rep, what, key, e):
    """Native parameter -> value of one native_call event, or None."""
    g = e.info["target"]
    if not isinstance(g, Func):
        rep.open("arity", what, "native function not found")
        return None
    names = params(g)
    args, kw = e.info["args"], e.info["kw"]
    if len(args) > len(names) or any(k not in names for k in kw) or set(names[: len(args)]) & set(kw) or len(args) + len(kw) != len(names):
        rep.violation("arity", key, f"{what} passes {len(args)} positional and {sorted(kw)} named arguments to a native function of {len(names)}: {', '.join(names)}", e.where)
        return None
    rep.obligation("arity", what)
    return {**dict(zip(names, args)), **kw}


def form(v):
    return v.form if isinstance(v, Num) else None


def shown(v):
    if isinstance(v, Num) and v.form:
        return formstr(v.form)
    return repr(v)[:60]


def mediators(rep, eng, tier):
    for sub, cname in MODELS.items():
        M = Model(eng, cname)
        cls = M.cls
        par = Entry(eng, "hazma.parameters")
        mass = {f: par.name(n).const for f, n in FERMION.items()}
        names = sorted({n for c in cls.mro() if isinstance(c, Cls) for n in c.ns})
        attrs = {}

        def attribute(p):
            if p not in attrs:
                i0 = len(eng.events)
                try:
                    attrs[p] = M.attr(p)
                except Dead:
                    attrs[p] = None
                if any(e.kind == "attr_missing" for e in eng.events[i0:]):
                    attrs[p] = None
                del eng.events[i0:]
            return attrs[p]
        for n in names:
            if n.startswith("__"):
                continue
            f, _ = cls.lookup(n)
            if f is not None and not isinstance(f, Func):
                f = eng.resolve_lazy(f, M.st)
            if not isinstance(f, Func):
                continue
            ps = params(f)[1:]
            for fl in ("e", "mu") if "f" in ps else (None,):
                eng.events.clear()
                eng.steps = 0
                old, eng.max_steps = eng.max_steps, 40000
                st0 = M.st.fork()
                try:
                    a = {p: Str(fl) if p == "f" else atom("arg." + p, kind="scalar") for p in required(f)[1:]}
                    g = eng.getattr(M.obj, n, st0, M.entry.ctx, M.entry.module.tree)
                    eng.call(g, [], a, st0, M.entry.ctx, M.entry.module.tree)
                except (Dead, Budget):
                    pass
                except RecursionError:
                    pass
                finally:
                    eng.max_steps = old
                calls = [e for e in eng.events if e.kind == "native_call" and e.info["name"].startswith(f"hazma._core.{sub}.")]
                own = [e for e in calls if e.info["name"].rpartition(".")[2] == n]
                if (sub, n) in eng.native and calls:
                    rep.count("native namesakes", 1)
                    if own:
                        rep.obligation("own-function", f"{cname}.{n}")
                    else:
                        rep.violation("own-function", f"{cname}.{n}", f"{cname}.{n} evaluates the native {calls[0].info['name'].rpartition('.')[2]} and never the native {n}", calls[0].where)
                for e in calls:
                    nat = e.info["name"].rpartition(".")[2]
                    what = f"{cname}.{n}" + (f"('{fl}')" if fl else "") + f" -> {nat}"
                    key = f"{cname}.{n}->{nat}"
                    b = bound(rep, what, key, e)
                    if b is None:
                        continue
                    for i, (p, v) in enumerate(b.items()):
                        k = PER_FERMION.get((p, fl), p)
                        want = attribute(k)
                        w = f"{what}({p})"
                        if p in ("mf", "ml") and fl in mass and want is None:
                            c = v.const if isinstance(v, Num) else None
                            if c is None:
                                rep.open("argument", w, "mass not determined")
                            elif abs(c - mass[fl]) > 1e-9:
                                rep.violation("argument", f"{key}:{p}", f"{what} passes {c} as the fermion mass {p}", e.where)
                            else:
                                rep.obligation("argument", w)
                        elif isinstance(want, Num):
                            q = same(v, want)
                            if q is True:
                                rep.obligation("argument", w)
                            elif q is False:
                                rep.violation("argument", f"{key}:{p}", f"{what} passes {shown(v)} for the native parameter {p}", e.where)
                            else:
                                rep.open("argument", w, "value not in closed form")
                        else:
                            # not an attribute of the model: it may not be one of the model's attributes by mistake
                            bad = [x for x, y in attrs.items() if isinstance(y, Num) and y.form and len(alg.symbols(y.form) or ()) == 1 and same(v, y) is True]
                            if bad and i == 0:
                                rep.violation("argument", f"{key}:{p}", f"{what} passes the model's {bad[0]} for the native parameter {p}", e.where)
                            else:
                                fa = form(v)
                                mine = {("in", "arg." + x) for x in ps}
                                if i == 0 and fa is not None and len(fa) == 1 and next(iter(fa)) in mine:
                                    rep.obligation("argument", w)
                                elif i == 0:
                                    rep.count("computed first arguments", 1)
    eng.events.clear()


def same(v, want):
    if not isinstance(v, Num):
        return None
    if v.form and v.form == want.form:
        return True
    return alg.equal(v.form, want.form)


def required(f):
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args]
    need = pos[: len(pos) - len(a.defaults)]
    return need + [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]


def wrappers(rep, B):
    """The public single-particle spectra and the native functions under them."""
    eng = B.eng
    B.K.on = False
    for (m, p), f in sorted(B.K.named.items()):
        name = f"dnde_{m}_{LONG[p]}"
        st = State()
        eng.steps = 0
        eng.events.clear()
        try:
            eng.call(f, [atom("E", D(MeV=1), kind="array"), atom("EP", D(MeV=1), kind="scalar")], {}, st, B.entry.ctx, B.entry.module.tree)
        except Dead:
            continue
        calls = [e for e in eng.events if e.kind == "native_call" and e.info["name"].rpartition(".")[2].startswith("dnde_")]
        if (m, name) not in eng.native:
            rep.count("spectra computed in Python", 1)
            continue
        own = [e for e in calls if e.info["name"] == f"hazma._core.{m}.{name}"]
        if not own:
            other = sorted({e.info["name"] for e in calls})
            if other:
                rep.violation("own-function", name, f"{name} evaluates {', '.join(other)} and not the native {name}", calls[0].where)
            else:
                rep.open("own-function", name, "does not call the extension")
            continue
        rep.obligation("own-function", name)
        e = own[0]
        b = bound(rep, name, name, e)
        if b is None:
            continue
        for i, (k, v) in enumerate(list(b.items())[:2]):
            want = {("in", ("E", "EP")[i]): 1.0}
            q = alg.equal(form(v), want)
            w = f"{name}({k})"
            fa = form(v)
            if fa == want or q is True:
                rep.obligation("argument", w)
            elif q is False:
                rep.violation("argument", f"{name}:{i}", f"{name} passes {shown(v)} as {k}", e.where)
            else:
                rep.open("argument", w, "value not in closed form")
    B.K.on = True
    eng.events.clear()


def natives(rep, eng):
    """Each registered function, from its Python signature down to the kernels it evaluates."""
    for (sub, name), target in sorted(eng.native.items()):
        if sub not in DOMAINS:
            continue
        f = eng.native_func(f"hazma._core.{sub}.{name}")
        key = f"{sub}.{name}"
        if not isinstance(f, Func):
            rep.open("own-kernel", key, "not analysable")
            continue
        ps = params(f)
        atoms = {p: atom("A." + p, kind="scalar") for p in ps}
        seen = []
        prev = eng.call_hook

        def hook(engine, g, args, kw, node, st, ctx):
            if isinstance(g, Func) and g.module.name.startswith("rust.kernels") and not ctx.module.name.startswith("rust.kernels"):
                seen.append((g, list(args), ctx, node))
            return prev(engine, g, args, kw, node, st, ctx) if prev else None
        eng.call_hook = hook
        eng.steps = 0
        eng.events.clear()
        old, eng.max_steps = eng.max_steps, 60000
        try:
            eng.call(f, list(atoms.values()), {}, State(), root_ctx(eng, f.module), f.module.tree)
        except (Dead, Budget):
            pass
        finally:
            eng.call_hook = prev
            eng.max_steps = old
        where = f"{f.module.rel}:{f.node.lineno}"
        rep.count("native functions", 1)
        if f.name != name and (sub, f.name) in eng.native:
            rep.violation("own-kernel", key, f"hazma._core.{key} is registered as the function {f.name}", where)
        others = {n for s, n in eng.native if n != name}
        # a namesake: the kernel's name, or its module's last word with it, ends in this function's name
        named = [g for g, *_ in seen]
        own = [g for g in named if g.name == name]
        foreign = [g for g in named if g.name in others and g.name.startswith(("sigma_", "dnde_", "thermal_"))]
        if not named:
            rep.open("own-kernel", key, "no kernel reached")
        elif foreign and not own:
            rep.violation("own-kernel", key, f"hazma._core.{key} evaluates the kernel {foreign[0].name}", where)
        else:
            rep.obligation("own-kernel", key)
        for g, args, ctx, node in seen:
            for q, v in zip(params(g), args):
                fa = form(v)
                src = next((p for p in ps if fa == {("in", "A." + p): 1.0}), None)
                if q not in atoms:
                    continue
                w = f"{key} -> {g.name}({q})"
                if src == q:
                    rep.obligation("own-kernel", w)
                elif src is not None:
                    rep.violation("own-kernel", f"{key}:{q}", f"hazma._core.{key} hands its {src} to the kernel parameter {q}", f"{ctx.module.rel}:{getattr(node, 'lineno', 0)}")
                else:
                    rep.count("kernel parameters computed from several", 1)
