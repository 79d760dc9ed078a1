"""Derivatives: the closed formulas of a function and of the function that claims to be its derivative are extracted by abstract evaluation,
the first is differentiated symbolically and the two normal forms (value numbering over a differential field) are compared."""
from .. import interp
from ..calc import Calc, ONE, Open
from ..drive import World, excluded, members
from ..interp import Budget, Dead
from ..models import Model
from ..project import Entry, atom, make_engine
from ..values import *

RULES = {
    "background": "the derivatives of a background model are those of its flux with respect to the parameter they are named after, one for every parameter",
    "params": "a model that reports its parameters reports each one under its own name",
    "thermal": "a thermal function named as a derivative is the derivative of the function it is named after",
    "log": "the logarithmic and the plain equilibrium abundance agree, and the abundance is the ratio of the number and entropy densities",
    "jacobian": "the Jacobian handed to the solver is the derivative of the right-hand side handed to it",
}
TH = "hazma.relic_density._thermal_functions"


def sym(n):
    return ("in", n)


def run(rep, repo, tier):
    interp.CLIP[0] = 20000
    eng = make_engine(repo)
    backgrounds(rep, eng)
    thermal(rep, eng)
    logs(rep, eng)
    jacobian(rep, eng)
    rep.assumptions.append("Symbols (masses, temperatures, energies and model parameters) stand for positive numbers.")
    rep.floor("background", 6)
    rep.floor("params", 6)
    rep.floor("thermal", 8)
    rep.floor("log", 2)
    rep.floor("jacobian", 1)


def guarded(rep, rule, what, fn):
    try:
        fn()
    except Dead:
        rep.open(rule, what, "the call always raises")
    except Budget:
        rep.open(rule, what, "step bound")
    except Open as e:
        rep.open(rule, what, str(e))
    except (RecursionError, AttributeError, KeyError, TypeError, IndexError, OverflowError) as e:
        rep.open(rule, what, f"not analysed: {type(e).__name__}: {e}")


def form(v):
    if not isinstance(v, Num) or v.form is None:
        raise Open("the result is not a number")
    return v.form


def compare(rep, rule, what, construct, c, want, got, msg, where):
    r = c.equal(want, got)
    if r:
        rep.obligation(rule, what)
    elif r is None:
        rep.open(rule, what, "the normal forms differ, but may hide an identity: " + ", ".join(sorted(c.why)))
    else:
        rep.violation(rule, construct, f"{msg}: expected {c.show(want, 200)}, the source gives {c.show(got, 200)}", where,
                      f"expected {c.show(want, 2000)}\nsource   {c.show(got, 2000)}")


# ------------------------------------------------------------------ background models
def backgrounds(rep, eng):
    w = World(eng)
    for c in w.concrete():
        if excluded(c.module.name) or not (has(c, "dPhi_dEdOmega") and has(c, "derivatives")):
            continue
        init = c.lookup("__init__")
        init = init[0] if isinstance(init, tuple) else init
        if not isinstance(init, Func):
            continue
        a = init.node.args
        names = [x.arg for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs]
        where = f"{c.module.rel}:{c.name}"
        for kind in ("scalar", "array"):
            guarded(rep, "background", f"{c.name} ({kind} energy)", lambda: background(rep, eng, c, names, kind, where))
        guarded(rep, "params", c.name, lambda: params(rep, eng, c, names, where))


def has(c, n):
    v = c.lookup(n)
    return v is not None and (not isinstance(v, tuple) or v[0] is not None)


def make(eng, c, names):
    E = Entry(eng, c.module.name)
    eng.steps = 0
    return E, E.call(c, [], {n: atom(n, None, kind="scalar") for n in names})


def background(rep, eng, c, names, kind, where):
    E, o = make(eng, c, names)
    en = atom("energy", D(MeV=1), kind=kind)
    d = E.call(E.attr(o, "derivatives"), [en])
    h = eng.get(E.st, d.id) if isinstance(d, Ref) else None
    if h is None or h.kind != "dict":
        raise Open("the derivatives are not a dictionary")
    items = {k: v for k, v in h.items.items() if isinstance(k, str)}
    if not items and h.rest is None:
        return  # a model without free parameters
    f = form(E.call(E.attr(o, "dPhi_dEdOmega"), [en]))
    for k, v in items.items():
        if k not in names:
            rep.violation("background", f"{c.name}.{k}", f"{c.name} reports a derivative with respect to {k}, which is not one of its parameters {', '.join(names)}", where)
    for n in names:
        what = f"{c.name}: d flux / d {n} ({kind} energy)"

        def one():
            if n not in items:
                if h.rest is not None:
                    raise Open("keys of the derivatives are not all known")
                C = Calc()
                if C.diff(C.norm(f), sym(n))[0]:
                    rep.violation("background", f"{c.name}.{n}", f"{c.name} has no derivative with respect to its parameter {n}", where)
                return
            C = Calc()
            want = C.diff(C.norm(f), sym(n))
            compare(rep, "background", what, f"{c.name}.{n}", C, want, C.norm(form(items[n])), f"the derivative of the flux of {c.name} with respect to {n}", where)
        guarded(rep, "background", what, one)


def params(rep, eng, c, names, where):
    if not has(c, "params"):
        return
    E, o = make(eng, c, names)
    p = E.attr(o, "params")
    h = eng.get(E.st, p.id) if isinstance(p, Ref) else None
    if h is None or h.kind != "dict":
        raise Open("the parameters are not a dictionary")
    if not h.items and h.rest is None:
        return
    for n in names:
        if n not in h.items:
            if h.rest is None:
                rep.violation("params", f"{c.name}.{n}", f"the parameters reported by {c.name} do not include {n}: {', '.join(map(str, h.items))}", where)
            else:
                rep.open("params", f"{c.name}.{n}", "keys are not all known")
            continue
        v = h.items[n]
        if isinstance(v, Num) and v.form == {sym(n): 1.0}:
            rep.obligation("params", f"{c.name}.{n}")
        elif isinstance(v, Num) and ("in", n) not in v.deps and v.deps & {("in", x) for x in names}:
            rep.violation("params", f"{c.name}.{n}", f"{c.name} reports {', '.join(sorted(d[1] for d in v.deps if d[0] == 'in'))} under the name {n}", where)
        else:
            rep.open("params", f"{c.name}.{n}", "value not known")


# ------------------------------------------------------------------ thermal functions
def pairs(eng, mod):
    ns = eng.module_ns(eng.modules[mod])
    fs = {n: v for n, v in ns.items() if isinstance(v, Func)}
    for n in sorted(fs):
        for suf in ("_deriv", "_derivative", "_derivx"):
            if n.endswith(suf) and n[:-len(suf)] in fs:
                yield fs[n[:-len(suf)]], fs[n], suf


def fn_args(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args], {x.arg: annotated(x) for x in a.args}


def annotated(x):
    import ast
    return ast.unparse(x.annotation) if x.annotation is not None else ""


def thermal(rep, eng):
    for mod in sorted(eng.modules):
        if excluded(mod) or mod.startswith("rust."):
            continue
        try:
            todo = list(pairs(eng, mod))
        except (Dead, Budget, RecursionError):
            continue
        for f, d, suf in todo:
            names, ann = fn_args(f)
            dn, _ = fn_args(d)
            if len(names) != len(dn) or not names:
                rep.open("thermal", d.name, "parameters differ from those of the function")
                continue
            flags = [n for n in names if ann.get(n) == "bool"]
            massive = [True, False] if "mass" in names and suf != "_derivx" else [True]
            for m in massive:
                for fl in range(2 ** len(flags)):
                    vals = {n: bool(fl >> i & 1) for i, n in enumerate(flags)}
                    for kind in ("scalar", "array"):
                        what = f"{d.name} is the derivative of {f.name}" + ("" if "mass" not in names else " (massive" if m else " (massless") + "".join(f", {n}={v}" for n, v in vals.items()) + (")" if "mass" in names else "") + f" [{kind}]"
                        guarded(rep, "thermal", what, lambda: pair(rep, eng, mod, f, d, suf, names, dn, m, vals, kind, what))


def call(eng, mod, f, names, m, vals, kind, first):
    E = Entry(eng, mod)
    eng.steps = 0
    args = []
    for i, n in enumerate(names):
        if i == 0:
            args.append(first)
        elif n in vals:
            args.append(literal(vals[n]))
        elif n == "mass" and not m:
            args.append(literal(0.0))
        else:
            args.append(atom(n, D(MeV=1) if n == "mass" else None, kind="scalar"))
    E.st.path += tuple(Lit("eq", form={sym(n): 1.0}, pol=False) for n in names[1:] if n not in vals and (n != "mass" or m))
    return form(E.call(f, args))


def pair(rep, eng, mod, f, d, suf, names, dn, m, vals, kind, what):
    C = Calc()
    where = f"{f.module.rel}:{d.name}"
    if suf == "_derivx":
        # with respect to x = mass / first argument
        x = atom("x", D0, kind=kind)
        mass = atom("mass", D(MeV=1), kind="scalar")
        T = Num(None, D(MeV=1), {("div", interp.fkt(mass.form), interp.fkt(x.form)): 1.0}, None, frozenset(), mass.deps | x.deps, frozenset(), None, kind)
        want = C.diff(C.norm(call(eng, mod, f, names, m, vals, kind, T)), sym("x"))
        got = C.norm(call(eng, mod, d, dn, m, vals, kind, x))
    else:
        x = atom(names[0], D(MeV=1), kind=kind)
        want = C.diff(C.norm(call(eng, mod, f, names, m, vals, kind, x)), sym(names[0]))
        got = C.norm(call(eng, mod, d, dn, m, vals, kind, x))
    construct = f"{d.name}|{'massive' if m else 'massless'}" + "".join(f"|{n}={v}" for n, v in vals.items())
    compare(rep, "thermal", what, construct, C, want, got, f"{d.name} is not the derivative of {f.name}", where)


# ------------------------------------------------------------------ abundances
def symbolic(table):
    """Call hook: the named functions of the thermal module become symbols (or uninterpreted functions of their first argument)."""
    def hook(eng, f, args, kw, node, st, ctx):
        if not (isinstance(f, Func) and f.module.name == TH and f.name in table and getattr(f, "cls", None) is None):
            return None
        t = table[f.name]
        if t is not None:
            return t
        a = list(args)
        x = next((y for y in a if isinstance(y, Num)), None)
        if x is None or x.form is None:
            return None
        rest = tuple(interp.fkt(y.form) if isinstance(y, Num) and y.form is not None else repr(type(y)) for y in a[1:]) + tuple(sorted((k, interp.fkt(y.form) if isinstance(y, Num) and y.form is not None else "") for k, y in kw.items()))
        return Num(None, D0, {("app", (((("fn", f.name) + rest), 1.0),), interp.fkt(x.form)): 1.0}, None, frozenset(), x.deps, frozenset(), None, "scalar")
    return hook


def logs(rep, eng):
    ns = eng.module_ns(eng.modules[TH]) if TH in eng.modules else {}
    n, s = atom("neq", D(MeV=3), kind="scalar"), atom("s", D(MeV=3), kind="scalar")
    for name, want in (("yeq", {("div", interp.fkt(n.form), interp.fkt(s.form)): 1.0}), ("weq", {("f", "log", ((("div", interp.fkt(n.form), interp.fkt(s.form)), 1.0),)): 1.0})):
        f = ns.get(name)
        if not isinstance(f, Func):
            rep.open("log", name, "function not found")
            continue
        for kind in ("scalar", "array") if name == "yeq" else ("scalar",):

            def one():
                E = Entry(eng, TH)
                eng.steps = 0
                E.st.path += (Lit("pos", form=dict(n.form)),)
                eng.call_hook = symbolic({"neq": n, "sm_entropy_density": s})
                try:
                    v = E.call(f, [atom("T", D(MeV=1), kind=kind), atom("mass", D(MeV=1), kind="scalar")])
                finally:
                    eng.call_hook = None
                C = Calc()
                compare(rep, "log", f"{name} [{kind}]", name, C, C.norm(want), C.norm(form(v)), f"{name} as a function of the number and entropy densities", f"{f.module.rel}:{name}")
            guarded(rep, "log", f"{name} [{kind}]", one)


# ------------------------------------------------------------------ solver
def jacobian(rep, eng):
    """Every call of an initial-value solver that passes a Jacobian."""
    mod = "hazma.relic_density._diffeq"
    if mod not in eng.modules:
        rep.open("jacobian", mod, "module not found")
        return

    def one():
        M = Model(eng, "ScalarMediator")
        E, st = M.entry, M.st
        ns = eng.module_ns(eng.modules[mod], st)
        f = next((v for n, v in sorted(ns.items()) if isinstance(v, Func) and v.module.name == mod and "solve" in n), None)
        if f is None:
            raise Open("no solver function found")
        eng.steps = 0
        del eng.events[:]
        eng.call_hook = symbolic({"weq": None, "thermal_cross_section": None, "sm_sqrt_gstar": None})
        try:
            E.call(f, [M.obj])
            evs = [e for e in eng.events if e.kind == "ext_call" and e.info.get("name", "").endswith("solve_ivp")]
            if not evs:
                raise Open("no call of the solver seen")
            for e in evs:
                rhs, jac = e.info["args"][0], e.info["kw"].get("jac")
                if jac is None or jac is NONE or isinstance(jac, Str):
                    continue
                logx = atom("logx", D0, kind="scalar")
                w = eng.alloc(st, HList([atom("w0", D0, kind="scalar")]))
                F = element(eng, st, E.call(rhs, [logx, w]))
                J = element(eng, st, element(eng, st, E.call(jac, [logx, w])))
                C = Calc()
                compare(rep, "jacobian", "right-hand side and Jacobian of the freeze-out equation", "solve_ivp", C, C.diff(C.norm(form(F)), sym("w0")), C.norm(form(J)),
                        "the Jacobian handed to the solver", f"{f.module.rel}:{f.name}")
        finally:
            eng.call_hook = None
    guarded(rep, "jacobian", "freeze-out equation", one)


def element(eng, st, v):
    if isinstance(v, Num) and v.poly is not None and len(v.poly) == 1:
        return v.poly[0]
    el = eng.elements(v, st) if not isinstance(v, Num) else None
    if el is not None and el[1] is None and len(el[0]) == 1:
        return el[0][0]
    return v
