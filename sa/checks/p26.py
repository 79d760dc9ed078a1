"""Breit-Wigner factorisation: the closed formulas of an annihilation cross section, of the mediator's width into the same channel and of its
width into dark matter are extracted by abstract evaluation (mediator width, named constants and hadronic form factors stay symbols), brought
into normal form and compared with the factorised expression."""
import math

from .. import interp
from ..calc import Calc, ONE, Open, mmul
from ..interp import Budget, Dead
from ..models import SPECS, Model
from ..project import atom, global_hook, make_engine
from ..values import *

RULES = {
    "factorise": "a cross section through a mediator is the Breit-Wigner product of the mediator's widths into the initial and the final state",
    "total": "the total width of a mediator is the sum of its partial widths",
    "twins": "two implementations of the same cross section agree",
    "crossing": "a process and its inverse have the same squared amplitude",
}
# model -> (mediator mass symbol, spin of the mediator)
MED = {"ScalarMediator": ("ms", 0), "HiggsPortal": ("ms", 0), "HeavyQuark": ("ms", 0),
       "VectorMediator": ("mv", 1), "KineticMixing": ("mv", 1), "QuarksOnly": ("mv", 1),
       "VectorMediatorGeV": ("mv", 1), "KineticMixingGeV": ("mv", 1), "BLGeV": ("mv", 1)}
QUICK = ("ScalarMediator", "VectorMediator", "VectorMediatorGeV")
OPAQUE = [True]
W, VS, E_CM = "W", "vs", "e_cm"


def run(rep, repo, tier):
    interp.CLIP[0] = 20000
    names, found, bad = set(), {}, set()
    for name in (MED if tier == "thorough" else QUICK):
        if name in SPECS:
            done = model(rep, repo, name, bad)
            if done:
                found[name] = done
            names.add(name)
    twins(rep, found)
    rep.notes.append("Models: " + ", ".join(sorted(names)))
    rep.assumptions.append("Above threshold, with masses, couplings, energies and widths positive; hadronic form factors are opaque functions of the energy; named constants are symbols.")
    rep.floor("factorise", 20)
    rep.floor("total", 2)


def sample(n):
    """A point above every threshold."""
    return {"e_cm": 1e4, "mv": 3e3, "ms": 3e3}.get(n, 50 + sum(ord(x) * (i + 7) for i, x in enumerate(str(n))) % 97 + 0.25)


def engine(repo):
    eng = make_engine(repo)
    values = {}

    def gh(module, name, v):
        v = global_hook(module, name, v)
        if isinstance(v, Num) and len(v.deps) == 1 and v.kind != "fn":
            (d,) = v.deps
            if d[0] == "const" and (module.rust or module.name == "hazma.parameters") and v.dim is not LIT:
                if isinstance(v.const, (int, float)) and not isinstance(v.const, bool):
                    values.setdefault(d[1], float(v.const))
                return v.copy(const=None, form={("in", d[1]): 1.0})
        return v
    eng.global_hook = gh
    eng.open_forms = True
    eng.call_hook = hook
    return eng, values


def hook(eng, f, args, kw, node, st, ctx):
    if not isinstance(f, Func):
        return None
    if f.name == "compute_vs":
        return atom(VS, D(MeV=1), kind="scalar")
    if f.name == "width_v" and OPAQUE[0] and f.bound is not None:
        return atom(W, D(MeV=1), kind="scalar")
    if f.name == "integrated_form_factor":
        o = eng.get(st, f.bound.id) if isinstance(f.bound, Ref) else None
        q = kw.get("q", args[0] if args else None)
        if o is None or not isinstance(q, Num) or q.form is None:
            return None
        cp = kw.get("couplings")
        cf = tuple(tuple(sorted(x.form.items(), key=repr)) if isinstance(x, Num) and x.form else repr(type(x)) for x in couplings(eng, cp, st))
        return Num(None, None, {("app", ((("in", "ff:" + o.cls.name + repr(cf)), 1.0),), interp.fkt(q.form)): 1.0}, None, E, frozenset(), kind=q.kind)
    return None


def couplings(eng, v, st):
    """The entries of the couplings argument, in order."""
    if isinstance(v, Ref):
        h = eng.get(st, v.id)
        if h.kind == "obj":
            return [h.attrs[k] for k in sorted(h.attrs)]
        el = eng.elements(v, st)
        return list(el[0]) if el else [v]
    if isinstance(v, Tup):
        return list(v.elems)
    return [v]


def guarded(rep, rule, what, fn):
    try:
        fn()
    except Dead:
        rep.open(rule, what, "the call always raises")
    except Budget:
        rep.open(rule, what, "step bound")
    except Open as e:
        rep.open(rule, what, str(e))
    except (RecursionError, AttributeError, KeyError, TypeError, IndexError, OverflowError) as e:
        rep.open(rule, what, f"not analysed: {type(e).__name__}: {e}")


def form(v):
    if not isinstance(v, Num) or v.form is None:
        raise Open("the result is not a number")
    return v.form


def model(rep, repo, name, bad):
    med, spin = MED[name]
    eng, values = engine(repo)
    M = Model(eng, name)
    o = eng.get(M.st, M.obj.id)
    for w_ in ("width_s", "width_v"):
        if w_ in o.attrs:
            o.attrs[w_] = atom(W, D(MeV=1), kind="scalar")
    if "vs" in o.attrs:
        o.attrs["vs"] = atom(VS, D(MeV=1), kind="scalar")
    where = o.cls.module.rel
    tables = {}

    def load():
        w, rest = M.items(M.call("partial_widths"))
        s, rest2 = M.items(M.call("annihilation_cross_section_funcs"))
        if not w or not s:
            raise Open("the tables of widths and cross sections are not known")
        tables["w"], tables["s"] = w, s
    guarded(rep, "factorise", f"{name}: tables", load)
    if not tables:
        return
    e = atom(E_CM, D(MeV=1), kind="scalar")
    xx = tables["w"].get("x x")
    if xx is None:
        try:
            xx = M.call("width_v_to_x_x" if spin else "width_s_to_xx")
        except (Dead, AttributeError, KeyError):
            pass
    bases = [b.name for b in o.cls.mro()]
    for ch in sorted(k for k in tables["s"] if k in tables["w"] and isinstance(k, str) and k not in ("total", "x x")):
        if any((b, ch) in bad for b in bases):
            rep.open("factorise", f"{name} {ch}", "inherited from a class where it fails")
            continue

        def one(ch=ch):
            eng.steps = 0
            c = Calc(split=True, sample=sample)
            E2 = lf(c, E_CM)
            gx = c.subst(c.norm(form(xx)), ("in", med), E2)
            g = c.subst(c.norm(form(tables["w"][ch])), ("in", med), E2)
            s = c.norm(form(M.entry.call(tables["s"][ch], [e])))
            if not s[0] and not g[0]:
                rep.obligation("factorise", f"{name} {ch}: both vanish")
                return
            m, w, mx = lf(c, med), lf(c, W), lf(c, "mx")
            e2, m2 = c.mul(E2, E2), c.mul(m, m)
            d = c.add(e2, m2, -1)
            dn = c.add(c.mul(d, d), c.mul(m2, c.mul(w, w)))
            k2 = c.add(c.mul(e2, kk(0.25)), c.mul(mx, mx), -1)
            lhs = c.mul(c.mul(s, dn), k2)
            rhs = c.mul(c.mul(e2, c.mul(gx, g)), kk((2 * spin + 1) * math.pi))
            ok = decide(rep, "factorise", f"{name} {ch}", f"{name}|{ch}", c, rhs, lhs, values,
                   f"{name}: the cross section of x x -> {ch} is not the Breit-Wigner product of the mediator's widths into x x and {ch}", where)
            if ok is False:
                bad.add((name, ch))
        guarded(rep, "factorise", f"{name} {ch}", one)

    def total():
        eng.steps = 0
        want = {}
        for ch, v in tables["w"].items():
            if ch != "total":
                for a, x in form(v).items():
                    want[a] = want.get(a, 0.0) + x
        if "total" in tables["w"]:
            got = form(tables["w"]["total"])
        else:
            OPAQUE[0] = False
            try:
                got = form(M.call("width_v"))
            finally:
                OPAQUE[0] = True
        if interp.fkt(want) == interp.fkt(got):
            rep.obligation("total", f"{name}: {len(tables['w']) - ('total' in tables['w'])} partial widths")
            return
        left = {a: want.get(a, 0.0) - got.get(a, 0.0) for a in set(want) | set(got)}
        left = {a: x for a, x in left.items() if abs(x) > 1e-12 * max(abs(want.get(a, 0.0)), abs(got.get(a, 0.0)))}
        if not set(left) <= set(want):
            raise Open("the total is not a literal sum")
        c = Calc(split=True, sample=sample)
        if c.norm(left)[0]:
            off = [ch for ch, v in tables["w"].items() if ch != "total" and form(v) and all(a in left for a in form(v))]
            rep.violation("total", f"{name}|total", f"{name}: the total width is not the sum of the partial widths" + (f" (differs by {', '.join(off)})" if off else ""), where, c.show(c.norm(left), 2000))
    guarded(rep, "total", f"{name}: total", total)

    def crossing():
        eng.steps = 0
        c = Calc(split=True, sample=sample)
        E2, mx, m = lf(c, E_CM), lf(c, "mx"), lf(c, med)
        q = c.mul(c.mul(E2, E2), kk(0.25))
        kx, ks = c.add(q, c.mul(mx, mx), -1), c.add(q, c.mul(m, m), -1)
        for r in (kx, ks):
            c.power(r, 0.5)
        a = c.mul(c.norm(form(M.call("sigma_ss_to_xx", e))), ks)
        # four spin states against one, and a pair of identical particles in one of the two directions
        b = c.mul(c.mul(c.norm(form(M.call("sigma_xx_to_ss", e))), kx), kk(8.0))
        decide(rep, "crossing", f"{name}: s s <-> x x", f"{name}|s s <-> x x", c, b, a, values,
               f"{name}: the cross sections of s s -> x x and of x x -> s s do not belong to the same squared amplitude", where)
    if not spin:
        guarded(rep, "crossing", f"{name}: s s <-> x x", crossing)
    return M, tables, values


# pairs of classes that describe the same theory, with the final states whose rates do not involve hadronic form factors
TWINS = [("VectorMediator", "VectorMediatorGeV", ("e e", "mu mu", "v v", "x x"))]


def twins(rep, found):
    for a, b, chs in TWINS:
        if a not in found or b not in found:
            continue
        e = atom(E_CM, D(MeV=1), kind="scalar")
        vals = {**found[a][2], **found[b][2]}
        for ch in chs:
            for tab, what in (("s", "cross section"), ("w", "width")):
                fs = [found[n][1][tab].get(ch) for n in (a, b)]
                if any(f is None for f in fs):
                    if ch == "v v" and tab == "s":
                        for i, n in enumerate((a, b)):
                            for meth in ("sigma_xx_to_vv", "sigma_xx_to_v_v"):
                                if fs[i] is None:
                                    try:
                                        fs[i] = found[n][0].attr(meth)
                                    except Exception:
                                        pass
                    if any(f is None for f in fs):
                        continue

                def one(fs=fs, tab=tab, what=what, ch=ch):
                    c = Calc(split=True, sample=sample)
                    q = c.mul(c.mul(lf(c, E_CM), lf(c, E_CM)), kk(0.25))
                    for n in ("mx", "mv"):
                        c.power(c.add(q, c.mul(lf(c, n), lf(c, n)), -1), 0.5)
                    r = []
                    for n, f in zip((a, b), fs):
                        found[n][0].eng.steps = 0
                        r.append(c.norm(form(found[n][0].entry.call(f, [e]) if tab == "s" else f)))
                    decide(rep, "twins", f"{a} / {b}: {what} {ch}", f"{a}/{b}|{what} {ch}", c, r[0], r[1], vals,
                           f"{a} and {b} give different {what}s for {ch}", "hazma/vector_mediator")
                guarded(rep, "twins", f"{a} / {b}: {what} {ch}", one)


def lf(c, n):
    return {((c.leaf(("in", n)), 1),): 1.0}, ONE


def kk(x):
    return {(): float(x)}, ONE


# ------------------------------------------------------------------ comparison
def roots(c, p):
    """(common root part, polynomial without it) or None: every term carries the same fractional powers."""
    part = None
    out = {}
    for m, x in p.items():
        r = tuple(t for t in m if c.atoms[t[0]][0] == "P")
        if part is None:
            part = r
        elif part != r:
            return None
        out[tuple(t for t in m if c.atoms[t[0]][0] != "P")] = x
    return part or (), out


def split(c, x):
    n, d = roots(c, x[0]), roots(c, x[1])
    if n is None or d is None:
        return None
    return mmul(n[0], tuple((a, -y) for a, y in d[0])), (n[1], d[1])


def used(c, *ratios):
    out = set()

    def go(x):
        for p in x:
            for m in p:
                for i, _ in m:
                    if i not in out:
                        out.add(i)
                        if c.atoms[i][0] in ("log", "P"):
                            go(c.atoms[i][2])
    for r in ratios:
        go(r)
    return out


def independent(c, ats):
    """The roots are those of pairwise coprime polynomials E**2 - const, so that products of distinct roots are linearly independent."""
    i = c.table.get(("in", E_CM))
    for a in ats:
        if c.atoms[a][0] == "P":
            n, d = c.atoms[a][2]
            deg = {}
            for m, x in n.items():
                deg.setdefault(dict(m).get(i, 0), []).append(m)
            if d != ONE or set(deg) != {0, 2} or deg[2] != [((i, 2),)]:
                return False
    return True


def verdict(c, a, b):
    """True: equal; False: certainly not; None."""
    if c.same(a, b):
        return True
    ua, ub = used(c, a), used(c, b)
    logs = [{i for i in u if c.atoms[i][0] == "log"} for u in (ua, ub)]
    if logs[0] == logs[1] and independent(c, ua | ub) and not c.why - {"a fractional power of a sum", "the logarithm of a sum"}:
        return False
    x, y = split(c, a), split(c, b)
    if x is None or y is None:
        return None
    hidden = c.why - {"a fractional power of a sum"}
    if x[0] == y[0]:
        r = c.same(x[1], y[1])
        return True if r else (None if hidden else False)
    sq = []
    for p, r in (x, y):
        t = c.mul(r, r)
        for i, e in p:
            t = c.mul(t, c.power(c.atoms[i][2], 2 * e))
        sq.append(t)
    if any(c.atoms[i][0] == "P" for t in sq for q in t for m in q for i, _ in m):
        return None
    if c.same(*sq):
        return None  # equal up to a sign that depends on the signs of the roots
    return None if hidden else False


def numeric(c, x, values):
    for n, v in values.items():
        if ("in", n) in c.table:
            x = c.subst(x, ("in", n), kk(v))
    return x


def near(c, a, b, tol):
    """The two agree coefficient by coefficient within `tol` once the named constants have their values."""
    n, m = c.pmul(a[0], b[1]), c.pmul(b[0], a[1])
    if set(n) != set(m):
        return False
    return all(abs(n[q] - m[q]) <= tol * max(abs(n[q]), abs(m[q])) for q in n)


def decide(rep, rule, what, construct, c, want, got, values, msg, where):
    r = verdict(c, want, got)
    if r is True:
        rep.obligation(rule, what)
        return
    if r is None:
        rep.open(rule, what, "the normal forms differ, but may hide an identity")
        return
    # constants that only differ in how they are written down are not a violation
    try:
        a, b = numeric(c, want, values), numeric(c, got, values)
        if verdict(c, a, b) is True or near(c, a, b, 2e-3):
            rep.open(rule, what, "equal only within the precision of the constants")
            return
    except Open:
        rep.open(rule, what, "not decided for the values of the constants")
        return
    try:
        ratio = c.show(c.div(got, want), 200)
    except Open:
        ratio = "?"
    rep.violation(rule, construct, f"{msg}: source / expected = {ratio}", where, f"expected {c.show(want, 3000)}\nsource   {c.show(got, 3000)}")
    return False
