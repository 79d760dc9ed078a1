"""Theory contract: a fixture model with opaque rates, spectra and line energies is put under the base classes and abstractly evaluated; every
public query must come out as the defining combination of the opaque functions, in the annihilation and in the decay class, and the two
generations of limits must reduce to one formula."""
import ast

from .. import interp
from ..calc import Calc, ONE, Open
from ..interp import Budget, Dead, Module
from ..project import Entry, atom, global_hook, make_engine
from ..values import *

RULES = {
    "rates": "the total rate is the sum of the partial rates and a branching fraction is the partial over the total rate",
    "spectra": "each channel contributes its own spectrum with its own branching fraction, and the total is the sum",
    "closed": "a final state with no rate contributes nothing, and a theory without any rate gives zeros",
    "lines": "a line is reported with its own channel's energy and branching fraction",
    "convolved": "the convolved spectrum is made of the total spectrum and the lines of the same messenger",
    "cmb": "both generations of the CMB limit apply the same injection efficiency",
    "flux": "all gamma-ray limits apply the same normalisation of the flux",
    "telescope": "the limit of an existing telescope is the binned limit of the model for its measurement",
}
FIX, TAB = "hazma._sa_theory", "hazma._sa_tables"
TABLES = """
def eff(name, e): return e
def low(name): return 1.0
class Table:
    def __init__(self, name):
        self.name = name
    @property
    def x(self):
        return [low(self.name)]
    def __call__(self, e):
        return eff(self.name, e)
TABLE_g = Table('g')
TABLE_ep = Table('ep')
"""
CH = ["a b", "g g", "e e", "a g", "b e"]
PH_LINES, PO_LINES = ["g g", "a g"], ["e e", "b e"]
PH_SPEC, PO_SPEC = ["a b", "e e", "a g", "g g", "b e"], ["a b", "b e", "e e", "a g", "g g"]


def fixture():
    d = ["import numpy as np", "from hazma.theory import TheoryAnn, TheoryDec",
         "def rate(ch, q): return 1.0", "def spec(m, ch, e, q): return e", "def line(m, ch, q): return 1.0",
         "def resol(e): return e", "def source(e): return e",
         "def smear(e, lo, hi): return 1.0", "def sigma(fs, q): return 1.0", "def tspec(m, e, q): return e"]
    for base, fun, par, arg, lst in (("TheoryAnn", "annihilation_cross_section_funcs", "e_cm", "e_cm", "list_annihilation_final_states"),
                                     ("TheoryDec", "_decay_widths", "", "None", "list_decay_final_states")):
        q = arg
        s = "self, e_cm" if par else "self"
        lam = "lambda e, e_cm" if par else "lambda e"
        d.append(f"class F{base}({base}):")
        d.append("    def __init__(self, mx):\n        self.mx = mx")
        d.append(f"    @staticmethod\n    def {lst}():\n        return {CH!r}")
        if par:
            d.append(f"    def {fun}(self):\n        return {{" + ", ".join(f"{c!r}: (lambda e_cm: rate({c!r}, e_cm))" for c in CH) + "}")
            d.append("    def partial_widths(self):\n        return {'total': 1.0}")
        else:
            d.append(f"    def {fun}(self):\n        return {{" + ", ".join(f"{c!r}: rate({c!r}, None)" for c in CH) + "}")
        d.append("    def _spectrum_funcs(self):\n        return {" + ", ".join(f"{c!r}: ({lam}: spec('photon', {c!r}, e, {q}))" for c in PH_SPEC) + "}")
        d.append("    def _positron_spectrum_funcs(self):\n        return {" + ", ".join(f"{c!r}: ({lam}: spec('positron', {c!r}, e, {q}))" for c in PO_SPEC) + "}")
        d.append(f"    def _gamma_ray_line_energies({s}):\n        return {{" + ", ".join(f"{c!r}: line('photon', {c!r}, {q})" for c in PH_LINES) + "}")
        d.append(f"    def _positron_line_energies({s}):\n        return {{" + ", ".join(f"{c!r}: line('positron', {c!r}, {q})" for c in PO_LINES) + "}")
    # models with opaque totals, for the limits
    for base, par in (("TheoryAnn", ", e_cm"), ("TheoryDec", "")):
        q = "e_cm" if par else "None"
        d.append(f"class L{base}(F{base}):")
        d.append("    def __init__(self, mx, keys):\n        self.mx = mx\n        self.keys = keys")
        d.append(f"    def total_spectrum(self, e_gams{par}):\n        return tspec('photon', e_gams, {q})")
        d.append(f"    def total_positron_spectrum(self, e_ps{par}):\n        return tspec('positron', e_ps, {q})")
        d.append(f"    def gamma_ray_lines(self{par}):\n        return {{k: {{'energy': line('photon', k, {q}), 'bf': line('photon bf', k, {q})}} for k in self.keys}}")
        d.append(f"    def positron_lines(self{par}):\n        return {{k: {{'energy': line('positron', k, {q}), 'bf': line('positron bf', k, {q})}} for k in self.keys}}")
        if par:
            d.append("    def annihilation_cross_sections(self, e_cm):\n        return {'total': sigma('total', e_cm), 'a b': sigma('a b', e_cm)}")
            d.append("    def total_conv_spectrum_fn(self, e_gam_min, e_gam_max, e_cm, energy_res, n_pts=1000):\n        return Spline(e_gam_min, e_gam_max, e_cm, energy_res)")
        else:
            d.append("    def total_conv_spectrum_fn(self, e_gam_min, e_gam_max, energy_res, n_pts=1000):\n        return Spline(e_gam_min, e_gam_max, None, energy_res)")
        d.append("    def binned_limit(self, measurement, n_sigma=2.0, method='1bin'):\n        return taken(measurement, n_sigma, method)")
        d.append(f"class B{base}(L{base}):\n    def binned_limit(self, measurement, n_sigma=2.0, method='1bin'):\n        return {base}.binned_limit(self, measurement, n_sigma, method)")
    d.append("def taken(a, b, c): return 1.0")
    d.append("class Spline:\n    def __init__(self, lo, hi, q, res):\n        self.lo, self.hi, self.q, self.res = lo, hi, q, res\n"
             "    def integral(self, a, b):\n        return smear(self, a, b)\n    def __call__(self, e):\n        return tspec('smeared', e, self.q)\n"
             "    def get_knots(self):\n        return np.geomspace(self.lo, self.hi, 10)")
    d.append("def array1(x):\n    return np.array([x])")
    d.append("def window(k): return 1.0\nclass Integrand:\n    def __init__(self, k):\n        self.k = k\n    def integral(self, a, b):\n        return window(self.k)")
    d.append("def area_(e): return e\ndef background(e): return e")
    d.append("class Area:\n    def __init__(self):\n        self.x = np.array([1.0, 10.0])\n    def __call__(self, e):\n        return area_(e)\narea = Area()")
    d.append("class Background:\n    def __init__(self):\n        self.params = {'amp': 1.0}\n    def dPhi_dEdOmega(self, e):\n        return background(e)\n"
             "    def derivatives(self, e):\n        return {'amp': background(e)}")
    d.append("class Target:\n    def __init__(self, dOmega, vx, J, D):\n        self.dOmega, self.vx, self.J, self.D = dOmega, vx, J, D")
    d.append("class Measurement:\n    def __init__(self, target, res, e_lows, e_highs, fluxes, upper_errors):\n"
             "        self.target, self.energy_res, self.e_lows, self.e_highs = target, res, e_lows, e_highs\n        self.fluxes, self.upper_errors = fluxes, upper_errors\n        self.lower_errors = upper_errors")
    return "\n".join(d)


def engine(repo):
    eng = make_engine(repo)
    src = fixture()
    eng.modules[FIX] = Module(FIX, repo + "/hazma/_sa_theory.py", "hazma/_sa_theory.py", ast.parse(src), src)
    eng.modules[TAB] = Module(TAB, repo + "/hazma/_sa_tables.py", "hazma/_sa_tables.py", ast.parse(TABLES), TABLES)
    eng.open_forms = True
    return eng


def run(rep, repo, tier):
    interp.CLIP[0] = 20000
    for base in ("TheoryAnn", "TheoryDec"):
        theory(rep, repo, base)
    convolution(rep, repo)
    cmb(rep, repo)
    defaults(rep, repo)
    flux(rep, repo)
    relic(rep, repo)
    telescopes(rep, repo)
    rep.assumptions.append("Rates are positive, masses and energies are positive; the model's own rate, spectrum and line functions are opaque.")
    rep.floor("rates", 15)
    rep.floor("spectra", 50)
    rep.floor("closed", 100)
    rep.floor("lines", 16)
    rep.floor("convolved", 20)
    rep.floor("cmb", 10)
    rep.floor("flux", 8)
    rep.floor("telescope", 8)


def guarded(rep, rule, what, fn):
    try:
        fn()
    except Dead:
        if rule in ("rates", "spectra", "lines", "closed"):
            rep.violation(rule, f"{what}: raises", f"{what}: the query always raises for a model that implements the abstract methods", "hazma/theory/__init__.py")
        else:
            rep.open(rule, what, "the call always raises")
    except Budget:
        rep.open(rule, what, "step bound")
    except Open as e:
        rep.open(rule, what, str(e))
    except (RecursionError, AttributeError, KeyError, TypeError, IndexError, OverflowError) as e:
        rep.open(rule, what, f"not analysed: {type(e).__name__}: {e}")


def form(v):
    if not isinstance(v, Num) or v.form is None:
        raise Open("the result is not a number")
    return v.form


def opaque(head, x=None, kind="scalar"):
    f = {("app", (head, 1.0) if x is not None else None, interp.fkt(x)): 1.0} if x is not None else {("in", head): 1.0}
    if x is not None:
        f = {("app", ((("in", head), 1.0),), interp.fkt(x)): 1.0}
    return Num(None, None, f, None, frozenset(), frozenset(), kind=kind)


class Hook:
    """Turns the fixture's opaque functions into uninterpreted symbols. An energy argument is encoded by its normal form."""

    def __init__(self, calc, known=()):
        self.calc, self.known, self.taken, self.other, self.zero = calc, list(known), [], None, ()

    def tag(self, v):
        if v is None or v is NONE:
            return "-"
        if not isinstance(v, Num) or v.form is None:
            return f"?{id(v)}"
        try:
            n = self.calc.norm(v.form)
        except Open:
            return "?" + repr(interp.fkt(v.form))
        for name, k in self.known:
            r = self.calc.equal(k, n)
            if r:
                return name
        return self.calc.show(n, 200)

    def __call__(self, eng, f, args, kw, node, st, ctx):
        if self.other is not None:
            r = self.other(eng, f, args, kw, node, st, ctx)
            if r is not None:
                return r
        if not isinstance(f, Func) or f.module.name not in (FIX, TAB) or f.bound is not None:
            return None
        s = [a.s if isinstance(a, Str) else a for a in args]
        if f.name == "rate":
            if s[0] in self.zero:
                return Num(0.0, D0, {1: 0.0}, None, ALL, frozenset(), kind="scalar")
            return opaque(f"rate[{s[0]}|{self.tag(s[1])}]")
        if f.name == "spec":
            return opaque(f"spec[{s[0]}|{s[1]}|{self.tag(s[3])}]", form(s[2]), kind=s[2].kind)
        if f.name == "tspec":
            return opaque(f"tspec[{s[0]}|{self.tag(s[2])}]", form(s[1]), kind=s[1].kind)
        if f.name == "line":
            return opaque(f"line[{s[0]}|{s[1]}|{self.tag(s[2])}]")
        if f.name == "sigma":
            return opaque(f"sigma[{s[0]}|{self.tag(s[1])}]")
        if f.name == "eff":
            return opaque(f"eff[{s[0]}]", form(s[1]))
        if f.name in ("resol", "source", "area_", "background"):
            return opaque(f.name.rstrip("_"), form(s[0]), kind=s[0].kind)
        if f.name == "low":
            return opaque(f"low[{s[0]}]")
        if f.name == "smear":
            o = eng.get(st, s[0].id).attrs
            return opaque(f"smear[{self.tag(o['lo'])}|{self.tag(o['hi'])}|{self.tag(o['q'])}|{getattr(o['res'], 's', None) or getattr(o['res'], 'name', '?')}|{self.tag(s[1])}|{self.tag(s[2])}]")
        if f.name == "taken":
            self.taken.append(s)
            return opaque("limit")
        return None


def compare(rep, rule, what, construct, c, want, got, msg, where):
    r = c.equal(want, got)
    if r:
        rep.obligation(rule, what)
    elif r is None:
        rep.open(rule, what, "the normal forms differ, but may hide an identity: " + ", ".join(sorted(c.why)))
    elif any("?" in x for x in leaves(c, got) - leaves(c, want)):
        rep.open(rule, what, "an argument of an opaque function is not known")
    else:
        rep.violation(rule, construct, f"{msg}: expected {c.show(want, 200)}, the source gives {c.show(got, 200)}", where,
                      f"expected {c.show(want, 2000)}\nsource   {c.show(got, 2000)}")


def leaves(c, x):
    """The names of the symbols of a normal form."""
    r, seen = set(), set()

    def poly(p):
        for m in p:
            for a, e in m:
                if a not in seen:
                    seen.add(a)
                    A = c.atoms[a]
                    r.update(z for z in _names(A[1]))
                    for y in A[2:]:
                        if isinstance(y, tuple) and len(y) == 2 and all(isinstance(z, dict) for z in y):
                            poly(y[0])
                            poly(y[1])
    poly(x[0])
    poly(x[1])
    return r


def _names(a):
    if isinstance(a, str):
        yield a
    elif isinstance(a, tuple):
        for z in a:
            yield from _names(z)


def table(eng, st, v):
    """Items of a dictionary with known keys."""
    if not isinstance(v, Ref):
        raise Open("the result is not a dictionary")
    h = eng.get(st, v.id)
    if h.kind != "dict":
        raise Open("the result is not a dictionary")
    if h.rest is not None:
        raise Open("the dictionary has unknown keys")
    return dict(h.items)


def start(eng, cls, e_cm, C, keys=None):
    """A new state with an instance of the fixture class."""
    E = Entry(eng, FIX)
    eng.steps = 0
    del eng.events[:]
    H = Hook(C, [("e_cm", C.norm(e_cm.form))] if e_cm is not None else [])
    eng.call_hook = H
    E.st.path += tuple(Lit("pos", form={("in", f"rate[{c}|{'e_cm' if e_cm is not None else '-'}]"): 1.0}) for c in CH)
    args = [atom("mx", D(MeV=1), kind="scalar")]
    if keys is not None:
        args.append(eng.alloc(E.st, HList([Str(k) for k in keys])))
    return E, E.call(E.name(cls), args), H


def theory(rep, repo, base):
    eng = engine(repo)
    ann = base == "TheoryAnn"
    q = atom("e_cm", D(MeV=1), kind="scalar") if ann else None
    qa = [q] if ann else []
    tg = "e_cm" if ann else "-"
    where = f"hazma/theory/__init__.py:{base}"
    rates, bfs = ("annihilation_cross_sections", "annihilation_branching_fractions") if ann else ("decay_widths", "decay_branching_fractions")

    def sym(C, n):
        return C.norm({("in", n): 1.0})

    def total(C):
        return C.norm({("in", f"rate[{c}|{tg}]"): 1.0 for c in CH})

    def keys(rule, what, got, want):
        if set(got) == set(want):
            rep.obligation(rule, f"{what}: the channels")
        else:
            rep.violation(rule, f"{what}: channels", f"{what} reports the channels {sorted(got)}, the model has {sorted(want)}", where)

    def scale(C, ch):
        return C.div(sym(C, f"rate[{ch}|{tg}]"), total(C))

    def rate_rule():
        C = Calc()
        E, o, H = start(eng, f"F{base}", q, C)
        t = table(eng, E.st, E.call(E.attr(o, rates), qa))
        keys("rates", f"{base}.{rates}", t, CH + ["total"])
        for ch in CH + ["total"]:
            if ch in t:
                compare(rep, "rates", f"{base}.{rates}[{ch}]", f"{base}.{rates}[{ch}]", C, total(C) if ch == "total" else sym(C, f"rate[{ch}|{tg}]"), C.norm(form(t[ch])), f"{rates}[{ch!r}]", where)

    def bf_rule():
        C = Calc()
        E, o, H = start(eng, f"F{base}", q, C)
        t = table(eng, E.st, E.call(E.attr(o, bfs), qa))
        keys("rates", f"{base}.{bfs}", t, CH)
        for ch in CH:
            if ch in t:
                compare(rep, "rates", f"{base}.{bfs}[{ch}]", f"{base}.{bfs}[{ch}]", C, scale(C, ch), C.norm(form(t[ch])), f"branching fraction of {ch!r}", where)
    guarded(rep, "rates", f"{base}.{rates}", rate_rule)
    guarded(rep, "rates", f"{base}.{bfs}", bf_rule)

    for m, pre, en in (("photon", "", "e_gams"), ("positron", "positron_", "e_ps")):
        name = pre + "spectra"
        for kind in ("scalar", "array"):
            def arg():
                return atom("e", D(MeV=1), kind=kind)

            def own(C, ch):
                return C.norm({("app", ((("in", f"spec[{m}|{ch}|{tg}]"), 1.0),), interp.fkt({("in", "e"): 1.0})): 1.0})

            def weighted(C, ch):
                return C.mul(scale(C, ch), own(C, ch))

            def sum_(C):
                r = C.norm({})
                for ch in CH:
                    r = C.add(r, weighted(C, ch))
                return r

            def spec_rule():
                C = Calc()
                E, o, H = start(eng, f"F{base}", q, C)
                t = table(eng, E.st, E.call(E.attr(o, name), [arg()] + qa))
                keys("spectra", f"{base}.{name}", t, CH + ["total"])
                for ch in CH + ["total"]:
                    if ch in t:
                        compare(rep, "spectra", f"{base}.{name}[{ch}] [{kind}]", f"{base}.{name}[{ch}]", C, sum_(C) if ch == "total" else weighted(C, ch), C.norm(form(t[ch])), f"{m} spectrum of {ch!r}", where)

            def total_rule():
                C = Calc()
                E, o, H = start(eng, f"F{base}", q, C)
                v = E.call(E.attr(o, f"total_{pre}spectrum"), [arg()] + qa)
                if isinstance(v, Ref) and eng.elements(v, E.st):
                    v = eng.elements(v, E.st)[0][0]
                compare(rep, "spectra", f"{base}.total_{pre}spectrum [{kind}]", f"{base}.total_{pre}spectrum", C, sum_(C), C.norm(form(v)), f"total {m} spectrum", where)

            def funcs_rule():
                C = Calc()
                E, o, H = start(eng, f"F{base}", q, C)
                t = table(eng, E.st, E.call(E.attr(o, f"{pre}spectrum_funcs"), []))
                keys("spectra", f"{base}.{pre}spectrum_funcs", t, CH)
                for ch in CH:
                    if ch in t:
                        v = E.call(t[ch], [arg()] + qa)
                        compare(rep, "spectra", f"{base}.{pre}spectrum_funcs[{ch}] [{kind}]", f"{base}.{pre}spectrum_funcs[{ch}]", C, own(C, ch), C.norm(form(v)), f"{m} spectrum function of {ch!r}", where)
            guarded(rep, "spectra", f"{base}.{name} [{kind}]", spec_rule)
            guarded(rep, "spectra", f"{base}.total_{pre}spectrum [{kind}]", total_rule)
            guarded(rep, "spectra", f"{base}.{pre}spectrum_funcs [{kind}]", funcs_rule)

        for kind in ("scalar", "array"):
            for shut in (["e e"], ["g g", "a b"], CH):
                def closed():
                    what = f"{base}.{name} [{kind}], no rate into {', '.join(shut)}"
                    C = Calc()
                    E, o, H = start(eng, f"F{base}", q, C)
                    H.zero = shut
                    live = [c for c in CH if c not in shut]
                    e = atom("e", D(MeV=1), kind=kind)
                    t = table(eng, E.st, E.call(E.attr(o, bfs), qa))
                    s = table(eng, E.st, E.call(E.attr(o, name), [e] + qa))
                    fn = table(eng, E.st, E.call(E.attr(o, f"{pre}spectrum_funcs"), []))
                    tot = C.norm({("in", f"rate[{c}|{tg}]"): 1.0 for c in live})
                    for tab, lab, all_ in ((t, bfs, False), (s, name, True)):
                        if set(tab) != set(CH) | ({"total"} if all_ else set()):
                            rep.violation("closed", f"{base}.{lab}: channels|{len(shut)}", f"{base}.{lab} reports the channels {sorted(tab)} when there is no rate into {', '.join(shut)}", where)
                    for c in CH:
                        one = C.div(C.norm({("in", f"rate[{c}|{tg}]"): 1.0}), tot) if c in live else C.norm({})
                        own = C.norm({("app", ((("in", f"spec[{m}|{c}|{tg}]"), 1.0),), interp.fkt({("in", "e"): 1.0})): 1.0})
                        if c in t and pre == "":
                            compare(rep, "closed", f"{what}: branching fraction of {c!r}", f"{base}.{bfs}[{c}]", C, one, C.norm(form(t[c])), f"branching fraction of {c!r} with no rate into {shut}", where)
                        if c in s:
                            compare(rep, "closed", f"{what}: {c!r}", f"{base}.{name}[{c}]", C, C.mul(one, own) if c in live else one, C.norm(form(s[c])), f"{m} spectrum of {c!r} with no rate into {shut}", where)
                        if c in fn and c in shut:
                            v = E.call(fn[c], [e] + qa)
                            compare(rep, "closed", f"{what}: function of {c!r}", f"{base}.{pre}spectrum_funcs[{c}]", C, one, C.norm(form(v)), f"{m} spectrum function of {c!r} without a rate", where)
                guarded(rep, "closed", f"{base}.{name} [{kind}] {shut}", closed)

        lname = "gamma_ray_lines" if m == "photon" else "positron_lines"
        chans = PH_LINES if m == "photon" else PO_LINES

        def check_lines(C, E, v, rule, what):
            t = table(eng, E.st, v)
            keys(rule, what, t, chans)
            for ch in chans:
                if ch not in t:
                    continue
                d = table(eng, E.st, t[ch])
                for k, want in (("energy", sym(C, f"line[{m}|{ch}|{tg}]")), ("bf", scale(C, ch))):
                    if k not in d:
                        rep.violation(rule, f"{what}[{ch}][{k}]", f"{what}: the line of {ch!r} has no {k!r}", where)
                    else:
                        compare(rep, rule, f"{what}[{ch}][{k}]", f"{what}[{ch}][{k}]", C, want, C.norm(form(d[k])), f"{k} of the {m} line of {ch!r}", where)

        def line_rule():
            C = Calc()
            E, o, H = start(eng, f"F{base}", q, C)
            check_lines(C, E, E.call(E.attr(o, lname), qa), "lines", f"{base}.{lname}")

        def conv_rule():
            C = Calc()
            E, o, H = start(eng, f"F{base}", q, C)
            fn = f"total_conv_{pre}spectrum_fn"
            seen = []
            pub = eng.resolve_lazy(eng.module_ns(eng.modules["hazma.parameters"], E.st)["convolved_spectrum_fn"], E.st)

            def other(eng_, f, args, kw, node, st, ctx):
                if isinstance(f, Func) and f.node is pub.node:
                    b = dict(zip([a.arg for a in f.node.args.args], args))
                    b.update(kw)
                    seen.append((b, st))
                    return opaque("convolved")
                return None
            H.other = other
            lo, hi, n = (atom(x, D(MeV=1), kind="scalar") for x in ("lo", "hi", "n"))
            E.call(E.attr(o, fn), [lo, hi] + qa + [Str("res")], {"n_pts": n})
            if len(seen) != 1:
                raise Open("the convolution was not called exactly once")
            b, st = seen[0]
            what = f"{base}.{fn}"
            for k, want in (("e_min", lo), ("e_max", hi), ("n_pts", n)):
                if k not in b:
                    rep.violation("convolved", f"{what}.{k}", f"{what} does not hand on {k}", where)
                else:
                    compare(rep, "convolved", f"{what}: {k}", f"{what}.{k}", C, C.norm(want.form), C.norm(form(b[k])), f"{k} handed to the convolution", where)
            if getattr(b.get("energy_res"), "s", None) == "res":
                rep.obligation("convolved", f"{what}: energy resolution")
            else:
                rep.violation("convolved", f"{what}.energy_res", f"{what} does not hand on the energy resolution", where)
            if not isinstance(b.get("lines"), Ref):
                rep.violation("convolved", f"{what}.lines", f"{what} does not hand on the lines", where)
            else:
                check_lines(C, E, b["lines"], "convolved", what)
            if "spec_fn" not in b or b["spec_fn"] is NONE:
                rep.violation("convolved", f"{what}.spec_fn", f"{what} does not hand on the spectrum", where)
                return
            v = E.call(b["spec_fn"], [atom("e", D(MeV=1), kind="array")])

            def own(ch):
                return C.norm({("app", ((("in", f"spec[{m}|{ch}|{tg}]"), 1.0),), interp.fkt({("in", "e"): 1.0})): 1.0})
            want = C.norm({})
            for ch in CH:
                want = C.add(want, C.mul(scale(C, ch), own(ch)))
            compare(rep, "convolved", f"{what}: spectrum", f"{what}.spec_fn", C, want, C.norm(form(v)), f"{m} spectrum handed to the convolution", where)
        guarded(rep, "lines", f"{base}.{lname}", line_rule)
        guarded(rep, "convolved", f"{base}.total_conv_{pre}spectrum_fn", conv_rule)


def ext_name(f):
    return f.name.rsplit(".", 1)[-1] if isinstance(f, Ext) else None


def bind(names, args, kw):
    b = dict(zip(names, args))
    b.update(kw)
    return b


def convolution(rep, repo):
    """The public convolution of a spectrum and lines with the detector response."""
    eng = engine(repo)
    where = "hazma/parameters.py:convolved_spectrum_fn"
    P = "hazma.parameters"

    def setup(C):
        E = Entry(eng, FIX)
        eng.steps = 0
        del eng.events[:]
        H = Hook(C)
        eng.call_hook = H
        ns = eng.module_ns(eng.modules[P], E.st)
        return E, H, lambda n: eng.resolve_lazy(ns[n], E.st)

    def response():
        for kind in ("scalar", "array"):
            C = Calc()
            E, H, fn = setup(C)
            ep, e = atom("ep", D(MeV=1), kind=kind), atom("e", D(MeV=1), kind=kind)
            for x in (ep, e):
                E.st.path += (Lit("pos", form=dict(x.form)),)
            v = E.call(fn("spec_res_fn"), [ep, e, E.name("resol")])
            s = C.mul(C.norm(e.form), C.norm({("app", ((("in", "resol"), 1.0),), interp.fkt(e.form)): 1.0}))
            two = C.norm({1: 2.0})
            d = C.norm({("in", "ep"): 1.0, ("in", "e"): -1.0})
            s2 = C.mul(s, s)
            g = C.exponential(C.div(C.mul(C.norm({1: -1.0}), C.mul(d, d)), C.mul(two, s2)))
            import math
            want = C.div(g, C.power(C.mul(C.norm({1: 2.0 * math.pi}), s2), 0.5))
            compare(rep, "convolved", f"spec_res_fn [{kind}]", "spec_res_fn", C, want, C.norm(form(v)), "detector response", "hazma/parameters.py:spec_res_fn")
    guarded(rep, "convolved", "spec_res_fn", response)

    def run_conv(C, E, H, fn, args, kw):
        ys, tr, gr = [], [], []
        rs = fn("spec_res_fn")

        def other(eng_, f, a, k, node, st, ctx):
            n = ext_name(f)
            if n == "geomspace":
                gr.append(a)
                return atom(f"grid[{H.tag(a[0])}|{H.tag(a[1])}]", D(MeV=1), kind="array")
            if n in ("InterpolatedUnivariateSpline", "interp1d", "UnivariateSpline"):
                ys.append(a)
                return opaque("spline")
            if n == "vectorize":
                return a[0]
            if n in ("trapezoid", "trapz", "simpson"):
                b = bind(["y", "x"], a, k)
                tr.append(b)
                return opaque(f"integral{len(tr)}")
            if isinstance(f, Func) and f.node is rs.node:
                b = bind([x.arg for x in f.node.args.args], a, k)
                r = b["energy_res"]
                return opaque(f"response[{H.tag(b['e'])}|{getattr(r, 'name', '?')}]", form(b["ep"]), kind=b["ep"].kind)
            return None
        H.other = other
        E.call(fn("convolved_spectrum_fn"), args, kw)
        if len(ys) != 1:
            raise Open("the result is not one interpolation")
        b = bind(["x", "y"], ys[0], {})
        return form(b["x"]), form(b["y"]), tr, gr

    for ch, fac in (("g g", 2.0), ("a g", 1.0), ("e e", 1.0)):
        def line():
            C = Calc()
            E, H, fn = setup(C)
            d = eng.alloc(E.st, HDict({"energy": atom("E0", D(MeV=1), kind="scalar"), "bf": atom("bf", D0, kind="scalar")}))
            ls = eng.alloc(E.st, HDict({ch: d}))
            lo, hi = atom("lo", D(MeV=1), kind="scalar"), atom("hi", D(MeV=1), kind="scalar")
            x, y, tr, gr = run_conv(C, E, H, fn, [lo, hi, E.name("resol")], {"lines": ls})
            want = C.mul(C.norm({("in", "bf"): fac}), C.norm({("app", ((("in", "response[E0|resol]"), 1.0),), interp.fkt(x)): 1.0}))
            compare(rep, "convolved", f"line of {ch!r}", f"convolved_spectrum_fn.lines.{ch}", C, want, C.norm(y), f"contribution of a line in {ch!r}", where)
            for k, want_, got in (("lower", lo, gr[0][0]), ("upper", hi, gr[0][1])):
                compare(rep, "convolved", f"line of {ch!r}: {k} end", f"convolved_spectrum_fn.{k}", C, C.norm(want_.form), C.norm(form(got)), f"{k} end of the energies", where)
        guarded(rep, "convolved", f"line of {ch!r}", line)

    def continuum():
        C = Calc()
        E, H, fn = setup(C)
        H.known = []
        lo, hi = atom("lo", D(MeV=1), kind="scalar"), atom("hi", D(MeV=1), kind="scalar")
        x, y, tr, gr = run_conv(C, E, H, fn, [lo, hi, E.name("resol"), E.name("source")], {})
        if len(tr) != 1:
            raise Open("not one integral")
        src = form(tr[0]["x"])
        compare(rep, "convolved", "continuum", "convolved_spectrum_fn.continuum", C, C.norm({("in", "integral1"): 1.0}), C.norm(y), "convolved continuum", where)
        resp = f"response[{C.show(C.norm(src), 200)}|resol]"
        want = C.mul(C.norm({("app", ((("in", "source"), 1.0),), interp.fkt(src)): 1.0}), C.norm({("app", ((("in", resp), 1.0),), interp.fkt(x)): 1.0}))
        compare(rep, "convolved", "continuum integrand", "convolved_spectrum_fn.integrand", C, want, C.norm(form(tr[0]["y"])), "integrand of the convolution", where)
    guarded(rep, "convolved", "continuum", continuum)


def cmb(rep, repo):
    """Injection efficiency and limit of both generations."""
    forms = {}
    for gen in ("theory", "limits"):
        for part, msg, own in (("f_eff_g", "photon", "g g"), ("f_eff_ep", "positron", "e e")):
            for ch in ("a g", "g g", "e e", "b e"):
                def one():
                    eng = engine(repo)
                    tables(eng)
                    C = Calc()
                    vx2 = vx(eng, C, gen, forms)
                    ecm = C.norm({("in", "mx"): 2.0})
                    ecm = C.mul(ecm, C.add(C.norm({1: 1.0}), vx2, 0.5))
                    E, o, H = start(eng, "LTheoryAnn", None, C, [ch])
                    H.known = [("e_cm", ecm)]
                    qs = []

                    def other(eng_, f, a, k, node, st, ctx):
                        if ext_name(f) == "quad":
                            b = bind(["f", "a", "b"], a, k)
                            x = atom("x", D(MeV=1), kind="scalar")
                            fx = E.call(b["f"], [x], {}, st)
                            qs.append((form(fx), form(b["a"]), form(b["b"])))
                            return Tup((opaque(f"integral{len(qs)}"), opaque("error")))
                        return None
                    H.other = other
                    nm = "ep" if part == "f_eff_ep" else "g"
                    ln = f"line[{msg}|{ch}|e_cm]"
                    E.st.path += (Lit("pos", form={("in", ln): 1.0, ("in", f"low[{nm}]"): -1.0}), Lit("pos", form={("in", ln): 1.0}))
                    v = E.call(E.attr(target(E, eng, gen, o), part), args(E, eng, gen, o))
                    what = f"{gen} {part} with a line in {ch!r}"
                    where = "hazma/theory/_theory_cmb.py" if gen == "theory" else "hazma/limits/_cmb.py"
                    line = C.norm({("in", ln): 2.0 if ch == own else 1.0})
                    line = C.mul(C.mul(line, C.norm({("in", f"line[{msg} bf|{ch}|e_cm]"): 1.0})), C.norm({("app", ((("in", f"eff[{nm}]"), 1.0),), interp.fkt({("in", ln): 1.0})): 1.0}))
                    if len(qs) != 1:
                        raise Open("not one integral")
                    want = C.div(C.add(line, C.norm({("in", "integral1"): 1.0})), ecm)
                    compare(rep, "cmb", what, f"{gen}|{part}|{ch}", C, want, C.norm(form(v)), f"injection efficiency ({what})", where)
                    if ch != "a g":
                        return
                    xx = {("in", "x"): 1.0}
                    body = C.mul(C.norm({("in", "x"): 2.0 if nm == "ep" else 1.0}), C.mul(C.norm({("app", ((("in", f"tspec[{msg}|e_cm]"), 1.0),), interp.fkt(xx)): 1.0}), C.norm({("app", ((("in", f"eff[{nm}]"), 1.0),), interp.fkt(xx)): 1.0})))
                    compare(rep, "cmb", f"{gen} {part}: integrand", f"{gen}|{part}|integrand", C, body, C.norm(qs[0][0]), "energy injected by the continuum", where)
                    compare(rep, "cmb", f"{gen} {part}: lower end", f"{gen}|{part}|lower", C, C.norm({("in", f"low[{nm}]"): 1.0}), C.norm(qs[0][1]), "lowest energy", where)
                    compare(rep, "cmb", f"{gen} {part}: upper end", f"{gen}|{part}|upper", C, C.div(ecm, C.norm({1: 2.0})), C.norm(qs[0][2]), "highest energy", where)
                guarded(rep, "cmb", f"{gen} {part} {ch}", one)

        def limit():
            eng = engine(repo)
            tables(eng)
            C = Calc()
            E, o, H = start(eng, "LTheoryAnn", None, C, [])

            def other(eng_, f, a, k, node, st, ctx):
                if isinstance(f, Func) and f.name in ("f_eff_g", "f_eff_ep") and f.bound is not None:
                    b = bind([x.arg for x in f.node.args.args][1:], a, k)
                    x = b.get("x_kd")
                    return opaque(f"total {f.name}[{H.tag(x) if x is not None else ''}]")
                return None
            H.other = other
            xk, pa = atom("x_kd", D0, kind="scalar"), atom("p_ann", None, kind="scalar")
            where = "hazma/theory/_theory_cmb.py" if gen == "theory" else "hazma/limits/_cmb.py"
            if gen == "theory":
                v = E.call(E.attr(o, "cmb_limit"), [], {"x_kd": xk, "p_ann": pa})
                tg = "x_kd"
            else:
                lim = E.call(limit_class(E, eng, "hazma.limits._cmb", "CMBLimit"), [xk, pa])
                v = E.call(E.attr(lim, "_constrain"), [o])
                tg = ""
            want = C.div(C.norm({("mul", ((("in", "p_ann"), 1.0),), ((("in", "mx"), 1.0),)): 1.0}),
                         C.norm({("in", f"total f_eff_g[{tg}]"): 1.0, ("in", f"total f_eff_ep[{tg}]"): 1.0}))
            compare(rep, "cmb", f"{gen}: limit", f"{gen}|limit", C, want, C.norm(form(v)), "limit on the annihilation cross section", where)
        guarded(rep, "cmb", f"{gen} limit", limit)


def defaults(rep, repo):
    """The two generations start from the same numbers."""
    def consts():
        eng = engine(repo)
        E = Entry(eng, FIX)
        old, new = (eng.module_ns(eng.modules[m], E.st) for m in ("hazma.cmb", "hazma.limits._cmb"))
        for n in sorted(old):
            v = eng.resolve_lazy(old[n], E.st)
            if n.startswith("p_ann") and isinstance(v, Num) and v.const is not None and n in new:
                w = eng.resolve_lazy(new[n], E.st)
                if isinstance(w, Num) and w.const == v.const:
                    rep.obligation("cmb", f"constant {n}")
                elif isinstance(w, Num) and w.const is not None:
                    rep.violation("cmb", f"constant|{n}", f"{n} is {v.const} in hazma.cmb and {w.const} in hazma.limits", "hazma/limits/_cmb.py")

    def limit():
        eng = engine(repo)
        tables(eng)
        got = {}
        for gen in ("theory", "limits"):
            C = Calc()
            E, o, H = start(eng, "LTheoryAnn", None, C, [])
            seen = []

            def other(eng_, f, a, k, node, st, ctx):
                if isinstance(f, Func) and f.name in ("vx_cmb",):
                    b = bind([x.arg for x in f.node.args.args], a, k)
                    seen.append(b["x_kd"].const)
                    return atom("vx", D0, kind="scalar")
                if ext_name(f) == "quad":
                    return Tup((opaque("integral"), opaque("error")))
                return None
            H.other = other
            v = E.call(E.attr(o, "cmb_limit"), []) if gen == "theory" else E.call(E.attr(E.call(limit_class(E, eng, "hazma.limits._cmb", "CMBLimit"), []), "_constrain"), [o])
            got[gen] = (C.show(C.norm(form(v)), 10 ** 5), set(seen))
        if got["theory"] == got["limits"]:
            rep.obligation("cmb", "default limit of both generations")
        elif "?" in got["theory"][0] + got["limits"][0] or None in got["theory"][1] | got["limits"][1]:
            rep.open("cmb", "default limit of both generations", "not resolved")
        else:
            rep.violation("cmb", "default limit", f"with default arguments the theory gives {got['theory'][0][:200]} (x_kd {got['theory'][1]}), the limit class {got['limits'][0][:200]} (x_kd {got['limits'][1]})", "hazma/limits/_cmb.py")
    guarded(rep, "cmb", "constants", consts)
    guarded(rep, "cmb", "default limit of both generations", limit)


def relic(rep, repo):
    def one():
        eng = engine(repo)
        C = Calc()
        E, o, H = start(eng, "LTheoryAnn", None, C, [])
        H.known = [("e_cm", e_cm_of(C, "vx"))]
        k = limit_class(E, eng, "hazma.limits._relic_density", "RelicDensityLimit")
        lim = E.call(k, [Str("keys"), atom("lo", D0, kind="scalar"), atom("hi", D0, kind="scalar")], {"vx": atom("vx", D0, kind="scalar")})

        def other(eng_, f, a, k_, node, st, ctx):
            if isinstance(f, Func) and f.name == "relic_density":
                return opaque("omega")
            return None
        H.other = other
        v = E.call(E.attr(lim, "_constrain"), [o])
        cv = limit_class(E, eng, "hazma.parameters", "sv_inv_MeV_to_cm3_per_s")
        want = C.mul(C.mul(C.norm({("in", "sigma[total|e_cm]"): 1.0}), C.norm({("in", "vx"): 1.0})), C.norm(form(cv)))
        compare(rep, "flux", "RelicDensityLimit: cross section", "RelicDensityLimit", C, want, C.norm(form(v)), "cross section at the correct relic density", "hazma/limits/_relic_density.py")
    guarded(rep, "flux", "RelicDensityLimit", one)


def tables(eng):
    """The interpolated efficiency tables become objects with opaque values."""
    E = Entry(eng, TAB)
    base = eng.global_hook

    def gh(module, name, v):
        v = base(module, name, v) if base else v
        if isinstance(v, Num) and module.name in ("hazma.cmb", "hazma.limits._cmb", "hazma.theory._theory_cmb"):
            fs = {d[1].rsplit("/", 1)[-1] for d in v.deps if d[0] == "ordinate"}
            if len(fs) == 1:
                n = "ep" if "_ep" in next(iter(fs)) else "g"
                return E.name(f"TABLE_{n}")
        return v
    eng.global_hook = gh


def vx(eng, C, gen, forms):
    """The square of the velocity at recombination."""
    H = Hook(C)
    eng.call_hook = H
    E = Entry(eng, FIX)
    eng.steps = 0
    a = [atom("mx", D(MeV=1), kind="scalar"), atom("x_kd", D0, kind="scalar")]
    v = E.call(eng.resolve_lazy(eng.module_ns(eng.modules["hazma.cmb"], E.st)["vx_cmb"], E.st), a)
    n = C.norm(form(v))
    return C.mul(n, n)


def limit_class(E, eng, mod, name):
    return eng.resolve_lazy(eng.module_ns(eng.modules[mod], E.st)[name], E.st)


def target(E, eng, gen, o):
    if gen == "theory":
        return o
    return E.call(limit_class(E, eng, "hazma.limits._cmb", "CMBLimit"), [atom("x_kd", D0, kind="scalar")])


def args(E, eng, gen, o):
    return [atom("x_kd", D0, kind="scalar")] if gen == "theory" else [o]


def e_cm_of(C, v):
    r = C.add(C.norm({1: 1.0}), C.mul(C.norm({("in", v): 1.0}), C.norm({("in", v): 1.0})), 0.5)
    return C.mul(C.norm({("in", "mx"): 2.0}), r)


def flux(rep, repo):
    import math
    M = D(MeV=1)

    def prefactor(C, base):
        """Flux per unit of rate and of photons emitted: solid angle, J or D factor and number density."""
        if base == "TheoryAnn":
            return C.div(C.norm({("mul", ((("in", "dOmega"), 1.0),), ((("in", "J"), 1.0),)): 1.0}), C.norm({("pow", ((("in", "mx"), 1.0),), 2): 16.0 * math.pi}))
        return C.div(C.norm({("mul", ((("in", "dOmega"), 1.0),), ((("in", "D"), 1.0),)): 1.0}), C.norm({("in", "mx"): 4.0 * math.pi}))

    for base in ("TheoryAnn", "TheoryDec"):
        ann = base == "TheoryAnn"
        tg = "e_cm" if ann else "-"

        def setup():
            eng = engine(repo)
            C = Calc()
            E, o, H = start(eng, f"B{base}", None, C, [])
            H.known = [("e_cm", e_cm_of(C, "vx"))]
            T = E.call(E.name("Target"), [atom(n, d, kind="scalar") for n, d in (("dOmega", D0), ("vx", D0), ("J", None), ("D", None))])
            ar = E.name("array1")
            ms = E.call(E.name("Measurement"), [T, E.name("resol")] + [E.call(ar, [atom(n, M, kind="scalar")]) for n in ("l0", "h0", "f0", "u0")])
            E.st.path += tuple(Lit("pos", form={("in", n): 1.0}) for n in ("dOmega", "vx", "J", "D", "l0", "h0", "f0", "u0", "mx"))
            return eng, C, E, o, H, T, ms

        def bin0(C):
            sm = C.norm({("in", f"smear[l0|h0|{tg}|resol|l0|h0]"): 1.0})
            return C.mul(prefactor(C, base), sm)

        def width(C):
            r = C.add(C.norm({("in", "f0"): 1.0}), C.norm({("mul", ((("in", "n_sigma"), 1.0),), ((("in", "u0"), 1.0),)): 1.0}))
            return C.mul(C.mul(r, C.norm({("in", "dOmega"): 1.0})), C.norm({("in", "h0"): 1.0, ("in", "l0"): -1.0}))

        def binned():
            eng, C, E, o, H, T, ms = setup()

            def other(eng_, f, a, k, node, st, ctx):
                if ext_name(f) in ("min", "amin", "nanmin") and a and isinstance(a[0], Num) and a[0].form is not None:
                    return a[0].copy(kind="scalar")
                if ext_name(f) == "any":
                    return Num(True)
                return None
            H.other = other
            v = E.call(E.attr(o, "binned_limit"), [ms, atom("n_sigma", D0, kind="scalar"), Str("1bin")])
            compare(rep, "flux", f"{base}.binned_limit", f"{base}.binned_limit", C, C.div(width(C), bin0(C)), C.norm(form(v)), "limit from one bin", "hazma/theory/_theory_gamma_ray_limits.py")
        guarded(rep, "flux", f"{base}.binned_limit", binned)

        def products(C, ys, what, want):
            if len(ys) < len(want):
                raise Open("fewer splines than expected")
            for (x, y), names in zip(ys, want):
                w = C.norm({1: 1.0})
                for n in names:
                    w = C.mul(w, C.norm({("app", ((("in", n), 1.0),), interp.fkt(x)): 1.0}))
                compare(rep, "flux", f"{what}: {' * '.join(names)}", f"{what}|{names[0]}", C, w, C.norm(y), "integrand", "hazma/theory/_theory_gamma_ray_limits.py")

        def unbinned():
            eng, C, E, o, H, T, ms = setup()
            ratios = []
            ys = splines(H, C, E, ratios)
            a = [E.name("area"), E.name("resol"), atom("T_obs", None, kind="scalar"), T, E.call(E.name("Background"), [])]
            v = E.call(E.attr(o, "unbinned_limit"), a, {"n_sigma": atom("n_sigma", D0, kind="scalar")})
            E.st.path += (Lit("pos", form={("in", "T_obs"): 1.0}),)
            w = C.mul(C.norm({("in", "T_obs"): 1.0}), C.norm({("in", "dOmega"): 1.0}))
            ks = [next((k for k, (x, y) in enumerate(ys) if n in str(list(y))), None) for n in ("tspec", "background")]
            best = C.norm({("in", "best"): 1.0})
            if None in ks or ks[0] == ks[1] or len(ratios) != 1:
                rep.open("flux", f"{base}.unbinned_limit: significance of a window", "the significance is not seen")
            else:
                # the largest ratio over the windows is written as the ratio of any one of them
                E.st.path += tuple(Lit("pos", form={("in", f"window{k}"): 1.0}) for k in ks)
                best = C.mul(C.norm({("in", f"window{ks[0]}"): 1.0}), C.power(C.norm({("in", f"window{ks[1]}"): 1.0}), -0.5))
            # significance of a rate r: prefactor * r * T * S / sqrt(dOmega * T * B)
            sig = C.mul(C.mul(prefactor(C, base), best), C.mul(C.norm({("in", "T_obs"): 1.0}), C.power(w, -0.5)))
            compare(rep, "flux", f"{base}.unbinned_limit", f"{base}.unbinned_limit", C, C.div(C.norm({("in", "n_sigma"): 1.0}), sig), C.norm(form(v)), "limit from the energy window", "hazma/theory/_theory_gamma_ray_limits.py")
            products(C, ys, f"{base}.unbinned_limit", [(f"tspec[smeared|{tg}]", "area"), ("background", "area")])
        guarded(rep, "flux", f"{base}.unbinned_limit", unbinned)

        def fisher():
            eng, C, E, o, H, T, ms = setup()
            ys = splines(H, C)
            a = [E.name("area"), E.name("resol"), T, E.call(E.name("Background"), []), atom("T_obs", None, kind="scalar")]
            try:
                E.call(E.attr(o, "fisher_limit"), a, {"vx": atom("vx", D0, kind="scalar")})
            except (Dead, Budget):
                pass
            got = [y for x, y in ys if any("tspec" in str(k) for k in y)]
            if not got:
                raise Open("no flux seen")
            x = next(x for x, y in ys if y is got[0])
            want = C.mul(prefactor(C, base), C.norm({("app", ((("in", f"tspec[smeared|{tg}]"), 1.0),), interp.fkt(x)): 1.0}))
            compare(rep, "flux", f"{base}.fisher_limit: signal", f"{base}.fisher_limit", C, want, C.norm(got[0]), "signal flux", "hazma/theory/_theory_gamma_ray_limits.py")
        guarded(rep, "flux", f"{base}.fisher_limit", fisher)

        if ann:
            def constrain():
                eng, C, E, o, H, T, ms = setup()

                def other(eng_, f, a, k, node, st, ctx):
                    if ext_name(f) == "isnan":
                        return Num(False)
                    if ext_name(f) == "ndenumerate" and isinstance(a[0], Num) and a[0].poly is not None and len(a[0].poly) == 1:
                        return eng_.alloc(st, HList([Tup((Tup((Num(0),)), a[0].poly[0]))]))
                    return None
                H.other = other
                E.st.path += (Lit("pos", form={("in", f"smear[l0|h0|{tg}|resol|l0|h0]"): 1.0}),)
                ar = E.name("array1")
                v = E.call(E.attr(o, "constrain_binned_gamma"), [Str("mx"), E.call(ar, [atom("mx", M, kind="scalar")]), Str("keys"), E.call(ar, [atom("k", D0, kind="scalar")]), ms, atom("n_sigma", D0, kind="scalar")])
                sv = C.mul(C.norm({("in", "sigma[total|e_cm]"): 1.0}), C.norm({("in", "vx"): 1.0}))
                want = C.add(width(C), C.mul(sv, bin0(C)), -1.0)
                compare(rep, "flux", f"{base}.constrain_binned_gamma", f"{base}.constrain_binned_gamma", C, want, C.norm(form(v)), "constraint from one bin", "hazma/theory/_theory_constrain.py")
            guarded(rep, "flux", f"{base}.constrain_binned_gamma", constrain)


def splines(H, C, E=None, sig=None):
    """Record the interpolations made; with `sig`, integrals over them are symbols and the quantity maximised over the windows is recorded there."""
    ys = []

    def seen(eng_, v, st):
        """Form of the last column of a list of rows, or of the entries of a list of numbers."""
        el = eng_.elements(v, st) if not isinstance(v, Num) else None
        if el is None:
            return
        for x in list(el[0]) + ([el[1]] if el[1] is not None else []):
            if not isinstance(x, Num):
                row = eng_.elements(x, st)
                x = row[0][-1] if row is not None and row[0] and row[1] is None else None
            if isinstance(x, Num) and x.form is not None and any("window" in str(k) for k in x.form) and x.form not in sig:
                sig.append(x.form)

    def other(eng_, f, a, k, node, st, ctx):
        n = ext_name(f)
        if n in ("InterpolatedUnivariateSpline", "interp1d", "UnivariateSpline"):
            x, y = a[0], a[1]
            if isinstance(x, Num) and isinstance(y, Num) and x.form is not None and y.form is not None:
                ys.append((x.form, y.form))
                if sig is not None:
                    return E.call(E.name("Integrand"), [Num(const=len(ys) - 1, dim=D0, kind="scalar")], {}, st)
        if sig is not None and isinstance(f, Func) and f.name == "window" and isinstance(a[0], Num) and a[0].const is not None:
            return opaque(f"window{int(a[0].const)}")
        if sig is not None and n in ("stack", "vstack", "array", "asarray", "nanmax", "max", "amax") and a:
            seen(eng_, a[0], st)
        if n == "geomspace":
            return atom(f"grid[{H.tag(a[0])}|{H.tag(a[1])}]", D(MeV=1), kind="array")
        if sig and len(sig) == 1 and n in ("nanmax", "max", "amax") and len(a) == 1:
            return Num(None, None, dict(sig[0]), None, frozenset(), frozenset(), kind="scalar")
        if n == "nanmax":
            return opaque("best")
        return None
    H.other = other
    return ys


def telescopes(rep, repo):
    mod = "hazma.limits._existing_telescope"
    for cls in ("ComptelLimit", "EgretLimit", "FermiLimit", "IntegralLimit"):
        def one():
            eng = engine(repo)
            C = Calc()
            E, o, H = start(eng, "LTheoryAnn", None, C, [])
            k = eng.resolve_lazy(eng.module_ns(eng.modules[mod], E.st)[cls], E.st)
            lim = E.call(k, [atom("sigma", D0, kind="scalar")], {"method": Str("themethod")})
            v = E.call(E.attr(lim, "_constrain"), [o])
            compare(rep, "telescope", f"{cls}: the limit of the model", f"{cls}|limit", C, C.norm({("in", "limit"): 1.0}), C.norm(form(v)), "limit", "hazma/limits/_existing_telescope.py")
            if len(H.taken) != 1:
                raise Open("the model was not asked exactly once")
            m, n, meth = H.taken[0]
            compare(rep, "telescope", f"{cls}: significance", f"{cls}|sigma", C, C.norm({("in", "sigma"): 1.0}), C.norm(form(n)), "significance", "hazma/limits/_existing_telescope.py")
            if meth == "themethod":
                rep.obligation("telescope", f"{cls}: method")
            else:
                rep.violation("telescope", f"{cls}|method", f"{cls} does not use the method it was given", "hazma/limits/_existing_telescope.py")
        guarded(rep, "telescope", cls, one)
