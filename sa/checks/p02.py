"""Channel bookkeeping: the built-in models are constructed abstractly; their lists of final states, rate tables, spectrum tables and lines are
compared entry by entry, with the public rate functions as opaque symbols."""
import ast

from .. import interp
from ..calc import Calc, Open
from ..channels import GEV, LIGHT, PART
from ..interp import Budget, Dead, Module
from ..models import SPECS, Model
from ..project import atom
from ..values import *
from .p20 import _names, compare, form, opaque, table
from .p26 import engine

RULES = {
    "advertised": "the advertised final states are the ones with a rate",
    "own": "a final state's entry in a rate table is that channel's own rate function",
    "total": "the total rate is the sum over the channels and a branching fraction is the channel's share of it",
    "entries": "every final state that yields photons, positrons or neutrinos has a spectrum entry, and no entry is for an unknown final state",
    "lines": "a line is reported for each two-body final state with that particle, at the energy two-body kinematics gives it",
    "sum": "each channel's spectrum enters the total with its own branching fraction",
}
FIX = "hazma._sa_channels"
SRC = """
def spec(m, ch, e, q, flavor): return e
def rate(ch, q): return 1.0
def spectra(m, keys):
    return {k: (lambda e, q=None, flavor=None, k=k, m=m: spec(m, k, e, q, flavor)) for k in keys}
def rates(keys):
    return {k: (lambda q, k=k: rate(k, q)) for k in keys}
"""
PHOTON = {"g", "a", "gamma", "photon"}
NU = {"e": "ve", "mu": "vm", "tau": "vt"}
NO_PHOTON = PHOTON | {"ve", "vm", "vt", "x"}
POS = {"mu", "tau", "pi", "k", "k0", "eta", "etap", "rho", "omega", "phi", "s", "v"}
SINGLE = ["e e", "mu mu", "pi pi", "a a", "pi0 a", "a eta", "e mu", "mu e", "pi pi pi0", "ve ve"]
SIGMA = {
    "s": {"mu mu": ("sigma_xx_to_s_to_ff", "mu"), "e e": ("sigma_xx_to_s_to_ff", "e"), "g g": ("sigma_xx_to_s_to_gg",),
          "pi0 pi0": ("sigma_xx_to_s_to_pi0pi0",), "pi pi": ("sigma_xx_to_s_to_pipi",), "s s": ("sigma_xx_to_ss",)},
    "v": {"mu mu": ("sigma_xx_to_v_to_ff", "mu"), "e e": ("sigma_xx_to_v_to_ff", "e"), "pi pi": ("sigma_xx_to_v_to_pipi",),
          "pi0 g": ("sigma_xx_to_v_to_pi0g",), "pi0 v": ("sigma_xx_to_v_to_pi0v",), "v v": ("sigma_xx_to_vv",)},
}
WIDTH = {
    "s": {"mu mu": ("width_s_to_ff", "mu"), "e e": ("width_s_to_ff", "e"), "g g": ("width_s_to_gg",),
          "pi0 pi0": ("width_s_to_pi0pi0",), "pi pi": ("width_s_to_pipi",), "x x": ("width_s_to_xx",)},
    "v": {"mu mu": ("width_v_to_ff", "mu"), "e e": ("width_v_to_ff", "e"), "pi pi": ("width_v_to_pipi",),
          "pi0 g": ("width_v_to_pi0g",), "x x": ("width_v_to_xx",)},
}


def own(name, q, ch):
    """The public function that gives a channel's rate: (method, argument)."""
    if name in LIGHT:
        return (SIGMA if q == "sigma" else WIDTH)["s" if "ms" in SPECS[name][1] or name in ("HiggsPortal", "HeavyQuark") else "v"].get(ch)
    return (("sigma_xx_to_" if q == "sigma" else "width_v_to_") + ch.replace(" ", "_"),)


def variants():
    for n in LIGHT + GEV:
        yield n, n, {}
    for f in ("e", "mu", "tau"):
        yield f"RHNeutrino({f})", "RHNeutrino", {"flavor": f}
    for fs in SINGLE:
        yield f"SingleChannelAnn({fs})", "SingleChannelAnn", {"fs": fs}
        yield f"SingleChannelDec({fs})", "SingleChannelDec", {"fs": fs}


class Hook:
    def __init__(self, eng, calc, base):
        self.eng, self.calc, self.base = eng, calc, base
        self.rates = self.opaque_rates = False
        self.keys = self.spec = None
        self.taken = 0

    def energy(self, v):
        if v is None or v is NONE:
            return "-"
        if not isinstance(v, Num) or v.form is None:
            return "?"
        f = dict(v.form)
        return next(iter(f))[1] if len(f) == 1 and isinstance(next(iter(f)), tuple) and next(iter(f))[0] == "in" else "?" + repr(interp.fkt(f))[:60]

    def __call__(self, eng, f, args, kw, node, st, ctx):
        r = self.base(eng, f, args, kw, node, st, ctx) if self.base else None
        if r is not None or not isinstance(f, Func):
            return r
        if f.module.name == FIX and f.bound is None:
            s = [a.s if isinstance(a, Str) else a for a in args]
            if f.name == "spec":
                x = s[2]
                fl = "" if s[4] is NONE else "|" + str(s[4])
                return opaque(f"spec[{s[0]}|{s[1]}|{self.energy(s[3])}{fl}]", form(x), kind=x.kind)
            if f.name == "rate":
                return opaque(f"rate[{s[0]}]" if self.energy(s[1]) == "e_cm" else f"?rate at {self.energy(s[1])}")
            return None
        if self.rates and f.module.name.startswith("hazma.") and "mediator" in f.module.name and (f.name.startswith("sigma_x") or f.name.startswith("width_s_to_") or f.name.startswith("width_v_to_")):
            s = next((a.s for a in list(args) + list(kw.values()) if isinstance(a, Str)), None)
            return opaque(f"fn[{f.name}{'|' + s if s else ''}]")
        if self.rates and "rh_neutrino" in f.module.name and f.name.startswith("width_"):
            g = [f"{k}={v.name}" for k, v in sorted(kw.items()) if isinstance(v, EnumVal)] + [v.name for v in args if isinstance(v, EnumVal)]
            return opaque(f"fn[{f.name}|{','.join(g)}]")
        if f.bound is None:
            return None
        if self.opaque_rates and self.keys is not None:
            if f.name == "annihilation_cross_section_funcs":
                self.taken += 1
                return self.build("rates", self.keys, st)
            if f.name == "_decay_widths":
                self.taken += 1
                return eng.alloc(st, HDict({k: opaque(f"rate[{k}]") for k in self.keys}))
        if self.spec is not None and f.name == self.spec[0]:
            return self.build("spectra", self.spec[2], st, self.spec[1])
        return None

    def build(self, fn, keys, st, m=None):
        from ..project import Entry
        e = Entry(self.eng, FIX)
        ks = self.eng.alloc(st, HList([Str(k) for k in keys]))
        return e.call(e.name(fn), ([Str(m)] if m else []) + [ks], {}, st)


def run(rep, repo, tier):
    interp.CLIP[0] = 20000
    seen = []
    for label, name, over in variants():
        if not has(repo, SPECS[name][0]):
            rep.open("advertised", label, "the module is gone")
            continue
        model(rep, repo, label, name, over)
        seen.append(label)
    rep.notes.append("Models: " + ", ".join(seen))
    rep.assumptions.append("Above threshold, with masses, couplings and energies positive; the rate functions and single-channel spectra are opaque.")
    rep.floor("advertised", 30)
    rep.floor("own", 80)
    rep.floor("total", 200)
    rep.floor("entries", 250)
    rep.floor("lines", 60)
    rep.floor("sum", 200)


def has(repo, mod):
    import os
    p = os.path.join(repo, *mod.split("."))
    return os.path.exists(p + ".py") or os.path.exists(os.path.join(p, "__init__.py"))


def build(repo, name, over):
    eng, values = engine(repo)
    eng.modules[FIX] = Module(FIX, repo + "/hazma/_sa_channels.py", "hazma/_sa_channels.py", ast.parse(SRC), SRC)
    C = Calc()
    H = Hook(eng, C, eng.call_hook)
    eng.call_hook = H
    eng.steps = 0
    m = Model(eng, name, over)
    return eng, C, H, m


def guarded(rep, rule, what, fn, where, m):
    """A query on a built-in model that raises on every path is a violation: all names involved are fixed by the model itself."""
    st = m.st
    m.st = m.entry.st = st.fork()
    try:
        return fn()
    except Dead:
        rep.violation(rule, f"{what}: raises", f"{what} raises for every input", where)
    except Budget:
        rep.open(rule, what, "step bound")
    except Open as e:
        rep.open(rule, what, str(e))
    except (RecursionError, AttributeError, KeyError, TypeError, IndexError, OverflowError) as e:
        rep.open(rule, what, f"not analysed: {type(e).__name__}: {e}")
    finally:
        m.st = m.entry.st = st
    return None


def model(rep, repo, label, name, over):
    eng, C, H, m = build(repo, name, over)
    ann = m.cls.lookup("annihilation_cross_section_funcs")[0] is not None
    where = m.cls.module.rel
    q = atom("e_cm", D(MeV=1), kind="scalar")
    qa = [q] if ann else []
    cm = {"in": "e_cm" if ann else "mx"}["in"]
    opened(m, over.get("fs"), ann)

    # --- advertised
    def keys_of(meth):
        v = m.call(meth)
        if not isinstance(v, Ref):
            raise Open("not a dictionary")
        return list(table(eng, m.st, v))
    rates = "annihilation_cross_section_funcs" if ann else "_decay_widths"
    lst = "list_annihilation_final_states" if ann else "list_decay_final_states"
    keys = guarded(rep, "advertised", f"{label}: the table of rates", lambda: keys_of(rates), where, m)
    if keys is None:
        return

    def advertised():
        ref = m.call(lst)
        el = eng.elements(ref, m.st)
        if el is None or el[1] is not None or not all(isinstance(x, Str) for x in el[0]):
            raise Open("the list is not known")
        names = [x.s for x in el[0]]
        for ch in dict.fromkeys(names):
            if ch not in keys:
                rep.violation("advertised", f"{label}: {ch}", f"{label} advertises the final state {ch!r}, for which it has no rate", where)
            elif names.count(ch) > 1:
                rep.violation("advertised", f"{label}: {ch} twice", f"{label} advertises the final state {ch!r} more than once", where)
            else:
                rep.obligation("advertised", f"{label}: {ch}")
        for ch in keys:
            if ch not in names:
                if vanishes(repo, name, over, ch):
                    rep.obligation("advertised", f"{label}: {ch} is not advertised and its rate is zero")
                else:
                    rep.violation("advertised", f"{label}: {ch} missing", f"{label} has a rate for {ch!r}, which it does not advertise", where)
    guarded(rep, "advertised", f"{label}.{lst}", advertised, where, m)

    # --- own
    if name in LIGHT + GEV:
        for quantity, meth, a in (("sigma", "annihilation_cross_sections", [q]), ("width", "partial_widths", [])):
            def owns():
                H.rates = True
                try:
                    t = table(eng, m.st, m.call(meth, *a))
                finally:
                    H.rates = False
                for ch, v in t.items():
                    if ch == "total":
                        continue
                    o = own(name, quantity, ch)
                    if o is None or m.cls.lookup(o[0])[0] is None:
                        rep.open("own", f"{label}.{meth}[{ch}]", "no public function of that name")
                        continue
                    compare(rep, "own", f"{label}.{meth}[{ch}]", f"{label}.{meth}[{ch}]", C, sym(C, "fn[" + "|".join(o) + "]"), soft(C, v), f"{label}: the rate of {ch!r}", where)
            eng.steps = 0
            guarded(rep, "own", f"{label}.{meth}", owns, where, m)
    elif name == "RHNeutrino":
        def owns():
            H.rates = True
            try:
                t = table(eng, m.st, m.call("decay_widths"))
                for ch in keys:
                    eng.steps = 0
                    lone = table(eng, m.st, m.call("decay_width", eng.alloc(m.st, HList([Str(ch)]))))
                    if list(lone) != [ch]:
                        rep.violation("own", f"{label}.decay_width({ch})", f"{label}: the width of {ch!r} alone is reported under {sorted(lone)}", where)
                    elif ch in t:
                        compare(rep, "own", f"{label}.decay_width({ch})", f"{label}.decay_width({ch})", C, C.norm(form(t[ch])), C.norm(form(lone[ch])), f"the width of {ch!r} alone and in the table", where)
            finally:
                H.rates = False
        guarded(rep, "own", f"{label}.decay_width", owns, where, m)

    # --- total, branching fractions
    H.keys, H.opaque_rates = keys, True
    n0 = H.taken
    for ch in keys:
        m.st.path += (Lit("pos", form={("in", f"rate[{ch}]"): 1.0}),)

    def all_(C):
        return C.norm({("in", f"rate[{c}]"): 1.0 for c in keys})
    for meth, frac in ((("annihilation_cross_sections", False), ("annihilation_branching_fractions", True)) if ann else
                       (("decay_widths", False), ("decay_branching_fractions", True))):
        def totals():
            t = table(eng, m.st, m.call(meth, *qa))
            if H.taken == n0:
                raise Open("does not use the table of rates")
            want = set(keys) | (set() if frac else {"total"})
            if set(t) != want:
                rep.violation("total", f"{label}.{meth}: channels", f"{label}.{meth} reports {sorted(set(t) ^ want)} differently from the table of rates", where)
            for ch in t:
                if ch in want:
                    w = all_(C) if ch == "total" else sym(C, f"rate[{ch}]")
                    compare(rep, "total", f"{label}.{meth}[{ch}]", f"{label}.{meth}[{ch}]", C, C.div(w, all_(C)) if frac else w, C.norm(form(t[ch])), f"{meth}[{ch!r}]", where)
        eng.steps = 0
        guarded(rep, "total", f"{label}.{meth}", totals, where, m)

    # --- spectra
    for msg, pre, agg in (("photon", "", "spectra"), ("positron", "positron_", "positron_spectra"), ("neutrino", "neutrino_", "neutrino_spectra")):
        tab = f"_{pre}spectrum_funcs"
        f, c = m.cls.lookup(tab)
        g, d = m.cls.lookup(tab[1:])
        if g is not None and (d.module.name != "hazma.theory") and f is not None and c.module.name == "hazma.theory":
            tab = tab[1:]
        elif f is None and msg == "neutrino":
            continue
        eng.steps = 0
        sk = guarded(rep, "entries", f"{label}.{tab}", lambda: keys_of(tab), where, m)
        if sk is None:
            continue
        for ch in keys:
            if not needs(msg, ch):
                continue
            if ch in sk:
                rep.obligation("entries", f"{label} {msg} {ch}")
            elif vanishes(repo, name, over, ch):
                rep.obligation("entries", f"{label} {msg} {ch}: the rate is zero")
            else:
                rep.violation("entries", f"{label}: {msg} {ch}", f"{label} has no {msg} spectrum for its final state {ch!r}", where)
        for ch in sk:
            if ch not in keys:
                rep.violation("entries", f"{label}: {msg} {ch} unknown", f"{label} has a {msg} spectrum for {ch!r}, which is not one of its final states", where)
        if m.cls.lookup(agg)[0] is None:
            continue
        H.spec = (tab, msg, sk)
        e = atom("e", D(MeV=1), kind="array")
        for fl in ((None,) if msg != "neutrino" else ("e", "mu", "tau")):
            def weighted(C, ch):
                tag = "|e_cm" if ann else "|-"
                s = C.norm({("app", ((("in", f"spec[{msg}|{ch}{tag}{'|' + fl if fl else ''}]"), 1.0),), interp.fkt(e.form)): 1.0})
                return C.mul(C.div(sym(C, f"rate[{ch}]"), all_(C)), s)

            def sums():
                if msg == "neutrino":
                    r = m.call(agg, e, q, flavor=Str(fl)) if ann else m.call(agg, e, flavor=Str(fl))
                else:
                    r = m.call(agg, e, *qa)
                t = table(eng, m.st, r)
                tot = C.norm({})
                for ch in sk:
                    tot = C.add(tot, weighted(C, ch))
                    if ch not in t:
                        rep.violation("sum", f"{label}.{agg}: {ch}", f"{label}.{agg} leaves out {ch!r}", where)
                        continue
                    compare(rep, "sum", f"{label}.{agg}[{ch}]{fl or ''}", f"{label}.{agg}[{ch}]", C, weighted(C, ch), C.norm(form(t[ch])), f"{agg}[{ch!r}]", where)
                if "total" in t:
                    compare(rep, "sum", f"{label}.{agg}[total]{fl or ''}", f"{label}.{agg}[total]", C, tot, C.norm(form(t["total"])), f"{agg}['total']", where)
                else:
                    rep.violation("sum", f"{label}.{agg}: total", f"{label}.{agg} has no total", where)
                tm = {"photon": "total_spectrum", "positron": "total_positron_spectrum", "neutrino": "total_neutrino_spectrum"}[msg]
                if m.cls.lookup(tm)[0] is not None:
                    r = m.call(tm, e, q, flavor=Str(fl)) if fl and ann else m.call(tm, e, *qa)
                    if isinstance(r, Ref) and eng.get(m.st, r.id).kind == "dict":
                        rep.violation("sum", f"{label}.{tm}", f"{label}.{tm} returns a table of channels instead of the total", where)
                    else:
                        compare(rep, "sum", f"{label}.{tm}{fl or ''}", f"{label}.{tm}", C, tot, C.norm(form(r)), tm, where)
            eng.steps = 0
            guarded(rep, "sum", f"{label}.{agg}", sums, where, m)
        H.spec = None

    # --- lines
    for msg, meth, raw in (("photon", "gamma_ray_lines", "_gamma_ray_line_energies"), ("positron", "positron_lines", "_positron_line_energies"),
                           ("neutrino", "neutrino_lines", "_neutrino_line_energies")):
        if m.cls.lookup(meth)[0] is not None:
            use, public = meth, True
        elif m.cls.lookup(raw)[0] is not None:
            use, public = raw, False
        else:
            continue
        fl = ("e", "mu", "tau") if msg == "neutrino" and ann else (None,)
        for f in fl:
            parts = PHOTON if msg == "photon" else {"e"} if msg == "positron" else {NU[f]} if f else {"ve", "vm", "vt"}
            tag = f"{label}.{use}" + (f"({f})" if f else "")

            def lines():
                t = table(eng, m.st, m.call(use, *qa, *([Str(f)] if f else [])))
                for ch in keys:
                    at = [x for x in ch.split() if x in parts]
                    two = len(ch.split()) == 2 and at
                    if not two:
                        continue
                    if ch not in t:
                        if vanishes(repo, name, over, ch):
                            rep.obligation("lines", f"{tag} {ch}: the rate is zero")
                        else:
                            rep.violation("lines", f"{tag}: {ch} missing", f"{label} reports no {msg} line for {ch!r}", where)
                        continue
                    v = t[ch]
                    energy, bf = v, None
                    if public:
                        h = table(eng, m.st, v)
                        energy, bf = h.get("energy"), h.get("bf")
                    if not isinstance(energy, Num):
                        if isinstance(energy, (Ref, Str)) or energy is None or energy is NONE:
                            rep.violation("lines", f"{tag}: {ch} energy", f"{label}: the energy of the {msg} line of {ch!r} is not a number", where)
                        else:
                            rep.open("lines", f"{tag} {ch}", "the energy is not known")
                        continue
                    a, b = ch.split()
                    if a not in parts:
                        a, b = b, a
                    compare(rep, "lines", f"{tag} {ch}", f"{tag}: {ch}", C, two_body(C, cm, a, b), C.norm(form(energy)), f"{label}: energy of the {msg} line of {ch!r}", where)
                    if bf is not None:
                        compare(rep, "lines", f"{tag} {ch} branching", f"{tag}: {ch} branching", C, C.div(sym(C, f"rate[{ch}]"), all_(C)), C.norm(form(bf)), f"{label}: weight of the {msg} line of {ch!r}", where)
                for ch in t:
                    if ch not in keys:
                        rep.violation("lines", f"{tag}: {ch} unknown", f"{label} reports a {msg} line for {ch!r}, which is not one of its final states", where)
                    elif not any(x in parts for x in ch.split()):
                        rep.violation("lines", f"{tag}: {ch} foreign", f"{label} reports a {msg} line for {ch!r}, which contains no such particle", where)
            eng.steps = 0
            guarded(rep, "lines", tag, lines, where, m)


def sym(C, n):
    return C.norm({("in", n): 1.0})


def soft(C, v):
    return C.norm(form(v))


def needs(msg, ch):
    t = ch.split()
    if msg == "photon":
        return any(x not in NO_PHOTON for x in t)
    if msg == "positron":
        return any(x in POS for x in t) or (len(t) > 2 and "e" in t)
    return any(x in POS for x in t) or (len(t) > 2 and any(x in ("ve", "vm", "vt") for x in t))


def mass(C, p):
    n = PART[p][1] if p in PART else None
    return sym(C, n) if n else C.norm({})


def two_body(C, cm, a, b):
    Q = sym(C, cm)
    ma, mb = mass(C, a), mass(C, b)
    n = C.add(C.add(C.mul(Q, Q), C.mul(ma, ma)), C.mul(mb, mb), -1.0)
    return C.div(n, C.mul(C.norm({1: 2.0}), Q))


def opened(m, fs, ann):
    """Pin the energy above the thresholds."""
    q = "e_cm" if ann else "mx"
    if ann:
        m.st.path += (Lit("pos", form={("in", q): 1.0, ("in", "mx"): -2.0}),)
    ms = {PART[p][1] for p in PART if PART[p][1]}
    for a in ms:
        m.st.path += (Lit("pos", form={("in", q): 1.0, ("in", a): -1.0}),)
    if fs:
        f = {("in", q): 1.0}
        for p in fs.split():
            if p in PART and PART[p][1]:
                f[("in", PART[p][1])] = f.get(("in", PART[p][1]), 0.0) - 1.0
        m.st.path += (Lit("pos", form=f),)


_ZERO = {}


def vanishes(repo, name, over, ch):
    """Is the rate of the channel identically zero in this model?"""
    key = (repo, name, tuple(over.items()))
    if key not in _ZERO:
        eng, values = engine(repo)
        try:
            m = Model(eng, name, over)
            meth = "annihilation_cross_sections" if m.cls.lookup("annihilation_cross_section_funcs")[0] is not None else "decay_widths"
            r = m.call(meth, *([atom("e_cm", D(MeV=1), kind="scalar")] if meth[0] == "a" else []))
            _ZERO[key] = table(eng, m.st, r)
        except (Dead, Budget, Open, RecursionError, AttributeError, KeyError, TypeError, IndexError):
            _ZERO[key] = {}
    v = _ZERO[key].get(ch)
    return isinstance(v, Num) and (v.const == 0 and v.const is not None or v.form is not None and not any(v.form.values()))
