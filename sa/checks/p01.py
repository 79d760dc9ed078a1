"""Composition of the model spectra: every channel's photon, positron and neutrino spectrum function of the built-in models is interpreted
with the single-particle decay spectra, the final-state radiation and the form factors' energy distributions as opaque sources; what was
evaluated, how often, at which energy and over which particle's distribution is compared with the particles the channel's name lists."""
import re

from .. import alg, interp
from ..channels import GEV, LIGHT, PART
from ..interp import Budget, Dead, State
from ..kernels import FLAVORS, Kernels
from ..models import Model
from ..project import Entry, atom, make_engine
from ..values import *

RULES = {
    "content": "a channel's spectrum evaluates the decay spectra of exactly its own particles, each as often as it occurs",
    "energy": "in a two-body channel each particle's spectrum is evaluated at the energy two-body kinematics gives it",
    "slots": "in an n-body channel each particle's spectrum is spread over that particle's own energy distribution, taken at the centre-of-mass energy",
    "radiation": "final-state radiation is counted once per charged particle of the pair, with that particle's mass, spin and unit charge",
    "foreign": "the spectrum depends on no mass of a particle that is not in the channel",
    "cascade": "a channel of mediators evaluates their decay products in the mediator's rest frame and boosts with the mediator's energy",
    "branching": "the branching fractions handed to a compiled mediator spectrum stand in the order it reads them, each a partial width over the total",
    "weights": "the spectrum of two mediators sums the mediator's own channels, each (and each photon line) weighted by twice its branching fraction",
    "boost": "the spectrum of two mediators boosts their rest-frame spectra with the velocity of half the centre-of-mass energy",
    "request": "a channel that delegates to the generic spectra asks for its own final state, messenger and energy",
}
CME = ("in", "cme")
SPIN = {"e": "fermion", "mu": "fermion", "pi": "scalar", "k": "scalar"}
MASSNAME = {n: t for t, (_, n) in PART.items() if n}
MASSNAME["long_kaon_mass"] = MASSNAME["short_kaon_mass"] = "k0"
KERNEL = {"k0": ("kl", "ks")}
EXPLICIT = {"pi0 pi0 gamma"}          # one pion and the photon are written out as boosted lines of the intermediate omega
MEDIATORS = {"s", "v"}
TABLES = {"photon": "_spectrum_funcs", "positron": "_positron_spectrum_funcs", "neutrino": "_neutrino_spectrum_funcs"}
LIGHT_TABLES = {"photon": "spectrum_funcs", "positron": "positron_spectrum_funcs"}
# what the compiled mediator decay spectra take at each position of their branching-fraction array
CYTHON = {
    "scalar_mediator_decay_spectrum": ["e e", "mu mu", "pi0 pi0", "pi pi", "g g"],
    "dnde_decay_s": ["e e", "mu mu", "pi pi"],
    "dnde_decay_v": {"photon": ["e e", "mu mu", "pi0 g", "pi pi"], "positron": ["e e", "mu mu", "pi pi"]},
    "dnde_decay_v_pt": {"photon": ["e e", "mu mu", "pi0 g", "pi pi"], "positron": ["e e", "mu mu", "pi pi"]},
}


class Bench:
    def __init__(self, repo, name, over):
        self.eng = make_engine(repo)
        self.m = Model(self.eng, name, over)
        self.K = Kernels(self.eng).install()
        self.inner = self.eng.call_hook
        self.eng.call_hook = self.hook
        self.request = {f.node: m for m, f in self.K.entry.items() if isinstance(f, Func)}
        self.asked, self.dists, self.decays = [], [], []
        self.on, self.widths, self.parts, self.trace, self.traced = False, {}, {}, [], {}
        self.filled = set()

    def hook(self, eng, f, args, kw, node, st, ctx):
        if self.on and isinstance(f, Func) and f.node in self.request:
            names, b = self.K.bindargs(f, args, kw)
            self.asked.append((self.request[f.node], b.get("final_states"), b.get("cme"), b.get(names[0]), b.get("include_fsr"), b.get("flavor")))
            return unknown(deps=eng.deps_many(list(args) + list(kw.values()), st), lin={("request", self.request[f.node]): (1.0, False)})
        if self.on and isinstance(f, Func) and ".vector_mediator." in f.module.name:
            self.trace.append(f.node)
        if self.on and self.parts and isinstance(f, Func):
            if f.node in self.parts:
                return atom("spectrum of " + self.parts[f.node], D(MeV=-1), kind="array").copy(nz=E)
            if f.module.name == "hazma.spectra.boost" and f.name in ("dnde_boost_array", "boost_delta_function", "dnde_boost"):
                b = bound(f, args, kw)
                self.betas.append(b.get("beta"))
                if f.name != "boost_delta_function":
                    return b.get("dnde", b.get("spectrum_rf"))
                self.lines.append(b.get("e0"))
                return atom(f"line {len(self.lines) - 1}", D(MeV=-1), kind="array")
        if self.on and self.widths and isinstance(f, Func) and isinstance(f.bound, Ref) and f.name == "partial_widths":
            r = B_widths(self, f, st)
            if r is not None:
                return r
        if self.on and isinstance(f, Func) and isinstance(f.bound, Ref) and f.name in ("energy_distributions", "invariant_mass_distributions") and ".form_factors." in f.module.name:
            e = Entry(eng, f.module.name)
            e.st, e.ctx = st, ctx
            ms = e.attr(f.bound, "fsp_masses")
            el = eng.elements(ms, st)
            names, b = self.K.bindargs(f, [f.bound] + list(args), kw)
            vals = [x.const if isinstance(x, Num) else None for x in el[0]] if el and el[1] is None else None
            q = b.get("q")
            if vals is None:
                return None
            self.dists.append((f.name, vals, q, f.bound))
            D1 = Entry(eng, "hazma.phase_space").name("PhaseSpaceDistribution1D")
            t = len(self.dists)

            def mk(tag):
                x, y = atom(f"bins{t}_{tag}", kind="array"), atom(f"prob{t}_{tag}", kind="array")
                return eng.call(D1, [x, y], {}, st, ctx, node)
            if f.name == "energy_distributions":
                return eng.alloc(st, HList([mk(i) for i in range(len(vals))]))
            return eng.alloc(st, HDict({(i, j): mk(f"{i}_{j}") for i in range(len(vals)) for j in range(i + 1, len(vals))}))
        if self.on and isinstance(f, (Ext, Func)):
            n = (f.name or "").split(".")[-1]
            mod = f.name if isinstance(f, Ext) else f.module.name + "." + f.name
            if n in CYTHON and "mediator." in mod:
                self.decays.append((n, mod, list(args), dict(kw), st))
                return unknown(deps=eng.deps_many(list(args) + list(kw.values()), st), lin={("decay", n): (1.0, False)})
        return self.inner(eng, f, args, kw, node, st, ctx) if self.inner else None

    def ask(self, fn, *args, **kw):
        m = self.m
        base = m.st
        st = base.fork()
        self.eng.steps = 0
        self.K.take()
        self.asked, self.dists, self.decays = [], [], []
        self.on = True
        try:
            r = self.eng.call(fn, list(args), dict(kw), st, m.entry.ctx, m.entry.module.tree)
        except Dead:
            r = None
        finally:
            self.on = False
        return r, st, self.K.take()


def bound(f, args, kw):
    a = f.node.args
    b = dict(zip([x.arg for x in a.posonlyargs + a.args], args))
    b.update(kw)
    return b


def weights(rep, B, what, key, name, messenger, ch, fn, args, kw, table, where):
    """Two mediators: the sum over the mediator's own channels, each weighted by twice its branching fraction."""
    h, rest = B.m.items(B.m.call("partial_widths"))
    if h is None or rest is not None:
        rep.open("weights", what, "partial widths not determined")
        return
    B.widths = {k: 1 for k in h if isinstance(k, str)}
    B.parts, B.lines, B.betas = {}, [], []
    own = {}
    for c, nodes in B.traced.get((messenger, str(kw.get("flavor"))), {}).items():
        for n in dict.fromkeys(nodes):
            if c != ch:
                own.setdefault(n, set()).add(c)
    for c, nodes in B.traced.get((messenger, str(kw.get("flavor"))), {}).items():
        n = next((n for n in nodes if own.get(n) == {c}), None)
        if c != ch and n is not None and c in B.widths:
            B.parts[n] = c
    clip, interp.CLIP[0], B.eng.open_forms = interp.CLIP[0], 4000, True
    try:
        r, st, _ = B.ask(fn, *args, **kw)
        lines = B.lines
    finally:
        interp.CLIP[0], B.eng.open_forms = clip, False
        widths, parts, B.widths, B.parts = B.widths, B.parts, {}, {}
    # (1 - 4 mv^2 / cme^2): the squared velocity of either mediator
    v2 = {1: 1.0, ("div", ((("pow", ((("in", "mv"), 1.0),), 2), -4.0),), ((("pow", ((CME, 1.0),), 2), 1.0),)): 1.0}
    for x in B.betas:
        e = alg.equal(alg.square(x.form), v2) if isinstance(x, Num) and x.form else None
        if e is False and alg.symbols(x.form) <= {"cme", "mv"}:
            rep.violation("boost", key, f"{what} boosts with the velocity {shown(x)}, not that of a mediator of half the centre-of-mass energy", where)
        elif e:
            rep.obligation("boost", what)
        else:
            rep.open("boost", what, "velocity not traced")
    if not isinstance(r, Num) or r.form is None:
        rep.open("weights", what, "no closed form")
        return
    syms = alg.symbols(r.form)
    tot = tuple(sorted(((("in", "width of " + k), 1.0) for k in widths), key=repr))
    seen, bad = 0, []
    names = {}
    for c in parts.values():
        names.setdefault("spectrum of " + c, c)
    for i, e0 in enumerate(lines):
        for c in ("pi0 gamma", "eta gamma"):
            if isinstance(e0, Num) and any(alg.equal(e0.form, two_body(0.0, m, ("in", "mv"))) for m in values_of(B, c.split()[0])):
                names[f"line {i}"] = c
    if any(s not in names and not (isinstance(s, str) and s.startswith("width of ")) for s in syms):
        odd = [i for i in range(len(lines)) if f"line {i}" in syms and f"line {i}" not in names]
        for i in odd:
            if isinstance(lines[i], Num) and lines[i].form and alg.symbols(lines[i].form) <= {"mv"}:
                bad.append(f"has a line at {shown(lines[i])}, which is the energy of no photon of the mediator's two-body decays")
        if not bad:
            rep.open("weights", what, "not a closed sum over the mediator's channels")
            return
    for s, c in sorted(names.items(), key=repr):
        if s not in syms:
            continue
        one = alg.at(r.form, {x: (1.0 if x == s else 0.0) for x in names})
        want = {("div", ((("in", "width of " + c), 2.0),), tot): 1.0}
        x = alg.equal(one, want)
        if x is False:
            bad.append(f"weights {'the line of ' if s.startswith('line') else ''}'{c}' by something else than twice its branching fraction")
        elif x:
            seen += 1
    for c in parts.values():
        if "spectrum of " + c not in syms and (messenger, str(kw.get("flavor")), c) in B.filled:
            bad.append(f"leaves out the mediator's decays into '{c}'")
    if bad:
        rep.violation("weights", key, f"{what} " + "; ".join(bad[:4]), where)
    elif seen >= 12:
        rep.obligation("weights", what + f" ({seen} terms)")
    else:
        rep.open("weights", what, f"only {seen} terms recognised")


def B_widths(B, f, st):
    """The dictionary of partial widths of the mediator, each an opaque positive number of its own."""
    a = {ch: atom("width of " + ch, D(MeV=1), kind="scalar") for ch in B.widths}
    return B.eng.alloc(st, HDict(a))


def order_of(arr, order):
    """Positions of a branching-fraction array that hold something other than the channel the compiled spectrum expects there."""
    if not isinstance(arr, Num) or arr.poly is None:
        return None
    bad, seen = [], 0
    for i, ch in enumerate(order):
        if i >= len(arr.poly):
            bad.append(f"has no branching fraction of {ch}")
            continue
        y = arr.poly[i]
        d = {x[1] for x in y.deps if x[0] == "in" and isinstance(x[1], str) and x[1].startswith("width of ")} if isinstance(y, Num) else set()
        got = {x[len("width of "):] for x in d} - {"total"}
        if isinstance(y, Num) and y.const is not None and not d:
            bad.append(f"leaves out the branching fraction of {ch}")
        elif len(got) == 1 and got != {ch}:
            bad.append(f"gives the branching fraction of {next(iter(got))} in the place of {ch}")
        elif got == {ch}:
            seen += 1
            e = alg.equal(y.form, {("div", ((("in", "width of " + ch), 1.0),), ((("in", "width of total"), 1.0),)): 1.0})
            if e is False:
                bad.append(f"weights {ch} by {shown(y)}")
    return bad or (None if seen < len(order) else [])


def particles(ch, name):
    return ["gamma" if t in ("a", "g") else t for t in ch.split()]


def wanted(messenger, flavor, ps, B, charged_once):
    """source -> count"""
    key = messenger if messenger != "neutrino" else ("neutrino" if flavor is None else "nu_" + flavor)
    out = {}
    k0 = ps.count("k0")
    for p in ps:
        if p == "k0":
            for q in KERNEL["k0"]:
                if (messenger, q) in B.K.named:
                    out[(key, q)] = 0.5 * k0
            continue
        if (messenger, p) in B.K.named:
            out[(key, p)] = out.get((key, p), 0) + (0.5 if charged_once and p in ("mu", "pi", "k") else 1)
    return out


def mval(p):
    return PART[p][0] if p in PART else None


def near(a, b, rel=2e-4):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-3)


def two_body(m1, m2, cme=CME):
    """(s + m1^2 - m2^2) / (2 sqrt(s)); a mass is a number or a form."""
    num = {("pow", tuple({cme: 1.0}.items()), 2): 1.0}
    c = 0.0
    for m, s in ((m1, 1.0), (m2, -1.0)):
        if isinstance(m, (int, float)):
            c += s * m * m
        else:
            num[("pow", tuple(m.items()), 2)] = num.get(("pow", tuple(m.items()), 2), 0) + s
    if c:
        num[1] = c
    num = {k: v for k, v in num.items() if v}
    return {("div", tuple(num.items()), tuple({cme: 2.0}.items())): 1.0}


def shown(v):
    return formstr(v.form)[:80] if isinstance(v, Num) and v.form else "another energy"


def run(rep, repo, tier):
    todo = [(n, n, {}) for n in LIGHT + GEV] + [(f"RHNeutrino({f})", "RHNeutrino", {"flavor": f}) for f in ("e", "mu", "tau")]
    from ..drive import parallel
    from ..report import Report
    out = parallel(todo, lambda t: one(repo, *t), 8)
    for t, ev in zip(todo, out):
        if isinstance(ev, Exception) or ev is None:
            rep.open("content", t[0], f"not analysed: {ev}")
            continue
        for e in ev:
            getattr(rep, e[0])(*e[1:])
    rep.assumptions.append("The generic spectra and single-particle spectra themselves are decided by P18; phase-space distributions are in the order of the form factor's fsp_masses.")
    rep.floor("content", 200)
    rep.floor("energy", 80)
    rep.floor("slots", 90)
    rep.floor("radiation", 40)
    rep.floor("foreign", 200)
    rep.floor("cascade", 12)
    rep.floor("branching", 8)
    rep.floor("weights", 10)
    rep.floor("boost", 10)
    rep.floor("request", 90)


class Rec:
    """Records what a worker process reports, to be replayed in the parent."""

    def __init__(self):
        self.ev = []

    def __getattr__(self, n):
        def add(*a):
            self.ev.append((n,) + a)
        return add


def one(repo, label, name, over):
    rep = Rec()
    B = Bench(repo, name, over)
    where = B.m.cls.module.rel
    light = name in LIGHT
    if light:
        h, rest = B.m.items(B.m.call("partial_widths"))
        B.widths = {k: 1 for k in h or () if isinstance(k, str)} if rest is None else {}
    for messenger, meth in (LIGHT_TABLES if light else TABLES).items():
        if B.m.cls.lookup(meth)[0] is None:
            rep.violation("content", f"{label}: {messenger}", f"{label} has no table of {messenger} spectra", where)
            continue
        try:
            t = B.m.call(meth)
        except Dead:
            rep.violation("content", f"{label}: {messenger}", f"{label}'s table of {messenger} spectra cannot be built", where)
            continue
        h, rest = B.m.items(t)
        if h is None or rest is not None:
            rep.open("content", f"{label}: {messenger}", "table not determined")
            continue
        for ch in sorted(k for k in h if isinstance(k, str)):
            for flavor in ((None,) if messenger != "neutrino" or name == "RHNeutrino" else FLAVORS):
                what = f"{label}: {messenger}" + (f"[{flavor}]" if flavor else "") + f" spectrum of '{ch}'"
                key = f"{name if name != 'RHNeutrino' else label}: {messenger}" + (f"[{flavor}]" if flavor else "") + f": {ch}"
                try:
                    channel(rep, B, what, key, name, messenger, flavor, ch, h[ch], light, h)
                except Budget:
                    rep.open("content", what, "step bound")
                except (RecursionError, AttributeError, KeyError, TypeError, IndexError, OverflowError) as e:
                    rep.open("content", what, f"not analysed: {type(e).__name__}: {e}")
    return rep.ev


def fnwhere(B, fn):
    f = fn
    while isinstance(f, Partial):
        f = f.func if hasattr(f, "func") else f.f
    return f"{f.module.rel}:{f.node.lineno}" if isinstance(f, Func) else B.m.cls.module.rel


def channel(rep, B, what, key, name, messenger, flavor, ch, fn, light, table):
    E = atom("E", D(MeV=1), kind="array")
    q = atom("cme", D(MeV=1), kind="scalar")
    where = fnwhere(B, fn)
    ps = particles(ch, name)
    if name == "RHNeutrino":
        r, st, calls = B.ask(fn, E)
        return rhn(rep, B, what, key, messenger, ch, r, st, where)
    kw = {"flavor": Str(flavor)} if flavor else {}
    B.trace = []
    r, st, calls = B.ask(fn, E, q, **kw)
    B.traced.setdefault((messenger, str(kw.get("flavor"))), {})[ch] = B.trace
    if calls:
        B.filled.add((messenger, str(kw.get("flavor")), ch))
    if r is None:
        rep.violation("content", key, f"{what} raises for every input", where)
        return
    if any(t in MEDIATORS for t in ps):
        if not light and ps == ["v", "v"]:
            weights(rep, B, what, key, name, messenger, ch, fn, (E, q), kw, table, where)
        return cascade(rep, B, what, key, name, messenger, ch, ps, r, st, calls, where, light)
    if any(p not in PART for p in ps):
        rep.open("content", what, "unknown particle in the name")
        return
    content(rep, B, what, key, messenger, flavor, ps, ch, r, st, where, light)
    energies(rep, B, what, key, ps, ch, calls, where)
    if messenger == "photon" and not light:
        radiation(rep, B, what, key, ps, ch, r, st, calls, where)
    elif any(c.kind == "fsr" for c in calls):
        rep.violation("radiation", key, f"{what} includes photon radiation", where)
    foreign(rep, B, what, key, ps, r, st, where)


def content(rep, B, what, key, messenger, flavor, ps, ch, r, st, where, light):
    want = wanted(messenger, flavor, ps, B, light and messenger == "positron")
    lin = {k: v for k, v in (r.lin if isinstance(r, Num) else B.eng.lin_deep(r, st)).items() if k[0] != "fsr"}
    deps = B.eng.deps_of(r, st)
    bad, undecided = [], None
    kaons = {k: v for k, v in want.items() if k[1] in ("kl", "ks")}
    for k in sorted(set(lin) | set(want)):
        n = lin.get(k, (0.0, False))[0]
        w = want.get(k, 0)
        if k not in lin and w and ("kernel", k[0], k[1]) in deps:
            n = None
        if n is None:
            if w:
                undecided = k
            else:
                bad.append(f"evaluates the {k[0]} spectrum of {k[1]}")
        elif ch in EXPLICIT and w and 0 < n <= w:
            continue
        elif k in kaons and len(ps) - ps.count("k0") > 0 and ps.count("k0") == 1:
            # one neutral kaon: any mixture of the two that adds up to one
            t = sum((lin.get(x, (0.0, False))[0] or 0) for x in kaons)
            if abs(t - 1) > 1e-9:
                bad.append(f"counts the neutral kaon {t:g} times")
        elif abs(n - w) > 1e-9:
            bad.append(f"weights the {k[0]} spectrum of {k[1]} {n:g} times instead of {w:g}" if k in lin else f"lacks the {k[0]} spectrum of {k[1]}")
    if bad:
        rep.violation("content", key, f"{what} " + "; ".join(sorted(set(bad))), where)
    elif undecided:
        rep.open("content", what, f"number of times {undecided[1]}'s spectrum enters not determined")
    else:
        rep.obligation("content", what)


def energies(rep, B, what, key, ps, ch, calls, where):
    dec = [c for c in calls if c.kind == "decay"]
    if len(ps) == 2:
        ok, n = True, 0
        for c in dec:
            own = [i for i, p in enumerate(ps) if p == c.particle or c.particle in KERNEL.get(p, ())]
            if not own:
                continue
            i = own[0]
            form = c.energy.form if isinstance(c.energy, Num) else None
            res = None
            for m1, m2 in mass_variants(B, ps[i], ps[1 - i]):
                e = alg.equal(form, two_body(m1, m2))
                res = e if e else (res if res is False else e)
                if e:
                    break
            if res is False:
                ok = False
                rep.violation("energy", key, f"{what} evaluates {c.particle}'s spectrum at {shown(c.energy)}", c.where)
            elif res is None:
                ok = None
            n += 1
        if ok and n:
            rep.obligation("energy", what)
        elif ok is None:
            rep.open("energy", what, "energy not in closed form")
        return
    if ch in EXPLICIT or not dec:
        return
    slots(rep, B, what, key, ps, dec, where)


_MASS = {}


def mass_variants(B, p, q):
    """The values the repository gives the two masses."""
    return [(a, b) for a in values_of(B, p) for b in values_of(B, q)]


def values_of(B, p):
    if p not in _MASS:
        out = []
        n = PART[p][1]
        if n is None:
            out = [0.0]
        else:
            e = Entry(B.eng, "hazma.parameters")
            for x in [n] + (["long_kaon_mass", "short_kaon_mass"] if p == "k0" else []):
                try:
                    v = e.name(x).const
                    if v not in out:
                        out.append(v)
                except KeyError:
                    pass
        _MASS[p] = out
    return _MASS[p]


def slots(rep, B, what, key, ps, dec, where):
    ed = [(i + 1, d) for i, d in enumerate(B.dists) if d[0] == "energy_distributions"]
    bad = []
    if not ed:
        rep.open("slots", what, "no energy distribution was taken")
        return
    used = {}
    open_ = None
    for _, (_, ms, q, _) in ed:
        e = alg.equal(q.form if isinstance(q, Num) else None, {CME: 1.0})
        if e is False:
            bad.append(f"takes the distributions at {shown(q)}")
        want = sorted(mval(p) for p in ps)
        if len(ms) != len(ps) or None in ms:
            open_ = "masses of the form factor not determined"
        elif not all(near(a, b, 2e-3) for a, b in zip(sorted(ms), want)):
            bad.append(f"uses the form factor of particles of masses {[round(x, 1) for x in ms]}")
    for c in dec:
        b = {x[1][4:] for x in (c.energy.deps if isinstance(c.energy, Num) else ()) if x[0] == "in" and x[1].startswith("bins")}
        if len(b) != 1:
            open_ = f"the energies of {c.particle} are not one distribution"
            continue
        t, i = sorted(b)[0].split("_", 1)
        if "_" in i:
            bad.append(f"spreads {c.particle}'s spectrum over an invariant mass")
            continue
        ms = B.dists[int(t) - 1][1]
        p = "k0" if c.particle in ("kl", "ks") else c.particle
        if p not in ps:
            continue
        if not near(ms[int(i)], mval(p), 2e-3):
            other = next((x for x in ps if near(ms[int(i)], mval(x), 2e-3)), None)
            bad.append(f"spreads {c.particle}'s spectrum over the energies of {other or 'a particle of mass %g' % ms[int(i)]}")
        used.setdefault(p, set()).add(int(i))
    if not bad and open_ is None:
        for p in set(ps):
            if p in used and len(used[p]) != ps.count(p):
                bad.append(f"takes {p}'s energies from {len(used[p])} of its {ps.count(p)} distributions")
    if bad:
        rep.violation("slots", key, f"{what} " + "; ".join(sorted(set(bad))), where)
    elif open_:
        rep.open("slots", what, open_)
    else:
        rep.obligation("slots", what)


def radiation(rep, B, what, key, ps, ch, r, st, calls, where):
    lin = r.lin if isinstance(r, Num) else B.eng.lin_deep(r, st)
    fsr = [c for c in calls if c.kind == "fsr"]
    bad = []
    charged = [p for p in ps if p in SPIN]
    for c in fsr:
        m = c.mass.const if isinstance(c.mass, Num) else None
        ch_ = c.charge.const if isinstance(c.charge, Num) else None
        if ch_ is not None and abs(abs(ch_) - 1) > 1e-9:
            bad.append(f"radiates with charge {ch_:g}")
        if m is None:
            continue
        own = [p for p in charged if near(m, mval(p))]
        if not own:
            bad.append(f"adds the radiation of a {c.particle} of mass {m:g}")
            continue
        if SPIN[own[0]] != c.particle:
            bad.append(f"radiates {own[0]} as a {c.particle}")
        if len(ps) == 2:
            e = alg.equal(c.energy.form if isinstance(c.energy, Num) else None, {("pow", tuple({CME: 1.0}.items()), 2): 1.0})
            if e is False:
                bad.append(f"radiates at squared energy {shown(c.energy)}")
        else:
            pair = {x[1][4:] for x in (c.energy.deps if isinstance(c.energy, Num) else ()) if x[0] == "in" and x[1].startswith("bins")}
            for b in sorted(pair):
                t, *idx = b.split("_")
                ms = B.dists[int(t) - 1][1]
                if len(idx) != 2:
                    bad.append(f"takes the radiation of {own[0]} over a single energy distribution")
                elif not all(near(ms[int(i)], m, 2e-3) for i in idx):
                    bad.append(f"takes the radiation of {own[0]} over the invariant mass of particles of masses {[round(ms[int(i)], 1) for i in idx]}")
            for _, ms, q, _ in B.dists:
                if alg.equal(q.form if isinstance(q, Num) else None, {CME: 1.0}) is False:
                    bad.append(f"takes the distributions at {shown(q)}")
    if len(ps) == 2:
        for s in ("fermion", "scalar"):
            w = sum(1 for p in charged if SPIN[p] == s)
            g = lin.get(("fsr", s), (0.0, False))[0]
            if g is not None and abs(g - w) > 1e-9:
                bad.append(f"counts the radiation of charged {s}s {g:g} times instead of {w}")
    if bad:
        rep.violation("radiation", key, f"{what} " + "; ".join(sorted(set(bad))), where)
    elif fsr or len(ps) == 2:
        rep.obligation("radiation", what)


def foreign(rep, B, what, key, ps, r, st, where):
    deps = B.eng.deps_of(r, st)
    bad = []
    for d in sorted(x for x in deps if x[0] == "const" and isinstance(x[1], str)):
        t = MASSNAME.get(d[1])
        if t is not None and t not in ps and not (key.endswith("pi0 pi0 gamma") and t == "omega"):
            bad.append(d[1])
    if bad:
        rep.violation("foreign", key, f"{what} depends on {', '.join(bad)}", where)
    else:
        rep.obligation("foreign", what)


def cascade(rep, B, what, key, name, messenger, ch, ps, r, st, calls, where, light):
    bad, ok = [], False
    med = "ms" if "s" in ps else "mv"
    others = [p for p in ps if p not in MEDIATORS]
    for c in calls:
        d = {x[1] for x in (c.energy.deps if isinstance(c.energy, Num) else ()) if x[0] == "in"}
        if not isinstance(c.energy, Num):
            continue
        if c.kind == "decay" and c.messenger != messenger:
            bad.append(f"evaluates the {c.messenger} spectrum of {c.particle}")
        if light and len(ps) == 2 and c.kind == "decay" and others == [c.particle]:
            e = None
            for m1 in values_of(B, c.particle):
                x = alg.equal(c.energy.form, two_body(m1, {("in", med): 1.0}))
                e = x if e is None or x else e
            if e is False:
                bad.append(f"evaluates {c.particle}'s spectrum at {shown(c.energy)}")
            elif e:
                ok = True
        elif not light:
            if "cme" in d:
                bad.append(f"evaluates {c.particle}'s spectrum at {shown(c.energy)}, not in the rest frame of the mediator")
            elif med in d or any(x.startswith("bins") for x in d):
                ok = True
    for n, ms, q, _ in B.dists:
        e = alg.equal(q.form if isinstance(q, Num) else None, {("in", med): 1.0})
        if e is False:
            bad.append(f"takes the distributions of the decay products at {shown(q)}")
    for n, mod, args, kw, s in B.decays:
        a = [x for x in args]
        names = ("E", "energy", "mass", "pws")
        if len(a) < 4:
            continue
        other = others[0] if others else None
        form = a[1].form if isinstance(a[1], Num) else None
        e = None
        for mo in (values_of(B, other) if other else [{("in", med): 1.0}]):
            x = alg.equal(form, two_body({("in", med): 1.0}, mo))
            e = x if e is None or x else e
        if e is False:
            bad.append(f"gives the mediator the energy {shown(a[1])}")
        elif e:
            ok = True
        x = alg.equal(a[2].form if isinstance(a[2], Num) else None, {("in", med): 1.0})
        if x is False:
            bad.append(f"gives the mediator the mass {shown(a[2])}")
        order = CYTHON[n]
        order = order.get(messenger) if isinstance(order, dict) else order
        o = order_of(a[3], order) if order else None
        if o is None:
            rep.open("branching", what, "branching fractions not traced")
        elif o:
            rep.violation("branching", key, f"{what} " + "; ".join(o), where)
        else:
            rep.obligation("branching", what)
        if "positron" in mod and messenger != "positron" or ("positron" not in mod and messenger == "positron"):
            bad.append(f"uses the decay spectrum of {mod.rsplit('.', 1)[0]}")
    if ch and not B.decays and not calls and light:
        rep.open("cascade", what, "nothing evaluated")
        return
    if bad:
        rep.violation("cascade", key, f"{what} " + "; ".join(sorted(set(bad))), where)
    elif ok:
        rep.obligation("cascade", what)
    else:
        rep.open("cascade", what, "decay not traced")


ALIAS = {("v", "rho"): "rho0"}


def rhn(rep, B, what, key, messenger, ch, r, st, where):
    if r is None:
        rep.violation("request", key, f"{what} raises for every input", where)
        return
    ts = ch.split()
    ps = ["rho0" if t == "rho" and ts[0] in ("ve", "vm", "vt") else t for t in ts]
    bad, seen = [], 0
    for m, fs, cme, e, fsr, flavor in B.asked:
        if m != messenger:
            bad.append(f"asks for the {m} spectrum")
        el = B.eng.elements(fs, st) if fs is not None and not isinstance(fs, Str) else ([fs], None)
        if el is None or el[1] is not None or not all(isinstance(x, Str) for x in el[0]):
            continue
        got = [x.s for x in el[0]]
        seen += 1
        norm = [{"photon": "a"}.get(x, x) for x in got]
        if sorted(norm) != sorted(ps):
            bad.append(f"asks for the final state {got}")
        if isinstance(cme, Num) and alg.equal(cme.form, {("in", "mx"): 1.0}) is False:
            bad.append(f"asks for the energy {shown(cme)}")
        if m == "photon" and isinstance(fsr, Num) and fsr.const in (0, False):
            bad.append("asks for no final-state radiation")
    if bad:
        rep.violation("request", key, f"{what} " + "; ".join(sorted(set(bad))), where)
    elif seen:
        rep.obligation("request", what)
    elif "a" in ts:
        rep.obligation("request", what + " (no decaying particle)")
    elif isinstance(r, Num) and (r.nz is ALL or r.const == 0):
        rep.violation("request", key, f"{what} is identically zero", where)
    else:
        rep.open("request", what, "no request traced")
