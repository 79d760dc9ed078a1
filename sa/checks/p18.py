"""Symbolic dispatch: the public spectrum functions are interpreted for every particle name, every pair and every slot of three- and
four-body final states with the single-particle spectra as opaque sources, which shows which spectrum is evaluated, at which energy, how
often and into which neutrino flavor; each single-particle spectrum is in turn followed (through the native kernels) to the masses,
branching fractions and table files it is made from and the guard that closes it below its parent's mass."""
from .. import alg
from ..guards import decide_closed, decide_not_suppressed
from ..interp import Dead, State
from ..kernels import FLAVORS, Kernels, LONG, MESSENGERS
from ..project import Entry, atom, literal, make_engine
from ..values import *

RULES = {
    "particles": "the three public functions accept the same particle names, all of which have a mass, and every exported single-particle spectrum is reachable by name",
    "mass": "the mass table gives each name that particle's mass",
    "single": "a one-particle request evaluates exactly that particle's spectrum for that messenger at the given energy, or nothing where the particle has none",
    "two-body": "a two-body request evaluates each particle's own spectrum once, at the energy the two masses give it",
    "fsr": "final-state radiation is added once per charged particle of a two-body final state, with its own mass, spin and unit charge, and only for photons when asked for",
    "n-body": "a final state of three or more evaluates each occurrence's own spectrum over that occurrence's own energy distribution, from the masses of the particles named",
    "primary": "a positron or neutrino in the final state contributes its own energy distribution once, to its own messenger and flavor only",
    "own-constants": "a single-particle spectrum uses its parent's mass, and no mass or branching fraction of a heavier particle",
    "own-table": "a tabulated spectrum is made from the files of its own particle, messenger and flavor",
    "closed": "a single-particle spectrum is zero below its parent's rest energy and not forced to zero above it",
    "flavor": "a neutrino spectrum's rows and flavor option select the same flavor; the tau row is zero where no tau neutrinos are made",
    "rejects": "an unknown flavor or particle name is rejected",
}
MASS = {"e": "electron_mass", "mu": "muon_mass", "tau": "tau_mass", "ve": None, "vm": None, "vt": None, "photon": None, "a": None, "u": "up_quark_mass",
        "d": "down_quark_mass", "s": "strange_quark_mass", "c": "charm_quark_mass", "b": "bottom_quark_mass", "t": "top_quark_mass", "h": "higgs_mass",
        "pi": "charged_pion_mass", "pi0": "neutral_pion_mass", "k": "charged_kaon_mass", "k0": "neutral_kaon_mass", "kl": "long_kaon_mass",
        "ks": "short_kaon_mass", "eta": "eta_mass", "etap": "eta_prime_mass", "rho": "rho_mass", "rho0": "rho_mass", "omega": "omega_mass", "phi": "phi_mass"}
CHARGED = {"e": "fermion", "mu": "fermion", "pi": "scalar", "k": "scalar"}
NU = {"ve": "e", "vm": "mu", "vt": "tau"}
# which table file(s) a spectrum may be made from, by the repository's naming
OWNFILE = {("positron", "rho"): "rho_positron.csv", ("positron", "rho0"): "rho_positron.csv"}
PRODUCTS = [("photon", None), ("positron", None), ("neutrino", None), ("neutrino", "e"), ("neutrino", "mu"), ("neutrino", "tau")]
BRP = {"etap": "etap", "eta": "eta", "omega": "omega", "phi": "phi", "kl": "kl", "ks": "ks", "k": "k", "pi": "pi", "pi0": "pi0", "mu": "mu", "rho": "rho", "rho0": "rho0"}


class Bench:
    def __init__(self, repo):
        self.eng = make_engine(repo)
        self.K = Kernels(self.eng).install()
        self.inner = self.eng.call_hook
        self.eng.call_hook = self.hook
        self.entry = Entry(self.eng, "hazma.spectra")
        pm = Entry(self.eng, "hazma.parameters")
        self.par = pm
        t = pm.name("standard_model_masses")
        h = self.eng.get(pm.st, t.id)
        self.masses = dict(h.items)
        self.n = 0
        self.built = []
        self.primaries = []

    def hook(self, engine, f, args, kw, node, st, ctx):
        if self.n and isinstance(f, Cls) and f.module.name.startswith("hazma.phase_space") and f.name in ("ThreeBody", "Rambo", "TwoBody"):
            init, _ = f.lookup("__init__")
            names = [a.arg for a in init.node.args.posonlyargs + init.node.args.args + init.node.args.kwonlyargs][1:] if isinstance(init, Func) else []
            b = dict(zip(names, args))
            b.update(kw)
            ms = b.get("masses")
            el = engine.elements(ms, st) if ms is not None else None
            self.built.append((f.name, None if el is None or el[1] is not None else list(el[0]), b.get("cme", b.get("cm_energy"))))
        if self.n and isinstance(f, Func) and isinstance(f.bound, Ref) and f.name in ("energy_distributions", "invariant_mass_distributions"):
            o = engine.get(st, f.bound.id)
            if o.kind == "obj" and o.cls is not None and o.cls.module.name.startswith("hazma.phase_space"):
                D1 = Entry(engine, "hazma.phase_space").name("PhaseSpaceDistribution1D")

                def mk(tag):
                    x = atom(f"bins{tag}", kind="array")
                    y = atom(f"prob{tag}", kind="array")
                    return engine.call(D1, [x, y], {}, st, ctx, node)
                if f.name == "energy_distributions":
                    return engine.alloc(st, HList([mk(i) for i in range(self.n)]))
                return engine.alloc(st, HDict({(i, j): mk(f"{i}_{j}") for i in range(self.n) for j in range(i + 1, self.n)}))
        if self.n and isinstance(f, Ext) and f.name == "numpy.interp":
            d = engine.deps_many(list(args) + list(kw.values()), st)
            own = sorted(x[1][4:] for x in d if x[0] == "in" and x[1].startswith("prob"))
            if own:
                self.primaries.append(own)
                r = unknown(deps=d, lin={("primary", i): (1.0, False) for i in own})
                engine.onedim.add(next(iter(r.form)))       # as long as the energies it is evaluated at
                return r
        return self.inner(engine, f, args, kw, node, st, ctx) if self.inner else None

    def request(self, product, flavor, fs, n=0, **kw):
        """(value, state, calls) of one public call; value None when every path raises."""
        eng = self.eng
        f = self.K.entry[product]
        st = State()
        eng.steps = 0
        eng.events.clear()
        self.K.take()
        self.n, self.built, self.primaries = n, [], []
        v = Str(fs) if isinstance(fs, str) else Tup([Str(x) for x in fs])
        k = {a: (Str(b) if isinstance(b, str) else literal(b)) for a, b in kw.items()}
        if flavor is not None:
            k["flavor"] = Str(flavor)
        try:
            r = eng.call(f, [atom("E", D(MeV=1), kind="array"), atom("cme", D(MeV=1), kind="scalar"), v], k, st, self.entry.ctx, self.entry.module.tree)
        except Dead:
            r = None
        finally:
            self.n = 0
        return r, st, self.K.take()


def src(product, flavor, p):
    return ({"photon": "photon", "positron": "positron"}.get(product) or ("neutrino" if flavor is None else "nu_" + flavor), p)


def zero(v):
    if isinstance(v, Num):
        return v.nz is ALL or v.const == 0
    return False


def run(rep, repo, tier):
    B = Bench(repo)
    for m in MESSENGERS:
        if m not in B.K.entry:
            rep.violation("particles", f"dnde_{m}", "is not exported")
    names = tables(rep, B)
    mass_table(rep, B)
    parts = sorted(set().union(*names.values())) if names else []
    singles(rep, B, names)
    pairs(rep, B, names, parts)
    nbody(rep, B, names, parts, tier)
    kernels(rep, B)
    rejects(rep, B)
    rep.floor("particles", 30)
    rep.floor("mass", 25)
    rep.floor("single", 90)
    rep.floor("two-body", 1200)
    rep.floor("fsr", 400)
    rep.floor("n-body", 150)
    rep.floor("primary", 20)
    rep.floor("own-constants", 34)
    rep.floor("own-table", 24)
    rep.floor("closed", 28)
    rep.floor("flavor", 25)
    rep.floor("rejects", 4)


def tables(rep, B):
    out = {}
    for m in MESSENGERS:
        f = B.K.entry[m]
        v = f.attrs.get("availible_final_states") if isinstance(f, Func) else None
        el = B.eng.elements(v, B.entry.st) if v is not None else None
        if el is None or el[1] is not None:
            rep.open("particles", f"dnde_{m}", "its list of final states is not determined")
            continue
        out[m] = {x.s for x in el[0] if isinstance(x, Str)}
    allp = set().union(*out.values()) if out else set()
    for m, s in sorted(out.items()):
        for p in sorted(allp):
            if p not in s:
                rep.violation("particles", f"dnde_{m}:{p}", f"does not accept '{p}', which the other messengers accept")
            elif p not in B.masses:
                rep.violation("particles", f"mass of {p}", f"'{p}' is accepted as a final state but has no mass")
            else:
                rep.obligation("particles", f"dnde_{m} accepts {p}")
    for (m, p) in sorted(B.K.named):
        if m in out and p not in out[m]:
            rep.violation("particles", f"{m}:{p}", f"dnde_{m}_{LONG[p]} is exported but dnde_{m} does not accept '{p}'")
    return out


def mass_table(rep, B):
    for p, want in sorted(MASS.items()):
        v = B.masses.get(p)
        if v is None:
            continue
        if want is None:
            ok = v.const == 0
        else:
            w = B.par.name(want)
            ok = isinstance(v, Num) and v.const == w.const
        if ok:
            rep.obligation("mass", p)
        elif isinstance(v, Num) and isinstance(v.const, (int, float)):
            rep.violation("mass", p, f"the mass table gives '{p}' {v.const}, not {'zero' if want is None else want}", "hazma/parameters.py")
        else:
            rep.open("mass", p, "mass not determined")


def compare(rep, rule, what, key, want, r, st, B, approx=()):
    """Multiplicities of the sources in the value against `want` (source -> count)."""
    if r is None:
        rep.violation(rule, key, f"{what} always raises")
        return False
    lin = B.eng.lin_deep(r, st) if not isinstance(r, Num) else r.lin
    if any(k[0] == "neutrino" for k in want) and isinstance(r, Num) and r.poly is not None and len(r.poly) == 3:
        # rows known one by one: a particle counts as often as in the row where it counts least or most wrongly
        lin = {}
        for (_, p), w in [(k, w) for k, w in want.items()]:
            ms = [row.lin.get(("nu_" + FLAVORS[j], p), (0.0, False))[0] for j, row in enumerate(r.poly)]
            lin[("neutrino", p)] = (next((x for x in ms if x is not None and abs(x - w) > 1e-9), None if None in ms else w), False)
        for j, row in enumerate(r.poly):
            for k, v in row.lin.items():
                if k[0].startswith("nu_") and ("neutrino", k[1]) not in want:
                    lin[("neutrino", k[1])] = v
    lin = {k: v for k, v in lin.items() if k[0] not in ("fsr", "primary")}
    deps = B.eng.deps_of(r, st)
    bad = []
    for k in sorted(set(lin) | set(want)):
        m = lin.get(k, (0.0, False))[0]
        w = want.get(k, 0)
        if k not in lin and w and ("kernel", k[0], k[1]) in deps:
            m = None
        if m is None:
            if w == 0:
                bad.append(f"evaluates the {k[0]} spectrum of {k[1]}")
            else:
                rep.open(rule, what, f"number of times {k[1]}'s spectrum enters not determined")
                return None
        elif abs(m - w) > 1e-9:
            bad.append(f"weights the {k[0]} spectrum of {k[1]} {m:g} times instead of {w}" if k in lin else f"lacks the {k[0]} spectrum of {k[1]}")
    if bad:
        rep.violation(rule, key, f"{what} " + "; ".join(bad), _where(B))
        return False
    return True


def _where(B, m="photon"):
    f = B.K.entry[m]
    return f"{f.module.rel}:{f.node.lineno}" if isinstance(f, Func) else ""


def label(product, flavor):
    return f"dnde_{product}" + (f"[{flavor}]" if flavor else "")


def singles(rep, B, names):
    for product, flavor in PRODUCTS:
        for p in sorted(names.get(product, ())):
            for fs, how in ((p, "name"), ([p], "list")):
                r, st, calls = B.request(product, flavor, fs)
                what = f"{label(product, flavor)} of '{p}' given as a {how}"
                key = f"{label(product, flavor)}:{p}:{how}"
                has = (product, p) in B.K.named
                s = src(product, flavor, p)
                if compare(rep, "single", what, key, {s: 1} if has else {}, r, st, B):
                    rep.obligation("single", what)
                for c in calls:
                    if c.kind == "decay":
                        q = alg.equal(c.energy.form if isinstance(c.energy, Num) else None, {("in", "cme"): 1.0})
                        if q is False:
                            rep.violation("single", key + ":energy", f"{what} evaluates the spectrum at {show1(c.energy)} instead of the given energy", c.where)


def show1(v):
    return formstr(v.form) if isinstance(v, Num) and v.form else "another energy"


CME = ("in", "cme")


def items(f):
    return tuple(f.items())


def two_body_energy(m1, m2):
    """(s + m1^2 - m2^2) / (2 sqrt(s)) as a form."""
    num = {("pow", items({CME: 1.0}), 2): 1.0, 1: m1 ** 2 - m2 ** 2}
    return {("div", items({k: v for k, v in num.items() if v}), items({CME: 2.0})): 1.0}


def mval(B, p):
    v = B.masses.get(p)
    return v.const if isinstance(v, Num) and isinstance(v.const, (int, float)) else None


def pairs(rep, B, names, parts):
    for product, flavor in PRODUCTS:
        for p in parts:
            for q in parts:
                if p not in names.get(product, ()) or q not in names.get(product, ()):
                    continue
                variants = [({}, True), ({"include_fsr": False}, False)] if product == "photon" else [({}, False)]
                for kw, fsr in variants:
                    r, st, calls = B.request(product, flavor, [p, q], **kw)
                    what = f"{label(product, flavor)} of ['{p}', '{q}']" + (" without FSR" if kw else "")
                    key = f"{label(product, flavor)}:{p} {q}" + (":nofsr" if kw else "")
                    want = {}
                    for x in (p, q):
                        if (product, x) in B.K.named:
                            k = src(product, flavor, x)
                            want[k] = want.get(k, 0) + 1
                    if compare(rep, "two-body", what, key, want, r, st, B):
                        ok = True
                        ms = (mval(B, p), mval(B, q))
                        if None not in ms:
                            expect = {p: two_body_energy(*ms)}
                            expect[q] = two_body_energy(ms[1], ms[0])
                            for c in calls:
                                if c.kind != "decay" or c.particle not in expect:
                                    continue
                                e = alg.equal(c.energy.form if isinstance(c.energy, Num) else None, expect[c.particle])
                                if e is False:
                                    ok = False
                                    rep.violation("two-body", key + ":energy", f"{what} evaluates {c.particle}'s spectrum at {show1(c.energy)}", c.where)
                                elif e is None:
                                    rep.open("two-body", what, "energy not in closed form")
                        if ok:
                            rep.obligation("two-body", what)
                    if r is None or product != "photon":
                        if any(c.kind == "fsr" for c in calls):
                            rep.violation("fsr", key, f"{what} includes photon radiation", _where(B))
                        continue
                    check_fsr(rep, B, what, key, [p, q] if fsr else [], r, st, calls)


def check_fsr(rep, B, what, key, states, r, st, calls):
    want = {}
    for x in states:
        if x in CHARGED:
            k = (CHARGED[x], mval(B, x))
            want[k] = want.get(k, 0) + 1
    lin = r.lin if isinstance(r, Num) else B.eng.lin_deep(r, st)
    got = {}
    bad = []
    for c in calls:
        if c.kind != "fsr":
            continue
        m = c.mass.const if isinstance(c.mass, Num) else None
        got[(c.particle, m)] = got.get((c.particle, m), 0) + 1
        ch = c.charge.const if isinstance(c.charge, Num) else None
        if ch is not None and abs(abs(ch) - 1) > 1e-9:
            bad.append(f"radiates with charge {ch}")
        e = alg.equal(c.energy.form if isinstance(c.energy, Num) else None, {("pow", items({CME: 1.0}), 2): 1.0})
        if e is False:
            bad.append(f"radiates at squared energy {show1(c.energy)}")
    for spin in ("scalar", "fermion"):
        w = sum(n for (s, m), n in want.items() if s == spin)
        g = lin.get(("fsr", spin), (0.0, False))[0]
        if g is not None and abs(g - w) > 1e-9:
            bad.append(f"counts the radiation of charged {spin}s {g:g} times instead of {w}")
    for k in set(got) | set(want):
        if (got.get(k, 0) > 0) != (want.get(k, 0) > 0) and k[1] is not None:
            bad.append(f"{'adds' if k in got else 'lacks'} the radiation of a {k[0]} of mass {k[1]}")
    if bad:
        rep.violation("fsr", key, f"{what} " + "; ".join(sorted(set(bad))), _where(B))
    else:
        rep.obligation("fsr", what)


def states_of(parts, tier):
    """Final states that put every particle in every slot next to a different one, plus repeated particles."""
    out = []
    n = len(parts)
    for i, p in enumerate(parts):
        a, b, c = parts[(i + 1) % n], parts[(i + 5) % n], parts[(i + 7) % n]
        out += [(p, a, b), (b, p, a), (p, p, a)]
        if tier != "quick" or i % 3 == 0:
            out += [(p, a, b, c), (p, p, a, a)]
    out += [("pi", "pi", "pi0"), ("pi", "pi0", "pi"), ("mu", "e", "ve"), ("e", "ve", "vm"), ("pi", "pi", "pi0", "pi0"), ("pi", "pi", "pi", "pi")]
    return [s for s in out if all(x in parts for x in s)]


def nbody(rep, B, names, parts, tier):
    for product, flavor in PRODUCTS:
        for fs in states_of(parts, tier):
            if any(x not in names.get(product, ()) for x in fs):
                continue
            kw = {"include_fsr": False} if product == "photon" else {}
            r, st, calls = B.request(product, flavor, list(fs), n=len(fs), **kw)
            what = f"{label(product, flavor)} of {list(fs)}"
            key = f"{label(product, flavor)}:{' '.join(fs)}"
            want = {}
            for x in fs:
                if (product, x) in B.K.named:
                    k = src(product, flavor, x)
                    want[k] = want.get(k, 0) + 1
            ok = compare(rep, "n-body", what, key, want, r, st, B)
            if ok is False:
                continue
            for cls, ms, cme in B.built:
                if ms is None:
                    continue
                vals = [m.const if isinstance(m, Num) else None for m in ms]
                expect = [mval(B, x) for x in fs]
                if None not in vals and None not in expect and vals != expect:
                    ok = False
                    rep.violation("n-body", key + ":masses", f"{what} takes the energy distributions of masses {vals}, not {expect}", _where(B, product))
                if isinstance(cme, Num) and alg.equal(cme.form, {CME: 1.0}) is False:
                    rep.violation("n-body", key + ":cme", f"{what} takes the distributions at {show1(cme)}", _where(B, product))
            # every occurrence over its own distribution
            slots = {}
            for c in calls:
                if c.kind == "decay" and isinstance(c.energy, Num):
                    own = {x[1][4:] for x in c.energy.deps if x[0] == "in" and x[1].startswith("bins")}
                    if len(own) == 1:
                        slots.setdefault(c.particle, set()).update(own)
            for p, got in sorted(slots.items()):
                expect = {str(i) for i, x in enumerate(fs) if x == p}
                if got - expect:
                    ok = False
                    i = sorted(got - expect)[0]
                    rep.violation("n-body", key + ":slots", f"{what} spreads {p}'s spectrum over the energies of particle {int(i) + 1} ('{fs[int(i)]}')", _where(B, product))
                elif expect - got:
                    ok = False
                    rep.violation("n-body", key + ":slots", f"{what} leaves out the energies of one '{p}'", _where(B, product))
            if ok:
                rep.obligation("n-body", what)
            if product == "photon":
                radiation(rep, B, fs)
            primary(rep, B, what, key, product, flavor, fs, r, st)


def radiation(rep, B, fs):
    for avg in (True, False):
        r, st, calls = B.request("photon", None, list(fs), n=len(fs), average_fsr=avg)
        what = f"dnde_photon of {list(fs)}" + ("" if avg else " with average_fsr=False")
        key = f"dnde_photon:{' '.join(fs)}" + ("" if avg else ":once")
        if r is None:
            rep.violation("fsr", key, f"{what} always raises", _where(B))
            continue
        want = {(CHARGED[x], mval(B, x)) for x in fs if x in CHARGED}
        got, bad = set(), []
        for c in calls:
            if c.kind != "fsr":
                continue
            m = c.mass.const if isinstance(c.mass, Num) else None
            if m is None:
                got = None
                break
            got.add((c.particle, m))
            ch = c.charge.const if isinstance(c.charge, Num) else None
            if ch is not None and abs(abs(ch) - 1) > 1e-9:
                bad.append(f"radiates with charge {ch}")
            pair = {x[1][4:] for x in (c.energy.deps if isinstance(c.energy, Num) else ()) if x[0] == "in" and x[1].startswith("bins")}
            if len(pair) == 1:
                idx = [int(i) for i in sorted(pair)[0].split("_")]
                if not any((CHARGED.get(fs[i]), mval(B, fs[i])) == (c.particle, m) for i in idx if i < len(fs)):
                    bad.append(f"takes the radiation of the particle of mass {m} over the invariant mass of {[fs[i] for i in idx]}")
        if got is None:
            rep.open("fsr", what, "mass not determined")
            continue
        for k in sorted(got ^ want, key=str):
            if k[1] is not None:
                bad.append(f"{'adds' if k in got else 'lacks'} the radiation of a {k[0]} of mass {k[1]}")
        if bad:
            rep.violation("fsr", key, f"{what} " + "; ".join(sorted(set(bad))), _where(B))
        else:
            rep.obligation("fsr", what)


def primary(rep, B, what, key, product, flavor, fs, r, st):
    want = set()
    for i, x in enumerate(fs):
        if product == "positron" and x == "e" or product == "neutrino" and (NU.get(x) == flavor if flavor else x in NU):
            want.add(str(i))
    lin = r.lin if isinstance(r, Num) else B.eng.lin_deep(r, st)
    got = {k[1]: v[0] for k, v in lin.items() if k[0] == "primary"}
    bad = []
    for i in sorted(set(got) | want):
        m = got.get(i, 0.0)
        if i not in want and (m is None or m > 1e-9):
            bad.append(f"adds the energy distribution of '{fs[int(i)]}'")
        elif i in want and m is not None and abs(m - 1) > 1e-9 and B.primaries:
            bad.append(f"counts the '{fs[int(i)]}' {m:g} times instead of once")
    if product == "neutrino" and flavor is None and isinstance(r, Num) and r.poly is not None and len(r.poly) == 3:
        for j, row in enumerate(r.poly):
            for k, v in row.lin.items():
                if k[0] == "primary" and NU.get(fs[int(k[1])]) != FLAVORS[j]:
                    bad.append(f"adds the energy distribution of '{fs[int(k[1])]}' to the {FLAVORS[j]} row")
                elif k[0].startswith("nu_") and k[0] != "nu_" + FLAVORS[j]:
                    bad.append(f"adds the {k[0]} spectrum of '{k[1]}' to the {FLAVORS[j]} row")
            for i in sorted(want):
                if NU.get(fs[int(i)]) == FLAVORS[j] and ("primary", i) not in row.lin and B.primaries:
                    bad.append(f"leaves the energy distribution of '{fs[int(i)]}' out of the {FLAVORS[j]} row")
        rep.count("row-resolved neutrino final states")
    if want and not B.primaries:
        if zero(r):
            bad.append(f"is identically zero although '{fs[int(sorted(want)[0])]}' is in the final state")
        else:
            rep.open("primary", what, "primary contribution not traced")
            return
    if bad:
        rep.violation("primary", key, f"{what} " + "; ".join(bad), _where(B, product))
    else:
        rep.obligation("primary", what)


def kernels(rep, B):
    B.K.on = False
    eng = B.eng
    masses = {}
    for p, n in MASS.items():
        if n is not None:
            try:
                masses[n] = B.par.name(n).const
            except KeyError:
                pass
    for (m, p), f in sorted(B.K.named.items()):
        for fl in (None,) + FLAVORS if m == "neutrino" else (None,):
            st = State()
            eng.steps = 0
            eng.events.clear()
            what = f"dnde_{m}_{LONG[p]}" + (f"(flavor='{fl}')" if fl else "")
            key = f"{m}:{p}" + (f":{fl}" if fl else "")
            try:
                r = eng.call(f, [atom("E", D(MeV=1), kind="array"), atom("EP", D(MeV=1), kind="scalar")], {"flavor": Str(fl)} if fl else {}, st, B.entry.ctx, B.entry.module.tree)
            except Dead:
                rep.violation("own-constants", key, f"{what} always raises", _fwhere(f))
                continue
            deps = eng.deps_of(r, st)
            where = _fwhere(f)
            if fl == "tau":
                if zero(r):
                    rep.obligation("flavor", what + " is zero")
                elif {d for d in deps if d[0] == "file"} or {d for d in deps if d[0] == "const" and d[1].startswith("br_")}:
                    rep.violation("flavor", key, f"{what} is not zero: it is made from {shown(deps)}", where)
                else:
                    rep.open("flavor", what, "not shown to be zero")
                continue
            constants(rep, what, key, p, deps, masses, where)
            files(rep, what, key, m, p, fl, deps, where)
            guard(rep, what, key, m, p, r, masses, where)
            if m == "neutrino":
                rows(rep, B, what, key, p, fl, r, st, where)
    B.K.on = True


def _fwhere(f):
    return f"{f.module.rel}:{f.node.lineno}" if isinstance(f, Func) else ""


def shown(deps):
    return ", ".join(sorted(str(d[1]).split("/")[-1] for d in deps if d[0] in ("file", "const"))) or "nothing"


def constants(rep, what, key, p, deps, masses, where):
    own = masses.get(MASS[p])
    used = {d[1] for d in deps if d[0] == "const"}
    ms = {n: masses[n] for n in used if n in masses}
    bad = []
    for n, v in sorted(ms.items()):
        if v > own * (1 + 2e-3):
            bad.append(f"depends on {n}, which is heavier than its parent")
    for b in sorted(used):
        if b.startswith("br_"):
            q = b[3:].split("_to_")[0]
            if q in BRP and q != p:
                mq = masses.get(MASS[q])
                if not mq < own * (1 - 2e-3):
                    bad.append(f"uses {b}, a branching fraction of another parent")
    if not any(abs(v - own) <= 2e-3 * own for v in ms.values()):
        bad.append(f"does not depend on {MASS[p]} (it uses {', '.join(sorted(ms)) or 'no mass'})")
    if bad:
        rep.violation("own-constants", key, f"{what} " + "; ".join(bad), where)
    else:
        rep.obligation("own-constants", what)


def files(rep, what, key, m, p, fl, deps, where):
    fs = sorted(d[1] for d in deps if d[0] == "file")
    if not fs:
        return
    if m == "neutrino":
        okn = {f"{LONG[p]}_neutrino_{x}.csv" for x in (FLAVORS if fl is None else (fl,))}
    else:
        okn = {OWNFILE.get((m, p), f"{LONG[p]}_{m}.csv")}
    bad = []
    for x in fs:
        base, folder = x.split("/")[-1], x.split("/")
        # judged by content of the name (particle, messenger, flavor), not by where the file lies
        if base in okn:
            continue
        other = [q for q in LONG.values() if base.startswith(q + "_") and q != LONG[p]]
        mess = [y for y in MESSENGERS if f"_{y}" in base and y != m]
        if other or mess or (m == "neutrino" and fl and any(base.endswith(f"_{y}.csv") for y in FLAVORS if y != fl)):
            bad.append(base)
    if bad:
        rep.violation("own-table", key, f"{what} is made from {', '.join(bad)}", where)
    else:
        rep.obligation("own-table", what)


def guard(rep, what, key, m, p, r, masses, where):
    if not isinstance(r, Num) or r.nz is ALL:
        if zero(r):
            rep.violation("closed", key, f"{what} is identically zero", where)
        else:
            rep.open("closed", what, "value is not a single array")
        return
    own = masses[MASS[p]]
    lits = sorted(r.nz, key=litstr)
    d, w = decide_closed(lits, "EP", {}, own, ())
    if d == "closed":
        rep.obligation("closed", what)
    else:
        rep.open("closed", what, "guard not found")
    if own > 1 and decide_closed([x for x in lits if x.kind == "pos" and alg.symbols(x.form) == {"E"}], "E", {}, own, ())[0] == "closed":
        rep.violation("closed", key + ":product", f"{what} is forced to zero for products below the parent's rest energy: its two energies are interchanged", where)
    u = decide_not_suppressed([x for x in lits if x.kind == "pos" and alg.symbols(x.form) == {"EP"}], "EP", [({}, own)], ())
    if u is not None:
        rep.violation("closed", key, f"{what} is forced to zero above its parent's mass: the guard {litstr(u[1])} fails at parent energy {u[0]['EP']:.6g}", where)


def rows(rep, B, what, key, p, fl, r, st, where):
    eng = B.eng
    if fl is not None:
        d = eng.deps_of(r, st)
        one = {FLAVORS.index(fl): d}
    else:
        el = r.poly if isinstance(r, Num) and r.poly is not None else None
        if el is None:
            e = eng.elements(r, st)
            el = e[0] if e is not None and e[1] is None else None
        if el is None or len(el) != 3:
            rep.open("flavor", what, "rows not determined")
            return
        one = {i: eng.deps_of(x, st) for i, x in enumerate(el)}
        if not zero(el[2]) and {d for d in one[2] if d[0] in ("file", "const")}:
            rep.violation("flavor", key + ":tau", f"the tau row of {what} is not zero: it is made from {shown(one[2])}", where)
    for i, d in one.items():
        if i == 2:
            continue
        bad = [x[1].split("/")[-1] for x in d if x[0] == "file" and any(x[1].endswith(f"_{y}.csv") for y in FLAVORS if y != FLAVORS[i])]
        if p == "pi":
            # only the electron row knows the direct decay to an electron neutrino
            e = any(x == ("const", "br_pi_to_e_nue") for x in d)
            if e != (i == 0) and any(x[0] == "const" and x[1].startswith("br_pi") for x in d):
                bad.append("br_pi_to_e_nue" if e else "everything but br_pi_to_e_nue")
        if bad:
            rep.violation("flavor", f"{key}:{FLAVORS[i]}", f"the {FLAVORS[i]} row of {what} is made from {', '.join(bad)}", where)
        else:
            rep.obligation("flavor", f"{what}: {FLAVORS[i]} row")


def rejects(rep, B):
    for fs in ("pi", ["pi", "pi"], ["pi", "pi", "pi0"]):
        r, st, _ = B.request("neutrino", "nosuchflavor", fs)
        if r is None:
            rep.obligation("rejects", f"dnde_neutrino of {fs} with an unknown flavor")
        else:
            rep.violation("rejects", f"flavor:{len(fs)}", f"dnde_neutrino of {fs} returns a value for an unknown flavor", _where(B, "neutrino"))
    for product, flavor in PRODUCTS[:3]:
        for fs in ("nosuchparticle", ["nosuchparticle"], ["pi", "nosuchparticle"], ["pi", "nosuchparticle", "pi"]):
            r, st, _ = B.request(product, flavor, fs)
            miss = [e for e in B.eng.events if e.kind == "key_missing"]
            if r is None or miss:
                rep.obligation("rejects", f"dnde_{product} of {fs}")
            else:
                rep.violation("rejects", f"{product}:{'name' if isinstance(fs, str) else len(fs)}", f"dnde_{product} of {fs} returns a value for an unknown particle", _where(B, product))
