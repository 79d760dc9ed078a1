"""The parameters and named constants each channel value is computed from are tracked through constructors, properties,
helper methods, form factors and native kernels, and compared with the couplings and masses that belong to the channel."""
from ..channels import ChannelValues, LEPTONS, NEUTRINOS, PART, tokens, variants
from ..models import SPECS, make_engine
from ..values import ALL, Num

RULES = {
    "couplings": "a channel's rate is computed from its own couplings and from no coupling of another channel",
    "masses": "a channel's rate is computed from the masses of its own particles (plus mediator, dark matter and hadronic constants) and from no other particle's",
}

# base model: channel -> the couplings it is driven by (besides gsxx / gvxx)
SCALAR = {"mu mu": {"gsff"}, "e e": {"gsff"}, "g g": {"gsFF", "lam"}, "pi0 pi0": {"gsff", "gsGG", "lam"}, "pi pi": {"gsff", "gsGG", "lam"},
          "s s": set(), "x x": {"gsxx"}}
VECTOR = {"mu mu": {"gvmumu"}, "e e": {"gvee"}, "pi pi": {"gvuu", "gvdd"}, "pi0 g": {"gvuu", "gvdd"}, "pi0 v": {"gvuu", "gvdd"}, "v v": set(), "x x": {"gvxx"}}
UD, UDS = {"gvuu", "gvdd"}, {"gvuu", "gvdd", "gvss"}
GEVV = {"mu mu": {"gvmumu"}, "e e": {"gvee"}, "ve ve": {"gvveve"}, "vm vm": {"gvvmvm"}, "vt vt": {"gvvtvt"}, "x x": {"gvxx"}, "v v": set(),
        "pi pi": UD, "k0 k0": UDS, "k k": UDS, "pi0 gamma": UDS, "eta gamma": UDS, "pi0 phi": UD, "eta phi": {"gvss"}, "eta omega": UD,
        "pi0 pi0 gamma": UD, "pi pi pi0": UDS, "pi pi eta": UD, "pi pi etap": UD, "pi pi omega": UD, "pi0 pi0 omega": UD, "pi0 k0 k0": UDS,
        "pi0 k k": UDS, "pi k k0": UDS, "pi pi pi pi": UD, "pi pi pi0 pi0": UD}
# derived model -> (base table, coupling of the base -> what it is made of)
KM = {"gvuu": {"eps", "Qu", "qe"}, "gvdd": {"eps", "Qd", "qe"}, "gvss": {"eps", "Qd", "qe"}, "gvee": {"eps", "Qe", "qe"}, "gvmumu": {"eps", "Qe", "qe"},
      "gvveve": set(), "gvvmvm": set(), "gvvtvt": set()}
BL = {c: {"g"} for c in KM}
DERIVED = {
    "ScalarMediator": (SCALAR, {}), "HiggsPortal": (SCALAR, {"gsff": {"stheta"}, "gsGG": {"stheta"}, "gsFF": {"stheta"}, "lam": set()}),
    "HeavyQuark": (SCALAR, {"gsff": set(), "gsGG": {"gsQ"}, "gsFF": {"gsQ", "QQ"}, "lam": {"mQ"}}),
    "VectorMediator": (VECTOR, {}), "KineticMixing": (VECTOR, KM), "QuarksOnly": (VECTOR, {"gvee": set(), "gvmumu": set()}),
    "VectorMediatorGeV": (GEVV, {}), "KineticMixingGeV": (GEVV, KM), "BLGeV": (GEVV, BL),
}
CHARGES = {"Qu", "Qd", "Qe", "qe"}
# right-handed neutrino: electroweak inputs of the channel, by its particle content
RHN_PS = {"pi0": {"fpi0"}, "eta": {"feta"}, "k": {"fk", "Vus"}, "pi": {"fpi", "Vud"}, "rho": set(), "omega": set(), "phi": set()}
CKM = {"Vud", "Vus", "Vub", "Vcd", "Vcs", "Vcb", "Vtd", "Vts", "Vtb"}
DECAY_CONST = {"fpi", "fpi0", "fk", "feta"}
# masses entering as hard-coded numbers of the parametrisation rather than the named constant
NO_NAMED_MASS = {"pi pi pi pi", "pi pi pi0 pi0"}
RHN_ISOSPIN = ("pi", "pi0")     # 'l pi pi0' is computed with the charged-pion mass for both pions (documented isospin limit)
# intermediate states of hadronic amplitudes
RESONANCES = {"rho_mass", "omega_mass", "charged_pion_mass", "neutral_pion_mass"}
MASS_CONSTS = {v[1] for v in PART.values() if v[1]}
LEP_MASS = {"electron_mass", "muon_mass", "tau_mass"}


def expect(name, ch):
    """Couplings that must / may drive the channel."""
    base, sub = DERIVED[name]
    if ch not in base:
        return None
    out = set()
    for c in base[ch]:
        out |= sub.get(c, {c})
    return out


def run(rep, repo, tier):
    eng = make_engine(repo)
    for name, fl in variants():
        cv = ChannelValues(eng, name, flavor=fl)
        rep.count("models")
        for e in cv.errors:
            rep.open("couplings", cv.label, e)
        allp = {k for k, v in SPECS[name][1].items()} - {"mx", "ms", "mv", "flavor", "lam", "mQ"} | (CHARGES if "KineticMixing" in name else set())
        if "lam" in SPECS[name][1]:
            allp.add("lam")
        if "mQ" in SPECS[name][1]:
            allp.add("mQ")
        wd = set()
        for (q, ch), v in cv.values.items():
            if q == "width" and isinstance(v, Num):
                wd |= {d[1] for d in v.deps}
        for (q, ch), v in sorted(cv.values.items()):
            where = f"{cv.label} {'cross section' if q == 'sigma' else 'width'} of '{ch}'"
            if not isinstance(v, Num):
                rep.open("couplings", where, "value is not numeric")
                continue
            if any(t not in PART and t not in ("s", "v", "x") for t in tokens(ch)):
                rep.open("couplings", where, "unknown particle in the channel name")
                continue
            if v.nz is ALL:
                rep.count("identically zero channels")
                continue
            deps = {d[1] for d in v.deps if isinstance(d[1], str)}
            if q == "sigma" and wd and wd <= deps | {"mx"}:
                rep.open("couplings", where, "the mediator width could not be separated from the rate")
                continue
            rep.count("channel values")
            loc = _where(cv, q)
            if name == "RHNeutrino":
                rhn(rep, cv, ch, deps, where, loc)
            else:
                mediator(rep, cv, name, q, ch, deps, allp, where, loc)
    rep.floor("couplings", 200)
    rep.floor("masses", 200)


def mediator(rep, cv, name, q, ch, deps, allp, where, loc):
    want = expect(name, ch)
    if want is None:
        rep.open("couplings", where, "channel not in the coupling table")
        return
    med = "ms" if "ms" in SPECS[name][1] else "mv"
    xx = "gsxx" if med == "ms" else "gvxx"
    want = set(want)
    if q == "sigma":
        want.add(xx)
    got = deps & (allp | {xx})
    may = want | (CHARGES & {"qe"} if want else set())
    if name == "HiggsPortal" and not want <= got:
        pass
    missing, foreign = want - got, got - may
    if missing or foreign:
        rep.violation("couplings", f"{cv.label}:{q}:{ch}", describe("couplings", missing, foreign), loc, f"computed from {sorted(deps)}; its couplings are {sorted(want)}")
    else:
        rep.obligation("couplings", where)
    toks = set(tokens(ch))
    own = {PART[t][1] for t in toks if t in PART and PART[t][1]}
    need = set() if ch in NO_NAMED_MASS else set(own)
    need |= {"mx"} if q == "sigma" or ch == "x x" else set()
    need.add(med)
    if q == "sigma" and ch not in ("s s", "v v"):
        need.add("WIDTH")
    lept = bool(toks & (LEPTONS | NEUTRINOS)) or toks <= {"x", "s", "v"} or toks == {"g"}
    bad = (deps & MASS_CONSTS) - own
    if not lept:
        bad -= RESONANCES
    if q == "width" and ch != "x x" and "mx" in deps:
        bad.add("mx")
    miss = {m for m in need if m not in deps}
    if bad or miss:
        rep.violation("masses", f"{cv.label}:{q}:{ch}", describe("masses", miss, bad), loc, f"computed from {sorted(deps)}")
    else:
        rep.obligation("masses", where)


def rhn(rep, cv, ch, deps, where, loc):
    toks = tokens(ch)
    need = {"theta", "GF"}
    ps = [t for t in toks if t in RHN_PS]
    if len(ps) == 1:
        need |= RHN_PS[ps[0]] if not (ps[0] in ("rho",) and toks[0] in LEPTONS) else {"Vud"}
    elif set(ps) == {"pi", "pi0"}:
        need |= {"Vud"}
    bad = ((CKM | DECAY_CONST) & deps) - need
    miss = need - deps
    if bad or miss:
        rep.violation("couplings", f"{cv.label}:width:{ch}", describe("couplings", miss, bad), loc, f"computed from {sorted(deps)}")
    else:
        rep.obligation("couplings", where)
    own = {PART[t][1] for t in toks if t in PART and PART[t][1]}
    opt = {"neutral_pion_mass", "charged_pion_mass"} if set(ps) == {"pi", "pi0"} else set()
    bad = (deps & MASS_CONSTS) - own - opt
    miss = {m for m in own | {"mx"} if m not in deps} - opt
    if set(ps) == {"pi", "pi0"} and not deps & opt:
        miss |= opt
    if bad or miss:
        rep.violation("masses", f"{cv.label}:width:{ch}", describe("masses", miss, bad), loc, f"computed from {sorted(deps)}")
    else:
        rep.obligation("masses", where)


def describe(what, missing, foreign):
    out = []
    if foreign:
        out.append(f"depends on foreign {what} {sorted(foreign)}")
    if missing:
        out.append(f"does not depend on its own {sorted(missing)}")
    return "; ".join(out)


def _where(cv, q):
    c = cv.m.cls
    f = c.lookup({"sigma": "annihilation_cross_sections"}.get(q, "partial_widths"))[0] or c.lookup("decay_widths")[0]
    return f"{f.module.rel}:{f.node.lineno}" if f is not None and hasattr(f, "node") else c.name
