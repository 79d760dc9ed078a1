"""Unit inference: parameters, energies and named constants carry their units, every expression reached from the analysed
functions (model rates through the native kernels, kinematic helpers, splitting functions, relic density, CMB) gets a unit by the
usual algebra; additions, comparisons, transcendental arguments and the units of the results are checked."""
import re

from ..channels import ALLM, LIGHT, WIDTH_ATTR, ChannelValues, variants
from ..dimtable import CM2, DF, FUNCS, IM, J, LIMITS, METHODS, MODEL_FUNCS, NATIVE_FUNCS, SEC
from ..models import K, M, Model, SPECS, X, make_engine
from ..project import Entry, atom
from ..interp import State
from ..values import ALL, NONE, D, D0, LIT, Ext, Num, Str, Tup, dimstr

RULES = {
    "rate-units": "a partial width is in MeV and a cross section in MeV^-2",
    "result-units": "a helper, spectrum, limit or relic-density function returns its documented unit",
    "consistent": "quantities of different units are not added or compared, and transcendental functions get pure numbers",
}
KERNEL = re.compile(r"^hazma\._core\.(photon|positron|neutrino)\.dnde_|^hazma\.\w+_mediator\.\w+_mediator_(decay_spectrum|positron_spec)\.\w")
IM2 = D(MeV=-2)
# GeV channels whose amplitudes come from fits parametrised in GeV: their units are not tracked
FITTED = {"pi pi", "k0 k0", "k k", "pi0 gamma", "eta gamma", "pi0 phi", "eta phi", "eta omega", "pi0 pi0 gamma", "pi pi pi0", "pi pi eta", "pi pi etap",
          "pi pi omega", "pi0 pi0 omega", "pi0 k0 k0", "pi0 k k", "pi k k0", "pi pi pi pi", "pi pi pi0 pi0"}
# neutrino decays to vector mesons and three-body hadronic decays use couplings given as bare numbers
RHN_BARE = re.compile(r"\b(rho|omega|phi)\b|^v\w pi pi$|^\w+ pi pi0$")


# these kernels write log(a/b) as log(a) - log(b), whose arguments have units of their own
LOGDIFF = ("sigma_xl_to_xl", "sigma_xg_to_xg", "sigma_xpi_to_xpi", "sigma_xpi0_to_xpi0")
ARRAYS = {"e_gams", "e_ps", "egam", "eng_gams", "photon_energies"}


def setting(eng, m, func):
    """A target, a measurement of it and a background model, built by their constructors from quantities in the documented units."""
    def new(mod, cls, **kw):
        en = Entry(eng, mod)
        return en.call(en.name(cls), [], kw, m.st)

    def arr(k, d):
        return atom(k, d, kind="array")
    e2flux = D(MeV=1, cm=-2, s=-1)
    t = new("hazma.target_params", "TargetParams", J=atom("J", J, kind="scalar"), D=atom("Dfac", DF, kind="scalar"), dOmega=atom("dOmega", D0, kind="scalar"), vx=atom("vx", D0, kind="scalar"))
    me = new("hazma.flux_measurement", "FluxMeasurement", e_lows=arr("e_lows", M), e_highs=arr("e_highs", M), fluxes=arr("fluxes", e2flux),
             upper_errors=arr("upper_errors", e2flux), lower_errors=arr("lower_errors", e2flux), energy_res=func(D0, M), target=t)
    bg = new("hazma.background_model", "BackgroundModel", e_range=Tup([atom("e0", M), atom("e1", M)]), dPhi_dEdOmega=func(D(MeV=-1, cm=-2, s=-1), M))
    return {"target": t, "measurement": me, "bg_model": bg}


def units(name):
    return {k: (D0 if v in (K, X) else v) for k, v in SPECS[name][1].items() if not isinstance(v, str)}


def excluded(x):
    return x.module.name.startswith("hazma.form_factors") or any("form_factors" in s[1] for s in x.stack)


def report_events(rep, events, what, seen):
    n = 0
    for x in events:
        if x.kind not in ("dim_mismatch", "dim_arg", "dim_literal") or excluded(x):
            continue
        i = x.info
        if x.kind == "dim_mismatch":
            if not isinstance(i.get("a"), tuple) or not isinstance(i.get("b"), tuple):
                continue
            con, msg = f"{what}:{dimstr(i['a'])}+{dimstr(i['b'])}", f"{x.func}: {i.get('what')} combines {dimstr(i['a'])} with {dimstr(i['b'])}"
            if {i["a"], i["b"]} == {D(MeV=1), D(MeV=-3)} and x.func.endswith("decay_widths"):
                continue       # sum with the channels of RHN_BARE
        else:
            if not isinstance(i.get("dim"), tuple) or i["dim"] == D0:
                continue
            if i.get("fn") in ("log", "ln") and what.endswith(LOGDIFF):
                continue       # differences of logarithms
            con = f"{what}:{x.kind}:{dimstr(i['dim'])}"
            msg = f"{x.func}: {i.get('fn')}() of a quantity in {dimstr(i['dim'])}" if x.kind == "dim_arg" else f"{x.func}: the bare number {i.get('lit')} is combined with a quantity in {dimstr(i['dim'])}"
        n += 1
        if con not in seen:
            seen.add(con)
            rep.violation("consistent", con, msg, x.where, f"reached from {what}")
    if not n:
        rep.obligation("consistent", what)


def run(rep, repo, tier):
    eng = make_engine(repo)
    seen = set()
    for name, fl in variants():
        cv = ChannelValues(eng, name, over=units(name), vev_dim=M, flavor=fl)
        for e in cv.errors:
            rep.open("rate-units", cv.label, e)
        for (q, ch), v in sorted(cv.values.items()):
            where = f"{cv.label} {'cross section' if q == 'sigma' else 'width'} of '{ch}'"
            want = M if q == "width" else IM2
            if name not in LIGHT and name != "RHNeutrino" and ch in FITTED:
                rep.open("rate-units", where, "form factor fitted in GeV")
                continue
            if name == "RHNeutrino" and RHN_BARE.search(ch):
                rep.open("rate-units", where, "coupling given as a bare number")
                continue
            if not isinstance(v, Num) or v.dim is None:
                rep.open("rate-units", where, "unit not determined")
            elif v.nz is ALL or v.dim is LIT:
                rep.count("identically zero channels")
            elif v.dim == want:
                rep.obligation("rate-units", where)
            else:
                rep.violation("rate-units", f"{cv.label}:{q}:{ch}", f"has unit {dimstr(v.dim)}, expected {dimstr(want)}", f"{cv.m.cls.module.rel}")
        report_events(rep, cv.events, f"{cv.label}: all channel rates", seen)

    def hook(engine, f, args, kw, node, st, ctx):
        if isinstance(f, Ext) and KERNEL.match(f.name):
            d = engine.deps_many(args, st) | engine.deps_many(kw.values(), st)
            return Num(dim=IM, form={("kernel", f.name, len(engine.events)): 1.0}, deps=d)
        return None
    eng.call_hook = hook

    def model(name):
        m = Model(eng, name, units(name))
        m.set(WIDTH_ATTR[name], atom("WIDTH", M, kind="scalar"))
        if WIDTH_ATTR[name] == "width_s":
            m.set("vs", atom("VEV", M, kind="scalar"))
        return m

    def check(what, r, want, i0):
        if want is not None:
            if not isinstance(r, Num) or r.dim is None:
                rep.open("result-units", what, "unit not determined")
            elif r.dim is LIT or r.nz is ALL or r.dim == want:
                rep.obligation("result-units", what)
            else:
                rep.violation("result-units", what, f"returns {dimstr(r.dim)}, documented as {dimstr(want)}", what)
        report_events(rep, eng.events[i0:], what, seen)

    def one(what, want, fn):
        eng.steps = 0
        i0 = len(eng.events)
        try:
            r = fn()
        except Exception as e:
            rep.open("result-units", what, f"{type(e).__name__}: {e}")
            return
        check(what, r, want, i0)

    for mod, fn, args, want in FUNCS + NATIVE_FUNCS:
        def go():
            en = Entry(eng, mod)
            return en.call(en.name(fn), [], {k: atom(k, d, kind="scalar") for k, d in args.items()})
        one(f"{mod}.{fn}", want, go)
    for name in LIGHT:
        for mod, fn, args, want in MODEL_FUNCS:
            def go():
                m = model(name)
                en = Entry(eng, mod)
                return en.call(en.name(fn), [], {k: (m.obj if d == "model" else atom(k, d, kind="scalar")) for k, d in args.items()}, m.st)
            one(f"{mod}.{fn}({name})", want, go)
        for meth, args, want in METHODS:
            m = model(name)
            if m.cls.lookup(meth)[0] is None:
                continue

            def go():
                r = m.call(meth, **{k: Str(d) if isinstance(d, str) else atom(k, d, kind="array" if k in ARRAYS else "scalar") for k, d in args.items()})
                it, rest = m.items(r)
                if it and "total" not in it and rest is None:
                    ds = {v.dim for v in it.values() if isinstance(v, Num) and v.nz is not ALL}
                    if len(ds) == 1 and all(isinstance(v, Num) for v in it.values()):
                        return next(v for v in it.values() if v.nz is not ALL)
                return it["total"] if it and "total" in it else r
            one(f"{name}.{meth}" + "".join(f"({d})" for d in args.values() if isinstance(d, str)), want, go)

    def func(dim, argdim):
        r = atom("f", dim)
        r.kind, r.argdim = "fn", argdim
        return r
    for name in ("ScalarMediator", "VectorMediator"):
        for method in ("1bin", "chi2"):
            def go():
                m = model(name)
                return m.call("binned_limit", setting(eng, m, func)["measurement"], n_sigma=atom("n_sigma", D0), method=Str(method))
            one(f"{name}.binned_limit({method})", D(cm=3, s=-1), go)

        def go():
            m = model(name)
            s = setting(eng, m, func)
            return m.call("unbinned_limit", func(CM2, M), func(D0, M), atom("T_obs", SEC, kind="scalar"), s["target"], s["bg_model"])
        one(f"{name}.unbinned_limit", D(cm=3, s=-1), go)
        def limit(fn, mod="hazma.limits._cmb", cls="CMBLimit", **kw):
            m = model(name)
            en = Entry(eng, mod)
            o = en.call(en.name(cls), [], kw, m.st)
            return fn(en, o, m)
        cm3s, given = D(cm=3, s=-1), {"x_kd": atom("x_kd", D0, kind="scalar"), "p_ann": atom("p_ann", D(cm=3, s=-1, MeV=-1), kind="scalar")}
        one(f"{name}: CMBLimit._constrain", cm3s, lambda: limit(lambda en, o, m: en.call(en.attr(o, "_constrain", m.st), [m.obj], {}, m.st), **given))
        for fs in ("g g", "e e"):
            for mode in ("quad", "interp"):
                one(f"{name}: CMBLimit._f_eff_helper({fs}, {mode})", D0,
                    lambda: limit(lambda en, o, m: en.call(en.attr(o, "_f_eff_helper", m.st), [m.obj, Str(fs)], {"mode": Str(mode)}, m.st), **given))
                one(f"{name}._f_eff_helper({fs}, {mode})", D0, lambda: model(name).call("_f_eff_helper", Str(fs), x_kd=given["x_kd"], mode=Str(mode)))
        one(f"{name}: RelicDensityLimit._sigmav", cm3s,
            lambda: limit(lambda en, o, m: en.call(en.attr(o, "_sigmav", m.st), [m.obj], {"vx": atom("vx", D0, kind="scalar")}, m.st), "hazma.limits._relic_density", "RelicDensityLimit",
                          prop=Str("gsxx"), prop_min=atom("lo", D0, kind="scalar"), prop_max=atom("hi", D0, kind="scalar")))
    phase_space(eng, one)
    rep.floor("rate-units", 100)
    rep.floor("result-units", 20)
    rep.floor("consistent", 60)


def phase_space(eng, one):
    """Integrals over phase space and over the photon's surroundings, of an opaque squared matrix element with a unit of its own."""
    mev = D(MeV=1)

    def a(n, d=mev):
        return atom(n, d, kind="scalar")

    def msqrd(d):
        r = atom("msqrd", d)
        r.kind, r.argdim = "fn", None
        return r

    def masses(n):
        return Tup([a(f"m{i}") for i in range(1, n + 1)])

    def first(r):
        return r.elems[0] if isinstance(r, Tup) and r.elems else r
    for what, mod, cls, n, meth, args, kw, x, want in (
            ("two-body integral", "hazma.phase_space._two_body", "TwoBody", 2, "integrate", [], {}, D0, D0),
            ("two-body integral of a dimensionful matrix element", "hazma.phase_space._two_body", "TwoBody", 2, "integrate", [], {}, D(MeV=2), D(MeV=2)),
            ("three-body integral", "hazma.phase_space", "ThreeBody", 3, "integrate", [], {"method": Str("quad")}, D0, D(MeV=2)),
            ("three-body integral per energy", "hazma.phase_space", "ThreeBody", 3, "_partial_integration", [a("e"), Num(const=0, dim=D0, kind="scalar")], {}, D0, mev)):
        def go():
            en, st = Entry(eng, mod), State()
            o = en.call(en.name(cls), [a("cme"), masses(n)], {"msqrd": msqrd(x)}, st)
            return first(en.call(en.attr(o, meth, st), args, kw, st))
        one(f"{cls}.{meth}: {what}", want, go)
    for fn, args, want in (("_dnde_point_quad", {"photon_energy": a("e"), "cme": a("cme"), "masses": masses(2), "msqrd": msqrd(IM2), "epsabs": NONE, "epsrel": NONE}, IM),
                           ("_nonrad_integral", {"cme": a("cme"), "masses": masses(2), "msqrd_nonrad": msqrd(D0), "npts": Num(const=10, dim=D0, kind="scalar"), "seed_seq": NONE, "epsabs": NONE, "epsrel": NONE}, D0)):
        def go():
            en = Entry(eng, "hazma.spectra._fsr")
            return first(en.call(en.name(fn), [], args, State()))
        one(f"hazma.spectra._fsr.{fn}", want, go)
