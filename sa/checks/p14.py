"""Constants: every module-level constant of the Python package, the Cython sources and the Rust crate is evaluated from its defining
expression and compared: between the layers, with the particle its name denotes, with the quantities it is derived from, with its twin."""
import ast
import math
import os
import re
import threading

from ..interp import State
from ..project import make_engine
from ..values import *

RULES = {
    "layers": "a constant that several layers define has one value in all of them (the documented legacy set: one value throughout that set, near the modern one)",
    "named": "a name that denotes a particle's mass, a coupling or a decay constant has that quantity's value, in MeV or, when the name says so, in GeV",
    "derived": "a constant that is fixed by others (unit conversions, mass ratios, two-body decay energies, couplings) has the value they give",
    "branching": "branching fractions lie between 0 and 1 and those of one parent add up to no more than 1",
    "lines": "a monochromatic line of a decay into a photon has the photon's energy in that decay, and the branching fraction times the number of photons",
    "fits": "the fitted numbers of a form factor are the same in its two implementations",
}
# particle -> the names of its mass
PARTICLES = {
    "electron": ("e", "electron"), "muon": ("mu", "muon", "m"), "tau": ("tau",), "neutral_pion": ("pi0", "neutral_pion"),
    "charged_pion": ("pi", "charged_pion", "pip", "pim"), "eta": ("eta",), "eta_prime": ("etap", "eta_prime"), "charged_kaon": ("k", "charged_kaon", "kp", "km"),
    "neutral_kaon": ("k0", "neutral_kaon"), "long_kaon": ("kl", "long_kaon"), "short_kaon": ("ks", "short_kaon"), "rho": ("rho",), "omega": ("omega",), "phi": ("phi",),
    "charged_B": ("b", "charged_b"), "higgs": ("h", "higgs"),
}
TOKEN = {t: p for p, ts in PARTICLES.items() for t in ts}
TOKENS = {**TOKEN, "rho0": "rho", "u": "up_quark", "d": "down_quark", "s": "strange_quark", "c": "charm_quark", "b": "bottom_quark", "t": "top_quark", "h": "higgs"}
TOKENS.pop("m", None)
QUARKS = {"muq": "up_quark_mass", "mdq": "down_quark_mass", "msq": "strange_quark_mass", "mcq": "charm_quark_mass", "mbq": "bottom_quark_mass", "mtq": "top_quark_mass"}
# other quantities by name: (name in hazma.parameters, tolerance)
OTHER = {"alpha_em": ("alpha_em", 1e-3), "alpha": ("alpha_em", 1e-3), "qe": ("qe", 1e-3), "gf": ("GF", 1e-3), "vh": ("vh", 1e-3), "fpi": ("fpi", 2e-3), "b0": ("b0", 0.06), "plank_mass": ("plank_mass", 1e-3),
         "sw": ("sin_theta_weak", 1e-3), "cw": ("cos_theta_weak", 1e-3), "cm_to_inv_mev": ("cm_to_inv_MeV", 1e-3), "m_higgs": ("higgs_mass", 2e-3), "pi": (math.pi, 1e-9)}
TIGHT = 1e-7
LEGACY = 3e-3      # how far the documented legacy masses may be from the modern ones
FITS = (("eta_gamma", "eta_gamma"), ("eta_omega", "eta_omega"), ("eta_phi", "eta_phi"), ("pi_k_k", "pi_k_k"), ("pi_omega", "omega_pi"), ("pi_phi", "phi_pi"), ("pi_pi", "pipi"),
        ("pi_pi_eta", "pi_pi_eta"), ("pi_pi_etap", "pi_pi_etap"), ("pi_pi_omega", "pi_pi_omega"), ("pi_pi_pi0", "pi_pi_pi0"), ("pi_pi_pi_pi", "four_pi"), ("k_k", "kk"))


def mass_of(name):
    """(particle, factor to MeV or None when either unit will do) that a constant's name denotes the mass of."""
    n = name.lower().strip("_")
    f = None
    if n.endswith("_gev"):
        n, f = n[:-4], 1e3
    m = re.fullmatch(r"mass_(.+)|(.+)_mass|m_(.+)|m(.+)", n)
    if not m:
        return None
    x = next(g for g in m.groups() if g)
    if m.group(4) and x == "b" and name != "mB":
        return None
    if m.group(2) and x not in TOKEN or x == "m":
        return None
    if m.group(2) and x == "ks":
        return None               # the K*(892)
    if x in ("b", "h") and name not in ("mB", "m_higgs", "higgs_mass", "charged_B_mass"):
        return None
    return (TOKEN[x], f) if x in TOKEN else None


class Cython:
    """Module-level numeric constants of .pxd and .pyx sources: DEF X = ..., cdef double X = ..."""

    def __init__(self, root):
        self.values = {}      # rel -> {name: value}
        for d, ds, fs in os.walk(os.path.join(root, "hazma")):
            ds[:] = [x for x in ds if x not in ("experimental", "__pycache__")]
            for f in fs:
                if f.endswith((".pxd", ".pyx", ".pxi")):
                    p = os.path.join(d, f)
                    self.read(root, os.path.relpath(p, root))

    def read(self, root, rel):
        if rel in self.values:
            return self.values[rel]
        ns = self.values[rel] = {}
        env = {}
        for line in open(os.path.join(root, rel), encoding="utf-8"):
            m = re.match(r"""include\s+["'](.+?)["']""", line)
            if m:
                q = os.path.normpath(os.path.join(os.path.dirname(rel), m[1]))
                if os.path.exists(os.path.join(root, q)):
                    env.update(self.read(root, q))
            m = re.match(r"(?:DEF|cdef\s+(?:static\s+)?(?:double|float|int))\s+(\w+)\s*=\s*([^#;]+)", line)
            if m:
                try:
                    v = self.eval(ast.parse(m[2].strip(), mode="eval").body, {**env, **ns})
                except (SyntaxError, ValueError, KeyError, ZeroDivisionError, OverflowError):
                    continue
                ns[m[1]] = v
        return ns

    MATH = {"M_PI": math.pi, "M_SQRT1_2": math.sqrt(0.5), "M_SQRT2": math.sqrt(2)}

    def eval(self, e, env):
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
            return float(e.value)
        if isinstance(e, ast.Name):
            return env[e.id] if e.id in env else self.MATH[e.id]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            return -self.eval(e.operand, env)
        if isinstance(e, ast.BinOp):
            a, b = self.eval(e.left, env), self.eval(e.right, env)
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b}[type(e.op)]()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("sqrt", "log", "exp") and len(e.args) == 1:
            return getattr(math, e.func.id)(self.eval(e.args[0], env))
        raise ValueError


def number(v):
    return isinstance(v, Num) and isinstance(v.const, (int, float)) and not isinstance(v.const, bool)


class Consts:
    def __init__(self, eng, root):
        self.eng, self.root = eng, root
        self.ns, self.where = {}, {}
        st = State()
        for mn, m in sorted(eng.modules.items()):
            if "experimental" in mn or mn.rpartition(".")[2].endswith("_test") or ".test" in mn:
                continue
            try:
                ns = eng.module_ns(m)
            except Exception:
                continue
            self.ns[mn] = {}
            for k, v in list(ns.items()):
                try:
                    v = eng.resolve_lazy(v, st)
                except Exception:
                    continue
                if number(v):
                    self.ns[mn][k] = float(v.const)
            self.where[mn] = m.rel
        for rel, ns in Cython(root).values.items():
            self.ns["cython:" + rel] = ns
            self.where["cython:" + rel] = rel

    def get(self, module, name):
        return self.ns.get(module, {}).get(name)


def close(a, b, tol):
    return abs(a - b) <= tol * max(abs(a), abs(b))


def show(x):
    return f"{x:.10g}"


def layers(c, rep):
    par = c.ns["hazma.parameters"]
    for p in PARTICLES:
        want = par.get(p + "_mass")
        if want is None:
            continue
        for mn, ns in sorted(c.ns.items()):
            if mn not in ("rust.constants.pdg", "cython:hazma/_utils/constants.pxd"):
                continue
            for k, v in sorted(ns.items()):
                m = mass_of(k)
                if m and m[0] == p:
                    yield f"{mn}:{k}", close(v, want, 1e-9), f"{k} is {show(v)}, hazma.parameters has {show(want)}", mn
    # the same name in the native and in the Cython table of the same set
    for a, b in (("rust.constants.pdg", "cython:hazma/_utils/constants.pxd"), ("rust.constants.legacy", "cython:hazma/_utils/legacy_parameters.pxd")):
        for k in sorted(set(c.ns.get(a, {})) & set(c.ns.get(b, {}))):
            yield f"{a}:{k}", close(c.ns[a][k], c.ns[b][k], 1e-12), f"{k} is {show(c.ns[a][k])} in {a} and {show(c.ns[b][k])} in {c.where[b]}", a
    # the legacy set: the native cross sections of the mediators against the legacy table
    leg = c.ns.get("rust.constants.legacy", {})
    lm = {mass_of(k)[0]: v for k, v in leg.items() if mass_of(k)}
    for p, v in sorted(lm.items()):
        want = par.get(p + "_mass")
        if want:
            yield f"rust.constants.legacy:{p}", close(v, want, LEGACY), f"the legacy mass of the {p} is {show(v)}, the modern one {show(want)}", "rust.constants.legacy"
    for mn in ("rust.kernels.scalar_xs", "rust.kernels.vector_xs"):
        for k, v in sorted(c.ns.get(mn, {}).items()):
            m = mass_of(k)
            if m and m[0] in lm:
                yield f"{mn}:{k}", close(v, lm[m[0]], 1e-9), f"{k} is {show(v)}, the legacy set has {show(lm[m[0]])}", mn
        for k in ("ALPHA_EM", "VH", "FPI"):
            v, w = c.get(mn, k), par.get({"ALPHA_EM": "alpha_em", "VH": "vh", "FPI": "fpi"}[k])
            if v is not None and w is not None:
                yield f"{mn}:{k}", close(v, w, 1e-6), f"{k} is {show(v)}, hazma.parameters has {show(w)}", mn
    # widths: the table of the Python layer against the native one
    for k, v in sorted(c.widths.items()):
        w = c.get("rust.constants.pdg", "WIDTH_" + k.upper())
        if w:
            yield f"hazma.parameters:SM_WIDTHS[{k}]", close(v, w, 0.05), f"the width of {k} is {show(v)}, the native table has {show(w)}", "hazma.parameters"


def named(c, rep):
    par = c.ns["hazma.parameters"]
    for mn, ns in sorted(c.ns.items()):
        if mn == "hazma.parameters":
            continue
        for k, v in sorted(ns.items()):
            key = f"{mn}:{k.strip('_')}"
            m = mass_of(k)
            if m:
                want = par.get(m[0] + "_mass")
                if want is None:
                    continue
                ok = close(v * m[1], want, LEGACY) if m[1] else close(v, want, LEGACY) or close(v * 1e3, want, LEGACY)
                yield key, ok, f"{k} is {show(v)}, the mass of the {m[0].replace('_', ' ')} is {show(want)} MeV", mn
                continue
            n = k.lower().strip("_")
            if n in QUARKS and par.get(QUARKS[n]):
                yield key, close(v, par[QUARKS[n]], 0.15), f"{k} is {show(v)}, the {QUARKS[n]} is {show(par[QUARKS[n]])}", mn
                continue
            if k[:1] == "Q":
                continue          # charges
            g = n[:-4] if n.endswith("_gev") else n
            if g in OTHER and not mn.startswith("rust.special"):
                w, tol = OTHER[g]
                w = par.get(w) if isinstance(w, str) else w
                if w is not None:
                    yield key, close(v * (1e3 if n != g else 1), w, tol), f"{k} is {show(v)}, should be {show(w)}", mn
    for t, v in sorted(c.masses.items()):
        p = TOKENS.get(t)
        want = par.get(p + "_mass") if p else 0.0 if t in ("ve", "vm", "vt", "a", "photon") else None
        if want is not None:
            yield f"hazma.parameters:standard_model_masses[{t}]", v == want or close(v, want, 1e-9), f"the table gives {t!r} the mass {show(v)}, should be {show(want)}", "hazma.parameters"
    yield from local_names(c)
    yield from quark_mixing(c)


def repeated(c, rep):
    """Literal constants that several modules of the package write out under the same telling name; branching fractions written out
    inside functions, against the native table."""
    by = {}
    for mn, m in sorted(c.eng.modules.items()):
        if mn not in c.ns or mn.startswith("rust.") or m.tree is None:
            continue
        for s in m.tree.body:
            t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
            if isinstance(t, ast.Name) and len(t.id) >= 8 and "_" in t.id.strip("_") and isinstance(s.value, ast.Constant) and isinstance(s.value.value, float):
                by.setdefault(t.id, {})[mn] = s.value.value
        for f in ast.walk(m.tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for s in ast.walk(f):
                t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else None
                if isinstance(t, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, float):
                    k = re.fullmatch(r"_?br_(\w+?)_to_(\w+)", t.id.lower())
                    if k:
                        d = "_".join("a" if x in ("gamma", "g", "photon") else x for x in k[2].split("_"))
                        w = c.get("rust.constants.pdg", f"BR_{k[1]}_TO_{d}".upper())
                        if w is not None:
                            yield f"{mn}:{f.name}: {t.id}", close(s.value.value, w, 1e-3), f"{t.id} is {show(s.value.value)}, the native table has {show(w)}", mn
    for k, ms in sorted(by.items()):
        if len(ms) > 1:
            vs = sorted(ms.items())
            yield f"repeated:{k}", all(close(v, vs[0][1], 1e-9) for _, v in vs), f"{k} is " + ", ".join(f"{show(v)} in {mn}" for mn, v in vs), vs[0][0]


def local_names(c):
    """Names inside functions that denote a particle's mass and are given a module-level constant."""
    par = c.ns["hazma.parameters"]
    for mn, m in sorted(c.eng.modules.items()):
        ns = c.ns.get(mn)
        if ns is None or mn.startswith("rust.") or m.tree is None:
            continue
        full = c.eng.module_ns(m)

        def value(e):
            if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
                return None                  # bare numbers: nothing says what they are
            if isinstance(e, ast.Name):
                return ns.get(e.id)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                o = c.eng.resolve_lazy(full[e.value.id], State()) if e.value.id in full else None
                if isinstance(o, ModV):
                    return c.get(o.mod.name, e.attr)
                return None
            if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div)) and isinstance(e.right, ast.Constant) and isinstance(e.right.value, (int, float)) and e.right.value in (1e3, 1e-3, 1000):
                a = value(e.left)
                return None if a is None else a * e.right.value if isinstance(e.op, ast.Mult) else a / e.right.value
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and isinstance(e.left, ast.Constant):
                return value(ast.BinOp(e.right, ast.Mult(), e.left))
            return None
        for f in ast.walk(m.tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            local = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
            for s in ast.walk(f):
                if isinstance(s, ast.Assign) and len(s.targets) == 1:
                    ts, vs = s.targets[0], s.value
                    ps = zip(ts.elts, vs.elts) if isinstance(ts, ast.Tuple) and isinstance(vs, ast.Tuple) and len(ts.elts) == len(vs.elts) else [(ts, vs)]
                    for t, e in ps:
                        if not isinstance(t, ast.Name) or any(isinstance(x, ast.Name) and x.id in local for x in ast.walk(e)):
                            continue
                        k = mass_of(t.id)
                        if k and not re.search("mu|tau|pi0|eta|omega|phi|rho|k0|kl|kaon|pion", t.id.lower()):
                            continue      # m_e, m_k, m_pi may stand for any lepton, kaon, pion there
                        v = value(e) if k else None
                        if v is None or par.get(k[0] + "_mass") is None:
                            continue
                        want = par[k[0] + "_mass"]
                        ok = close(v * k[1], want, LEGACY) if k[1] else close(v, want, LEGACY) or close(v * 1e3, want, LEGACY) or close(v, want * 1e3, LEGACY)
                        yield f"{mn}:{f.name}: {t.id}", ok, f"{t.id} in {f.name} is {show(v)}, the mass of the {k[0].replace('_', ' ')} is {show(want)} MeV", mn


def quark_mixing(c):
    """V<up><down> = M[row, column] with the row and column of those quarks."""
    for mn, m in sorted(c.eng.modules.items()):
        if mn not in c.ns or mn.startswith("rust.") or m.tree is None:
            continue
        for s in m.tree.body:
            t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
            k = isinstance(t, ast.Name) and re.fullmatch("V([uct])([dsb])", t.id)
            v = s.value if k else None
            if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Tuple) and len(v.slice.elts) == 2 and all(isinstance(x, ast.Constant) for x in v.slice.elts):
                ij = tuple(x.value for x in v.slice.elts)
                yield f"{mn}:{t.id}", ij == ("uct".index(k[1]), "dsb".index(k[2])), f"{t.id} is the element {ij} of the quark-mixing matrix", mn


def energy(m, a, b):
    """Energy of `a` in the decay of m at rest into a and b."""
    return (m * m + a * a - b * b) / (2 * m)


def from_masses(e, mu, pi, pi0, rho):
    r = e / mu
    return {
        "ENG_MU_PIRF": energy(pi, mu, 0), "ENG_MU_PI_RF": energy(pi, mu, 0), "ENG_E_PI_RF": energy(pi, e, 0), "ENU_E_PI_RF": energy(pi, 0, e), "ENU_MU_PI_RF": energy(pi, 0, mu),
        "ENG_GAM_MAX_MURF": (mu * mu - e * e) / (2 * mu), "ENG_GAM_MAX_PIRG": (mu * mu - e * e) * pi / (2 * mu * mu), "GAMMA_MU_PIRF": energy(pi, mu, 0) / mu, "GAMMA_MU": energy(pi, mu, 0) / mu,
        "BETA_MU_PIRF": math.sqrt(1 - (mu / energy(pi, mu, 0)) ** 2), "R2": r ** 2, "R": (r, r ** 2), "R4": r ** 4, "R6": r ** 6, "MASS_RATIO": r, "TWO_OVER_MASS_MU": 2 / mu, "XMAX_RF": 1 - r ** 2, "ONE_MINUS_R": 1 - r ** 2,
        "R_FACTOR": 1 / (1 - 8 * r ** 2 + 8 * r ** 6 - r ** 8 - 12 * r ** 4 * math.log(r ** 2)), "ENG_PI_CHARGED_RHO": energy(rho, pi, pi0), "ENG_PI0_CHARGED_RHO": energy(rho, pi0, pi), "ENG_PI_NEUTRAL_RHO": rho / 2,
        "EMAX_PI_RF": energy(pi, e, 0), "TWO_R": 2 * r, "ONE_PLUS_R2": 1 + r ** 2, "THREE_PLUS_THREE_R2": 3 + 3 * r ** 2, "NEG_THREE_MINUS_THREE_R2": -3 - 3 * r ** 2, "TWO_R4_TIMES_R2_MINUS_THREE": 2 * r ** 4 * (r ** 2 - 3), "TWENTY_FOUR_PI_MPI": 24 * math.pi * pi, "TWELVE_SQRT_2": 12 * math.sqrt(2), "MPI_SQ": pi ** 2,
    }


def derived(c, rep):
    q = c.ns["hazma.parameters"]

    def rel(module, name, want, tol, what):
        v = c.get(module, name)
        if v is None or want is None:
            return
        yield f"{module}:{name}", close(v, want, tol), f"{name} is {show(v)}, {what} is {show(want)}", module

    def has(*ks):
        return all(k in q for k in ks)
    P = "hazma.parameters"
    hbar_c = 197.3269804e-13      # MeV cm
    if has("alpha_em"):
        yield from rel(P, "alpha_em", 1 / 137.036, 1e-3, "the fine-structure constant")
        yield from rel(P, "qe", math.sqrt(4 * math.pi * q["alpha_em"]), 1e-6, "sqrt(4 pi alpha)")
    if has("GF"):
        yield from rel(P, "GF", 1.1663787e-11, 1e-4, "the Fermi constant in MeV^-2")
        yield from rel(P, "vh", (math.sqrt(2) * q["GF"]) ** -0.5, 1e-3, "(sqrt(2) GF)^(-1/2)")
    yield from rel(P, "cm_to_inv_MeV", 1 / hbar_c, 1e-4, "1/(hbar c)")
    if has("cm_to_inv_MeV"):
        yield from rel(P, "m_to_inv_MeV", 100 * q["cm_to_inv_MeV"], 1e-9, "100 times that of a centimeter")
        yield from rel(P, "barn_to_inv_MeV2", 1e-24 * q["cm_to_inv_MeV"] ** 2, 1e-4, "10^-24 cm^2")
        yield from rel(P, "s_to_inv_MeV", 2.99792458e10 * q["cm_to_inv_MeV"], 1e-6, "the light second")
        yield from rel(P, "sv_inv_MeV_to_cm3_per_s", 2.99792458e10 / q["cm_to_inv_MeV"] ** 2, 1e-4, "c/(MeV cm)^2")
    yield from rel(P, "g_to_MeV", 5.60958860e26, 1e-4, "a gram")
    if has("g_to_MeV"):
        yield from rel(P, "MeV_to_g", 1 / q["g_to_MeV"], 1e-9, "the inverse")
    if has("Msun_to_g"):
        yield from rel(P, "Msun_to_g", 1.98841e33, 2e-3, "the solar mass")
        yield from rel(P, "g_to_Msun", 1 / q["Msun_to_g"], 1e-9, "the inverse")
    yield from rel(P, "plank_mass", 1.220890e22, 1e-3, "the Planck mass")
    if has("cm_to_inv_MeV", "plank_mass"):
        h0 = 1e7 / 3.0856775815e24 / 2.99792458e10 / q["cm_to_inv_MeV"]        # 100 km/s/Mpc in MeV
        yield from rel(P, "rho_crit", 3 * h0 ** 2 * q["plank_mass"] ** 2 / (8 * math.pi) * q["cm_to_inv_MeV"] ** 3, 1e-3, "3 H0^2/(8 pi G) for h = 1 in MeV/cm^3")
    yield from rel(P, "sm_entropy_density_today", 2891.2, 5e-3, "that of 2.7255 K and 3.93 degrees of freedom in cm^-3")
    yield from rel(P, "omega_h2_cdm", 0.1198, 2e-2, "the measured dark-matter density")
    if has("s_to_inv_MeV"):
        for n, tau in (("k_width", 1.238e-8), ("kl_width", 5.116e-8)):
            yield from rel(P, n, 1 / (tau * q["s_to_inv_MeV"]), 1e-2, f"hbar over the lifetime of {tau} s")
    for n, w in (("rho_width", 147.4), ("fk", 110.379), ("feta", 57.8), ("fpi", 92.2138), ("fpi0", 91.924), ("gv", 67.0), ("fv", 153.0)):
        yield from rel(P, n, w, 3e-2, "the measured value")
    if has("sin_theta_weak", "cos_theta_weak", "sin_theta_weak_sqrd"):
        yield from rel(P, "sin_theta_weak", math.sqrt(q["sin_theta_weak_sqrd"]), 1e-9, "the root of its square")
        yield from rel(P, "cos_theta_weak", math.sqrt(1 - q["sin_theta_weak_sqrd"]), 1e-9, "that of the same angle")
    yield from rel(P, "Qu", 2 / 3, 1e-9, "the up-quark charge")
    yield from rel(P, "Qd", -1 / 3, 1e-9, "the down-quark charge")
    yield from rel(P, "Qe", -1.0, 1e-9, "the electron charge")
    if has("charged_pion_mass", "neutral_pion_mass"):
        yield from rel(P, "pion_mass_chiral_limit", (q["charged_pion_mass"] + q["neutral_pion_mass"]) / 2, 1e-3, "the mean pion mass")
    if has("charged_kaon_mass", "neutral_kaon_mass"):
        yield from rel(P, "kaon_mass_chiral_limit", (q["charged_kaon_mass"] + q["neutral_kaon_mass"]) / 2, 1e-3, "the mean kaon mass")
    if has("kaon_mass_chiral_limit", "pion_mass_chiral_limit", "up_quark_mass", "down_quark_mass"):
        yield from rel(P, "b0", q["pion_mass_chiral_limit"] ** 2 / (q["up_quark_mass"] + q["down_quark_mass"]), 1e-2, "m_pi^2/(m_u + m_d)")
    for mn in ("rust.constants.pdg", "rust.constants.legacy"):
        e, mu = c.get(mn, "MASS_E"), c.get(mn, "MASS_MU")
        if e and mu:
            yield from rel(mn, "RATIO_E_MU_MASS_SQ", (e / mu) ** 2, 1e-8, "(m_e/m_mu)^2")
        d = c.get(mn, "DECAY_CONST_PI")
        if d and has("fpi"):
            yield from rel(mn, "DECAY_CONST_PI", math.sqrt(2) * q["fpi"], 2e-3, "sqrt(2) f_pi")
        if c.get(mn, "ALPHA_EM"):
            yield from rel(mn, "ALPHA_EM", q.get("alpha_em"), 1e-3, "the fine-structure constant")
    sets = []
    for ns in (q, c.ns.get("rust.constants.pdg", {}), c.ns.get("rust.constants.legacy", {})):
        ms = {mass_of(k)[0]: v for k, v in ns.items() if mass_of(k)}
        if all(x in ms for x in ("electron", "muon", "charged_pion", "neutral_pion")):
            sets.append(from_masses(*(ms.get(x) or q.get("rho_mass") for x in ("electron", "muon", "charged_pion", "neutral_pion", "rho"))))
    if sets:
        for mn, ns in sorted(c.ns.items()):
            if not mn.startswith(("rust.kernels.", "rust.constants.derived", "cython:hazma/spectra")):
                continue
            for k in sorted(ns):
                ws = [x for w in sets if w.get(k) is not None for x in (w[k] if isinstance(w[k], tuple) else (w[k],))]
                if ws:
                    yield f"{mn}:{k}", any(close(ns[k], w, TIGHT) for w in ws), f"{k} is {show(ns[k])}, the value that follows from the masses is {show(ws[0])}", mn
    for mn, ns in sorted(c.ns.items()):
        if mn.startswith("rust."):
            for k, w in (("PI", math.pi), ("PI_3", math.pi ** 3), ("PI_4", math.pi ** 4), ("PI_5", math.pi ** 5), ("LN_4", math.log(4)), ("LN_16", math.log(16)), ("THREE_PI", 3 * math.pi),
                         ("PI_SQ_OVER_SIX", math.pi ** 2 / 6), ("FPI", c.get("hazma.parameters", "fpi"))):
                if k in ns and w is not None:
                    yield from rel(mn, k, w, 1e-4 if k == "FPI" else 1e-14, "the value it is named after")
            for k in ns:
                m = re.fullmatch(r"(ONE|TWO|THREE|FOUR|SIX|EIGHT|TWELVE)_(R|R2|R4|R6)", k)
                if m and m[2] in ns:
                    f = {"ONE": 1, "TWO": 2, "THREE": 3, "FOUR": 4, "SIX": 6, "EIGHT": 8, "TWELVE": 12}[m[1]]
                    yield from rel(mn, k, f * ns[m[2]], 1e-12, f"{f} times {m[2]}")
            for k in ns:
                m = re.fullmatch(r"(F_\w+)_SQ", k)
                if m and m[1] in ns:
                    yield from rel(mn, k, ns[m[1]] ** 2, 1e-12, f"the square of {m[1]}")
    V = c.ckm
    if len(V) == 3 and all(len(r) == 3 for r in V):
        for i, r in enumerate(V):
            s = sum(abs(x) ** 2 for x in r)
            yield f"hazma.parameters:ckm[{i}]", close(s, 1, 1e-2), f"row {i} of the quark-mixing matrix has the norm {show(s)}", "hazma.parameters"


PARENT = re.compile(r"(?:BR_)?(\w+?)_(?:TO|BR)_(\w+)")


def branching(c, rep):
    for mn, ns in sorted(c.ns.items()):
        if mn not in ("rust.constants.pdg", "rust.constants.legacy", "cython:hazma/_utils/constants.pxd", "cython:hazma/_utils/legacy_parameters.pxd"):
            continue
        by = {}
        for k, v in sorted(ns.items()):
            m = PARENT.fullmatch(k)
            if m and ("BR" in k or mn.endswith("pdg") and k.startswith("RHOP_TO")):
                by.setdefault(m[1], []).append((k, v))
                yield f"{mn}:{k}", 0 <= v <= 1, f"{k} is {show(v)}", mn
        for p, xs in sorted(by.items()):
            s = sum(v for _, v in xs)
            yield f"{mn}:{p}", s <= 1.03, f"the {len(xs)} branching fractions of {p} add up to {show(s)}", mn


def lines(c, rep):
    """Line { energy, weight } records of the tabulated photon spectra."""
    m = c.eng.modules.get("rust.kernels.photon_tables")
    if m is None:
        return
    ns = c.ns["rust.kernels.photon_tables"]
    pdg = c.ns["rust.constants.pdg"]
    masses = {}
    for k, v in pdg.items():
        if k.startswith("MASS_"):
            masses[k[5:]] = v
    defs = {}
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
            defs[s.targets[0].id] = s.value
        elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            defs[s.target.id] = s.value

    def fraction(e, d=0):
        """(BR constant, factor) in a weight expression."""
        for n in ast.walk(e):
            x = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else ""
            if x.startswith("BR_"):
                return x
            if x in defs and d < 3:
                r = fraction(defs[x], d + 1)
                if r:
                    return r
        return None

    def val(e):
        r = c.eng.eval(e, State(), c.eng_root(m))
        return float(r.const) if number(r) else None
    for n in ast.walk(m.tree):
        if not isinstance(n, ast.Call) or (n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", "")) != "Line":
            continue
        kw = {k.arg: k.value for k in n.keywords}
        if not {"energy", "weight"} <= set(kw):
            continue
        br = fraction(kw["weight"])
        mm = PARENT.fullmatch(br or "")
        e, w = val(kw["energy"]), val(kw["weight"])
        if not mm or e is None or w is None:
            rep.open("lines", ast.unparse(n)[:80], "not evaluated")
            continue
        par, rest = mm[1], mm[2].split("_")
        if par not in masses or rest[-1] != "A" or len(rest) != 2 or rest[0] not in (*masses, "A"):
            rep.open("lines", br, "not a decay into a photon and one other particle")
            continue
        two = rest[0] == "A"
        want = energy(masses[par], 0, 0 if two else masses[rest[0]])
        yield f"photon_tables:{br}: energy", close(e, want, 1e-3), f"the photon line of {par} -> {' '.join(rest)} is at {show(e)} MeV, the photon has {show(want)} MeV", "rust.kernels.photon_tables"
        n_ = 2 if two else 1
        yield f"photon_tables:{br}: weight", close(w, n_ * pdg[br], 1e-9), f"the photon line of {par} -> {' '.join(rest)} has the weight {show(w)}, {n_} photons times the branching fraction {show(pdg[br])}", "rust.kernels.photon_tables"


def numbers(path):
    """The fitted numbers of a source file: literals of two significant digits or more."""
    out = set()
    for n in ast.walk(ast.parse(open(path, encoding="utf-8").read())):
        if isinstance(n, ast.Constant) and isinstance(n.value, float):
            v = abs(n.value)
            if v and len(f"{v:.15e}".split("e")[0].rstrip("0").replace(".", "")) >= 2:
                out.add(v)
    return out


def fits(c, rep):
    for a, b in FITS:
        p, q = f"hazma/form_factors/vector/_{a}.py", f"hazma/vector_mediator/form_factors/{b}.py"
        try:
            x, y = numbers(os.path.join(c.root, p)), numbers(os.path.join(c.root, q))
        except (OSError, SyntaxError):
            continue
        rep.count("fitted numbers in both implementations", len(x & y))
        if len(x & y) < 4:
            rep.open("fits", a, "too few numbers in common")
            continue
        u, v = sorted(x - y), sorted(y - x)
        # a number of one file that comes near a number of the other: the same constant with two values
        pairs = [(s, t) for s in u for t in v if close(s, t, 0.6) or sorted(f"{s:.6g}") == sorted(f"{t:.6g}")]
        yield f"form_factors:{a}", not pairs, f"the form factor {a} has {', '.join(f'{s:g} where the other implementation has {t:g}' for s, t in pairs[:3])}", "hazma.form_factors.vector._" + a


def run(rep, repo, tier):
    box = []

    def go():
        try:
            eng = make_engine(repo, masses=False)
            c = Consts(eng, repo)
            c.eng_root = lambda m: __import__("sa.project", fromlist=["root_ctx"]).root_ctx(eng, m)
            st = State()
            ns = eng.module_ns(eng.modules["hazma.parameters"])
            c.widths, c.masses = {}, {}
            for name, into in (("SM_WIDTHS", c.widths), ("standard_model_masses", c.masses)):
                v = eng.resolve_lazy(ns[name], st) if name in ns else None
                if isinstance(v, Ref) and eng.get(st, v.id).kind == "dict":
                    for k, x in eng.get(st, v.id).items.items():
                        x = eng.resolve_lazy(x, st)
                        if number(x):
                            into[str(getattr(k, "s", k))] = float(x.const)
            c.ckm = []
            v = next((eng.resolve_lazy(ns[k], st) for k in ("CKM", "ckm") if k in ns), None)
            el = eng.elements(v, st) if v is not None else None
            for r in (el[0] if el and el[1] is None else []):
                e2 = eng.elements(r, st)
                c.ckm.append([x.const for x in e2[0] if isinstance(x, Num) and isinstance(x.const, (int, float, complex))] if e2 and e2[1] is None else [])
            for rule, fn in (("layers", layers), ("layers", repeated), ("named", named), ("derived", derived), ("branching", branching), ("lines", lines), ("fits", fits)):
                for key, ok, msg, mn in fn(c, rep):
                    rep.obligation(rule, key)
                    if not ok:
                        rep.violation(rule, key, msg, c.where.get(mn, mn))
            rep.count("modules whose constants were evaluated", len(c.ns))
            rep.count("constants", sum(map(len, c.ns.values())))
        except BaseException as e:      # handed to the caller
            box.append(e)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if box:
        raise box[0]
    for rule, n in (("layers", 150), ("named", 150), ("derived", 50), ("branching", 150), ("lines", 10), ("fits", 10)):
        rep.floor(rule, n)
