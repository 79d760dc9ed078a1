"""Engine set up for this repository: units and origins of the named constants, entry helpers."""
import re

from .values import *
from .values import E
from .interp import Engine, State, Ctx, Dead, Budget

MEV = D(MeV=1)
# named physical constants of hazma.parameters by name pattern -> dimension (natural units, MeV)
PARAM_DIMS = [
    (r".*_mass(_chiral_limit)?$", MEV), (r".*_width$", MEV), (r"^GF$", D(MeV=-2)), (r"^vh$", MEV), (r"^temp_cmb_formation$", MEV),
    (r"^(fpi0|fpi|fk|feta|b0|nlo_lec_mu)$", MEV), (r"^(G8|G27)$", D0), (r"^(gv|fv)$", MEV),
    (r"^(alpha_em|qe|sin_theta_weak.*|cos_theta_weak|Qu|Qd|Qe|V[uct][dsb]|Lr\d|L\d|Er|Gr|omega_h2_cdm|dimensionless_hubble_constant)$", D0),
    (r"^rho_crit$", D(MeV=1, cm=-3)), (r"^sm_entropy_density_today$", D(cm=-3)),
    (r"^sv_inv_MeV_to_cm3_per_s$", D(MeV=2, cm=3, s=-1)), (r"^cm_to_inv_MeV$", D(MeV=-1, cm=-1)), (r"^s_to_inv_MeV$", D(MeV=-1, s=-1)),
    (r"^g_to_MeV$", D(MeV=1, g=-1)), (r"^MeV_to_g$", D(MeV=-1, g=1)), (r"^(Msun_to_g|g_to_Msun)$", None), (r"^m_to_inv_MeV$", None),
    (r"^barn_to_inv_MeV2$", None), (r"^speed_of_light$", None),
]


# interpolations of data tables: unit of the tabulated quantity
TABULATED = {
    ("hazma.relic_density._thermal_functions", "_sm_sqrt_gstar"): D0, ("hazma.relic_density._thermal_functions", "_sm_heff"): D0,
    ("hazma.relic_density._thermal_functions", "_sm_heff_deriv"): D(MeV=-1), ("hazma.cmb", "f_eff_g"): D0, ("hazma.cmb", "f_eff_ep"): D0,
    ("hazma.limits._cmb", "f_eff_g"): D0, ("hazma.limits._cmb", "f_eff_ep"): D0,
}


def param_dim(name):
    for p, d in PARAM_DIMS:
        if re.match(p, name):
            return d
    return "none"


RUST_PARTICLES = {"E": "electron", "MU": "muon", "TAU": "tau", "PI0": "neutral_pion", "PI": "charged_pion", "ETA": "eta", "ETAP": "eta_prime",
                  "K": "charged_kaon", "K0": "neutral_kaon", "KL": "long_kaon", "KS": "short_kaon", "RHO": "rho", "OMEGA": "omega", "PHI": "phi",
                  "UQ": "up_quark", "DQ": "down_quark", "SQ": "strange_quark"}
RUST_OTHER = {"VH": ("vh", MEV), "ALPHA_EM": ("alpha_em", D0), "B0": ("b0", MEV), "FPI": ("fpi", MEV), "DECAY_CONST_PI": ("decay_const_pi", MEV)}


def rust_const(name):
    """(canonical constant name, dimension) of a named constant of the native crate, or None."""
    if name in RUST_OTHER:
        return RUST_OTHER[name]
    m = re.match(r"^(MASS_|M)([A-Z0-9]+)$", name)
    if m and m.group(2) in RUST_PARTICLES:
        return RUST_PARTICLES[m.group(2)] + "_mass", MEV
    m = re.match(r"^WIDTH_([A-Z0-9]+)$", name)
    if m and m.group(1) in RUST_PARTICLES:
        return RUST_PARTICLES[m.group(1)] + "_width", MEV
    if re.match(r"^(BR_|RHOP_TO_|F_[AV]_)", name):
        return name.lower(), D0
    return None


def global_hook(module, name, v):
    if module.rust:
        if isinstance(v, Num) and v.dim is LIT and not v.deps and isinstance(v.const, (int, float)):
            c = rust_const(name)
            if c is not None:
                return v.copy(dim=c[1], deps=frozenset([("const", c[0])]), kind="scalar")
        return v
    if module.name == "hazma.parameters" and isinstance(v, Num) and isinstance(v.const, (int, float, complex)) or \
            (module.name == "hazma.parameters" and isinstance(v, Num) and param_dim(name) != "none"):
        d = param_dim(name)
        if d == "none":
            d = v.dim
        return v.copy(dim=d, deps=frozenset([("const", name)]), kind="scalar")
    if isinstance(v, Num) and (module.name, name) in TABULATED:
        v = v.copy(dim=TABULATED[(module.name, name)])
        v.kind = "fn"
        v.argdim = MEV
    return v


def no_mass_hook(module, name, v):
    """As global_hook, with every physical dimension dropped (only coupling degrees are tracked)."""
    v = global_hook(module, name, v)
    if isinstance(v, Num) and v.dim is not LIT and v.dim is not None:
        v = v.copy(dim=D0)
    return v


def make_engine(root="/repo", masses=True, **kw):
    e = Engine(root, **kw)
    e.global_hook = global_hook if masses else no_mass_hook
    return e


def atom(name, dim=None, kind=None, alias=E, const=None):
    return Num(const=const, dim=dim, form={("in", name): 1.0}, deps=frozenset([("in", name)]), alias=alias, kind=kind)


def root_ctx(eng, module):
    eng.module_frame(module)
    return Ctx(module.frame, module, None, "<entry>", None, 0, ())


class Entry:
    """One analysed object/function with its own abstract state."""

    def __init__(self, eng, modname):
        self.eng = eng
        self.module = eng.modules[modname]
        self.ctx = root_ctx(eng, self.module)
        self.st = State()

    def name(self, n):
        v = self.eng.module_ns(self.module, self.st).get(n)
        if v is None:
            raise KeyError(f"{self.module.name}.{n}")
        return self.eng.resolve_lazy(v, self.st)

    def call(self, f, args=(), kw=None, st=None):
        st = self.st if st is None else st
        return self.eng.call(f, list(args), dict(kw or {}), st, self.ctx, self.module.tree)

    def attr(self, o, n, st=None):
        return self.eng.getattr(o, n, self.st if st is None else st, self.ctx, self.module.tree)

    def set(self, o, n, v, st=None):
        self.eng.setattr(o, n, v, self.st if st is None else st, self.ctx, self.module.tree)


def show(eng, st, v, d=0):
    if isinstance(v, Ref):
        h = eng.get(st, v.id)
        if h.kind == "list":
            return "[" + ", ".join(show(eng, st, x, d + 1) for x in h.elems) + (", *" + show(eng, st, h.rest, d + 1) if h.rest is not None else "") + "]"
        if h.kind == "dict":
            return "{" + ", ".join(f"{k}: {show(eng, st, x, d + 1)}" for k, x in h.items.items()) + (", **" + show(eng, st, h.rest, d + 1) if h.rest is not None else "") + "}"
        if d > 1:
            return f"<{h.cls.name}>"
        return f"<{h.cls.name} " + ", ".join(f"{k}={show(eng, st, x, d + 1)}" for k, x in h.attrs.items()) + ">"
    if isinstance(v, Tup):
        return "(" + ", ".join(show(eng, st, x, d + 1) for x in v.elems) + ")"
    return repr(v)
