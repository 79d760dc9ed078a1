"""Every (model, quantity, channel) value of the built-in models, computed abstractly."""
from .models import *
from .models import M, K, X
from .project import make_engine, atom
from .values import *
from .values import E

# nominal masses (MeV) of the particles that channel names are made of, and the named constant that carries them
PART = {
    "e": (0.51099895, "electron_mass"), "mu": (105.658375, "muon_mass"), "tau": (1776.86, "tau_mass"),
    "pi": (139.57039, "charged_pion_mass"), "pi0": (134.9768, "neutral_pion_mass"), "eta": (547.862, "eta_mass"),
    "etap": (957.78, "eta_prime_mass"), "k": (493.677, "charged_kaon_mass"), "k0": (497.611, "neutral_kaon_mass"),
    "rho": (775.26, "rho_mass"), "omega": (782.66, "omega_mass"), "phi": (1019.461, "phi_mass"),
    "g": (0.0, None), "gamma": (0.0, None), "a": (0.0, None), "ve": (0.0, None), "vm": (0.0, None), "vt": (0.0, None),
}
LEPTONS = {"e", "mu", "tau"}
NEUTRINOS = {"ve", "vm", "vt"}
MASSLESS = {"g", "gamma", "a"} | NEUTRINOS
MEDIATOR = {"s": "ms", "v": "mv"}
RHN_V = {"v": 0.0}
LIGHT = ["ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly"]
GEV = ["VectorMediatorGeV", "KineticMixingGeV", "BLGeV"]
ALLM = LIGHT + GEV + ["RHNeutrino"]


def tokens(chan):
    return chan.split() if isinstance(chan, str) else None


def masses(model, chan):
    """({atom: coefficient}, constant) of the sum of the final-state masses, or None if a token is unknown."""
    co, c = {}, 0.0
    for t in tokens(chan):
        if model != "RHNeutrino" and t in MEDIATOR and MEDIATOR[t] in SPECS[model][1]:
            co[MEDIATOR[t]] = co.get(MEDIATOR[t], 0) + 1
        elif t == "x":
            co["mx"] = co.get("mx", 0) + 1
        elif t in PART:
            c += PART[t][0]
        elif model == "RHNeutrino" and t == "v":
            pass
        else:
            return None
    return co, c


def const_names(model, chan):
    return {PART[t][1] for t in tokens(chan) if t in PART and PART[t][1]}


WIDTH_ATTR = {"ScalarMediator": "width_s", "HiggsPortal": "width_s", "HeavyQuark": "width_s",
              "VectorMediator": "width_v", "KineticMixing": "width_v", "QuarksOnly": "width_v"}


class ChannelValues:
    """values[(quantity, channel)] for one model; quantity in sigma/width."""

    def __init__(self, eng, name, over=None, isolate_width=True, width_dim=M, vev_dim=None, flavor=None, energy_dim=M):
        self.eng, self.name = eng, name
        ov = dict(over or {})
        if flavor:
            ov["flavor"] = flavor
        self.label = name + (f"({flavor})" if flavor else "")
        eng.steps = 0
        self.ev0 = len(eng.events)
        self.m = Model(eng, name, ov)
        m = self.m
        self.values = {}
        self.errors = []
        self.energy = {}
        base = {}
        for q, meth in (("width", "partial_widths"), ("width", "decay_widths")):
            if m.cls.lookup(meth)[0] is None:
                continue
            self._collect(base, q, meth, "MASS", [])
        self.values.update(base)
        if m.cls.lookup("annihilation_cross_sections")[0] is not None:
            hook = eng.call_hook
            if isolate_width:
                if name in WIDTH_ATTR:
                    m.set(WIDTH_ATTR[name], atom("WIDTH", width_dim, kind="scalar"))
                    if vev_dim is not None and WIDTH_ATTR[name] == "width_s":
                        m.set("vs", atom("VEV", vev_dim, kind="scalar"))
                else:
                    def h(engine, f, args, kw, node, st, ctx, prev=hook):
                        if isinstance(f, Func) and f.name == "width_v" and f.cls is not None:
                            return atom("WIDTH", width_dim, kind="scalar")
                        return prev(engine, f, args, kw, node, st, ctx) if prev else None
                    eng.call_hook = h
            try:
                self._collect(self.values, "sigma", "annihilation_cross_sections", "Q", [atom("Q", energy_dim, kind="scalar")])
            finally:
                eng.call_hook = hook
        self.events = eng.events[self.ev0:]

    def _collect(self, out, q, meth, en, args):
        self.eng.steps = 0
        try:
            r = self.m.call(meth, *args)
        except Exception as e:  # an abstraction failure of one model never decides anything
            self.errors.append(f"{self.label}.{meth}: {type(e).__name__}: {e}")
            return
        it, rest = self.m.items(r)
        if it is None:
            self.errors.append(f"{self.label}.{meth}: result is not a known dictionary")
            return
        if rest is not None:
            self.errors.append(f"{self.label}.{meth}: further unknown entries")
        for k, v in it.items():
            if isinstance(k, str) and k != "total":
                out[(q, k)] = v

    def energy_atom(self, q):
        if q == "sigma":
            return "Q"
        if self.name == "RHNeutrino":
            return "mx"
        return "ms" if "ms" in self.m.args else "mv"


def variants():
    for n in ALLM:
        if n == "RHNeutrino":
            for f in ("e", "mu", "tau"):
                yield n, f
        else:
            yield n, None
