"""The built-in models, constructed abstractly through their real constructors."""
from .values import *
from .values import E
from .project import Entry, atom, make_engine

M = D(MeV=1)
K = D(K=1)
X = D(X=1)

# model -> (module, class, constructor arguments: name -> dimension or a fixed string)
SPECS = {
    "ScalarMediator": ("hazma.scalar_mediator", {"mx": M, "ms": M, "gsxx": X, "gsff": K, "gsGG": K, "gsFF": K, "lam": M}),
    "HiggsPortal": ("hazma.scalar_mediator", {"mx": M, "ms": M, "gsxx": X, "stheta": K}),
    "HeavyQuark": ("hazma.scalar_mediator", {"mx": M, "ms": M, "gsxx": X, "gsQ": K, "mQ": M, "QQ": D0}),
    "VectorMediator": ("hazma.vector_mediator", {"mx": M, "mv": M, "gvxx": X, "gvuu": K, "gvdd": K, "gvss": K, "gvee": K, "gvmumu": K}),
    "KineticMixing": ("hazma.vector_mediator", {"mx": M, "mv": M, "gvxx": X, "eps": K}),
    "QuarksOnly": ("hazma.vector_mediator", {"mx": M, "mv": M, "gvxx": X, "gvuu": K, "gvdd": K, "gvss": K}),
    "VectorMediatorGeV": ("hazma.vector_mediator", {"mx": M, "mv": M, "gvxx": X, "gvuu": K, "gvdd": K, "gvss": K, "gvee": K, "gvmumu": K, "gvveve": K, "gvvmvm": K, "gvvtvt": K}),
    "KineticMixingGeV": ("hazma.vector_mediator", {"mx": M, "mv": M, "gvxx": X, "eps": K}),
    "BLGeV": ("hazma.vector_mediator", {"mx": M, "mv": M, "gvxx": X, "g": K}),
    "RHNeutrino": ("hazma.rh_neutrino", {"mx": M, "theta": K, "flavor": "e"}),
    "SingleChannelAnn": ("hazma.single_channel", {"mx": M, "fs": "e e", "sigma": D(MeV=-2)}),
    "SingleChannelDec": ("hazma.single_channel", {"mx": M, "fs": "e e", "width": M}),
}


class Model:
    def __init__(self, eng, name, over=None, prefix=""):
        self.eng, self.name = eng, name
        mod, spec = SPECS[name]
        self.spec = dict(spec)
        self.entry = Entry(eng, mod)
        self.st = self.entry.st
        self.cls = self.entry.name(name)
        self.args = {}
        for k, d in spec.items():
            if over and k in over:
                d = over[k]
            if isinstance(d, str):
                self.args[k] = Str(d)
            elif isinstance(d, V):
                self.args[k] = d
            else:
                self.args[k] = atom(prefix + k, d, kind="scalar")
        self.obj = self.entry.call(self.cls, [], dict(self.args))

    def attr(self, n):
        return self.entry.attr(self.obj, n)

    def call(self, n, *a, **k):
        return self.entry.call(self.attr(n), list(a), k)

    def set(self, n, v):
        self.entry.set(self.obj, n, v)

    def get(self, ref):
        return self.eng.get(self.st, ref.id)

    def items(self, ref):
        """dict value -> python dict"""
        if isinstance(ref, Ref):
            h = self.get(ref)
            if h.kind == "dict":
                return dict(h.items), h.rest
        return None, None

    def strings(self, ref):
        el = self.eng.elements(ref, self.st)
        if el is None or el[1] is not None:
            return None
        return [x.s for x in el[0] if isinstance(x, Str)]
