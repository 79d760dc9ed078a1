"""The public single-particle decay spectra `dnde_<messenger>_<particle>` as opaque sources.

With `Kernels(eng).install()` a call of one of them is not entered: it is recorded, and its value carries
`lin {(messenger, particle): (1, False)}`, so that what a composed spectrum is made of can be read off the result.
"""
import re

from .values import *
from .values import E
from .interp import Lazy

LONG = {"mu": "muon", "pi": "charged_pion", "pi0": "neutral_pion", "k": "charged_kaon", "kl": "long_kaon", "ks": "short_kaon", "eta": "eta",
        "etap": "eta_prime", "rho": "charged_rho", "rho0": "neutral_rho", "omega": "omega", "phi": "phi"}
SHORT = {v: k for k, v in LONG.items()}
MESSENGERS = ("photon", "positron", "neutrino")
FLAVORS = ("e", "mu", "tau")
FSR_RE = re.compile(r"^dnde_photon_ap_(fermion|scalar)$")


def ident(f):
    """Identity of a callable as written in the source."""
    if isinstance(f, Func):
        return ("def", id(f.node))
    return ("obj", id(f))


class Call:
    __slots__ = ("kind", "messenger", "particle", "energy", "product", "flavor", "mass", "charge", "where", "stack")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def __repr__(self):
        return "Call(" + ", ".join(f"{k}={getattr(self, k)}" for k in self.__slots__ if getattr(self, k) is not None) + ")"


class Kernels:
    def __init__(self, eng, modname="hazma.spectra"):
        self.eng = eng
        self.table = {}     # ident -> (messenger, particle)
        self.named = {}     # (messenger, particle) -> callable
        self.fsr = {}       # ident -> 'fermion' | 'scalar'
        self.entry = {}     # messenger -> public n-body function
        self.calls = []
        self.on = True
        m = eng.modules.get(modname)
        ns = eng.module_ns(m) if m is not None else {}
        from .interp import State
        st = State()
        for n, v in sorted(ns.items()):
            if isinstance(v, Lazy):
                v = eng.resolve_lazy(v, st)
            g = re.match(r"^dnde_(photon|positron|neutrino)(?:_(\w+))?$", n)
            if not g or not isinstance(v, (Func, Partial, Ext)):
                continue
            if g.group(2) is None:
                self.entry[g.group(1)] = v
            elif g.group(2) in SHORT:
                k = (g.group(1), SHORT[g.group(2)])
                self.named[k] = v
                self.table[ident(v)] = k
            elif FSR_RE.match(n):
                self.fsr[ident(v)] = FSR_RE.match(n).group(1)

    def install(self, fsr=True):
        prev = self.eng.call_hook

        def hook(engine, f, args, kw, node, st, ctx):
            if self.on:
                k = self.table.get(ident(f)) if isinstance(f, (Func, Partial, Ext)) else None
                if k is not None:
                    return self.kernel(k, f, args, kw, node, st, ctx)
                s = self.fsr.get(ident(f)) if fsr and isinstance(f, (Func, Partial)) else None
                if s is not None:
                    return self.splitting(s, f, args, kw, node, st, ctx)
            return prev(engine, f, args, kw, node, st, ctx) if prev else None
        self.eng.call_hook = hook
        return self

    def bindargs(self, f, args, kw):
        """name -> value of the call's parameters, by position for what was passed by position."""
        node = f.node if isinstance(f, Func) else None
        names = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs] if node is not None else []
        out = dict(zip(names, args))
        out.update(kw)
        return names, out

    def kernel(self, k, f, args, kw, node, st, ctx):
        names, b = self.bindargs(f, args, kw)
        pos = [b.get(n) for n in names[:2]] if names else list(args[:2])
        fl = b.get("flavor")
        c = Call(kind="decay", messenger=k[0], particle=k[1], product=pos[0] if pos else None, energy=pos[1] if len(pos) > 1 else None,
                 flavor=fl.s if isinstance(fl, Str) else None if fl is None or isinstance(fl, NoneV) else "?", where=f"{ctx.module.rel}:{getattr(node, 'lineno', 0)}")
        self.calls.append(c)
        deps = self.eng.deps_many([x for x in pos if x is not None], st)

        def one(name):
            return unknown(deps=deps | {("kernel", name, k[1])}, lin={(name, k[1]): (1.0, False)})
        if k[0] != "neutrino":
            return one(k[0])
        if c.flavor in FLAVORS:
            return one("nu_" + c.flavor)
        r = one("neutrino")
        r.poly = tuple(one("nu_" + x) for x in FLAVORS)
        return r

    def splitting(self, s, f, args, kw, node, st, ctx):
        names, b = self.bindargs(f, args, kw)
        vals = [b.get(n) for n in names]
        by = dict(zip(names, vals))
        c = Call(kind="fsr", messenger="photon", particle=s, product=vals[0] if vals else None, energy=by.get("s", vals[1] if len(vals) > 1 else None),
                 mass=by.get("mass"), charge=by.get("charge"), where=f"{ctx.module.rel}:{getattr(node, 'lineno', 0)}")
        self.calls.append(c)
        return unknown(deps=self.eng.deps_many([x for x in vals if x is not None], st), lin={("fsr", s): (1.0, False)})

    def take(self):
        c, self.calls = self.calls, []
        return c
