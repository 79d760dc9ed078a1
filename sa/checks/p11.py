"""Reproducible Monte Carlo: where random numbers come from. Every draw reached from a function that takes a seed (or a generator) comes
from a generator made from that seed, also when the seed is zero; and no module draws from, or reseeds, a process-wide generator."""
import ast
import re

from ..drive import excluded, sweep
from ..project import make_engine
from ..values import *

RULES = {
    "seed": "every generator a seeded function draws from depends on the seed it was given, zero included",
    "draw": "every random number drawn under a seeded function comes from such a generator",
    "global": "no use of numpy's or the standard library's process-wide random state",
}
SEED = re.compile(r"(^|_)(seed|seeds|rng|random_state|seed_seq|seed_sequence|seedseq)($|_)")
# members of numpy.random / random that do not touch the process-wide generator
FINE = {"numpy.random": {"default_rng", "Generator", "SeedSequence", "BitGenerator", "PCG64", "PCG64DXSM", "Philox", "SFC64", "MT19937", "RandomState", "bit_generator"},
        "random": {"Random", "SystemRandom"}}


def is_seed(a):
    ann = ast.unparse(a.annotation) if a.annotation is not None else ""
    return bool(SEED.search(a.arg)) or "SeedSequence" in ann or "random.Generator" in ann or "RandomState" in ann


def params(u):
    a = u.f.node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs if is_seed(p)]


def hook_for(zero):
    def hook(a, tag, f):
        if not is_seed(a) or tag:
            return None
        ann = ast.unparse(a.annotation) if a.annotation is not None else ""
        d = frozenset([("in", a.arg)])
        if "Generator" in ann or "RandomState" in ann or a.arg in ("rng", "random_state"):
            return RngV(d, "the caller's generator")
        if "SeedSequence" in ann:
            return unknown(deps=d)
        if zero:
            return Num(0, LIT, {fresh_atom(): 1.0}, None, E, d, E, None, "scalar")
        return unknown(kind="scalar", deps=d)
    return hook


def collect(eng, u, ev, res, err, full):
    names = set(params(u))
    out, makes, draws = [], 0, 0
    for x in ev:
        if x.kind == "ext_call" and x.info["name"] in ("numpy.random.default_rng", "numpy.random.Generator", "numpy.random.RandomState", "random.Random", "numpy.random.SeedSequence") and x.func != "<module>":
            makes += 1
        if x.kind == "draw":
            draws += 1
            if not any(("in", n) in x.info["rng"].deps for n in names):
                out.append((f"{u.label}", f"{u.label} draws ({x.info['name']}) from {x.info['rng'].how} that does not depend on its {' or '.join(sorted(names))}", x.where))
            for d in sorted(x.info["rng"].deps):
                if d[0] == "env":
                    out.append((f"{u.label}: {d[1]}", f"{u.label} draws from a generator that depends on {d[1]}", x.where))
    return out, makes, draws


def global_uses(m):
    """(name, node) for uses of the process-wide generators in one module."""
    alias = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                alias[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.level == 0 and n.module:
            for a in n.names:
                alias[a.asname or a.name] = n.module + "." + a.name

    def dotted(e):
        if isinstance(e, ast.Name):
            return alias.get(e.id)
        if isinstance(e, ast.Attribute):
            b = dotted(e.value)
            return b + "." + e.attr if b else None
        return None
    refs = 0
    out = []
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Name, ast.Attribute)):
            d = dotted(n)
            if d is None:
                continue
            for base, fine in FINE.items():
                if d.startswith(base + ".") and d.count(".") == base.count(".") + 1:
                    refs += 1
                    if d.rpartition(".")[2] not in fine and (base != "random" or base in alias.values() or any(v.startswith("random.") for v in alias.values())):
                        out.append((d, n))
            if d in ("scipy.optimize.differential_evolution", "scipy.optimize.dual_annealing", "scipy.optimize.basinhopping", "scipy.integrate.qmc_quad"):
                refs += 1
                out.append((d, n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rvs":
            refs += 1
            if not any(k.arg == "random_state" for k in n.keywords):
                out.append(("rvs", n))
    return out, refs


CONTROL = """
import numpy as np
import random
from numpy import random as nr
from random import gauss
a = np.random.uniform(0, 1)
b = nr.normal()
c = random.random()
d = gauss(0, 1)
np.random.seed(3)
e = np.random.default_rng(3).random()
"""


class _M:
    def __init__(self, t):
        self.tree = t


def run(rep, repo, tier):
    if len(global_uses(_M(ast.parse(CONTROL)))[0]) != 5:
        raise RuntimeError("global-state rule fails its control")
    eng = None
    seen = 0
    for zero in (False, True):
        def make(r, zero=zero):
            e = make_engine(r)
            e.param_hook = hook_for(zero)
            return e
        eng, w, us, out = sweep(repo, collect, select=lambda u: bool(params(u)), budget=200000 if tier == "quick" else 2000000, make=make)
        for label, full, err, (xs, makes, draws) in out:
            if not full:
                u = next(u for u in us if u.label == label)
                a = u.f.node.args
                need = {p.arg for p in (a.posonlyargs + a.args)[: len(a.posonlyargs + a.args) - len(a.defaults)]}
                if not need & set(params(u)):
                    continue  # the seed was left out
            rep.count("generators made", makes)
            rep.count("draws", draws)
            seen += draws
            for _ in range(max(makes, 1)):
                rep.obligation("seed", label)
            for _ in range(draws):
                rep.obligation("draw", label)
            if err:
                rep.open("seed", label, err)
            for con, msg, where in xs:
                rep.violation("draw", con, msg + (" when it is 0" if zero else ""), where)
    for mn, m in sorted(eng.modules.items()):
        if m.rust or excluded(mn):
            continue
        xs, refs = global_uses(m)
        rep.obligation("global", mn)
        rep.count("references to random modules", refs)
        for d, n in xs:
            rep.violation("global", f"{mn}: {d}", f"{mn} uses {d}, which draws from or changes the process-wide random state", f"{m.rel}:{n.lineno}")
    rep.floor("draw", 10)
    rep.floor("seed", 5)
    rep.floor("global", 50)
