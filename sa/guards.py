"""Deciding what the extracted guards of a value imply about an energy threshold.

A value carries the literals that hold whenever it is non-zero. `implies(lits, E > T)` is decided exactly for
linear literals; other closed-form literals are evaluated over a fixed grid of the symbols they mention.
"""
import itertools
import math

from .values import Lit

REL = 1e-3          # the layers' legacy constants differ by 1e-4 relative at most


class Opaque(Exception):
    pass


def ev_form(items, env):
    s = 0.0
    for a, c in (items.items() if isinstance(items, dict) else items):
        s += c * ev_atom(a, env)
    return s


def ev_atom(a, env):
    if a == 1:
        return 1.0
    if isinstance(a, tuple) and a:
        if a[0] == "in":
            if a[1] in env:
                return env[a[1]]
            raise Opaque(a[1])
        if a[0] == "pow":
            b = ev_form(a[1], env)
            e = a[2]
            if b < 0 and e != int(e):
                raise Opaque("root of a negative")
            if b == 0 and e < 0:
                raise Opaque("1/0")
            return b ** e
        if a[0] == "mul":
            return ev_form(a[1], env) * ev_form(a[2], env)
        if a[0] == "div":
            d = ev_form(a[2], env)
            if d == 0:
                raise Opaque("1/0")
            return ev_form(a[1], env) / d
    raise Opaque(str(a))


def ev_lit(l, env):
    """True / False / None (cannot tell) of one literal."""
    try:
        if l.kind == "pos":
            return ev_form(l.form, env) > 0
        if l.kind == "eq":
            return (abs(ev_form(l.form, env)) < 1e-12) == bool(l.pol)
        if l.kind == "or":
            r = [ev_lit(s, env) for s in l.subs]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
            return None
    except (Opaque, OverflowError, ZeroDivisionError):
        return None
    return None


def atoms_of(l, out=None):
    out = set() if out is None else out

    def go(items):
        for a, c in (items.items() if isinstance(items, dict) else items):
            if a == 1:
                continue
            if isinstance(a, tuple) and a[0] == "in":
                out.add(a[1])
            elif isinstance(a, tuple) and a[0] == "pow":
                go(a[1])
            elif isinstance(a, tuple) and a[0] in ("mul", "div"):
                go(a[1])
                go(a[2])
            else:
                out.add(None)
    if l.kind in ("pos", "eq") and l.form is not None:
        go(l.form)
    elif l.kind == "or":
        for s in l.subs:
            atoms_of(s, out)
    else:
        out.add(None)
    return out


PARAM_GRID = {"mx": (37.0, 260.0, 1900.0), "ms": (21.0, 333.0, 1500.0), "mv": (21.0, 333.0, 1500.0)}
FRACTIONS = [10 ** (-4 + 0.25 * i) for i in range(16)] + [0.7, 0.9, 0.97, 0.99, 1 - 2 * REL]


def envs(energy, params):
    names = [p for p in sorted(params) if p != energy]
    for vals in itertools.product(*[PARAM_GRID.get(p, (0.3, 2.0)) for p in names]):
        yield dict(zip(names, vals))


def threshold(energy, co, c, env):
    return sum(k * env.get(a, 0.0) for a, k in co.items()) + c


def decide_closed(lits, energy, co, c, extra):
    """Is the value zero whenever energy < co.params + c?  -> ('closed'|'open'|'unknown', witness)."""
    usable, unknown = [], []
    for l in lits:
        at = atoms_of(l)
        if None in at:
            if l.kind != "or" or not any(energy in atoms_of(s) and None not in atoms_of(s) for s in l.subs):
                unknown.append(l)
            continue
        usable.append(l)
    params = set(co) | {a for l in usable for a in atoms_of(l) if a is not None} | set(extra)
    params.discard(energy)
    for env in envs(energy, params):
        t = threshold(energy, co, c, env)
        if t <= 0:
            continue
        for fr in FRACTIONS:
            e2 = dict(env)
            e2[energy] = fr * t
            if energy in co:      # the energy is one of the masses itself
                continue
            vals = [ev_lit(l, e2) for l in usable]
            if any(v is False for v in vals):
                continue
            if unknown or any(v is None for v in vals):
                return "unknown", None
            return "open", e2
    return "closed", None


def decide_not_suppressed(lits, energy, bounds, extra, slack=1.02):
    """A witness (environment, literal) at which every bound is exceeded by `slack` but a guard is false, or None."""
    usable = [l for l in lits if None not in atoms_of(l)]
    params = set(extra) | {a for l in usable for a in atoms_of(l) if a is not None}
    for co, c in bounds:
        params |= set(co)
    params.discard(energy)
    for env in envs(energy, params):
        t = max([threshold(energy, co, c, env) for co, c in bounds] + [1e-3])
        for fr in (1.0, 1.1, 1.5, 3.0, 10.0):
            e2 = dict(env)
            e2[energy] = slack * t * fr
            for l in usable:
                if energy in atoms_of(l) and ev_lit(l, e2) is False:
                    return e2, l
    return None
