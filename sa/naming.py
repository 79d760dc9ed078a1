"""Unknown results named by what they were computed from.

A result that the interpreter has no formula for is an unknown of its own. Here it becomes ("u", function, keys of the arguments): the same
function of the same arguments is the same value, and two such values can be compared argument by argument. Used where one piece of source
is interpreted twice (with a number and with an array) and the two answers are compared."""
import hashlib
import re

from .values import *

HASH = re.compile(r"\b[0-9a-f]{12}\b")
MIX = {"sum", "mean", "median", "max", "min", "amax", "amin", "nanmax", "nanmin", "average", "nansum", "std", "nanmean", "fsum", "prod"}    # one number from an array


def now():
    """A position in the sequence of unknowns: what is created later has a higher one."""
    n = next(values_fresh())
    return n


def values_fresh():
    from . import values
    return values._fresh


def litkey(l):
    k = l._k
    if l.kind == "or":
        return ("or",) + tuple(sorted((litkey(s) for s in l.subs), key=repr))
    return tuple(repr(x) if not isinstance(x, (str, bool, int, tuple)) else x for x in k)


def condkey(c):
    if not isinstance(c, tuple):
        return "?"
    if c[0] == "lit":
        return ("lit", litkey(c[1]))
    if c[0] == "not":
        return ("not", condkey(c[1]))
    if c[0] in ("and", "or"):
        return (c[0],) + tuple(sorted((condkey(x) for x in c[1] if x is not None), key=repr))
    return (c[0],)


def single_unknown(x, n0):
    if not isinstance(x, Num) or not x.form or len(x.form) != 1:
        return False
    (k, v), = x.form.items()
    return v == 1.0 and isinstance(k, tuple) and len(k) == 3 and k[0] == "?" and k[2] >= n0


def anonymous(t, n0):
    """A key in which the unknowns created since n0 (the variables of an integral) are numbered in order of appearance."""
    seen = {}

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "?" and isinstance(x[2], int) and x[2] >= n0:
                return ("?", x[1], seen.setdefault(x[2], -len(seen) - 1))
            return tuple(go(y) for y in x)
        return x
    return go(t)


def canon(x):
    """The key without the numbers of the unknowns in it."""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "?":
            return ("?", x[1])
        x = tuple(canon(y) for y in x)
        return x[:2] + tuple(sorted(x[2:], key=repr)) if x[:2] == ("u", "join") else x
    if isinstance(x, str):
        return HASH.sub("?", x[:-3] if x.endswith("_pt") else x)       # a compiled kernel f and its version f_pt for one number
    return x


_digests = {}


def digest(x):
    """(hash of the structure of a key, hash that includes its numbers); the numbers of the unknowns in it do not count."""
    if isinstance(x, tuple):
        c = _digests.get(id(x))
        if c is not None and c[0] is x:
            return c[1]
        if len(x) == 3 and x[0] == "?":
            r = ("?" + str(x[1]),) * 2
        else:
            ds = [digest(y) for y in x]
            if x[:2] == ("u", "join"):
                ds = ds[:2] + sorted(ds[2:])
            r = tuple(hashlib.md5("(".join(d[i] for d in ds).encode()).hexdigest()[:14] for i in (0, 1))
        if len(_digests) > 200000:
            _digests.clear()
        _digests[id(x)] = (x, r)
        return r
    if isinstance(x, float):
        return "#", "%.9g" % x
    if isinstance(x, str):
        x = canon(x)
        return x, x
    return (repr(x),) * 2


def big(t):
    """Stands for a key that is too large: one hash of its structure, one that includes its numbers."""
    return ("big",) + digest(t)


def key(eng, v, st, d=0):
    from .interp import HDict, HList, HObj, fkt, size, CLIP
    if isinstance(v, Num):
        if v.cond is not None:
            return ("c", condkey(v.cond))
        if v.form is None:
            return ("n", v.const) if v.const is not None else "?"
        t = fkt(v.form)
        return big(t) if size(t, CLIP[0]) > CLIP[0] else t
    if isinstance(v, Str):
        return ("s", v.s)
    if isinstance(v, NoneV):
        return "None"
    if d > 3:
        return "?"
    if isinstance(v, Tup):
        return ("t",) + tuple(key(eng, x, st, d + 1) for x in v.elems)
    if isinstance(v, Ref):
        h = eng.get(st, v.id)
        if isinstance(h, HList):
            return ("l",) + tuple(key(eng, x, st, d + 1) for x in h.elems) + ((("r", key(eng, h.rest, st, d + 1)),) if h.rest is not None else ())
        if isinstance(h, HDict):
            return ("d",) + tuple((repr(k), key(eng, x, st, d + 1)) for k, x in h.items.items()) + ((("r", key(eng, h.rest, st, d + 1)),) if h.rest is not None else ())
        if isinstance(h, HObj):
            return ("o", h.cls.name if h.cls is not None else h.label or "?")
    if isinstance(v, Ext):
        return ("e", v.name)
    return "?" + type(v).__name__


def name(what, keys, n0, r):
    """The result r of what(keys), its unknown form replaced by one that says so."""
    if single_unknown(r, n0):
        from .interp import size, CLIP
        k = ("u", what) + anonymous(tuple(keys), n0)
        if size(k, CLIP[0]) > CLIP[0]:
            k = ("u", what, big(k))
        return r.copy(form={k: 1.0})
    if isinstance(r, Tup) and any(single_unknown(x, n0) for x in r.elems):
        return Tup([name(f"{what}[{i}]", keys, n0, x) for i, x in enumerate(r.elems)])
    return r


def join(a, b):
    """One of two values: which ones, however the choice between them was made."""
    def members(k):
        return set(k[0][0][2:]) if isinstance(k, tuple) and len(k) == 1 and len(k[0]) == 2 and isinstance(k[0][0], tuple) and k[0][0][:2] == ("u", "join") and k[0][1] == 1.0 else {k}
    return ("u", "join") + tuple(sorted(members(a) | members(b), key=repr))
