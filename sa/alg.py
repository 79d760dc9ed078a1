"""Equality of closed forms: normal form as a ratio of polynomials over atoms (value numbering modulo field algebra).

Coefficients are floats; two forms are equal when the cross-multiplied difference cancels to a relative tolerance, so `(a**2+b**2-c**2)/(2*a)`,
`0.5*(a + (b-c)*(b+c)/a)` and the like agree while any other combination does not. Non-integer powers and unrecognised terms are atoms
keyed by their own normal form.
"""
TOL = 1e-7
MAXT = 4000


class TooBig(Exception):
    pass


def padd(a, b, k=1.0):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0.0) + k * c
    return r


def pmul(a, b):
    r = {}
    if len(a) * len(b) > MAXT:
        raise TooBig()
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0.0) + c * d
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=repr))


ONE = {(): 1.0}


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def rat(form):
    """(numerator, denominator) of a form (dict or items)."""
    num, den = {}, ONE
    for a, c in (form.items() if isinstance(form, dict) else form):
        n, d = ratom(a)
        n = {m: x * c for m, x in n.items()}
        if d == den:
            num = padd(num, n)
        else:
            num = padd(pmul(num, d), pmul(n, den))
            den = pmul(den, d)
    return num, den


def ratom(a):
    if a == 1:
        return ONE, ONE
    if isinstance(a, tuple) and a:
        if a[0] == "mul":
            n1, d1 = rat(a[1])
            n2, d2 = rat(a[2])
            return pmul(n1, n2), pmul(d1, d2)
        if a[0] == "div":
            n1, d1 = rat(a[1])
            n2, d2 = rat(a[2])
            return pmul(n1, d2), pmul(d1, n2)
        if a[0] == "pow":
            e = a[2]
            if isinstance(e, (int, float)) and float(e) == int(e) and abs(e) <= 12:
                n, d = rat(a[1])
                e = int(e)
                return (ppow(n, e), ppow(d, e)) if e >= 0 else (ppow(d, -e), ppow(n, -e))
            n, d = rat(a[1])
            if isinstance(e, (int, float)) and 2 * e == int(2 * e) and abs(e) <= 6 and e != 0.5:
                r = ("root", key(n, d))
                k = int(2 * e)
                x = {((r, abs(k)),): 1.0}
                return (x, ONE) if k > 0 else (ONE, x)
            if e == 0.5:
                return {((("root", key(n, d)), 1),): 1.0}, ONE
            return {((("pw", key(n, d), e), 1),): 1.0}, ONE
    return {((a, 1),): 1.0}, ONE


def key(n, d):
    """Hashable normal form of n/d (scaled; common factors are not removed)."""
    s = max((abs(c) for c in d.values()), default=1.0) or 1.0
    f = lambda p: tuple(sorted(((m, float("%.7g" % (c / s))) for m, c in p.items() if abs(c / s) > 1e-12), key=repr))
    return (f(n), f(d))


def equal(f, g):
    """True / False / None (not comparable: a missing form or one too large)."""
    if f is None or g is None:
        return None
    try:
        n1, d1 = rat(f)
        n2, d2 = rat(g)
        a, b = pmul(n1, d2), pmul(n2, d1)
    except (TooBig, OverflowError, RecursionError):
        return None
    scale = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [0.0])
    for m in set(a) | set(b):
        x, y = a.get(m, 0.0), b.get(m, 0.0)
        if abs(x - y) > TOL * max(abs(x), abs(y), 1e-9 * scale):
            return False
    return True


def symbols(f, out=None):
    """Names of the input symbols of a form; ('?',) for anything that is not closed algebra."""
    out = set() if out is None else out
    for a, c in (f.items() if isinstance(f, dict) else f):
        if a == 1 or abs(c) < 1e-300:
            continue
        if isinstance(a, tuple) and a:
            if a[0] == "in":
                out.add(a[1])
                continue
            if a[0] in ("mul", "div"):
                symbols(a[1], out)
                symbols(a[2], out)
                continue
            if a[0] == "pow":
                symbols(a[1], out)
                continue
        out.add("?")
    return out


def at(form, vals):
    """The form with input symbols replaced by numbers (by name)."""
    def items(it):
        out = {}
        for a, c in (it.items() if isinstance(it, dict) else it):
            b, k = sub(a)
            if k:
                out[b] = out.get(b, 0.0) + c * k
        return out

    def sub(a):
        if isinstance(a, tuple) and a:
            if a[0] == "in" and a[1] in vals:
                return 1, vals[a[1]]
            if a[0] in ("mul", "div"):
                x, y = items(a[1]), items(a[2])
                if not x:
                    return 1, 0.0
                if a[0] == "mul" and not y:
                    return 1, 0.0
                return (a[0], tuple(sorted(x.items(), key=repr)), tuple(sorted(y.items(), key=repr))), 1.0
            if a[0] == "pow":
                x = items(a[1])
                return ((a[0], tuple(sorted(x.items(), key=repr))) + tuple(a[2:]), 1.0) if x else (1, 0.0)
        return a, 1.0
    return items(form)


def square(form):
    """The square of a one-term form, with the square roots in it resolved; None for a sum."""
    it = [(a, c) for a, c in (form.items() if isinstance(form, dict) else form) if c]
    if len(it) != 1:
        return {("pow", tuple(it), 2): 1.0} if it else {}
    a, c = it[0]
    if a == 1:
        return {1: c * c}
    if isinstance(a, tuple) and a and a[0] in ("mul", "div"):
        x, y = square(a[1]), square(a[2])
        return {(a[0], tuple(x.items()), tuple(y.items())): c * c}
    if isinstance(a, tuple) and a and a[0] == "pow" and isinstance(a[2], (int, float)):
        n = 2 * a[2]
        n = int(n) if float(n).is_integer() else n
        return {x: k * c * c for x, k in dict(a[1]).items()} if n == 1 else {("pow", a[1], n): c * c}
    return {("pow", ((a, 1.0),), 2): c * c}
