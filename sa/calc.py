"""Normal form and derivative of closed formulas (value numbering over a differential field).

A form (see values.Num.form) is turned into a ratio of Laurent polynomials over atoms: input symbols, exponentials and symbolic powers
(split into products, so that exponents add), logarithms (split into sums), Bessel functions (reduced to orders 0 and 1), library functions
and interpolators applied to interned arguments. All input symbols are taken to be positive. Two formulas are equal when the
cross-multiplied difference cancels. When they are not, the answer is `False` only if every part of both formulas was understood and no
part of them could hide an identity that the normal form does not know (`sure`); otherwise it is None.
"""
TOL = 1e-8
MAXT = 20000
ONE = {(): 1.0}


class Open(Exception):
    """The formula has a part that is not closed algebra."""


def padd(a, b, k=1.0):
    r = dict(a)
    for m, c in b.items():
        w = r.get(m, 0.0)
        x = w + k * c
        if abs(x) <= 1e-11 * abs(k * c):
            r.pop(m, None)
        else:
            r[m] = x
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        x = d.get(a, 0) + e
        if abs(x) < 1e-12:
            d.pop(a, None)
        else:
            d[a] = x
    return tuple(sorted(d.items()))


def mpow(m, e):
    return tuple((a, x * e) for a, x in m)


def num(x):
    return int(x) if float(x) == int(x) else float(x)


class Calc:
    def __init__(self, split=False, sample=None):
        self.sample = sample  # values of symbols at a point inside the domain, for the signs under roots
        self.split = split  # roots of products are split along roots already seen
        self.atoms = []  # (kind, data) by index
        self.table = {}  # hashable description -> index
        self.byk = {}  # kind, head -> [index] of atoms with an interned argument
        self.why = set()  # reasons why inequality would not be certain

    # -------------------------------------------------- atoms
    def leaf(self, a):
        i = self.table.get(a)
        if i is None:
            i = self.table[a] = len(self.atoms)
            self.atoms.append(("leaf", a))
        return i

    def node(self, kind, head, arg):
        """The atom `kind head(arg)`; arguments are compared by value."""
        l = self.byk.setdefault((kind, head), [])
        for i in l:
            if self.same(self.atoms[i][2], arg):
                return i
        i = len(self.atoms)
        self.atoms.append((kind, head, arg))
        l.append(i)
        return i

    def same(self, x, y):
        if x == y:
            return True
        return not self.sub(x, y)[0]

    # -------------------------------------------------- ratios
    def mul(self, x, y):
        return self.tidy(self.pmul(x[0], y[0]), self.pmul(x[1], y[1]))

    def div(self, x, y):
        if not y[0]:
            raise Open("division by zero")
        return self.tidy(self.pmul(x[0], y[1]), self.pmul(x[1], y[0]))

    def add(self, x, y, k=1.0):
        if x[1] == y[1]:
            return self.tidy(padd(x[0], y[0], k), x[1])
        if y[1] == ONE:
            return self.tidy(padd(x[0], self.pmul(y[0], x[1]), k), x[1])
        if x[1] == ONE:
            return self.tidy(padd(self.pmul(x[0], y[1]), y[0], k), y[1])
        return self.tidy(padd(self.pmul(x[0], y[1]), self.pmul(y[0], x[1]), k), self.pmul(x[1], y[1]))

    def sub(self, x, y):
        a, b = (x[0], y[0]) if x[1] == y[1] else (self.pmul(x[0], y[1]), self.pmul(y[0], x[1]))
        scale = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [0.0])
        r = {}
        for m in set(a) | set(b):
            u, v = a.get(m, 0.0), b.get(m, 0.0)
            if abs(u - v) > TOL * max(abs(u), abs(v)) and abs(u - v) > 1e-13 * scale:
                r[m] = u - v
        return r, None

    def pmul(self, a, b):
        if len(a) * len(b) > MAXT:
            raise Open("formula too large")
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = mmul(m, n)
                r[k] = r.get(k, 0.0) + c * d
        s = max([abs(c) for c in r.values()], default=0.0)
        return {m: c for m, c in r.items() if abs(c) > 1e-13 * s}

    def tidy(self, n, d):
        if not n:
            return {}, ONE
        n, d = self.unroot(n), self.unroot(d)
        if isinstance(n, tuple) or isinstance(d, tuple):
            n = n if isinstance(n, tuple) else (n, ONE)
            d = d if isinstance(d, tuple) else (d, ONE)
            return self.tidy(self.pmul(n[0], d[1]), self.pmul(n[1], d[0]))
        if not d:
            raise Open("a denominator vanishes")
        if len(d) == 1:
            (m, c), = d.items()
            if m or c != 1.0:
                im = mpow(m, -1)
                n = {mmul(k, im): x / c for k, x in n.items()}
                d = ONE
                n = self.unroot(n)
                if isinstance(n, tuple):
                    return self.tidy(*n)
        else:
            free = any(not any(self.atoms[a][0] == "P" for a, _ in q) for q in d)
            if free:  # take out the content only, so that a second pass changes nothing
                im = mpow(self.content(d), -1)
                if im:
                    d, n = {mmul(k, im): x for k, x in d.items()}, {mmul(k, im): x for k, x in n.items()}
                im = ()
                c = d[max(q for q in d if not any(self.atoms[a][0] == "P" for a, _ in q))]
            else:
                m = max(d)
                c = d[m]
                im = mpow(m, -1)
            d = {mmul(k, im): x / c for k, x in d.items()}
            n = {mmul(k, im): x / c for k, x in n.items()}
            if any(self.rooty(k) for k in list(n) + list(d)):
                x, y = self.unroot(n), self.unroot(d)
                if isinstance(x, tuple) or isinstance(y, tuple):
                    x = x if isinstance(x, tuple) else (x, ONE)
                    y = y if isinstance(y, tuple) else (y, ONE)
                    n, d = self.pmul(x[0], y[1]), self.pmul(x[1], y[0])
            q = self.divide(n, d)
            if q is not None:
                return q, ONE
        return n, d

    def content(self, d):
        """The monomial of the smallest exponents, over the atoms that are not roots."""
        low = {}
        for i, q in enumerate(d):
            e = dict(q)
            for a in set(low) | set(e):
                if self.atoms[a][0] != "P":
                    low[a] = min(low.get(a, 0), e.get(a, 0)) if i else e.get(a, 0)
        return tuple(sorted((a, x) for a, x in low.items() if x))

    def rooty(self, m):
        return any(self.atoms[a][0] == "P" and (e < 0 or e >= 1) for a, e in m)

    def unroot(self, p):
        """Powers of a polynomial outside [0, 1) become the polynomial itself; a pair when some are negative."""
        if not any(self.rooty(m) for m in p):
            return p
        num_, den = {}, ONE
        for m, c in p.items():
            rest, n, d = [], {(): c}, ONE
            for a, e in m:
                if self.atoms[a][0] != "P":
                    rest.append((a, e))
                    continue
                import math
                k = math.floor(e + 1e-9)
                f = e - k
                if f > 1e-9:
                    rest.append((a, f))
                base = self.atoms[a][2]
                for _ in range(abs(k)):
                    if k > 0:
                        n, d = self.pmul(n, base[0]), self.pmul(d, base[1])
                    else:
                        n, d = self.pmul(n, base[1]), self.pmul(d, base[0])
            n = {mmul(k, tuple(rest)): x for k, x in n.items()}
            if d == den:
                num_ = padd(num_, n)
            elif d == ONE:
                num_ = padd(num_, self.pmul(n, den))
            else:
                num_ = padd(self.pmul(num_, d), self.pmul(n, den))
                den = self.pmul(den, d)
        return num_ if den == ONE else (num_, den)

    def divide(self, n, d):
        """Exact quotient of polynomials or None."""
        if len(n) < len(d):
            return None
        # plain polynomial exponents only
        atoms = sorted({a for m in list(n) + list(d) for a, e in m})
        ix = {a: i for i, a in enumerate(atoms)}

        def vec(m):
            v = [0] * len(atoms)
            for a, e in m:
                v[ix[a]] = e
            return tuple(v)
        r = {vec(m): c for m, c in n.items()}
        D = {vec(m): c for m, c in d.items()}
        ld = max(D)
        lo = [min(v[i] for v in r) - min(v[i] for v in D) for i in range(len(atoms))]
        q = {}
        s0 = max(abs(c) for c in r.values())
        for _ in range(4 * len(n) + 8):
            if not r:
                break
            lr = max(r)
            t = tuple(x - y for x, y in zip(lr, ld))
            if any(x < l - 1e-9 for x, l in zip(t, lo)):
                return None
            c = r[lr] / D[ld]
            q[t] = q.get(t, 0.0) + c
            for v, x in D.items():
                k = tuple(a + b for a, b in zip(v, t))
                y = r.get(k, 0.0)
                z = y - c * x
                if abs(z) <= 1e-10 * max(abs(y), abs(c * x)) or k == lr or abs(z) < 1e-13 * s0:
                    r.pop(k, None)
                else:
                    r[k] = z
        if r:
            return None
        return {tuple((atoms[i], num(e)) for i, e in enumerate(v) if abs(e) > 1e-12): c for v, c in q.items()}

    # -------------------------------------------------- forms
    def norm(self, form):
        r = ({}, ONE)
        for a, c in (form.items() if isinstance(form, dict) else form):
            if not c:
                continue
            x = self.atom(a)
            r = self.add(r, x, c)
        return r

    def atom(self, a):
        if a == 1:
            return ONE, ONE
        if not (isinstance(a, tuple) and a):
            raise Open(f"unknown term {a!r}")
        k = a[0]
        if k == "mul":
            return self.mul(self.norm(a[1]), self.norm(a[2]))
        if k == "div":
            return self.div(self.norm(a[1]), self.norm(a[2]))
        if k == "pow":
            return self.power(self.norm(a[1]), a[2])
        if k == "expo":
            b, e = self.norm(a[1]), self.norm(a[2])
            if self.isconst(e) is not None:
                return self.power(b, self.isconst(e))
            return self.exponential(self.mul(self.log(b), e))
        if k == "f":
            return self.fn(a[1], self.norm(a[2]))
        if k == "app":
            return {((self.node("app", self.stable(a[1]), self.norm(a[2])), 1),): 1.0}, ONE
        if k in ("?", "h"):
            raise Open("a value that is not known as a formula")
        return {((self.leaf(a), 1),): 1.0}, ONE

    def stable(self, items):
        return items

    def isconst(self, x):
        n, d = x
        if not n:
            return 0.0
        if d == ONE and len(n) == 1 and () in n:
            return n[()]
        return None

    def single(self, x):
        n, d = x
        return next(iter(n.items())) if d == ONE and len(n) == 1 else None

    def power(self, x, e):
        n, d = x
        if e == 0:
            return ONE, ONE
        if not n:
            if isinstance(e, (int, float)) and e > 0:
                return {}, ONE
            raise Open("power of zero")
        if isinstance(e, complex):
            raise Open("complex exponent")
        if float(e) == int(e) and abs(e) <= 16:
            k = abs(int(e))
            r = (ONE, ONE)
            for _ in range(k):
                r = self.mul(r, x)
            return r if e > 0 else self.div((ONE, ONE), r)
        s = self.single(x)
        if s is not None:
            m, c = s
            if isinstance(c, complex) or c < 0:
                raise Open("fractional power of a negative number")
            return self.tidy({tuple((a, num(y * e)) for a, y in m): c ** e}, ONE)
        if d == ONE:
            return self.tidy(*self.polypow(n, e))
        if self.sample is not None and (self.value(n) or 1) < 0 and (self.value(d) or 1) < 0:
            n, d = {m: -c for m, c in n.items()}, {m: -c for m, c in d.items()}
        return self.div(self.power((n, ONE), e), self.power((d, ONE), e))

    def value(self, p):
        """The value of a polynomial at the sample point, or None."""
        r = 0.0
        for m, c in p.items():
            for a, e in m:
                A = self.atoms[a]
                if A[0] == "leaf" and A[1][0] == "in":
                    x = self.sample(A[1][1])
                elif A[0] == "P":
                    x, y = self.value(A[2][0]), self.value(A[2][1])
                    x = x / y if x is not None and y else None
                else:
                    x = None
                if x is None or x <= 0 or isinstance(c, complex):
                    return None
                c *= x ** e
            r += c
        return r

    def polypow(self, n, e):
        # content and the largest common monomial are taken out, so that sqrt(a**2*x + a**2*y) = a*sqrt(x + y)
        atoms = {a for m in n for a, _ in m}
        lo = tuple(sorted((a, min(dict(m).get(a, 0) for m in n)) for a in atoms))
        lo = tuple((a, y) for a, y in lo if y)
        im = mpow(lo, -1)
        p = {mmul(m, im): x for m, x in n.items()}
        c = abs(p[max(p)])
        p = {m: x / c for m, x in p.items()}
        self.why.add("a fractional power of a sum")
        if self.split:
            for i in self.byk.get(("P", ""), ()):
                b = self.atoms[i][2]
                if b[1] == ONE and 1 < len(b[0]) < len(p):
                    q = self.divide(p, b[0])
                    if q is not None and len(q) > 1:
                        u, v = self.tidy(*self.polypow(q, e)), {mmul(tuple((a, num(y * e)) for a, y in lo), ((i, float(e)),)): c ** e}
                        return self.pmul(u[0], v), u[1]
        i = self.node("P", "", (p, ONE))
        return {mmul(tuple((a, num(y * e)) for a, y in lo), ((i, float(e)),)): c ** e}, ONE

    def log(self, x):
        import math
        s = self.single(x)
        if s is None:
            n, d = x
            if d != ONE:
                if self.sample is not None and (self.value(n) or 1) < 0 and (self.value(d) or 1) < 0:
                    n, d = {q: -c for q, c in n.items()}, {q: -c for q, c in d.items()}
                r = self.add(self.log((n, ONE)), self.log((d, ONE)), -1.0)
                return r
            self.why.add("the logarithm of a sum")
            # content and the common monomial come out, so that log(a*x + a*y) = log(a) + log(x + y)
            at = {a for q in n for a, _ in q if self.atoms[a][0] in ("leaf", "exp", "xp", "app")}
            lo = tuple(sorted((a, min(dict(q).get(a, 0) for q in n)) for a in at))
            lo = tuple((a, y) for a, y in lo if y)
            if not self.split:
                return {((self.node("log", "", x), 1),): 1.0}, ONE
            p = {mmul(q, mpow(lo, -1)): y for q, y in n.items()}
            k = max((q for q in p if not any(self.atoms[a][0] == "P" for a, _ in q)), default=max(p))
            k = abs(p[k])
            i = self.node("log", "", ({q: y / k for q, y in p.items()}, ONE))
            return self.add(self.log(({lo: k}, ONE)), ({((i, 1),): 1.0}, ONE))
        m, c = s
        if isinstance(c, complex) or c < 0:
            raise Open("logarithm of a negative number")
        r = ({(): math.log(c)} if c != 1.0 else {}, ONE)
        for a, e in m:
            A = self.atoms[a]
            if A[0] == "exp":
                y = A[2]
            elif A[0] == "xp":
                y = self.mul(self.log(({((A[1], 1),): 1.0}, ONE)), A[2])
            else:
                y = ({((self.node("log", "", ({((a, 1),): 1.0}, ONE)), 1),): 1.0}, ONE)
            r = self.add(r, y, float(e))
        return r

    def exponential(self, x):
        import math
        n, d = x
        out = (ONE, ONE)
        if d != ONE:
            self.why.add("the exponential of a ratio of sums")
        for m, c in n.items():
            if not m and d == ONE:
                if isinstance(c, complex):
                    import cmath
                    out = self.mul(out, ({(): cmath.exp(c)}, ONE))
                else:
                    out = self.mul(out, ({(): math.exp(c)}, ONE)) if c < 700 else self._raise()
                continue
            logs = [(a, e) for a, e in m if self.atoms[a][0] == "log"]
            if d == ONE and len(logs) == 1 and logs[0][1] == 1:
                a = logs[0][0]
                arg = self.atoms[a][2]
                rest = tuple(t for t in m if t[0] != a)
                s = self.single(arg)
                if not rest:
                    out = self.mul(out, self.power(arg, num(c) if not isinstance(c, complex) else c))
                    continue
                if s is not None and s[1] == 1.0 and len(s[0]) == 1 and s[0][0][1] == 1 and not isinstance(c, complex):
                    i = self.node("xp", s[0][0][0], ({rest: 1.0}, ONE))
                    out = self.mul(out, ({((i, num(c)),): 1.0}, ONE))
                    continue
            if isinstance(c, complex):
                i = self.node("exp", "", ({m: c}, d))
                out = self.mul(out, ({((i, 1),): 1.0}, ONE))
            else:
                i = self.node("exp", "", self.tidy({m: 1.0}, d))
                out = self.mul(out, ({((i, num(c)),): 1.0}, ONE))
        return out

    def _raise(self):
        raise Open("overflow")

    def fn(self, name, x):
        if name in ("exp",):
            return self.exponential(x)
        if name == "log":
            return self.log(x)
        if name == "log10":
            import math
            return self.mul(self.log(x), ({(): 1 / math.log(10.0)}, ONE))
        if name == "log2":
            import math
            return self.mul(self.log(x), ({(): 1 / math.log(2.0)}, ONE))
        if name == "log1p":
            return self.log(self.add((ONE, ONE), x))
        if name == "expm1":
            return self.add(self.exponential(x), (ONE, ONE), -1.0)
        if name in ("arctanh", "atanh") and self.split:
            n, d = x
            return self.mul(self.add(self.log((padd(d, n), ONE)), self.log((padd(d, n, -1.0), ONE)), -1.0), ({(): 0.5}, ONE))
        if name == "sinh":
            e = self.exponential(x)
            return self.mul(self.add(e, self.div((ONE, ONE), e), -1.0), ({(): 0.5}, ONE))
        if name == "cosh":
            e = self.exponential(x)
            return self.mul(self.add(e, self.div((ONE, ONE), e)), ({(): 0.5}, ONE))
        if name == "tanh":
            return self.div(self.fn("sinh", x), self.fn("cosh", x))
        if name == "tan":
            return self.div(self.fn("sin", x), self.fn("cos", x))
        if name == "sqrt":
            return self.power(x, 0.5)
        if name and name[0] == "k" and name[1:].isdigit() and int(name[1:]) >= 2:
            n = int(name[1:])
            return self.add(self.fn(f"k{n - 2}", x), self.mul(self.div(({(): 2.0 * (n - 1)}, ONE), x), self.fn(f"k{n - 1}", x)))
        if name in ("real", "imag", "abs", "absolute", "sum", "max", "min", "floor", "ceil", "round", "mean", "conj") or name is None:
            raise Open(f"{name} of a formula")
        return {((self.node("f", name, x), 1),): 1.0}, ONE

    # -------------------------------------------------- derivative
    def diff(self, x, sym):
        n, d = x
        a = self.pdiff(n, sym)
        if d == ONE:
            return a
        b = self.pdiff(d, sym)
        # (n/d)' = n'/d - n d'/d**2
        D = (d, ONE)
        return self.add(self.div(a, D), self.div(self.mul((n, ONE), b), self.mul(D, D)), -1.0)

    def pdiff(self, p, sym):
        out = ({}, ONE)
        for m, c in p.items():
            for a, e in m:
                da = self.adiff(a, sym)
                if not da[0]:
                    continue
                rest = mmul(m, ((a, -1),))
                t = self.mul(self.tidy({rest: c * e}, ONE), da)
                out = self.add(out, t)
        return out

    def adiff(self, i, sym):
        A = self.atoms[i]
        k = A[0]
        Z = ({}, ONE)
        I = ({((i, 1),): 1.0}, ONE)
        if k == "leaf":
            return (ONE, ONE) if A[1] == sym else Z
        dx = self.diff(A[2], sym)
        if k == "xp":
            base = ({((A[1], 1),): 1.0}, ONE)
            db = self.adiff(A[1], sym)
            t = self.mul(dx, self.log(base))
            if db[0]:
                t = self.add(t, self.div(self.mul(A[2], db), base))
            return self.mul(I, t)
        if not dx[0]:
            return Z
        if k == "exp":
            return self.mul(I, dx)
        if k == "log":
            return self.div(dx, A[2])
        if k == "P":
            return dx
        if k == "app":
            h = A[1]
            n = 1
            if len(h) == 1 and isinstance(h[0][0], tuple) and h[0][0][0] == "dfn" and h[0][1] == 1.0:
                n = h[0][0][2] + 1
                h = h[0][0][1]
            j = self.node("app", ((("dfn", h, n), 1.0),), A[2])
            return self.mul(({((j, 1),): 1.0}, ONE), dx)
        if k == "f":
            f, z = A[1], A[2]
            g = None
            if f == "sin":
                g = self.fn("cos", z)
            elif f == "cos":
                g = self.mul(({(): -1.0}, ONE), self.fn("sin", z))
            elif f == "k0":
                g = self.mul(({(): -1.0}, ONE), self.fn("k1", z))
            elif f == "k1":
                g = self.mul(({(): -1.0}, ONE), self.add(self.fn("k0", z), self.div(self.fn("k1", z), z)))
            elif f in ("arctan", "atan"):
                g = self.div((ONE, ONE), self.add((ONE, ONE), self.mul(z, z)))
            if g is not None:
                return self.mul(g, dx)
            raise Open(f"the derivative of {f}")
        raise Open(f"the derivative of {k}")

    def subst(self, x, sym, val):
        """The formula with the leaf `sym` replaced by the ratio `val`."""
        return self.div(self.psubst(x[0], sym, val), self.psubst(x[1], sym, val)) if x[1] != ONE else self.psubst(x[0], sym, val)

    def psubst(self, p, sym, val):
        out = ({}, ONE)
        for m, c in p.items():
            t = ({(): c}, ONE)
            for a, e in m:
                t = self.mul(t, self.power(self.asubst(a, sym, val), e))
            out = self.add(out, t)
        return out

    def asubst(self, i, sym, val):
        A = self.atoms[i]
        k = A[0]
        I = ({((i, 1),): 1.0}, ONE)
        if k == "leaf":
            return val if A[1] == sym else I
        arg = self.subst(A[2], sym, val)
        if k == "xp":
            return self.exponential(self.mul(self.log(self.asubst(A[1], sym, val)), arg))
        if k == "exp":
            return self.exponential(arg)
        if k == "log":
            return self.log(arg)
        if k == "P":
            return arg
        if k == "f":
            return self.fn(A[1], arg)
        return {((self.node(k, A[1], arg), 1),): 1.0}, ONE

    # -------------------------------------------------- decision
    def equal(self, x, y):
        """True / False / None (different as far as the normal form can tell, but it may miss an identity)."""
        if self.same(x, y):
            return True
        return None if self.why else False

    def show(self, x, lim=300):
        def at(i):
            A = self.atoms[i]
            if A[0] == "leaf":
                return str(A[1][1]) if len(A[1]) > 1 else str(A[1])
            if A[0] == "xp":
                return f"{at(A[1])}^({self.show(A[2], 80)})"
            if A[0] == "app":
                return f"interp({self.show(A[2], 80)})" if "dfn" not in repr(A[1]) else f"interp'({self.show(A[2], 80)})"
            return f"{A[1] if A[0] == 'f' else A[0]}({self.show(A[2], 80)})"

        def po(p):
            return " + ".join(("*".join(([] if abs(c - 1) < 1e-12 and m else [f"{c:.6g}" if not isinstance(c, complex) else str(c)]) + [at(a) + (f"^{e:g}" if e != 1 else "") for a, e in m])) for m, c in sorted(p.items())) or "0"
        n, d = x
        s = po(n) if d == ONE else f"({po(n)})/({po(d)})"
        return s if len(s) <= lim else s[:lim] + "..."
