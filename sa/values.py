"""Abstract values of the interpreter.

One numeric value carries every abstract domain used by the checks (a reduced product by record):
  const  known Python number (constant propagation) or None
  dim    physical dimension: tuple of Fractions over BASIS, LIT for a bare literal, None unknown
  form   linear form {atom: coefficient, 1: constant} over opaque atoms (value numbers), None unknown
  lin    which spectrum kernels the value is a linear combination of: {(messenger, particle): multiplicity|None}
  nz     literals that hold whenever the value is non-zero (must information); ALL for the constant zero
  deps   origins the value is computed from (parameters, attributes, named constants)
  alias  caller-owned storage the value may share
  cond   boolean structure, for the result of a comparison
"""
from fractions import Fraction
import itertools
import math

BASIS = ("MeV", "K", "X", "cm", "s", "g")
D0 = tuple(Fraction(0) for _ in BASIS)


def D(**kw):
    return tuple(Fraction(kw.get(b, 0)) for b in BASIS)


class _Lit:
    def __repr__(self):
        return "LIT"


LIT = _Lit()


class _All:
    def __repr__(self):
        return "ALL"


ALL = _All()


def dimstr(d):
    if d is None:
        return "?"
    if d is LIT:
        return "literal"
    s = "*".join(f"{b}^{p}" if p != 1 else b for b, p in zip(BASIS, d) if p)
    return s or "1"


E = frozenset()
_fresh = itertools.count(1)


def fresh_atom(label="t"):
    return ("?", label, next(_fresh))


class V:
    pass


class Vec(str):
    """The kind of a one-dimensional array of unknown length: an array argument, and what elementwise operations make of it."""


class Vec2(str):
    """The kind of an array of more dimensions, one of which is that of a one-dimensional array of unknown length."""


VECTOR = Vec("array")
VECTOR2 = Vec2("array")


def vec(*kinds):
    """The kind of an elementwise combination of arrays."""
    if any(isinstance(k, Vec2) for k in kinds):
        return VECTOR2
    return VECTOR if any(isinstance(k, Vec) for k in kinds) and all(isinstance(k, Vec) or k == "scalar" for k in kinds) else "array"


class Num(V):
    __slots__ = ("const", "dim", "form", "lin", "nz", "deps", "alias", "cond", "kind", "poly", "poly1", "argdim")

    def __init__(self, const=None, dim=None, form=None, lin=None, nz=E, deps=E, alias=E, cond=None, kind=None):
        self.const = const
        self.dim = dim
        self.form = form
        self.lin = lin or {}
        self.nz = nz
        self.deps = deps
        self.alias = alias
        self.cond = cond
        self.kind = kind  # 'scalar' | 'array' | None
        self.argdim = None  # unit of the argument, for kind 'fn'
        self.poly = None  # elements of a small array built from a literal sequence
        self.poly1 = None  # the same along the second axis, behind a leading axis of unknown length

    def copy(self, **kw):
        n = Num(self.const, self.dim, self.form, self.lin, self.nz, self.deps, self.alias, self.cond, self.kind)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def __repr__(self):
        b = []
        if self.const is not None:
            b.append(f"={self.const}")
        b.append(f"dim={dimstr(self.dim)}")
        if self.lin:
            b.append(f"lin={self.lin}")
        if self.nz is ALL or self.nz:
            b.append(f"nz={self.nz if self.nz is ALL else sorted(map(litstr, self.nz))}")
        if self.deps:
            b.append(f"deps={sorted(map(str, self.deps))}")
        if self.alias:
            b.append(f"alias={set(self.alias)}")
        if self.cond is not None:
            b.append(f"cond={self.cond}")
        return "Num(" + ", ".join(b) + ")"


def literal(v, deps=E):
    z = isinstance(v, (int, float, complex)) and v == 0
    form = {1: float(v)} if isinstance(v, (int, float)) and not isinstance(v, bool) else None
    return Num(const=v, dim=LIT, form=form, nz=ALL if z else E, deps=deps, kind="scalar")


def unknown(deps=E, alias=E, lin=None, nz=E, kind=None, dim=None):
    return Num(dim=dim, form={fresh_atom(): 1.0}, deps=deps, alias=alias, lin=lin, nz=nz, kind=kind)


class Str(V):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return f"Str({self.s!r})"


class NoneV(V):
    def __repr__(self):
        return "None"


NONE = NoneV()


class Tup(V):
    __slots__ = ("elems",)

    def __init__(self, elems):
        self.elems = tuple(elems)

    def __repr__(self):
        return f"Tup{self.elems}"


class Ref(V):
    """Reference to a heap object: list, dict or instance."""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Ref({self.id})"


class HList:
    kind = "list"

    def __init__(self, elems, rest=None, alias=E, typ="list"):
        self.elems = tuple(elems)
        self.rest = rest  # value of unknown further elements
        self.alias = alias
        self.typ = typ

    def __repr__(self):
        return f"HList({self.elems},{self.rest})"


class HDict:
    kind = "dict"

    def __init__(self, items, rest=None, alias=E, origin=None):
        self.items = dict(items)  # python key -> V
        self.rest = rest
        self.alias = alias
        self.origin = origin

    def __repr__(self):
        return f"HDict({self.items},{self.rest})"


class HObj:
    kind = "obj"

    def __init__(self, cls, attrs, lazy=False, label=None):
        self.cls = cls
        self.attrs = dict(attrs)
        self.lazy = lazy
        self.label = label

    def __repr__(self):
        return f"HObj({self.cls and self.cls.name},{list(self.attrs)})"


class HFrame:
    kind = "frame"

    def __init__(self, vars, maybe=None):
        self.vars = dict(vars)
        self.maybe = maybe or {}  # name -> branch conditions, one of which must hold for the name to be bound


class HMark:
    """What has happened to a probe value so far: on some path (may), on every path (must), handed to code that is not analysed (out)."""
    kind = "mark"
    alias = frozenset()

    def __init__(self, may=False, must=False, out=False):
        self.may, self.must, self.out = may, must, out


class Func(V):
    def __init__(self, node, module, frames=(), cls=None, name=None, bound=None, defaults=None, kwdefaults=None, kindm=None, qual=None):
        self.node = node
        self.module = module
        self.frames = frames  # enclosing frame ids, innermost first
        self.cls = cls        # lexical class
        self.name = name or getattr(node, "name", "<lambda>")
        self.bound = bound
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.kindm = kindm    # 'static' | 'class' | 'property' | None
        self.setter = None
        self.qual = qual or self.name
        self.attrs = {}

    def bind(self, obj):
        f = Func(self.node, self.module, self.frames, self.cls, self.name, obj, self.defaults, self.kwdefaults, self.kindm, self.qual)
        f.attrs = self.attrs
        return f

    def __repr__(self):
        return f"Func({self.module.name}:{self.qual})"


class Prop(V):
    cached = False

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset

    def __repr__(self):
        return f"Prop({self.fget})"


class Cls(V):
    def __init__(self, name, node, module, bases, ns, qual=None):
        self.name = name
        self.node = node
        self.module = module
        self.bases = bases
        self.ns = ns
        self.qual = qual or name
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, Cls)] + [[b for b in self.bases if isinstance(b, Cls)]]
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in t if x is not c] for t in seqs]
                seqs = [t for t in seqs if t]
            self._mro = out
        return self._mro

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, Cls):
                    out.append(b)
        return out

    def is_enum(self):
        return any(isinstance(b, Ext) and b.name.split(".")[-1] in ("Enum", "IntEnum", "IntFlag", "Flag") for b in self.ext_bases())

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return f"Cls({self.module.name}.{self.qual})"


class EnumVal(V):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumVal) and o.cls.node is self.cls.node and o.name == self.name

    def __hash__(self):
        return hash((id(self.cls.node), self.name))

    def __repr__(self):
        return f"Enum({self.cls.name}.{self.name})"


class ModV(V):
    def __init__(self, mod):
        self.mod = mod

    def __repr__(self):
        return f"ModV({self.mod.name})"


class Ext(V):
    """Something outside the package, by dotted name."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


class PathV(V):
    """A path whose text is known (relative to the analysed tree when inside it)."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return f"PathV({self.p})"


class EllipsisV(V):
    """`...` in an index."""


class RngV(V):
    """A random number generator: what it was seeded with, and how it was made."""
    __slots__ = ("deps", "how", "alias")

    def __init__(self, deps, how, alias=E):
        self.deps, self.how, self.alias = deps, how, alias

    def __repr__(self):
        return f"RngV({self.how}, {sorted(map(str, self.deps))})"


class Method(V):
    """Method of a builtin-typed abstract value."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"Method({self.obj!r}.{self.name})"


class Partial(V):
    __slots__ = ("f", "args", "kw")

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw

    def __repr__(self):
        return f"Partial({self.f},{self.args},{self.kw})"


class SuperV(V):
    __slots__ = ("obj", "cls")

    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class FieldV(V):
    """dataclasses.field(...)"""

    def __init__(self, default=None, factory=None, init=True, kw_only=False):
        self.default, self.factory, self.init, self.kw_only = default, factory, init, kw_only


class DataInit(V):
    """The __init__ generated by @dataclass for `cls`, possibly bound."""

    def __init__(self, cls, bound=None):
        self.cls, self.bound = cls, bound


class SliceV(V):
    pass


class Variant(V):
    """A value of a native enum variant that carries fields."""
    __slots__ = ("name", "fields")

    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def __repr__(self):
        return f"Variant({self.name}, {self.fields})"


class Alt(V):
    """One of several non-numeric values; `when[i]`, if known: alternatives (sets of literals), one of which holds if it is vals[i]."""
    __slots__ = ("vals", "when")

    def __init__(self, vals, when=None):
        self.vals = tuple(vals)
        self.when = when

    def __repr__(self):
        return f"Alt{self.vals}"


# ------------------------------------------------------------------ conditions
# cond trees: ('lit', L) | ('not', c) | ('and', (c...)) | ('or', (c...)) | ('unk', id)
# literals:  ('pos', formkey)   linear form > 0 (or >= 0)
#            ('eq', formkey, neg) ; ('opaque', token, polarity) ; ('or', frozenset)

def fkey(form):
    items = tuple(sorted(((repr(k), round(v, 9)) for k, v in form.items() if abs(v) > 1e-12)))
    return items


class Lit:
    __slots__ = ("kind", "form", "tok", "pol", "subs", "_k")

    def __init__(self, kind, form=None, tok=None, pol=True, subs=None):
        self.kind, self.form, self.tok, self.pol, self.subs = kind, form, tok, pol, subs
        if kind == "pos":
            f = norm_form(form)
            self.form = f
            self._k = ("pos", fkey(f))
        elif kind == "eq":
            self._k = ("eq", fkey(form), pol)
        elif kind == "or":
            self._k = ("or", frozenset(s._k for s in subs))
        else:
            self._k = (kind, tok, pol)

    def __eq__(self, o):
        return isinstance(o, Lit) and o._k == self._k

    def __hash__(self):
        return hash(self._k)

    def neg(self):
        if self.kind == "pos":
            return Lit("pos", form={k: -v for k, v in self.form.items()})
        if self.kind == "or":
            return None
        return Lit(self.kind, form=self.form, tok=self.tok, pol=not self.pol)

    def __repr__(self):
        return litstr(self)


def atomstr(a):
    if a == 1:
        return "1"
    if isinstance(a, tuple) and a and a[0] == "in":
        return str(a[1])
    if isinstance(a, tuple) and a and a[0] == "pow":
        return f"({formstr(dict(a[1]))})^{a[2]}"
    if isinstance(a, tuple) and a and a[0] == "div":
        return f"({formstr(dict(a[1]))})/({formstr(dict(a[2]))})"
    if isinstance(a, tuple) and a and a[0] == "mul":
        return f"({formstr(dict(a[1]))})*({formstr(dict(a[2]))})"
    return str(a[1] if isinstance(a, tuple) and len(a) > 1 else a)


def formstr(f):
    if f is None:
        return "?"
    parts = []
    for k, v in sorted(f.items(), key=lambda kv: repr(kv[0])):
        if abs(v) < 1e-12:
            continue
        parts.append(f"{v:g}" if k == 1 else (f"{v:g}*{atomstr(k)}" if v != 1 else atomstr(k)))
    return " + ".join(parts) or "0"


def litstr(l):
    if l.kind == "pos":
        return formstr(l.form) + " > 0"
    if l.kind == "eq":
        return formstr(l.form) + (" == 0" if l.pol else " != 0")
    if l.kind == "or":
        return "(" + " or ".join(map(litstr, l.subs)) + ")"
    return ("" if l.pol else "not ") + str(l.tok)


def norm_form(f):
    """Normalise `f > 0` towards a linear inequality, assuming denominators and even-power bases positive."""
    for _ in range(4):
        g = _norm1(f)
        if g is None:
            break
        f = g
    # scale so that the first atom has coefficient +-1
    ks = sorted((k for k in f if k != 1 and abs(f[k]) > 1e-12), key=repr)
    if ks:
        c = abs(f[ks[0]])
        f = {k: v / c for k, v in f.items() if abs(v) > 1e-12}
    return f


def _norm1(f):
    items = [(k, v) for k, v in f.items() if abs(v) > 1e-12]
    # a single quotient plus other terms:  c*N/D + R > 0  ->  c*N + R*D > 0 when R is constant or absent
    divs = [(k, v) for k, v in items if isinstance(k, tuple) and k[0] == "div"]
    if len(divs) == 1 and all(k == 1 for k, v in items if k is not divs[0][0]):
        (k, v) = divs[0]
        r = f.get(1, 0.0)
        out = {}
        for a, c in k[1]:
            out[a] = out.get(a, 0.0) + v * c
        if r:
            for a, c in k[2]:
                out[a] = out.get(a, 0.0) + r * c
        return out
    # a^2 - b^2, a^2 - const
    if len(items) == 2:
        (k1, v1), (k2, v2) = items

        def root(k, v):
            if k == 1:
                return {1: math.sqrt(abs(v))}
            if isinstance(k, tuple) and k[0] == "pow" and k[2] == 2:
                return {a: c * math.sqrt(abs(v)) for a, c in k[1]}
            return None
        if v1 * v2 < 0 and any(isinstance(k, tuple) and k[0] == "pow" and k[2] == 2 for k in (k1, k2)):
            r1, r2 = root(k1, v1), root(k2, v2)
            if r1 is not None and r2 is not None:
                out = {}
                s1, s2 = (1, -1) if v1 > 0 else (-1, 1)
                for a, c in r1.items():
                    out[a] = out.get(a, 0.0) + s1 * c
                for a, c in r2.items():
                    out[a] = out.get(a, 0.0) + s2 * c
                return out
    return None


def cond_lits(c, pol=True):
    """Literals implied by cond `c` having truth value `pol` (conjunction); disjunctions become one literal."""
    if c is None:
        return []
    k = c[0]
    if k == "lit":
        l = c[1] if pol else c[1].neg()
        return [l] if l is not None else []
    if k == "not":
        return cond_lits(c[1], not pol)
    if k == "alt":
        return cond_lits(c[1] if pol else c[2], True)
    if not c[1]:
        return []
    if (k == "and" and pol) or (k == "or" and not pol):
        out = []
        for x in c[1]:
            out += cond_lits(x, pol)
        return out
    if k in ("or", "and"):
        subs = []
        for x in c[1]:
            ls = cond_lits(x, pol)
            if len(ls) == 1:
                subs.append(ls[0])
            else:
                subs.append(Lit("opaque", tok=("conj", tuple(sorted(map(litstr, ls))))))
        return [Lit("or", subs=tuple(subs))]
    return []
