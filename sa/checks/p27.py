"""A number and an array get the same answer: each function that takes a number or an array is interpreted with the argument once as a number
and once as a one-dimensional array of unknown length, and the formulas of the two results are compared."""
import ast
import itertools
import re

from .. import alg, interp, naming, values
from ..drive import annotation, doc_scalar, run_unit, sweep
from ..interp import HDict, HList, HObj, formstr
from ..project import atom
from ..values import *
from ..interp import lits_of_num
from . import p26

RULES = {
    "value": "the answer for a number is the formula that an array gets element by element",
    "threshold": "the answer for a number and the answers for the elements of an array are zero below the same thresholds",
    "element": "the answer for an element of an array does not depend on the other elements",
    "shape": "an array is answered with an array: it is not added up into one number",
    "broadcast": "an array of any length is accepted: it is not combined element by element with a table of a fixed length",
}
NUMARR = re.compile(r"RealOrRealArray|ArrayLike|ComplexOrComplex|Union\[(float|complex), *(npt|np|Real|Complex)|float *\| *(npt|np|Real)|(npt|np|Real)[\w.\[\]]* *\| *float")
DOCD = re.compile(r"(float|double|scalar|number)\s*(or|,|\|)\s.*(array|ndarray)|array\w*\s*(or|,|\|)\s*(float|double|scalar|number)", re.I)
SCALAR_DOC = re.compile(r"^\s*(float|double|int)\b")
TESTS = {"np.isscalar", "numpy.isscalar", "hasattr", "np.atleast_1d", "isinstance", "np.ndim"}
QUICK, THOROUGH = 60000, 400000


def described(f, p):
    return documented(ast.get_docstring(f.node) or "", p)


def documented(doc, p):
    for l in doc.split("\n"):
        m = re.match(r"\s*([\w, ]+?)\s*:(.*)$", l)
        if m and p in [x.strip() for x in m.group(1).split(",")]:
            return m.group(2)
    return ""


def both(f):
    """The parameters that take a number or an array: by annotation, by documentation, or because the body asks which it is."""
    a = f.node.args
    asked = {n.args[0].id for n in ast.walk(f.node) if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Name) and ast.unparse(n.func) in TESTS}
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs
            if p.arg not in ("self", "cls") and annotation(p) not in ("float", "int") and (NUMARR.search(annotation(p)) or DOCD.search(described(f, p.arg)) or p.arg in asked)]


def isfresh(x):
    if isinstance(x, tuple):
        return len(x) == 3 and x[0] == "?" or any(isfresh(y) for y in x)
    return isinstance(x, str) and naming.HASH.search(x) is not None


def opaque(x):
    """The formula contains a value that is only known by what it was computed from."""
    return isinstance(x, tuple) and (len(x) > 1 and x[0] in ("u", "big") or any(opaque(y) for y in x))


def items(x):
    """The elements of an array that a formula singles out."""
    if isinstance(x, tuple):
        if len(x) == 4 and x[:2] == ("u", "item"):
            return {x[3]} | items(x[2])
        return set().union(*[items(y) for y in x])
    return set()


def constants(a, b):
    """The first pair of different numbers of two formulas of the same structure; [] if all are equal, None if the structures differ."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:1] == b[:1] == ("big",) and a[1] == b[1]:
            return [] if a[2] == b[2] else [("one value", "another")]
        if a[:1] == b[:1] == ("l",) and len(a) != len(b) and all(len(x) == 1 and x[0][0] == 1 for x in a[1:] + b[1:]):
            return [(f"a table of {len(a) - 1} numbers", f"one of {len(b) - 1}")]
        if len(a) != len(b):
            return None
        out = []
        for x, y in zip(a, b):
            r = constants(x, y)
            if r is None:
                return None
            out = out or r
        return out
    if isinstance(a, float) and isinstance(b, float):
        return [] if a == b or a != a and b != b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) else [(f"{a:.6g}", f"{b:.6g}")]
    return [] if type(a) is type(b) and a == b else None


def compare(a, b):
    """(verdict, text) for the formulas of the answers to a number and to an array."""
    if a.form is None or b.form is None:
        return "open", "no formula"
    if a.form == b.form:
        return "ok", ""
    A, B = (sorted(((naming.canon(k), c) for k, c in x.form.items()), key=repr) for x in (a, b))
    if [k for k, _ in A] == [k for k, _ in B]:
        rs = [y / x for (_, x), (_, y) in zip(A, B) if x]
        if rs and all(abs(r - rs[0]) < 1e-9 * abs(rs[0]) for r in rs):
            if abs(rs[0] - 1) < 1e-9:
                return "ok", ""
            return "bad", f"an array is answered with {rs[0]:.6g} times the value that a number gets"
    zero = [interp.is_zero(x) for x in (a, b)]
    if zero == [True, False] and b.const is None:
        return "bad", "every number is answered with zero, an array is not"
    if zero == [False, True] and a.const is None:
        return "bad", "every array is answered with zeros, a number is not"
    c = constants(tuple(A), tuple(B))
    if c == []:
        return "ok", ""
    if c and (isfresh(tuple(a.form)) or opaque(tuple(a.form))):
        return "bad", f"the same formula for a number and for an array, with {c[0][0]} in one and {c[0][1]} in the other"
    if items(tuple(b.form)) - items(tuple(a.form)):
        return "element", f"the answer for every element of an array depends on others: element {sorted(map(str, items(tuple(b.form))))[0]}"
    if isfresh(tuple(a.form)) or isfresh(tuple(b.form)):
        return "open", "part of the formula is unknown"
    if opaque(tuple(a.form)) or opaque(tuple(b.form)):
        try:
            return ("ok", "") if alg.equal(a.form, b.form) else ("open", "part of the formula is only known by name")
        except alg.TooBig:
            return "open", "formula too large"
    if True:
        try:
            if alg.equal(a.form, b.form):
                return "ok", ""
        except alg.TooBig:
            return "open", "formula too large"
        return "bad", f"a number is answered with {formstr(a.form)[:120]}, an array with {formstr(b.form)[:120]}"


def limits(x, p):
    """The conditions on the argument without which the answer is zero: comparisons of known quantities."""
    nz = lits_of_num(x)
    if nz is ALL:
        return None
    return {l for l in nz if l.kind == "pos" and not isfresh(tuple(l.form)) and any(("in", p) in symbols(k) for k in l.form)}


def symbols(k):
    if not isinstance(k, tuple):
        return set()
    return {k} if k[:1] == ("in",) else set().union(*[symbols(y) for y in k])


def thresholds(a, b, p):
    """(verdict, text) for the conditions under which a number and an array are answered with something else than zero."""
    la, lb = limits(a, p), limits(b, p)
    if la is None or lb is None or not (la or lb):
        return None, ""
    if la == lb:
        return "ok", ""
    for one, x, other, y, l in (("number", a, "array", b, la - lb), ("array", b, "number", a, lb - la)):
        if l:
            if y.form is None or isfresh(tuple(y.form)) or "'u', 'join'" in repr(y.form) or "'u', 'masked'" in repr(y.form):
                return "open", "part of the formula is unknown"
            return "bad", f"a{'n' * (one == 'array')} {one} is answered with zero unless {' and '.join(sorted(map(str, l)))[:160]}, a{'n' * (other == 'array')} {other} is not"


def pairs(eng, a, b, sa, sb, d=0):
    """The corresponding numbers of two answers: [(where, number, number)]; None where they do not correspond."""
    if isinstance(a, Num) and isinstance(b, Num):
        return [("", a, b)]
    if d > 2:
        return [("", None, None)]
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.elems) == len(b.elems):
        return [(f"[{i}]{w}", x, y) for i, (p, q) in enumerate(zip(a.elems, b.elems)) for w, x, y in pairs(eng, p, q, sa, sb, d + 1)]
    if isinstance(a, Ref) and isinstance(b, Ref):
        h, g = eng.get(sa, a.id), eng.get(sb, b.id)
        if isinstance(h, HDict) and isinstance(g, HDict) and h.items and set(h.items) == set(g.items) and h.rest is None and g.rest is None:
            return [(f"[{k!r}]{w}", x, y) for k in sorted(h.items, key=repr) for w, x, y in pairs(eng, h.items[k], g.items[k], sa, sb, d + 1)]
        if isinstance(h, HList) and isinstance(g, HList) and h.rest is None and g.rest is None and len(h.elems) == len(g.elems) and h.elems:
            return [(f"[{i}]{w}", x, y) for i, (p, q) in enumerate(zip(h.elems, g.elems)) for w, x, y in pairs(eng, p, q, sa, sb, d + 1)]
        if isinstance(h, HObj) and isinstance(g, HObj) and h.cls is not None and g.cls is not None and h.cls.node is g.cls.node and set(h.attrs) == set(g.attrs):
            return [(f".{k}{w}", x, y) for k in sorted(h.attrs) if isinstance(h.attrs[k], Num) for w, x, y in pairs(eng, h.attrs[k], g.attrs[k], sa, sb, d + 1)] or [("", None, None)]
    return [("", None, None)]


def ask(eng, u, p, ps, kind, budget):
    def hook(a, tag, f):
        if f is not None and f.node is u.f.node:
            if a.arg == p:
                return atom(p, None, kind=kind)
            if annotation(a) in ("float", "int") or a.arg in ps or doc_scalar(f, a.arg):
                return atom(a.arg, None, kind="scalar")
        elif f is not None and f.name == "__init__" and (annotation(a) in ("float", "int") or doc_scalar(f, a.arg) or f.cls is not None and SCALAR_DOC.search(documented(ast.get_docstring(f.cls.node) or "", a.arg))):
            return atom("self." + a.arg, None, kind="scalar")
        return None
    eng.param_hook = hook
    try:
        ev, res, err = run_unit(eng, u, full=False, budget=budget)
    finally:
        eng.param_hook = None
    eng.events.clear()
    return ev, res, err, eng.state


def judge(eng, u, p, ps):
    budget = eng.p27_budget
    _, _, err, _ = ask(eng, u, p, ps, "scalar", budget)     # resolves what is computed once and shared
    if err is not None and err != "always raises":
        return [("value", "", "open", err)]
    base = next(values._fresh) + 1000
    eng.exact_param, interp.EXACT[0] = p, True
    got = []
    for kind, eng.exact in (("scalar", "number"), (VECTOR, "array")):
        values._fresh = itertools.count(base)               # the same unknowns get the same names in both
        got.append(ask(eng, u, p, ps, kind, budget))
    eng.exact, interp.EXACT[0] = None, False
    values._fresh = itertools.count(base + 10**6)
    (_, a, e1, s1), (ev, b, e2, s2) = got
    out = []
    if e1 or e2:
        return [("value", "", "open", f"number: {e1 or 'answered'}, array: {e2 or 'answered'}")]
    w = [(x.info["n"], x.func) for x in ev if x.kind == "broadcast" and ("in", p) in x.info["deps"]]
    out.append(("broadcast", "", "bad" if w else "ok", f"combined element by element with a table of {w[0][0]} entries" if w else ""))
    native = any(x.kind == "native_call" for x in ev)       # the compiled kernels look at the number of dimensions themselves
    for where, x, y in pairs(eng, a, b, s1, s2):
        if x is None:
            out.append(("value", where, "open", "the answers are not numbers"))
            continue
        v, t = compare(x, y)
        out.append(("element" if v == "element" else "value", where, "open" if w and v == "bad" else "bad" if v == "element" else v, t))
        if v in ("ok", "bad") and ("in", p) in y.deps:
            out.append(("element", where, "ok", ""))
        v, t = thresholds(x, y, p)
        if v is not None:
            out.append(("threshold", where, v, t))
        if ("in", p) in y.deps and ("in", p) in x.deps and not native:
            out.append(("shape", where, "bad" if y.kind == "scalar" and y.const is None else "ok" if y.kind == "array" else "open", "an array is answered with a single number"))
    return out


def collect(eng, u, ev, res, err, full):
    if u.module.rust or not u.public:
        return []
    ps = both(u.f)
    return [(p,) + r for p in ps for r in judge(eng, u, p, ps)]


def same(eng, f, args, kw, node, st, ctx):
    """A method without arguments that returns a float has the same value whatever the argument of the function in question is."""
    if isinstance(f, Func) and isinstance(f.bound, Ref) and not args and not kw and f.node is not None and getattr(f.node, "returns", None) is not None and ast.unparse(f.node.returns) == "float":
        return atom(f"{f.name}()", None, kind="scalar")
    return None


def make(budget):
    def f(repo):
        eng, _ = p26.engine(repo)
        eng.call_hook = same
        eng.p27_budget = budget
        return eng
    return f


def fid(u):
    c = u.f.cls
    return f"{u.f.module.name}:{c.name + '.' if c is not None else ''}{u.name}"


def run(rep, repo, tier):
    interp.CLIP[0] = 4000
    eng, w, us, out = sweep(repo, collect, select=lambda u: u.public and not u.module.rust and both(u.f), budget=1, make=make(THOROUGH if tier == "thorough" else QUICK), both=False)
    units = {u.label: u for u in us}
    bad = {}
    for label, _, err, items in out:
        u = units[label]
        rep.count("functions that take a number or an array")
        for p, rule, at, verdict, text in items:
            if verdict == "bad":
                bad.setdefault((rule, f"{fid(u)}: {p}{at}"), (f"{label}({p}){at}: {text}", f"{u.f.module.rel}:{u.f.node.lineno}"))
            elif verdict == "open":
                rep.open(rule, f"{label}: {p}{at}", text)
            else:
                rep.obligation(rule, f"{label}: {p}{at}")
    for (rule, key), (msg, where) in sorted(bad.items()):
        rep.violation(rule, key, msg, where)
    rep.floor("value", 250)
    rep.floor("broadcast", 250)
    rep.floor("element", 150)
    rep.floor("threshold", 100)
    rep.floor("shape", 150)
