"""Unsupported option values are rejected: every public function is interpreted with a word that names no option, channel or flavour, and
the ways it can still return are looked at; and no function returns a value on one path and falls off its end on another."""
import ast
import re

from ..drive import annotation, excluded, run_unit, sweep
from ..project import make_engine
from ..interp import is_zero
from ..values import *

RULES = {
    "unknown": "a word that is no option of the function, once it is looked at, leads to an exception on every path: not to None, a default's value or an unbound name",
    "lists": "a list of final states with an unknown member is answered by an exception",
    "documented": "an option that the docstring of the parameter quotes is accepted",
    "value": "a function that returns a value on one path does not end without one on another",
}
WORD = Str("no such option")
OPTIONS = {"fs", "final_state", "product", "method", "mode", "spectrum_type", "msqrd_signature", "integrator", "three_body_integrator", "ls_or_img", "target", "flavor",
           "f", "kind", "spectrum_kind", "particle", "lepton", "state", "messenger", "channel"}
LISTS = {"final_states", "states"}
MEMBERS = (["mu", "mu"], ["mu", "mu", "pi0"], ["mu", "mu", "pi0", "pi0"])


def words(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return [n.value]
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
        return [x for e in n.elts for x in words(e)]
    return []


def names(f):
    a = f.node.args
    return [p for p in a.posonlyargs + a.args + a.kwonlyargs if p.arg not in ("self", "cls")]


def options(f):
    ps = {p.arg: p for p in names(f)}
    out = {n for n, p in ps.items() if n in OPTIONS or annotation(p).replace("Optional[", "").rstrip("]") == "str"}
    for m in ast.walk(f.node):
        if isinstance(m, ast.Compare) and isinstance(m.left, ast.Name) and m.left.id in ps and any(words(k) for k in m.comparators):
            out.add(m.left.id)
    return sorted(out), sorted(set(ps) & LISTS)


def contains_probe(eng, v, st, d=0):
    if v is eng.probe:
        return True
    if d > 3:
        return False
    if isinstance(v, (Tup, Ref)):
        try:
            el = eng.elements(v, st)
        except Exception:
            return False
        return el is not None and not isinstance(v, Num) and any(contains_probe(eng, x, st, d + 1) for x in el[0])
    return False


def hook(eng, f, args, kw, node, st, ctx):
    """Anything that is not analysed and receives the word may reject it."""
    if isinstance(f, (Func, Cls, Partial, DataInit, Method)) or isinstance(f, Ext) and (f.name.startswith("hazma._core") or f.name.startswith("builtins.") or f.name.startswith("logging") or "." not in f.name):
        return None
    if isinstance(f, Ref):
        return None
    if any(contains_probe(eng, a, st) for a in list(args) + list(kw.values()) if not isinstance(a, (list, tuple))):
        eng.mark(st, out=True)
    return None


def ask(eng, u, p, value, budget):
    """[(path literals, value, mark)] of the ways the call returns, the error, the unbound names read."""
    base = getattr(eng, "param_hook", None)
    eng.probe, eng.probe_id, eng.watch, eng.watch_rets = WORD, -7, u.f, None
    eng.base[-7] = HMark()

    def ph(a, tag, f):
        if p is not None and f is not None and f.node is u.f.node and a.arg == p:
            return value(eng)
        if f is not None and f.node is u.f.node and a.arg in LISTS:
            return Tup([Str(x) for x in MEMBERS[1]])
        return base(a, tag, f) if base is not None else None
    eng.param_hook = ph
    eng.events.clear()
    err, ev, res = None, [], None
    try:
        base_call = eng.call_hook
        eng.call_hook = hook
        ev, res, err = run_unit(eng, u, full=True, budget=budget)
    finally:
        eng.param_hook = base
        eng.call_hook = base_call
        eng.probe = eng.watch = None
        eng.base.pop(-7, None)
    unbound = [x for x in ev if x.kind == "undefined_name"]
    eng.events.clear()
    if u.name == "__init__" and err is None and res is None:
        err = "always raises"
        eng.param_hook = (lambda a, tag, f: None if a.arg != p or f is None or f.node is not u.f.node else unknown())
        try:
            _, res, e = run_unit(eng, u, full=True, budget=budget)
        finally:
            eng.param_hook = base
        eng.events.clear()
        if res is None or e is not None:
            err = "object not constructed"
    return eng.watch_rets, err, unbound, ev


def shown(v):
    if isinstance(v, NoneV):
        return "None"
    if is_zero(v):
        return "zero"
    return "a value"


def judge(u, rets, err):
    """(verdict, text): "ok", "open" or "bad"."""
    if err == "always raises":
        return "ok", ""
    if err is not None:
        return "open", err
    if rets is None:
        return "skip", ""
    if not any(m is not None and m.may for _, _, m in rets):
        return "skip", ""
    bad, opn = [], False
    for lits, v, m in rets:
        if m is None or not m.may:
            continue
        if m.out or not m.must:
            opn = True
            continue
        if u.name == "__init__":
            bad.append("accepted")
        elif isinstance(v, NoneV):
            bad.append("answered with None")
        elif isinstance(v, Num) and is_zero(v):
            if lits:
                opn = True
            else:
                bad.append("answered with zero")
        elif isinstance(v, Num) and v.const is None or isinstance(v, (Tup, Ref, Func, Partial)):
            bad.append("answered with the result for another option")
        else:
            opn = True
    if bad:
        return "bad", "; ".join(sorted(set(bad)))
    return ("open", "on some paths only") if opn else ("ok", "")


def documented(f, p):
    """The words a docstring quotes in the entry of parameter `p`."""
    doc = ast.get_docstring(f.node) or ""
    lines = doc.split("\n")
    out, on = [], False
    for l in lines:
        m = re.match(r"(\s*)([\w, ]+?)\s*:(.*)$", l)
        if m and not m.group(1):
            on = p in [x.strip() for x in m.group(2).split(",")]
            l = m.group(3) if on else l
        elif l.strip() and not l.startswith(" "):
            on = False
        if on:
            out += re.findall(r"(?<![\w`])['\"]([A-Za-z0-9^/_ -]+?)['\"](?!\w)", l)
    return list(dict.fromkeys(out))


def unimplemented(f):
    return any(isinstance(n, ast.Raise) and n.exc is not None and "NotImplementedError" in ast.unparse(n.exc) for n in ast.walk(f.node))


def stores(f):
    return {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def fid(u):
    c = u.f.cls
    return f"{u.f.module.name}:{c.name + '.' if c is not None else ''}{u.name}"


def collect(eng, u, ev, res, err, full):
    out = []
    if u.module.rust or not u.public or not getattr(eng, "p16_on", True):
        return out
    os_, ls = options(u.f)
    if not os_ and not ls:
        return out
    _, e, _, _ = ask(eng, u, None, lambda eng: None, eng.p16_budget)
    if e == "always raises":
        return [(r, p, "open", "raises for every word, in this analysis", []) for r, ps in (("unknown", os_), ("lists", ls)) for p in ps]
    for p in os_:
        rets, e, unb, _ = ask(eng, u, p, lambda eng: WORD, eng.p16_budget)
        v, text = judge(u, rets, e)
        ub = sorted({x.info.get("name") for x in unb if x.module is u.f.module and x.func.split(".")[-1] == u.name and x.info.get("name") in stores(u.f.node)})
        out.append(("unknown", p, v, text, ub))
        if v in ("ok", "bad", "open"):
            for word in documented(u.f, p):
                _, e, _, _ = ask(eng, u, p, lambda eng, word=word: Str(word), eng.p16_budget)
                if e == "always raises" and unimplemented(u.f):
                    e = "the function says that something is not implemented"
                out.append(("documented", f"{p}={word}", "bad" if e == "always raises" else "open" if e else "ok", e or "", []))
    for p in ls:
        for ms in MEMBERS:
            for i in sorted({0, len(ms) - 1}):
                def val(eng, ms=ms, i=i):
                    return Tup([WORD if j == i else Str(x) for j, x in enumerate(ms)])
                rets, e, unb, _ = ask(eng, u, p, val, eng.p16_budget)
                v, text = judge(u, rets, e)
                out.append(("lists", f"{p}: {len(ms)} states, {'first' if i == 0 else 'last'} unknown", v, text, []))
    return out


# ------------------------------------------------------------------ functions that end without a value
def own(f):
    for c in ast.iter_child_nodes(f):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield c
        yield from own(c)


def never(tree_index, call):
    """A call of a project function that cannot return."""
    n = call.func.attr if isinstance(call.func, ast.Attribute) else getattr(call.func, "id", None)
    if n in ("exit", "_exit", "abort"):
        return True
    fs = tree_index.get(n, [])
    return bool(fs) and all(not any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) for x in own(f)) and not falls(f.body, {}) for f in fs)


def falls(body, ix):
    """Whether control can reach the end of the block."""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and never(ix, s.value):
            return False
        if isinstance(s, ast.If):
            if s.orelse and not falls(s.body, ix) and not falls(s.orelse, ix):
                return False
            if isinstance(s.test, ast.Constant) and s.test.value and not falls(s.body, ix):
                return False
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            if not falls(s.body, ix):
                return False
        elif isinstance(s, ast.Try):
            if s.finalbody and not falls(s.finalbody, ix):
                return False
            if not falls(s.body + s.orelse, ix) and all(not falls(h.body, ix) for h in s.handlers):
                return False
        elif isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(n, ast.Break) for n in ast.walk(s)):
            return False
        elif isinstance(s, ast.Match):
            total = any(c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None for c in s.cases)
            if total and all(not falls(c.body, ix) for c in s.cases):
                return False
    return True


def exhaustive(f):
    """An if/elif chain at the end over every member of an enum, or over type-checked alternatives, is not judged."""
    last = f.body[-1]
    tests = []
    while isinstance(last, ast.If):
        tests.append(last.test)
        if len(last.orelse) == 1 and isinstance(last.orelse[0], ast.If):
            last = last.orelse[0]
        else:
            break
    if len(tests) < 2:
        return False
    return all(isinstance(t, ast.Call) and getattr(t.func, "id", "") == "isinstance" or isinstance(t, ast.Compare) and isinstance(t.comparators[0], ast.Attribute) for t in tests)


def is_none(e):
    return e is None or isinstance(e, ast.Constant) and e.value is None


def valueless(tree, ix):
    for c in ast.walk(tree):
        if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        xs = list(own(c))
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in xs):
            continue
        r = [n for n in xs if isinstance(n, ast.Return)]
        v = [n for n in r if not is_none(n.value)]
        if not v:
            continue
        opt = c.returns is not None and ("None" in ast.unparse(c.returns) or "Optional" in ast.unparse(c.returns))
        yield c, falls(c.body, ix) and not opt and not exhaustive(c)


CONTROL = """
def stop(x):
    raise ValueError(x)
def bad(x):
    if x == "a":
        return 1.0
    elif x == "b":
        return 2.0
def good(x):
    if x == "a":
        return 1.0
    stop(x)
def good2(x):
    try:
        return float(x)
    except ValueError:
        raise TypeError(x)
def good3(x):
    for y in x:
        if y:
            return y
    return None
"""


def qual(tree, node):
    def go(n, path):
        for c in ast.iter_child_nodes(n):
            q = path + [c.name] if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else path
            if c is node:
                return q
            r = go(c, q)
            if r:
                return r
    return ".".join(go(tree, []) or ["?"])


def index(trees):
    ix = {}
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, ast.FunctionDef):
                ix.setdefault(n.name, []).append(n)
    return ix


def run(rep, repo, tier):
    t = ast.parse(CONTROL)
    got = [c.name for c, b in valueless(t, index([t])) if b]
    if got != ["bad"]:
        raise RuntimeError(f"value rule fails its control: {got}")

    def make(repo):
        eng = make_engine(repo)
        eng.p16_budget = 200000 if tier == "quick" else 400000
        return eng
    eng, w, us, out = sweep(repo, collect, select=lambda u: u.public and not u.module.rust and any(options(u.f)), budget=1, make=make, both=False)
    where = {u.label: (f"{u.f.module.rel}:{u.f.node.lineno}", fid(u)) for u in us}
    seen = {}
    for label, full, err, xs in out:
        for rule, p, v, text, ub in xs:
            key = f"{where[label][1]}: {p}"
            seen.setdefault((rule, key), []).append((v, text, ub, label))
    for (rule, key), vs in sorted(seen.items()):
        bad = [x for x in vs if x[0] == "bad" or x[2]]
        if bad:
            v, text, ub, label = bad[0]
            text = text or "reads " + ", ".join(ub) + ", which no branch has bound"
            if rule == "documented":
                rep.violation(rule, key, f"{label}: the documented option {key.split('=', 1)[1]!r} raises for every input", where[label][0])
                continue
            rep.violation(rule, key, f"{label}: a word that is no such option is {text}" if v == "bad" else f"{label}: {text}", where[label][0])
        elif any(x[0] == "ok" for x in vs):
            rep.obligation(rule, key)
        elif any(x[0] == "open" for x in vs):
            rep.open(rule, key, [x[1] for x in vs if x[0] == "open"][0])
        else:
            rep.count("parameters never looked at")
    ms = [(mn, m) for mn, m in sorted(eng.modules.items()) if not m.rust and not excluded(mn)]
    ix = index([m.tree for _, m in ms])
    for mn, m in ms:
        for c, bad in valueless(m.tree, ix):
            q = f"{mn}:{qual(m.tree, c)}"
            if bad:
                rep.violation("value", q, f"{q} returns a value on some paths and ends without one on others", f"{m.rel}:{c.lineno}")
            else:
                rep.obligation("value", q)
    rep.floor("value", 300)
    rep.floor("unknown", 25)
    rep.floor("lists", 6)
