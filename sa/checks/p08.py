"""Queries leave models alone: abstract evaluation of every public query on a model object; the object's attributes afterwards are compared
with those before the call, through property setters, helpers, dynamic attribute assignment and __dict__."""
from .. import extlib
from ..drive import Budget, Dead, members, parallel, sweep
from ..interp import State
from ..project import make_engine, root_ctx
from ..values import *
from . import p07

RULES = {
    "model": "after a query every parameter of the model (and what was derived from it) has the value it had before",
    "shared": "a function that copies a model in order to assign to the copy copies it deeply, unless no model keeps results in a container that the copy shares",
    "argument": "a function given a model (or theory, target, measurement) object does not assign its attributes",
}
MARKERS = {"list_annihilation_final_states", "list_decay_final_states", "total_spectrum", "annihilation_cross_sections", "decay_widths", "dnde_photon"}


def is_model(c):
    return c is not None and not c.is_enum() and any(c.lookup(n)[0] is not None for n in MARKERS)


def differs(eng, a, b, pre, post, depth=0):
    """Whether an attribute's value after the call is not the one before it (None: cannot tell)."""
    if a is b:
        return False
    if isinstance(a, Num) and isinstance(b, Num):
        if a.const is not None or b.const is not None:
            return not (a.const == b.const)
        if a.form is not None and b.form is not None and fkey(a.form) == fkey(b.form):
            return False
        if is_input(a):
            return True            # a constructor parameter itself
        return a.deps != b.deps     # derived: recomputed from the same things
    if isinstance(a, (Num, Str, NoneV)) and isinstance(b, (Num, Str, NoneV)) and type(a) is not type(b):
        return True
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s != b.s
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return False
    if isinstance(b, Alt) and not isinstance(a, Alt):
        return True if isinstance(a, (Str, NoneV)) else None
    return None


def is_input(v):
    return len(v.deps) == 1 and next(iter(v.deps))[0] == "in" and len(v.form or ()) == 1


def collect(eng, u, ev, res, err, full):
    if not u.public or u.label.endswith((".setter", ".deleter")) or u.name in ("__init__", "__new__", "__setattr__", "__post_init__"):
        return [], 0, 0
    if err:
        return [], 0, 0
    out, n, open_ = [], 0, 0
    own = f"{u.f.module.name}:{u.f.qual}"
    post = eng.state.heap
    for name, r in sorted(eng.roots.items()):
        a, b = eng.pre.get(r.id), post.get(r.id)
        if a is None or b is None or a.kind != "obj" or b.kind != "obj" or a is b and not err:
            if a is not None and a.kind == "obj" and (name != "self" or is_model(a.cls)):
                n += len(a.attrs)
            continue
        if name == "self" and not is_model(a.cls):
            continue
        who = own + ("" if name == "self" else f": {name}")
        rule = "model" if name == "self" else "argument"
        for k in sorted(set(a.attrs) | set(b.attrs)):
            if k == "*":
                if k in b.attrs and k not in a.attrs:
                    out.append((rule, who, f"{u.label} assigns attributes of {'the model' if name == 'self' else name} by name and does not put them back",
                                next((x.where for x in ev if x.kind == "setattr_dynamic" and x.info["obj"] == r.id), "")))
                continue
            if k not in a.attrs:
                continue  # a cache that did not exist before
            n += 1
            d = differs(eng, a.attrs[k], b.attrs.get(k), eng.pre, post)
            if d:
                w = [x.where for x in ev if x.kind == "setattr" and x.info["obj"] == r.id and x.info["name"] == k]
                out.append((rule, f"{who}: {k.lstrip('_')}", f"after {u.label} the {k.lstrip('_')} of {'the model' if name == 'self' else name} is not what it was before", w[-1] if w else ""))
            elif d is None:
                open_ += 1
    for x in ev:
        if x.kind != "shallow_copy" or isinstance(x.info["of"], Ref) and not is_model(eng.get(eng.state, x.info["of"].id).cls):
            continue
        for y in ev:
            if y.kind in ("setattr", "setattr_dynamic") and y.info["obj"] is not None and y.info["obj"] == x.info["obj"] or y.kind == "mutate" and y.info["how"].startswith("attribute assignment") and y.info["alias"] & x.info["alias"]:
                out.append(("shared", f"{x.module.name}:{x.func}", u.label, x.where))
                break
    for x in ev:
        if x.kind == "mutate" and x.info["how"].startswith("attribute assignment") and not x.info.get("maybe"):
            n += 1
            for al in sorted(x.info["alias"], key=str):
                if al[0] == "param" and not al[1].startswith(("ctor.", "closure.")):
                    out.append(("argument", f"{own}: {al[1]}", f"{u.label} assigns attributes of its argument {al[1]}", x.where))
    return out, n, open_


def leaks(eng, c, budget):
    """The parameters of a model which, assigned on a shallow copy that is then asked its queries, turn up in the answers of the original:
    [(parameter, query)]."""
    cp = p07.ctor_params(c)
    if cp is None:
        return []
    props = {n for n, (v, k) in members(c).items() if isinstance(v, Prop) and isinstance(v.fset, Func)}
    for p in [p for p in cp[0] if p in props and p not in p07.WORDS]:
        st = State()
        init = cp[1].node.args
        need = len(init.args) - 1 - len(init.defaults)
        vals = {n: p07.value(c, n, "old", p07.WORDS[n][0] if n in p07.WORDS else None) for i, n in enumerate(cp[0]) if i < need or n in props}
        eng.steps, eng.memo, eng.cached_refs = 0, {}, {}
        old, eng.max_steps = eng.max_steps, 20 * budget
        try:
            a = p07.construct(eng, c, vals, st)
            b = extlib.clone(eng, a, st, False)
            if not isinstance(b, Ref) or not any(isinstance(x, Ref) and eng.get(st, x.id).kind in ("dict", "list") for x in eng.get(st, a.id).attrs.values()):
                return []      # nothing that the copy could share
            eng.setattr(b, p, p07.value(c, p, "new"), st, root_ctx(eng, c.module), c.module.tree)
        except (Dead, Budget, RecursionError, KeyError, TypeError, AttributeError, ValueError, IndexError):
            continue
        finally:
            eng.max_steps = old
            eng.events.clear()
        qs = list(p07.queries(c))
        for q in qs:
            r = p07.ask(eng, c, b, q, st, budget)
            st = r[1] if r is not None else st
        for q in qs:
            r = p07.ask(eng, c, a, q, st, budget)
            if r is not None and any(p07.new_deps(eng.deps_of(x, r[1]), p) for x in r[0]):
                return [(p, q[0])]
    return []


def run(rep, repo, tier):
    eng, w, us, out = sweep(repo, collect, budget=60000 if tier == "quick" else 1000000)
    for label, full, err, (xs, n, o) in out:
        if err == "too large":
            rep.open("model", label, err)
        else:
            rep.obligation("model", label)
        rep.count("attributes compared", n)
        rep.count("attributes whose change cannot be told", o)
        for rule, con, msg, where in xs:
            if rule != "shared":
                rep.violation(rule, con, msg, where)
    copies = {}
    for label, full, err, (xs, n, o) in out:
        for rule, own, who, where in xs:
            if rule == "shared":
                copies.setdefault(own, where)
    cs = [c for c in w.concrete() if is_model(c) and not c.is_enum()]
    hit = []
    if copies:
        for c, ls in zip(cs, parallel(cs, lambda c: leaks(eng, c, 8000), 8)):
            hit += [(c, p, q) for p, q in ls]
        rep.count("model classes whose shallow copies were followed", len(cs))
    rep.obligation("shared", f"{len(copies)} functions assign to a shallow copy of a model")
    for own, where in sorted(copies.items()):
        if hit:
            c, p, q = hit[0]
            rep.violation("shared", own, f"the model is copied shallowly and the copy assigned to; the copy shares its containers with the original, so that the {q} of a {c.name} depends on the {p} given to its copy", where)
    rep.floor("model", 300)
