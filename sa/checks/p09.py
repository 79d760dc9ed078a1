"""Caller data is never modified: abstract evaluation of every public function and method with parameters that carry their identity
through views, aliases, containers, attributes and helper calls; every in-place write is checked against those identities."""
from ..drive import sweep
from ..values import Ref

RULES = {
    "arguments": "no in-place write reaches storage that came in through a parameter",
    "constructed": "no method writes into storage that was handed to the constructor of its object",
}


def collect(eng, u, ev, res, err, full):
    if not u.public and not (u.cls is not None and u.name in ("__init__", "__call__")):
        return [], 0
    out, n = [], 0
    for x in ev:
        if x.kind in ("mutate", "container_write"):
            n += 1
        if x.kind != "mutate" or x.info.get("maybe") or x.info["how"].startswith("attribute assignment"):
            continue
        for a in sorted(x.info["alias"], key=str):
            if a[0] != "param":
                continue
            name = a[1]
            if name.startswith("closure."):
                out.append(("arguments", f"{u.label}: {name[8:]} of a returned function", f"a function returned by {u.label} modifies its argument {name[8:]} ({x.info['how']})", x.where))
            elif ":" in name and not name.startswith("ctor.") :
                pre, nm = name.rsplit(":", 1)
                # data handed to the constructor of an object that is itself an argument
                out.append(("arguments", f"{u.label}: {nm}", f"{u.label} modifies data held by its argument ({nm}, {x.info['how']})", x.where))
            elif name.startswith("ctor."):
                c = u.cls.name if u.cls is not None else u.label
                out.append(("constructed", f"{c}.{u.name}: {name[5:]}", f"{u.label} modifies the {name[5:]} that was passed to the constructor ({x.info['how']})", x.where))
            else:
                out.append(("arguments", f"{u.label}: {name}", f"{u.label} modifies its argument {name} ({x.info['how']})", x.where))
    return out, n


def run(rep, repo, tier):
    eng, w, us, out = sweep(repo, collect, budget=60000 if tier == "quick" else 1000000)
    for label, full, err, (xs, n) in out:
        if err == "always raises":
            pass
        elif err:
            rep.open("arguments", label, err)
        else:
            rep.obligation("arguments", label + ("" if full else " (required arguments)"))
        rep.count("writes resolved", n)
        for rule, con, msg, where in xs:
            rep.violation(rule, con, msg, where)
    rep.count("units", len(us))
    rep.floor("arguments", 300)
