"""Every channel value returned by the models' cross-section and width tables is computed abstractly from the
constructors down to the native kernels; the conditions under which it can be non-zero are extracted from every
path (early returns, conditional expressions, masks, kernel guards) and compared with the sum of the masses named
by the channel."""
from ..channels import ChannelValues, LIGHT, masses, variants
from ..guards import decide_closed, decide_not_suppressed
from ..models import make_engine
from ..values import ALL, Num, litstr

RULES = {
    "closed": "a channel's rate is zero whenever the available energy is below the sum of its final-state masses",
    "dm-threshold": "an annihilation channel's cross section is zero below twice the dark-matter mass",
    "open": "no guard keeps the rate at zero once the energy exceeds the kinematic threshold by 2%",
}
# channel: the lowest energy at which the implemented production mechanism opens, and why
RESONANT = {"pi0 pi0 gamma": (917.64, "produced through omega pi0, so it opens at the omega pi0 threshold")}
# the form-factor channels of the GeV models are not claimed below twice the dark-matter mass
DM_GEV = {"e e", "mu mu", "ve ve", "vm vm", "vt vt", "v v", "pi0 pi0 gamma"}


def run(rep, repo, tier):
    eng = make_engine(repo)
    for name, fl in variants():
        cv = ChannelValues(eng, name, flavor=fl)
        rep.count("models")
        for e in cv.errors:
            rep.open("closed", cv.label, e)
        for (q, ch), v in sorted(cv.values.items()):
            where = f"{cv.label} {'cross section' if q == 'sigma' else 'width'} of '{ch}'"
            if not isinstance(v, Num):
                rep.open("closed", where, "value is not numeric")
                continue
            t = masses(name, ch)
            if t is None:
                rep.open("closed", where, "unknown particle in the channel name")
                continue
            co, c = t
            en = cv.energy_atom(q)
            if en in co:
                continue
            rep.count("channel values")
            if v.nz is ALL:
                rep.obligation("closed", where + " (identically zero)")
                continue
            extra = {"mx"} if q == "sigma" else set()
            lits = sorted(v.nz, key=litstr)
            shown = "; ".join(litstr(l) for l in lits) or "none"
            if co or c > 0:
                r, w = decide_closed(lits, en, co, c, extra)
                if r == "closed":
                    rep.obligation("closed", where)
                elif r == "open":
                    rep.violation("closed", f"{cv.label}:{q}:{ch}", "non-zero below its threshold", _where(cv, q),
                                  f"e.g. at {fmt(w)} no guard forces zero; guards found: {shown}")
                else:
                    rep.open("closed", where, "guard not in closed form: " + shown)
            if q == "sigma" and (name in LIGHT or ch in DM_GEV):
                r, w = decide_closed(lits, en, {"mx": 2}, 0.0, extra)
                if r == "closed":
                    rep.obligation("dm-threshold", where)
                elif r == "open":
                    rep.violation("dm-threshold", f"{cv.label}:{ch}", "non-zero below twice the dark-matter mass", _where(cv, q),
                                  f"e.g. at {fmt(w)}; guards found: {shown}")
                else:
                    rep.open("dm-threshold", where, "guard not in closed form: " + shown)
            bounds = [(co, c)]
            if q == "sigma":
                bounds.append(({"mx": 2}, 0.0))
            if ch in RESONANT:
                bounds.append(({}, RESONANT[ch][0]))
            w = decide_not_suppressed(lits, en, bounds, extra)
            if w is None:
                rep.obligation("open", where)
            else:
                rep.violation("open", f"{cv.label}:{q}:{ch}", "kept at zero although the channel is open", _where(cv, q),
                              f"at {fmt(w[0])} the guard {litstr(w[1])} fails; guards found: {shown}")
    rep.floor("closed", 150)
    rep.floor("dm-threshold", 15)
    rep.floor("open", 200)


def fmt(env):
    return ", ".join(f"{k}={v:.6g}" for k, v in sorted(env.items()))


def _where(cv, q):
    c = cv.m.cls
    f = c.lookup({"sigma": "annihilation_cross_sections"}.get(q, "partial_widths"))[0] or c.lookup("decay_widths")[0]
    return f"{f.module.rel}:{f.node.lineno}" if f is not None and hasattr(f, "node") else c.name
