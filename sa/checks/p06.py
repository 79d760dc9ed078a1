"""Degree analysis: every coupling to standard-model fields carries the formal unit K and the dark-matter coupling the unit X;
units are propagated through constructors, properties, form factors and native kernels to every channel value."""
from ..channels import GEV, LIGHT, ChannelValues
from ..models import K, M, SPECS, X, make_engine
from ..values import ALL, D, D0, LIT, Num, dimstr

RULES = {
    "width-degree": "a partial width is of degree two in the mediator's couplings (decay to dark matter: in the dark-matter coupling)",
    "cross-section-degree": "a cross section is of degree two in the dark-matter coupling times two in the standard-model couplings (mediator pairs: four in the dark-matter coupling)",
    "homogeneous": "terms of different coupling degree are not added within one channel's rate",
}
K2, X2, K2X2, X4, K4X2 = D(K=2), D(X=2), D(K=2, X=2), D(X=4), D(K=4, X=2)
# total rates legitimately add channels of different degree
RATES = {K2, X2, K2X2, X4, K4X2}
SIGMA = {"s s": X4, "v v": X4, "pi0 v": K4X2}


def run(rep, repo, tier):
    eng = make_engine(repo, masses=False)
    for name in LIGHT + GEV:
        over = {k: (D0 if d == M else d) for k, d in SPECS[name][1].items() if not isinstance(d, str)}
        cv = ChannelValues(eng, name, over=over, width_dim=D0, vev_dim=D(K=-1), energy_dim=D0)
        rep.count("models")
        for e in cv.errors:
            rep.open("width-degree", cv.label, e)
        for (q, ch), v in sorted(cv.values.items()):
            where = f"{name} {'cross section' if q == 'sigma' else 'width'} of '{ch}'"
            rule = "width-degree" if q == "width" else "cross-section-degree"
            want = (X2 if ch == "x x" else K2) if q == "width" else SIGMA.get(ch, K2X2)
            if not isinstance(v, Num) or v.dim is None:
                rep.open(rule, where, "degree not determined")
            elif v.dim is LIT or v.nz is ALL:
                if v.nz is ALL:
                    rep.count("identically zero channels")
                else:
                    rep.open(rule, where, "degree not determined")
            elif v.dim == want:
                rep.obligation(rule, where)
            else:
                rep.violation(rule, f"{name}:{q}:{ch}", f"has degree {dimstr(v.dim)}, expected {dimstr(want)}", _where(cv, q))
        seen = set()
        for x in cv.events:
            if x.kind == "dim_mismatch" and isinstance(x.info.get("a"), tuple) and isinstance(x.info.get("b"), tuple):
                a, b = x.info["a"], x.info["b"]
                if a in RATES and b in RATES:
                    rep.count("sums over channels of different degree")
                    continue
                k = (x.where, a, b)
                if k in seen:
                    continue
                seen.add(k)
                rep.violation("homogeneous", f"{x.func}:{dimstr(a)}+{dimstr(b)}", f"combines terms of degree {dimstr(a)} and {dimstr(b)}", x.where)
            elif x.kind in ("dim_literal", "dim_arg") and isinstance(x.info.get("dim"), tuple) and x.info["dim"] != D0:
                k = (x.where, x.kind)
                if k not in seen:
                    seen.add(k)
                    what = f"{x.info.get('fn')}() of" if x.kind == "dim_arg" else "a bare number is combined with"
                    rep.violation("homogeneous", f"{x.func}:{x.kind}:{dimstr(x.info['dim'])}", f"{what} a quantity of degree {dimstr(x.info['dim'])}", x.where)
        rep.obligation("homogeneous", f"{name}: all additions and comparisons")
    rep.floor("width-degree", 80)
    rep.floor("cross-section-degree", 80)


def _where(cv, q):
    f = cv.m.cls.lookup("annihilation_cross_sections" if q == "sigma" else "partial_widths")[0]
    return f"{f.module.rel}:{f.node.lineno}" if f is not None and hasattr(f, "node") else cv.name
