"""Data provenance: module initialisation is evaluated abstractly, so that every table, interpolator, measurement and target carries the
data file and the columns it came from; each object is then compared with the instrument or region its public name announces."""
import ast
import fnmatch
import math
import os
import re
import tomllib

from .. import alg
from ..drive import excluded
from ..interp import Budget, Dead
from ..models import Model
from ..project import Entry, atom, make_engine
from ..values import *

RULES = {
    "exists": "every data file that is read exists in the tree under that name",
    "shipped": "every data file that is read is covered by the package data that is installed",
    "instrument": "effective areas and energy resolutions are interpolated from the file of their own instrument, over its energy column",
    "measurement": "a flux measurement holds the columns of its own instrument's file under their own names, its instrument's energy resolution and its instrument's target",
    "target": "observation targets agree on the solid angle of a region, narrower cones are denser and optimistic profiles are not below the default ones",
    "background": "the tabulated galactic-centre background is interpolated from its own file",
    "cmb": "the photon (electron) ionisation efficiency uses the photon (electron) table, spectra and lines",
    "limit": "the limit class of an instrument uses that instrument's measurement",
    "option": "an option that selects a table selects the one it names",
    "dof": "degrees of freedom are interpolated from their own column of the table",
}
GRP = "hazma.gamma_ray_parameters"
# the resolution of All-Sky-ASTROGAM is documented to be that of e-ASTROGAM
SHARED = {("energy_res", "all_sky_astrogam"): "e_astrogam"}
COLUMNS = ("e_lows", "e_highs", "fluxes", "upper_errors", "lower_errors")


def run(rep, repo, tier):
    eng = make_engine(repo)
    ROOT[0] = eng.root
    ns = initialise(rep, eng)
    E = Entry(eng, GRP)
    st = E.st
    instruments(rep, eng, E, ns)
    measurements(rep, eng, E, ns)
    targets(rep, eng, E, ns)
    background(rep, eng, E, ns)
    cmb(rep, eng)
    limits(rep, eng)
    pbh(rep, eng)
    dof(rep, eng)
    files(rep, eng, repo)
    rep.floor("exists", 50)
    rep.floor("shipped", 50)
    rep.floor("instrument", 60)
    rep.floor("measurement", 30)
    rep.floor("target", 90)
    rep.floor("background", 1)
    rep.floor("cmb", 14)
    rep.floor("limit", 4)
    rep.floor("option", 3)
    rep.floor("dof", 3)


def initialise(rep, eng):
    for mn, m in sorted(eng.modules.items()):
        if m.rust or excluded(mn):
            continue
        eng.steps = 0
        try:
            eng.module_ns(m)
        except (Budget, Dead) as x:
            rep.open("exists", mn, f"module initialisation not analysed: {type(x).__name__}")
    return eng.module_ns(eng.modules[GRP])


def read_of(v, kind="file"):
    return {d[1] for d in v.deps if d[0] == kind} if isinstance(v, Num) else set()


def stem(p):
    return os.path.basename(p).rsplit(".", 1)[0]


# -------------------------------------------------------------------------------------------------------------- files

def files(rep, eng, repo):
    packages = {}
    try:
        with open(os.path.join(repo, "pyproject.toml"), "rb") as f:
            packages = tomllib.load(f).get("tool", {}).get("setuptools", {}).get("package-data", {})
    except (OSError, ValueError):
        pass
    seen = {}
    for e in eng.events:
        if e.kind == "file_read":
            seen.setdefault(e.info["path"], e.where)
    for p, where in sorted(seen.items(), key=str):
        if p is None:
            continue
        if p.startswith("..") or os.path.isabs(p):
            rep.open("exists", p, "outside the tree")
            continue
        if os.path.isfile(os.path.join(repo, p)):
            rep.obligation("exists", p)
        else:
            rep.violation("exists", p, f"{p} is read but does not exist", where)
            continue
        if not p.startswith("hazma/"):
            continue
        pkg, name = os.path.dirname(p).replace("/", "."), os.path.basename(p)
        if not packages:
            rep.open("shipped", p, "package data not declared in pyproject.toml")
        elif covered(packages, pkg, name):
            rep.obligation("shipped", p)
        else:
            rep.violation("shipped", p, f"{p} is read but not listed in the package data, so an installed package does not have it", where)
    unknown = sorted({e.where for e in eng.events if e.kind == "file_read" and e.info["path"] is None})
    for w in unknown:
        rep.open("exists", w.rpartition(":")[0], "name of the file is not known statically")
    for rel in sorted(os.listdir(os.path.join(repo, "rust/src"))) + [os.path.join("kernels", x) for x in sorted(os.listdir(os.path.join(repo, "rust/src/kernels")))]:
        full = os.path.join(repo, "rust/src", rel)
        if not rel.endswith(".rs"):
            continue
        with open(full) as f:
            text = f.read()
        for x in re.findall(r'include_(?:str|bytes)!\s*\(\s*"([^"]+)"', text):
            t = os.path.normpath(os.path.join(os.path.dirname(full), x))
            what = os.path.relpath(t, repo)
            if os.path.isfile(t):
                rep.obligation("exists", f"{what} (rust/src/{rel})")
            else:
                rep.violation("exists", what, f"rust/src/{rel} includes {what}, which does not exist", f"rust/src/{rel}")


def covered(packages, pkg, name):
    parts = pkg.split(".")
    for n in range(len(parts), 0, -1):
        sub = "/".join(parts[n:] + [name])
        for key in (".".join(parts[:n]), "*"):
            if any(fnmatch.fnmatch(sub, g) and sub.count("/") == g.count("/") for g in packages.get(key, [])):
                return True
    return False


# -------------------------------------------------------------------------------------------------------- instruments

def data_dir(rep, eng, sub):
    d = os.path.join(eng.root, "hazma/gamma_ray_data", sub)
    return {f.rsplit(".", 1)[0] for f in os.listdir(d) if f.endswith(".dat")} if os.path.isdir(d) else set()


def instruments(rep, eng, E, ns):
    for sub, prefixes in (("A_eff", ("effective_area_", "A_eff_")), ("energy_res", ("energy_res_",))):
        have = data_dir(rep, eng, sub)
        for prefix in prefixes:
            for name, v in sorted(ns.items()):
                if not name.startswith(prefix):
                    continue
                who = name[len(prefix):]
                own = SHARED.get((sub, who), who)
                if isinstance(v, Func):
                    eng.steps = 0
                    try:
                        v = E.call(v, [atom("energy", D(MeV=1), kind="array")])
                    except (Budget, Dead):
                        v = None
                if not isinstance(v, Num):
                    rep.open("instrument", name, "value not resolved")
                    continue
                got = {stem(p) for p in read_of(v)}
                if not got and own not in have and v.const is not None:
                    rep.obligation("instrument", f"{name}: constant")
                    continue
                if got != {own} or any(os.path.basename(os.path.dirname(p)) != sub for p in read_of(v)):
                    rep.violation("instrument", name, f"{name} is computed from {', '.join(sorted(read_of(v))) or 'no data file'} instead of {sub}/{own}.dat", "hazma/gamma_ray_parameters.py")
                    continue
                rep.obligation("instrument", f"{name}: {sub}/{own}.dat")
                axes(rep, "instrument", name, v, "hazma/gamma_ray_parameters.py")


def axes(rep, rule, name, v, where, y=None):
    x = {d[2] for d in v.deps if d[0] == "abscissa"}
    o = {d[2] for d in v.deps if d[0] == "ordinate"}
    if not x or not o:
        rep.open(rule, f"{name}: columns", "columns not resolved")
    elif x != {0} or (o != {y} if y is not None else 0 in o):
        rep.violation(rule, f"{name}: columns", f"{name} interpolates column {sorted(o)} over column {sorted(x)} of its table", where)
    else:
        rep.obligation(rule, f"{name}: column {sorted(o)} over column 0")
        scale(rep, rule, name, v, where)


UNITS = {"eV": 1e-6, "keV": 1e-3, "MeV": 1.0, "GeV": 1e3}


def scale(rep, rule, name, v, where):
    """The energy column is converted to MeV from the unit its own header states."""
    for d in sorted((d for d in v.deps if d[0] == "abscissa"), key=str):
        unit = None
        try:
            with open(os.path.join(ROOT[0], d[1])) as f:
                for line in f:
                    if line[:1].isdigit():
                        break
                    m = re.search(r"\((eV|keV|MeV|GeV)\)", line)
                    if m and unit is None:
                        unit = m[1]
        except OSError:
            pass
        if unit is None:
            continue
        if d[3] is None:
            rep.open(rule, f"{name}: unit", "conversion not resolved")
        elif abs(d[3] / UNITS[unit] - 1) > 1e-9:
            rep.violation(rule, f"{name}: unit", f"{name} takes energies in {unit} from {d[1]} and multiplies them by {d[3]:g} instead of {UNITS[unit]:g}", where)
        else:
            rep.obligation(rule, f"{name}: {unit} to MeV")


ROOT = [None]


# ------------------------------------------------------------------------------------------------------- measurements

def obj(eng, st, v):
    if isinstance(v, Ref):
        h = eng.get(st, v.id)
        return h if h.kind == "obj" else None
    return None


def measurements(rep, eng, E, ns):
    where = "hazma/gamma_ray_parameters.py"
    for name, v in sorted(ns.items()):
        h = obj(eng, E.st, v)
        if h is None or h.cls is None or h.cls.name != "FluxMeasurement":
            continue
        if not name.endswith("_diffuse"):
            rep.open("measurement", name, "no instrument in the name")
            continue
        who = name[: -len("_diffuse")]
        rel = f"hazma/gamma_ray_data/obs/{name}.dat"
        vals = {c: E.attr(v, c) for c in COLUMNS}
        src = set().union(*[read_of(x) for x in vals.values()])
        if src and src != {rel}:
            rep.violation("measurement", name, f"{name} is built from {', '.join(sorted(src))}", where)
            continue
        rep.obligation("measurement", f"{name}: {rel}") if src else rep.open("measurement", name, "source not resolved")
        col = [Num(form={("col", rel, k): 1.0}) for k in range(5)]
        want = expected(eng, E, col)
        for c in COLUMNS:
            x = vals[c]
            if not isinstance(x, Num):
                rep.open("measurement", f"{name}.{c}", "value not resolved")
                continue
            r = alg.equal(x.form, want[c].form)
            if r:
                rep.obligation("measurement", f"{name}.{c}")
            elif r is False:
                rep.violation("measurement", f"{name}.{c}", f"{name}.{c} is not the documented combination of the columns of {rel}: it is built from columns {sorted(d[2] for d in x.deps if d[0] == 'col')}", "hazma/flux_measurement.py")
            else:
                rep.open("measurement", f"{name}.{c}", "closed form not comparable")
        e = atom("energy", D(MeV=1), kind="array")
        own = ns.get(f"energy_res_{who}")
        try:
            a = E.call(E.attr(v, "energy_res"), [e])
            b = E.call(own, [e])
        except (Budget, Dead):
            a = b = None
        if not isinstance(a, Num) or not isinstance(b, Num):
            rep.open("measurement", f"{name}.energy_res", "value not resolved")
        elif (a.const, read_of(a)) != (b.const, read_of(b)):
            rep.violation("measurement", f"{name}.energy_res", f"{name} uses an energy resolution that is not energy_res_{who}", where)
        else:
            rep.obligation("measurement", f"{name}.energy_res")
        t, own = target(eng, E, E.attr(v, "target")), target(eng, E, ns.get(f"{who}_diffuse_target"))
        if t is None or own is None:
            rep.open("measurement", f"{name}.target", "target not resolved")
        elif t != own:
            rep.violation("measurement", f"{name}.target", f"{name} observes a target that is not {who}_diffuse_target", where)
        else:
            rep.obligation("measurement", f"{name}.target")


def expected(eng, E, col):
    b = lambda op, x, y: eng.binop(op, x, y, E.st, E.ctx, E.module.tree)
    mid = b(ast.Mult(), literal(0.5), b(ast.Add(), col[0], col[1]))
    m2 = b(ast.Mult(), mid, mid)
    flux = b(ast.Div(), col[2], m2)
    return {"e_lows": col[0], "e_highs": col[1], "fluxes": flux,
            "upper_errors": b(ast.Sub(), b(ast.Div(), col[3], m2), flux),
            "lower_errors": b(ast.Sub(), flux, b(ast.Div(), col[4], m2))}


def target(eng, E, v):
    h = obj(eng, E.st, v)
    if h is None or h.cls is None or h.cls.name != "TargetParams":
        return None
    out = {}
    for k in ("J", "D", "dOmega", "vx"):
        x = h.attrs.get(k)
        if not isinstance(x, Num) or x.const is None:
            return None
        out[k] = float(x.const)
    return out


def targets(rep, eng, E, ns):
    where = "hazma/gamma_ray_parameters.py"
    all_ = {}

    def walk(path, v):
        t = target(eng, E, v)
        if t is not None:
            all_[path] = t
        elif isinstance(v, Ref) and eng.get(E.st, v.id).kind == "dict":
            for k, x in eng.get(E.st, v.id).items.items():
                if isinstance(k, str):
                    walk(path + (k,), x)

    for n, v in sorted(ns.items()):
        walk((n,), v)
    show = lambda p: p[0] + "".join(f"[{k!r}]" for k in p[1:])
    # one solid angle per region
    for p, t in sorted(all_.items()):
        r = cone(p[-1])
        if r is not None:
            want = 4 * math.pi * math.sin(r / 2) ** 2
            if abs(t["dOmega"] / want - 1) > 0.02:
                rep.violation("target", f"{show(p)}: solid angle", f"{show(p)} has solid angle {t['dOmega']:g} sr instead of {want:.4g} sr", where)
            else:
                rep.obligation("target", f"{show(p)}: solid angle of the cone")
    groups = {}
    for p, t in sorted(all_.items()):
        n = re.sub(r"_targets?(_optimistic)?$", "", p[0])
        groups.setdefault((n, p[-1]) if len(p) > 2 else (n,), []).append((p, t))
    for g, ts in sorted(groups.items()):
        if len(ts) < 2:
            continue
        base = median([t["dOmega"] for _, t in ts])
        for p, t in ts:
            if abs(t["dOmega"] / base - 1) > 1e-6:
                rep.violation("target", f"{show(p)}: solid angle", f"{show(p)} has a solid angle that differs from that of the other targets of the same region", where)
            else:
                rep.obligation("target", f"{show(p)}: same solid angle as its region")
    for p, t in sorted(all_.items()):
        if p[0].endswith("_optimistic"):
            q = (p[0][: -len("_optimistic")],) + p[1:]
            if q in all_:
                for k in ("J", "D"):
                    if t[k] < all_[q][k]:
                        rep.violation("target", f"{show(p)}: {k}", f"the optimistic {k}-factor of {show(p)} is below the default one", where)
                    else:
                        rep.obligation("target", f"{show(p)}: {k} not below the default")
    for p, t in sorted(all_.items()):
        for q, u in sorted(all_.items()):
            if p[:-1] == q[:-1] and p != q and cone(p[-1]) is not None and cone(q[-1]) is not None and cone(p[-1]) < cone(q[-1]):
                for k in ("J", "D"):
                    if t[k] <= u[k]:
                        rep.violation("target", f"{show(p)}: {k}", f"the averaged {k}-factor of {show(p)} is not above that of the wider {show(q)}", where)
                    else:
                        rep.obligation("target", f"{show(p)}: {k} above the wider cone's")


def median(xs):
    return sorted(xs)[len(xs) // 2]


def cone(name):
    m = re.fullmatch(r"([\d.]+) (deg|arcmin) cone", name)
    return None if m is None else float(m[1]) * math.pi / 180 / (60 if m[2] == "arcmin" else 1)


def background(rep, eng, E, ns):
    v = ns.get("gc_bg_model")
    rel = "hazma/gamma_ray_data/bg_model/gc.dat"
    try:
        r = E.call(E.attr(v, "dPhi_dEdOmega"), [atom("energy", D(MeV=1), kind="array")])
    except (Budget, Dead):
        r = None
    if not isinstance(r, Num):
        rep.open("background", "gc_bg_model", "value not resolved")
    elif read_of(r) != {rel}:
        rep.violation("background", "gc_bg_model", f"gc_bg_model is computed from {', '.join(sorted(read_of(r))) or 'no file'}", "hazma/gamma_ray_parameters.py")
    else:
        rep.obligation("background", "gc_bg_model")
        axes(rep, "background", "gc_bg_model", r, "hazma/gamma_ray_parameters.py")


# ---------------------------------------------------------------------------------------------------------------- cmb

MARK = {"gamma_ray_lines": "photon", "total_spectrum": "photon", "positron_lines": "positron", "total_positron_spectrum": "positron"}
TABLES = {"f_eff_g": ("f_eff_g", "photon"), "f_eff_ep": ("f_eff_ep", "positron")}


def cmb(rep, eng):
    for mod in ("hazma.cmb", "hazma.limits._cmb"):
        if mod not in eng.modules:
            rep.open("cmb", mod, "module not found")
            continue
        mns = eng.module_ns(eng.modules[mod])
        for n, (own, _) in TABLES.items():
            v = mns.get(n)
            got = {stem(p) for p in read_of(v)}
            if not got:
                rep.open("cmb", f"{mod}.{n}", "table not resolved")
            elif got != {own}:
                rep.violation("cmb", f"{mod}.{n}", f"{mod}.{n} is interpolated from {', '.join(sorted(read_of(v)))}", eng.modules[mod].rel)
            else:
                rep.obligation("cmb", f"{mod}.{n}: {own}.dat")
                axes(rep, "cmb", f"{mod}.{n}", v, eng.modules[mod].rel)
    m = Model(eng, "ScalarMediator")

    def hook(engine, f, args, kw, node, st, ctx):
        n = f.name if isinstance(f, Func) and f.bound is not None else None
        if n in MARK:
            return Num(form={fresh_atom(): 1.0}, deps=frozenset({("messenger", MARK[n])}))
        return None

    for who, call in (("theory", lambda n: m.call(n)), ("limits.CMBLimit", lambda n: cmb_limit(eng, m, n))):
        for n, (own, messenger) in TABLES.items():
            old, eng.call_hook, eng.steps = eng.call_hook, hook, 0
            try:
                v = call(n)
            except (Budget, Dead):
                v = None
            finally:
                eng.call_hook = old
            where = "hazma/theory/_theory_cmb.py" if who == "theory" else "hazma/limits/_cmb.py"
            if not isinstance(v, Num) or not read_of(v):
                rep.open("cmb", f"{who}.{n}", "value not resolved")
                continue
            got = {stem(p) for p in read_of(v)} & {o for o, _ in TABLES.values()}
            if got != {own}:
                rep.violation("cmb", f"{who}.{n}: table", f"the {messenger} efficiency of {who} uses the table {', '.join(sorted(got))}", where)
            else:
                rep.obligation("cmb", f"{who}.{n}: table")
            ms = {d[1] for d in v.deps if d[0] == "messenger"}
            if not ms:
                rep.open("cmb", f"{who}.{n}: spectra", "spectra not resolved")
            elif ms != {messenger}:
                rep.violation("cmb", f"{who}.{n}: spectra", f"the {messenger} efficiency of {who} uses {', '.join(sorted(ms))} spectra or lines", where)
            else:
                rep.obligation("cmb", f"{who}.{n}: spectra")


def cmb_limit(eng, m, n):
    E = Entry(eng, "hazma.limits")
    E.st = m.st
    c = E.call(E.name("CMBLimit"), [], st=m.st)
    return E.call(E.attr(c, n, m.st), [m.obj], st=m.st)


def limits(rep, eng):
    E = Entry(eng, "hazma.limits")
    for n in sorted(eng.module_ns(E.module)):
        c = E.name(n)
        if not isinstance(c, Cls) or not any(k.name == "ExistingTelescopeLimit" for k in c.mro()) or c.name == "ExistingTelescopeLimit":
            continue
        try:
            o = E.call(c, [])
            name, ms = E.attr(o, "name"), E.attr(o, "measurement")
        except (Budget, Dead):
            name = ms = None
        h = obj(eng, E.st, ms)
        if not isinstance(name, Str) or h is None:
            rep.open("limit", n, "measurement not resolved")
            continue
        src = {stem(p) for p in read_of(h.attrs.get("fluxes"))}
        if src != {f"{name.s}_diffuse"} or not n.lower().startswith(name.s):
            rep.violation("limit", n, f"{n} (named {name.s!r}) uses the measurement {', '.join(sorted(src))}", "hazma/limits/_existing_telescope.py")
        else:
            rep.obligation("limit", f"{n}: {name.s}_diffuse")


def pbh(rep, eng):
    E = Entry(eng, "hazma.pbh")
    c = E.name("PBH")
    for kind, secondary, want in (("primary", True, "pbh_primary_spectra_bh"), ("primary", False, "pbh_primary_spectra_bh"), ("secondary", True, "pbh_secondary_spectra_bh"), ("secondary", False, "pbh_secondary_spectra")):
        what = f"PBH(spectrum_kind={kind!r}, bh_secondary={secondary})"
        before = len(eng.events)
        eng.steps = 0
        try:
            E.call(c, [atom("mx", D(MeV=1))], {"spectrum_kind": Str(kind), "bh_secondary": literal(secondary)})
        except (Budget, Dead):
            rep.open("option", what, "not analysed")
            continue
        got = {e.info["path"] for e in eng.events[before:] if e.kind == "file_read"}
        if not got or None in got:
            rep.open("option", what, "file not resolved")
        elif {stem(p) for p in got} != {want}:
            rep.violation("option", what, f"{what} reads {', '.join(sorted(got))}", "hazma/pbh.py")
        else:
            rep.obligation("option", f"{what}: {want}.csv")


def dof(rep, eng):
    E = Entry(eng, "hazma.relic_density._thermal_functions")
    rel = "hazma/relic_density/smdof.dat"
    where = "hazma/relic_density/_thermal_functions.py"
    with open(os.path.join(eng.root, rel)) as f:
        head = [x.strip() for x in f.readline().split(",")]
    for n, col in (("sm_dof_entropy", "heff"), ("sm_sqrt_gstar", "gstar"), ("sm_entropy_density", "heff"), ("sm_entropy_density_deriv", "heff")):
        if n not in eng.module_ns(E.module) or col not in head:
            rep.open("dof", n, "not found")
            continue
        try:
            v = E.call(E.name(n), [atom("T", D(MeV=1))])
        except (Budget, Dead):
            v = None
        if not isinstance(v, Num) or read_of(v) != {rel}:
            rep.open("dof", n, "value not resolved") if not isinstance(v, Num) or not read_of(v) else rep.violation("dof", n, f"{n} is computed from {', '.join(sorted(read_of(v)))}", where)
            continue
        axes(rep, "dof", n, v, where, y=head.index(col))
