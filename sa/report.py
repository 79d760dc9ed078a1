"""Collects what a check analysed and what it found, writes the evidence file and prints the verdict."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Broken(Exception):
    """The analysis itself could not do its job (vanished anchor, collapsed instance count)."""


class Report:
    def __init__(self, prop, tier, rules):
        self.prop, self.tier, self.rules = prop, tier, rules
        self.counts = {}
        self.instances = {}
        self.found = {}
        self.unresolved = {}
        self.notes = []
        self.assumptions = []
        self.samples = {}
        self.t0 = time.time()

    def count(self, what, n=1, sample=None):
        self.counts[what] = self.counts.get(what, 0) + n
        if sample is not None:
            s = self.samples.setdefault(what, [])
            if len(s) < 8:
                s.append(sample)

    def obligation(self, rule, what, ok=True):
        """One instance of a rule that was decided."""
        d = self.instances.setdefault(rule, {"decided": 0, "sample": []})
        d["decided"] += 1
        if len(d["sample"]) < 6:
            d["sample"].append(what)

    def open(self, rule, what, why):
        """An instance the analysis could not decide; counted, never an alarm."""
        self.unresolved.setdefault(rule, []).append(f"{what}: {why}")

    def violation(self, rule, construct, msg, where="", detail=""):
        key = f"{rule}|{construct}"
        if key not in self.found:
            self.found[key] = {"rule": rule, "construct": construct, "message": msg, "where": where, "detail": detail}

    def floor(self, rule, n):
        """Fails the run when far fewer instances than confirmed by hand (`n`) were found or decided. A refactoring that puts a few of
        them out of reach leaves the rest of the check standing: those count as undecided in the evidence."""
        d = self.instances.get(rule, {"decided": 0})["decided"]
        seen = d + len(self.unresolved.get(rule, ()))
        need = max(1, int(0.4 * n))
        if not self.found and (seen < need or (n > 3 and d < need)):
            raise Broken(f"rule {rule}: only {d} instances decided of {seen}, at least {n} expected")


def load_known():
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {(k["property"], k["key"]): k for k in d["findings"]}


def finish(rep, explanation, seed):
    known = load_known()
    new = []
    for key, v in sorted(rep.found.items()):
        k = known.get((rep.prop, key))
        if k is not None:
            print(f"KNOWN-FINDING: property={rep.prop} {key}: {k['what']}")
        else:
            new.append((key, v))
    for (p, key), k in sorted(known.items()):
        if p == rep.prop and key not in rep.found:
            print(f"note: listed finding no longer reported: {key}")
    cov = {"explanation": explanation, "rules": rep.rules, "measured": dict(rep.counts),
           "obligations": {r: d["decided"] for r, d in sorted(rep.instances.items())},
           "obligation_samples": {r: d["sample"] for r, d in sorted(rep.instances.items())},
           "undecided": {r: {"count": len(x), "sample": x[:10]} for r, x in sorted(rep.unresolved.items())}}
    if rep.samples:
        cov["samples"] = rep.samples
    if rep.notes:
        cov["notes"] = rep.notes[:40]
    ev = {"property": rep.prop, "tier": rep.tier, "seed": seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - rep.t0, 2), "violations": len(new), "assumptions": rep.assumptions}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for r, x in sorted(rep.instances.items()):
        print(f"rule {r}: {x['decided']} instances decided, {len(rep.unresolved.get(r, []))} undecided")
    if not new:
        print(f"OK property={rep.prop} ({rep.tier}): held on everything analysed in {time.time() - rep.t0:.1f}s")
        return 0
    rd = os.path.join(d, "replay")
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, rep.prop + ".txt")
    with open(rp, "w") as f:
        f.write(f"property {rep.prop}: {len(new)} violation(s)\nRe-run: cd /verif && python3 -m sa.run {rep.prop} --tier {rep.tier}\n\n")
        for key, v in new:
            f.write(f"[{v['rule']}] {v['construct']}\n  at {v['where']}\n  rule: {rep.rules.get(v['rule'], '')}\n  {v['message']}\n")
            if v["detail"]:
                f.write("  " + str(v["detail"]).replace("\n", "\n  ") + "\n")
            f.write("\n")
    for key, v in new:
        print(f"{v['where']}: [{v['rule']}] {v['construct']}: {v['message']}")
    print(f"VIOLATION property={rep.prop} replay={rp}")
    return 1
