#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Static only: nothing of the repository is imported or run. The source under /repo is parsed and evaluated abstractly on every run "
         "(own interpreter over the Python syntax tree and over the Rust kernels lowered to the same tree). Trusts the abstract semantics in sa/ and the tables of names and units there; "
         "instances whose value stays unknown are counted as undecided in the evidence and never raise an alarm. ")
CLAIM = {
 "P01": ("abstract interpretation: every spectrum function is interpreted with the single-particle spectra, radiation and energy distributions as opaque sources; what was evaluated, how often and where is compared with the channel", "The shapes of the single-particle spectra, final-state radiation in n-body channels (only its mass and multiplicity where present) and the compiled Cython mediator spectra are not looked at."),
 "P02": ("abstract interpretation: the models' lists, rate tables, spectrum tables and lines compared entry by entry, with rates and spectra as opaque symbols", "The contents of each spectrum are not looked at here; primordial black holes have no channels and are left out."),
 "P03": ("abstract interpretation: threshold-guard extraction per channel", "Decides for each (model, quantity, channel) that the guard is the sum of that channel's final-state masses. GeV hadronic form-factor channels' 2 m_x clause is not claimed."),
 "P04": ("abstract interpretation: dependence (taint) sets per channel", "Decides dependence, not the functional form."),
 "P05": ("abstract interpretation: unit (dimension) inference", "GeV amplitudes fitted in GeV and neutrino couplings given as bare numbers are undecided; consistency is not checked inside the form-factor package; logarithms inside the four elastic kernels are not checked."),
 "P06": ("abstract interpretation: coupling-degree type inference", "Decides the degree of homogeneity; channels computed through Monte Carlo integration are undecided."),
 "P07": ("abstract interpretation: construct, query, assign, and compare every public query with a freshly constructed object", "New and old parameter values are symbolic and taken to differ; queries whose evaluation exceeds the step bound are not compared; setters for names that are not constructor parameters are not assigned."),
 "P08": ("abstract interpretation: comparison of every model object's attributes before and after each public query", "Values that are recomputed are compared by what they depend on; calls that always raise and queries whose evaluation exceeds the step bound are undecided."),
 "P09": ("abstract interpretation: identity (alias) tracking of caller data and in-place write detection", "Writes through objects the analysis does not model (user callbacks, library calls other than the known in-place ones) are not seen; units whose evaluation exceeds the step bound are undecided."),
 "P10": ("syntax-tree closure-capture analysis and abstract evaluation of writes to shared storage", "Callables handed to foreign code are evaluated on unknown arguments; abstract classes are not instantiated."),
 "P11": ("abstract interpretation: dependence of every generator and draw on the seed; lint for process-wide random state", "Decides where randomness comes from, not the statistics of the draws."),
 "P12": ("syntax-tree effect analysis: scoped restoration of process-wide settings", "Recognises the standard library, numpy, scipy, matplotlib setters listed in the check; a restore in finally is accepted when it uses a saved value."),
 "P13": ("abstract interpretation across the language boundary: registry lookup, signature binding, symbolic argument-to-parameter comparison", "Covers the five domain submodules that the package uses; the probe submodules used only by tests are not covered. Accuracy of a kernel is not decided."),
 "P17": ("scope resolution and whole-package abstract evaluation: name, attribute, key and call-arity checks", "Attributes of arrays and library objects, and calls through values that the analysis cannot resolve, are not checked."),
 "P19": ("abstract interpretation: provenance of every table, interpolator and measurement (file and column dataflow)", "Decides which file and column an object is built from, not whether the numbers in the file are right; a target's line-of-sight integral is only compared with its siblings."),
 "P18": ("abstract interpretation: symbolic dispatch of particle names to kernels and data tables, kinematics compared as rational forms", "Monte Carlo energy distributions of final states with three or more particles and their final-state-radiation multiplicities are not claimed; the guards of two native neutrino kernels are undecided."),
 "P26": ("abstract interpretation across the language boundary to closed formulas, comparison of normal forms with the factorised expression", "Decided above threshold, with hadronic form factors as opaque functions; the value of a form factor is not decided. Formulas that agree only within the precision of differently rounded constants are undecided."),
 "P16": ("abstract interpretation with an unmatchable option word (every outcome of the dispatch is followed), with each documented word, and a fall-through analysis of the syntax tree", "A word is an opaque string that equals no literal; functions whose dispatch cannot be followed (unknown tables, step bound) are counted as undecided. Numeric arguments outside their range are not covered."),
 "P27": ("abstract interpretation of each function twice, with a number and with a one-dimensional array of unknown length, and comparison of the normal forms of the two answers", "Values inside opaque functions (quadratures, compiled kernels) are compared as uninterpreted applications; the step bound leaves the spectra of the GeV vector models undecided (counted). The order of elements is not tracked."),
 "P14": ("constant evaluation over the syntax trees: every module-level constant of the Python, Cython and Rust sources is folded from its defining expression and compared between the layers, with the quantity its name denotes and with what determines it", "A constant whose name denotes nothing the check knows, and that no other layer defines, is not compared; numbers written inside functions are compared only where a fitted twin exists. Documented wrong lines are known findings."),
 "P20": ("abstract interpretation of the base classes on a model with opaque rate, spectrum and line functions; normal forms of the results compared with the defining combination", "The model's own functions are opaque; the numerical quadratures and interpolations are not decided. The chi-squared method of the binned limit is not covered here (P05 reports its units)."),
 "P25": ("abstract interpretation to closed formulas, symbolic differentiation and comparison of normal forms", "Symbols stand for positive numbers. The resonance-shape derivative of the form factors is not claimed: its formula is too large for the normal form."),
}
NA = {
 "P15": "Panic freedom of the native crate needs a relational numeric analysis that nothing installed provides: the adaptive quadrature alone makes about 180 indexings through index arrays (error order, interval level, extrapolation table) whose bounds depend on each other and on a loop counter, the rest index tables at positions found by comparing floating-point numbers, and half of the crate is not compiled (so not type-checked) in this sandbox. A lint for unwrap and expect alone would not decide the property. Model checking or symbolic execution of the crate belong to other families.",
 "P21": "Accuracy of a numerical quadrature over all energies is a quantitative runtime fact; no sound static argument in reach bounds it (the structure of the spectra is covered by P01, P05, P13 and P14).",
 "P22": "Statistical convergence of a Monte Carlo estimate is a statement about a distribution of runs, not about a construct in the source; seeding and aliasing of the generators are covered by P09 and P11.",
 "P23": "Accuracy of a stiff ODE solution depends on runtime values of the cross section and on the solver; static analysis decides only its units and constants (P05, P14).",
 "P24": "Statistical coverage and monotonicity of a limit quantify over data and root finding at run time; static analysis decides only its units, side effects and line/bin bookkeeping elsewhere.",
}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIM:
            t, note = CLAIM[i]
            checks.append({"property": i, "quick_cmd": f"python3 -m sa.run {i} --tier quick", "thorough_cmd": f"python3 -m sa.run {i} --tier thorough",
                           "technique": t, "level": "other", "level_note": TRUST + note})
        else:
            na.append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    print(len(checks), "claimed", len(na), "not claimed")
if __name__ == "__main__":
    main()
