#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to diff)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MODELS = ["hazma/scalar_mediator/__init__.py", "hazma/vector_mediator/__init__.py",
          "hazma/vector_mediator/_gev/model.py", "hazma/rh_neutrino/_model.py"]

prop("P01", "Each channel's spectrum is built from exactly its own final-state particles",
 "For every final state of the scalar-mediator, vector-mediator, GeV vector-mediator and right-handed-neutrino models, the photon, positron and neutrino yield is built from the decay spectra of exactly the particles in that final state for that messenger, each counted as often as it occurs (a sub-GeV positron yield counts the positively charged particle of a pair, and a pair of neutral kaons is one long- and one short-lived kaon), plus final-state radiation of its charged particles. "
 "In a two-body channel each particle's spectrum is taken at the energy two-body kinematics gives it, and in an n-body channel it is spread over that particle's own energy distribution. "
 "A channel of mediators sums the mediators' own decays in their rest frame, weighted by their branching fractions, and boosts them to the energy each mediator has.",
 ["inputs"], "all energies, centre-of-mass energies and couplings; every final state and every messenger of the four models",
 "The parity corpus and the aggregation tests sample a few channels at a few energies, and cannot run here at all without the native extension; a channel built from a kaon in place of a pion gives a plausible smooth curve.",
 ["hazma/scalar_mediator/_scalar_mediator_spectra.py", "hazma/scalar_mediator/_scalar_mediator_positron_spectra.py",
  "hazma/vector_mediator/_vector_mediator_spectra.py", "hazma/vector_mediator/_vector_mediator_positron_spectra.py",
  "hazma/vector_mediator/_gev/spectra.py", "hazma/vector_mediator/_gev/positron.py", "hazma/vector_mediator/_gev/neutrino.py",
  "hazma/rh_neutrino/_spectra.py"],
 [("scalar channel spectra", "hazma/scalar_mediator/_scalar_mediator_spectra.py"), ("GeV vector channel spectra", "hazma/vector_mediator/_gev/spectra.py"),
  ("right-handed neutrino spectra", "hazma/rh_neutrino/_spectra.py")])

prop("P02", "A model's channel lists, rates and spectra name the same channels",
 "Within each built-in model the advertised final states are the ones that have a rate, each name leads to that channel's own rate function, and every final state that yields photons, positrons or neutrinos has a spectrum entry under the same name. "
 "A total rate is the sum over all of the partial rates, branching fractions add up to one, and every channel enters the total spectra with its own branching fraction. "
 "Lines are reported for exactly the two-body final states that contain the particle in question, with the energy that two-body kinematics gives it and that channel's branching fraction.",
 ["inputs"], "every built-in model, every final state, every coupling and energy",
 "A channel that is missing from one table simply contributes nothing; a test has to guess which channel to ask for.",
 MODELS + ["hazma/theory/__init__.py"], [("aggregation over channels", "hazma/theory/__init__.py"), ("channel tables", "hazma/vector_mediator/_gev/model.py")])

prop("P03", "Closed channels have zero rate: every channel is guarded by its own threshold",
 "Every partial cross section and partial width of the built-in models is exactly zero when the energy available is below the sum of the masses of the final-state particles of that channel, and is not suppressed when the channel is open. "
 "Annihilation cross sections into leptons, neutrinos or mediators, and all those of the sub-GeV scalar and vector models, are also zero below twice the dark-matter mass.",
 ["inputs"], "all energies and masses, all final states of the built-in models",
 "A wrong threshold only shows in the band between the two masses, e.g. between 2 m_pi0 and 2 m_pi+.",
 ["hazma/scalar_mediator/_scalar_mediator_cross_sections.py", "hazma/scalar_mediator/_scalar_mediator_widths.py",
  "hazma/vector_mediator/_vector_mediator_cross_sections.py", "hazma/vector_mediator/_vector_mediator_widths.py",
  "hazma/vector_mediator/_gev/cross_sections.py", "hazma/rh_neutrino/_widths.py"],
 [("scalar widths", "hazma/scalar_mediator/_scalar_mediator_widths.py"), ("scalar cross sections", "hazma/scalar_mediator/_scalar_mediator_cross_sections.py"),
  ("vector cross sections", "hazma/vector_mediator/_vector_mediator_cross_sections.py"), ("RHN widths", "hazma/rh_neutrino/_widths.py")])

prop("P04", "Each channel's rate is driven by that channel's own couplings and masses",
 "Every partial cross section and width of the built-in mediator and neutrino models depends on the couplings and masses that belong to its own final state (and the mediator and dark-matter ones it needs) and on no other channel's: a muon channel uses the muon mass and the muon coupling, never those of the electron. "
 "The particle a caller names selects that particle's mass and coupling consistently.",
 ["inputs"], "all couplings, masses and channels of the built-in models",
 "With equal couplings (the usual test point) swapping two of them changes nothing.",
 ["hazma/scalar_mediator/_scalar_mediator_widths.py", "hazma/scalar_mediator/_scalar_mediator_cross_sections.py",
  "hazma/vector_mediator/_vector_mediator_cross_sections.py", "hazma/vector_mediator/_vector_mediator_widths.py", "hazma/vector_mediator/_vector_mediator_fsr.py",
  "hazma/vector_mediator/_gev/cross_sections.py", "hazma/rh_neutrino/_widths.py"],
 [("coupling selection", "hazma/vector_mediator/_vector_mediator_cross_sections.py"), ("Yukawa widths", "hazma/scalar_mediator/_scalar_mediator_widths.py")])

prop("P05", "Physical formulas are dimensionally consistent and return the documented units",
 "In the formulas behind the mediator and neutrino rates, the kinematic and phase-space prefactors, final-state radiation, splitting functions, freeze-out abundance, CMB and gamma-ray limits, quantities that are added, subtracted or compared carry the same unit, and arguments of exponentials and trigonometric functions are pure numbers. "
 "Decay widths come out in MeV, cross sections in MeV^-2, energy spectra in MeV^-1, limits on the annihilation rate in cm^3/s, abundances and branching fractions as pure numbers.",
 ["inputs"], "all masses, couplings, energies: the units of an expression do not depend on their values",
 "A wrong power of a mass gives a smooth curve of the right order of magnitude near 1 GeV; a test pins values only at sampled points, often produced by the same formula.",
 ["hazma/scalar_mediator/_scalar_mediator_cross_sections.py", "hazma/scalar_mediator/_scalar_mediator_widths.py", "hazma/vector_mediator/_vector_mediator_cross_sections.py",
  "hazma/vector_mediator/_vector_mediator_fsr.py", "hazma/rh_neutrino/_widths.py", "hazma/relic_density/_thermal_functions.py", "hazma/phase_space/_utils.py",
  "hazma/spectra/altarelli_parisi.py", "hazma/theory/_theory_gamma_ray_limits.py", "hazma/theory/_theory_cmb.py", "hazma/utils.py", "hazma/cmb.py", "rust/src/kernels/scalar_xs.rs"],
 [("scalar cross sections", "hazma/scalar_mediator/_scalar_mediator_cross_sections.py"), ("kinematic helpers", "hazma/utils.py")])

prop("P06", "Decay widths are quadratic in the couplings and cross sections bilinear",
 "Scaling all couplings of a mediator by a common factor scales each of its partial decay widths by the square of the factor; apart from the mediator width in the propagator, annihilation cross sections scale with the square of the dark-matter coupling times the square of the standard-model couplings. "
 "Terms with different powers of the couplings are never added.",
 ["inputs"], "all couplings, masses and energies of the scalar and vector mediator models",
 "With couplings of one, the usual test point, any power of the coupling is right.",
 ["hazma/scalar_mediator/_scalar_mediator_widths.py", "hazma/scalar_mediator/_scalar_mediator_cross_sections.py",
  "hazma/vector_mediator/_vector_mediator_widths.py", "hazma/vector_mediator/_vector_mediator_cross_sections.py", "hazma/vector_mediator/_gev/cross_sections.py"],
 [("scalar widths", "hazma/scalar_mediator/_scalar_mediator_widths.py"), ("vector widths", "hazma/vector_mediator/_vector_mediator_widths.py")])

prop("P07", "Changing a parameter of an object updates everything derived from it",
 "After a parameter of a model, phase-space generator or other parameterised object is assigned, every result is what a freshly constructed object with the same parameters would give: widths, vacuum expectation values, couplings, caches, final-state lists and normalisations that were derived from the old value are recomputed or invalidated. "
 "This holds for any sequence of assignments, through every public setter.",
 ["histories"], "every sequence of parameter assignments after construction, every public setter",
 "A stale value shows only after a particular assignment order on an already used object; tests build a fresh object per case.",
 MODELS + ["hazma/vector_mediator/_gev/base.py", "hazma/single_channel.py", "hazma/phase_space/_rambo.py", "hazma/phase_space/_three_body.py", "hazma/phase_space/_two_body.py", "hazma/rh_neutrino/__init__.py", "hazma/pbh.py"],
 [("mediator setters", "hazma/scalar_mediator/__init__.py"), ("GeV width cache", "hazma/vector_mediator/_gev/model.py"), ("RAMBO setters", "hazma/phase_space/_rambo.py")])

prop("P08", "Computing a limit or a derived quantity leaves the model's parameters unchanged",
 "Computing cross sections, widths, branching fractions, spectra, gamma-ray limits, CMB limits or relic densities never leaves the model or theory object with different physical parameters from those it had before the call.",
 ["inputs", "histories"], "every query method of the models and limit calculators, every argument and model state",
 "The damage shows in a later, unrelated query on the same object.",
 ["hazma/theory/__init__.py", "hazma/theory/_theory_constrain.py", "hazma/theory/_theory_gamma_ray_limits.py", "hazma/theory/_theory_cmb.py", "hazma/limits/_abstract.py", "hazma/limits/_cmb.py", "hazma/relic_density/_rd.py"],
 [("limit scan over model parameters", "hazma/limits/_abstract.py"), ("constrain", "hazma/theory/_theory_constrain.py")])

prop("P09", "Library functions never modify the arrays, lists or dictionaries passed to them",
 "No public function or method of the package writes into an array, list or dictionary that the caller passed in, neither directly, through an alias or view, nor in a helper it hands the argument to. "
 "Objects built from caller data likewise do not modify that data later.",
 ["inputs", "histories"], "every public function and method of the package and every array, list or dictionary argument",
 "Tests rarely look at their inputs after the call, and an in-place update is invisible when the input is a scalar or a temporary.",
 ["hazma/flux_measurement.py", "hazma/spectra/boost.py", "hazma/spectra/_nbody.py", "hazma/phase_space/_rambo.py", "hazma/phase_space/_three_body.py", "hazma/utils.py", "hazma/theory/__init__.py"],
 [("flux measurement constructor", "hazma/flux_measurement.py"), ("boost helpers", "hazma/spectra/boost.py"), ("RAMBO", "hazma/phase_space/_rambo.py")])

prop("P10", "Callables handed out keep their own channel, and calls share no hidden state",
 "A function the library builds for one channel, particle or parameter value keeps that value: functions created in a loop or comprehension do not all end up with the last one. "
 "Default arguments and class-level or module-level tables are never modified by a call, so one call or object cannot influence another.",
 ["histories", "inputs"], "every closure created and every default argument or shared table in the package, any call sequence",
 "A late-bound closure works when it is called inside the loop and with a one-channel theory; a shared default is wrong only from the second object on.",
 ["hazma/theory/__init__.py", "hazma/limits/_abstract.py", "hazma/rh_neutrino/_spectra.py", "hazma/vector_mediator/_gev/model.py", "hazma/scalar_mediator/__init__.py", "hazma/phase_space/_dist.py"],
 [("spectrum functions", "hazma/theory/__init__.py"), ("composite constrainer", "hazma/limits/_abstract.py")])

prop("P11", "Monte Carlo results are reproducible: randomness comes only from the seed",
 "Every random number drawn under a phase-space integrator, event generator or spectrum function that takes a seed comes from a generator made from that seed, zero included: the seed is passed on, not dropped or replaced, on every way down to the draw. "
 "Nothing draws from or reseeds the process-wide random state.",
 ["inputs", "histories"], "every random draw in the package and every call path that leads to it",
 "Two seeded runs in one test agree even if a draw bypasses the seed only on one branch, or a helper drops the seed in a multi-batch call.",
 ["hazma/phase_space/_rambo.py", "hazma/phase_space/_three_body.py", "hazma/phase_space/_base.py", "hazma/vector_mediator/_gev/cross_sections.py", "hazma/form_factors/vector/_four_body.py", "hazma/spectra/_nbody.py"],
 [("RAMBO generator", "hazma/phase_space/_rambo.py")])

prop("P12", "Using the library leaves process-wide settings as they were",
 "Importing or calling any part of the package leaves process-wide state as it found it: warning filters, numpy error handling, the random state, environment variables, working directory and the standard streams. "
 "Where such a setting has to be changed for a computation it is restored on every way out, exceptions included.",
 ["inputs", "histories"], "every function of the package and every exit from it, including exceptional ones",
 "The test runner resets warning filters per test, and a leaked setting affects somebody else's code, not the call under test.",
 ["hazma/utils.py", "hazma/scalar_mediator/__init__.py", "hazma/vector_mediator/__init__.py", "hazma/theory/__init__.py", "hazma/__init__.py", "hazma/form_factors/vector/_utils.py"],
 [("warning handling", "hazma/__init__.py")])

prop("P13", "The Python layer and the native extension agree on every function they share",
 "Every native function the Python layer uses is exported by the native extension under that module and name, takes the number of arguments it is given, and receives each argument in its own position (energy, parent energy, masses, couplings, widths, mode). "
 "Every native function registered for Python evaluates the kernel and the particle of its own name.",
 ["programs", "inputs"], "every native symbol and every call site of it in the package",
 "The Python tests of these modules need the compiled extension; a swapped pair of float arguments raises no error.",
 ["rust/src/lib.rs", "rust/src/photon.rs", "rust/src/positron.rs", "rust/src/neutrino.rs", "rust/src/scalar_mediator.rs", "rust/src/vector_mediator.rs", "hazma/spectra/_photon/__init__.py", "hazma/spectra/_positron/__init__.py", "hazma/spectra/_neutrino/__init__.py", "hazma/scalar_mediator/_scalar_mediator_cross_sections.py", "hazma/relic_density/_thermal_functions.py"],
 [("module registration", "rust/src/lib.rs"), ("photon wrappers", "hazma/spectra/_photon/__init__.py")])

prop("P14", "Physical constants agree across the Python, Cython and Rust layers",
 "A physical constant that is defined in more than one place (particle masses, couplings, decay constants, fitted form-factor numbers, conversion factors) has one value everywhere, apart from the documented legacy set, and a constant has the value, in its unit, of the quantity that its name denotes. "
 "Constants that others determine (unit conversions, mass ratios, energies of two-body decays and of monochromatic lines, line weights) have the value that those give. "
 "Branching fractions lie between 0 and 1 and those of one parent add up to no more than 1.",
 ["programs"], "every constant defined in the Python, Cython and Rust sources",
 "Tests compare a handful of constants by name; a constant changed in one layer shifts spectra by less than typical tolerances.",
 ["hazma/parameters.py", "hazma/_utils/constants.pxd", "hazma/_utils/legacy_parameters.pxd", "rust/src/constants.rs", "rust/src/photon_tables.rs"],
 [("Python constants", "hazma/parameters.py"), ("Rust constants", "rust/src/constants.rs"), ("line tables", "rust/src/photon_tables.rs")])

prop("P15", "Native kernels cannot panic: errors come back as exceptions or zeros",
 "No input reachable from Python makes the native extension panic: outside tests, the native code contains no reachable unwrap, expect, panic, unchecked slice index or integer overflow whose failure depends on the caller's input, and unknown final states or shapes are answered by a Python exception or a documented zero.",
 ["inputs"], "all argument values passed from Python to every exported native function",
 "A panic needs an unusual argument (empty array, NaN, unknown mode) in one of many kernels.",
 ["rust/src/dispatch.rs", "rust/src/boost.rs", "rust/src/interp.rs", "rust/src/quad.rs", "rust/src/special.rs", "rust/src/scalar_mediator.rs", "rust/src/vector_mediator.rs"],
 [("dispatch", "rust/src/dispatch.rs"), ("interpolation", "rust/src/interp.rs")])

prop("P16", "Unknown channels, flavors and options are rejected, never answered silently",
 "An option word (method, result type, integrator, unit), particle, fermion, lepton flavor or final-state name that a function does not support is answered by an exception, never by None, a zero or the value of another option; queries that are documented as answering zero for an unlisted final state are exempt. "
 "Every option word and every final state that a function documents or lists is accepted. "
 "A function that returns a value on some path returns one on every path, it does not fall off its end and answer None.",
 ["inputs"], "every string, enum or option argument value of every public function, every path through it",
 "Tests exercise the supported names; the unsupported ones are an open set.",
 ["hazma/rh_neutrino/_model.py", "hazma/rh_neutrino/_configure.py", "hazma/vector_mediator/_vector_mediator_widths.py", "hazma/spectra/_fsr.py", "hazma/spectra/_nbody.py", "hazma/spectra/_neutrino/_utils.py", "hazma/theory/_theory_constrain.py", "hazma/utils.py", "hazma/phase_space/_three_body.py"],
 [("option dispatch of the n-body spectra", "hazma/spectra/_nbody.py"), ("lepton flavor dispatch", "hazma/rh_neutrino/_configure.py"), ("constraint result types", "hazma/theory/_theory_constrain.py")])

prop("P17", "Every name the package uses exists, and every call fits the function it calls",
 "Every import, attribute of a package module, exported name, self method or attribute and local variable that the package uses is defined on every path that reaches the use, and every call to a package function passes arguments that its signature accepts. "
 "Constant keys looked up in the package's own tables exist, and no query on a concrete class ends in an abstract method that the class does not implement.",
 ["programs", "inputs"], "every name use, call site and class in the package",
 "Python only notices an undefined name or a wrong argument on the path that executes it, and most of these modules cannot be imported by the tests here.",
 ["hazma/__init__.py", "hazma/theory/__init__.py", "hazma/spectra/__init__.py", "hazma/vector_mediator/_gev/model.py", "hazma/phase_space/__init__.py", "hazma/limits/__init__.py", "hazma/rh_neutrino/__init__.py", "hazma/form_factors/vector/__init__.py"],
 [("abstract theory interface", "hazma/theory/__init__.py"), ("public spectra API", "hazma/spectra/__init__.py")])

prop("P18", "Particle tables in the spectra package route each particle to its own spectrum",
 "Asking the spectra package for the photon, positron or neutrino spectrum of a named particle evaluates the decay spectrum of that particle for that messenger, with that particle's own mass, from that particle's own tables; the tables for the three messengers, the particle mass table and the exported function names cover the same particles under the same names. "
 "In a two-particle final state each particle is boosted to the energy that two-body kinematics gives it and contributes once per occurrence. A final-state positron or neutrino contributes to its own messenger and flavor only, and a particle without decay products of the requested kind contributes nothing.",
 ["inputs"], "every particle name accepted by the spectra package, every messenger, all energies",
 "A kaon routed to the wrong kaon's table yields a smooth, plausible spectrum.",
 ["hazma/spectra/_nbody.py", "hazma/spectra/_photon/__init__.py", "hazma/spectra/_positron/__init__.py", "hazma/spectra/_neutrino/__init__.py", "hazma/spectra/__init__.py", "rust/src/photon.rs", "rust/src/kernels/photon_tables.rs"],
 [("particle tables", "hazma/spectra/_nbody.py"), ("photon spectra", "hazma/spectra/_photon/__init__.py")])

prop("P19", "Every instrument and target uses its own data, and every data file exists",
 "Each gamma-ray measurement, effective area, energy resolution, limit class and target is built from the data of its own instrument or region: the right file, the right columns under the right names and units, and targets of the same region agree on its solid angle. "
 "The same holds for the tabulated background, the ionisation efficiencies of photons and electrons and the tabulated degrees of freedom of the early universe. "
 "Every data file the package reads exists in the source tree under that name and is shipped with the package.",
 ["programs", "configurations"], "every data-file reference and instrument, target or table entry in the package",
 "Two instruments with swapped files give plausible limits; a file missing from the installation is not noticed from a source checkout.",
 ["hazma/gamma_ray_parameters.py", "hazma/background_model.py", "hazma/target_params.py", "hazma/flux_measurement.py", "hazma/cmb.py", "hazma/limits/__init__.py", "hazma/relic_density/_thermal_functions.py", "setup.py"],
 [("instrument tables", "hazma/gamma_ray_parameters.py")])

prop("P20", "Theories and limits combine rates, spectra and lines the same way everywhere",
 "For every annihilating or decaying dark-matter theory the total rate is the sum of the partial rates, each branching fraction is the partial over the total rate, each final state contributes to the photon and positron spectra its own spectrum times its own branching fraction, lines carry their own channel's energy and branching fraction, and total spectra are the sums of the contributions. "
 "Convolved spectra are made of that total spectrum and those lines (two photons per decay into two photons) with the detector response of the true energy, over the energies asked for. "
 "The CMB, gamma-ray and relic-density limits use the same centre-of-mass energy, injection efficiency and flux normalisation in both generations of limit classes and in all of the theories' limit methods.",
 ["inputs"], "every theory built on the base classes, every rate, spectrum and line function, all energies and targets",
 "A test sees one model with reference numbers; a total that double counts, or a line with a neighbour's branching fraction, is a few per cent of a spectrum.",
 ["hazma/theory/__init__.py", "hazma/theory/_theory_cmb.py", "hazma/theory/_theory_gamma_ray_limits.py", "hazma/theory/_theory_constrain.py", "hazma/limits/_cmb.py", "hazma/limits/_existing_telescope.py", "hazma/limits/_relic_density.py", "hazma/parameters.py"],
 [("annihilation and decay base classes", "hazma/theory/__init__.py"), ("CMB limit", "hazma/theory/_theory_cmb.py"), ("gamma-ray limits", "hazma/theory/_theory_gamma_ray_limits.py"), ("convolution with the detector response", "hazma/parameters.py")])

prop("P21", "Decay and FSR spectra are numerically accurate over the whole energy range",
 "Each decay, boost and final-state-radiation spectrum equals its defining integral to a stated accuracy, is non-negative and integrates to the physical particle multiplicity and energy for all parent energies.",
 ["inputs"], "all photon, positron and neutrino energies and all parent energies",
 "Tests compare a finite grid of energies.",
 ["rust/src/kernels/photon_muon.rs", "rust/src/kernels/photon_pion.rs", "rust/src/kernels/photon_rho.rs", "rust/src/quad.rs", "hazma/spectra/boost.py"],
 [("quadrature", "rust/src/quad.rs"), ("boost integral", "hazma/spectra/boost.py")])

prop("P22", "Phase-space integration converges to the true phase-space volume and width",
 "The Monte Carlo and quadrature phase-space integrators give unbiased estimates of n-body widths and cross sections with error bars that cover the true value, and generated momenta are on shell and conserve four-momentum.",
 ["inputs"], "all masses, centre-of-mass energies, matrix elements and sample sizes",
 "A statistical estimate is tested at a few mass points with loose tolerances.",
 ["hazma/phase_space/_rambo.py", "hazma/phase_space/_three_body.py", "hazma/phase_space/_two_body.py"],
 [("RAMBO weights", "hazma/phase_space/_rambo.py")])

prop("P23", "The relic density solves the Boltzmann equation to the requested accuracy",
 "The computed relic density is the late-time solution of the freeze-out equation for the model's thermal cross section, to the solver's tolerance, for any model in which freeze-out is well defined.",
 ["inputs"], "all models, masses and couplings",
 "A stiff solver is tested on a few benchmark models.",
 ["hazma/relic_density/_rd.py", "hazma/relic_density/_diffeq.py", "hazma/relic_density/_thermal_functions.py"],
 [("Boltzmann solver", "hazma/relic_density/_diffeq.py")])

prop("P24", "Gamma-ray and CMB limits have the stated statistical coverage and monotonicity",
 "A limit is the largest cross section (or smallest lifetime) compatible with the data at the stated significance, scales inversely with the yield, and weakens when the observed counts grow.",
 ["inputs"], "all theories, measurements, targets and significances",
 "The limit is compared to published curves at a few masses.",
 ["hazma/theory/_theory_gamma_ray_limits.py", "hazma/theory/_theory_cmb.py", "hazma/limits/_cmb.py"],
 [("binned limit", "hazma/theory/_theory_gamma_ray_limits.py")])

prop("P25", "Derivative functions are the derivatives of the functions they accompany",
 "Every quantity the package offers as a derivative is the exact derivative of its companion, with respect to the variable it names: the background models' derivatives with respect to each of their parameters, the temperature derivatives of the entropy density, equilibrium number density and abundance for fermions and bosons, massive and massless, and the Jacobian of the freeze-out equation. "
 "Every parameter of a background model is reported under its own name and has a derivative, and the logarithmic, plain and density forms of the equilibrium abundance agree.",
 ["inputs"], "all energies, temperatures, masses and background parameters, both statistics, scalar and array arguments",
 "A wrong sign or a missing product-rule term changes a Fisher forecast or slows a stiff solver without failing; finite differences at a few points with loose tolerances miss a term that is small there.",
 ["hazma/gamma_ray_parameters.py", "hazma/background_model.py", "hazma/relic_density/_thermal_functions.py", "hazma/relic_density/_diffeq.py"],
 [("background derivatives", "hazma/gamma_ray_parameters.py"), ("thermal derivatives", "hazma/relic_density/_thermal_functions.py"), ("solver Jacobian", "hazma/relic_density/_diffeq.py")])

prop("P26", "Cross sections through a mediator factorise into the mediator's widths",
 "Above threshold, the cross section for dark matter to annihilate through the mediator into a final state equals the Breit-Wigner product of the mediator's partial widths into dark matter and into that final state, both evaluated at a mediator mass equal to the collision energy: "
 "cross section times ((s - M^2)^2 + M^2 W^2) times (s/4 - mx^2) = (2J + 1) pi s times the two widths, with J the mediator's spin and W its total width. "
 "This holds for every channel of the scalar and vector mediator models that has both a cross section and a width, and the total width is the sum of the partial widths.",
 ["inputs"], "all masses, couplings and collision energies above threshold, all shared channels",
 "Cross sections and widths are coded independently, in different languages, and tests pin each to its own past values; a wrong factor in one of them is invisible to any number of such pins.",
 ["hazma/scalar_mediator/_scalar_mediator_widths.py", "hazma/vector_mediator/_vector_mediator_widths.py", "hazma/vector_mediator/_gev/cross_sections.py", "hazma/vector_mediator/_gev/model.py", "rust/src/kernels/scalar_xs.rs", "rust/src/kernels/vector_xs.rs"],
 [("native cross sections", "rust/src/kernels/scalar_xs.rs"), ("widths", "hazma/vector_mediator/_vector_mediator_widths.py"), ("GeV prefactors", "hazma/form_factors/vector/_base.py")])

prop("P27", "A number and an array get the same answer",
 "A function that takes a number or an array (by its signature, its documentation, or because it asks which one it got) answers an array, element by element, with the value that it answers each of its numbers with: same units, same normalisation, same thresholds. "
 "It accepts arrays of any length, and answers an array with an array, not with one number.",
 ["inputs"], "every argument of a public function that may be a number or an array, every length of the array",
 "Tests call a function either with a number or with an array, rarely with both at the same point; the two branches are separate code in most of these functions.",
 ["hazma/form_factors/vector/_pi_gamma.py", "hazma/form_factors/vector/_eta_omega.py", "hazma/form_factors/vector/_pi_pi_omega.py", "hazma/form_factors/vector/_base.py", "hazma/vector_mediator/_gev/model.py", "hazma/vector_mediator/_gev/utils.py", "hazma/spectra/_fsr.py", "hazma/phase_space/_utils.py", "hazma/parameters.py", "hazma/relic_density/_thermal_functions.py"],
 [("number-or-array dispatch of the form factors", "hazma/form_factors/vector/_base.py"), ("kinematic thresholds", "hazma/vector_mediator/_gev/utils.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
