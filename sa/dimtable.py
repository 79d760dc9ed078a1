"""Functions analysed for dimensional consistency besides the channel rates: arguments and documented result units."""
from .values import D, D0

M, M2, IM, A = D(MeV=1), D(MeV=2), D(MeV=-1), D0
IM2, M3, M4 = D(MeV=-2), D(MeV=3), D(MeV=4)
CM3S = D(cm=3, s=-1)
FLUX = D(MeV=-1, cm=-2, s=-1)
# (module, function, {argument: unit}, unit of the result or None when only consistency is checked)
FUNCS = [
    ("hazma.utils", "kallen_lambda", {"a": M2, "b": M2, "c": M2}, M4),
    ("hazma.utils", "two_body_momentum", {"cme": M, "m1": M, "m2": M}, M),
    ("hazma.utils", "cross_section_prefactor", {"m1": M, "m2": M, "cme": M}, IM2),
    ("hazma.utils", "dnde_altarelli_parisi_fermion", {"energies": M, "cme": M, "mf": M}, IM),
    ("hazma.utils", "dnde_altarelli_parisi_scalar", {"energies": M, "cme": M, "ms": M}, IM),
    ("hazma.utils", "minkowski_dot", {"fv1": M, "fv2": M}, None),
    ("hazma.spectra.altarelli_parisi", "dnde_photon_ap_fermion", {"e": M, "s": M2, "mass": M, "charge": A}, IM),
    ("hazma.spectra.altarelli_parisi", "dnde_photon_ap_scalar", {"e": M, "s": M2, "mass": M, "charge": A}, IM),
    ("hazma.spectra.altarelli_parisi", "dndx_photon_ap_fermion", {"x": A, "s": M2, "mass": M, "charge": A}, A),
    ("hazma.spectra.altarelli_parisi", "dndx_photon_ap_scalar", {"x": A, "s": M2, "mass": M, "charge": A}, A),
    ("hazma.spectra.boost", "boost_delta_function", {"product_energy": M, "e0": M, "m": M, "beta": A}, IM),
    ("hazma.spectra.boost", "double_boost_delta_function", {"e2": M, "e0": M, "m": M, "beta1": A, "beta2": A}, IM),
    ("hazma.phase_space._utils", "two_body_phase_space_prefactor", {"q": M, "m1": M, "m2": M}, A),
    ("hazma.cmb", "vx_cmb", {"mx": M, "x_kd": A}, A),
    ("hazma.relic_density._thermal_functions", "sm_entropy_density", {"T": M}, M3),
    ("hazma.relic_density._thermal_functions", "sm_entropy_density_deriv", {"T": M}, M2),
    ("hazma.relic_density._thermal_functions", "neq", {"Ts": M, "mass": M}, M3),
    ("hazma.relic_density._thermal_functions", "neq_deriv", {"Ts": M, "mass": M}, M2),
    ("hazma.relic_density._thermal_functions", "yeq", {"Ts": M, "mass": M}, A),
    ("hazma.relic_density._thermal_functions", "yeq_deriv", {"Ts": M, "mass": M}, IM),
    ("hazma.relic_density._thermal_functions", "yeq_derivx", {"x": A, "mass": M}, A),
    ("hazma.relic_density._thermal_functions", "weq", {"T": M, "mass": M}, A),
]
E0 = {"e_cm": M, "mx": M, "ms": M, "gsxx": A}
# kernels of the native crate that no channel reaches
NATIVE_FUNCS = [
    ("rust.kernels.scalar_xs", "sigma_ss_to_xx", E0, IM2),
    ("rust.kernels.scalar_xs", "sigma_xs_to_xs", E0, IM2),
    ("rust.kernels.scalar_xs", "sigma_xl_to_xl", {**E0, "gsff": A, "width_s": M, "ml": M}, IM2),
    ("rust.kernels.scalar_xs", "sigma_xpi_to_xpi", {**E0, "gsff": A, "gsGG": A, "lam": M, "width_s": M, "vs": M}, IM2),
    ("rust.kernels.scalar_xs", "sigma_xpi0_to_xpi0", {**E0, "gsff": A, "gsGG": A, "lam": M, "width_s": M, "vs": M}, IM2),
    ("rust.kernels.scalar_xs", "sigma_xg_to_xg", {**E0, "gsFF": A, "lam": M, "width_s": M}, IM2),
]
# functions that take a model
MODEL_FUNCS = [
    ("hazma.relic_density._thermal_functions", "thermal_cross_section", {"x": A, "model": "model"}, IM2),
    ("hazma.relic_density._approx", "xstar_root_eqn", {"xstar": A, "model": "model"}, A),
    ("hazma.relic_density._approx", "compute_alpha", {"model": "model", "xstar": A}, A),
    ("hazma.relic_density._diffeq", "boltzmann_eqn", {"logx": A, "w": A, "model": "model"}, A),
    ("hazma.relic_density._diffeq", "jacobian_boltzmann_eqn", {"logx": A, "w": A, "model": "model"}, None),
    ("hazma.relic_density._rd", "relic_density", {"model": "model"}, A),
]
# methods of a model object
METHODS = [
    ("cmb_limit", {"x_kd": A, "p_ann": D(cm=3, s=-1, MeV=-1)}, CM3S),
    ("f_eff", {"x_kd": A}, A),
    ("f_eff_g", {"x_kd": A}, A),
    ("f_eff_ep", {"x_kd": A}, A),
    ("thermal_cross_section", {"x": A}, IM2),
    ("spectra", {"e_gams": M, "e_cm": M}, IM),
    ("positron_spectra", {"e_ps": M, "e_cm": M}, IM),
    ("total_spectrum", {"e_gams": M, "e_cm": M}, IM),
    ("total_positron_spectrum", {"e_ps": M, "e_cm": M}, IM),
    ("dnde_xx_to_v_to_ffg", {"egam": M, "Q": M, "f": "e"}, IM),
    ("dnde_xx_to_v_to_ffg", {"egam": M, "Q": M, "f": "mu"}, IM),
    ("dnde_xx_to_v_to_pipig", {"eng_gams": M, "Q": M}, IM),
    ("dnde_xx_to_s_to_ffg", {"photon_energies": M, "Q": M, "mf": M}, IM),
    ("dnde_xx_to_s_to_pipig", {"photon_energies": M, "Q": M}, IM),
    ("annihilation_branching_fractions", {"e_cm": M}, A),
]


def fn(dim, argdim):
    return ("fn", dim, argdim)


CM2, SEC = D(cm=2), D(s=1)
J = D(MeV=2, cm=-5)
DF = D(MeV=1, cm=-2)
# (class of the measurement/target..., constructor arguments) are built in the check; limits of annihilating dark matter
LIMITS = [
    ("binned_limit", {"measurement": "measurement", "n_sigma": A}, CM3S),
    ("unbinned_limit", {"A_eff": fn(CM2, M), "energy_res": fn(A, M), "T_obs": SEC, "target": "target", "bg_model": "bg_model", "n_sigma": A}, CM3S),
]
