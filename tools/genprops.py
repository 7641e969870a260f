"""Writes properties.jsonl (the source of the statements is this file)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


MOD = "src/naima/models.py"
RAD = "src/naima/radiative.py"
UT = "src/naima/utils.py"
CORE = "src/naima/core.py"
PLOT = "src/naima/plot.py"
ANA = "src/naima/analysis.py"
FIT = "src/naima/model_fitter.py"
MU = "src/naima/model_utils.py"
SH = "src/naima/sherpa_models.py"
VAL = "src/naima/extern/validator.py"

prop("C01", "Spectral model functions equal their documented formulas",
     "PowerLaw, ExponentialCutoffPowerLaw, BrokenPowerLaw, ExponentialCutoffBrokenPowerLaw and LogParabola, called with positive energies (a scalar or 1-d array Quantity in any energy unit, or a table or dict with an `energy` column), return the value of their documented formula for the parameter values the instance has at that moment, in the units of the amplitude and with the shape of the energies. The value does not depend on the units in which energies or energy parameters are written, reassigning a parameter takes effect at the next call, and calls never change the parameters. Energies or energy parameters without energy units raise TypeError and negative reference, break or cutoff energies raise ValueError.",
     ["inputs", "histories"],
     "all parameter values and units, all energies, units and input forms, all sequences of parameter reassignments",
     "tests evaluate each function at a handful of energies for one parameter set in one unit",
     [MOD, VAL], [("eval/_calc of each model class", MOD), ("memoize", MU)],
     ["naima.models.*.__call__"])

prop("C02", "TableModel interpolates its table in log-log space and is 0 outside",
     "A TableModel returns its amplitude times the cubic-spline interpolation of log10(value) against log10(energy): it reproduces the tabulated values at the tabulated energies and any power law or log-log polynomial up to third order everywhere in between, in the units of the tabulated values. For energies outside of the tabulated range it returns exactly zero, and the result does not depend on the order of the rows, on the energy units, or on the input form. Energies without energy units are rejected with TypeError.",
     ["inputs"], "all positive tables of at least four points, units, amplitudes and query energies",
     "one table with a few points is tested",
     [MOD], [("TableModel", MOD)], ["naima.models.TableModel.__call__"])

prop("C03", "EBL transmission follows the Dominguez opacity table",
     "EblAbsorptionModel(z).transmission(E) is exp(-tau) with tau the shipped Dominguez opacity of the tabulated redshift closest to z, interpolated in log-energy between 1 GeV and 100 TeV: it lies in [0, 1] and never grows with energy. It is exactly 1 below 1 GeV and for z below 0.01, and above 100 TeV it is that of 100 TeV; energies may come in any unit, as an array, table or dict. Negative redshifts and unknown EBL models raise ValueError, redshifts or energies with wrong units TypeError.",
     ["inputs"], "all redshifts and energies",
     "a few redshift/energy pairs are tested", [MOD, "src/naima/data/tau_dominguez11.npz"],
     [("EblAbsorptionModel", MOD)], ["naima.models.EblAbsorptionModel.transmission"])

prop("C04", "Radiative fluxes are linear in particles and target, finite and >= 0",
     "For Synchrotron, InverseCompton, Bremsstrahlung, PionDecay and PionDecayKelner06 the flux is proportional to the normalisation of the particle distribution and to the target density (ion density, energy density of the seed photon fields), and the flux of the sum of two populations is the sum of their fluxes to the accuracy of the numerical integration. Every flux of a non-negative particle distribution is finite and non-negative (up to lookup-table noise of 1e-6 of the peak for PionDecay; for Bremsstrahlung above 10 MeV, where its cross sections apply), and it is zero without particles. This holds for naima spectral models and for arbitrary functions as particle distribution.",
     ["inputs"], "all particle distributions, model parameters and photon energies",
     "tests compare luminosities of a few fixed models", [RAD, UT],
     [("_spectrum of each class", RAD), ("trapz_loglog", UT)], ["flux"])

prop("C05", "Distance scaling, SED definition and units of the radiative models",
     "flux(E, d) is the intrinsic differential luminosity flux(E, distance=0) divided by 4 pi d^2, with d = 1 kpc if it is not given, in 1/(s cm2 eV) or, for distance 0, in 1/(s eV); sed(E, d) is E^2 times flux(E, d), in erg/(s cm2) or erg/s. This holds for every radiative class, in any units of distance and energy, and in whatever order flux and sed are called on an instance. Distances that are not a length (other than 0) and energies that are not energies are rejected with an exception.",
     ["inputs", "histories"], "all models, energies, distances and sequences of flux and sed calls",
     "tests use one distance per model", [RAD], [("BaseRadiative.flux and sed", RAD)], ["flux", "sed"])

prop("C06", "Results do not depend on earlier calls (caching is transparent)",
     "Whatever was computed, changed or reassigned before, on this or on any other instance, flux and sed of a radiative model (including those of single seed fields) equal those of a freshly built model with the same parameters. In particular, changing any parameter of the model or of its particle distribution, or replacing the distribution, takes effect at the next call. Arrays returned earlier never change afterwards, and modifying a returned array or the array of energies passed to a call does not affect later results.",
     ["histories"], "all sequences of parameter changes, evaluations and modifications of inputs and results over several instances",
     "tests never evaluate, modify and re-evaluate the same instance in more than one way",
     [MU, RAD], [("memoize", MU), ("_cache/_queue of each instance", RAD)], ["flux", "sed"])

prop("C07", "Inverse Compton total is the sum of its seed photon fields",
     "For an InverseCompton model with several seed photon fields, flux and sed with seed=<name or number> return the contribution of that field alone, i.e. that of a model with just that field, whatever calls preceded it; the total is the sum over fields and does not depend on their order. The names CMB, FIR and NIR (in a list or joined by dashes) mean the documented temperatures and energy densities (2.72548 K black body; 30 K and 0.5 eV/cm3; 3000 K and 1 eV/cm3), CMB is the default, and an energy density of 0 means a black body of the given temperature. Seed names or numbers that do not exist and repeated names raise ValueError, and malformed seed fields raise TypeError or, for negative values, ValueError.",
     ["inputs", "histories"], "all combinations of seed fields, calls by name and number, energies and distances",
     "tests use two fixed seed lists", [RAD], [("InverseCompton.flux, sed, _process_input_seed", RAD)], ["flux(seed=)", "sed(seed=)"])

prop("C08", "Flux at an energy does not depend on how or with what it is asked",
     "For every radiative class, flux and sed at a photon energy are the same whether it is passed as a scalar, in an array together with any others in any order (repeated or not), or as the energy column of a table or dict, and in whatever energy unit. The result has one value per energy, in their order. (For PionDecayKelner06 the energies are taken on the same side of Etrans.)",
     ["inputs"], "all sets, orders, units and containers of photon energies",
     "tests use one energy array in one unit and container", [RAD], [("_validate_ene, flux, sed", RAD)], ["flux", "sed"])

prop("C09", "Synchrotron spectrum: exact emissivity of isotropic fields",
     "The Synchrotron luminosity is the integral over the electron distribution between Eemin and Eemax (in log-log trapezoids with nEed points per decade) of the emissivity of one electron in a randomly oriented field B, as approximated by Aharonian, Kelner and Prosekin (2010), within 0.3 %; hence within 1 % of the exact average over pitch angles of the synchrotron function. The documented defaults (B = 3.24 uG, Eemin = 1 GeV, Eemax = 1e9 electron masses, 100 points per decade) apply when nothing is given. The flux scales with B as that formula requires.",
     ["inputs"], "all electron distributions, fields, energy limits and photon energies",
     "tests compare the total luminosity of three distributions with stored numbers", [RAD, UT],
     [("Synchrotron._spectrum", RAD)], ["flux"])

prop("C10", "Inverse Compton spectrum: Klein-Nishina on every kind of seed field",
     "The InverseCompton luminosity is the integral over the electrons between Eemin and Eemax of the documented scattering rate on each seed field: Khangulyan et al. 2014 for isotropic and for anisotropic thermal fields (scaled by energy density over that of a black body), and the full Klein-Nishina rate of Aharonian and Atoyan 1981 for monochromatic and tabulated fields (tabulated as photon or energy density per energy), isotropic or, if an angle is given, at this angle. These agree with each other: the average over angles of anisotropic fields is the isotropic field (12 % for monochromatic ones, whose edges fall between electron energies), and a tabulated black body is the thermal field, to 5 %. The flux is zero above the maximum electron energy and the documented defaults (CMB, Eemin = 1 GeV, Eemax = 1e9 electron masses, 100 points per decade) apply.",
     ["inputs"], "all electron distributions, seed fields, angles, energy limits and photon energies",
     "tests compare luminosities of a few seed lists with stored numbers", [RAD, UT],
     [("_iso_ic_on_planck, _ani_ic_on_planck, _iso_ic_on_monochromatic", RAD)], ["flux"])

prop("C11", "Bremsstrahlung spectrum follows Baring et al. (1999)",
     "The Bremsstrahlung luminosity is n0 c times the integral over the electrons between Eemin and Eemax of weight_ee times the electron-electron plus weight_ep times the electron-proton differential cross section of Baring et al. 1999 (relativistic above 2 MeV, non-relativistic below), within 0.3 % (within 0.5 MeV of the kinematic limit, where they turn negative, they may count as zero). The two contributions add, either weight may be zero, and the defaults are n0 = 1/cm3, the weights of an ionised medium with ISM abundances (1.0875, 1.2625), Eemin = 100 MeV, Eemax = 1e9 electron masses and 300 points per decade. No photons are produced above the maximum electron energy.",
     ["inputs"], "all electron distributions, weights, densities, limits and photon energies",
     "tests compare two luminosities with stored numbers", [RAD, UT], [("Bremsstrahlung._sigma_*, _emiss_*", RAD)], ["flux"])

prop("C12", "Pion decay spectrum follows Kafexhiu et al. (2014)",
     "Without the lookup table, the PionDecay luminosity is nh c times the integral over the protons between Epmin and Epmax of the differential cross section of Kafexhiu et al. 2014 for the chosen high-energy model (Geant4, Pythia8, SIBYLL or QGSJET), with or without nuclear enhancement, within 0.5 %; protons below the production threshold and photons beyond the kinematic limit contribute nothing. With the lookup table (default, used only if it exists for the chosen model and enhancement) the flux agrees with the direct computation within 3 % wherever it is not an exponentially suppressed tail (below 1e-6 of the peak). The documented defaults (Pythia8, nuclear enhancement, nh = 1/cm3, Epmin at threshold, Epmax = 10 PeV, 100 points per decade) apply, and the choices can be changed on an existing instance.",
     ["inputs", "configurations"], "all proton distributions, models, options, limits and photon energies",
     "tests compare luminosities of one distribution per model with stored numbers", [RAD, UT],
     [("PionDecay._diffsigma, _spectrum, LookupTable", RAD)], ["flux"])

prop("C13", "Kelner et al. (2006) pion decay spectrum and its continuity",
     "PionDecayKelner06 gives, above Etrans, nh c times the integral over x of sigma_inel J_p F_gamma(x) of Kelner et al. 2006, and, below, the delta-functional approximation multiplied by one constant, which makes the spectrum continuous at Etrans when energies at both sides are requested and is 1 when all lie below. Results are within 2.5 % of these integrals, and Wp is the integral of E J_p above 1.22 GeV. The flux of one instance never depends on other instances.",
     ["inputs"], "all proton distributions, Etrans, densities and photon energies",
     "tests compare one luminosity with a stored number", [RAD], [("PionDecayKelner06", RAD)], ["flux", "Wp"])

prop("C14", "Energy content: We/Wp, compute_We/Wp and set_We/Wp agree",
     "We and Wp are the total energy of the particle distribution between the energy limits of the model, and compute_We/compute_Wp that between any given limits (each defaulting to that of the model), within integration accuracy; contents of adjacent ranges add up. After set_We/set_Wp, compute_We/compute_Wp with the same limits returns exactly the requested energy, every flux is scaled by the ratio of requested to old energy, and only the amplitude of the distribution (or the attribute called amplitude_name) changed: its type, units and all other parameters are kept, and an amplitude object shared with other models is not modified. Contents that are not an energy are rejected with TypeError.",
     ["inputs", "histories"], "all distributions, limits, requested contents and sequences of these calls",
     "tests set one energy content for one distribution", [RAD], [("compute_We, set_We, compute_Wp, set_Wp", RAD)],
     ["We", "Wp", "compute_We", "set_We", "compute_Wp", "set_Wp"])

prop("C15", "Log-log trapezoidal integration is exact for piecewise power laws",
     "trapz_loglog is exact for every function that is a power law between consecutive points (any index, including exactly or almost -1), of any sign of slope and along any axis, with the product of the units of both arguments; intervals with a zero at either end or of zero width contribute zero. With intervals=True it returns the contribution of each interval, and these add up to the integral. It is additive over adjacent ranges, scales linearly with y, changes sign under reversal of x, and does not modify its arguments.",
     ["inputs"], "all positive arrays, axes and units", "tests integrate one or two functions", [UT],
     [("trapz_loglog", UT)], ["naima.utils.trapz_loglog"])

prop("C16", "Data table validation is canonical: representation does not matter",
     "Validating a data table gives, sorted by energy, the same measurements whatever their representation: order of the rows, units of each column, Table or QTable, symmetric or separate flux errors, energy bins given as width, half width, separate half widths or edges, upper limits as bool, int or string flags, in flux or in a separate flux_ul column. The result always has energy, flux, flux_error_lo/hi, energy_error_lo/hi, ul and cl (from the keyword cl, 0.9 if missing), each row keeping its own values; bins not given are generated between neighbouring energies. The output is SED or differential as requested (E^2 conversion; by default as the input), validating it again changes nothing, and the input table is left as it was.",
     ["inputs"], "all tables and all their representations", "tests read a few files", [UT],
     [("_validate_single_data_table, validate_data_table, generate_energy_edges", UT)],
     ["naima.utils.validate_data_table"])

prop("C17", "Several data tables are merged without mixing their measurements",
     "Validating a list of tables gives the union of the rows of each of them validated on its own, sorted by energy, each with its own values, errors, upper limit flag, confidence level, generated energy bins (from its own table only) and a group number equal to the position of its table. All are converted to SED or differential form as requested or else as the first table, so the order of the tables affects nothing but that form and the group numbers. Tables of flux cannot be merged with tables of luminosity (TypeError), in either order.",
     ["inputs"], "all lists of tables, in different units and forms", "tests merge one pair of files", [UT],
     [("validate_data_table", UT)], ["naima.utils.validate_data_table"])

prop("C18", "Malformed data tables are rejected, never silently misread",
     "A data table lacking energy, flux or flux errors, with a column of the wrong physical type or without units, with unparseable upper limit flags or a confidence level that is not a number, or anything that is not a table or list of tables, is rejected with an exception (TypeError for missing columns, wrong types and non-tables) by validation, build_data_table, get_sampler and estimate_B alike. No valid table is rejected. get_sampler also raises TypeError without table or model and UnitsError if the model returns something that cannot be compared to the data.",
     ["inputs"], "all single corruptions of all valid tables", "tests try a few broken tables", [UT, CORE, VAL],
     [("validate_column, validate_physical_type", UT)], ["validate_data_table", "build_data_table", "get_sampler", "estimate_B"])

prop("C19", "The likelihood is that of the data, in any form and unit",
     "The log-likelihood used by samplers is minus half the sum over flux points of the squared difference of model and flux over the upper flux error if the model lies above the point and the lower one if below, plus log(1 - cl) for every upper limit that the model exceeds, each with its own confidence level. It does not depend on the units of data or model, on either being SED or differential, on the order of the rows, or on splitting the data into several tables. A model equal to all fluxes and below all upper limits has log-likelihood 0, and no model a larger one.",
     ["inputs"], "all data tables, models, units and forms", "tests compute the probability of a couple of models", [CORE, UT],
     [("lnprobmodel", CORE), ("sed_conversion", UT)], ["sampler.compute_log_prob", "sampler.get_log_prob"])

prop("C20", "Priors are the documented distributions; posterior = prior x likelihood",
     "uniform_prior is 0 inside its closed interval and -inf outside; normal_prior is the log of a normalised Gaussian density; log_uniform_prior is -log(value) within its limits (default: all positive values) and -inf outside. The log-probability of a sampler is the prior plus the log-likelihood of the model (the first element if it returns several), is -inf exactly where the prior is, and without prior it is the likelihood. The blobs of each position are the objects the model returned there (Quantities keep their units, arrays their shape), or the model flux if it returned only that.",
     ["inputs"], "all parameter vectors, prior and model functions, and blob structures", "tests call each prior at a few values", [CORE],
     [("normal_prior, uniform_prior, log_uniform_prior, lnprob", CORE)], ["priors", "sampler.compute_log_prob", "sampler.get_blobs"])

prop("C21", "Samples, probabilities and blobs of a run belong together",
     "After get_sampler and run_sampler the chain has nrun steps of nwalkers positions, and each log-probability and blob stored is the one the model, prior and data give for the position stored next to it; the burn-in is discarded, the returned state is the last step, and a further run continues from it. The number of processes changes nothing: with the same random seed, one or several give the same chain. run_info records walkers, burn-in, run length, starting point and normalisation guess; labels are completed to one per parameter; the sampler keeps the data, model and table given.",
     ["histories", "configurations"], "all models, priors, run lengths, numbers of walkers and processes, and sequences of runs",
     "tests run two short chains and check that they finish", [CORE], [("get_sampler, run_sampler, _run_mcmc", CORE)],
     ["sampler.get_chain", "sampler.get_log_prob", "sampler.get_blobs", "run_info"])

prop("C22", "Starting point: normalisation guess and maximum-likelihood prefit",
     "With guess=True, the parameter whose label starts with norm, ampl, We or Wp (in any case) is multiplied by the ratio of the energy-integrated data to model flux (its logarithm added for labels log(...) and log10(...)), so that a model proportional to it then integrates to the data; no other parameter changes, and none at all without exactly one such label or with guess=False. With prefit=True, the starting point has at least the likelihood of the one given and is allowed by the prior. Walkers start around that point, and the p0 and labels passed by the user are not modified.",
     ["inputs"], "all models, labels, starting points and data", "tests start a few fits", [CORE, "src/naima/extern/minimize.py"],
     [("get_sampler, _prefit", CORE), ("_minimize_neldermead", "src/naima/extern/minimize.py")], ["sampler.run_info['p0']"])

prop("C23", "save_run / read_run round trip",
     "read_run(save_run(sampler)) returns the same chain, log-probabilities, labels, run_info values, acceptance fraction, data table (values, units, flags) and, for every blob that is a float, a Quantity or a tuple or list of arrays, the same values and units at every step and walker (tuples return as lists, floats as dimensionless quantities; others are skipped keeping their place). Flattened accessors return the same samples in the same order. An existing file is only overwritten with clobber=True, and file names without .h5 or .hdf5 suffix raise ValueError without writing.",
     ["inputs", "histories"], "all chains, blob structures, units, labels and run_info", "tests save and read one run", [ANA],
     [("save_run, read_run", ANA)], ["naima.save_run", "naima.read_run"])

prop("C24", "Results table reports the statistics of the chain",
     "save_results_table returns, and writes to <outname>_results.ecsv (or .dat), one row per parameter with the median of its samples and the distances from it to the 16th and 84th percentiles; for labels log(...) and log10(...) also those of the exponentiated samples under the inner name (unless convert_log=False); and for every scalar blob those of its values in its units (unless include_blobs=False). It uses all samples or only the last step as requested, and records the number of samples, the maximum log-likelihood of the chain and its parameters, BIC = k ln(n data) - 2 lnL, and the run information. Reading the ECSV file gives the same table.",
     ["inputs"], "all chains, labels, blobs and options", "tests check that a table is written", [ANA, PLOT],
     [("save_results_table", ANA), ("find_ML", PLOT)], ["naima.save_results_table"])

prop("C25", "Best fit and confidence bands are those of the chain",
     "The maximum likelihood parameters, probability and model shown by plot_fit and plot_corner are those of the most probable sample of the chain (its own blob, in its units), with half the distance between the 16th and 84th percentiles as parameter errors. Confidence bands at n sigma enclose the central erf(n/sqrt 2) of the model values at each energy, taken from all samples (or only those of the last step) of the selected blob, or from models evaluated at randomly chosen samples of the chain on the requested energy grid when an energy range is given; they are ordered and nested for any set of levels. n_samples shows that many models of samples. Values are shown as SED or differential spectrum and in the energy units requested.",
     ["inputs"], "all chains, blobs, confidence levels and options", "tests check that plots are produced", [PLOT],
     [("find_ML, _calc_ML, _calc_CI, _read_or_calc_samples, plot_corner", PLOT)], ["naima.plot_fit", "naima.plot_corner"])

prop("C26", "Plots draw the data and the models they are given",
     "plot_data and plot_fit draw every flux point at its energy and flux (times E^2 for SED) with its own lower and upper errors and its energy bin, every upper limit as an arrow from its value, points compatible with zero with their upper error and a lower error cut so that it can be shown, and each table of data in its own color, whether data come as tables, lists of tables, validated tables, dicts or samplers. Residuals are (data - model)/(mean of the two errors) for the best fit of the selected model interpolated at the data energies, with error 1. Data and residuals appear by default if the model is comparable with them. Axes are in the requested (or data, or previous figure's) energy unit and the SED or differential unit stated in the labels. Producing plots does not change the sampler, tables, options or matplotlib settings, nor the outcome of later plots.",
     ["inputs", "histories"], "all data tables, chains, options and sequences of plots", "tests check that plotting does not fail", [PLOT],
     [("plot_data, plot_fit, _plot_data_to_ax, _plot_residuals_to_ax", PLOT)], ["matplotlib artists"])

prop("C27", "Values with uncertainties are formatted without loss",
     "plot_chain (for a parameter, and for labels log(...) and log10(...) also for its exponential) and plot_blob (for scalar blobs, in their units) show median, standard deviation and the value with lower and upper uncertainties (16th and 84th percentiles) of all samples or those of the last step. The LaTeX text of a value with uncertainties denotes numbers that agree with value and uncertainties to the precision shown: the uncertainties with at least their first significant digit and the value to the same decimal place, one uncertainty (the mean) being given for two only if these differ by less than 25%. It is correct for any sign and magnitude, including zero values or uncertainties.",
     ["inputs"], "all values and uncertainties", "tests format no value", [PLOT],
     [("_latex_value_error, _latex_float", PLOT)], ["plot_chain text"])

prop("C28", "Sherpa models equal the naima models they wrap",
     "For every parameter set, the Sherpa models InverseCompton, Synchrotron, Bremsstrahlung and PionDecay return E times the naima flux of the corresponding radiative model with the corresponding (exponential cutoff, or plain for cutoff 0) power law of particles at the given distance for photon energies in keV, and for binned grids the integral over each bin. Values depend only on the current parameters and grid, never on earlier evaluations, and scale with amplitude and inverse square distance. guess() rescales the amplitude so that the model reproduces the integrated flux of the data.",
     ["inputs", "histories"], "all parameter values, grids and sequences of evaluations", "tests evaluate the default parameters", [SH],
     [("SherpaModelECPL and subclasses", SH)], ["calc", "guess"])

prop("C29", "estimate_B follows from the ratio of luminosities",
     "estimate_B(xray, vhe, u) is sqrt(8 pi u Lx/Lvhe), with L the log-log integral of the energy flux of each table and u the photon energy density (0.261 eV/cm3 by default), in uG. It does not depend on the units, form (SED or differential) or row order of the tables, scales with the square roots of the X-ray flux and of u and the inverse square root of the gamma-ray flux, and recovers B for tables whose energy fluxes are in the ratio u_B/u_ph. The tables are not modified.",
     ["inputs"], "all pairs of tables and densities", "tests estimate one field", [UT], [("estimate_B", UT)], ["naima.estimate_B"])

prop("C30", "The interactive fitter shows the model at the slider parameters",
     "At any moment the model line of InteractiveModelFitter is the model function evaluated at its current parameters (those of its sliders) over the displayed energy range, or at the data energies if they do not exceed it, converted to the displayed form and units, and the log-likelihood shown is that of the sampler for those parameters. A fit leads to a likelihood not worse than before and moves sliders, parameters and line to the same values. The p0 and data passed are not modified.",
     ["histories"], "all sequences of slider moves, updates and fits", "tests move one slider", [FIT],
     [("InteractiveModelFitter", FIT)], ["modelline", "pars", "lnprobtxt"])

prop("C31", "No public call modifies the arguments it is given",
     "Tables, arrays, Quantities, dicts, lists, particle distributions and samplers passed to the public functions and models of naima are left as they were: same values, units, dtype, columns, metadata and order. This holds for models, flux and sed calls, data validation, sampling, prior functions, tables, plots and saved runs, and also when the call fails. The exceptions are what the call documents to change: the amplitude in set_We and set_Wp, and the sampler being run.",
     ["inputs", "histories"], "all calls and sequences of calls sharing arguments", "tests never look at the arguments after a call",
     [MOD, RAD, UT, CORE, PLOT, ANA], [("all public functions", "src/naima")], ["arguments"])

prop("C32", "Generated energy bins and built tables describe their input",
     "generate_energy_edges returns for every energy non-negative distances to bin edges such that bins of neighbouring energies meet at their geometric mean, the first and last being completed on the outer side, independently of the order of the array, of its units, and, when group numbers are given as an array, of the energies of the other groups. build_data_table returns a table with exactly the given values, units, upper limits and confidence level, which validates to the same measurements, and raises TypeError without flux errors.",
     ["inputs"], "all energies, orders, groups and optional columns", "tests use two sorted arrays", [UT],
     [("generate_energy_edges, build_data_table", UT)], ["naima.generate_energy_edges", "naima.build_data_table"])

prop("C33", "SED conversion is E^2 with consistent units, and invertible",
     "sed_conversion(energy, unit, sed) returns the target unit and the factor that converts a spectrum in the given unit to it: E^2 or E^-2 between differential and SED forms, and 1 within a form. The target is erg-based for SED and 1/TeV-based for differential forms of the same kind (flux, luminosity, particle content or density), so that converting there and back restores the spectrum, in any energy units, and any other physical type raises UnitsError.",
     ["inputs"], "all energies, units and directions", "tests convert a few units", [UT], [("sed_conversion", UT)], ["naima.sed_conversion"])

prop("C34", "Diagnostic plots: one for every parameter, the corner, every model",
     "save_diagnostic_plots saves, as PNG files named after outname or (pdf=True) as pages of one PDF, a chain plot for each parameter (whatever its label, none overwriting another), the corner plot with the most probable sample, and a plot of each of the model outputs selected (default: all), in the order requested: of the best fit for spectra, as SED or differential as requested for each, and of the distribution of values for scalars. Each shows the parameter, output and samples (all, or those of the last step) that its name and label say. No figure is left open, and sampler, arguments and matplotlib settings remain as they were.",
     ["inputs"], "all samplers, selections of models, labels and options", "tests only check that the call does not raise", [ANA, PLOT],
     [("save_diagnostic_plots", ANA)], ["files", "figures saved"])

prop("C35", "Lookup tables hold the cross section and interpolate it",
     "generate_lut_pp writes, for each high-energy model requested (default: all four), a file named <out_base>[NucEnh_]<model>.npz with the differential cross section of Kafexhiu et al. 2014 of that model, with or without nuclear enhancement, at every pair of the proton and photon energies given, in any units. A LookupTable of such a file returns the tabulated values at the tabulated energies, reproduces cubic polynomials of the logarithms of the energies everywhere in between, and covers() exactly the photon energies within the table. The table shipped with the package holds that of Pythia8 with nuclear enhancement.",
     ["inputs"], "all grids, models, units and points of the tables", "tests generate no table and read none",
     [RAD, "src/naima/data/PionDecayKafexhiu14_LUT_NucEnh_Pythia8.npz"],
     [("generate_lut_pp, _calc_lut_pp, LookupTable", RAD)], ["generate_lut_pp", "LookupTable"])

prop("C36", "Radiative model parameters: any right unit, no wrong physical type",
     "The dimensional parameters of the radiative models (B, n0, nh, Eemin, Eemax, Epmin, Epmax, Etrans) may be given in any unit of their physical type, to the constructor or by assignment, without changing the spectrum. A value of another physical type or without units, and a particle distribution that is not a number of particles per energy, raise an exception at the latest when spectrum or energy content are computed: they are never silently misread.",
     ["inputs", "histories"], "all classes, parameters, values and units, assigned or given to the constructor", "tests try one wrong unit of a few parameters",
     [RAD, VAL], [("constructors and _spectrum of each class", RAD), ("validate_scalar", VAL)], ["flux", "sed", "We", "Wp"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
