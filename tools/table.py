# executed by gen.py; P(...) registers one property
VN = "static value numbering over the AST (whole-program abstract interpretation)"

P("P01", "Halo mass follows the rolling power law, frozen at t_peak",
  "For every parameter set, time and age of the universe, the public mass functions return log10(mass) = logm0 + index(t)*(log10 t - log10 t0), where index rolls from early_index to late_index as a sigmoid of speed 3.5 in log10 t about logtc, evaluated at min(t, t_peak). A halo still growing at t0 has mass exactly logm0 there.",
  ["inputs"], "all parameters, times and t0", "tests evaluate a few default parameter sets and compare shapes, monotonicity and stored tables",
  [DK], [("rolling power law clipped at t_peak", DK + ":_log_mah_kern"), ("public entry points", DK + ":mah_singlehalo, mah_halopop, logmh_at_t_obs")],
  VN, "Each public entry point is proved to compute the documented formula.")

P("P02", "After t_peak a halo stops growing, and its mass is continuous there",
  "At every time after its t_peak a halo's accretion rate is exactly zero and its mass is exactly its mass at t_peak. The growing branch meets the frozen value at t_peak without a jump.",
  ["inputs"], "all parameters and times, single halos and populations", "tests sample a few t_peak values on one time grid",
  [DK], [("mass clipping", DK + ":_log_mah_kern"), ("rate clipping", DK + ":_dmhdt_kern")], VN + " with order facts t > t_peak", "")

P("P03", "Halo mass never decreases up to t0 and accretion is never negative",
  "For every halo with early_index >= late_index > 0 the mass history is non-decreasing in time up to t0, constant after t_peak, and the accretion rate is never negative.",
  ["inputs"], "all admissible parameters, all times up to t0", "tests check sampled histories on a grid only",
  [DK], [("rolling power law", DK + ":_rolling_plaw_vs_logt"), ("clipping at t_peak", DK + ":_log_mah_kern, _dmhdt_kern")],
  "sign analysis of the formal derivative on rational normal forms", "")

P("P04", "Accretion rate is the time derivative of the mass, in Msun/yr",
  "Away from the instant t_peak, dmhdt equals d(10**log_mah)/dt of the mass history returned alongside it, divided by 1e9, for single halos and populations, and has the same shape.",
  ["inputs"], "all parameters and times", "tests compare one finite-difference case with loose tolerance",
  [DK], [("gradient kernels", DK + ":_dmhdt_noq_grad_kern_scalar, _dmhdt_noq_kern_scalar, _dmhdt_kern")],
  "formal differentiation + value numbering", "")

P("P05", "Population results equal the single-halo results halo by halo",
  "Row i of every population history is the single-halo history of halo i: same accretion rate, same mass, shape (n_halos, n_times). The mass at a single time is the mass history at that time, for a float or an array of per-halo times; the scalar-time and unbounded-parameter variants give the same values.",
  ["inputs"], "all populations of any size, all times", "tests use one population of identical or a few halos",
  [DK], [("vmap over halos", DK + ":_diffmah_kern_vmap"), ("single-time mass", DK + ":logmh_at_t_obs")], VN, "")

P("P06", "Unbounded parameters always map to physically admissible parameters",
  "Any real-valued unbounded parameter vector maps to parameters strictly inside the documented bounds, with early_index >= late_index. The default parameters lie strictly inside their bounds.",
  ["inputs"], "all real unbounded parameter vectors", "tests draw a few random vectors",
  [DK], [("bounding transform", DK + ":get_bounded_mah_params"), ("bounds table", DK + ":MAH_PBOUNDS")],
  "sign analysis on rational normal forms", "")

P("P07", "Bounded and unbounded halo parameters are inverse maps",
  "Transforming parameters to the unbounded space and back returns the same parameters, in both directions, field by field, for floats and arrays; the default unbounded parameters are the transform of the default parameters.",
  ["inputs"], "all parameters inside the bounds, all real unbounded vectors", "tests draw a few random vectors within tolerance",
  [DK], [("transforms", DK + ":get_bounded_mah_params, get_unbounded_mah_params")], VN, "")

P("P08", "Every population parameter transform is a bounded bijection, by name",
  "For every component of the population model, mapping to the unbounded space and back is the identity in both directions; each bounded parameter depends only on the unbounded parameter of its own name and lies strictly inside the bounds listed under its own name.",
  ["inputs"], "all real unbounded vectors of each component, all parameters inside the bounds", "tests draw a few vectors near the defaults with loose tolerance; swapped or shared entries pass",
  [PK], [("get_bounded_*/get_unbounded_* of each component", PK + "*.py"), ("bounding sigmoid", "diffmah/utils.py:_sig_slope and friends")],
  VN + " + sign and dependence analysis", "")

P("P09", "Default population parameters lie strictly inside their bounds",
  "Every default parameter of every population component lies strictly between the lower and upper bound listed under its own name, and the default unbounded parameters are the transform of the defaults, all finite.",
  ["configurations"], "every parameter of every component table", "tests check a subset of the tables, by position",
  [PK], [("default and bounds tables", PK + "*.py")], "constant evaluation of the module-level tables by abstract interpretation", "")

P("P10", "The population parameter vector is exactly its components, field by name",
  "The assembled population parameter tuple holds every component's parameters once under its own name; splitting it into components, transforming the whole and transforming each component agree, in both directions.",
  ["inputs", "configurations"], "all parameter values", "tests compare the assembled defaults only",
  [PK + "bimod_censat_params.py"], [("component selection and transforms", PK + "bimod_censat_params.py")], VN, "")

P("P11", "Mean growth parameters follow their own branch's relations",
  "For every mass and time, the mean logm0, logtc, early_index and late_index of the early and late populations of centrals and satellites are the documented relations of the parameters belonging to that branch and population, and of no others.",
  ["inputs"], "all population parameters, masses and times", "tests check ranges and finiteness for default parameters; a branch reading its sibling's parameter passes",
  [PK], [("component kernels", PK + "*.py"), ("composition", PK + "mc_bimod_cens.py, mc_bimod_sats.py")],
  VN + " + semantic dependence sets", "")

P("P12", "Independent random draws never share a PRNG key",
  "Within any generator call every pair of random draws uses distinct, non-ancestral keys descending from the caller's key, distinct per halo, and no draw uses hidden global state; the same key therefore always gives the same population.",
  ["inputs", "histories"], "all keys, all population sizes, every public generator", "correlated draws look random in every sampled test",
  [PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py", PK + "bimod_cens_fithelp.py", PK + "bimod_sats_fithelp.py", PK + "diagnostics"],
  [("key splitting", PK + "mc_bimod_cens.py, mc_bimod_sats.py")], "PRNG-key linearity analysis over symbolic key terms", "")

P("P13", "Each generated halo depends only on its own inputs",
  "Output i of every population generator depends on the mass, observation time and t_peak of halo i and on no other halo's, carries its own randomness, and every output has leading dimension n_halos.",
  ["inputs"], "all populations of any size", "tests check shapes for one population",
  [PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py"], [("vmapped generators", PK + "mc_bimod_cens.py, mc_bimod_sats.py")],
  "index-locality (dependence) analysis", "")

P("P14", "Each generated halo is wholly early or wholly late, with the right odds",
  "A halo is early exactly when its own uniform draw is below the early fraction for its mass and time; then all of its parameters come from the early branch, otherwise all from the late branch. The returned histories are those of the returned parameters.",
  ["inputs"], "all keys, parameters, masses and times", "tests compare loose averages; swapped or mixed branches pass",
  [PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py", PK + "frac_early_cens.py"], [("branch selection", PK + "mc_bimod_cens.py, mc_bimod_sats.py")],
  VN + " with case splits on the selection guard", "")

P("P15", "Fractions are fractions and respect their documented limits",
  "Over all allowed parameters, masses and times the early fraction and the fraction with t_peak at t0 lie within [0, 1] and inside their documented limits, and follow their documented relations.",
  ["inputs"], "the whole box of allowed parameters, every mass and time", "tests check default parameters at a few masses",
  [PK + "frac_early_cens.py", PK + "ftpt0_cens.py"], [("sigmoid fractions", PK + "frac_early_cens.py, ftpt0_cens.py")], "interval analysis + value numbering", "")

P("P16", "Generated t_peak lies in its physical range",
  "Generated t_peak of centrals is always between 0.05 t0 and t0, and that of satellites between 0.1 t_obs and t_obs, for all allowed parameters and every random draw.",
  ["inputs"], "all allowed parameters, masses, times and keys", "tests sample a few keys",
  [PK + "t_peak_kernels"], [("t_peak generators", PK + "t_peak_kernels")], "interval analysis", "")

P("P17", "t_peak is sampled from its own distribution by inverse transform",
  "Each cumulative t_peak distribution is the integral of its density, and sampling tables pair the cumulative probability at each abscissa with that abscissa. Location and scale follow the documented relations of halo mass and time.",
  ["inputs"], "all parameters and abscissae", "tests compare one histogram with default parameters",
  [PK + "t_peak_kernels"], [("pdf/cdf kernels and inverse-transform tables", PK + "t_peak_kernels")], "formal differentiation + value numbering", "")

P("P18", "Mean growth parameters are always admissible halo parameters",
  "For all allowed population parameters, masses and times, the mean logtc, early_index and late_index of every branch lie strictly inside the individual-halo bounds and early_index exceeds late_index, so that the unbounded transform used to add scatter is defined.",
  ["inputs"], "the whole box of allowed parameters, every mass and time", "tests evaluate defaults on a grid",
  [PK], [("component bounds", PK + "*.py"), ("halo bounds", DK)], "interval analysis", "")

P("P19", "The scatter covariance matrix is symmetric positive definite",
  "Entry (i, j) of the covariance matrix is rho_ij std_i std_j with the standard deviations and correlation of its own pair of parameters, symmetric, and positive definite for every allowed parameter set.",
  ["inputs"], "the whole box of allowed covariance parameters", "tests try random draws near the defaults",
  [PK + "covariance_kernels.py"], [("covariance assembly", PK + "covariance_kernels.py")], VN + " + interval analysis (diagonal dominance)", "")

P("P20", "Scatter is one correlated Gaussian per branch, in unbounded space",
  "Each generated parameter is the bounded transform of its unbounded mean plus its own component of a single four-dimensional Gaussian with that halo's covariance; t_peak carries no extra scatter. Generated parameters are therefore always admissible.",
  ["inputs"], "all keys, parameters, masses and times", "tests check finiteness and bounds of samples; permuted components pass",
  [PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py"], [("scatter application", PK + "mc_bimod_cens.py, mc_bimod_sats.py")], VN, "")

P("P21", "Predicted mean and scatter are the mixture moments of the population",
  "The predicted mean mass history and its scatter for a bin are exactly the mean and standard deviation of log-mass of the weighted early/late Monte Carlo realisation.",
  ["inputs"], "all parameters, times, keys", "tests compare against one generated sample with loose tolerance",
  [PK + "bimod_cens_fithelp.py", PK + "bimod_sats_fithelp.py", PK + "mc_bimod_cens.py", PK + "mc_bimod_sats.py"],
  [("moments", PK + "mc_bimod_cens.py, mc_bimod_sats.py")], VN, "")

P("P22", "Population losses measure mismatch of both mean and scatter, with own gradient",
  "Each population loss is the mean over mass/time bins of the squared mismatch in mean and scatter, is zero exactly for a perfect match, the combined loss is the sum of its central and satellite parts, and each gradient function differentiates its own loss with respect to the parameters.",
  ["inputs"], "all parameters and targets", "tests check that a loss is positive and finite",
  [PK + "bimod_cens_fithelp.py", PK + "bimod_sats_fithelp.py", PK + "bimod_censat_fithelp.py"], [("loss kernels", PK + "bimod_*_fithelp.py")], VN, "")

P("P24", "The fitter fits exactly the resolved part of the simulated history",
  "The target points are exactly the simulated times whose mass exceeds 10**lgm_min, lies within dlogm_cut of the final mass, and whose time is at least t_fit_min; zero masses are never fitted. Target values are the running maximum of log10 mass over those points, each at its own time.",
  ["inputs"], "all simulated histories, thresholds and times", "tests fit a few smooth histories with default cuts",
  [FH + "diffmah_fitter_helpers.py"], [("target selection", FH + "diffmah_fitter_helpers.py:get_loss_data, _get_target_data, _get_clipped_log_mah")],
  VN + " of the boolean filter predicate at a generic time step", "")

P("P25", "A halo that cannot be fitted is flagged and filled, never half-fitted",
  "The fit is skipped exactly when fewer than 3 target points lie below the final target mass, or when asked; then every parameter and the loss are -99, fit_terminates is False, code_used is -1 and no optimiser runs. Otherwise the optimiser's own best parameters, loss, status and code are returned.",
  ["inputs"], "all simulated histories and options", "tests exercise one skipped and a few fitted histories",
  [FH + "diffmah_fitter_helpers.py"], [("skip logic and result assembly", FH + "diffmah_fitter_helpers.py:diffmah_fitter, get_loss_data")],
  VN + " of the result under the facts skipped / not skipped", "")

P("P26", "The fit imposes the simulated t_peak and final time, and minimises the misfit",
  "t_peak of a fitted halo is the first simulated time at which it has its final mass, or tpeak_fixed when given, and is not varied; log t0 is that of the last simulated time; the fit starts at the final simulated mass. The loss is the mean squared difference of log10 mass between the model with those parameters and the target, with its own gradient.",
  ["inputs"], "all simulated histories and trial parameters", "tests check that a recovered history is close to its input",
  [FH + "diffmah_fitter_helpers.py"], [("loss data and loss kernel", FH + "diffmah_fitter_helpers.py:get_loss_data, log_mah_loss_uparams")],
  VN + " + formal differentiation", "")

P("P27", "Adam replaces L-BFGS exactly when L-BFGS did not deliver a usable fit",
  "L-BFGS minimises the given loss with its own gradient from the given start. Its parameters, loss and status are returned with code 0 when it reports success with a finite positive loss; when it reports failure or a loss that is not finite, Adam's best parameters, loss and status are returned with code 1, from the same start, data and step counts.",
  ["inputs", "fault_sequences"], "every outcome of the minimiser", "tests never make L-BFGS fail",
  [FH + "bfgs_wrapper.py"], [("fallback", FH + "bfgs_wrapper.py:bfgs_adam_fallback, scipy_lbfgs_wrapper")],
  VN + " with the minimiser summarised by an uninterpreted result", "")

P("P28", "Adam returns the best point it visited, and flags fits cut short by NaN",
  "Whatever the loss does, the returned parameters are those of the visited step of least loss, with that loss. If the loss, the gradient or the parameters stop being finite the best earlier step is returned and fit_terminates is 0, the start itself if there is none; otherwise, also when the loss is exactly zero or stops the fit early by falling below tol, fit_terminates is 1. The final burn starts from the best point of the warmup.",
  ["inputs", "fault_sequences"], "every ordering of the losses and every step at which NaN appears (unrolled: 3 steps, 1 warmup)", "tests use one smooth loss that never fails",
  [FH + "fit_utils.py"], [("Adam loop", FH + "fit_utils.py:jax_adam_wrapper, _jax_adam_wrapper")],
  "abstract interpretation of the unrolled loop with uninterpreted loss; case splits on orderings and finiteness", "The loop is unrolled to three steps and one warmup round; longer runs repeat the same body.")

P("P29", "Every column of the output files means what its header says",
  "In the text output of a fit, its header, the parser of a text line and the collated HDF5 file, the value under each column name is the same quantity of the same halo: the five best-fit parameters by name, the loss, the number of fitted points, the algorithm code and, when present, halo_id. Lines keep significant digits, and integers stay integers.",
  ["inputs"], "all fit results and halo identifiers", "tests check that the files can be read, not which quantity is in which column",
  [FH + "diffmah_fitter_helpers.py"], [("line writer, parser and HDF5 writer", FH + "diffmah_fitter_helpers.py:get_outline, _parse_outline, write_collated_data, HEADER, HEADER_HALO_ID")],
  VN + " of text and HDF5 output (symbolic formatted fields and datasets)", "")

P("P30", "A parameter collection written to HDF5 is read back identical",
  "Writing a namedtuple of parameters to an HDF5 file and loading it returns a namedtuple with the same fields in the same order, each holding the value it was written with, whatever the names and number of fields and for scalars and arrays.",
  ["inputs", "configurations"], "all values and shapes; field collections of several lengths and orders", "tests round-trip the default collection only",
  [DL + "io_utils.py"], [("HDF5 round trip", DL + "io_utils.py:write_namedtuple_to_hdf5, load_namedtuple_from_hdf5")],
  VN + "; the writer's effect log is the file the reader is analysed on", "")

P("P31", "Reading rows and columns of an HDF5 file returns exactly those",
  "load_flat_hdf5 returns rows istart:iend of exactly the requested columns, under their names relative to the requested group; with no row limits all rows, with iend = 0 none, with no column list every column of the group.",
  ["inputs", "configurations"], "all file contents and row limits; flat and nested files", "tests read one flat file",
  [DL + "io_utils.py"], [("HDF5 reader", DL + "io_utils.py:load_flat_hdf5")], VN + " on symbolic files", "")

P("P32", "Loaders return each halo's running-maximum mass with its own id and times",
  "Every data loader returns, for each halo, the running maximum over time of that halo's simulated mass in the documented units (log10 Msun or Msun, divided by h where the simulation uses Msun/h), next to the identifiers of the same rows and the cosmic times of the same columns, computed with the simulation's own cosmology.",
  ["inputs"], "all simulation files", "the loaders need simulation files and libraries that are not available to the tests",
  [DL + "load_diffmah_pub_data.py", DL + "load_tng_mahs.py", DL + "load_bpl_um_data.py", DL + "load_hacc_mahs.py", DL + "load_galacticus_eps_mahs.py", "scripts/fitting_scripts/load_mah_data.py"],
  [("published data", DL + "load_diffmah_pub_data.py"), ("simulation trees", DL + "load_hacc_mahs.py, load_bpl_um_data.py, load_galacticus_eps_mahs.py")],
  VN + " against reference definitions, external readers as symbolic tables", "")

P("P33", "MPI ranks share out all halos once, with matching messages",
  "When halos are scattered over MPI ranks, every send is matched by the receive that takes it, all ranks call the collectives in the same order with the same root, and the pieces returned by ranks 0, 1, 2, ... are consecutive row ranges that together are exactly the rows of the root's array; the times reach every rank.",
  ["schedules", "inputs"], "all numbers of halos and times; 1 to 4 ranks", "tests run without MPI",
  [DL + "load_hacc_mahs.py"], [("scatter", DL + "load_hacc_mahs.py:_scatter_nd, load_mahs_per_rank")],
  "communication-effect analysis of every rank's code + value numbering of row ranges", "Communicators of size 1 to 4, the number of rows is symbolic.")

P("P34", "Fitting scripts write one row per halo, in input order, and lose none",
  "Whatever the number of halos, MPI ranks, subvolumes, chunks and options, ranks without halos included: every halo of the requested inputs is fitted once and gives one row, in input order, with its own id and under the matching header. Each rank's text is written and closed before a barrier; rank 0 then collates the ranks in order, and no text is deleted before that. All requested pieces are processed once; options reach the fitter.",
  ["schedules", "inputs", "configurations"], "all numbers of halos; 1 to 4 ranks; option combinations", "the scripts need MPI, simulation files and cluster jobs; no test runs them",
  ["scripts/fitting_scripts/"], [("fitting scripts", "scripts/fitting_scripts/*.py:__main__"), ("collation", FH + "diffmah_fitter_helpers.py:write_collated_data")],
  "abstract interpretation of each rank's script with effect logs (files, MPI, deletions) + value numbering of rows", "Communicators of size 1 to 4; history_fitting_script.py is excluded (it imports modules that no longer exist).")

P("P35", "Every name, import and call of the package resolves to what it is written for",
  "Nothing shipped fails because its parts do not fit together: every import names an existing module and public object, every name is defined where it is used, every attribute taken of a module exists there, and every call of the package's own functions and collections passes arguments they accept.",
  ["inputs", "configurations"], "all modules, scripts and diagnostics, on every branch", "tests never import the scripts, the MPI and HDF5 loaders or the plotting code, and reach few branches",
  ["diffmah/", "scripts/"], [("modules and scripts", "diffmah/**/*.py, scripts/**/*.py")],
  "static name, attribute and call-signature resolution over the AST of every module", "Third-party names are not resolved; history_fitting_script.py is excluded (it documents that it needs diffmah<=0.6.2).")

P("P36", "Tabulated SMDPL targets summarise exactly the halos of each mass-time bin",
  "Every (mass, time) bin is made of exactly the successfully fitted halos whose mass at that time is within the bin, centrals and satellites apart, each with its own parameters and host mass, from all requested subvolumes, without loss or duplication. The published means, scatters and peaked fractions are those of the halos of their bin, under their own names, and samples are deleted only after being collated.",
  ["inputs", "configurations"], "all halo samples, bins, subvolumes and options", "the tabulation needs simulation files and libraries; no test runs it",
  ["scripts/diffmahpop_tabulation/"], [("tabulation", "scripts/diffmahpop_tabulation/smdpl_diffmahpop_utils.py"), ("script", "scripts/diffmahpop_tabulation/measure_smdpl_diffmahpop.py")],
  VN + " of row selections and file effects", "")

P("P37", "Target loading pairs each bin with its own samples and its own mass",
  "The loaded targets hold exactly the bins with mass strictly below and time strictly above the limits of their population and at least n_sample_min samples; every quantity of a bin, including the sampled halos and their histories, comes from that bin's own rows and files for the same population (centrals or satellites), and histories are rescaled to the bin's mass at its observation time.",
  ["inputs"], "all target files, mass limits and sample sizes", "the target files are not shipped; no test loads them",
  [PK + "load_diffmahpop_fitdata.py"], [("target loader", PK + "load_diffmahpop_fitdata.py:load_diffmahpop_targets")],
  VN + " on symbolic files", "The random choice of samples is an uninterpreted choice of row numbers.")

P("P38", "Numerical helpers compute exactly what they document",
  "The sigmoid and its inverse undo each other; time steps run from midpoint to midpoint and tile the interval; a Cholesky factor holds each parameter once, diagonal first, nothing above it; trimmed moments are those of the points between the percentiles; covariance and correlation are cov_ij = corr_ij s_i s_j. Arrays and floats broadcast to one common length, mismatches are rejected; selecting by branch takes every parameter from the flagged population; varied parameters are exactly those not excluded and are merged back by name.",
  ["inputs"], "all arguments; array sizes up to 4 (6 in the thorough tier) where the layout depends on the size", "tests compare one or two random cases with wide tolerance; several helpers have no test",
  ["diffmah/utils.py", PK + "param_utils.py", PK + "bimod_censat_params.py"], [("helpers", "diffmah/utils.py"), ("parameter selection", PK + "param_utils.py, bimod_censat_params.py")],
  VN, "")

P("P39", "Measured targets are the moments of histories rescaled to a common mass",
  "The measured mean and variance of mass, log mass and accretion rate are those over halos of the histories rescaled so that every final mass equals the sample mass, interpolated (log-log, variances of log mass linearly) at the target times. A halo is kept as clean exactly when its rescaled log mass is within z_cut trimmed standard deviations of the trimmed mean at every time from it_min to the last but one.",
  ["inputs"], "all histories, times and cuts (clean mask: 5 times, every first time)", "no test measures targets",
  [FH + "measure_mahs.py"], [("targets and clean sample", FH + "measure_mahs.py:measure_target_data, get_clean_sample_mask")], VN, "")

P("P40", "Sub-model calibration minimises the misfit of the model's own prediction",
  "Each sub-model's calibration loss is the mean squared (for the multi-bin peaked fraction: absolute) difference between the prediction of that very sub-model at the bounded parameters and the target, summed over samples, and its gradient function differentiates that loss. Each calibration function hands its own loss, its start and its data to the minimiser and returns that minimiser's parameters (in bounded space where documented), loss and status.",
  ["inputs"], "all targets, parameters and sample counts (global losses: 1 to 3 samples)", "tests never evaluate most of the calibration losses",
  [PK], [("calibration losses", PK + "early_index_*.py, logtc_*.py, bimod_logm0_*/logm0_c*.py, t_peak_kernels/*.py")],
  VN + " with the minimiser summarised by an uninterpreted result", "")

P("P41", "Calls leave their arguments, the defaults and global settings unchanged",
  "No function of the interface modifies an array, list, dictionary or parameter collection passed to it, the package's default tables or other module-level objects, or process-wide settings (random state, warning filters, environment, library configuration). Importing a module does not modify another module's objects. Repeating a call therefore always sees the same inputs.",
  ["inputs", "histories"], "all functions on all paths", "tests check results, not whether inputs or defaults were modified",
  ["diffmah/", "scripts/"], [("all modules", "diffmah/**/*.py, scripts/**/*.py")],
  "interprocedural alias and effect analysis over the AST", "May-alias analysis; views are followed through slicing and the view-returning NumPy calls.")

P("P42", "Fitting a history generated by the model recovers it closely",
  "When the simulated history is itself a diffmah history, the best-fit parameters reproduce it with a loss close to zero, for every admissible parameter set.",
  ["inputs"], "all admissible parameters and time grids", "tests recover a handful of random histories",
  [FH + "diffmah_fitter_helpers.py"], [("optimisation", FH + "bfgs_wrapper.py, fit_utils.py")],
  na="Convergence of L-BFGS and Adam on a non-convex loss is a numerical runtime quantity; no static argument bounds it. The loss, its gradient, start, data, fallback and result assembly are decided by P24-P28.")

P("P43", "Results and gradients are finite and accurate in single precision",
  "For all admissible inputs every history, moment, loss and gradient is finite in float32 and agrees with exact arithmetic to a stated tolerance.",
  ["inputs"], "all admissible inputs", "tests check isfinite on sampled inputs",
  ["diffmah/"], [("all kernels", "diffmah/**/*.py")],
  na="Rounding, overflow and cancellation of XLA-compiled float32 code depend on magnitudes and on compiler fusion; a sound static floating-point bound for these transcendental kernels is out of reach here. The checks decide the real-number semantics (P01-P22); interval bounds are proved where documented (P06, P15, P16, P18).")

P("P44", "Monte Carlo populations converge to the model distribution",
  "As the number of halos grows, the empirical distributions of t_peak, early fraction and growth parameters of a generated population converge to the model's.",
  ["inputs"], "all parameter sets and keys", "tests compare one sample with loose tolerance",
  [PK], [("generators", PK + "mc_bimod_cens.py, mc_bimod_sats.py")],
  na="A statement about the statistical output of a pseudo-random generator; static analysis decides the sampling construction instead: distinct keys (P12), inverse transform (P17), branch odds (P14), correlated Gaussian (P20), mixture moments (P21).")
