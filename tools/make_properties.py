"""Writes /verif/properties.jsonl.  Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["pydmd/" + f for f in files],
            mechanism=[dict(name=a, where="pydmd/" + b) for a, b in mech], **kw)))

p("P01", "Refitting an estimator is independent of everything done to it before",
  "For every estimator and configuration, whatever was done to an object before (fits on other data of other sizes, windows moved, modes masked or edited, results queried, fixed points analysed), fitting it on a data set gives the same eigenvalues, modes, amplitudes, reconstruction window and reconstruction as a new object of the same configuration fitted on that data set. No configuration value supplied by the user is consumed or overwritten by a fit.",
  ["histories", "configurations"], "all histories of fit / query / edit operations up to a depth, over every estimator class and its options",
  "Tests fit a fresh object once; a handful refit one class with one option. State that survives a fit only shows for particular option, data-size and operation orders.",
  ["dmdbase.py", "dmdoperator.py", "rdmd.py", "cdmd.py", "bopdmd.py", "varprodmd.py", "lando.py", "mrdmd.py", "hankeldmd.py", "dmdc.py", "pidmd.py", "spdmd.py", "optdmd.py", "edmd.py", "subspacedmd.py", "havok.py", "costs.py"],
  [("state reset before a fit", "dmdbase.py:DMDBase._reset"), ("lazy mode cache", "dmdbase.py:ActivationBitmaskProxy"), ("per-class fit", "*.py:fit")])

p("P02", "Data and options handed in by the caller are never modified",
  "Arrays, lists and dictionaries that the caller passes to a constructor, a fit, a prediction, a selection or a preprocessing step keep their contents bit for bit through that call and through any later sequence of operations on the object. Masking modes and editing the modes, eigenvalues or amplitudes of a fitted object never writes into the caller's data.",
  ["histories", "inputs", "configurations"], "all estimators, all argument positions, all operation sequences up to a depth",
  "Tests do not compare arguments before and after, and an in-place operation only bites for particular dtypes, layouts, options or follow-up operations.",
  ["snapshots.py", "dmdbase.py", "bopdmd.py", "preprocessing/zero_mean.py", "costs.py", "mrcosts.py", "dmd_modes_tuner.py", "dmdc.py", "lando.py"],
  [("snapshot storage", "snapshots.py:Snapshots"), ("eigenvalue constraints", "bopdmd.py:BOPDMDOperator._push_eigenvalues"), ("write-back of edited modes", "dmdbase.py:ActivationBitmaskProxy.change_bitmask")])

p("P03", "Noise-free linear dynamics are recovered exactly",
  "When the snapshots come from a linear system with distinct non-zero eigenvalues all of which are excited, and the chosen rank equals the number of excited modes, every member of the linear family (plain, forward-backward, compressed, randomized, subspace, optimal-mode, kernel with linear kernel) returns exactly those eigenvalues, modes that are eigenvectors of the system, and a reconstruction equal to the data. This holds for real and complex data, tall and wide data, paired or sequential snapshots, and every combination of exact or projected modes, amplitude rule, eigenvalue sorting, mode rescaling and total-least-squares option; forward-backward additionally needs eigenvalues in the open right half plane.",
  ["inputs", "configurations"], "all option combinations on all systems from a catalogue of spectra, dimensions and lengths",
  "Tests compare mostly shapes or one data set with default options; wrong conjugations, bases or option interactions need complex data or particular option pairs.",
  ["dmd.py", "dmdbase.py", "dmdoperator.py", "fbdmd.py", "cdmd.py", "rdmd.py", "subspacedmd.py", "optdmd.py", "edmd.py", "utils.py"],
  [("low-rank operator", "dmdoperator.py:DMDOperator.compute_operator"), ("amplitudes", "dmdbase.py:DMDBase._compute_amplitudes"), ("subspace operator", "subspacedmd.py:SubspaceDMDOperator")])

p("P04", "Reconstruction and forecast windows mean what they say",
  "For any sampling window (start, end, step) assigned to the original data and any reconstruction window, in any order of assignments, the reconstruction has one column per requested time and each column is the fitted linear model evaluated at that time, so windows that overlap agree on common times, a window inside the data agrees with the data, and a later window continues the same trajectory. Moving the window changes no mode, eigenvalue or amplitude, and the two windows of one object, and those of different objects, never influence each other.",
  ["histories", "configurations"], "all sequences of window edits up to a depth over a grid of starts, ends and steps, with every amplitude-reference option",
  "Tests use a few forecasts with integer step one; the time arithmetic depends on start, step, reference snapshot and edit order together.",
  ["dmdbase.py", "hankeldmd.py", "hodmd.py"],
  [("times of the window", "dmdbase.py:DMDBase.dmd_timesteps"), ("time evolution", "dmdbase.py:DMDBase.dynamics"), ("reference snapshot shift", "dmdbase.py:DMDBase._translate_eigs_exponent"), ("window dictionaries", "dmdbase.py:DMDTimeDict")])

p("P05", "Mode activation masks behave like a reversible selection",
  "At every point of any history of mask assignments, mode indexing and in-place edits of the visible modes, eigenvalues and amplitudes, the visible quantities are exactly the full quantities restricted to the active positions in their original order, with every edit made so far kept. The reconstruction is the sum of the visible modes' contributions; re-enabling all modes restores everything, and indexing returns an object whose mask never affects the original.",
  ["histories"], "all sequences of assign-mask, index, edit, query operations up to a depth, for all masks of a small number of modes",
  "Tests apply one mask or one index; losing an edit or shifting indices needs a particular sequence of masks and edits.",
  ["dmdbase.py", "hankeldmd.py"],
  [("mask proxy", "dmdbase.py:ActivationBitmaskProxy"), ("mask setter", "dmdbase.py:DMDBase.modes_activation_bitmask"), ("indexing", "dmdbase.py:DMDBase.__getitem__")])

p("P06", "Mode selection and stabilisation change exactly the intended modes",
  "Selecting modes by a criterion keeps exactly the currently active modes for which the criterion holds and hides the others, also when a previous selection already hid some; stabilising moves eigenvalues strictly inside the annulus to the unit circle keeping their phase, multiplying the matching amplitudes by the modulus that was taken away, and changes nothing else; bounds of criteria are inclusive as documented. A tuner working on copies never changes the originals, one working in place changes exactly the objects (or the subset) it was given, and applying its operations in a chain equals applying them one after another.",
  ["histories", "inputs"], "all chains of select / stabilise / subset / copy operations up to a depth, with all built-in criteria and custom ones, single objects and lists",
  "Tests apply one criterion to a freshly fitted object; composition of selections and copy/in-place aliasing are never combined.",
  ["dmd_modes_tuner.py", "dmdbase.py"],
  [("selection", "dmd_modes_tuner.py:select_modes"), ("stabilisation", "dmd_modes_tuner.py:stabilize_modes"), ("criteria", "dmd_modes_tuner.py:ModesSelectors"), ("tuner", "dmd_modes_tuner.py:ModesTuner")])

p("P07", "Results do not depend on how the snapshots are laid out",
  "Passing the same snapshots as a matrix, as an array with several spatial axes, as a list of per-time arrays, in any memory order, contiguous or strided, read-only or of an equivalent numeric type, gives the same spectrum, modes and reconstruction, with spatial points in row-major order and the original snapshot shape reported. Reordering the spatial points only reorders the rows of modes and reconstruction, and scaling the data scales only the reconstruction.",
  ["inputs"], "all layouts x shapes x numeric types x estimators",
  "Tests use one layout per class; a layout bug is silent because shapes still match.",
  ["snapshots.py", "dmdbase.py", "dmd.py", "hankeldmd.py", "mrdmd.py", "dmdc.py", "bopdmd.py"],
  [("flattening", "snapshots.py:Snapshots._unroll_space_dimensions")])

p("P08", "Saved, loaded and copied models are faithful and independent",
  "Saving an estimator to a file at any point of its history and loading it, or deep-copying it, yields an object that answers every query like the original at that moment, including masks, edits and windows, and that can be refitted, masked and windowed like the original. Afterwards neither object influences the other, and saving never changes the object that is saved.",
  ["histories", "configurations"], "all histories up to a depth, with the save point at every position, for every estimator",
  "Tests save one freshly fitted default object; lost or shared state needs a save in the middle of a history.",
  ["dmdbase.py", "bopdmd.py", "mrdmd.py", "hankeldmd.py", "lando.py", "preprocessing/pre_post_processing.py"],
  [("save", "dmdbase.py:DMDBase.save"), ("load", "dmdbase.py:DMDBase.load")])

p("P09", "Rank selection, truncated SVD and denoising follow their documented rule",
  "For every matrix and every rank request the truncation keeps: all singular directions for -1; exactly min(k, available) for a positive integer k; the fewest leading directions whose squared singular values reach the requested fraction for a request strictly between 0 and 1; and the directions above the optimal hard threshold (at least one) for 0. The returned factors are orthonormal, ordered and reproduce the best approximation of that rank, total-least-squares denoising projects both data sets on the leading joint row space, and every estimator ends up with the number of modes that this rule dictates.",
  ["inputs", "configurations"], "all rank requests x all matrices of a catalogue of singular-value profiles, shapes and types",
  "Tests check a few ranks on one data set; boundary requests (rank above the size, energies exactly on a step, wide versus tall) are not covered.",
  ["utils.py", "dmdoperator.py", "edmd.py", "cdmd.py", "rdmd.py"],
  [("rank rule", "utils.py:_compute_rank"), ("hard threshold", "utils.py:_svht"), ("truncated SVD", "utils.py:compute_svd"), ("total least squares", "utils.py:compute_tlsq")])

p("P10", "Delay embedding is lossless and consistent in time",
  "For every number of delays the embedded data stack consecutive snapshots in time order, and reconstructing from an embedded model (by first occurrence, mean, or weighted mean over the copies of a snapshot) returns one column per requested time equal to the data on noise-free linear dynamics, for any window including forecasts. With one delay the results coincide with the plain decomposition, the number of delays is limited by the data length with an error instead of silently, and the projected higher-order variant agrees with the unprojected one.",
  ["inputs", "configurations", "histories"], "all delays x lengths x reconstruction rules x windows x snapshot shapes",
  "Tests check fixed d and one window; the position arithmetic interacts with delay count, window offset and rule.",
  ["hankeldmd.py", "hodmd.py", "utils.py", "preprocessing/hankel.py", "preprocessing/svd_projection.py"],
  [("embedding", "utils.py:pseudo_hankel_matrix"), ("inverse", "preprocessing/hankel.py:_hankel_post_processing"), ("window mapping", "hankeldmd.py:HankelDMD._update_sub_dmd_time")])

p("P11", "Preprocessing wrappers are transparent",
  "Wrapping an estimator with a preprocessing step gives the estimator fitted on the transformed data followed by the inverse transformation of its reconstruction: identity changes nothing, mean removal adds back exactly the mean it removed, projection on leading singular vectors restores the data of that rank, randomized projection does so for the given seed, and stacked wrappers apply in nesting order. Attributes read or assigned through the wrapper are those of the wrapped estimator, and repeated queries, refits and several wrappers of the same kind never share state.",
  ["configurations", "histories"], "all preprocessings, all nestings of two, all estimators of a set, all query/refit sequences up to a depth",
  "Tests wrap one estimator with one preprocessing and query once.",
  ["preprocessing/pre_post_processing.py", "preprocessing/zero_mean.py", "preprocessing/svd_projection.py", "preprocessing/hankel.py", "preprocessing/randomized.py"],
  [("wrapper", "preprocessing/pre_post_processing.py:PrePostProcessingDMD"), ("steps", "preprocessing/*.py")])

p("P12", "Multi-resolution tree partitions time and modes consistently",
  "At every level the leaves cover all snapshots exactly once in order, so the global modes, eigenvalues and dynamics are the leaves' ones side by side with each mode active only in its own time bin, and the global reconstruction is their product; a level, node or time-window query returns exactly the leaves of that level, node or window. Only modes slower than the cut-off of their level are kept at that level, and the fit works for every depth that the data length allows, with one estimator, one per level or a factory.",
  ["inputs", "configurations"], "all data lengths x depths x cycle limits x sub-estimator supply forms x level/node/window queries",
  "Tests use one length and depth; off-by-one in bins only shows when the length is not a multiple of the bin count.",
  ["mrdmd.py"],
  [("tree", "mrdmd.py:BinaryTree"), ("fit and slow-mode selection", "mrdmd.py:MrDMD.fit"), ("partial queries", "mrdmd.py:MrDMD.partial_reconstructed_data"), ("time windows", "mrdmd.py:MrDMD.time_window_bins")])

p("P13", "Controlled systems are identified and replayed with their inputs",
  "On noise-free data from a linear system with inputs the identified model reproduces the data when driven with the training inputs and reproduces the true system's trajectory when driven with any other input sequence from the same initial state, for known and unknown input matrices, any number of inputs, sequential snapshots or lagged ones. The identified input matrix equals the true one when it is unknown and is the given one when known, and a wrong number of inputs is an error.",
  ["inputs", "configurations"], "all systems x input counts x input patterns x lags x known/unknown input matrix x ranks",
  "Tests replay the training inputs, and one other input sequence, on one system.",
  ["dmdc.py"],
  [("known input matrix", "dmdc.py:DMDBKnownOperator.compute_operator"), ("unknown input matrix", "dmdc.py:DMDBUnknownOperator.compute_operator"), ("replay", "dmdc.py:DMDc.reconstructed_data")])

p("P14", "Parametric models agree with their training data at training parameters",
  "Asked for parameters it was trained on, a parametric model (monolithic or one sub-model per parameter) returns the training trajectories, and at other parameters exactly the spatial expansion of the interpolated reduced coefficients, with one block per requested parameter in request order and the original snapshot shape. Parameters may be asked again in any order and subset, the time window can be moved, and saving and loading keeps all of it.",
  ["histories", "configurations", "inputs"], "all request subsets and orders x partitioned/monolithic x shapes x windows x histories up to a depth",
  "The test file for this class cannot even run from the pinned tree, and it samples one request.",
  ["paramdmd.py"],
  [("training", "paramdmd.py:ParametricDMD.fit"), ("prediction", "paramdmd.py:ParametricDMD.reconstructed_data"), ("interpolation", "paramdmd.py:ParametricDMD.interpolated_modal_coefficients")])

p("P15", "Optimized DMD honours its constraints and fits unevenly sampled data",
  "For noise-free sums of exponentials sampled at any strictly increasing times the optimized decomposition returns the true continuous-time exponents, unit-norm modes and real non-negative amplitudes, reproduces the data and forecasts at any time, whether or not data are projected and whether fitted from data or from its factorisation. Every combination of eigenvalue constraints (left half plane, imaginary axis, conjugate pairs, custom function) is satisfied exactly by the returned exponents, which never depends on how the initial guess was given, and incompatible combinations are refused. A further iteration never worsens the fit, and a search that ends before its iteration limit has reached its tolerance or a point from which a new search gains nothing.",
  ["inputs", "configurations"], "all constraint combinations x projections x sorting orders x time grids x spectra x initial guesses",
  "Tests check a few constraint sets on one trajectory.",
  ["bopdmd.py"],
  [("constraints", "bopdmd.py:BOPDMDOperator._push_eigenvalues"), ("optimiser", "bopdmd.py:BOPDMDOperator._variable_projection"), ("fit", "bopdmd.py:BOPDMD.fit"), ("economical fit", "bopdmd.py:BOPDMD.fit_econ"), ("forecast", "bopdmd.py:BOPDMD.forecast")])

p("P16", "Bagging statistics describe exactly the bags that were drawn",
  "For every possible draw of time indices the ensemble result is the mean and standard deviation, mode by mode after a consistent ordering, of the individual fits on those bags started from the full-data solution; trials that fail are discarded according to the options and never enter the statistics, and with bagging off no uncertainty is reported. Bag sizes may be absolute or fractional, and a forecast of an ensemble returns the mean and variance of an ensemble of forecasts.",
  ["schedules", "configurations"], "all outcomes of the random index draws (every subset of the given size, every sequence of subsets), enumerated by controlling the random source",
  "Tests sample one seed; a statistic that drops or double-counts a bag only shows for particular draws.",
  ["bopdmd.py"],
  [("drawing", "bopdmd.py:BOPDMDOperator._bag"), ("statistics", "bopdmd.py:BOPDMDOperator.compute_operator")])

p("P17", "Physics-informed operators lie on their manifold and are optimal on it",
  "For every supported structure (unitary, triangular, diagonal and banded, symmetric and skew-symmetric, circulant with its variants, symmetric and block tridiagonal, Toeplitz and Hankel families) the fitted matrix has that structure to rounding, no matrix with that structure gives a smaller least-squares residual on the training pair, and data generated by a structured matrix give back that matrix. Eigenvalues and modes are those of the returned matrix, and the reconstruction is the evolution of the first snapshot under it.",
  ["inputs", "configurations"], "all structures x option values x data dimensions x real/complex data",
  "Tests check the structure on one matrix and compare norms loosely.",
  ["pidmd.py", "pidmd_utils.py"],
  [("structure solvers", "pidmd_utils.py"), ("operator", "pidmd.py:PiDMDOperator.compute_operator")])

p("P18", "Sparsity-promoting amplitudes solve the stated convex problem",
  "For every penalty the sparse amplitudes have the zero pattern of the minimiser of the penalised least-squares problem, and on that pattern the non-zero amplitudes are the unpenalised optimum; the penalty zero limit gives the optimal amplitudes and a large penalty gives all zeros. The result does not depend on the solver's step parameter, and modes, eigenvalues and ordering are untouched.",
  ["inputs", "configurations"], "all penalties on a grid x solver parameters x systems x option combinations",
  "Tests check shapes and a couple of stored values.",
  ["spdmd.py"],
  [("ADMM", "spdmd.py:SpDMD._find_zero_amplitudes"), ("polishing", "spdmd.py:SpDMD._optimal_amplitudes")])

p("P19", "Time-delay forced linear models are assembled and inverted correctly",
  "For every number of delays, lag and signal (scalar or vector) building the delay matrix and undoing it is the identity on every sample that the matrix contains, entries being the signal at the documented times; the fitted model splits one regression operator into a linear part and a forcing part of the requested width, its eigenvalues are those of the linear part, and the delay coordinates reproduce the delay matrix at full rank. Driving the model with its own forcing from its own initial state gives its reconstruction, and thresholding of the forcing activity returns the bound that the chosen tail rule dictates.",
  ["inputs", "configurations"], "all signal shapes x lengths x delays x lags x ranks x forcing widths x time steps",
  "Tests sample a Lorenz run with a few parameter pairs.",
  ["havok.py", "utils.py"],
  [("delay matrix", "havok.py:HAVOK.hankel"), ("inverse", "havok.py:HAVOK.dehankel"), ("regression", "havok.py:HAVOK.fit"), ("derivative", "utils.py:differentiate")])

p("P20", "Sliding-window scale separation covers the record and adds up",
  "For every record length, window and step (at most the window), windows start every step and a final window is aligned with the end, so each time is covered; the global reconstruction is the filter-weighted average of the window reconstructions plus their means, the frequency-band reconstructions add up to it, and the low and high frequency parts are the lowest band and the rest. Whatever the clustering method returns, frequency classes run from low to high frequency for every transformation, class 0 carries the window means, and exporting to a data set and importing it again preserves every result.",
  ["inputs", "configurations", "histories"], "all record lengths x windows x steps x ranks x band counts, and export/import at every stage",
  "Tests use one long record with an even window split; the ragged last window and lost attributes are rarely reached.",
  ["costs.py"],
  [("windows", "costs.py:COSTS.get_window_indices"), ("fit", "costs.py:COSTS.fit"), ("reconstruction", "costs.py:COSTS.scale_reconstruction"), ("export", "costs.py:COSTS.to_xarray")])

p("P21", "Multi-level scale separation passes the right signal from level to level",
  "Each level decomposes exactly the low-frequency remainder of the previous one, levels run in the order supplied, and the global bands of all levels plus the background give the global reconstruction. Clustering the frequencies of all levels together, directly or on a common time base at least as dense as every level, assigns every window and mode exactly its own class, and writing all levels (of increasing windows) to files and reading them in any file order restores the same results.",
  ["histories", "configurations", "inputs"], "all level counts and window orders x band counts x file orders",
  "Tests run one configuration with stored values.",
  ["mrcosts.py", "costs.py"],
  [("level loop", "mrcosts.py:mrCOSTS.fit"), ("interpolation", "mrcosts.py:mrCOSTS.multi_res_interp"), ("file round trip", "mrcosts.py:mrCOSTS.from_netcdf")])

p("P22", "Kernel models split into constant, linear and nonlinear part consistently",
  "For every kernel, rescaling, dictionary tolerance, snapshot order and batch or online learning, the fitted model evaluated at a base state plus a perturbation equals its constant part plus its linear operator applied to the perturbation plus its nonlinear part, the linear operator being the derivative of the model there, and its non-zero eigenvalues and eigenvectors are the reported spectrum. Every analysis describes the last base state and the last fit or update; with the linear kernel the model is the linear system that made the data, and updating an online model with more data equals learning from all data in one pass.",
  ["schedules", "configurations", "histories"], "all orders in which snapshots can be visited x kernels x options x sequences of fit / update / analyse operations up to a depth",
  "Tests use one random order and analyse one base state.",
  ["lando.py"],
  [("dictionary", "lando.py:LANDOOperator.compute_operator"), ("linearisation", "lando.py:LANDOOperator.compute_linear_operator"), ("analysis", "lando.py:LANDO.analyze_fixed_point"), ("update", "lando.py:LANDO.update")])

p("P23", "Variable-projection fits are stationary and consistent with their samples",
  "For noise-free sums of exponentials at any strictly increasing times the variable-projection estimator returns the true exponents with unit-norm modes and non-negative amplitudes, reproduces the data and forecasts any time, in original or projected space, with every eigenvalue order sorted as documented. With sample compression the selected samples are distinct valid indices of the documented number and the fit still reproduces all data.",
  ["inputs", "configurations"], "all sorting options x projection x compression values x time grids x spectra x lengths",
  "Tests use one smooth signal and check loose errors.",
  ["varprodmd.py"],
  [("optimisation", "varprodmd.py:compute_varprodmd_any"), ("samples", "varprodmd.py:select_best_samples_fast"), ("sorting", "varprodmd.py:VarProOperator.compute_operator")])

p("P24", "Compressed and randomized variants depend only on their documented sketch",
  "With a given compression or test matrix, or a given seed, compressed and randomized decompositions are deterministic; on data of the target rank every admissible sketch yields the spectrum, modes and reconstruction of the uncompressed method, in the full space. Named sketches have the documented size and form, and the randomized range basis is orthonormal and captures the data with more power iterations never making exact capture worse.",
  ["schedules", "configurations", "inputs"], "all sketch kinds, sizes, seeds of a range, oversampling and power-iteration values",
  "Tests run one random sketch per kind and check shapes.",
  ["cdmd.py", "rdmd.py", "utils.py", "preprocessing/randomized.py"],
  [("sketch", "cdmd.py:CDMD._compress_snapshots"), ("randomized basis", "utils.py:compute_rqb"), ("randomized fit", "rdmd.py:RDMD.fit")])

p("P25", "Reported quantities satisfy the defining equations on arbitrary data",
  "For arbitrary, noisy or rank-deficient data and all options, the reduced operator is the regularised least-squares map between the projected snapshots, the eigenpairs are its eigenpairs in the requested order, modes are their documented lifting, amplitudes are the least-squares solution for the chosen snapshot or for all snapshots, frequency and prediction follow from them, and the reconstruction is modes times dynamics. The same relations hold for subspace, optimal-mode and kernel variants with their own operator.",
  ["inputs", "configurations"], "all option combinations x a catalogue of arbitrary data sets (real, complex, wide, tall, deficient)",
  "Tests assert shapes and stored outputs for default options.",
  ["dmd.py", "dmdbase.py", "dmdoperator.py", "subspacedmd.py", "optdmd.py", "edmd.py", "fbdmd.py"],
  [("operator", "dmdoperator.py:DMDOperator"), ("amplitudes", "dmdbase.py:DMDBase._compute_amplitudes"), ("one-step prediction", "dmd.py:DMD.predict"), ("optimal modes", "optdmd.py:OptDMD")])

p("P26", "Queries are pure: any order and number of them gives the same answers",
  "Reading results, predicting, forecasting, indexing, plotting, evaluating criteria and printing never change what any later query returns, so any sequence of queries gives for each query the answer it gives alone, and returned results of independent objects never share memory. This includes queries that fail.",
  ["histories"], "all query sequences up to a depth over the full query alphabet of every estimator",
  "Tests query one attribute after one fit.",
  ["dmdbase.py", "dmd_modes_tuner.py", "mrdmd.py", "hankeldmd.py", "plotter.py", "paramdmd.py", "bopdmd.py"],
  [("lazy caches", "dmdbase.py:DMDBase"), ("window temporarily moved", "dmd_modes_tuner.py:ModesSelectors._integral_contribution"), ("sub-model window sync", "hankeldmd.py:HankelDMD.reconstructed_data")])

p("P27", "Misuse is refused with an error and leaves the model as it was",
  "Using results before a fit, malformed snapshots, mismatched paired or control data, invalid masks, indexes, time keys, kernels, constraints, sizes or option names raises an error rather than returning a value. After any refused query, selection, window or mask change on a fitted object every query still answers as before, and after any refused operation, a refused fit included, a later valid fit gives what a new object gives.",
  ["fault_sequences", "histories"], "all invalid operations of a catalogue, inserted at every position of every history up to a depth",
  "Tests check single invalid calls with raises() and never look at the object afterwards.",
  ["dmdbase.py", "snapshots.py", "dmdc.py", "hankeldmd.py", "bopdmd.py", "lando.py", "edmd.py", "paramdmd.py", "mrdmd.py", "havok.py", "pidmd.py"],
  [("input checks", "snapshots.py:Snapshots"), ("mask checks", "dmdbase.py:DMDBase.modes_activation_bitmask"), ("window keys", "dmdbase.py:DMDTimeDict")])

p("P28", "Plots show the model's own quantities, in the documented place, order and file",
  "Every plotting function draws exactly the model's results: the eigenvalues of the active modes (or of the requested level and node), discrete and continuous with the model's time step; each requested mode, snapshot, band, residual, deviation and dynamics with its own values at its own spatial position (non-square grids, both storage orders) and times (moved windows included); modes ranked by significance with matching dynamics and colour. One figure, or one file named by the index, per requested item; storing a plot stores the picture that would be shown; requests for items that do not exist are refused.",
  ["exhaustive_inputs", "histories"], "all models of a family x all plotting functions x all combinations of their data-bearing options, reading back every drawn object",
  "Tests only call the plotting functions on square grids with default options and look at no drawn object.",
  ["plotter.py", "havok.py", "bopdmd.py", "costs.py", "mrcosts.py"],
  [("figures of a model", "plotter.py:plot_summary"), ("two-dimensional pictures", "plotter.py:plot_modes_2D"), ("HAVOK summary", "havok.py:HAVOK.plot_summary"), ("uncertainty", "bopdmd.py:BOPDMD.plot_mode_uq"), ("bands", "costs.py:COSTS.plot_reconstructions")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
