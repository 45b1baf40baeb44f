"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
S = "src/opinf/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech], observe_at=observe)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop("C01", "State transformations invert exactly, in full and at selected locations",
 "For every trained transformer (shift, scale, combined shift-scale with any scaling and byrow setting, null, pipeline, multi-variable) and any single state or collection of states, inverse_transform undoes transform and transform undoes inverse_transform. With locs, inverse_transform of the selected rows of a transformed state equals the selected rows of the full inverse, and a wrong number of rows or of locations is refused with an error.",
 ["inputs", "configurations"], "all transformer kinds, options, nestings, training sets with non-degenerate scales, states (1-D and 2-D), location sets",
 "Tests round-trip random matrices for a few option combinations; nested pipelines, locs through nested transformers, and byrow with locs are sampled at most once.",
 ["pre/_base.py", "pre/_shiftscale.py", "pre/_multi.py"],
 [("inverse_transform", "pre/_shiftscale.py"), ("TransformerPipeline._chain", "pre/_multi.py"), ("TransformerMulti.inverse_transform", "pre/_multi.py")],
 ["fit/fit_transform/transform/inverse_transform return values"])
prop("C02", "Transformers learn the documented normalisation and reapply the same map",
 "fit_transform returns training data with exactly the documented statistics (zero mean, unit standard deviation, range [0,1] or [-1,1], unit maximum magnitude or unit maximum norm; per row when byrow), per variable for multi-variable transformers and stage by stage for pipelines. transform applied later to any data applies that same learned affine map, fit is equivalent to fit_transform, and refitting on other data leaves no influence of the earlier data.",
 ["inputs", "configurations", "histories"], "all centering/scaling/byrow options, training data, new data, fit/refit/transform orders",
 "Tests check the statistics of one random data set per option; they do not check the learned map on new data after refits or in nested use.",
 ["pre/_shiftscale.py", "pre/_multi.py", "pre/_base.py"],
 [("ShiftScaleTransformer.fit_transform", "pre/_shiftscale.py"), ("shift/scale", "pre/_shiftscale.py"), ("TransformerPipeline.fit_transform", "pre/_multi.py")],
 ["fit_transform output, transform output, mean_/scale_/shift_ attributes"])
prop("C03", "transform_ddts is the time derivative of transform",
 "For every trained transformer and any states, transform_ddts maps state time derivatives exactly as the chain rule applied to transform does: the finite increment of transform along a direction equals transform_ddts of that direction. Shifts drop out, scalings and their composition in pipelines and multi-variable transformers remain.",
 ["inputs", "configurations"], "all transformer kinds, options and nestings, any derivative data, in place or not",
 "Tests compare transform_ddts with one formula per option; compositions and new data after refits are not covered.",
 ["pre/_base.py", "pre/_shiftscale.py", "pre/_multi.py"],
 [("transform_ddts", "pre/_shiftscale.py"), ("transform_ddts", "pre/_multi.py")],
 ["transform_ddts return value"])
prop("C04", "Caller data is never modified unless in-place work was requested",
 "No public operation on transformers, bases, operators, models, solvers, time-derivative estimators, lifters, ROMs or error measures modifies an array the caller passed in, except the array given to a transformer call made with inplace=True, which then receives the result. Objects already returned to the caller, and objects that were copied, are not changed by later operations on the original.",
 ["inputs", "histories", "configurations"], "all public data-taking calls, all argument shapes, inplace on/off, call sequences",
 "Tests rarely compare arguments before and after a call; only a few transformer tests check inplace.",
 ["pre/_shiftscale.py", "pre/_multi.py", "pre/_base.py", "basis/_base.py", "basis/_linear.py", "basis/_pod.py", "roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py", "lstsq/_base.py", "ddt/_finite_difference.py", "lift/_polynomial.py", "post/_errors.py"],
 [("inplace", "pre/_shiftscale.py"), ("ROM.encode", "roms/_base.py")],
 ["argument arrays after every call"])
prop("C05", "Untrained objects refuse to work and retraining forgets the past",
 "A transformer, basis, solver, operator, model or ROM that has not been trained refuses data operations with an attribute or runtime error instead of returning a result. After any sequence of successful (re)training calls, its observable behaviour equals that of a fresh object trained only with the last call, and a refused call leaves the earlier trained behaviour unchanged.",
 ["histories"], "all sequences of fit, refit with other data or dimensions, failed calls, and queries",
 "Tests fit once or twice with same-shaped data; retraining histories are not explored.",
 ["pre/_base.py", "pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_pod.py", "basis/_multi.py", "lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_total.py", "lstsq/_tsvd.py", "operators/_base.py", "models/mono/_nonparametric.py", "roms/_base.py"],
 [("requires", "utils/_requires.py"), ("_is_trained", "pre/_base.py"), ("reset", "lstsq/_base.py")],
 ["results and exceptions of every public call"],
 [("trained parameters", "mean_/scale_/entries/Ohat of the last training call", "pre/_shiftscale.py")])
prop("C06", "Basis compression, decompression and projection are consistent",
 "For any basis (linear, POD, weighted, multi-variable) compress maps a state to the weighted inner products with the basis vectors, decompress maps coordinates to their linear combination, project is their composition and, when the basis is orthonormal in its weighted inner product, is idempotent with compress(decompress(c)) = c. decompress with locs gives the selected rows, multi-variable bases act block by block, and projection_error reports the size of the residual.",
 ["inputs", "configurations"], "all basis matrices, weights, states (1-D, 2-D), locs, variable partitions",
 "Tests use random data with a handful of shapes and mostly no weights.",
 ["basis/_base.py", "basis/_linear.py", "basis/_pod.py", "basis/_multi.py"],
 [("compress/decompress", "basis/_linear.py"), ("BasisMulti", "basis/_multi.py"), ("project", "basis/_base.py")],
 ["compress/decompress/project/projection_error return values"])
prop("C07", "POD keeps the leading modes and the smallest dimension meeting the criterion",
 "PODBasis.fit yields an orthonormal (or weight-orthonormal) basis of the leading left singular vectors with the true normalised singular values in decreasing order, whichever SVD solver is used. The reduced dimension equals the number of vectors requested, or is the smallest satisfying the given singular value, cumulative energy, residual energy or projection error criterion, also after any sequence of dimension changes, and the reported energies equal their definitions; the stand-alone functions agree.",
 ["inputs", "configurations", "histories"], "all snapshot sets, criteria and thresholds including exact ties, solvers, weights, max_vectors, sequences of set_dimension",
 "Tests check thresholds on random data where ties and boundary values never occur, and few dimension-change sequences.",
 ["basis/_pod.py"],
 [("set_dimension", "basis/_pod.py"), ("fit", "basis/_pod.py"), ("cumulative_energy/residual_energy/svdval_decay", "basis/_pod.py")],
 ["entries, svdvals, reduced_state_dimension, cumulative_energy, residual_energy"])
prop("C08", "Operators evaluate their documented polynomial",
 "Every nonparametric operator applied to a state (single or batch, with or without inputs) returns its documented polynomial expression of its entries, column by column for batches, and entries times the data block of the same data give the same result. Operator dimensions match the data block, and compressing then expanding full tensor entries preserves the operator's action.",
 ["inputs", "configurations"], "all operator types, state and input dimensions including 1, entries (compressed, full, tensor), scalars, vectors and batches",
 "Tests sample random entries for a few dimensions and mostly test shapes rather than values.",
 ["operators/_nonparametric.py", "operators/_polynomial_operator.py", "operators/_base.py"],
 [("apply", "operators/_nonparametric.py"), ("datablock", "operators/_nonparametric.py"), ("compress_entries/expand_entries", "operators/_nonparametric.py")],
 ["apply, datablock, operator_dimension, entries"])
prop("C09", "Operator and model Jacobians are the derivatives of their evaluation",
 "For every operator that implements a Jacobian and every state and input, the Jacobian is the exact matrix of partial derivatives of apply with respect to the state at that point, of shape (r, r). A model's Jacobian is the derivative of its right-hand side, also after its operators were replaced or refitted.",
 ["inputs", "configurations", "histories"], "all operator types and dimensions, states, inputs, sequences of setting entries and evaluating",
 "Tests compare finite differences at one random point with loose tolerance.",
 ["operators/_nonparametric.py", "models/mono/_nonparametric.py", "operators/_base.py"],
 [("jacobian", "operators/_nonparametric.py"), ("_prejac cache", "operators/_nonparametric.py")],
 ["jacobian return value"])
prop("C10", "Galerkin projection commutes with evaluation",
 "Projecting an operator or a model with trial basis V and test basis W gives an object of the same type, in reduced dimension and with the same input dimension, whose evaluation at reduced coordinates equals the (W^T V)^{-1} W^T-projection of the full evaluation at the lifted state. The original object is unchanged, and misaligned bases are refused.",
 ["inputs", "configurations"], "all operator and model types (also parametric), bases V and W including non-orthonormal and W different from V",
 "Tests use random orthonormal bases and only a few operator types.",
 ["operators/_base.py", "operators/_nonparametric.py", "operators/_affine.py", "operators/_interpolate.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py"],
 [("_galerkin", "operators/_base.py"), ("galerkin", "models/mono/_base.py")],
 ["galerkin(V, W) result evaluated on states"])
prop("C11", "Parametric operators evaluate to the documented nonparametric operator",
 "An affine operator evaluated at a parameter equals the sum of its coefficient functions at that parameter times its matrices; an interpolated operator reproduces the training matrices exactly at the training parameters and equals entrywise interpolation elsewhere, independent of the order in which the training data were given. Training data blocks, operator dimensions and results at a parameter are consistent with evaluating first and applying second; parameters of the wrong dimension are refused.",
 ["inputs", "configurations"], "all affine and interpolated operator types, coefficient functions, parameter dimensions and orders, states and inputs",
 "Tests evaluate at a few parameters with sorted training parameters.",
 ["operators/_affine.py", "operators/_interpolate.py"],
 [("evaluate", "operators/_affine.py"), ("evaluate", "operators/_interpolate.py"), ("datablock", "operators/_affine.py")],
 ["evaluate/apply/jacobian/datablock/operator_dimension"])
prop("C12", "Model evaluation and prediction follow the sum of the operators",
 "A model's right-hand side is the sum of its operators' evaluations for any operator selection and order; a discrete model's prediction is the exact iteration of that right-hand side with inputs taken step by step, and a continuous model's prediction solves the corresponding initial value problem at the requested times with inputs given as a function or as samples. Operators named by strings, given as objects, or mixed are equivalent; invalid initial conditions, inputs or times are refused.",
 ["inputs", "configurations"], "all operator sets, state and input dimensions including 1, initial conditions, inputs, time grids, integrator options",
 "Tests run a few fixed models and mostly check shapes.",
 ["models/mono/_base.py", "models/mono/_nonparametric.py"],
 [("rhs", "models/mono/_nonparametric.py"), ("predict", "models/mono/_nonparametric.py")],
 ["rhs, jacobian, predict"])
prop("C13", "Model inference recovers operators and subtracts only the known part",
 "Fitting a model to exact data of sufficient rank recovers the operators that generated it, for any operator set and whether some operators are already known; known operators keep their entries and only their contribution is removed from the left-hand side, once. With inexact data the inferred operators are the solver's minimiser for the data matrix of the unknown operators, and refitting any number of times with the same data gives the same result.",
 ["inputs", "configurations", "histories"], "all operator sets, known/unknown splits, dimensions, data sets, solvers, refit histories",
 "Tests check recovery for a handful of models with one random data set.",
 ["models/mono/_nonparametric.py", "models/mono/_base.py"],
 [("fit/refit", "models/mono/_nonparametric.py"), ("_process_fit_arguments", "models/mono/_nonparametric.py"), ("_extract_operators", "models/mono/_nonparametric.py")],
 ["operator entries after fit, residuals, data matrix, refit"])
prop("C14", "Parametric models evaluate and infer parameter by parameter",
 "Evaluating a parametric model at a parameter gives the nonparametric model made of its operators evaluated at that parameter, and its right-hand side, Jacobian and predictions at that parameter agree with it. Fitting affine or interpolated models to exact data at several training parameters recovers the generating operators, with any mix of known, constant-in-parameter and parametric operators, independent of the order of the training parameters.",
 ["inputs", "configurations", "histories"], "all parametric model kinds, operator mixes, training parameter sets and orders, refits",
 "Tests check one or two parametric configurations and seldom compare values.",
 ["models/mono/_parametric.py", "operators/_affine.py", "operators/_interpolate.py"],
 [("fit", "models/mono/_parametric.py"), ("evaluate", "models/mono/_parametric.py"), ("InterpModel", "models/mono/_parametric.py")],
 ["evaluate, rhs, predict, fit"])
prop("C15", "Least-squares solvers return the minimiser of their documented objective",
 "Every solver's solution minimises its documented objective (plain, scalar or per-row L2, Tikhonov with one or several regularisation matrices, truncated SVD, total least squares) for the given data and right-hand side, one- or two-dimensional. Its reported misfit, residual and regularised residual equal the stated norms, and problem dimensions are reported correctly.",
 ["inputs", "configurations"], "all solver types, data shapes and ranks, regularisers in every accepted format, solver methods",
 "Tests compare with one other implementation on random full-rank data and do not cover options jointly.",
 ["lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_total.py", "lstsq/_tsvd.py"],
 [("solve", "lstsq/_tikhonov.py"), ("misfit/residual/regresidual", "lstsq/_tikhonov.py"), ("truncated SVD", "lstsq/_tsvd.py")],
 ["solve(), misfit(), residual(), regresidual(), posterior()"])
prop("C16", "Solvers answer for their current settings after any history",
 "After any sequence of fitting with different data, changing the regulariser or truncation (accepted or refused), solving, copying, saving and loading, a solver's answers equal those of a fresh solver created with the current settings and fitted once to the current data. A refused setting or fit changes nothing, and copies do not influence each other.",
 ["histories"], "all sequences of fit, regulariser changes, failed calls, solve, copy, save/load",
 "Tests change the regulariser once after fitting; longer histories and failed updates are not explored.",
 ["lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_total.py", "lstsq/_tsvd.py"],
 [("regularizer setter", "lstsq/_tikhonov.py"), ("num_svdmodes setter", "lstsq/_tsvd.py"), ("copy", "lstsq/_base.py")],
 ["solve(), regularizer, num_svdmodes, residual after each step"])
prop("C17", "Finite differences are exact to their order and stay aligned",
 "Every finite difference scheme, uniform or not, returns on any data exactly the derivative of the polynomial interpolating its documented stencil, so it is exact for polynomials of its stated order at every returned column. The returned states and inputs are the columns of the given data at exactly the times of the returned derivatives, for single or several inputs, and data too short or misaligned is refused.",
 ["inputs", "configurations"], "all schemes, time steps, numbers of states and snapshots down to the minimum, input shapes",
 "Tests check convergence rates on one smooth function and shapes of inputs.",
 ["ddt/_base.py", "ddt/_finite_difference.py", "ddt/_interpolation.py"],
 [("fwd/bwd/ctr stencils", "ddt/_finite_difference.py"), ("estimate/mask", "ddt/_finite_difference.py"), ("InterpDerivativeEstimator", "ddt/_interpolation.py")],
 ["estimate() and ddt() return values"])
prop("C18", "Lifting is invertible and its derivative obeys the chain rule",
 "For every lifter and any states, unlift undoes lift, the lifted rows are the documented functions of the original rows in the documented order, and lift_ddts is the exact time derivative of the lifted states by the chain rule. This holds for single states and collections, any number of original variables, and any orders of a polynomial lifter.",
 ["inputs", "configurations"], "all lifters, polynomial orders (positive, negative, with or without 0 and 1), states, derivatives",
 "Tests lift one random data set for a few orders.",
 ["lift/_base.py", "lift/_polynomial.py"],
 [("lift/unlift/lift_ddts", "lift/_polynomial.py")],
 ["lift, unlift, lift_ddts return values"])
prop("C19", "A ROM encodes, decodes and predicts in the documented order",
 "encode is lifting, then transformation, then compression; decode reverses it exactly in the opposite order, also at selected locations; project is their composition; time derivatives are encoded consistently with states. Prediction encodes the initial condition, runs the model in reduced coordinates and decodes the result, with each stage skipped when absent, for monolithic and multi-variable components and for parametric ROMs at the given parameter.",
 ["inputs", "configurations"], "all combinations of lifter, transformer, basis, ddt estimator and model, single and multiple states",
 "Tests combine a few components with random data and check shapes or self-consistency.",
 ["roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py"],
 [("encode/decode/project", "roms/_base.py"), ("predict", "roms/_nonparametric.py"), ("predict", "roms/_parametric.py")],
 ["encode, decode, project, predict"])
prop("C20", "ROM training uses every trajectory, correctly aligned",
 "Fitting a ROM trains lifter-transformed data in order (transformer, then basis, then model) on the concatenation of all training trajectories in the given order, never differentiating or stepping across trajectory boundaries, with inputs and left-hand sides aligned to the states of their own trajectory. Flags to skip fitting the transformer or basis leave those components untouched, and exact data of a reduced model is recovered and predicted exactly, for discrete, continuous and parametric ROMs.",
 ["inputs", "configurations", "histories"], "all numbers and lengths of trajectories, inputs, explicit or estimated derivatives, fit flags, component combinations, refits",
 "Tests fit one or two trajectories and check that things run.",
 ["roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py"],
 [("fit", "roms/_nonparametric.py"), ("_process_training_states", "roms/_base.py"), ("fit", "roms/_parametric.py")],
 ["fitted transformer, basis and model, data passed to the model"])
prop("C21", "Regularisation selection returns the best stable candidate",
 "A grid selection of regularisation hyperparameters returns the candidate with the least mean relative training error among all given, where candidates whose prediction is unstable, incomplete or not finite are rejected, and the fitted object afterwards is the one for the selected candidate. Refinement never returns something worse than the best grid candidate, the search reports failure when no candidate is acceptable, and the stability tests accept exactly predictions staying within the stated bound over the stated horizon.",
 ["inputs", "configurations", "histories"], "all candidate sets (single, several, multi-parameter), training data, horizons, stability bounds, test cases",
 "Tests check that the search runs on one example and returns something.",
 ["utils/_gridsearch.py", "roms/_base.py", "roms/_nonparametric.py", "roms/_bayes.py"],
 [("gridsearch", "utils/_gridsearch.py"), ("fit_regselect_continuous/discrete", "roms/_base.py"), ("DiscreteRegTest/ContinuousRegTest", "utils/_gridsearch.py")],
 ["selected regulariser, fitted operators, returned errors"])
prop("C22", "Bayesian inference gives the regression posterior and samples from it",
 "The operator posterior of a fitted solver has as mean the regularised least-squares solution and as covariance the documented scaled inverse of the regularised normal matrix, row by row. Draws are distributed with exactly these moments, each draw yields a model of the given structure, and saving, loading or copying a posterior changes none of this.",
 ["inputs", "configurations"], "all data, regularisers, state dimensions, inverted or non-inverted covariance inputs",
 "Tests check shapes of samples.",
 ["roms/_bayes.py", "lstsq/_tikhonov.py"],
 [("posterior", "lstsq/_tikhonov.py"), ("OperatorPosterior", "roms/_bayes.py"), ("BayesianROM", "roms/_bayes.py")],
 ["posterior means and covariances, rvs moments, drawn models"])
prop("C23", "Saved and copied objects behave like the original",
 "Saving any object that supports it and loading the file with the same class, or copying it, gives an object with the same type, options and observable behaviour, in whatever lifecycle state it was saved (new, trained, with changed settings or dimensions). Where a file records its class or lacks what the loading class needs (transformers, bases, operators), loading it with the wrong class is refused with an error. Later changes to either object do not affect the other.",
 ["histories", "configurations"], "all persistable classes, options, lifecycle states before saving, operations after loading",
 "Tests save and load a few trained instances each and compare by a class-specific equality only.",
 ["pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_pod.py", "basis/_multi.py", "operators/_base.py", "operators/_nonparametric.py", "operators/_affine.py", "operators/_interpolate.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py", "lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py", "lstsq/_total.py", "roms/_bayes.py", "utils/_hdf5.py"],
 [("save/load/copy", "pre/_shiftscale.py"), ("hdf5 handles", "utils/_hdf5.py"), ("save_sparray/load_sparray", "utils/_hdf5.py")],
 ["behaviour of the loaded object"])
prop("C24", "Existing files are never overwritten or damaged without permission",
 "Saving to an existing path raises a file-exists error and leaves the file's content untouched unless overwrite was requested, in which case the file afterwards holds exactly the new object. Loading a missing or foreign file is refused with an error and never creates or alters a file, and save handles given as open file groups write into them without closing them.",
 ["histories", "configurations"], "all persistable classes, existing and missing targets, overwrite flags, path and open-handle targets, sequences of saves and loads",
 "Tests check the error once per helper, not the preserved content, nor every class.",
 ["utils/_hdf5.py", "pre/_shiftscale.py", "basis/_linear.py", "basis/_pod.py", "operators/_base.py", "models/mono/_nonparametric.py"],
 [("hdf5_savehandle", "utils/_hdf5.py"), ("hdf5_loadhandle", "utils/_hdf5.py")],
 ["file contents and exceptions"],
 [("file", "path -> stored object", "utils/_hdf5.py")])
prop("C25", "Reported errors equal the stated norms of the difference",
 "Projection, Frobenius, lp and Lp errors report the stated absolute norm of the difference of the two arguments and its ratio to the norm of the true data, column by column for state errors, with normalisation as documented. They are zero for equal data, scale with the data, and refuse misaligned arguments.",
 ["inputs", "configurations"], "all data, shapes (1-D and 2-D), norm orders, time grids, normalisation flags",
 "Tests compare with numpy on one random data set and the default norm.",
 ["post/_errors.py"],
 [("_absolute_and_relative_error", "post/_errors.py"), ("lp_error", "post/_errors.py"), ("Lp_error", "post/_errors.py")],
 ["returned absolute and relative errors"])
prop("C26", "Misaligned or invalid training data is refused and leaves the object unchanged",
 "Calls that receive arrays whose dimensions do not match each other or the trained object (states with inputs, left-hand sides or times, numbers of trajectories or parameters, regulariser shapes, missing inputs) are refused with a value, type or dimensionality error rather than silently broadcast, truncated or accepted. The object keeps the behaviour it had before the call.",
 ["inputs", "histories"], "all public training and evaluation calls, every pair of mismatched dimensions, before and after training",
 "Tests check some error messages on untrained objects, not that the state survives.",
 ["models/mono/_nonparametric.py", "models/mono/_parametric.py", "lstsq/_base.py", "lstsq/_tikhonov.py", "pre/_base.py", "pre/_multi.py", "basis/_linear.py", "basis/_multi.py", "roms/_nonparametric.py", "roms/_base.py", "ddt/_base.py", "operators/_base.py", "operators/_affine.py", "operators/_interpolate.py"],
 [("_process_fit_arguments", "models/mono/_nonparametric.py"), ("_check_shape", "pre/_base.py"), ("DimensionalityError", "errors.py")],
 ["exceptions and behaviour after them"])
prop("C27", "Timed blocks report and limit exactly the time spent in them",
 "A timed block records the wall time of its body, reports it, re-raises any error of the body, and raises a time-limit error if and only if the body runs beyond the given limit. Afterwards no alarm is left pending, the previous signal handler and an enclosing block's limit remain in force, and output settings are restored.",
 ["schedules", "histories"], "all nestings and sequences of blocks with and without limits, bodies that finish, fail or overrun",
 "Tests run a single block per outcome; nesting and left-over alarms are not examined.",
 ["utils/_timer.py"],
 [("TimedBlock", "utils/_timer.py")],
 ["elapsed, exceptions, pending alarms"],
 [("pending alarm", "process-wide interval timer", "utils/_timer.py")])
prop("C28", "Re-projection and stand-alone data utilities match their definitions",
 "Re-projected discrete data is the reduced trajectory that starts at the projected initial condition and repeatedly applies lift, full model, project; re-projected continuous data are the projected states with the projected full-model derivatives at them, with or without inputs. The stand-alone shift, scale, basis dimension and least-squares size functions compute the same quantities as the classes that document them.",
 ["inputs", "configurations"], "all bases, full models, initial conditions, inputs, horizons; all data for the stand-alone functions",
 "Tests check recovery for one random linear system.",
 ["utils/_reprojection.py", "pre/_shiftscale.py", "basis/_pod.py", "lstsq/_base.py"],
 [("reproject_discrete/continuous", "utils/_reprojection.py"), ("shift/scale", "pre/_shiftscale.py"), ("lstsq_size", "lstsq/_base.py")],
 ["returned arrays"])
prop("C29", "Verification accepts consistent components and reports inconsistent ones",
 "verify() of a transformer, basis, lifter, operator, parametric operator, time derivative estimator or solver raises no error for any implementation that fulfils the contract of its template, built-in or user-defined, in whatever way it was trained, and raises a verification error for one that does not: wrong output shapes or dimensions, transformations or liftings that are not inverted (also at locs), in-place requests not honoured, derivatives that differ from finite differences by more than the tolerance, compressions that do not define a projection, Jacobians, Galerkin projections, copies or saved files that disagree with evaluation. Estimation errors are reported as the relative error at the returned times. Verification changes neither the object nor its arguments nor any file of the caller.",
 ["inputs", "configurations", "histories"], "all templates, every combination of correct and incorrect methods, dimensions, tolerances and options; repeated verification and repairs between calls",
 "Tests call verify() on correct implementations and on a few with a single fault of one fixed size; whether every kind of fault is reported and no correct implementation is refused depends on the combination of methods and dimensions.",
 ["pre/_base.py", "pre/_multi.py", "basis/_base.py", "basis/_multi.py", "lift/_base.py", "operators/_base.py", "ddt/_base.py", "ddt/_interpolation.py", "lstsq/_base.py"],
 [("TransformerTemplate.verify", "pre/_base.py"), ("BasisTemplate.verify", "basis/_base.py"), ("LifterTemplate.verify", "lift/_base.py"), ("OperatorTemplate.verify / OpInfOperator.verify / ParametricOperatorTemplate.verify", "operators/_base.py"), ("DerivativeEstimatorTemplate.verify", "ddt/_base.py"), ("SolverTemplate.verify", "lstsq/_base.py")],
 ["exception or normal return of verify() / verify_shapes()", "errors returned by verify(return_errors=True)", "object state and working directory afterwards"])
prop("C30", "Operators and models accept exactly the well-formed descriptions",
 "Setting the entries of an operator is accepted exactly for finite arrays of the documented shapes of its type (compressed, full matrix or tensor; for parametric operators as many consistent arrays as expansion terms or distinct training parameters, or side by side), and determines its entries and its state, input and parameter dimensions. A model is accepted exactly for a nonempty list of operators it recognises whose known members agree in all dimensions and of which no two to be inferred are of the same kind; it then reports those dimensions, finds each operator by its kind, has a solver if anything is to be inferred, and equals the model with the same operators in another order. A refused setting changes nothing, so after any sequence of settings the object is as one made from the last accepted ones.",
 ["inputs", "configurations", "histories"], "all operator types and forms, shapes and containers of entries, lists of operators for all model classes, and sequences of accepted and refused assignments of entries, training parameters, operators, dimensions and solvers",
 "Tests construct well-formed objects and a few malformed ones, each once; whether every shape and list is classified correctly and a refused assignment leaves no trace depends on combinations and on what was assigned before.",
 ["operators/_nonparametric.py", "operators/_polynomial_operator.py", "operators/_affine.py", "operators/_interpolate.py", "operators/_base.py", "models/mono/_base.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py"],
 [("set_entries() of every operator class", "operators/_nonparametric.py"), ("_AffineOperator.set_entries / evaluate", "operators/_affine.py"), ("_InterpOperator.set_training_parameters / set_entries", "operators/_interpolate.py"), ("operators / state_dimension / input_dimension / solver setters, __eq__", "models/mono/_base.py"), ("_ParametricModel.operators", "models/mono/_parametric.py")],
 ["entries, shape, dimensions and value of the operator", "type of error", "operators, dimensions, solver, rhs and equality of the model"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
