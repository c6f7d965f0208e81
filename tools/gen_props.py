#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
S = "src/primate/"
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Streaming mean and covariance equal the batch moments for every split",
  "However a sequence of observations is cut into successive updates (single observations, batches of any size, scalars, lists, 1-D or 2-D arrays, empty batches), the streaming mean and covariance accumulators report exactly the mean and the (co)variance (for every ddof) of all observations seen so far, at every point of the stream. The result is independent of the cutting, stays accurate for data with a large common offset and over long streams, and reporting before any (or before enough) data yields the not-available value (NaN mean, infinite covariance) instead of a wrong number.",
  ["histories", "inputs"], "All compositions of update sequences into batches, all data words over the alphabet, dimensions 1..3, all query points, ddof 0..2.",
  "The tests feed one or two random batches and compare once; they never compare all ways of splitting the same stream, unequal batch sizes, offsets or empty batches.",
  ["stats.py"], [("Welford-type batched mean/covariance merge", "stats.py: Mean.update, Covariance.update")],
  ["Mean()/Mean.mean()", "Covariance()/covariance()/mean()"],
  [("mu, S, n", "running mean, scatter matrix, count", "stats.py: Mean, Covariance")])

p("C02", "MeanEstimator bookkeeping: length, estimate, delta and recorded values",
  "After any history of updates a mean estimator's length is the number of samples received, its estimate is their arithmetic mean, its delta is the change of the estimate made by the latest update, and with recording on its recorded values are exactly the samples in order; this holds with and without covariance tracking and for any dimension. What an estimator has reported or recorded is never changed by later updates or by the caller reusing the buffer it passed in, an update never changes the caller's array, and separate estimators never influence each other.",
  ["histories", "inputs"], "All update histories (batch shapes x values) up to the depth, dimensions 1..3, record/covariance flags, interleaved histories of two instances, caller buffer reuse between updates.",
  "The tests check the length and mean after one update; they never look at delta, recording, aliasing of inputs/outputs or more than one live instance.",
  ["estimators.py", "stats.py"], [("sample counting, delta and recording in update", "estimators.py: MeanEstimator.update")],
  ["len(est)", "est.estimate", "est.delta", "est.values"],
  [("n_samples, delta, values", "history of the estimator", "estimators.py: MeanEstimator")])

p("C03", "Control-variate estimates equal the textbook formula for every stream split",
  "For any stream of (sample, control...) rows, however it is split into updates (including single rows), the control-variate estimator reports mean(sample) - alpha.(mean(controls) - expected controls), with alpha either the coefficients given by the caller or the sample-covariance regression coefficients of everything seen so far. It never fails on streams that start with a single row, its length is the number of rows received, and it is NaN before any data.",
  ["histories", "inputs"], "All data words x all compositions into update batches, 1..2 controls, given or estimated coefficients.",
  "The only test feeds one large random batch with one control and compares with a tolerance; no split of the stream, second control or given coefficient vector is exercised.",
  ["estimators.py", "stats.py"], [("covariance accumulator feeding the regression coefficient", "estimators.py: ControlVariableEstimator.update")],
  ["est.estimate", "est.alpha", "len(est)"])

p("C04", "Stopping criteria compose as a Boolean algebra and never change the estimator",
  "For every Boolean combination of stopping criteria built with |, & and ~, and every estimator state, evaluating the combination gives the truth value that the Boolean expression of its parts has in that state. Composing creates new criteria without altering the operands, and evaluating or asking for a message leaves the estimator's state unchanged and always yields a text message.",
  ["programs", "histories"], "All expression trees up to the depth over the leaf criteria (counting, tolerance, confidence, knee, constant user-defined) x all reachable estimator states of the bounded histories.",
  "The tests evaluate one or two two-leaf combinations at one state each.",
  ["estimators.py"], [("operator overloads building composite criteria", "estimators.py: ConvergenceCriterion.__or__/__and__/__invert__")],
  ["criterion(est)", "criterion.message(est)"])

p("C05", "Count and tolerance rules fire exactly at their thresholds; factory is faithful",
  "The count rule holds exactly when at least the requested number of samples were received, and the tolerance rule holds exactly when the norm (of the requested order) of the latest change of the estimate is below the absolute tolerance or below the relative tolerance times the norm of the estimate. Building a criterion by name (case-insensitively) with keyword parameters gives the same rule as constructing it directly, ignoring parameters of other rules; an existing criterion is passed through unchanged and unknown names are rejected.",
  ["histories", "inputs", "configurations"], "All update histories over the value alphabet, thresholds on, just below and just above the attained values, norm orders, dimensions, all names x all subsets of keyword parameters.",
  "The tests check one threshold per rule on one random stream.",
  ["estimators.py", "typing.py"], [("CountCriterion, ToleranceCriterion, convergence_criterion", "estimators.py"), ("restrict_kwargs/setdiff_kwargs", "typing.py")],
  ["criterion(est)"])

p("C06", "Confidence rule and intervals use the exact Student-t / normal quantiles",
  "The confidence rule never holds with fewer than three samples and otherwise holds exactly when the half-width of the two-sided confidence interval of the mean (sample standard deviation with n-1, Student-t quantile with n-1 degrees of freedom below 30 samples and the normal quantile from 30 on) is at most the absolute tolerance, or the standard error relative to |mean| is at most the relative tolerance. The stand-alone confidence interval is mean -/+ quantile times standard error (Student-t with n-1 degrees of freedom, or normal) and always brackets the mean, widening with the confidence level.",
  ["histories", "inputs", "configurations"], "All sample sizes 1..64, all data words of the alphabet, all splits around the thresholds, tolerances just above/below the attained bound, all confidence levels of the grid (to 1 - 1e-8).",
  "The tests check convergence for one random stream with a loose tolerance; being off by some degrees of freedom or at the n=30 boundary is invisible to them.",
  ["estimators.py", "stats.py"], [("t-score table and z score", "estimators.py: ConfidenceCriterion"), ("confidence_interval", "stats.py: confidence_interval")],
  ["criterion(est)", "confidence_interval(...)", "criterion.message(est)"])

p("C07", "Knee rule is the kneedle rule on the accumulated change of the running mean",
  "For every recorded sequence, the knee rule answers exactly what the kneedle rule with sensitivity S answers on the cumulative absolute change of the running sample mean; it never holds for fewer than three samples or without recorded values. A sequence whose running mean no longer changes at all is regarded as converged, so a sampling loop governed by the rule terminates on constant samples.",
  ["histories", "inputs"], "All value words up to the length bound over the alphabet (long ones to 1300), several S and S just below and above the value at which the answer changes, recorded or not.",
  "The test checks one smooth and one noisy sequence.",
  ["estimators.py"], [("KneeCriterion", "estimators.py: KneeCriterion.__call__")], ["criterion(est)"])

p("C08", "Isotropic samplers produce exactly the documented distributions",
  "For every state of the supplied bit generator, samples drawn with pdf rademacher/signs are vectors over {-1,+1} in which every sign pattern is equally likely, sphere samples are the normal samples scaled to norm exactly sqrt(n) (for a nonzero normal vector), and normal samples are standard normal entries; each pdf has zero mean and identity second moment. Aliases, in-place output (contiguous arrays of either float precision), deferred samplers and direct calls all agree, successive draws continue one stream, the requested shape is honoured and unknown names are rejected.",
  ["inputs", "configurations", "histories"], "All bit patterns of the generator at the decision granularity (every sign pattern of the enumerated shapes), all shapes, pdf names, call forms and split points of the stream.",
  "Tests check one shape and loosely compare a sample second moment with the identity; a subtly biased or mis-scaled sampler passes.",
  ["random.py"], [("in-place generators for each distribution", "random.py: _rademacher_inplace, _normal_inplace, _sphere_inplace"), ("isotropic dispatcher", "random.py: isotropic")],
  ["isotropic(...)"])

p("C09", "Multithreaded isotropic fill is schedule independent and complete",
  "For every interleaving of the worker threads, a multithreaded fill returns only after every column of the output was written with valid samples of the requested distribution, and the result depends only on the seed, the shape and the number of threads, never on the schedule. Different threads use different random streams, repeated fills continue the streams, and one thread reproduces the single-threaded sampler for the same seed.",
  ["schedules", "configurations"], "All interleavings of the fill's worker threads at line granularity up to the preemption bound (all orders of job execution with no bound), threads 1..4, column counts not divisible by the thread count.",
  "The tests run a free-running pool once; the operating system picks one schedule.",
  ["random.py"], [("column-block partition, per-thread generators, wait for all futures", "random.py: Isotropic.fill")],
  ["Isotropic(...).fill()", "Isotropic(...).values"])

p("C10", "Random symmetric matrices have exactly the prescribed spectrum",
  "For every size, entry distribution, seed and requested eigenvalue list, the random symmetric and orthogonally-conjugated generators return an exactly symmetric (to rounding) n-by-n matrix whose eigenvalues, with multiplicity, are the requested ones. Without a request the eigenvalues lie in [-1, 1], or in [0, 1] when positive-definiteness is asked for, in which case no eigenvalue is negative even if negative ones were prescribed; invalid distributions or eigenvalue counts are rejected.",
  ["inputs", "configurations"], "All sizes 1..6 x distributions x eigenvalue words over the alphabet (repeated, zero, negative) x pd flag x seeds of the grid.",
  "Tests check one size with one seed.",
  ["random.py"], [("symmetric, haar", "random.py: symmetric, haar")], ["symmetric(...)", "haar(...)"])

p("C11", "Tridiagonal eigensolver returns the full eigen-decomposition for every input",
  "For every symmetric tridiagonal matrix (including zero and negative off-diagonals, repeated diagonals, size one) and each offered method, the eigenvalue routine returns all eigenvalues with multiplicity and the eigen-pair routine returns eigenvalues with an orthonormal eigenvector matrix such that T Y = Y diag(r). It terminates, accepts the off-diagonal with or without the leading zero entry with the same result, and leaves its inputs unmodified.",
  ["inputs", "configurations"], "All diagonal/off-diagonal words over the value alphabet up to the size bound x methods x input forms.",
  "These modules' tests do not even build here, and the upstream test uses one random matrix for which every method works.",
  ["tridiag.py", "tqli.py"], [("QL iteration with implicit shifts", "tqli.py: tqli"), ("method dispatch and fallback", "tridiag.py: _eigh_tridiag")],
  ["eigh_tridiag(...)", "eigvalsh_tridiag(...)"])

p("C12", "Gaussian quadrature rules integrate all polynomials up to degree 2k-1 exactly",
  "For every Jacobi matrix, every degree k and every offered method, the quadrature routine returns the k-point Gauss rule of the leading k-by-k block: nodes are its eigenvalues, weights are non-negative and sum to one, and the rule reproduces e1' T^j e1 for every j up to 2k-1. Output arrays, when given, receive the same numbers, inputs are not modified and unknown methods are rejected.",
  ["inputs", "configurations"], "All Jacobi matrices over the value alphabet up to the size bound x all degrees x methods x input forms.",
  "The upstream tests (not buildable here) compare the two methods on one random matrix at full degree.",
  ["integrate.py", "fttr.py", "tridiag.py"], [("Golub-Welsch weights", "integrate.py: quadrature"), ("three-term recurrence weights", "fttr.py: fttr")],
  ["quadrature(...)"])

p("C13", "Incremental triangular inverse equals the inverse of the grown matrix",
  "Appending columns one at a time to the inverse of an upper-triangular matrix, starting from the empty one, yields at every step the inverse of the matrix grown so far, in the precision of the inputs and for every accepted shape of the column. Inputs are never modified and shape or precision mismatches are rejected.",
  ["histories", "inputs"], "All chains of columns over the value alphabet up to the depth, both precisions, column given as 1-D or (n,1).",
  "The test grows one random matrix in double precision.",
  ["linalg.py"], [("block inverse update", "linalg.py: update_trinv")], ["update_trinv(...)"])

p("C14", "Lanczos returns a valid tridiagonalisation of the operator on the Krylov space",
  "For every symmetric operator (dense, sparse, matrix-free; float32 or float64), start vector, degree and re-orthogonalisation setting, the returned tridiagonal coefficients and basis satisfy A Q = Q T + residual on the last column only, with q1 the normalised start vector, orthonormal Q on the Krylov space actually reached, and zeros (no leftovers) beyond an invariant subspace (recognised by a residual norm below sqrt(n)*rtol). The result does not depend on representation, on whether the basis or the sparse form is requested, or on the content of supplied workspaces; operator and start vector are left unmodified and a given seed is reproducible.",
  ["inputs", "configurations", "histories"], "All matrices of the alphabet (n<=5, all small integer words and structured families) x start vectors x degrees x orth x output form x representation x dtype x dirty workspaces.",
  "The Lanczos tests do not build here and upstream compare one or two random matrices at full degree.",
  ["lanczos.py", "_lanczos.cpp", "include/lanczos.h", "include/eigen_operators.h", "include/pylinop.h"],
  [("Paige A27 recurrence with cyclic basis storage", "include/lanczos.h: lanczos_recurrence"), ("argument preparation", "lanczos.py: lanczos")],
  ["lanczos(...)"])

p("C15", "Rayleigh-Ritz values approximate only real spectrum",
  "For every symmetric operator, start and degree, all Rayleigh-Ritz values lie within [lambda_min, lambda_max], none is an artefact (a value reported for directions outside the Krylov space), and at full Krylov dimension they are eigenvalues of the operator. Eigenvectors and the basis, when requested, belong to the same decomposition and give the same values.",
  ["inputs", "configurations"], "All matrices of the alphabet incl. repeated eigenvalues and invariant starts x degrees x orth x return flags.",
  "Upstream tests use full-rank random matrices with distinct eigenvalues only.",
  ["lanczos.py", "tridiag.py", "include/lanczos.h"], [("rayleigh_ritz", "lanczos.py: rayleigh_ritz")], ["rayleigh_ritz(...)"])

p("C16", "Matrix-function operator applies f(A), exact on what the Krylov space resolves",
  "For every symmetric operator and vector, applying the degree-k matrix-function operator gives exactly p(A)v for every polynomial p of degree below k, and f(A)v for arbitrary f once the degree reaches the Krylov dimension of the vector (full re-orthogonalisation), including vectors in invariant subspaces, repeated eigenvalues, the zero vector and functions undefined at zero. It behaves as a linear operator: matvec, @, blocks of columns, the adjoint and the one-call form agree, inputs are not modified, named functions equal their callables.",
  ["inputs", "configurations"], "All matrices of the alphabet x vectors x degrees x function families x call forms.",
  "The operator tests do not build here; upstream checks a handful of random matrices with full Krylov spaces.",
  ["operators.py", "lanczos.py", "tridiag.py", "include/lanczos.h"], [("Lanczos function approximation ||x|| Q f(T) e1", "operators.py: MatrixFunction._matvec")],
  ["MatrixFunction @ v", ".matvec", ".matmat", "matrix_function(...)"])

p("C17", "Lanczos quadratic forms are exact to degree 2k-1 and act column by column",
  "For every symmetric operator and vector, the degree-k quadratic form equals v' p(A) v for every polynomial of degree up to 2k-1 and v' f(A) v for arbitrary f once the Krylov space is exhausted. For a block of vectors it returns one number per column, each equal to what that column alone would give, regardless of the other columns, memory layout or precision; inputs are not modified.",
  ["inputs", "configurations"], "All matrices of the alphabet x blocks of 1..3 vectors in all orders x degrees x orth x layouts.",
  "The operator tests do not build here; upstream compares a single vector.",
  ["operators.py", "integrate.py", "include/lanczos.h"], [("MatrixFunction.quad", "operators.py: MatrixFunction.quad")], ["MatrixFunction.quad(...)"])

p("C18", "Matrix-function operators are history independent",
  "Any sequence of matvec, block matvec and quad calls (also across function changes and after changes that were refused) on one matrix-function operator gives, call for call, what a freshly constructed operator gives for that call alone. Results handed out earlier never change afterwards.",
  ["histories"], "All operation sequences up to the depth over {matvec, matmat, quad, change of function} x vectors x operator configurations.",
  "No test calls one operator twice with different vectors and compares with fresh operators.",
  ["operators.py", "include/lanczos.h"], [("reused workspaces alpha/beta/Q/nodes/weights", "operators.py: MatrixFunction")],
  ["MatrixFunction @ v", ".quad"], [("_alpha,_beta,_Q,_nodes,_weights", "workspaces reused between calls", "operators.py: MatrixFunction")])

p("C19", "The Toeplitz operator equals the dense Toeplitz matrix",
  "For every first column and (optional) first row, applying the matrix-free Toeplitz operator to any vector or block of vectors equals multiplying by the dense Toeplitz matrix with that column and row, symmetric or not, for every size from one up. Repeated applications in any order are independent of each other, and the arrays given by the caller are neither modified nor referenced afterwards.",
  ["inputs", "histories"], "All column/row words over the alphabet up to size 4, unit and mixed vectors, all call sequences up to the depth.",
  "Upstream tests (not buildable here) use symmetric Toeplitz matrices and one vector.",
  ["operators.py"], [("circulant embedding with FFT", "operators.py: Toeplitz")], ["Toeplitz @ v"])

p("C20", "Spectral normalisation is an affine map into [-1, 1]",
  "For every non-zero symmetric operator of dimension at least two, the normalised operator is an affine image of the original (same eigenvectors, one common shift and scale) whose spectrum lies in [-1, 1]. The original operator is unchanged and the result acts as a linear operator on vectors and blocks.",
  ["inputs", "configurations"], "All matrices of the alphabet (positive, negative, indefinite, rank-deficient) x representations.",
  "The upstream test uses one random positive-definite matrix.",
  ["operators.py"], [("normalize_unit", "operators.py: normalize_unit")], ["normalize_unit(A)"])

p("C21", "Built-in spectral functions compute their documented values",
  "Every named spectral function resolves to the documented function with its documented parameters and defaults (identity, abs, sqrt, clipped log, inverse, exp(t x), numerical-rank step, smoothstep on [a,b], soft-sign of order q), pointwise on every entry of a vector of arguments, independent of the other entries. The direct and the deferred call forms agree, smoothstep and soft-sign have their documented monotone range and limits, and unknown names are rejected.",
  ["inputs", "configurations"], "All names x parameter grid x argument grid (incl. boundaries and out-of-range) x vector lengths x call forms.",
  "Tests check a few values of a few functions with default parameters.",
  ["special.py"], [("param_callable and function factories", "special.py")], ["param_callable(name, ...)", "softsign, smoothstep, exp, step"])

p("C22", "hutch returns the mean of the quadratic forms it drew and stops as its rule says",
  "For every operator, sampling distribution, batch size and stopping rule, the Girard-Hutchinson estimate is the arithmetic mean of v'Av over exactly the vectors drawn, and sampling stops at the first check at which the rule holds (before sampling, or after a batch) and never goes on beyond it. With full output or a callback, the callback runs once per batch with the current estimate, count and criterion available, the result describes the final state, and recorded values are the individual quadratic forms in order; an empty operator has trace zero.",
  ["histories", "inputs", "configurations"], "All scripted vector sequences over the alphabet x operators x batch sizes x stopping rules (incl. composite and user-defined) x full/callback/record flags.",
  "The trace tests do not build here; upstream compares with the true trace within a loose tolerance at one random stream.",
  ["trace.py", "estimators.py"], [("Monte-Carlo loop", "trace.py: hutch")], ["hutch(...)", "callback", "EstimatorResult"])

p("C23", "Trace and diagonal estimators are unbiased over their sampling distribution",
  "For every symmetric matrix, averaging the estimates over all equally likely outcomes of an isotropic sampling distribution gives exactly the trace (hutch, hutch++, also through a matrix function) or exactly the diagonal (diagonal estimator with sign vectors). This holds for every number of samples and batch size with a fixed-count rule.",
  ["inputs", "configurations"], "Complete enumeration of all sign outcomes (and scaled coordinate designs) for all matrices of the alphabet, n<=4, one to three samples, all batch splits.",
  "Tests see a handful of random draws: no test can tell a small bias from noise, only complete enumeration of the outcomes settles unbiasedness.",
  ["trace.py", "diagonal.py", "random.py", "operators.py"], [("quadratic form averaging", "trace.py: hutch, hutchpp"), ("ratio estimator", "diagonal.py: diag")],
  ["hutch(...)", "hutchpp(...)", "diag(...)"])

p("C24", "Hutch++ equals its definition and is exact on low-rank operators",
  "For every operator, sampling distribution and sketch size, the Hutch++ estimate equals the trace on the sketched range plus the average quadratic form of the second sample on the orthogonal complement, in both evaluation modes, and is exact whenever the sketch captures the whole range. It works for every dimension from one up, and full output reports the same estimate together with the individual contributions.",
  ["inputs", "configurations"], "All matrices of the alphabet x scripted sketches x sketch sizes x modes x representations.",
  "Upstream tests compare with the true trace within a loose tolerance on one matrix.",
  ["trace.py"], [("deflation and residual estimate", "trace.py: hutchpp")], ["hutchpp(...)"])

p("C25", "XTrace equals the leave-one-out definition for every batching",
  "For every nonsingular sketch, the XTrace estimate after m vectors is the average over i of the Hutch++-type estimate built from all vectors but the i-th and tested on the i-th (with the norm correction for sphere samples), independent of how the vectors were batched; with sphere samples it is exactly the trace once all n dimensions are sampled. The user's stopping rule ends the sampling at the first batch after which it holds, the rule and the callbacks see the current state, and full output describes it.",
  ["inputs", "configurations", "histories"], "All matrices of the alphabet x scripted sketches x batch compositions x stopping rules x pdfs.",
  "Upstream tests only check the final exact value with all n vectors, which hides every error in the partial estimates.",
  ["trace.py", "linalg.py"], [("leave-one-out update formulas", "trace.py: _xtrace"), ("incremental QR and inverse", "trace.py: xtrace")], ["xtrace(...)", "callback"])

p("C26", "The diagonal estimator averages the ratio estimates and stops as its rule says",
  "For every operator and sampling distribution, the diagonal estimate is the running average over steps of the accumulated ratio sum(v*Av)/sum(v*v) of exactly the vectors drawn, is exact for diagonal operators at every step, and stops at the first step after which the rule holds. Callback and full output see the current estimate, which is never altered afterwards, and plain and full calls return the same estimate.",
  ["inputs", "histories", "configurations"], "All scripted vector sequences over the alphabet x operators x stopping rules x full/callback/record flags.",
  "Upstream tests compare loosely with the true diagonal on one random stream.",
  ["diagonal.py", "estimators.py"], [("ratio accumulation", "diagonal.py: diag")], ["diag(...)", "callback"])

p("C27", "XDiag equals its leave-one-out definition within its matvec budget",
  "For every operator and nonsingular sketch, the XDiag estimate equals the average over i of the diagonal of the approximation built from all sketch vectors but the i-th, corrected by the i-th. At most the requested number of matrix-vector products is used (rounded up to even, capped at 2n).",
  ["inputs", "configurations"], "All matrices of the alphabet x all enumerated sketches x budgets m.",
  "Upstream tests check one matrix at full budget.",
  ["diagonal.py"], [("leave-one-out formulas", "diagonal.py: xdiag")], ["xdiag(...)"])

p("C28", "Randomised routines are reproducible, self-contained, representation independent",
  "For every estimator, sampler and random-matrix routine, equal seeds (integer or equal generator states) give identical results in any call order, a passed generator is the only source of randomness consumed and continues its stream, and numpy's global random state is neither read nor changed. Inputs are never modified, and dense, sparse and matrix-free versions of an operator give the same estimates for the same seed.",
  ["histories", "inputs", "configurations"], "All ordered call sequences of the routine menu up to the depth x seeds x operator representations.",
  "Tests fix a seed per call but never compare interleaved histories, representations, or the global random state.",
  ["trace.py", "diagonal.py", "random.py", "lanczos.py"], [("generator threading through isotropic", "trace.py, diagonal.py, random.py")], ["hutch, hutchpp, xtrace, diag, xdiag, lanczos, isotropic, symmetric, haar"])

p("C29", "Invalid operators and arguments are rejected, valid ones are accepted",
  "Every estimator and operator entry point rejects, with an exception and without crashing or hanging, operators that are not two-dimensional, not square or lack a matrix-vector product, and out-of-range arguments (unknown distributions, criteria, methods, functions, confidence levels, batch sizes, degrees, mismatched lengths and workspaces). hutch, hutch++, the diagonal estimator, Lanczos and Rayleigh-Ritz also reject operators that are not 32/64-bit floating point, before anything is sampled. Valid operators of every supported representation are accepted with the right precision reported.",
  ["inputs", "configurations"], "All operator kinds x entry points, all argument menus.",
  "Tests exercise almost no rejection paths.",
  ["operators.py", "trace.py", "diagonal.py", "lanczos.py", "estimators.py", "random.py", "stats.py", "linalg.py", "tridiag.py", "integrate.py"],
  [("is_valid_operator/is_linear_op and assertions", "operators.py")], ["all public entry points"])

p("C30", "Convergence plots show the true running means and errors",
  "For every sequence of samples or recorded estimator, the sequence figure draws the samples and their running means, and the error figure draws at each index the absolute or relative error of the running mean with respect to the given true value, or the confidence half-width (relative standard error) of the first k samples when none is given. Missing (NaN) samples are left out of the running mean. The spectral-density figure draws the share of eigenvalues up to each point, and the Jacobi figure the Jacobi polynomials.",
  ["inputs", "configurations"], "All value words up to the length bound x estimator/sequence input x true value or not x absolute/relative x threshold.",
  "No test draws a figure (the plotting backend is not even installed).",
  ["plotting.py"], [("figure_sequence, figure_error, figure_csm", "plotting.py")], ["arguments of the drawing calls"])

p("C31", "Convergence messages and result records report the actual state",
  "For every sequence of updates, estimator and stopping rule (including before the first update), the rule's message states the estimator's current estimate, sample count, half-width or norms and the rule's own parameters at printed precision, and asking for it changes neither the estimator nor the rule's answer. The record of a fully reported hutch run carries the estimate, count, estimator and rule of that run and the message of its final state; records unpack in the documented order and share nothing.",
  ["inputs", "histories", "configurations"], "All value words up to the length bound x batch groupings x estimators x rules, and all scripted hutch runs.",
  "Tests never read a message, and only check a record's type.",
  ["estimators.py", "trace.py"], [("message, arr_summary, EstimatorResult", "estimators.py"), ("result bookkeeping", "trace.py: hutch")], ["criterion.message(est)", "hutch(..., full=True)"])

p("C32", "The C++ header library computes what it promises",
  "For every matrix and input, the operators of the installed C++ headers act as they are named, in matvec, rmatvec, matmat and shape alike: dense and sparse ones as A, Gram ones as A'A, affine ones as A + tB for the parameter set last. orth_vector removes exactly the projections onto the requested columns in the requested cyclic order, ignoring zero and undefined ones, the parameter rules give admissible degrees, numbers of stored vectors and re-orthogonalisations, and the recurrence template works on each operator, for any prior buffer contents. Nothing outside the given buffers is touched.",
  ["inputs", "histories", "configurations"], "All matrices of small shapes x operators x calls and call sequences; the whole integer box of parameters.",
  "No test compiles against the headers; the Python module uses only the dense and sparse matvec.",
  ["include/eigen_operators.h", "include/lanczos.h", "include/linear_operator.h", "__init__.py"], [("operator structs and concepts", "include/eigen_operators.h, linear_operator.h"), ("orth_vector, param_*, lanczos_recurrence", "include/lanczos.h")], ["C++ templates", "get_include()"])

p("C33", "Concurrent and nested calls do not interfere",
  "For every pair of public routines called at the same time from two threads, each on its own objects and with its own seed but possibly on the same operator matrix, and for every schedule, each call returns bit for bit what it returns alone. The same holds for any routine called inside a user hook (operator product, sampler, spectral function, stopping rule, callback) of another routine, at any use of the hook.",
  ["schedules", "histories", "configurations"], "All schedules within a preemption bound of all pairs of routines; all hosts x hooks x positions x guests.",
  "Tests call one routine at a time.",
  ["trace.py", "diagonal.py", "lanczos.py", "operators.py", "random.py", "estimators.py", "tridiag.py", "integrate.py", "special.py"], [("no module-level state", "all modules")], ["all public routines"])

p("C34", "Results depend on argument values, not on layout, type or calling style",
  "For every public routine, passing the same argument values in another memory layout (C or Fortran order, strided, reversed, part of a larger buffer, read-only, subclass, byte swapped, unaligned, overlapping another argument), another numeric type where floating point is not required, another scipy sparse format (including duplicate, unsorted or explicitly zero entries), as numpy instead of Python scalars, by position instead of keyword, or as an explicitly stated default gives the same result. Arguments are never modified and results never share memory with them. Output arrays that are accepted hold what is returned.",
  ["inputs", "configurations"], "All tuples of layouts, types and formats of all array arguments over value menus; all pairs of scalar types; all positional/keyword splits; all subsets of stated defaults; all pairs of output layouts.",
  "Tests pass fresh contiguous float64 arrays and Python scalars by keyword; compiled routines dispatch on exactly what they do not vary.",
  ["trace.py", "diagonal.py", "lanczos.py", "operators.py", "random.py", "estimators.py", "tridiag.py", "integrate.py", "special.py", "stats.py", "linalg.py", "_lanczos.cpp", "fttr.py", "tqli.py"],
  [("conversion before the compiled routines", "lanczos.py: lanczos, _as_native; integrate.py: quadrature; tridiag.py: _eigh_tridiag"), ("overload dispatch", "_lanczos.cpp")], ["all public routines"])

p("C35", "Faults in user code propagate cleanly; its answers may take any form",
  "If user code called by a routine (operator product or quadratic form, sampler, spectral function, callback, stopping rule or its message) raises any exception at any of its uses, exactly that exception reaches the caller, no user code is called again, generators stand where they stood, arguments and process-wide settings (numpy error handling, print options, global random state, warning filters, environment, tracing, standard streams) are unchanged, and the same objects used again give what they gave before. Operator products, quadratic forms, samples and function values may be answered in any memory layout, as a view of the argument, read-only, or (samples, function values) as integers or Booleans, rules may answer with any truth value, callbacks with anything: the result is the same. No routine changes process-wide settings.",
  ["fault_sequences", "inputs"], "Every use of every hook x exception types x operator styles x sizes, followed by a repetition on the same objects; all (pairs of) answer forms of all hooks.",
  "Tests never let an operator, sampler, function, callback or rule fail, nor return anything but fresh contiguous float64 arrays; a fault can strike at any use.",
  ["trace.py", "diagonal.py", "lanczos.py", "operators.py", "estimators.py", "_lanczos.cpp", "include/lanczos.h"],
  [("hook calls", "trace.py: hutch, hutchpp, xtrace; diagonal.py: diag, xdiag; operators.py: MatrixFunction"), ("exceptions through the extension", "_lanczos.cpp, include/lanczos.h")], ["all routines taking user code"])

p("C36", "Results follow units, sign, order and orientation of the coordinates",
  "For every operator, sampler and scale-free stopping rule: an operator (or its vectors, where the result is homogeneous in them) multiplied by a number of any magnitude or sign gives the result multiplied accordingly, sample by sample and with the same number of samples, and permuting, sign-flipping or reflecting the coordinates of operator and vectors together permutes, flips or leaves the result in the same way. Adding a multiple of the identity or another operator changes linear estimates by exactly its own contribution, and estimators whose samples are exchangeable do not depend on the order, sign or length (where it cancels) of their vectors. The same holds for Lanczos coefficients, matrix functions, Toeplitz products, tridiagonal eigenvalues, quadrature rules, normalised operators, confidence intervals, the answers of stopping rules, control variates and triangular inverse updates.",
  ["inputs"], "All small words, structured families and larger matrices x every transformation of the menu (units 2^-200..2^200, signs, permutations, reflections, shifts, sums) x routines, rules and samplers.",
  "Tests look at one operator in one unit; absolute thresholds, sign- or position-dependent code only shows when the same problem is posed twice in different units or coordinates.",
  ["trace.py", "diagonal.py", "lanczos.py", "operators.py", "estimators.py", "stats.py", "integrate.py", "tridiag.py", "linalg.py", "include/lanczos.h"],
  [("estimates", "trace.py: hutch, hutchpp, xtrace; diagonal.py: diag, xdiag"), ("Krylov routines", "lanczos.py, include/lanczos.h; operators.py: MatrixFunction, Toeplitz, normalize_unit"), ("statistics", "estimators.py, stats.py")], ["all numerical routines"])

p("C37", "Calls keep nothing alive, held results stay valid, nothing accumulates",
  "After a call of any public routine - successful, or failed in user code at any of its uses - an object the caller passed (operator, array, function, sampler, rule, callback, generator) stays alive only as long as the caller or a result still held by the caller refers to it, and its reference count is what it was. A held result never changes and stays usable, whatever is called, dropped or collected afterwards, in any order; likewise an array that user code was given and kept stays what it was when the call returned. Repeating calls, successful or failing, leaves no memory, threads or file descriptors behind.",
  ["histories", "fault_sequences"], "All routines x operator styles x one or two calls (successful or failing at every single hook use) x every order of dropping the handles to arguments and results, interleaved with collections and reuse of the freed memory; repeated calls for growth.",
  "Tests let everything go out of scope at the end and call every routine a few times; dangling views into freed memory, leaked references on the exception path and growing caches do not show.",
  ["trace.py", "diagonal.py", "lanczos.py", "operators.py", "estimators.py", "random.py", "_lanczos.cpp", "include/pylinop.h", "include/eigen_operators.h"],
  [("references held by the extension", "_lanczos.cpp; include/pylinop.h"), ("workspaces and outputs", "lanczos.py: lanczos; operators.py: MatrixFunction"), ("thread pool", "random.py: Isotropic")], ["all public routines"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        pass
        f.write(json.dumps(x) + "\n")
print(len(P))
