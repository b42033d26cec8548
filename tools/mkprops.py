"""Writes properties.jsonl and MANIFEST.json (one place for what is claimed); run from anywhere."""

import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, level="exploration"):
	assert len(title) <= 80, (id, len(title))
	P.append(
		dict(
			id=id, title=title, statement=statement, over=over, text=text, why=why, technique=technique, note=note, level=level,
			files=[f"src/primate/{f}" for f in files.split()],
			mechanism=[dict(zip(("name", "where"), m.split(" @ "))) for m in mechanism.split("; ")],
			observe=observe.split("; "),
		)
	)


TR, OPS, LZ, EST, RND, ST = "trace.py", "operators.py", "lanczos.py", "estimators.py", "random.py", "stats.py"

prop(
	"C01", "hutch returns the mean of the quadratic forms of the probes it drew",
	"The trace estimate returned by `hutch` is the arithmetic mean of v'Av (of `A.quad(v)` if the operator has one) over exactly the probe vectors its sampler produced during the call, each counted once, for every storage format, precision, batch size and reporting mode. Averaged over a complete isotropic design (all sign vectors, or the scaled unit vectors) it equals the trace of A exactly. With `record=True` the recorded values are these forms, one per probe, in the order drawn.",
	["inputs", "configurations"], "every symmetric operator, sampler, batch size, number of samples, reporting mode and seed",
	"The tests compare a few seeds on one or two matrices within statistical tolerance; a biased, dropped or doubly counted probe stays inside it. Here the probes are observed, so the mean is known exactly.",
	"trace.py random.py estimators.py stats.py", "batched quadratic form @ src/primate/trace.py:hutch; running mean @ src/primate/estimators.py:MeanEstimator.update",
	"returned estimate; callback results; probes handed to the operator and drawn from the sampler",
	"event-logging sampler/operator wrappers with an offline reference mean",
	"Exact reference recomputed from the logged probes on every run; holds on the operators, samplers and batch sizes generated.",
)
prop(
	"C02", "Sampling stops exactly when the stopping criterion is first met",
	"`hutch`, `diag` and `xtrace` ask their stopping criterion before every batch with the estimator state of all samples so far, draw no sample after it first answers true, and never stop while it answers false (`xtrace` also stops once it holds n samples for an n x n operator). Named criteria and their keyword arguments ('count', 'tolerance', 'confidence', 'knee') act as the criterion of that name with these arguments; hutch's default is 200 samples or a 95% confidence half-width of at most 1.0, whichever comes first. The number of samples used is therefore a function of the sample sequence and batch size alone.",
	["inputs", "configurations", "histories"], "every estimator, criterion (named, composite, user-written), batch size and sample history",
	"The tests never observe when a criterion is consulted, nor the samples drawn after it; they check the final value of a few runs.",
	"trace.py diagonal.py estimators.py", "sampling loops @ src/primate/trace.py:hutch; sampling loop @ src/primate/diagonal.py:diag; sampling loop and n-sample cap @ src/primate/trace.py:xtrace; criterion factory @ src/primate/estimators.py:convergence_criterion",
	"calls of the sampler, of the operator and of the criterion, in order; number of samples in the result",
	"online event-order monitor and offline replay of the stopping rule",
	"Draw/evaluate event order monitored on every run; stopping index recomputed independently from the logged probes, except within 1e-9 of a threshold.",
)
prop(
	"C03", "What the estimators report about a run agrees with the run",
	"For `hutch`, `xtrace`, `diag` and `hutchpp`, the result object of `full=True` and every object handed to `callback` carry the current estimate, the number of samples used so far and the estimator and criterion in use (where the function has them), and the message describes the final state; callbacks come once per batch, in order. Asking for `full`, `callback` or `record` does not change the estimate, and the batch size does not change it either when the same probes are used. Estimates on 0 x 0 operators are 0.",
	["inputs", "configurations", "histories"], "every reporting mode, batch size, operator and seed",
	"The tests look at the returned value only, in one reporting mode each.",
	"trace.py diagonal.py estimators.py", "result bookkeeping @ src/primate/trace.py:hutch; result bookkeeping @ src/primate/trace.py:xtrace; result bookkeeping @ src/primate/diagonal.py:diag; result record @ src/primate/estimators.py:EstimatorResult",
	"callback arguments; returned result object",
	"callback event log compared with the logged probes; paired runs",
	"Every callback event is compared with the state recomputed from the probes logged so far; modes are compared pairwise on the same seed.",
)
prop(
	"C04", "hutchpp computes the Hutch++ estimate of the vectors it sampled",
	"With sketch vectors S and residual vectors G drawn from its sampler, `hutchpp` returns tr(Q'AQ) plus the mean of g'(I-QQ')A(I-QQ')g over the columns of G, where Q is an orthonormal basis of the range of AS; `mode='full'` and `mode='reduced'` agree. It is exact whenever AS spans the range of A. It uses the operator only through products with these blocks, and works for every size n >= 1, number of vectors m, storage format and for matrix functions.",
	["inputs", "configurations"], "every symmetric operator, m, mode, sampler and seed",
	"The tests compare a few seeds with the true trace within tolerance, where a wrong residual weight or projection is invisible.",
	"trace.py random.py", "sketch, deflation and residual terms @ src/primate/trace.py:hutchpp",
	"returned estimate and result; blocks handed to the operator; vectors drawn",
	"event-logging sampler/operator with a dense reference computation",
	"Reference estimate recomputed from the logged vectors; rank-deficient sketches judged only where they capture the range.",
)
prop(
	"C05", "xtrace computes the exchangeable leave-one-out estimate of its vectors",
	"`xtrace` returns the average over i of the leave-one-out estimates tr(Q_i'AQ_i) + c_i w_i'(I-Q_iQ_i')A(I-Q_iQ_i')w_i, where w_1..w_m are the vectors it sampled, Q_i is an orthonormal basis of A applied to all of them but w_i, and c_i is 1 except for `pdf='sphere'`, where it rescales the projected vector to squared length n-m+1. This holds for every batch size (batches only change when it is evaluated); with `pdf='sphere'` the estimate is exact once m = n. The individual estimates, in order, are what the result's estimator averages (and records when asked).",
	["inputs", "configurations", "histories"], "every symmetric operator whose sketch has full column rank, sampler, number of samples and batch size",
	"The tests compare one value per matrix with the true trace within tolerance; the incremental QR and inverse updates across batches are never compared with a fresh computation.",
	"trace.py linalg.py", "incremental QR and inverse @ src/primate/trace.py:xtrace; leave-one-out formula @ src/primate/trace.py:_xtrace; inverse update @ src/primate/linalg.py:update_trinv",
	"returned estimate; recorded values; vectors drawn and blocks handed to the operator",
	"event-logging sampler/operator with a leave-one-out QR reference",
	"Every leave-one-out estimate recomputed by a fresh QR; sketches with condition number above 1e6 are not compared; rank-deficient sketches and n = 1 are listed findings.",
)
prop(
	"C06", "diag returns the running ratio estimate of the diagonal",
	"After probes v_1..v_k, the running estimate of `diag` is the elementwise ratio sum v_i*(A v_i) / sum v_i*v_i over exactly the probes it drew; the samples its estimator accumulates (and records when asked) are these running ratios, one per probe in order, and the value it returns is the estimator's mean of them. It is exact for diagonal operators with any number of probes, and the last ratio is exact after a complete orthogonal design. The result is the same in every reporting mode.",
	["inputs", "configurations"], "every symmetric operator, sampler, number of probes, storage format and reporting mode",
	"The tests compare one matrix and seed within statistical tolerance.",
	"diagonal.py estimators.py", "ratio accumulation @ src/primate/diagonal.py:diag",
	"returned diagonal; recorded values; probes",
	"event-logging sampler/operator with an offline reference",
	"Every running ratio recomputed from the logged probes.",
)
prop(
	"C07", "xdiag computes the leave-one-out diagonal estimate of its vectors",
	"`xdiag` returns the average over i of diag(Q_iQ_i'A) + w_i*((I-Q_iQ_i')A w_i), where w_1..w_m are the m/2 (rounded up, at most n) vectors it sampled and Q_i is an orthonormal basis of A applied to all of them but w_i; for symmetric and general square matrices alike. Each vector costs one product with A and one with its transpose.",
	["inputs", "configurations"], "every square matrix whose sketch has full column rank, m, sampler and seed",
	"The tests compare one matrix within tolerance; the leave-one-out terms vanish on average and are not visible there.",
	"diagonal.py", "leave-one-out diagonal formula @ src/primate/diagonal.py:xdiag",
	"returned diagonal; blocks handed to the operator",
	"operator event log with a leave-one-out QR reference",
	"Every leave-one-out diagonal recomputed by a fresh QR; ill-conditioned sketches are not compared and singular ones are a listed finding.",
)
prop(
	"C08", "lanczos returns the Jacobi matrix and basis of the Krylov space",
	"For a symmetric operator, starting vector v and degree k, `lanczos` returns the diagonal and off-diagonal (length k and k-1, off-diagonal non-negative) of the tridiagonal T with AQ = QT + a rank-one term in the last column, where Q has first column v/|v| and orthonormal columns spanning the Krylov space (with enough re-orthogonalisation), so that T = Q'AQ and the moments v'A^jv/v'v agree for j < 2k. When the Krylov space is exhausted after j < k steps (off-diagonal below sqrt(n)*rtol) it stops there and the remaining entries are zero. It applies the operator once per step, `return_basis`, `sparse_mat` and caller-provided buffers give the same coefficients, and v0 or the seed determines the start.",
	["inputs", "configurations"], "every symmetric operator, starting vector, degree, re-orthogonalisation level, precision and output form",
	"The tests check eigenvalues of T on a few random matrices with full re-orthogonalisation; early termination, partial re-orthogonalisation with cyclic buffers and single precision are barely touched.",
	"lanczos.py _lanczos.cpp include/lanczos.h", "three-term recurrence @ src/primate/include/lanczos.h:lanczos_recurrence; re-orthogonalisation @ src/primate/include/lanczos.h:orth_vector; parameter handling @ src/primate/lanczos.py:lanczos",
	"returned coefficients and basis; products with the operator",
	"residual, orthogonality and moment monitors on every returned decomposition",
	"Relations are checked to rounding; orthogonality in proportion to the conditioning that Lanczos theory allows.",
)
prop(
	"C09", "Results depend on the operator, not on how it is represented",
	"`lanczos`, `rayleigh_ritz`, `MatrixFunction`, `hutch`, `hutchpp`, `diag` and `xtrace` give the same result (up to rounding) for the same matrix held as a dense array of any layout or byte order, any SciPy sparse format, a LinearOperator, or any object with `shape` and `matvec` (and a dtype or none), whatever kind of array its products answer with (strided, reversed, column, other float type or byte order, reused), even if the operator keeps or overwrites the array it is handed. The `dtype` argument changes the working precision only, not the result beyond it. The starting vector may be any array-like of the right length.",
	["inputs", "configurations"], "every representation of every symmetric matrix, in both precisions",
	"The tests use dense float64 arrays and one sparse or LinearOperator case each.",
	"_lanczos.cpp include/pylinop.h include/eigen_operators.h lanczos.py operators.py", "overload dispatch @ src/primate/_lanczos.cpp:_lanczos_wrapper; callback operator @ src/primate/include/pylinop.h:PyLinearOperator.matvec; dtype handling @ src/primate/lanczos.py:lanczos",
	"returned coefficients, values and estimates for pairs of representations",
	"metamorphic monitor over paired executions",
	"Every representation is compared with the dense float64 run of the same matrix.",
)
prop(
	"C10", "rayleigh_ritz returns the Ritz pairs of the Krylov space it expanded",
	"`rayleigh_ritz(A, deg)` returns the ascending-order eigenvalues (any order for method 'tqli') of A projected on the degree-`deg` Krylov space of its starting vector, hence eigenvalues of A at full degree and values within the range of the spectrum otherwise; when the Krylov space is exhausted early only the eigenvalues found are returned, without padding. With `return_eigenvectors` and `return_basis`, the vectors are orthonormal, the basis spans the space, and their product gives Ritz vectors of A for these values. `method` and `maxiter` select the tridiagonal solver and do not change the values.",
	["inputs", "configurations"], "every symmetric operator, degree, starting vector, solver and combination of outputs",
	"The tests compare full-degree spectra of a few matrices.",
	"lanczos.py tridiag.py tqli.py", "truncation and solver selection @ src/primate/lanczos.py:rayleigh_ritz",
	"returned values, vectors and basis",
	"residual and interlacing monitors against a dense eigensolver",
	"Compared with dense eigenvalues and projected matrices; full re-orthogonalisation unless the degree is small.",
)
prop(
	"C11", "MatrixFunction products are f(A)v where Krylov theory says they are exact",
	"`MatrixFunction(A, f, deg) @ v` equals U f(L) U'v, where A = ULU', whenever f is a polynomial of degree below `deg`, `deg` reaches the dimension of the Krylov space of v, or v lies in an invariant subspace of dimension at most `deg` (f is then evaluated at that subspace's eigenvalues only). It is homogeneous in v, maps 0 to 0, and products with a matrix are the products with its columns, shaped like NumPy's. With full re-orthogonalisation this does not depend on how the spectrum is spread, and the precision of the result is that of the matrix function (double by default) whatever number type the operator and the vector are stored in. Functions given by name act as the function given directly.",
	["inputs", "configurations"], "every symmetric operator, spectral function, degree, vector and precision",
	"The tests cover identity and a few named functions on one or two matrices at full degree.",
	"operators.py tridiag.py special.py", "f(T) in the Krylov basis @ src/primate/operators.py:MatrixFunction._matvec; block products @ src/primate/operators.py:MatrixFunction._matmat; workspace @ src/primate/operators.py:MatrixFunction._krylov",
	"returned products",
	"reference-model monitor (dense eigendecomposition)",
	"Compared with the dense reference in every case where theory gives exactness.",
)
prop(
	"C12", "MatrixFunction.quad is Gauss quadrature of v'f(A)v and drives stochastic traces",
	"`MatrixFunction.quad(v)` returns v'f(A)v exactly (up to rounding) for polynomials f of degree at most 2*deg-1 and for every f once `deg` reaches the dimension of the Krylov space of v, including functions that are huge where v has a tiny component; for a block it returns one value per column, zero for zero columns, and it is non-negative for non-negative f. The constant function 1 gives v'v. Trace estimators given a matrix function use these forms, so over a full isotropic design they return tr f(A).",
	["inputs", "configurations"], "every symmetric operator, function, degree, block and re-orthogonalisation level",
	"The tests compare a few smooth functions at large degree within tolerance; quadrature degree and block handling are not pinned.",
	"operators.py integrate.py trace.py", "Lanczos quadrature @ src/primate/operators.py:MatrixFunction.quad; Gauss rule @ src/primate/integrate.py:quadrature",
	"returned forms and traces",
	"reference-model monitor (dense eigendecomposition, Chebyshev polynomials)",
	"Compared with dense references wherever Gauss quadrature is exact.",
)
prop(
	"C13", "A matrix function's answers do not depend on what it was asked before",
	"Whatever sequence of products, quadratic forms, block operations, changes of its function, rejected inputs and failing operators preceded it, an operation on a MatrixFunction returns what a freshly built one returns. Vectors of the wrong length are rejected with an exception and leave it unchanged. An exception raised by the wrapped operator in the middle of an expansion reaches the caller and does not affect later answers.",
	["histories", "fault_sequences"], "every finite history of operations and operator failures on one object",
	"The tests create a new object for each value and never inject failures; reused workspaces are the state that leaks.",
	"operators.py", "workspace reset @ src/primate/operators.py:MatrixFunction._krylov; shared buffers @ src/primate/operators.py:MatrixFunction.quad",
	"answers of each operation in the history",
	"differential history monitor (reused object against fresh objects) with fault injection",
	"Every answer in a random history compared with a fresh object's.",
)
prop(
	"C14", "Every tridiagonal eigensolver returns the eigenpairs of its matrix",
	"For every real symmetric tridiagonal matrix, given by its diagonal and its subdiagonal of length n-1 or of length n with a leading zero, `eigh_tridiag` and `eigvalsh_tridiag` with method 'mrrr', 'tqli' or 'auto' return its eigenvalues (each with its multiplicity, in ascending order for 'mrrr') and orthonormal eigenvectors matching them, to working accuracy. This includes zero, split, graded, clustered, 1 x 1 and integer, float32 and strided input, and does not modify the input. 'auto' still answers when LAPACK reports failure.",
	["inputs", "configurations", "fault_sequences"], "every symmetric tridiagonal matrix up to the size bound, scale and precision; LAPACK failing or not",
	"The tests solve one random matrix per method; the fallback is never taken, nor zero or split matrices.",
	"tridiag.py tqli.py", "solver selection and fallback @ src/primate/tridiag.py:_eigh_tridiag; implicit QL @ src/primate/tqli.py:tqli",
	"returned values and vectors",
	"reference-model monitor with injected LAPACK failures",
	"Normwise backward error and orthogonality on every run.",
)
prop(
	"C15", "A degree-k quadrature rule is the Gauss rule of the leading Jacobi matrix",
	"`quadrature(d, e, deg=k)` returns the nodes (eigenvalues of the leading k x k Jacobi matrix) and weights (squared first eigenvector components, small ones included) of the k-point Gauss rule: the weights are non-negative, sum to 1 and the rule integrates x^j to the (1,1) entry of J^j for j < 2k. 'gw' and 'fttr' agree (the latter for Jacobi matrices with positive off-diagonal, as far as its forward recurrence is stable), whatever the scale, sign or shift of the spectrum, every tridiagonal solver gives the same rule, `deg` defaults to and is capped at n, and output arrays of length k receive the rule. Unknown methods, a subdiagonal of the wrong form and outputs of the wrong length are rejected.",
	["inputs", "configurations"], "every Jacobi matrix up to the size bound, degree, method, solver and output form",
	"The tests compare the two methods on one matrix at full degree.",
	"integrate.py fttr.py tridiag.py", "rule construction @ src/primate/integrate.py:quadrature; three-term recurrence weights @ src/primate/fttr.py:fttr",
	"returned nodes and weights; output arrays",
	"moment monitor and reference Gauss rule",
	"Moments and reference rule on every run; the forward recurrence is judged with a tolerance that follows its growth.",
)
prop(
	"C16", "Native code stays inside its arrays for every size, parameter and operator",
	"Whatever sizes, degrees, re-orthogonalisation levels, precisions, storage formats and tolerances are passed to the public functions, and whatever a user's operator answers (too short, too long, empty, strided, wrong type, not an array, an exception, a re-entrant call), no native code reads or writes outside its arrays, uses memory after it was freed or executes undefined behaviour. Malformed shapes and answers end in an exception instead of a result, and the memory around caller-owned buffers is untouched: buffers of the right shape, precision and layout receive the result, others are rejected. Afterwards the library still works.",
	["inputs", "configurations", "fault_sequences"], "every combination of sizes and parameters (up to 40) and every way an operator can misbehave",
	"Out-of-bounds accesses do not fail tests unless they crash; the tests use well-behaved square operators only.",
	"_lanczos.cpp include/lanczos.h include/pylinop.h include/eigen_operators.h tqli.py fttr.py lanczos.py operators.py", "answer validation @ src/primate/include/pylinop.h:PyLinearOperator.matvec; argument validation @ src/primate/lanczos.py:lanczos; bounds of the recurrence @ src/primate/include/lanczos.h:lanczos_recurrence; bounds of QL and FTTR @ src/primate/tqli.py:tqli",
	"AddressSanitizer/UBSan reports; canaries; exceptions",
	"AddressSanitizer + UndefinedBehaviorSanitizer builds of the extensions under hostile workloads, canaries",
	"No report on the executions driven; red-zone tools miss non-adjacent overflows, and system libraries are not instrumented.",
)
prop(
	"C17", "The header-only C++ interface keeps its contract for every operator",
	"The shipped C++ headers compile stand-alone against Eigen; their Lanczos recurrence calls the operator once per step on vectors inside its own buffers, touches exactly deg+1 coefficients and n x ncv basis entries, and yields the Jacobi coefficients of the operator, stopping early on invariant subspaces. The orthogonalisation routine removes exactly the components along the requested (cyclic, forward or backward) columns of non-negligible norm and changes nothing else. The dense, sparse and affine operators compute Ax, A'x, AX and (A+tB)x, and the parameter functions return triples within their documented ranges.",
	["inputs", "configurations", "programs"], "every size, degree, buffer width, precision and operator type within the headers' preconditions",
	"There is no C++ test at all; the Python tests reach one instantiation with generous buffers.",
	"include/lanczos.h include/eigen_operators.h include/linear_operator.h include/omp_support.h", "recurrence @ src/primate/include/lanczos.h:lanczos_recurrence; projections @ src/primate/include/lanczos.h:orth_vector; operators @ src/primate/include/eigen_operators.h:DenseEigenLinearOperator; parameters @ src/primate/include/lanczos.h:param_orth",
	"values in exactly sized heap buffers; pointers handed to the operator; sanitizer reports",
	"sanitized C++ harness with pointer-checking operators and dense references",
	"A program compiled against the current headers with ASan/UBSan; buffers have exactly the documented sizes.",
)
prop(
	"C18", "Streaming means and covariances do not depend on how samples are batched",
	"After any sequence of updates, the streaming mean and covariance equal the mean and covariance (with the requested degrees of freedom, 1 by default) of all samples given so far, however they were cut into scalars, lists, vectors or matrices, to the accuracy of a numerically stable algorithm even with offsets 1e8 times the spread. They are undefined (NaN mean, infinite covariance) only while there are no, respectively too few, samples. Batches of the wrong width are rejected, and these as well as empty batches leave the state unchanged.",
	["histories", "inputs"], "every finite sequence of samples and every way to cut it into batches",
	"The tests compare one normal sample in a few batchings; cancellation and rejected batches are not covered.",
	"stats.py", "batched Welford update @ src/primate/stats.py:Covariance.update; running mean @ src/primate/stats.py:Mean.update",
	"mean and covariance after every update",
	"differential history monitor (two-pass recomputation of every prefix)",
	"Every prefix of random histories recomputed in two passes.",
)
prop(
	"C19", "Estimators are the estimates of exactly the samples they were given",
	"A MeanEstimator's estimate is the mean of its samples (scalar or vector), its `delta` the change of the estimate in the last update, its length the number of samples, and its recorded values (if asked to record) the samples in order; later changes of the caller's arrays (samples, coefficients or expected values) or of returned arrays do not affect it, nor do other estimators or empty batches. A ControlVariableEstimator's estimate is mean(x) - alpha'(mean(c) - E c) with the given coefficients or, if none were given, with the least-squares regression coefficients of x on the controls, and is finite for constant or collinear controls; its delta, length and recorded values follow the same rules. A number of coefficients other than the number of controls is rejected.",
	["histories", "inputs"], "every history of updates on one or several estimators, with every batching and number of controls",
	"The tests feed one sample stream to each estimator and look at the final estimate.",
	"estimators.py stats.py", "mean update @ src/primate/estimators.py:MeanEstimator.update; control variates @ src/primate/estimators.py:ControlVariableEstimator.update",
	"estimate, delta, length and values after every update",
	"differential history monitor with aliasing probes",
	"Every state in random histories recomputed from the samples.",
)
prop(
	"C20", "Each stopping criterion decides by its rule and has no side effects",
	"The count criterion is met iff the estimator has at least `count` samples; the tolerance criterion iff the `ord`-norm of the estimator's last change is strictly below `atol` or strictly below `rtol` times the norm of its estimate (never without samples); the knee criterion iff at least 3 values are recorded and, with y the cumulated absolute changes of the running means of the recorded values, scaled to [0,1], and D its difference to the straight line from 0 to 1, the last D lies below max D - S/(len(y)-1) (or the means no longer move at all). Criteria work on any object with the estimator interface, can be asked repeatedly without changing it or themselves, and their messages never fail. Names select the criterion of that name with the keyword arguments it knows, and unknown names are rejected.",
	["histories", "inputs", "configurations"], "every estimator history and every criterion parameter",
	"The tests ask each criterion once or twice on one stream.",
	"estimators.py typing.py", "count @ src/primate/estimators.py:CountCriterion; tolerance @ src/primate/estimators.py:ToleranceCriterion; knee @ src/primate/estimators.py:KneeCriterion; factory @ src/primate/estimators.py:convergence_criterion",
	"decisions and messages after every update; state before and after asking",
	"reference-model monitor at thresholds placed around the recomputed error",
	"Decisions are compared with the rule at thresholds just above and just below the recomputed error; ties within 1e-9 are not judged.",
)
prop(
	"C21", "Criteria combined with &, | and ~ decide as the Boolean combination",
	"A criterion built from others with `&`, `|` and `~`, nested to any depth and sharing parts, is met exactly when the Boolean combination of its parts' own decisions is true on the same estimator. Combining criteria does not change the parts, which remain usable on their own and in other combinations. Estimators accept composite criteria and stop exactly when they are first met.",
	["inputs", "histories", "configurations"], "every expression over criteria and every estimator history",
	"One test combines two count criteria.",
	"estimators.py trace.py", "composition operators @ src/primate/estimators.py:ConvergenceCriterion",
	"decisions of composites and of their parts; stopping points",
	"truth-table monitor over random expression trees",
	"Every composite evaluated after every batch against the truth table of its leaves.",
)
prop(
	"C22", "Confidence intervals and the confidence criterion have the stated coverage",
	"`confidence_interval(a, c)` is the symmetric interval mean +/- q*s/sqrt(n) with sample standard deviation s (n-1 degrees of freedom) and q the two-sided c-quantile of Student's t with n-1 degrees of freedom or, with sdist='normal', of the normal distribution; invalid confidences and distributions are rejected. The confidence criterion is met iff there are at least 3 samples and the half-width of that interval (t quantile below 30 samples, normal quantile from 30 on) is at most `atol` or the standard error s/sqrt(n) relative to the estimate is at most `rtol`. The intervals therefore cover the mean of normal data with probability c.",
	["inputs", "histories", "configurations"], "every sample, confidence level and estimator history",
	"The tests check one sample per distribution; coverage and the switch of quantiles are not tested.",
	"stats.py estimators.py", "interval @ src/primate/stats.py:confidence_interval; margin and relative error @ src/primate/estimators.py:ConfidenceCriterion",
	"interval ends; criterion decisions after every update; empirical coverage",
	"reference-model monitor and empirical coverage monitor",
	"Compared with textbook quantiles from the t and normal distributions; coverage within five standard errors.",
)
prop(
	"C23", "Random vectors are isotropic: right support, zero mean, identity covariance",
	"`isotropic` fills exactly the requested shape (an integer n, Python's or NumPy's, means one column of length n, or the given output array in place) with independent columns: entries +1 or -1 with equal probability for 'rademacher'/'signs', standard normal ones for 'normal'/'gaussian', and uniform vectors of length exactly sqrt(n) for 'sphere'. Each has zero mean and identity covariance, in both precisions, and successive draws from one sampler are independent. Unknown distributions are rejected.",
	["inputs", "configurations"], "every distribution and alias, shape, output layout, precision and seed",
	"The tests check shape and norm on one size per distribution.",
	"random.py", "samplers @ src/primate/random.py:_rademacher_inplace; sphere @ src/primate/random.py:_sphere_inplace; front end @ src/primate/random.py:isotropic",
	"entries of every draw",
	"support monitor on every entry and exact-moment statistical monitors",
	"Support checked entry by entry; moments at 6.5 standard errors.",
)
prop(
	"C24", "The threaded sampler fills every column once, whatever the scheduling",
	"`Isotropic(size, pdf, seed, threads).fill()` returns only after every column of `values` has been filled, exactly once, with fresh entries of the requested distribution, for any number of threads (also more than columns) and any order in which they finish, and raises if a worker failed; all columns are mutually independent. With a given seed and number of threads the values are determined, for the first and every later fill. Samplers used concurrently do not affect each other.",
	["schedules", "configurations", "inputs"], "every thread count, column count, distribution and interleaving of the worker threads",
	"The only test compares run times and is flaky; scheduling is never controlled.",
	"random.py", "column partition and join @ src/primate/random.py:Isotropic.fill; generator spawning @ src/primate/random.py:Isotropic.__init__",
	"memory ranges each worker fills; values after every fill",
	"schedule perturbation (delaying generators) with range and determinism monitors",
	"Interleavings are perturbed by injected delays, not enumerated; finishing orders are counted in the evidence.",
)
prop(
	"C25", "Random symmetric matrices have exactly the requested spectrum",
	"`symmetric(n, ew=...)` and `haar(n, ew=...)` return symmetric n x n matrices whose eigenvalues are the given ones (with `pd=True` clipped below at machine epsilon), or random ones in [-1, 1] ([0, 1] with `pd=True`) if none are given. haar's eigenvectors follow the uniform distribution on the orthogonal group. The seed determines the matrix, and invalid sizes or distributions are rejected.",
	["inputs", "configurations"], "every size, spectrum, option and seed",
	"The tests check symmetry and one spectrum.",
	"random.py", "spectrum assembly @ src/primate/random.py:symmetric; Haar sampling @ src/primate/random.py:haar",
	"entries and recomputed eigenvalues",
	"reference-model monitor (dense eigenvalues) and distribution test",
	"Eigenvalues recomputed for every matrix; the Haar law tested statistically.",
)
prop(
	"C26", "Built-in spectral functions compute what their names and parameters say",
	"On scalars and arrays of any shape, of floats or integers, entry by entry: 'identity' is x, 'abs' |x|, 'sqrt' the root, 'log' the logarithm of max(x, machine epsilon), 'inv' 1/x, 'exp' e^(t x), 'smoothstep' the cubic Hermite step from 0 at a to 1 at b, 'softsign' the odd polynomial x*sum_{j<=q} (1-x^2)^j prod_{i<=j} (2i-1)/(2i) of x clipped to [-1,1], and 'numrank' 0 where |x| < threshold and 1 elsewhere; parameters given by keyword take effect, directly or by name. Callables pass through unchanged, unknown names are rejected. A matrix function built from a name and parameters uses this function.",
	["inputs", "configurations"], "every function, parameter value, argument form and point",
	"The tests evaluate a few functions at default parameters.",
	"special.py operators.py", "named functions @ src/primate/special.py:param_callable; soft sign @ src/primate/special.py:softsign; smooth step @ src/primate/special.py:smoothstep; step @ src/primate/special.py:step",
	"function values; matrix function products",
	"reference-model monitor with exact rational arithmetic",
	"Values compared with independent formulas, including edges and their floating-point neighbours.",
)
prop(
	"C27", "Toeplitz operators multiply like the matrix; normalize_unit maps into [-1,1]",
	"`Toeplitz(c, r) @ x` equals the product with the Toeplitz matrix of first column c and first row r (the symmetric one if r is omitted) for vectors, columns and blocks, in the operator's precision, whatever was multiplied before; vectors of the wrong length are rejected. `normalize_unit(A)` is the affine image (A + alpha I)/(2 alpha) of A with alpha its eigenvalue of largest magnitude, so its spectrum lies in [-1, 1].",
	["inputs", "histories"], "every pair of generators, vector, block and sequence of products; every symmetric operator with n >= 3",
	"The tests multiply one symmetric Toeplitz operator once.",
	"operators.py", "circulant embedding @ src/primate/operators.py:Toeplitz; affine map @ src/primate/operators.py:normalize_unit",
	"products",
	"reference-model monitor (scipy.linalg.toeplitz, dense eigenvalues)",
	"Every product compared with the dense one.",
)
prop(
	"C28", "update_trinv extends a triangular inverse by one column",
	"Given the inverse of an upper-triangular matrix (of floats or integers) and the next column (with its diagonal entry), `update_trinv` returns the inverse of the extended matrix, to working accuracy, for every size including from an empty matrix, and for the column as vector, column or row. Chains of updates give the inverse of the whole matrix, the arguments are not modified, and mismatched shapes or types are rejected.",
	["inputs", "histories"], "every chain of updates from every starting block",
	"One test updates a random well-conditioned matrix.",
	"linalg.py", "inverse update @ src/primate/linalg.py:update_trinv",
	"returned matrices along the chain",
	"residual monitor over update chains, exact integer chains",
	"Residuals relative to |B||X|; integer unit-triangular chains are exact.",
)
prop(
	"C29", "No call modifies its arguments, the global random state or process settings",
	"No public function or method modifies its array, sparse or operator arguments (other than documented output arrays), and read-only arguments work. No call, seeded or not, changes NumPy's or Python's global random state, error handling, print options, warning filters or environment. Returned arrays are the caller's own (only the `identity` function returns its argument): writing to them changes nothing in the library or in the arguments.",
	["histories", "inputs"], "every sequence of calls over every public entry point with every container",
	"No test looks at arguments or global state after a call.",
	"trace.py diagonal.py lanczos.py operators.py integrate.py tridiag.py estimators.py random.py stats.py linalg.py special.py plotting.py", "copies before in-place work @ src/primate/tridiag.py:eigh_tridiag; starting vector copy @ src/primate/lanczos.py:lanczos; private generators @ src/primate/random.py:isotropic; scoped print options @ src/primate/estimators.py:arr_summary",
	"byte snapshots of arguments and global state around each call",
	"snapshot monitor around every call",
	"Byte-for-byte comparison of arguments and process-wide state around random call histories.",
)
prop(
	"C30", "A seed determines the result, whatever else runs",
	"For every function taking `seed`, the same seed gives the same result whatever was called before, however the global random generators were seeded, and whatever other threads compute with the library at the same time; different seeds give different random numbers. A generator passed as seed is used and advanced, so that consecutive calls on it differ and replaying it reproduces them. Functions without randomness are deterministic.",
	["histories", "schedules", "inputs"], "every seeded entry point, history of other calls and interleaving with other threads",
	"No test repeats a call after other calls, or from threads.",
	"trace.py diagonal.py lanczos.py random.py operators.py", "generator from seed @ src/primate/trace.py:hutch; generator from seed @ src/primate/random.py:isotropic; seeded start @ src/primate/lanczos.py:lanczos",
	"results of repeated, interleaved and concurrent calls",
	"differential history and thread-interleaving monitor",
	"Repeated, interposed and concurrent runs are compared; thread schedules are the operating system's plus injected delays.",
)
prop(
	"C31", "Figures show the data they were given",
	"The sequence figure shows the non-missing samples at indices 1.. and their running means, with the true value as a line if given; the error figure shows |mu - running mean| (relative to mu if `absolute=False`) for a known mean, otherwise the 95% confidence half-width (or relative standard error) after each sample, plus the threshold if given; the spectral figure shows the eigenvalues, in whatever order they are given, and their cumulative distribution, and the polynomial figure the Jacobi polynomials of degree 0..deg-1. Estimators, lists and arrays of samples are treated alike, and plotting does not change them. Extra figure options are passed on.",
	["inputs", "configurations"], "every sample sequence, container and option",
	"There is no test of the plotting functions.",
	"plotting.py", "sequence figure @ src/primate/plotting.py:figure_sequence; error figure @ src/primate/plotting.py:figure_error; spectrum figure @ src/primate/plotting.py:figure_csm; polynomials @ src/primate/plotting.py:figure_jacobi",
	"coordinates handed to the plotting library",
	"recording stand-in for the plotting library with a reference computation",
	"bokeh is not installed here: a recording stand-in receives the calls; rendering is not looked at.",
)
prop(
	"C32", "A failure of user code reaches the caller unchanged and leaves all usable",
	"When user code called by the library (an operator's product, a sampler, a callback, a stopping criterion or a spectral function) raises any exception at any of its calls, that same exception reaches the caller, at once: no user code is called again. Repeating the call with the same objects then succeeds with the result of an undisturbed run. Operators and arrays handed over are released once dropped.",
	["fault_sequences", "crash_points"], "every call of user code in every entry point, and every exception type including BaseException",
	"No test makes user code fail.",
	"trace.py diagonal.py lanczos.py operators.py _lanczos.cpp include/pylinop.h", "exception propagation through native frames @ src/primate/include/pylinop.h:PyLinearOperator.matvec; sampling loops @ src/primate/trace.py:hutch; workspace reset @ src/primate/operators.py:MatrixFunction._krylov",
	"exceptions, calls after the fault, results of repeated runs, weak references",
	"exhaustive single-fault injection over the calls of user code, with rerun comparison",
	"A fault is injected at every call of user code of the clean run (up to 14 points per run, first and last included); operators, configurations and exception types are sampled.",
	"fault_enumeration",
)

prop(
	"C33", "Calls keep nothing: no memory, references, threads or files are left behind",
	"Once a call has returned and its result is dropped, nothing that was handed to it (operators, arrays, samplers, callbacks, criteria, functions) or made by it stays alive, also after calls that failed; apart from the criterion and the estimator a result refers to, this holds while the result is alive. However often an entry point is called, neither the Python nor the native heap keeps growing, and no thread or open file remains; a dropped threaded sampler ends its threads. Without recording, the memory of `hutch` and `diag` does not grow with the number of samples (hutch_quad forms and mean estimators alike) and the operator never gets more than `batch` vectors at once. A Lanczos expansion without basis does not hold degree-many vectors; a Toeplitz product and the forward recurrence use memory linear in their size.",
	["inputs", "configurations", "histories"], "every entry point, number of calls and samples, option and failing operator",
	"Tests end after one call; nothing measures memory, references or threads.",
	"trace.py diagonal.py estimators.py random.py operators.py lanczos.py integrate.py _lanczos.cpp include/pylinop.h include/lanczos.h", "streaming estimators @ src/primate/estimators.py:MeanEstimator.update; sampling loop @ src/primate/trace.py:hutch; ring buffer @ src/primate/lanczos.py:lanczos; thread pool @ src/primate/random.py:Isotropic; operator wrapper @ src/primate/include/pylinop.h:PyLinearOperator",
	"allocated Python blocks; bytes in use of the native heap; peak of traced memory; weak references; threads and open files of the process; widths of blocks given to the operator",
	"leak monitor over both heaps, weak references, threads and files, online heap samples during long runs",
	"Growth is judged per window of repeated calls (up to 360), peaks by comparison of a small and a large configuration; leaks below one block or 32 bytes per call are not seen.",
)

prop(
	"C34", "Estimates are centred on the exact trace or diagonal, with the spread of theory",
	"Over independent seeds, and for every isotropic distribution, `hutch`, `hutchpp` and `xtrace` are centred on tr(A), `diag` (signs: in the mean; other distributions: as often above as below) and `xdiag` on diag(A), given at most as many samples as half the dimension for the last two exchangeable estimators; A may be a matrix, an operator or a MatrixFunction of full degree, so that log-determinants, numerical ranks, Schatten norms, eigencounts, Estrada indices, heat traces and the like are estimated without bias. The variance of `hutch` with N samples is the variance of v'Av divided by N (off-diagonal entries only for signs), and that of `diag` with signs that of its running means. `hutchpp` is exact if the rank of A is at most the number of its sketch vectors. Stopping at confidence c with tolerance atol leaves an error above atol in a share of runs near 1 - c at most.",
	["inputs", "configurations", "histories"], "every operator, function, isotropic distribution, number of samples, batch and seed",
	"Tests compare one or two seeded runs with a loose tolerance; bias and a wrong spread only show over many runs.",
	"trace.py diagonal.py random.py operators.py estimators.py special.py", "sampling loop @ src/primate/trace.py:hutch; deflation @ src/primate/trace.py:hutchpp; leave-one-out @ src/primate/trace.py:xtrace; ratio estimate @ src/primate/diagonal.py:diag; spectral quadrature @ src/primate/operators.py:MatrixFunction.quad",
	"estimates returned by 60 to 1500 runs per operator",
	"statistical monitor over recorded runs: z-tests of mean and variance against the exact value, sign tests, coverage counts, with confirmation on fresh runs",
	"Biases below about 0.2 (thorough) to 0.5 standard deviations of one estimate are not seen.",
)

with open(VERIF / "properties.jsonl", "w") as f:
	for p in P:
		f.write(
			json.dumps(
				dict(
					id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
					why_tests_cant=p["why"],
					anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None),
				)
			)
			+ "\n"
		)
checks = [
	dict(
		property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
		evidence_file=f"evidence/{p['id']}.json", technique="runtime monitoring: " + p["technique"], level=p["level"], level_note=p["note"],
	)
	for p in P
]
(VERIF / "MANIFEST.json").write_text(
	json.dumps(
		dict(
			version=1, setup_cmd="python3 vf/build.py", checks=checks, not_applicable=[],
			notes="Every check rebuilds an overlay of /repo/src/primate in /verif/build (keyed by source hash), runs random workloads under monitors in 6 worker processes, and writes evidence/<id>.json. No hooks are needed in /repo.",
		),
		indent=1,
	)
	+ "\n"
)
print(len(P), "properties")
