"""Writes properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
S = "src/kalmankit/standard.py"; X = "src/kalmankit/extended.py"; Ut = "src/kalmankit/utils.py"; V = "src/kalmankit/_version.py"
STD_PRE = ("shapes that agree, symmetric covariances and invertible innovation covariances")
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=obs or [], hook_needed=None)))

p("C01", "Linear prediction computes A x + B u and A P A' + Q",
  "For every transition matrix, control matrix, control vector, mean, covariance and process noise of matching shapes, the standard filter's predict step returns exactly the mean A x + B u and the covariance A P A' + Q (in real arithmetic), with the shapes of the given mean and covariance. No size, value or number of dimensions changes the formula, and predicting does not record anything on the filter.",
  ["inputs"], "all state sizes n >= 1 and control sizes l >= 1, all real matrices and vectors, vector means (n,) and 1x1 means, scalar or matrix process noise",
  "The tests evaluate one 2x2 covariance and compare three fixed data sets; the formula must hold for all sizes and all values.",
  [S], [("KalmanFilter.predict", S)], obs=["return value of KalmanFilter.predict"])
p("C02", "Leaving the control out means no control, for every input dtype",
  "When the control matrix or the control input is left out (None, at construction, in a whole run, or in a single predict call) or is entirely NaN for a step, that step's prediction is exactly the pure transition A x and nothing of the control enters. This holds in filtering and smoothing and for integer as well as floating-point observations and transition matrices. In every other case, including zero or only partly NaN controls, the full term B u is added.",
  ["inputs", "configurations"], "all combinations of given/omitted control matrix and control input, all NaN patterns per time step, integer and float inputs, all sizes and lengths",
  "Tests omit the control only with floating-point data and never pass None to predict, mix NaN and real control rows, or use integer observations.",
  [S, Ut], [("KalmanFilter.predict skip of NaN controls", S), ("check_none_and_broadcast / is_nan_all", Ut)], obs=["KalmanFilter.predict/filter/smooth results"])
p("C03", "Linear measurement update applies the Kalman gain formula",
  "For every observation matrix, prior mean, symmetric prior covariance, observation and symmetric noise covariance for which S = H P H' + R is invertible, the standard filter's update step uses the gain K = P H' S^-1 and returns exactly the mean x + K (z - H x) and the covariance (I - K H) P (in real arithmetic), with the shapes of the prior. The gain it logs is that K.",
  ["inputs"], "all n, m >= 1 (including m > n), all real data with invertible S, scalar and vector observations",
  "The tests never call update directly; a handful of trajectories with n, m <= 2 and well scaled numbers exercise it.",
  [S], [("KalmanFilter.update", S)], obs=["return value of KalmanFilter.update", "kalman_gains"])
p("C04", "Filtering a series is the Kalman recursion at every time step",
  "Filtering any series of T observations with the standard filter returns floating-point arrays of T means and T covariances, where entry k is the measurement update, with observation k, of the prediction made from entry k-1 (from the initial mean and covariance for k = 0) using the parameters with time index k. This holds for every series length, every time step, time-varying parameters and all sizes.",
  ["inputs"], "all T >= 0, all k < T, all n, m, l >= 1, all time-varying parameters (" + STD_PRE + ")",
  "Tests run series of length 5 and 10; an error at other lengths, late steps or in how parameters are indexed in time is a statement over all T and k.",
  [S], [("KalmanFilter.filter loop", S), ("KalmanFilter.predict", S), ("KalmanFilter.update", S)],
  state=[("xk, Pk", "posterior carried from step to step", "KalmanFilter.filter"), ("states, errors", "estimates per step", "KalmanFilter.filter")], obs=["return value of KalmanFilter.filter"])
p("C05", "Smoothing a series is the Rauch-Tung-Striebel recursion at every step",
  "Smoothing any series of T >= 1 observations with the standard filter returns T means and covariances whose last entry equals the last filtered entry, and whose entry k < T-1 is x_k + G (x^s_{k+1} - x^-_{k+1}) and P_k + G (P^s_{k+1} - P^-_{k+1}) G', where x_k, P_k are the filtered entry, x^-, P^- its prediction with the parameters and control of time k+1, and G = P_k A_{k+1}' (P^-_{k+1})^-1. This holds for every length, step and size for which the predicted covariances are invertible.",
  ["inputs"], "all T >= 1, all k < T, all sizes, time-varying parameters and controls (" + STD_PRE + ", invertible predicted covariances)",
  "Tests smooth three fixed series of length 5 and 10 with n <= 2.",
  [S], [("KalmanFilter.smooth loop", S), ("KalmanFilter.filter", S), ("KalmanFilter.predict", S)],
  state=[("xk_smooth, Pk_smooth", "smoothed estimates, filled backwards", "KalmanFilter.smooth")], obs=["return value of KalmanFilter.smooth"])
p("C06", "Extended prediction applies f and its Jacobian at the given estimate",
  "For every transition function f, Jacobian function, mean, control, covariance and process noise, the extended filter's predict step returns the mean f(x, u) and the covariance F P F' + Q with F the Jacobian function's value at exactly (x, u), the estimate and control it was given. The user's functions receive mean and control as two positional arguments, and nothing is recorded on the filter.",
  ["inputs", "programs"], "all functions f and Jacobians, all n >= 1, all real data",
  "Tests use constant-Jacobian linear f only, so the point at which the Jacobian is taken is never observed.",
  [X], [("ExtendedKalmanFilter.predict", X)], obs=["return value of ExtendedKalmanFilter.predict", "calls of f, jacobian_A"])
p("C07", "Extended update linearises the observation function at the prior mean",
  "For every observation function h, Jacobian function, prior mean, symmetric prior covariance, observation and symmetric noise covariance with S = H P H' + R invertible, where H is the Jacobian function's value at exactly the prior mean, the extended filter's update step uses K = P H' S^-1 and returns x + K (z - h(x)) and (I - K H) P. The residual uses h itself, never its linearisation, and the gain it logs is that K.",
  ["inputs", "programs"], "all functions h and Jacobians, all n, m >= 1, all real data with invertible S",
  "All tests use linear h with constant Jacobian, for which h(x) and H x coincide and the linearisation point is invisible.",
  [X], [("ExtendedKalmanFilter.update", X)], obs=["return value of ExtendedKalmanFilter.update", "calls of h, jacobian_H", "kalman_gains"])
p("C08", "Extended filtering is the EKF recursion at every time step",
  "Filtering any series of T observations with the extended filter returns floating-point arrays of T means and T covariances, where entry k is the extended measurement update, with observation k, of the extended prediction made from entry k-1 (from the initial mean and covariance for k = 0) using control, process noise and observation noise of time index k. This holds for every length, step, size and choice of the model functions.",
  ["inputs", "programs"], "all T >= 0, all k < T, all f, h and Jacobians, all sizes (" + STD_PRE + ")",
  "Tests filter one scalar linear series of length 10; nonlinear models and other lengths are not exercised.",
  [X], [("ExtendedKalmanFilter.filter loop", X), ("ExtendedKalmanFilter.predict", X), ("ExtendedKalmanFilter.update", X)],
  state=[("xk, Pk", "posterior carried from step to step", "ExtendedKalmanFilter.filter")], obs=["return value of ExtendedKalmanFilter.filter"])
p("C09", "Extended smoothing is the extended RTS recursion at every step",
  "Smoothing any series of T >= 1 observations with the extended filter returns T means and covariances whose last entry equals the last filtered entry and whose entry k < T-1 is x_k + G (x^s_{k+1} - f(x_k, u_{k+1})) and P_k + G (P^s_{k+1} - P^-) G', with x_k, P_k the filtered entry, F the Jacobian of f at (x_k, u_{k+1}), P^- = F P_k F' + Q_{k+1} and G = P_k F' (P^-)^-1. In particular the Jacobian is taken at the filtered mean, never at a smoothed or predicted one.",
  ["inputs", "programs"], "all T >= 1, all k < T, all model functions, all sizes (" + STD_PRE + ", invertible predicted covariances)",
  "The only smoothing test uses a linear model, where the Jacobian does not depend on the point at which it is taken.",
  [X], [("ExtendedKalmanFilter.smooth loop", X), ("ExtendedKalmanFilter.filter", X), ("ExtendedKalmanFilter.predict", X)],
  state=[("xk_smooth, Pk_smooth", "smoothed estimates, filled backwards", "ExtendedKalmanFilter.smooth")], obs=["return value of ExtendedKalmanFilter.smooth"])
p("C10", "On a linear model the extended filter agrees with the standard filter",
  "Whenever the model functions of the extended filter are linear, f(x, u_k) = A_k x + B_k u_k and h(x) = H x with their true Jacobians, extended filtering and extended smoothing return the same means and covariances as the standard filter built from A, B, H and the same initial estimate and noises, at every step of every series.",
  ["inputs", "programs"], "all linear models (A_k, B_k may depend on k through the control), all T, n, m, l, all data (" + STD_PRE + ")",
  "Tests compare each filter with a third implementation on one series each and never with each other.",
  [S, X], [("both filter/smooth pairs", S + ", " + X)], obs=["filter and smooth results of both classes"])
p("C11", "Calls leave inputs and model untouched and can be repeated",
  "No call of predict, update, filter or smooth of either filter changes any array it was given, any model parameter or initial estimate, or any array returned by the user's model functions, and no array that filter or smooth returns shares memory with one of those or with the result of another call; results already returned never change. Apart from the gain log the filter's state is the same after every call, even one that ends with an exception, so after any history of calls on this or other filter objects, repeating a call with the same arguments returns the same result as on a fresh filter.",
  ["inputs", "histories"], "all sequences of public calls on any number of filter objects, all inputs",
  "Every test makes one call on a fresh object and never looks at its inputs afterwards.",
  [S, X, Ut], [("fresh arrays in predict/update/filter/smooth", S + ", " + X)],
  state=[("xk, Pk, A, B, H, Q, R, f, h, jacobian_A, jacobian_H", "model parameters, constant after construction", S + ", " + X)], obs=["arguments, attributes and results across calls"])
p("C12", "The gain log holds one gain per measurement update, in time order",
  "A new filter (either kind) has an empty gain log; each measurement update appends exactly one entry, the gain it used, and nothing else ever changes the log. So filtering or smoothing T observations appends exactly the T gains P_k^- H_k' S_k^-1 in time order, after whatever earlier calls had logged.",
  ["inputs", "histories"], "all call histories, all T, both filter kinds, all data with invertible innovation covariances",
  "No test reads the gain log, although an example plots it per time step.",
  [S, X], [("kalman_gains.append in update", S + ", " + X)], state=[("kalman_gains", "list of gains", S + ", " + X)], obs=["kalman_gains"])
p("C13", "Filtered covariances are valid and updates never add uncertainty",
  "With symmetric positive semidefinite initial covariance and process noises and positive definite observation noises, every predicted and every filtered covariance (standard and extended) is symmetric positive semidefinite, and each filtered covariance is at most the predicted one it came from in the positive semidefinite order, so no direction of the state becomes more uncertain by observing. This holds at every step of every series (in real arithmetic).",
  ["inputs", "programs"], "all T, k, n, m; all PSD initial covariances and process noises, PD observation noises; all models and Jacobians",
  "Tests compare a few covariance values; definiteness for all inputs and the ordering are never examined.",
  [S, X], [("covariance prediction and (I - K H) P", S + ", " + X)], obs=["covariances returned by predict, update and filter"])
p("C14", "Smoothed covariances are valid and never exceed the filtered ones",
  "With symmetric positive semidefinite initial covariance and process noises, positive definite observation noises and invertible predicted covariances, every smoothed covariance (standard and extended) is symmetric positive semidefinite and at most the filtered covariance of the same step in the positive semidefinite order. So looking at later data never makes an estimate less certain, at any step of any series (in real arithmetic).",
  ["inputs", "programs"], "all T >= 1, k < T, n, m; all PSD/PD noises with invertible predicted covariances; all models",
  "Tests compare fixed smoothed covariances with another implementation and do not examine the ordering.",
  [S, X], [("backward covariance recursion in smooth", S + ", " + X)], obs=["covariances returned by smooth and filter"])
p("C15", "The reported covariance is the true error covariance and is minimal",
  "For a linear model with the stated noise covariances (positive semidefinite prior, positive definite observation noise), the covariance returned by the standard filter's update equals the actual error covariance (I - K H) P (I - K H)' + K R K' of the returned estimate, and no other linear combination of prediction and observation has a smaller one in the positive semidefinite order. The returned mean is the unique minimiser of the weighted least squares cost of prior and observation whenever the prior is positive definite.",
  ["inputs"], "all n, m, all PSD priors, PD observation noises, all competing gains L, all candidate states",
  "Optimality quantifies over all competing estimators; tests compare numbers only.",
  [S], [("optimal gain in KalmanFilter.update", S)], obs=["mean, covariance and gain of KalmanFilter.update"])
p("C16", "Estimates at time k depend only on data up to k; batch equals online",
  "For either filter, filtering a prefix of a series returns exactly the first entries of filtering the whole series, whatever the later observations, controls and parameters are. Filtering in one call returns the same estimates as calling predict and update by hand for each step, and a series may be split at any point and continued by a new filter started from the last mean and covariance.",
  ["inputs", "histories"], "all T, all split points t <= T, all data and models (" + STD_PRE + ")",
  "No test runs a prefix, a continuation or the step functions by hand.",
  [S, X], [("forward loop carrying only mean and covariance", S + ", " + X)], obs=["filter results on series, prefixes and continuations"])
p("C17", "In the standard filter covariances and gains do not depend on the data",
  "For the standard filter, the filtered and smoothed covariances and the logged gains are a function of the model matrices, noise covariances and initial covariance alone: two runs that differ only in observations, controls and initial mean return the same covariances and gains, for every length and size.",
  ["inputs"], "all pairs of observation series, control series (including none) and initial means, all models (" + STD_PRE + ")",
  "A property of pairs of runs; no test runs the same model on two data sets.",
  [S], [("covariance recursion in predict/update/smooth", S)], obs=["errors returned by filter and smooth", "kalman_gains"])
p("C18", "Scalar shorthand shapes give the same estimates as explicit matrices",
  "For one-dimensional observations, giving observations and observation noise as plain series of numbers (shape (T,)) yields the same estimates as giving them as (T,1) and (T,1,1), in filtering and smoothing of both filters. For one-dimensional states, so does giving process noise as a series of numbers and the initial mean as a 1x1 matrix.",
  ["inputs", "configurations"], "all T, all n, all shorthand/explicit combinations documented in the examples and tests, all data",
  "Each test uses a single shape convention and fixed numbers.",
  [S, X], [("np.atleast_1d residual and broadcasting in update, assignment into the result arrays", S + ", " + X)], obs=["filter and smooth results"])
p("C19", "Integer-typed inputs give the same estimates as floating-point inputs",
  "Model matrices, noises, initial estimate, observations and controls may be given as integer arrays: filter and smooth of both filters return the same floating-point estimates as for the same numbers given as floats, with no rounding, truncation or placeholder value entering, with or without controls, as long as the integer arithmetic this involves stays within the range of the integer types given.",
  ["inputs", "configurations"], "every choice of integer/float dtype per input, all T, sizes and integer values small enough that no integer product overflows",
  "Tests with integer initial values never use integer observations or transitions, and never omit the control there.",
  [S, X, Ut], [("float result arrays and NaN placeholders", S + ", " + X + ", " + Ut)], obs=["filter and smooth results"])
p("C20", "NaN helpers: placeholder only for None, all-NaN test is exact",
  "The placeholder helper returns the very same array when it is given one, and for None a new floating-point array of the reference's shape with every element NaN, whatever the reference's dtype; it never modifies the reference. The all-NaN test is true exactly when every element of the array is NaN, for every shape and content.",
  ["inputs"], "all arrays of any shape and integer or float dtype",
  "Tests check four tiny arrays and one reference array, float only; the placeholder test compares against NaN in a way that cannot fail on shape.",
  [Ut], [("check_none_and_broadcast, is_nan_all", Ut)], obs=["return values of kalmankit.utils functions"])
p("C21", "Construction keeps the given model, and filter objects are independent",
  "Constructing either filter keeps every given parameter (unlike an omitted control matrix) unchanged as the attribute of the same name, takes the state size from the initial mean unless the standard filter is told one explicitly, and starts with an empty gain log of its own. No operation on one filter object is visible on another, two filters share no array they made for themselves (such as the placeholder for an omitted control matrix), and construction modifies no argument.",
  ["inputs", "histories"], "all parameters, explicit or default state size, any number of objects and interleaved calls",
  "Tests build one object each with default state size and never look at its attributes.",
  [S, X], [("__init__ of both classes", S + ", " + X)], state=[("kalman_gains", "per-object list", S + ", " + X)], obs=["attributes after construction and after calls on other objects"])
p("C22", "Version strings follow the documented grammar for every repository state",
  "For every tag, distance, commit id, branch and dirty flag handed to render, the version it returns for each rendering style is exactly the documented pattern for that style, for example TAG[+DISTANCE.gHEX[.dirty]] for pep440 and 0+untagged.DISTANCE.gHEX[.dirty] without a tag. States with an error give version 'unknown' for every style and never raise; otherwise an unknown style is rejected with an exception, and commit id, dirty flag and date are passed on unchanged.",
  ["inputs"], "all names git allows for tag (or none) and branch, all strings for commit id and date; all distances >= 0; all styles; for pep440-pre, tags with at most one .post segment, followed by digits or nothing",
  "No test touches version computation.",
  [V], [("render and render_* functions", V)], obs=["return value of render"])
p("C23", "The version pieces are exactly what git reports about the source tree",
  "For every tag name (hyphens, '-dirty' and other odd contents included), tag prefix, distance, commit id, branch, commit date and dirty flag that git reports for the source tree, git_pieces_from_vcs returns exactly these: the tag without its prefix, the distance as an integer, describe's abbreviated and the full commit id, the branch (on a detached commit: master if it contains the commit, else the first listed branch that does, or None), the date in ISO form (the last line git prints) and the dirty flag. Without a matching tag the tag is None, the distance is the number of commits and the abbreviated id the first seven digits. Descriptions of any other form and tags without the prefix are reported as an error; where git, the repository or any of these answers is missing it raises NotThisMethod; the caller's GIT_DIR has no influence.",
  ["inputs", "configurations"], "all answers of git: any ref names git allows, any numbers of commits and branches, detached or not, any tag prefix, each git command failing",
  "No test touches version computation, and no test suite can enumerate tag and branch names.",
  [V], [("git_pieces_from_vcs", V)], obs=["return value of and exceptions from git_pieces_from_vcs"])
p("C24", "The version comes from the first source that has one, never from a failure",
  "get_versions asks the expanded archive keywords, then git (tag prefix v, rendered in style pep440, in the root of the source tree the module, symbolic links resolved, lies in), then the names of that root and the two directories above it, nearest first, where a directory named kalmankit-VERSION gives VERSION. It returns the answer of the first source that applies, unchanged (an error state of git included). When none applies, or the module has no file, it returns version '0+unknown' with an error text; it never raises because a source does not apply.",
  ["inputs", "configurations"], "all combinations of applicable and inapplicable sources, all answers they give, all paths and directory names",
  "No test touches version computation.",
  [V], [("get_versions, versions_from_parentdir, unexpanded keywords in git_versions_from_keywords", V)], obs=["return value of get_versions and versions_from_parentdir"])
p("C25", "In an exported archive the version is the least version tag of the commit",
  "Given the keywords git expands in an archive, git_versions_from_keywords considers the tags of the commit (the refs marked 'tag: ', or, where none is so marked, every ref name): the version is the least in string order of those that start with the tag prefix followed by a digit, without the prefix, with the full commit id, dirty False, no error and, if a date is given, its last line in ISO form. If no tag is of that form the version is '0+unknown' with an error text and the full commit id. Missing or unexpanded keywords raise NotThisMethod; nothing else does.",
  ["inputs"], "all sets of refs of any size, names and tag prefixes of printable ASCII characters without spaces, commas and parentheses, all commit ids and dates as git prints them",
  "No test touches version computation, and the choice is over arbitrary sets of names.",
  [V], [("git_versions_from_keywords", V)], obs=["return value of and exceptions from git_versions_from_keywords"])
p("C26", "A command is run exactly as given, and no failure of it raises",
  "run_command starts the first of the candidate commands that exists, directly (no shell), with exactly the given arguments, working directory and environment, and tries no later one. It returns the standard output, decoded and without surrounding white space, with exit code 0; for any other exit code (None, code); if no candidate exists, or the first that does cannot be started, (None, None). None of these outcomes raises. Error output never enters the result and is not shown when hide_stderr is set.",
  ["inputs", "fault_sequences"], "any number of candidates, existing or not; all arguments, directories, environments; every OS error on starting; all exit codes; all UTF-8 outputs of any size (POSIX)",
  "No test touches version computation, and failures to start a process are outside what a unit test reaches.",
  [V], [("run_command", V)], obs=["return value of run_command, the processes it starts"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write(
    "".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
