"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

SM = "smt/surrogate_models/"
# ------------------------------------------------------------------ disk
p("C01", "A cache directory never changes what a trained model predicts",
  "A surrogate trained with a cache directory answers every prediction request (values, input derivatives, output derivatives) exactly as the same surrogate trained with the same options and data and no cache directory. This holds whatever other models, options, bounds or data sets were trained into that directory before, by this or an earlier process, and whether training found a stored result or not.",
  ["histories", "configurations"],
  "every sequence of trainings (RBF, IDW, LS, QP, RMTB, RMTC; options, training data, bounds, instances, process restarts, printing on/off) that share one cache directory",
  "The tests train into a cache directory at most twice with one data set and compare nothing but values; key collisions and state that a hit fails to restore need particular histories of different trainings.",
  ["smt/utils/caching.py", SM+"rbf.py", SM+"idw.py", SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py", SM+"ls.py", SM+"qp.py"],
  [("key derived from the content of the model and its inputs", "smt/utils/caching.py cached_operation/_caching_checksum"),
   ("restoring the trained state from the stored outputs", "the _train of each cached surrogate")],
  ["predict_values", "predict_derivatives", "predict_output_derivatives"],
  [("cache files", "one pickled outputs dictionary per key", "options data_dir")])
p("C02", "Damaged or half-written cache files never yield a wrong model",
  "After a crash at any instant while a model is being trained into a cache directory, after any loss, truncation, tearing or corruption of the stored files, and after read errors, training with that directory still yields the model that training without it would yield. Leftovers of a crash never make later trainings fail.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point among the file operations of a training, every subset and torn prefix of unsynchronised writes surviving it, bit flips, zeroed blocks, truncation and read errors on stored files, followed by any further trainings",
  "No test interrupts a write or damages a cache file.",
  ["smt/utils/caching.py", SM+"rbf.py", SM+"rmts.py", SM+"idw.py"],
  [("falling back to the computation when the stored result cannot be loaded", "smt/utils/caching.py cached_operation")],
  ["train", "predict_values", "predict_derivatives", "predict_output_derivatives"])
p("C03", "Without a cache directory, training and prediction touch no file",
  "When no cache directory is configured, training and predicting neither read nor write nor create any file, so no file that happens to lie in the working directory can influence a model and a failing or full disk cannot disturb it.",
  ["histories", "configurations", "fault_sequences"],
  "every surrogate, option set and history of operations without cache directory; every content of the working directory; every disk fault",
  "Tests run in one clean working directory and never look at file accesses.",
  ["smt/utils/caching.py", SM+"rbf.py", SM+"idw.py", SM+"rmts.py"],
  [("cache directory None means: do not load or save", "smt/utils/caching.py cached_operation docstring")],
  ["file accesses made while a model trains or predicts"])
p("C04", "Disk errors while caching never lose or falsify a training",
  "When the cache directory is full, read-only, missing or returns I/O errors, a training either completes with the right model or raises; in both cases the same instance can be trained and used correctly afterwards, and no partial result is ever taken for a complete one by a later training.",
  ["fault_sequences", "histories"],
  "every placement of open, read, write (short or failing), flush, close and rename errors in the file operations of a sequence of trainings",
  "No test injects an I/O error.",
  ["smt/utils/caching.py", SM+"rbf.py", SM+"rmts.py", SM+"idw.py"],
  [("store after the computation", "smt/utils/caching.py cached_operation")],
  ["train", "predict_values", "predict_derivatives"])
p("C05", "Trainers sharing one cache directory never disturb each other",
  "Several instances trained at the same time into one cache directory, by threads or processes whose file operations interleave in any way, each end up with the model they would have had alone.",
  ["schedules", "histories"],
  "every interleaving of the file operations and statements of concurrent trainings with equal or different data and options, including readers that see a file while another writer is still producing it",
  "No test trains concurrently.",
  ["smt/utils/caching.py", SM+"rbf.py", SM+"rmts.py", SM+"idw.py"],
  [("content-derived file names and loading that falls back to computing", "smt/utils/caching.py")],
  ["train", "predict_values"])
# ------------------------------------------------------------------ histories
p("H01", "Retraining an instance equals training a fresh one",
  "Whatever an instance was used for before (training data set, replaced or updated, trained, queried, options changed, number of points or dimensions changed), training it on its current options and training data gives the same predictions as a fresh instance with those options and data. Training and predicting never alter an option the user has set.",
  ["histories", "configurations"],
  "every surrogate model and every history of set_training_values / update_training_values / set_training_derivatives / option changes / train / predict on one instance",
  "Nearly every test trains an instance once; stale state only shows in particular sequences.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"rbf.py", SM+"idw.py", SM+"ls.py", SM+"qp.py", SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py", SM+"genn.py", SM+"gekpls.py", SM+"kpls.py", SM+"kplsk.py", SM+"krg_mgp.py", "smt/applications/mfk.py", "smt/applications/mfkpls.py", "smt/applications/mfkplsk.py", "smt/applications/moe.py", "smt/applications/vfm.py", "smt/applications/mixed_integer.py"],
  [("training recomputes every attribute prediction reads", "the _train of each surrogate"),
   ("replacing the stored training data", "set_training_values, update_training_values")],
  ["predict_values", "predict_derivatives", "predict_variances", "options"])
p("H02", "A failed or interrupted training leaves the instance usable",
  "When a training is cut short at any point by a user interrupt, a memory failure or a numerical failure, the error is reported to the caller, and once the cause is gone training the same instance again gives the same model as a fresh instance. The interruption leaves nothing changed outside the instance.",
  ["fault_sequences", "histories", "configurations"],
  "every surrogate, every point inside a training at which an exception can arrive, and every further history",
  "No test injects an exception into a training.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"rmts.py", SM+"rbf.py", SM+"genn.py", "smt/applications/mfk.py", "smt/utils/caching.py", "smt/utils/linear_solvers.py", "smt/utils/line_search.py", "smt/utils/printer.py"],
  [("training starts from the options and training data only", "the _train of each surrogate")],
  ["train", "predict_values", "options", "training data"])
p("H03", "Predicting never changes the model",
  "A prediction request gives the same answer however many other requests, of whatever kind, size, order, grouping of points, successful, rejected or interrupted, were made since the model was trained; points are answered independently of the other points in the request.",
  ["histories", "fault_sequences", "configurations"],
  "every surrogate and every history of prediction requests on one trained instance, with interrupts inside predictions",
  "Tests make one or two requests per model.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"idw.py", SM+"rmts.py", SM+"rbf.py", SM+"genn.py", "smt/applications/mfk.py", "smt/applications/moe.py", "smt/applications/vfm.py", "smt/src/idw/idw.cpp", "smt/src/rbf/rbf.cpp"],
  [("predictions work on copies of the points and of the model's arrays", "predict_values and the _predict methods")],
  ["predict_values", "predict_derivatives", "predict_variances", "predict_variance_derivatives", "predict_output_derivatives"])
p("H04", "The caller's data and the model's data never alias",
  "Training, predicting, sampling and optimising never modify an array, list or dictionary the caller passed in, and a caller that later overwrites what it passed in, or what it received, does not change the model.",
  ["histories", "configurations"],
  "every public operation of every surrogate, sampling method and application, and every moment at which the caller overwrites its buffers",
  "Tests pass fresh arrays and never look at them again.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"genn.py", "smt/sampling_methods/full_factorial.py", "smt/sampling_methods/lhs.py", "smt/applications/vfm.py", "smt/applications/ego.py", "smt/applications/mixed_integer.py"],
  [("copying on the way in", "set_training_values, predict_values")],
  ["arguments after each call", "predictions after the caller overwrote its buffers"])
p("H05", "A rejected request leaves the model exactly as it was",
  "A request the library rejects (inconsistent training data, unknown or invalid option, wrong dimension, unsupported operation, update before set) raises and changes nothing: the following requests and trainings behave as if it had never been made.",
  ["histories", "inputs"],
  "every surrogate and every history in which invalid requests are interleaved with valid ones",
  "Tests check that some invalid requests raise, not what the instance does afterwards.",
  [SM+"surrogate_model.py", "smt/utils/options_dictionary.py", "smt/utils/checks.py", "smt/applications/mixed_integer.py"],
  [("validation before storing", "set_training_values, update_training_values, set_training_derivatives, options")],
  ["train", "predict_values", "options"])
p("H06", "Every model that training returns is a valid model of its data",
  "A training of valid data with valid options which nothing disturbs returns (only numerical failures it reports as such and stated refusals excepted), after any history. Whenever training returns normally, after any history and any faults before it, the model reproduces its training values (interpolating models: to numerical accuracy), its values (Kriging, co-Kriging, RBF, IDW, LS, QP) and variances (Kriging, co-Kriging of any number of levels) are those its definition states for the data, the options and the hyperparameters found, a regularized spline lies in its spline space and minimises its stated objective as far as its solver reaches (with a direct solver: to numerical accuracy), its derivatives agree with differences of its values, and its variances are finite, not negative and vanish at noise-free training points.",
  ["histories", "fault_sequences", "configurations"],
  "every surrogate, every history of trainings on one instance, with interrupted and failing trainings in between",
  "Tests check a handful of fresh models on smooth functions, mostly with loose error bounds.",
  [SM+"krg_based.py", SM+"rbf.py", SM+"idw.py", SM+"rmts.py", SM+"rmtb.py", SM+"rmtc.py", SM+"ls.py", SM+"qp.py", "smt/utils/kriging_utils.py", "smt/applications/mfk.py", "smt/src/rbf/rbf.cpp", "smt/src/idw/idw.cpp", "smt/src/rmts/rmtc.cpp", "smt/src/rmts/rmtb.cpp"],
  [("the numerical definition of each surrogate", "the _train and _predict methods")],
  ["predict_values", "predict_derivatives", "predict_variances", "predict_variance_derivatives"])
# ------------------------------------------------------------------ threads, clock
p("H07", "A copied or restored model is the same model, and one of its own",
  "A deep copy of a model, or what is restored from a saved (pickled) one in the same or another process, answers every request as the original does at that moment, trained or not, and holds the same options. From then on the two lead separate lives: training (interrupted, failed or complete), new data, options, requests or the destruction of one change no answer and no option of the other, and training either equals training a fresh instance of its own history. Copying changes nothing in the original; where a compiled part refuses to be copied the copying raises.",
  ["histories", "fault_sequences", "configurations"],
  "every surrogate and composite model, every history, every moment of copying and every later history of original and copies",
  "No test copies or restores a model and goes on with both.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"ls.py", SM+"qp.py", SM+"genn.py", SM+"kpls.py", SM+"gekpls.py", SM+"krg_mgp.py", "smt/applications/mfk.py", "smt/applications/mfkpls.py", "smt/applications/moe.py", "smt/applications/vfm.py", "smt/utils/options_dictionary.py"],
  [("model state held by the instance alone", "attributes set by __init__ and _train of each surrogate")],
  ["predict_values", "predict_derivatives", "predict_variances", "options", "copy.deepcopy and pickle of a model"])
p("T01", "Concurrent predictions on one model equal sequential ones",
  "Several threads that query one trained model at the same time, each with its own points, obtain exactly the answers they would obtain one after the other, and none of them fails.",
  ["schedules", "configurations"],
  "every surrogate supporting prediction, every interleaving of the statements of concurrent prediction calls",
  "No test uses threads.",
  [SM+"surrogate_model.py", SM+"krg_based.py", SM+"idw.py", SM+"rbf.py", SM+"rmts.py", "smt/utils/printer.py", "smt/applications/mfk.py", "smt/applications/moe.py"],
  [("predictions keep their intermediate results in local variables", "the _predict methods")],
  ["predict_values", "predict_derivatives", "predict_variances"])
p("T02", "Independent instances never influence one another",
  "Instances that share no object (surrogates, sampling generators, optimizers) can be created, configured, trained and queried in any interleaving, in one or several threads, and each behaves as if it were alone.",
  ["schedules", "histories", "configurations"],
  "every mix of instances of all surrogates and sampling methods with different options and data, every interleaving of their operations and of the statements inside them",
  "No test interleaves the operations of two instances.",
  [SM+"surrogate_model.py", SM+"krg_based.py", "smt/utils/options_dictionary.py", "smt/utils/linear_solvers.py", "smt/sampling_methods/sampling_method.py", "smt/applications/mfk.py", "smt/applications/ego.py"],
  [("all state lives in the instance", "constructors and option declarations")],
  ["predictions, samples and options of each instance"])
p("T03", "The clock and the printing switches never influence results",
  "Whatever the system clock does (stalls, jumps forwards or backwards, differs between calls) and whichever printing options are on, training, predicting, sampling and optimising succeed or fail alike and return the same results; with printing off globally nothing is printed by the model's progress reports.",
  ["schedules", "configurations", "fault_sequences"],
  "every clock behaviour and every combination of the printing options over every surrogate and history",
  "Tests run with the real clock and printing off.",
  ["smt/utils/printer.py", SM+"surrogate_model.py", SM+"krg_based.py", "smt/applications/mfk.py", "smt/utils/linear_solvers.py"],
  [("times are only recorded and printed", "smt/utils/printer.py _timed_context")],
  ["predictions", "standard output"])
# ------------------------------------------------------------------ kriging numerical faults
p("K01", "Kriging survives transient numerical failures of its inner steps",
  "When factorizations or optimizer runs inside a Kriging training (KRG, KPLS, KPLSK, GEKPLS, MGP, MFK) fail transiently, training ends after a bounded number of attempts and either raises an error or returns a complete, consistent model whose hyperparameters lie within the configured bounds. It never returns silently without a usable model, and a later undisturbed training is not affected.",
  ["fault_sequences", "configurations"],
  "every pattern of failing factorizations, failing or early-stopped optimizer runs inside a training, over all Kriging variants and options",
  "Factorization failures depend on data and hyperparameters that the tests never reach.",
  [SM+"krg_based.py", "smt/applications/mfk.py"],
  [("retry loop keeping the best point seen so far", "krg_based.py _optimize_hyperparam"),
   ("failed factorization scored as minus infinity", "krg_based.py _reduced_likelihood_function")],
  ["train", "predict_values", "optimal_theta"])
# ------------------------------------------------------------------ randomness
p("R01", "Seeded sampling is reproducible and isolated",
  "A sampling method given an integer random state returns the same points every time a fresh generator with that state is asked for the same sequence of requests, whatever other random numbers are drawn meanwhile from the process-wide generator or by other samplers, in this or another thread, and whatever other requests failed; it never advances the process-wide generator. A deterministic sampling method always returns the same points.",
  ["schedules", "histories"],
  "every criterion, dimension, size and random state; every interleaving with other users of random numbers",
  "Tests compare two back-to-back calls for one or two criteria.",
  ["smt/sampling_methods/lhs.py", "smt/sampling_methods/sampling_method.py", "smt/sampling_methods/full_factorial.py"],
  [("private random state", "smt/sampling_methods/lhs.py _initialize and _compute")],
  ["sampling output", "state of the process-wide generator"])
p("R02", "Samples keep their structure under every random stream",
  "Whatever numbers the random source delivers, every sampling method returns the requested number of points of the requested dimension inside the bounds; Latin hypercubes have exactly one point in each of the equal slices of each variable, under every criterion, full factorials are grids without repetition, and nested Latin hypercubes contain every point of a higher-fidelity level in the level below it.",
  ["fault_sequences", "configurations", "histories"],
  "every random stream including extreme, repeated and constant draws, every criterion, dimension and size, and every history of expansions",
  "Tests use the default streams and check a few shapes.",
  ["smt/sampling_methods/lhs.py", "smt/sampling_methods/random.py", "smt/sampling_methods/full_factorial.py", "smt/sampling_methods/sampling_method.py", "smt/applications/mfk.py"],
  [("stratified construction followed by exchanges inside one column", "smt/sampling_methods/lhs.py")],
  ["sampling output"])
p("R03", "A seeded neural network training is reproducible",
  "Two gradient-enhanced neural networks with the same options, the same explicit seed and the same data give the same model, whatever the process-wide random state and other users of random numbers.",
  ["schedules", "histories"],
  "every state of the process-wide random generator before and every interleaving of draws during training",
  "Tests only train once with the state the test set.",
  [SM+"genn.py", "smt/utils/neural_net/model.py", "smt/utils/neural_net/data.py"],
  [("seed option", "genn.py, neural_net/data.py random_mini_batches")],
  ["predict_values"])
# ------------------------------------------------------------------ EGO
p("E01", "The optimizer's record is a true account of the evaluations",
  "When an optimization returns, its history lists the starting points and then every point evaluated, in order and inside the bounds, each paired with the value the objective gave at that very point; the objective was evaluated exactly at the points listed, the budget of iterations is respected, and the reported optimum is the best entry of the history.",
  ["histories", "configurations", "schedules"],
  "every objective, criterion, batch size, virtual-point strategy, starting design, surrogate and evaluator timing or order",
  "Tests check that a few analytic functions reach their optimum within loose bounds.",
  ["smt/applications/ego.py"],
  [("appending each evaluated batch to the record", "smt/applications/ego.py optimize")],
  ["return value of optimize", "calls of the objective and of the evaluator"])
p("E02", "Optimizer under failures: an error, never a falsified record",
  "When the objective, the evaluator, the surrogate training or the inner search for the next point fails at any step, the optimization either raises that failure or goes on and returns a record in which every value was measured at its own point; it stops within its budget, and the optimizer object can be used again afterwards with correct results.",
  ["fault_sequences", "histories", "configurations"],
  "every step at which the objective or evaluator raises, the inner optimizer reports failure or surrogate training fails, any number of times in a row",
  "No test lets a step of the optimization fail.",
  ["smt/applications/ego.py"],
  [("bounded retries of the inner search", "smt/applications/ego.py _find_best_point and optimize")],
  ["return value of optimize", "calls of the objective"])
p("E03", "Seeded optimization runs are repeatable",
  "With an explicit integer random state and the same objective, options and process-wide random state, an optimization evaluates the same points in the same order and returns the same result, however fast the evaluations are, in whichever order a parallel evaluator finishes them, and however often the process or the optimizer object ran before.",
  ["schedules", "histories", "configurations"],
  "every evaluator completion order and delay, every clock, every earlier use of the same objects",
  "Tests run each configuration once.",
  ["smt/applications/ego.py", "smt/sampling_methods/lhs.py", SM+"krg_based.py"],
  [("random_state option handed to the samplers", "smt/applications/ego.py")],
  ["points evaluated", "return value of optimize"])
p("M01", "Only feasible mixed-integer points reach the user and the models",
  "In every optimization or sampling over mixed variables, each point handed to the user's objective and each sampled or predicted point is feasible (integers are whole numbers within bounds, each categorical variable takes exactly one of its levels), and unfolding, rounding and folding points changes no feasible point.",
  ["histories", "configurations", "fault_sequences"],
  "every mix of variable types and bounds, every criterion and batch size, every random stream and every history of sampling, training, predicting and optimizing",
  "Tests use two fixed mixes and look at shapes or the final optimum.",
  ["smt/applications/mixed_integer.py", "smt/applications/ego.py"],
  [("casting after relaxation, folding before evaluation", "smt/applications/mixed_integer.py, smt/applications/ego.py")],
  ["points the objective receives", "sampling output", "points the inner surrogate receives"])
p("A01", "Ensembles and composite models stay consistent through their histories",
  "A mixture of experts, a variable-fidelity model and a multi-fidelity model give, after any history of training and retraining of themselves or of other models built from the same user-supplied settings, the combination of their parts their definition states: gating weights are probabilities, the best expert is the one with the smallest validation error, and composite predictions equal the stated combination of component predictions. Training one on valid data with clusters large enough for the enabled experts succeeds.",
  ["histories", "configurations"],
  "every mix of enabled experts, levels, bridge functions and options, and every history of reusing settings and instances",
  "Tests build each composite once from fresh settings.",
  ["smt/applications/moe.py", "smt/applications/vfm.py", "smt/applications/mfk.py"],
  [("selection by validation error", "smt/applications/moe.py _find_best_model"), ("bridge function", "smt/applications/vfm.py")],
  ["predict_values", "gating probabilities", "chosen experts"])
# ------------------------------------------------------------------ low level
p("L01", "Line searches end within bounded work whatever the objective does",
  "Every line search used by the regularized spline models stops after a bounded number of objective evaluations and raises, stays put, or takes a finite forward step at which the objective showed the promised sufficient decrease, whatever sequence of values (flat, non-finite, noisy, inconsistent with the slopes) the objective returns; on a convex objective that answers faithfully it makes progress along a descent direction. The starting point and direction are left alone, an error raised by the objective reaches the caller, and a later undisturbed training is not affected.",
  ["fault_sequences", "inputs"],
  "every sequence of objective values and slopes, including non-finite ones and exceptions at any evaluation",
  "Tests run the line searches on smooth convex functions only.",
  ["smt/utils/line_search.py", SM+"rmts.py"],
  [("shrinking or bracketing the step", "smt/utils/line_search.py")],
  ["number of objective evaluations", "returned step"])
p("L02", "Linear solvers return a solution or report failure, run after run",
  "For every solver choice, a solve that does not raise returns what its definition states: a direct solver the solution of the system last set up (to a small backward error), a stationary or multigrid solver the result of its stated iteration, a Krylov solver (started from zero, on a well-conditioned system) a vector of small residual. This holds whatever solves, set-ups, failed or interrupted runs the solver object went through before: it answers like a fresh solver object, and leaves the matrix, the right-hand side and the printer's switches as they were. An error inside a factorization, preconditioner or iteration reaches the caller, also from the training of a regularized spline, a later training of which equals that of a fresh instance; spline models trained with different direct solvers agree.",
  ["fault_sequences", "histories", "configurations"],
  "every solver class, every history of set-ups and solves on one solver object, faults in factorizations, preconditioners and iterations",
  "Tests solve one system per solver object and inject nothing.",
  ["smt/utils/linear_solvers.py", SM+"rmts.py"],
  [("residual-controlled iteration and factorization", "smt/utils/linear_solvers.py")],
  ["residual of the returned solution"])
p("S01", "Silencing output always restores it",
  "After a block run with output silenced (by either silencer of smt.utils.silence) has ended, normally, by an exception or by an interrupt inside it or on entry, or could not begin because the null device cannot be opened, standard output and error go again where they went before, whatever redirection was in force, nested and repeated use of new and reused silencers included; nothing written inside the block appears outside, and nothing written outside is lost. Silencers end in the reverse order of their beginning.",
  ["fault_sequences", "histories", "schedules"],
  "every nesting and sequence of silenced blocks, every redirection in force before, and every exception inside",
  "Tests use one silenced block, if any.",
  ["smt/utils/silence.py"],
  [("saving and restoring the file descriptors", "smt/utils/silence.py __enter__/__exit__")],
  ["text reaching standard output and error"])
p("P01", "Evaluating a test problem is repeatable and touches nothing",
  "The value or derivative a test problem returns at a point depends on the point, the derivative index and the options the problem was made with, and on nothing else: not on earlier, rejected (not an array, wrong dimension, bad derivative index) or interrupted evaluations, not on evaluations from other threads or of other problem objects, reduced problems sharing a base included, not on the other points of the request nor on their memory layout or type. The points passed in, the limits and earlier results stay as they are, an interrupt inside an evaluation reaches the caller, and a rejected request raises.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "every test problem, every history of evaluations, every interleaving of evaluations by several threads",
  "Tests evaluate each problem at one set of points, once, from one thread.",
  ["smt/problems/problem.py", "smt/problems/reduced_problem.py", "smt/problems/tensor_product.py", "smt/problems/torsion_vibration.py", "smt/problems/water_flow.py", "smt/problems/welded_beam.py", "smt/problems/wing_weight.py", "smt/problems/robot_arm.py"],
  [("evaluation from arguments and options alone", "the _evaluate of each problem")],
  ["what calling the problem returns", "points passed in"])
# ------------------------------------------------------------------ not simulation targets
p("N01", "Analytic derivatives of the test problems match their values",
  "For every problem of the problem library, the derivatives it returns agree with differences of the values it returns, at every point of its domain.",
  ["inputs", "configurations"], "every problem, dimension, derivative index and point",
  "Tests check a few random points per problem.",
  ["smt/problems/problem.py", "smt/problems/sphere.py", "smt/problems/branin.py", "smt/problems/robot_arm.py", "smt/problems/reduced_problem.py"],
  [("hand-written derivatives", "smt/problems")], ["problem call with and without derivative index"])
p("N02", "Correlation functions are valid kernels with right derivatives",
  "Every correlation function is one at distance zero, symmetric, positive semi-definite over any point set and its gradients and Hessians with respect to hyperparameters and inputs are those of its values.",
  ["inputs"], "every kernel, point set and hyperparameter vector", "Tests check a few points of some kernels.",
  ["smt/utils/kriging_utils.py"], [("closed-form kernels", "smt/utils/kriging_utils.py")], ["kernel values and derivatives"])
p("N03", "The likelihood optimum found is a good one",
  "Hyperparameters returned by a Kriging training have a likelihood no lower than that of the starting point, and gradients and Hessians of the likelihood are exact.",
  ["inputs", "configurations"], "every data set and kernel", "Tests compare gradients on two data sets.",
  [SM+"krg_based.py"], [("likelihood and derivatives", "krg_based.py")], ["reduced likelihood"])
p("N04", "Acquisition functions equal their closed forms",
  "Expected improvement, surrogate-based optimization and lower-confidence criteria equal their textbook definitions evaluated on the model's mean and variance.",
  ["inputs"], "every model and point", "Tests exercise them only through whole optimizations.",
  ["smt/applications/ego.py"], [("EI, SBO, LCB", "smt/applications/ego.py")], ["criterion values"])
p("N05", "Neural network gradients equal differences of the loss",
  "Back-propagated gradients of the neural network loss agree with finite differences of the loss for every architecture, activation and batch.",
  ["inputs", "configurations"], "every architecture, weights and batch", "Tests train small networks and check fit quality.",
  ["smt/utils/neural_net/bwd_prop.py", "smt/utils/neural_net/fwd_prop.py", "smt/utils/neural_net/loss.py"],
  [("back-propagation", "smt/utils/neural_net/bwd_prop.py")], ["gradients"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
