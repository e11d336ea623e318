"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every HMC iteration is one exact Metropolis-corrected leapfrog transition",
 "One run of an HMC sampling operation replaces the stored latents, independently for each chain, either by the end point of the n-leapfrog trajectory that starts from the stored values with the Gaussian momentum drawn in that iteration (variance = current mass, identity when mass is not adapted), or by the stored values themselves; the end point is taken with probability min(1, exp(H_start - H_end)), and all latents of a chain move or stay together. "
 "The outcome is a function of the stored values, the inputs fed and the random draws only: it does not depend on the order in which the runtime executes the operations of the graph.",
 ["schedules", "inputs", "histories", "configurations"],
 "every legal execution order of the sampling graph, every momentum / uniform draw, every number of latents, chain axes, data axes, leapfrog steps, step sizes, adaptation settings and iteration number",
 "tests/test_hmc.py runs one single-latent configuration without adaptation on one uncontrolled TensorFlow schedule and only checks marginal statistics; it never controls draws, orders, or several latents.",
 ["zhusuan/hmc.py"],
 [("leapfrog_integrator / HMC._leapfrog", "zhusuan/hmc.py"), ("get_acceptance_rate and the MH-test block of HMC.sample", "zhusuan/hmc.py")],
 [("latent variables", "current position of every chain", "the tf.Variables the user passes as `latent`")],
 ["latent variables before and after each run", "HMCInfo.init_momentum"])

prop("C02", "HMC statistics describe the iteration they are fetched with",
 "The statistics object returned with an HMC sampling operation, fetched together with it, reports that same iteration for every chain: `samples` equal the values left in the latent variables, `init_momentum` is the momentum the trajectory started from, `orig_hamiltonian`/`hamiltonian` are the energies at the start and at the proposed end point, `orig_log_prob` is the log joint at the start, `log_prob` is the log joint at the position that was kept, `acceptance_rate` is min(1, exp(orig_hamiltonian - hamiltonian)) (0 for an invalid proposal), and `updated_step_size` is the step size left for the next iteration. "
 "This holds whichever subset of the statistics is fetched and whatever order the runtime executes the operations in.",
 ["schedules", "inputs", "histories"],
 "every execution order, every subset of fetched statistics, accepted and rejected chains, adaptation on or off",
 "No test fetches HMCInfo at all.",
 ["zhusuan/hmc.py"],
 [("HMCInfo assembly at the end of HMC.sample", "zhusuan/hmc.py")],
 [], ["HMCInfo fields"])

prop("C03", "A diverging or invalid HMC chain is rejected, contained and recoverable",
 "When a proposal's log joint or energy is NaN, +inf or -inf, that chain keeps its stored value, is reported with acceptance rate 0 and never receives a non-finite value, while the other chains of the same run behave exactly as if that chain were valid; fetching the log-probability statistics of an iteration whose starting log joint is not finite raises an error. "
 "Faults do no lasting damage: no sequence of faults and rejections, under any on/off history of step-size and mass adaptation, leaves the step size or the mass at infinity or NaN, or at zero for good, every iteration terminates, and once the faults stop the chains move again (with step-size adaptation on, even if the step size was left far too large or too small).",
 ["fault_sequences", "schedules", "histories", "inputs"],
 "every pattern of NaN/inf log densities and gradients over chains and trajectory steps, every draw, every adaptation on/off history",
 "Tests never inject an invalid density, never diverge a chain and never adapt.",
 ["zhusuan/hmc.py"],
 [("is_finite masking in get_acceptance_rate", "zhusuan/hmc.py"), ("tf.check_numerics on old_log_prob", "zhusuan/hmc.py"), ("StepsizeTuner, ExponentialWeightedMovingVariance", "zhusuan/hmc.py")],
 [], ["latent variables", "HMCInfo"])

prop("C04", "HMC adaptation follows its recurrences over every on/off history",
 "With step-size adaptation fed True, the step size left after an iteration is the dual-averaging update (Hoffman & Gelman's recurrence in gamma, t0, kappa and the target rate, shrinking the log step size towards 10 times the initial step size) driven by that iteration's acceptance rate averaged over all chains, restarted at iteration 1 and at iteration `mass_collect_iters`. In these two iterations the trajectory uses the step size found by a factor-1.5 search (grown while a one-step trajectory's mean acceptance rate reaches the target, then divided once); every other iteration uses the step size the previous one left. Fed False, the adaptation state is frozen and the averaged step size is left (the user's initial step size if it never adapted). "
 "With mass adaptation, the mass is identity before iteration `mass_collect_iters` and from then on the inverse of the decay-weighted moving variance of the latents pooled over chains (identity where no variance has been seen), updated once by each iteration fed True and frozen when fed False. Every True/False history and every execution order gives the state this recurrence defines, whether the hyperparameters are given as numbers or as tensors.",
 ["histories", "schedules", "inputs", "configurations"],
 "every sequence of adapt_step_size/adapt_mass feeds, every execution order, every mass_collect_iters / decay / target / gamma / t0 / kappa",
 "No test enables adaptation; it is stateful, so a handful of sampled histories could not settle it anyway.",
 ["zhusuan/hmc.py"],
 [("StepsizeTuner.tune", "zhusuan/hmc.py"), ("ExponentialWeightedMovingVariance.update", "zhusuan/hmc.py"), ("HMC._adapt_mass, HMC._init_step_size, HMC._adapt_step_size", "zhusuan/hmc.py")],
 [("step size, dual-averaging statistics, moving mean/variance, iteration counter", "adaptation state", "tf.Variables created by HMC")],
 ["HMCInfo.updated_step_size", "HMCInfo.init_momentum", "step_size variable"])

prop("C05", "Every SGMCMC iteration is one simultaneous update from the pre-iteration state",
 "One run of the SGLD, PSGLD, SGHMC or SGNHT sampling operation moves every latent by that algorithm's documented update (first- or second-order), in which all gradients are taken at the same pre-iteration values of all latents (the common half-step point for second-order integrators), with momentum, preconditioner and friction state updated by the documented recurrences and one fresh Gaussian noise term of the documented variance per latent element. "
 "The outcome is a function of the stored state, fed mini-batch and learning rate, and the noise drawn: it does not depend on the order in which the runtime executes operations, and the reported `q`, `mean_k`, `alpha` are those of this iteration.",
 ["schedules", "inputs", "histories", "configurations"],
 "every legal execution order, every number and shape of coupled latents, every learning-rate / friction / variance / tune-rate setting, every noise draw, every mini-batch sequence",
 "tests/test_sgmcmc.py runs one single-latent model on one uncontrolled schedule and checks marginal statistics; races between latents cannot appear there. PSGLD and SGNHT are not tested at all.",
 ["zhusuan/sgmcmc.py"],
 [("SGLD/PSGLD/SGHMC/SGNHT._update and their control dependencies", "zhusuan/sgmcmc.py"), ("SGMCMC._apply_updates", "zhusuan/sgmcmc.py")],
 [("latents, momentum, preconditioner accumulators, friction", "sampler state", "tf.Variables")],
 ["latent variables", "sgmcmc_info"])

prop("C06", "SGMCMC momentum is resampled exactly every n_iter_resample_v iterations",
 "For SGHMC and SGNHT, the momenta of all latents are resampled from their normal distribution of variance equal to the learning rate at iterations 0, n, 2n, ... (n = n_iter_resample_v) and carried over unchanged at every other iteration; with n = 0 or None they are never resampled. "
 "All latents resample in the same iteration, in every execution order and whether n is a constant or is fed (the value fed with an iteration decides whether that iteration's index is a multiple of it).",
 ["schedules", "histories", "configurations"],
 "every execution order (in particular of the iteration counter against its readers), every n including 0, 1 and fed values, every number of latents",
 "Tests only look at marginal statistics, which a resampling off by one or missing for one latent does not move.",
 ["zhusuan/sgmcmc.py"],
 [("tf.mod(t, n_iter_resample_v) conditionals in SGHMC/SGNHT._update", "zhusuan/sgmcmc.py"), ("increment of t in SGMCMC._apply_updates", "zhusuan/sgmcmc.py")],
 [("t", "iteration counter", "SGMCMC.__init__")], ["latent variables", "sgmcmc_info"])

prop("C07", "A failed sampling iteration leaves the chains where they were",
 "If evaluating the model (log joint or its gradients) fails at any point of an HMC or SGMCMC iteration, the error reaches the caller, every latent variable still holds its pre-iteration value for all chains, and so does the momentum carried by SGHMC/SGNHT and their resampling schedule. "
 "Re-running the operation performs a correct iteration from there.",
 ["fault_sequences", "schedules", "crash_points"],
 "every model-evaluation operation at which the failure strikes, every execution order before it and every set of in-flight operations that still completes, any number of failures in a row",
 "No test makes an iteration fail.",
 ["zhusuan/hmc.py", "zhusuan/sgmcmc.py"],
 [("data dependency of every latent assignment on all model evaluations", "zhusuan/hmc.py HMC.sample"), ("control dependencies before assignments", "zhusuan/sgmcmc.py")],
 [], ["latent variables after the failed run", "the following iterations"])

prop("C08", "Inference state survives a checkpoint, crash and restart",
 "Save the graph's global variables at any iteration boundary, lose the process, build the same graph again and restore: from there every sampler (HMC with and without adaptation, SGLD, PSGLD, SGHMC, SGNHT) and the REINFORCE moving baseline produce, for the same draws and feeds, exactly the iterations the uninterrupted run would have produced. "
 "Rebuilding the same program always yields the same set of variable names and shapes, so the checkpoint is restorable.",
 ["crash_points", "histories", "schedules"],
 "every crash point between iterations, every adaptation history before it, every schedule",
 "No test saves, restores or rebuilds a sampler.",
 ["zhusuan/hmc.py", "zhusuan/sgmcmc.py", "zhusuan/variational/exclusive_kl.py"],
 [("all sampler state kept in global tf.Variables", "zhusuan/hmc.py, zhusuan/sgmcmc.py"), ("moving_mean variable", "zhusuan/variational/exclusive_kl.py")],
 [], ["latent variables and statistics after the restart"])

prop("C09", "AIS returns the annealed importance weight of the path it sampled",
 "For every run, AIS draws the chains from the proposal after adaptation, visits the configured number of temperatures, strictly increasing and ending exactly at 1, and returns the mean over data of log-mean-exp over chains of -log f_0(z_0) + sum_{t<T} [log f_t(z_{t-1}) - log f_t(z_t)] + log f_T(z_{T-1}), where z_t are the positions its transitions actually left in the latents and log f_t = (1-beta_t) log proposal + beta_t log joint. "
 "A run that failed part-way does not influence the value a later run returns, and runs add nothing to the graph (it may be finalized).",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "every temperature count, adaptation length, draw sequence, execution order, rejected or accepted transition, and failure in an earlier run",
 "AIS has no test at all.",
 ["zhusuan/evaluation.py", "zhusuan/hmc.py"],
 [("AIS.run, AIS._get_schedule_t, AIS._get_lower_bound", "zhusuan/evaluation.py")],
 [("log_weights", "accumulated log weight per chain", "AIS.run")], ["return value of AIS.run", "latent variables between session calls", "fed temperatures"])

prop("C10", "Observations reach exactly the model construction they were given to",
 "A BayesianNet built inside MetaBayesianNet.observe(...) sees exactly the observations of that call: a node named in it is observed with that value, any other node is not. "
 "This holds for nested observe calls, for constructions that raise part-way, for repeated use of one MetaBayesianNet, and for constructions running concurrently in several threads (each with its own graph): nothing leaks into or out of another construction, and a net built outside any observe call observes nothing.",
 ["schedules", "fault_sequences", "programs", "histories"],
 "every interleaving of construction threads, every nesting and repetition of observe calls, an exception at every point of a model function",
 "Tests build one model at a time, never nest, interleave or abort constructions.",
 ["zhusuan/framework/utils.py", "zhusuan/framework/meta_bn.py", "zhusuan/framework/bn.py"],
 [("Context stack (get_contexts/__enter__/__exit__)", "zhusuan/framework/utils.py"), ("Local context in MetaBayesianNet._run_with_observations", "zhusuan/framework/meta_bn.py"), ("BayesianNet._get_observation", "zhusuan/framework/bn.py")],
 [("context stack", "which observe() call is being built", "zhusuan/framework/utils.py")],
 ["StochasticTensor.is_observed / tensor", "BayesianNet.log_joint"])

prop("C11", "A BayesianNet is one consistent joint draw whatever was built or failed before",
 "In any single run, every use of a stochastic node (its value, its children, expressions it appears in, its conditional log probability, the log joint, repeated or deprecated queries) sees one and the same value: the observation if observed, otherwise one draw (or the value fed for the node in that run); and log_joint() equals the sum of the conditional log probabilities of all stochastic nodes in the net (or the user's overriding function of the net). "
 "This holds for every order of adding nodes, reading values, querying log probabilities and calling log_joint, including after rejected operations (duplicate or unknown names, incompatible observations), which leave the net as it was, and also for uses inside a branch or loop of the graph (tf.cond, tf.while_loop); no two nodes of a net share a name.",
 ["histories", "programs", "schedules", "fault_sequences"],
 "every interleaving of construction and query operations on a net, including failing ones, every observation pattern, every execution order and draw",
 "tests/framework/test_bn.py checks single calls on small fixed nets, not histories; draws are never compared across uses under controlled orders.",
 ["zhusuan/framework/bn.py", "zhusuan/framework/meta_bn.py"],
 [("StochasticTensor.tensor / cond_log_p caching", "zhusuan/framework/bn.py"), ("log joint cache and its invalidation", "zhusuan/framework/bn.py"), ("name uniqueness check in stochastic()", "zhusuan/framework/bn.py")],
 [], ["session.run of nodes, cond_log_prob and log_joint in one run"])

prop("C12", "Samples follow the density that log_prob reports",
 "For every distribution in zhusuan.distributions, used directly or as a node of a net (BayesianNet's methods and the old-style wrappers), and every valid parameter setting, samples are distributed according to exp(log_prob): per batch element and per sample index, for every batch shape, n_samples (none, constant or fed), dtype and group_ndims, and the samples of different batch elements and sample indices are independent. "
 "prob equals exp(log_prob), and the reported (mass) density is normalised over the support. A value given with fewer, more or unit axes has the density it would have broadcast against the batch (for counts of a Multinomial without fixed total, or of one ordered sequence, as well), and batch_shape and value_shape are those of the samples.",
 ["inputs", "configurations", "schedules"],
 "every distribution, parameter value, batch shape, sample count and dtype; the quantification is over the random draws themselves",
 "tests/distributions check log_prob against scipy and only the shapes and dtypes of samples; no test relates samples to the density (FoldNormal returned unfolded samples for that reason).",
 ["zhusuan/distributions/univariate.py", "zhusuan/distributions/multivariate.py", "zhusuan/distributions/base.py"],
 [("_sample / _log_prob of each distribution", "zhusuan/distributions")],
 [], ["Distribution.sample, log_prob, prob"])

prop("C13", "Every random draw yields a finite sample inside the support",
 "For every distribution with finite valid parameters, whatever values the underlying generators return - including the extreme values they may legally return, such as exactly 0 or the largest float below 1 for a uniform - the sample is finite and lies in the support. Its log_prob (unless the sample has rounded to the end 0 or 1 of the support of Beta, Dirichlet, Concrete or BinConcrete, where the density has no value) and, if it is reparameterised, its derivative with respect to the parameters are finite in float32 and float64. "
 "One unlucky draw therefore never poisons a run.",
 ["inputs", "fault_sequences", "schedules"],
 "every generator output over its documented range, including the end points, at every position; every distribution, parameter, shape and dtype",
 "Tests draw from a real generator, where an end point appears about once in 2^23 draws.",
 ["zhusuan/distributions/univariate.py", "zhusuan/distributions/multivariate.py"],
 [("clipping/guards in _sample of Concrete, BinConcrete, Laplace, Gumbel-based samplers", "zhusuan/distributions")],
 [], ["Distribution.sample and log_prob"])

prop("C14", "The REINFORCE baseline uses only past iterations and updates once per iteration",
 "With variance reduction, the learning signal of an evaluation is the ELBO signal minus the user's baseline (if any) minus the zero-debiased exponential moving mean of the signals of strictly earlier evaluations, and each evaluation of the cost or of its gradient folds its own mean signal into that moving mean exactly once. "
 "So in every execution order and over every history the gradient estimator keeps its expectation (the baseline never depends on the samples it multiplies). The cost for a user's baseline is half its squared distance to the ELBO signal; it moves the baseline and nothing else, and the estimator's cost does not move the baseline.",
 ["schedules", "histories"],
 "every execution order of the update against the read of the moving mean, every number of iterations, decay, batch and sample shape, fetch combination (cost, gradients, both, objective)",
 "tests/variational/test_exclusive_kl.py only evaluates reinforce without variance reduction repeatedly, or compares gradients statistically on one uncontrolled schedule.",
 ["zhusuan/variational/exclusive_kl.py"],
 [("moving_mean / assign_moving_average / control dependency in reinforce()", "zhusuan/variational/exclusive_kl.py")],
 [("moving_mean", "moving mean of the learning signal", "tf variable")], ["cost and gradients fetched per iteration"])

prop("C15", "Objectives and gradient estimators match their definitions on every draw",
 "In each run, the ELBO, importance-weighted objective and importance-sampled log likelihood, and the surrogate costs and gradients of SGVB, REINFORCE (without variance reduction), VIMCO and the importance-sampled inclusive KL, equal their defining formulas evaluated on the samples actually drawn in that run, per data element, for one or several latents, with model parameters and variational parameters both receiving their gradients. "
 "All quantities fetched in one run refer to the same samples, in every execution order, also where the model gives some draws zero density (as far as the formula has a value then). A model latent that has neither an observation nor a posterior is refused with an error instead of being sampled from the prior.",
 ["inputs", "schedules", "configurations"],
 "every draw, execution order, set of latents and observations, sample axis, number of samples, fetch combination, and model given as function or as MetaBayesianNet",
 "tests/variational compare averages of estimates on one Gaussian toy problem; they control neither draws nor fetch combinations and use a single latent.",
 ["zhusuan/variational/base.py", "zhusuan/variational/exclusive_kl.py", "zhusuan/variational/inclusive_kl.py", "zhusuan/variational/monte_carlo.py", "zhusuan/evaluation.py"],
 [("_objective, sgvb, reinforce, vimco, importance", "zhusuan/variational"), ("is_loglikelihood", "zhusuan/evaluation.py")],
 [], ["objective tensors and gradients fetched together"])

prop("C16", "The dataset cache is all-or-nothing under download faults and crashes",
 "However a dataset download or load is interrupted - connection error, short read, full disk, exception or process death at any point - no load of that dataset, then or later, silently returns partial data, and the next attempt with working network and disk succeeds and yields the full data. "
 "Once a load has succeeded, later loads download nothing.",
 ["crash_points", "fault_sequences"],
 "every byte offset and file-system call at which the fault strikes, every sequence of failed attempts before a good one",
 "The loaders have no test; faults at particular write points cannot be produced by plain unit tests.",
 ["examples/utils/dataset.py"],
 [("os.path.exists guard and download in download_dataset and the load_* functions", "examples/utils/dataset.py")],
 [("cached file", "the downloaded data set", "path given by the caller")], ["file system", "arrays returned by load_*"])

prop("C17", "Randomness is fresh and independent across nodes, latents, chains and runs",
 "Distinct stochastic nodes, latents, chains, batch elements, sample indices and iterations never share random draws: each momentum, accept/reject, noise and sample element uses its own draw, newly made in each run, and re-running the same operation draws anew. "
 "Nothing in the library fixes, seeds or re-uses generator state on its own: a run is reproducible only if the user sets the graph seed, and then it is.",
 ["schedules", "histories", "configurations"],
 "every graph the library builds (all samplers, distributions, nets, objectives), every shape, every number of runs",
 "Tests compare marginal statistics, which shared draws between latents or chains do not disturb.",
 ["zhusuan/hmc.py", "zhusuan/sgmcmc.py", "zhusuan/framework/bn.py", "zhusuan/distributions"],
 [("shapes passed to tf.random_* calls", "zhusuan/hmc.py random_momentum and u01; zhusuan/sgmcmc.py; zhusuan/distributions _sample")],
 [], ["fetched momenta, samples and noise"])

prop("C18", "Samples and log densities carry exactly the gradients they declare",
 "For every distribution, construction route (class, BayesianNet method, old-style wrapper), parameter setting and draw: a sample of a distribution whose is_reparameterized is True has, with respect to every parameter, the derivative of the sampling map at the random draws of that run; a sample whose is_reparameterized is False (always so for the discrete families, Gamma, InverseGamma, Beta and Dirichlet) passes no gradient to the parameters, so score-function estimators are not biased. "
 "The gradient of log_prob with respect to the parameters at a fixed value is the derivative of the log density, and is cut for a distribution made with use_path_derivative=True (where the family offers it) while the gradient through the value is kept.",
 ["inputs", "configurations", "schedules"],
 "every family, parameter value, batch layout, broadcasting, n_samples, group_ndims, flag combination and random draw",
 "Tests only look at whether a gradient exists for a few families; whether it is the derivative at the draws actually made needs the draws to be replayed with moved parameters.",
 ["zhusuan/distributions/univariate.py", "zhusuan/distributions/multivariate.py", "zhusuan/distributions/base.py", "zhusuan/framework/bn.py"],
 [("_sample of every family (stop_gradient when not reparameterized)", "zhusuan/distributions"), ("Distribution.path_param", "zhusuan/distributions/base.py")],
 [], ["tf.gradients of samples and log_prob"])

prop("C19", "All constructions of one model share its parameters and arguments; different models share nothing",
 "For a MetaBayesianNet with a scope and reuse_variables=True (through the class or the decorator) and for a function decorated with zs.reuse_variables: the first construction creates the TensorFlow variables the model asks for, and every later construction - with any observations, nested in another model, called inside another variable scope, or made by a sampler or variational objective - uses those same variables and creates none, so after any update all constructions, their log joints, gradients and the samplers built on them see the current values. Each construction receives the arguments the model was created with. "
 "Models created by separate calls have separate parameters and arguments even if the function and the scope name are the same. A construction that fails (before the model's variables exist, or any time after the first successful construction) changes none of this.",
 ["histories", "fault_sequences", "schedules", "configurations"],
 "every sequence of constructions, failures, nestings, parameter updates and evaluations over several models",
 "Tests construct one model once or twice and compare variable names; they never fail a construction, nest, update parameters or mix several models of one scope.",
 ["zhusuan/framework/meta_bn.py", "zhusuan/framework/utils.py"],
 [("MetaBayesianNet.__init__ / observe", "zhusuan/framework/meta_bn.py"), ("meta_bayesian_net", "zhusuan/framework/meta_bn.py"), ("reuse_variables", "zhusuan/framework/utils.py")],
 [("model parameters", "variables created by the model function", "the template scope of each model")],
 ["parameter values seen by every construction", "log_joint and its gradients", "HMCInfo.orig_log_prob"])

prop("C20", "Inference components in one program do not disturb each other",
 "Samplers (HMC, SGLD, PSGLD, SGHMC, SGNHT), variational estimators with their moving baselines, and AIS, each a separate instance with its own latent variables or parameters, keep their own state: built in one graph (before or after each other, on the same or different models) and run in one session in any interleaving, in the same run call, or between the calls of an AIS run, every component produces exactly the iterations it would produce alone for the same draws and feeds. "
 "This also holds when the construction of another component failed, or an iteration of another component failed part-way. (A second REINFORCE estimator with variance reduction in the same variable scope may be refused with an error; it never shares a baseline.)",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every combination of components, build order, interleaving and execution order, failing neighbours included",
 "Every test builds one sampler or estimator in a graph of its own.",
 ["zhusuan/hmc.py", "zhusuan/sgmcmc.py", "zhusuan/evaluation.py", "zhusuan/variational"],
 [("per-instance state variables", "zhusuan/hmc.py HMC.__init__, StepsizeTuner, ExponentialWeightedMovingVariance; zhusuan/sgmcmc.py SGMCMC.__init__ and _define_variables; zhusuan/variational/exclusive_kl.py reinforce")],
 [("component state", "iteration counters, step size, mass, momentum, preconditioner, friction, moving mean", "tf.Variables of each instance")],
 ["latents, statistics, costs and gradients of every component"])

prop("C21", "check_numerics=True reports every numeric fault of a density, and only those",
 "For every distribution that takes check_numerics, made directly or as a node of a net with check_numerics=True: whenever a run computes its log_prob or prob (or the conditional log probability or log joint of a net containing it) while a logarithm, exponential, reciprocal or (log-)gamma/beta function term or log-determinant of that density's formula is not finite - a zero, negative, NaN, infinite or under/overflowing scale, standard deviation, rate, temperature, shape parameter or Cholesky diagonal, or a value at or beyond the edge of the support where its logarithm or log-gamma is taken - in any one element, that run fails with an error instead of returning a value; a sample from a log-standard-deviation that does not exponentiate to a finite number fails likewise. "
 "When all those terms are finite the run succeeds and returns the true density. With check_numerics False or absent no such error is raised, a checked node is not affected by faults of unchecked ones, and a failed run leaves later runs unaffected.",
 ["fault_sequences", "inputs", "schedules", "configurations"],
 "every position and kind of numeric fault at run time, every iteration of a history of clean and faulty runs, every distribution, layout, dtype, construction route and output fetched",
 "Tests check a few distributions once each with one bad parameter; none checks nets, histories, or that no false report is made.",
 ["zhusuan/distributions", "zhusuan/framework/bn.py", "zhusuan/legacy/framework/stochastic.py"],
 [("tf.check_numerics blocks of _log_prob/_prob/__init__", "zhusuan/distributions/univariate.py, multivariate.py"), ("check_numerics arguments of the node methods and old-style classes", "zhusuan/framework/bn.py, zhusuan/legacy/framework/stochastic.py")],
 [], ["log_prob, prob, sample, cond_log_p, log_joint of a run"])

prop("C22", "A program with a fixed graph seed is reproducible",
 "A program that sets the graph-level random seed (tf.set_random_seed) and builds and runs ZhuSuan nets, samplers (HMC, SGLD, PSGLD, SGHMC, SGNHT), variational estimators or AIS, with or without op seeds, gives exactly the same values - samples, log probabilities, latents, statistics, costs, gradients, AIS estimates - run by run whenever it is run again: in another process, with another PYTHONHASHSEED, after other programs in the same process, with other Python or NumPy generator states, in another thread, and under another legal execution order of its operations on the same draws. "
 "Every random operation ZhuSuan adds takes its randomness from the graph or op seed alone.",
 ["histories", "schedules", "configurations"],
 "every program, environment it is repeated in, and execution order",
 "Tests run every program once, in one process, and never compare two runs.",
 ["zhusuan/distributions", "zhusuan/framework", "zhusuan/hmc.py", "zhusuan/sgmcmc.py", "zhusuan/evaluation.py", "zhusuan/variational"],
 [("random ops of every distribution", "zhusuan/distributions _sample"), ("momentum and accept draws, order of latents", "zhusuan/hmc.py HMC.sample, random_momentum; zhusuan/sgmcmc.py"), ("order of nodes", "zhusuan/framework/bn.py")],
 [], ["all values of every run"])

prop("C23", "A normalizing flow stays an exact change of variables along every training history",
 "Whatever its parameters have become - as initialised, after any history of training steps, of steps that failed half-way, of far jumps, or restored from a checkpoint in a new process - every evaluation of planar_normalizing_flow and inv_autoregressive_flow (linear_ar or a user network, 'normal' and 'gru' updates, any number of flows, flows stacked on flows) returns samples z' and log probabilities that satisfy log q(z') = log_probs - log|det dz'/dz| for every sample, with finite samples at finite planar parameters; a planar flow never reverses orientation and moves samples along one direction by a tanh of an affine score; linear_ar flows are autoregressive; each flow of a user network is called once per flow with ids 0..n-1 and is applied as documented. "
 "Samples do not influence each other, log_probs enter additively, every parameter is trainable, distinct and reached by the gradient, a rebuilt flow restores from its checkpoint exactly, and log_probs whose shape is not that of the samples without their last axis are refused.",
 ["histories", "schedules", "fault_sequences", "inputs", "configurations"],
 "every training history, failed step, restart point, parameter value, sample batch and layout, flow stack",
 "Tests check the Jacobian of freshly initialised flows (zero biases, weights of 0.005) at one sample; none trains a flow, restarts it, or looks at layouts, far parameters or other updates.",
 ["zhusuan/transform.py"],
 [("planar_normalizing_flow", "zhusuan/transform.py"), ("inv_autoregressive_flow, linear_ar", "zhusuan/transform.py")],
 [], ["transformed samples, log probabilities, variables of a run"])

# ---- properties outside the technique: pure functions of their inputs
prop("C90", "log_prob equals the textbook density for every input",
 "For every distribution, log_prob(given) equals the mathematical log density (mass) for all parameters, values, shapes and dtypes, numerically stable where the parameterisation allows.",
 ["inputs"], "all parameters and values", "Tests sample a few points per distribution.",
 ["zhusuan/distributions"], [("_log_prob", "zhusuan/distributions")])
prop("C91", "Shape, broadcasting and dtype rules of distributions hold for every input",
 "batch_shape, value_shape, static and dynamic sample/log_prob shapes and dtype errors follow the documented broadcasting and dtype rules for every combination of arguments.",
 ["inputs", "configurations"], "all shapes and dtypes", "Tests sample a few combinations.",
 ["zhusuan/distributions/base.py", "zhusuan/distributions/utils.py"], [("assert_same_float_dtype and friends", "zhusuan/distributions/utils.py")])
prop("C93", "effective_sample_size implements its estimator for every series",
 "effective_sample_size equals its documented estimator for every array of samples and burn-in.",
 ["inputs"], "all arrays", "Tests use a few arrays.",
 ["zhusuan/diagnostics.py"], [("effective_sample_size_1d", "zhusuan/diagnostics.py")])
prop("C94", "log_mean_exp, merge_dicts and get_backward_ops equal their definitions",
 "The helper functions equal their definitions for every input (stability of log_mean_exp, later-wins merge, exact ancestor set in topological order).",
 ["inputs", "programs"], "all inputs", "Tests sample a few inputs.",
 ["zhusuan/utils.py", "zhusuan/framework/utils.py"], [("log_mean_exp, merge_dicts, get_backward_ops", "zhusuan/utils.py")])
prop("C95", "Tensor-like objects convert and overload exactly like the Tensor they wrap",
 "Every arithmetic, logical, comparison and slicing operator on a StochasticTensor or VariationalObjective gives what the same operator on its tensor gives.",
 ["inputs"], "all operators and operands", "Tests sample operands.",
 ["zhusuan/utils.py"], [("TensorArithmeticMixin", "zhusuan/utils.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, sort_keys=False) + "\n")
print(len(P), "properties")
