#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
P = []


def p(id, title, statement, over, text, why, files, mech, state, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": None}})


BN, ST, MB = "zhusuan/framework/bn.py", "StochasticTensor", "zhusuan/framework/meta_bn.py"
D = "zhusuan/distributions/"
p("C01", "Every stochastic node has one value: its observation or one sample",
  "However a net is built and read (net[name], get, use as a tensor, cond_log_prob, log_joint, any order, any number of times), a stochastic node has exactly one value: the observation given for its name if there is one (0 and other falsy values included), and otherwise a single draw from its distribution that every later read, dependent node and density evaluation shares. An observed node is never sampled.",
  ["histories", "inputs"], "all histories of API calls on BayesianNet/StochasticTensor, all observation sets",
  "tests read a node once or twice in a fixed order; the sharing has to survive every interleaving of reads, density calls and net growth",
  [BN], [("lazy memoised sample", BN + ": StochasticTensor.tensor"), ("observation precedence", BN + ": StochasticTensor.__init__/BayesianNet.stochastic")],
  [("_samples/_observation", "the memoised value of a node", BN)], ["tensor values from session.run", "number of sample() calls of a user-defined Distribution", "is_observed()"])
p("C02", "Observations reach exactly the nets built under them",
  "observe(**obs) of a meta net gives obs to every BayesianNet its model function builds in that call and to no other net: not to nets built before, after, or in an outer or inner observe() call, and not to anything once the model function has raised. Observations passed to observe() take precedence over those passed to BayesianNet(observed=...), names without observation stay latent, and observe() returns the net the model function returned.",
  ["histories", "fault_sequences"], "all nestings and sequences of observe() calls, with failing model functions",
  "nesting, reuse of one meta net and failing model functions combine in ways a few tests do not sample",
  [MB, "zhusuan/framework/utils.py", BN], [("Local context stack", MB + ": Local, MetaBayesianNet._run_with_observations"), ("Context.__exit__", "zhusuan/framework/utils.py")],
  [("context stack", "observations currently in force", "zhusuan/framework/utils.py")], ["values of nodes", "is_observed()"])
p("C03", "The log joint is the sum of the current conditional log densities",
  "At every point of every history, net.log_joint() equals the sum over all stochastic nodes the net has at that time of their conditional log densities at their one value (deterministic nodes contribute nothing), also when nodes were added after an earlier log_joint() call; a log_joint set on the meta net replaces it. cond_log_prob(name or names) returns the same terms, in the order asked.",
  ["histories"], "all histories of node creation and density queries",
  "a memoised joint is only wrong for particular orders of adding and asking",
  [BN, MB], [("log_joint cache", BN + ": BayesianNet.log_joint/stochastic"), ("cond_log_prob cache", BN + ": StochasticTensor.cond_log_p")],
  [("_log_joint_cache", "memoised joint density", BN)], ["log_joint() and cond_log_prob() values"])
p("C04", "Node names are unique and lookups return the node of that name",
  "In one net a name denotes one node for ever: adding a second stochastic or deterministic node under a taken name is refused and changes nothing, and lookups (net[name], get(name), get(list), query, outputs, local_log_prob) return the node created under that name, in the order asked, and refuse unknown names. The same holds for nodes of the old style registered in the innermost open `with net:` block.",
  ["histories"], "all histories mixing stochastic, deterministic and old-style nodes",
  "the clash must be noticed for every pair of node kinds and at every point of a history",
  [BN, "zhusuan/legacy/framework/stochastic.py"], [("name checks", BN + ": BayesianNet.stochastic/deterministic/_check_name_exist"), ("legacy registration", BN + ": StochasticTensor.__init__")],
  [("_nodes", "name -> node", BN)], ["errors raised", "identity and value of looked-up nodes"])
p("C05", "Shapes of samples and densities follow batch, value and group shapes",
  "For every distribution, batch_shape is the broadcast of the parameter shapes and value_shape its event shape; sample() has shape batch+value and sample(n) [n]+batch+value, and log_prob/prob of a given broadcastable to ...+batch+value have that broadcast batch shape without its last group_ndims axes and sum (multiply) exactly those axes. Static shapes, where known, agree with the run-time shapes, unknown static shapes give the same results, and shapes that cannot broadcast are an error.",
  ["inputs", "configurations"], "all parameter shapes, given shapes, n_samples, group_ndims, static or unknown",
  "tests sample a few shapes; mistakes hide in size-1 axes, extra leading axes, unknown static shapes",
  [D + "base.py", D + "univariate.py", D + "multivariate.py", D + "utils.py"],
  [("log_prob/prob grouping", D + "base.py"), ("broadcast helpers", D + "utils.py")],
  [("batch_shape/value_shape", "shape bookkeeping of a distribution", D + "base.py")], ["shapes and values of sample/log_prob/prob", "static shapes"])
p("C06", "Univariate log densities equal the stated law",
  "For every univariate distribution (Normal, FoldNormal, Bernoulli, Categorical, Uniform, Gamma, Beta, Poisson, Binomial, InverseGamma, Laplace, BinConcrete), every valid parameter and every given value, log_prob is the log density (mass) of the documented law and prob its exponential, for every parameterisation (std or logstd), every supported dtype and also where densities are tiny or the logits extreme. Values outside the support of FoldNormal and Uniform have density zero.",
  ["inputs", "configurations"], "all parameters and given values",
  "a wrong coefficient or a missing term only shows at parameters the tests did not pick",
  [D + "univariate.py"], [("_log_prob/_prob", D + "univariate.py")], [], ["log_prob and prob values"])
p("C07", "Multivariate log densities equal the stated law",
  "For MultivariateNormalCholesky, Multinomial, UnnormalizedMultinomial, OnehotCategorical, Dirichlet, ExpConcrete, Concrete and MatrixVariateNormalCholesky, every valid parameter and every given value, log_prob is the log density (mass) of the documented law and prob its exponential; UnnormalizedMultinomial differs from Multinomial by exactly the log combination term, and normalisation of logits is optional as documented.",
  ["inputs", "configurations"], "all parameters and given values",
  "off-diagonal covariance terms, non-square shapes and several batch members are rarely all exercised",
  [D + "multivariate.py", D + "utils.py"], [("_log_prob/_prob", D + "multivariate.py"), ("log_combination", D + "utils.py")], [], ["log_prob and prob values"])
p("C08", "Samples follow the stated law and are independent",
  "Samples of every distribution lie in its support for every value the random source can return and follow its law: moments and quantiles (frequencies for discrete laws) of samples converge to those of the law for all parameters. Samples of different batch members and different sample indices are independent, and every run of the graph draws anew.",
  ["inputs", "configurations"], "all distributions, parameters, batch shapes and random draws",
  "tests of sampling check shapes and gradients, not the law, and never the extreme draws",
  [D + "univariate.py", D + "multivariate.py", D + "utils.py"], [("_sample", D + "univariate.py, multivariate.py")], [], ["samples"])
p("C09", "Gradients flow exactly as is_reparameterized and use_path_derivative say",
  "Gradients of samples with respect to a distribution's parameters are those of the reparameterised sample when is_reparameterized, and none otherwise (the families without a reparameterisation never pass any). Gradients of log_prob with respect to the parameters are those of the log density; for the families that document use_path_derivative, it stops them while the gradient through the given value is unchanged. The flags of a distribution report what it does, also inside a BayesianNet.",
  ["inputs", "configurations"], "all distributions and flag combinations",
  "the flags interact with how a sample is used in further densities",
  [D + "base.py", D + "univariate.py", D + "multivariate.py"], [("stop_gradient/path_param", D + "base.py")], [], ["tf.gradients results"])
p("C10", "An HMC iteration is a Metropolis-corrected leapfrog step of every chain",
  "Each run of HMC.sample's op moves every chain independently: n_leapfrogs leapfrog steps of the current step size and mass from a fresh N(0, mass) momentum, accepted with probability min(1, exp(old - new Hamiltonian)), and otherwise that chain (and only that chain) keeps its values; latent variables of one chain move together. A proposal whose Hamiltonian or log joint is not a number is rejected, and the returned info (samples, acceptance_rate, log_prob, orig_log_prob, Hamiltonians, updated_step_size) describes exactly this transition.",
  ["inputs", "configurations", "histories"], "all targets, chain shapes, momenta, acceptance draws and leapfrog counts",
  "the existing test checks one posterior's moments; per-chain selection, ties and non-finite proposals need particular draws",
  ["zhusuan/hmc.py"], [("leapfrog", "zhusuan/hmc.py: HMC._leapfrog"), ("accept/reject", "zhusuan/hmc.py: HMC.sample"), ("get_acceptance_rate", "zhusuan/hmc.py")],
  [("latent variables", "current state of the chains", "user's tf.Variables")], ["latent variables after session.run", "HMCInfo fields"])
p("C11", "HMC adaptation follows dual averaging and stops when switched off",
  "While adapt_step_size is on, the step size follows the dual averaging recursion towards target_acceptance_rate, restarted at the first iteration and at iteration mass_collect_iters; while adapt_mass is on, the mass is the inverse of the exponentially weighted variance over chains and iterations from iteration mass_collect_iters on (one before). A trajectory uses the step size left by the iteration before it. While an adaptation was never given, its quantity stays the initial one; once step size adaptation is switched off, the step size is set to the averaged one at the end of the first such iteration and then stays constant, and a switched-off mass stays constant.",
  ["histories", "configurations"], "all sequences of adaptation flags, acceptance rates and chain states",
  "the schedule only shows over tens of iterations with flags switched at particular points",
  ["zhusuan/hmc.py"], [("StepsizeTuner", "zhusuan/hmc.py"), ("ExponentialWeightedMovingVariance", "zhusuan/hmc.py"), ("HMC._adapt_mass", "zhusuan/hmc.py")],
  [("step_size, log_epsilon_bar, h_bar, mu, t", "dual averaging state", "zhusuan/hmc.py"), ("mean, var", "moving variance", "zhusuan/hmc.py")], ["HMCInfo.updated_step_size", "latent variables and Hamiltonians"])
p("C12", "AIS estimates log Z with correct temperatures and weights",
  "AIS.run returns the mean over data of the log mean over chains of the importance weights of annealed importance sampling: it starts every chain from the proposal, moves through n_temperatures distributions (1-t) proposal + t joint, with t following the rescaled sigmoid schedule from 0 to 1, one HMC transition per temperature, and accumulates each chain's weight as the sum of differences of the log densities at the chain's value before the transition. The estimate is exact when the proposal is proportional to the joint.",
  ["inputs", "configurations", "histories"], "all pairs of proposal and joint, temperature counts and chain histories",
  "an off-by-one temperature or weight still gives a plausible estimate",
  ["zhusuan/evaluation.py"], [("AIS.run", "zhusuan/evaluation.py"), ("_get_schedule_t", "zhusuan/evaluation.py")],
  [("temperature placeholder, log weights", "annealing state", "zhusuan/evaluation.py")], ["AIS.run result", "tempered log joint values"])
p("C13", "SGMCMC updates are the stated stochastic gradient dynamics",
  "One run of the sample op of SGLD, PSGLD, SGHMC (first and second order) and SGNHT moves all latent variables simultaneously from the current state by the update of the algorithm, with the gradient of the given log joint at the current values and fresh N(0,1) noise of the variance the algorithm states. The extra state (momentum, preconditioner, thermostat) evolves as stated, and several latent variables do not influence one another except through the gradient.",
  ["inputs", "histories", "schedules", "configurations"], "all targets, hyper-parameters, noise and iteration counts, any execution order of the graph",
  "the tests check moments of one Gaussian; a wrong constant or an update that reads half-updated state hides in them",
  ["zhusuan/sgmcmc.py"], [("_update of SGLD/PSGLD/SGHMC/SGNHT", "zhusuan/sgmcmc.py"), ("_apply_updates", "zhusuan/sgmcmc.py")],
  [("v, alpha, aux", "momentum, thermostat, preconditioner", "zhusuan/sgmcmc.py")], ["latent variables after session.run", "attributes of the returned info"])
p("C14", "SGHMC and SGNHT resample momenta exactly every n_iter_resample_v runs",
  "With n_iter_resample_v = n, the momenta of all latent variables are redrawn from their stationary distribution at the first run and at every n-th run after it and at no other run, for the whole life of the sampler and whatever order the graph executes in; with None (or 0) they are drawn once at initialisation only.",
  ["histories", "schedules", "configurations"], "all run counts, periods, numbers of latent variables, execution orders",
  "drift of the period or disagreement between latent variables only shows after many runs",
  ["zhusuan/sgmcmc.py"], [("iteration counter and resampling", "zhusuan/sgmcmc.py: SGMCMC._define_variables/_apply_updates, SGHMC/SGNHT._update")],
  [("t", "iteration counter", "zhusuan/sgmcmc.py")], ["latent variables and momenta over hundreds of runs"])
p("C15", "Variational objectives have the stated values",
  "ELBO, importance weighted and inclusive KL objectives and is_loglikelihood compute exactly their definition from log_joint and the latent log densities: mean (or log-mean-exp) over the sample axis of log p - sum log q, for log joints that are functions of the full dictionary or meta nets, whether the latent values come from a variational net or from (sample, log q) pairs. Observed values given by the user are used as such, also where the posterior has a node of that name. A model node that is neither observed nor given a posterior, both or neither of latent and variational, a variational that is not a net, and importance weighting without a sample axis are refused.",
  ["inputs", "configurations"], "all models, samples, axes (None, 0 or more) and latent sets",
  "mixed observed/latent sets, axis handling and several latent variables are not enumerated by tests",
  ["zhusuan/variational/base.py", "zhusuan/variational/exclusive_kl.py", "zhusuan/variational/monte_carlo.py", "zhusuan/variational/inclusive_kl.py", "zhusuan/evaluation.py"],
  [("_log_joint_term/_entropy_term", "zhusuan/variational/base.py"), ("_objective", "zhusuan/variational/*.py"), ("is_loglikelihood", "zhusuan/evaluation.py")], [], ["value of objective tensors", "errors"])
p("C16", "Surrogate costs give the stated gradient estimators",
  "sgvb, reinforce, vimco and the inclusive-KL importance estimator return surrogate costs whose gradient is exactly the named estimator, for every sample axis, number of latent variables and parameter of model and proposal: reinforce with variance reduction centers the learning signal by the bias-corrected moving average of the previous iterations and an optional baseline (with its own regression cost), and vimco uses for every sample the leave-one-out signal. No gradient leaks through learning signals.",
  ["inputs", "histories", "configurations"], "all values of log p, log q, baselines, decay, iteration histories",
  "tests compare estimators statistically at one setting; a leaked gradient or stale moving average hides in the noise",
  ["zhusuan/variational/exclusive_kl.py", "zhusuan/variational/monte_carlo.py", "zhusuan/variational/inclusive_kl.py"],
  [("reinforce", "zhusuan/variational/exclusive_kl.py"), ("vimco", "zhusuan/variational/monte_carlo.py"), ("importance/rws", "zhusuan/variational/inclusive_kl.py")],
  [("moving_mean, local_step", "reinforce's moving average", "zhusuan/variational/exclusive_kl.py")], ["tf.gradients of the surrogate", "cost values over iterations"])
p("C17", "get_backward_ops returns exactly the ops between inputs and outputs",
  "get_backward_ops(seeds, treat_as_inputs) returns every operation the seeds depend on (through data and control edges), each once, in an order in which an operation comes after those it depends on, without going beyond the tensors treated as inputs; what is reachable only through those tensors is left out and what is reachable another way is kept.",
  ["inputs", "programs"], "all graphs, seed lists and input sets",
  "small fixed graphs in tests do not reach diamond shapes with partial cuts and duplicate seeds",
  ["zhusuan/utils.py"], [("get_backward_ops", "zhusuan/utils.py")], [], ["returned list"])
p("C18", "Effective sample size is that of the chains' autocorrelation",
  "effective_sample_size of a chain (after burn_in) is n / (1 + 2 * sum of the autocorrelations at lags 1, 2, ... up to, and without, the first negative one), is the minimum over the components of a multivariate chain, and does not depend on a shift or scaling of the chain.",
  ["inputs", "configurations"], "all chains, burn-ins and component shapes",
  "tests check one random chain's order of magnitude",
  ["zhusuan/diagnostics.py"], [("effective_sample_size_1d", "zhusuan/diagnostics.py"), ("effective_sample_size", "zhusuan/diagnostics.py")], [], ["returned number"])
p("C19", "Normalizing flows return the image and its exact log determinant",
  "planar_normalizing_flow and inv_autoregressive_flow (and linear_ar as its step function) return f(x) and log_probs minus log|det df/dx| of the map they applied, for every input shape, number of steps and weights: n_iters planar steps z + u tanh(w'z + b), invertible and finite whatever the weights (w not zero), or n_iters autoregressive steps (normal or gru update) in which a coordinate depends on earlier ones only and after each of which the order of the coordinates is reversed. Gradients with respect to the samples pass through. A number of steps that is not an integer, samples of rank below two, log_probs whose rank or leading shape does not match the samples, and an unknown last dimension where weights have to be made are refused.",
  ["inputs", "configurations"], "all inputs, weights and iteration counts",
  "the tests check shapes and one determinant; the constraint that keeps a planar layer invertible only matters for particular weights",
  ["zhusuan/transform.py"], [("planar_normalizing_flow", "zhusuan/transform.py"), ("inv_autoregressive_flow", "zhusuan/transform.py")], [], ["returned tensors"])
p("C20", "A stochastic node behaves as its value in every tensor expression",
  "Using a StochasticTensor (or any class with TensorArithmeticMixin, such as a variational objective) in any Python operator (arithmetic, order comparison, logical operators on booleans, indexing, abs, neg, invert), on either side and together with nodes, tensors, Python numbers, lists and numpy arrays, as an argument of TensorFlow functions, and (for nodes) in fetch and feed position of session.run and in shape queries gives what its one value as a Tensor would give, with operands in the written order, and preserves dtype checks. Equality and hashing are by identity; iteration and truth value are refused as for tensors.",
  ["programs", "inputs"], "all operator expressions over nodes and tensors",
  "each operator is tested once, compositions and reflected non-commutative forms are not",
  ["zhusuan/utils.py", BN], [("TensorArithmeticMixin", "zhusuan/utils.py"), ("_to_tensor / register_tensor_conversion_function", BN), ("fetch conversion", BN)], [], ["values, dtypes and errors of expressions"])
p("C21", "Repeated observe() calls of one meta net share their variables",
  "All observe() calls of one reusing MetaBayesianNet (meta_bayesian_net with scope and reuse_variables=True), and all calls of one function under reuse_variables, use one set of variables, created at the first call, whatever arguments and observations are given, in which order, and also when the calls are nested in one another; nobody else shares it, not even a meta net or function with the same scope name. Without reuse_variables every call makes variables of its own (or is refused where tf.get_variable's name is taken). Reuse without a scope is refused, and the arguments given when the meta net is made reach the model function in every observe().",
  ["histories", "configurations"], "all sequences of calls over scopes and reuse flags",
  "name-scope uniquification depends on the history of scopes opened before",
  [MB, "zhusuan/framework/utils.py", "zhusuan/utils.py"], [("reuse / make_template", "zhusuan/framework/utils.py: reuse, reuse_variables"), ("scope handling", MB)],
  [("variable store", "variables of the graph", "TensorFlow")], ["tf.global_variables()", "values after assignment"])
p("C22", "Node builder methods build the distribution they are named after",
  "bn.<method>(name, params, n_samples, ...) for every builder method of BayesianNet (normal, bernoulli, ..., onehot_discrete) and every old-style node class makes a node whose distribution is the named one with exactly the given parameters, dtype, group_ndims, reparameterisation and path-derivative flags and whose value has n_samples as its leading axis; aliases (Discrete, OnehotDiscrete, BinGumbelSoftmax, GumbelSoftmax, ...) equal what they alias.",
  ["inputs", "configurations"], "all builder methods, argument subsets and values",
  "a swapped or dropped argument is invisible when tests use defaults",
  [BN, "zhusuan/legacy/framework/stochastic.py", "zhusuan/legacy/distributions/special.py"], [("builder methods", BN), ("wrappers", "zhusuan/legacy/framework/stochastic.py")], [], ["log_prob/cond_log_p values", "attributes and shapes"])
p("C23", "Invalid arguments are refused, not silently accepted",
  "Constructors and calls refuse with an error (at construction or at the latest at run time): parameters of different or non-float dtypes, sample dtypes that are not int or float, both or neither of std and logstd, n_experiments that is not a positive integer scalar, temperatures and n_samples that are not scalars, too small ranks, shapes that do not broadcast or match, a given that does not broadcast with the batch, group_ndims that is negative, fractional or not a scalar, Dirichlet parameters with fewer than two categories, and, with check_numerics, parameters whose derived quantities are not finite. HMC, AIS and the SGMCMC samplers refuse latents that are not tensorflow Variables, and HMC (AIS) a log joint of unknown rank, a fractional number of leapfrog steps, switches that are not booleans and mass adaptation without step size adaptation; a meta net's log_joint that is not callable and names that are not strings are refused where they are used. Uses that are valid are accepted.",
  ["inputs", "configurations"], "all argument combinations, static or fed at run time",
  "the static and run-time branches of each check need both valid and invalid inputs in every position",
  [D + "utils.py", D + "univariate.py", D + "multivariate.py", D + "base.py", "zhusuan/hmc.py", "zhusuan/sgmcmc.py", BN], [("assert_* helpers", D + "utils.py"), ("constructors", D + "univariate.py, multivariate.py")], [], ["exceptions at construction and at session.run"])
p("C24", "log_sum_exp and log_mean_exp are exact and stable",
  "log_sum_exp(x, axis, keepdims) and log_mean_exp equal the mathematical log of the sum (mean) of exp(x) over the given axes for every finite or infinite input, without overflow or cancellation, with the shape of the corresponding reduction.",
  ["inputs", "configurations"], "all inputs including infinities, all axes",
  "overflow, ties with infinities and negative axes are outside the sampled inputs",
  ["zhusuan/utils.py"], [("log_sum_exp, log_mean_exp", "zhusuan/utils.py")], [], ["returned values and shapes"])

p("C25", "Observations are kept as given or refused, and a refused one changes nothing",
  "An observation given to a node in any form (number, list, numpy array, tensor, variable, another node, placeholder) and any way (observe(), BayesianNet(observed=...), an old-style node's observation= argument, a node outside any net) is either kept or refused. It is refused if its type is not the node's (tensor-like forms need the same type, Python floats are not integers) or its static shape cannot broadcast with the distribution's batch and value shape. A kept observation is the node's value with exactly the entries and shape it was given in, and the node's conditional log density is that of this value; where shapes are unknown until the graph runs a mismatch fails then. A refused observation raises and leaves the net as it was: its nodes, its log joint, and the name still free.",
  ["inputs", "configurations", "fault_sequences"], "all forms, types, static knowledge and shapes of observations, sample types, batch and value shapes, ways to observe, one or two nodes in a net",
  "tests try one fitting and one misfitting constant; forms, partial shapes and what is left behind after a refusal are not sampled",
  [BN], [("StochasticTensor._check_observation", BN), ("StochasticTensor.__init__ registration", BN)],
  [("nodes", "the nodes a net has", BN)], ["node values, cond_log_p, log_joint", "exceptions", "BayesianNet.nodes"])
p("C26", "Implicit is a point mass at its tensor and Empirical can only be observed",
  "A node or distribution Implicit(samples, value_shape) has samples as its only value: sampling once gives that tensor (asking for several samples is refused), batch_shape is the shape without the value axes, and its probability is, per value and then grouped by group_ndims, 1 (infinite for float types) where a given value equals the tensor in all its entries and 0 elsewhere, log_prob being its logarithm. Empirical(dtype, batch_shape, value_shape) refuses to be sampled or evaluated, and is a node's distribution only under an observation; it is continuous iff its type is a float, unless told otherwise.",
  ["inputs", "configurations"], "all tensors, value ranks, groupings, given values with leading axes",
  "no test exists for them",
  ["zhusuan/legacy/distributions/special.py", "zhusuan/legacy/framework/stochastic.py"], [("Implicit, Empirical", "zhusuan/legacy/distributions/special.py")], [], ["values, shapes and errors of sample/prob/log_prob", "nodes in a net"])
p("C27", "An objective is one evaluation of its model at the posterior's one draw",
  "A variational objective (elbo, importance weighted, klpq) stands for the posterior's latent nodes and the observations as they are when it is made: nodes added to the posterior and changes of the dictionaries handed over do not reach it. It evaluates its model (or log joint function, which gets exactly the latent and observed names) at most once, under the user's observations and otherwise the posterior's one draw per latent node, also when several objectives share a posterior or a meta net; its value, all its surrogate costs and its net (.bn, None for functions; .variational and .meta_bn are what was given) read from that one evaluation, in any order and however often. An objective whose model net has a node that is neither observed nor covered by the posterior is refused whenever it is asked for its value, a cost or its net, every time.",
  ["histories", "fault_sequences", "configurations"], "all interleavings of building the posterior, making objectives, altering dictionaries and asking",
  "tests make one objective and ask it one thing; what is shared, memoised or left behind by a refused request shows only over several requests",
  ["zhusuan/variational/base.py", "zhusuan/variational/exclusive_kl.py", "zhusuan/variational/monte_carlo.py", "zhusuan/variational/inclusive_kl.py"],
  [("bn / _log_joint_term / _entropy_term", "zhusuan/variational/base.py"), ("__init__", "zhusuan/variational/base.py")],
  [("_bn, _tensor, _log_joint_cache", "what an objective has evaluated", "zhusuan/variational/base.py")], ["values of objectives and costs", "number of runs of the model function", "identity of .bn", "errors"])


def main():
    from suites import PROPS
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        if x["id"] in PROPS:
            q = PROPS[x["id"]]
            mods = sorted({s["module"] for s in q["suites"]})
            checks.append({"property": x["id"],
                           "quick_cmd": "python3 check.py %s --tier quick" % x["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"],
                           "technique": "TLA+ specification (%s) model-checked with TLC; behaviours enumerated by TLC replayed into the real code%s" % (
                               ", ".join("specs/%s.tla" % m for m in mods),
                               "; recorded traces checked by TLC" if any(s.get("trace") for s in q["suites"]) else ""),
                           "level": q["level"],
                           "level_note": q.get("note") or "bounded: the specification is explored exhaustively within the bounds in suites.py (see DESIGN.md), larger behaviours by seeded TLC simulation; the code is bound to it by replay of the enumerated behaviours",
                           "evidence_file": "evidence/%s.json" % x["id"]})
        else:
            na.append({"property": x["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "none (no hooks: the code is driven and observed through its public API and TensorFlow's op constructors)",
                   "enable": "", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "fix: commits in /repo are listed in known_findings.json; see DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        s = json.load(open("/root/.vp/MANIFEST.schema.json"))
        jsonschema.validate(m, s)
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for x in P:
            jsonschema.validate(x, s)
        print("schemas ok, %d checks, %d properties" % (len(checks), len(P)))
    except ImportError:
        print("no jsonschema")


main()
