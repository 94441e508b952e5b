"""writes /verif/properties.jsonl (kept as code so that the long texts stay readable)"""
import json, os

def P(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    return dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier={"over": over, "text": " ".join(text.split())},
        why_tests_cant=" ".join(why.split()),
        anchors={"files": files,
                 "state": [dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                 "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                 "observe_at": observe, "hook_needed": None})

S = "src/bayesbay/"
MC, ST, SA, LL = S+"_markov_chain.py", S+"_state.py", S+"samplers/_samplers.py", S+"likelihood/_log_likelihood.py"
TG, BI, UT = S+"likelihood/_target.py", S+"_bayes_inversion.py", S+"_utils.py"
PS, PZ = S+"parameterization/_parameter_space.py", S+"parameterization/_parameterization.py"
DI, VO, PR = S+"discretization/_discretization.py", S+"discretization/_voronoi.py", S+"prior/_prior.py"
PB = S+"perturbations/"
U1 = S+"_utils_1d.pyx"

props = [
P("C01", "Without data, a chain samples exactly the declared prior",
  """Starting from a draw of the declared prior and with an uninformative likelihood, the state of a chain is
  distributed according to that same prior after any number of iterations, for every parameterization that can be
  declared (fixed and trans-dimensional parameter spaces, 1D and 2D Voronoi discretizations, nested spaces, every kind
  of prior, position-dependent hyper-parameters, birth from prior or from neighbour). In particular the log ratio
  returned with every proposal equals log of (prior ratio x proposal ratio) of the move actually made, is minus
  infinity exactly for proposals outside the prior support or moves that are impossible, and is reversible.""",
  ["inputs", "histories", "configurations"],
  "every parameterization, every current state reachable from the prior, every random draw of the proposals, every number of iterations",
  """the test scripts compare one histogram per kind of space from a single random seed, mostly by eye; none covers
  nested/neighbour births with all priors, 2D position-dependent priors, or the exact ratio of each proposal""",
  [PR, PS, DI, VO, PB+"_param_values.py", PB+"_birth_death.py", PB+"_param_space.py", MC],
  [("prior ratio of a perturbed value", PR+": perturb_value of each prior"),
   ("birth/death ratio from prior and from neighbour, recursive for nested discretizations", DI+": _initialize_params_from_neighbour, _sample_from_neighbour, _log_prob_death_parameters, _log_prob_death_ps_state"),
   ("site move with position-dependent priors", VO+": perturb_value"),
   ("uniform choice among the nested spaces of one name", PB+"_param_space.py: perturb")],
  ["state and log ratio returned by each perturbation function", "current_state of the chains"]),

P("C02", "A chain leaves the posterior of the declared prior and likelihood invariant",
  """When the state of a chain is a draw from the (tempered) posterior given the observed data, it still is after any
  number of iterations; this holds for targets with known (scalar, diagonal, full) or unknown (uncorrelated or
  correlated) data noise, several targets at once, and user-provided log likelihood or log likelihood ratio functions.
  Unknown noise parameters have a uniform prior between their bounds and are sampled jointly with the model.""",
  ["inputs", "histories", "configurations"],
  "every parameterization, data set, noise model, form of the likelihood, temperature, and number of iterations",
  """no test has data in it: all the test scripts sample the prior with a constant likelihood, so that the interplay of
  proposals, noise perturbation, likelihood, temperature and acceptance is never executed""",
  [MC, LL, TG, PB+"_data_noise.py", U1, PR, PS, DI, VO],
  [("acceptance with tempered likelihood ratio", MC+": _next_iteration"),
   ("misfit and determinant of the covariance", LL+": _get_misfit_and_det; "+TG+": inverse_covariance_times_vector, log_determinant_covariance; "+U1+": inverse_covariance"),
   ("noise proposals", PB+"_data_noise.py")],
  ["current_state of the chains", "saved samples"]),

P("C03", "Proposals are accepted with the Metropolis-Hastings-Green probability",
  """In each iteration the proposed state replaces the current one with probability min(1, exp(r + l)), where r is the
  log ratio returned by the perturbation function and l the tempered log likelihood ratio of the two states, using fresh
  randomness each time; otherwise the current state is kept. Proposals with r + l >= 0 are always accepted, and those
  whose prior ratio is minus infinity, or whose log probability is NaN or minus infinity, never are.""",
  ["inputs", "histories", "configurations"],
  "every pair of states, every perturbation function and likelihood function of the low- and high-level API, every temperature, every number of chains",
  """no test observes acceptance; a wrong acceptance rule shows up only in the distribution over many decisions""",
  [MC, LL],
  [("acceptance", MC+": _next_iteration"), ("tempering", LL+": log_likelihood_ratio")],
  ["current_state before/after each iteration", "statistics['n_accepted_models_total']"]),

P("C04", "Only acceptance changes the current state, and saved samples never change",
  """A chain's current state changes only when a proposal is accepted, and then becomes exactly the proposed state: being
  proposed from, rejected, failing in a user function, swapped, saved or copied never alters any value of the current
  state or of another chain's state. Samples already saved are never altered by anything that happens afterwards.""",
  ["histories", "fault_sequences", "configurations"],
  "every history of accepted, rejected and failing proposals, every nesting of parameter spaces, every sampler",
  """states share arrays and nested states with each other by design, so that an in-place change somewhere corrupts an
  earlier state or sample only after a particular sequence of moves; tests look at final histograms only""",
  [ST, PS, DI, VO, PB+"_param_values.py", PB+"_param_space.py", PB+"_data_noise.py", MC],
  [("copy on perturb", ST+": State.copy, ParameterSpaceState.copy"), ("new arrays at birth/death/perturbation", U1+": insert_1d, delete_1d; "+VO+": perturb_value")],
  ["current_state before/after each iteration", "saved_states during and after the runs"]),

P("C05", "Every state is valid and all its views agree",
  """Every state a user function receives, and every current or saved state, has a number of dimensions within the declared
  bounds, as many values of each parameter as dimensions (recursively in nested spaces), sites inside the domain and sorted
  in 1D, values within the support of their prior, noise parameters within their bounds and the temperature of its chain as current state.
  All ways of reading it (item, attribute, dictionary, items, cached kd-tree) return the same values.""",
  ["histories", "inputs", "configurations"],
  "every sequence of perturbations from every initial state of every parameterization; states with zero prior probability are excluded, since user functions are never called with them",
  """tests never look at intermediate states; inconsistent views (e.g. a stale attribute or kd-tree) appear only after
  particular sequences of moves in particular nestings""",
  [ST, PS, DI, VO, PB+"_param_values.py", PB+"_param_space.py", PB+"_data_noise.py", TG, MC],
  [("construction and checks of states", ST+": __post_init__, set_param_values"), ("kd-tree upkeep", VO+": Voronoi2D._add_kdtree_to_ps_state"), ("bounds of the dimensions", PS+", "+VO+": birth, death")],
  ["states passed to forward functions", "current_state", "saved_states"]),

P("C06", "The right iterations are saved, with the values of the current state",
  """A chain at unit temperature saves its current state after iteration i (counted over all runs) if and only if
  i > burnin_iterations and (i - burnin_iterations) is a multiple of save_every; every saved list gains one entry per saved
  iteration, in order, equal to the values of the state at that moment, whether the proposal was accepted or not.
  Parameter values, sites, number of dimensions of trans-dimensional spaces, noise parameters, nested spaces and
  states that are dictionaries or any other objects are all saved this way.""",
  ["histories", "configurations", "schedules"],
  "every n_iterations, burnin_iterations, save_every, number of runs, sampler, backend and type of state",
  """tests use one schedule (a fixed save_every, one run) and never compare what is saved with the state at that iteration""",
  [MC, ST, SA],
  [("schedule", MC+": advance_chain"), ("saving", MC+": _save_state"), ("expansion of a state", ST+": State._vars, todict")],
  ["saved_states of each chain"]),

P("C07", "Predicted data and extra storage are saved in step with the samples",
  """With save_dpred on, each saved sample comes with the data predicted by each target's forward function for exactly that
  state, and with extra_storage entries written by the forward function for that state; with save_dpred off no predicted
  data are saved. Saved lists of predicted data have the same length and order as the parameters, also before the first
  acceptance, after rejections, temperature swaps, failures and targets added in between.""",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of accepted, rejected, out-of-prior and failing proposals, every sampler and backend, any names of targets and extra entries",
  """no test has a forward function that depends on the state, nor checks predicted data""",
  [MC, LL, ST],
  [("cache of predicted data", LL+": _get_misfit_and_det"), ("saving", MC+": _save_state")],
  ["saved_states of each chain", "get_results"]),

P("C08", "The statistics of a chain are a faithful ledger of its iterations",
  """The totals of explored and accepted models of a chain increase by one per completed iteration and per acceptance, and
  the counts per perturbation (and per sub-perturbation of parameter spaces) are those of the perturbations actually
  proposed and accepted, so that they sum to the totals. Failed attempts are counted once each, under the class of the
  exception, and nowhere else; printing statistics never changes them.""",
  ["histories", "fault_sequences", "configurations"],
  "every history of proposals, acceptances, rejections and failures over any number of runs, samplers and backends",
  """no test reads the statistics""",
  [MC, PB+"_param_space.py"],
  [("ledger", MC+": _save_statistics, print_statistics"), ("sub-perturbation share", PB+"_param_space.py: perturb")],
  ["statistics of each chain", "printed statistics"]),

P("C09", "Transient failures of user functions are absorbed",
  """When a user-provided forward, likelihood or perturbation function raises an exception, the attempt is
  discarded without any effect other than being counted and the iteration is retried with a new proposal, up to 500 attempts; the run
  completes all its iterations if some attempt succeeds. After 500 failed attempts in one iteration the run stops with a RuntimeError naming the chain and
  carrying the last exception as its cause.""",
  ["fault_sequences", "histories", "configurations"],
  "every position and length of the failures, every user function and form of the likelihood, every sampler (temperature swaps included) and backend",
  """no test has a failing user function""",
  [MC, UT, LL, SA, S+"exceptions/_exceptions.py"],
  [("retry loop", MC+": _next_iteration"), ("wrapping of user functions", UT+": _FunctionWrapper"), ("failures during swaps", SA+": on_end_advance_chain")],
  ["completion of run()", "statistics['exceptions']", "current_state, saved_states"]),

P("C10", "An interrupted or failed run leaves a consistent, resumable inversion",
  """When a run ends early (interruption by the user, exhausted retries, an error in a callback, a dying worker), every chain
  is left at an iteration boundary: its saved samples, predicted data and statistics are exactly those of
  its completed iterations or of the last completed parallel batch, with no partial entry. The inversion can be run again and then
  behaves like one that was never interrupted, and its results can be retrieved.""",
  ["crash_points", "fault_sequences", "histories"],
  "an exception of any kind at any call of any user function or callback, in any chain, with any sampler and backend; worker death before, during and after a chain's task",
  """tests never interrupt a run""",
  [MC, SA, BI],
  [("state is replaced before bookkeeping in one iteration", MC+": _next_iteration"), ("chains are replaced only when all tasks are back", SA+": advance_chain")],
  ["chains of the inversion after the exception", "results of the following run"]),

P("C11", "Results do not depend on the backend, on the schedule or on other chains",
  """Chains advance independently: for given random numbers per chain, states, samples and statistics after run() are the
  same whether the chains are advanced serially, by processes or by threads, with any number of workers and in any order
  or interleaving. Chains keep their identity and order, none is lost, duplicated or advanced twice, and nothing a chain
  does is visible in another one.""",
  ["schedules", "configurations", "histories"],
  "every assignment of chains to workers, completion order, thread interleaving and number of jobs, for every sampler and repeated runs",
  """tests run with real processes whose schedule is not controlled and look at pooled histograms only""",
  [SA, MC, BI, LL, PR],
  [("parallel map over the chains", SA+": advance_chain"), ("no state shared between chains but the read-only problem definition", LL+", "+PZ), ("pickling of user functions", UT)],
  ["chains of the inversion after run()", "get_results"]),

P("C12", "Temperatures follow the declared ladder or cooling schedule",
  """Parallel tempering starts with the declared fraction of chains (at least two) at unit temperature and the others
  geometrically spaced up to the maximum, only ever permutes these temperatures, and at each moment only chains at unit
  temperature save samples. Simulated annealing cools each chain exponentially from temperature_start to 1 over the
  burn-in, stays at 1 afterwards, and saves only then; the vanilla sampler does not change temperatures.""",
  ["histories", "schedules", "configurations"],
  "every number of chains (two or more for parallel tempering), maximum temperature, fraction, swap period, burn-in, number of runs and backend",
  """no test uses a sampler other than the default one""",
  [SA, MC],
  [("ladder", SA+": ParallelTempering.on_initialize"), ("swap", SA+": ParallelTempering.on_end_advance_chain"), ("cooling", SA+": SimulatedAnnealing.on_begin_iteration"), ("saving at unit temperature", MC+": _next_iteration")],
  ["temperature of each chain at each iteration", "saved_states"]),

P("C13", "Temperature swaps satisfy detailed balance",
  """In parallel tempering two distinct chains, chosen uniformly, exchange their temperatures with probability
  min(1, exp((1/T1 - 1/T2) (log L(m2) - log L(m1)))), as many times as there are chains after each batch of swap_every
  iterations, and a swap exchanges nothing but temperatures. Chains at unit temperature therefore sample the
  untempered posterior.""",
  ["histories", "schedules", "configurations"],
  "every pair of temperatures and states, every form of likelihood, swap period and number of chains",
  """no test uses parallel tempering""",
  [SA, LL],
  [("swap", SA+": ParallelTempering.on_end_advance_chain"), ("batches", SA+": ParallelTempering.run")],
  ["temperatures before and after each batch", "samples saved at unit temperature"]),

P("C14", "The likelihood used is that of the states compared, along any history",
  """The log likelihood ratio of two states equals, at every moment of a run, the difference of their Gaussian log
  likelihoods computed from scratch (predicted data of each state, residuals to the observed data, declared or current
  noise covariance including its determinant when the noise is unknown, summed over targets), or the value of the user's
  log likelihood functions, divided by the temperature. What was computed earlier, for other states, chains, targets or temperatures,
  never leaks into it.""",
  ["histories", "inputs", "configurations"],
  "every pair of states of any history, noise model, number and size of targets (one or two data points included), temperature and backend",
  """no test evaluates a likelihood of data; a stale cached prediction shows up only after particular histories""",
  [LL, TG, U1, ST, PB+"_data_noise.py"],
  [("cache of predicted data per state", LL+": _get_misfit_and_det"), ("covariance", TG), ("cache is dropped by copy", ST+": State.copy")],
  ["value of log_likelihood_ratio", "acceptance decisions"]),

P("C15", "Targets added to an inversion take effect on all its chains",
  """After targets and forward functions are added to the (target-based) likelihood of an existing inversion, before or between runs and
  whatever backend was used before, every chain uses all targets from the next iteration on: the likelihood includes them, unknown noise of
  new targets is initialized within bounds in each chain and perturbed, and their predicted data are saved. Samples and
  statistics gathered before are kept.""",
  ["histories", "configurations", "schedules"],
  "every moment at which targets are added, every kind of target and forward function, every sampler and backend",
  """no test adds targets to an inversion""",
  [LL, BI, MC, TG],
  [("observers", LL+": add_targets, add_targets_observer"), ("update of the chains", BI+": update_log_likelihood_targets; "+MC+": update_targets")],
  ["saved_states", "acceptance decisions and states after the next run"]),

P("C16", "Perturbations are chosen with the declared weights and reach every unknown",
  """In each attempt one perturbation is chosen with probability proportional to the declared weights (each parameter
  space by the total weight of its moves, then the move within it: birth 1, death 1, parameter values 3, sites 1; all unknown
  noise together 1; equal weights by default for user-defined functions), whatever was chosen before. Each nested space of the same name is equally likely to be
  perturbed, each position in it too, and every unknown parameter is eventually changed.""",
  ["histories", "configurations", "inputs"],
  "every parameterization, set of targets, list of perturbation functions and weights, every history",
  """tests do not count perturbations; an unknown that is never perturbed looks like a converged one""",
  [PS, VO, PZ, LL, BI, MC, PB+"_param_space.py", PB+"_param_values.py", PB+"_data_noise.py"],
  [("weights", PS+", "+VO+": _init_perturbation_funcs; "+LL+": _init_perturbation_funcs"), ("choice", MC+": _next_iteration; "+PB+"_param_space.py: perturb; "+PB+"_param_values.py")],
  ["statistics of each chain", "difference of consecutive proposals and current states"]),

P("C17", "Sampler callbacks are called exactly once, in order, at the documented moments",
  """Functions registered on a sampler are called in the order of registration: on_initialize ones once per run before any
  iteration with all the chains, on_begin_iteration and on_end_iteration ones exactly once before and after every
  iteration of every chain with that chain, and on_end_advance_chain ones exactly once after each batch of iterations of all the chains. The hooks of a custom sampler are called
  at the same moments, before the registered functions.""",
  ["schedules", "histories", "configurations"],
  "every sampler, custom samplers included, number of chains, batches, runs, workers and interleaving",
  """no test registers a callback""",
  [SA, MC, BI],
  [("dispatch", SA+": initialize, begin_iteration, end_iteration, end_advance_chain, advance_chain"), ("calls", MC+": advance_chain")],
  ["sequence of calls"]),

P("C18", "get_results returns every saved sample exactly once",
  """For any chains, get_results returns the saved samples of all of them without loss, duplication or reordering:
  concatenated chain after chain, or as one list per chain when concatenate_chains is off, restricted to the requested
  keys if any. Reading the results at any moment, any number of times, never changes what the chains hold or
  what later calls return.""",
  ["histories", "configurations", "inputs"],
  "every number of chains and runs, type of state, sampler (chains that saved nothing included), selection of keys and moment of the call",
  """tests call it once with default arguments and look at histograms""",
  [BI],
  [("collection", BI+": get_results_from_chains")],
  ["returned results compared with saved_states of the chains"]),

P("C19", "Initial states are valid draws distributed as declared",
  """Each chain starts from its own independent state, with a number of dimensions drawn uniformly from the lowest fraction (n_dimensions_init_range) of
  the declared range or fixed, sites uniform over the domain, parameter values drawn from their priors at their positions or by the custom
  initialization function, and unknown noise uniform between its bounds. Nested spaces are initialized in the same way,
  independently for each position.""",
  ["inputs", "configurations", "histories"],
  "every parameterization and set of targets, every random stream",
  """tests look at samples after many iterations only, or at one seed""",
  [PZ, PS, VO, PR, TG, MC],
  [("initialize", PS+", "+VO+": _initialize; "+PR+": initialize; "+TG+": initialize")],
  ["current_state of the chains before the first run"]),

P("C20", "Runs add up: every chain advances exactly as many iterations as requested",
  """A call of run() advances every chain by exactly n_iterations, for every sampler, swap period and backend, also when the inversion was run
  before. With the vanilla and simulated annealing samplers, splitting a run into several ones with the same settings gives the same
  states, samples and statistics as a single run, given the same random numbers.""",
  ["histories", "configurations", "schedules"],
  "every sequence of run lengths (0 and 1 included), sampler, swap period not dividing the length, burn-in crossing the boundary between runs, backend",
  """tests call run() once with the default sampler""",
  [SA, MC, BI],
  [("iteration count continues across runs", MC+": ith_iteration, advance_chain"), ("batches", SA+": ParallelTempering.run"), ("cooling continues", SA+": SimulatedAnnealing")],
  ["statistics['n_proposed_models_total'] of each chain", "saved_states"]),

P("C21", "A seeded serial run is repeatable and observing it changes nothing",
  """With the global random generators of Python and numpy seeded, a serial inversion gives bit-identical states, samples
  and statistics in every process, whatever the hash seed. Verbosity, print_every, repr, str, reading results or statistics
  between runs, and samplers' empty callbacks never change the outcome.""",
  ["histories", "configurations", "schedules"],
  "every problem, sampler and sequence of runs with observations in between",
  """tests run once per seed and compare with nothing""",
  [MC, SA, BI, PS, VO, PR, LL],
  [("all randomness comes from random and numpy.random", "src/bayesbay"), ("printing reads only", MC+": print_statistics")],
  ["states, samples and statistics of two executions"]),

P("C22", "Tessellation geometry and interpolation utilities return the documented values",
  """Cell extents, interfaces, interpolated values and statistics of given tessellations are those defined in the
  documentation for every set of sites and query points.""",
  ["inputs"], "every set of sites, bounds, fill values and query positions",
  "the tests call a few of them in forward functions with constant likelihood",
  [VO, U1], [("compiled utilities", U1), ("static methods", VO+": compute_cell_extents, interpolate_tessellation, get_tessellation_statistics")],
  ["returned arrays"]),

P("C23", "Hyper-parameters and densities of priors are as documented at each position",
  """For every position in the domain, the hyper-parameters of a prior are the linear interpolation of the declared ones
  and its log density is the documented formula, out-of-domain positions being refused.""",
  ["inputs"], "every prior, value and position",
  "test 20 compares a few values of the log prior",
  [PR, U1], [("interpolation", PR+": get_hyper_param, _init_hyper_param"), ("densities", PR+": log_prior")],
  ["returned numbers"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props))
