#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
S = 'GPyOpt/core/task/space.py'; V = 'GPyOpt/core/task/variables.py'; BO = 'GPyOpt/core/bo.py'
EV = 'GPyOpt/core/evaluators/'; OP = 'GPyOpt/optimization/'; AC = 'GPyOpt/acquisitions/'
ED = 'GPyOpt/experiment_design/'; G = 'GPyOpt/util/general.py'; OB = 'GPyOpt/core/task/objective.py'
CO = 'GPyOpt/core/task/cost.py'; DM = 'GPyOpt/util/duplicate_manager.py'; AM = 'GPyOpt/util/arguments_manager.py'
ME = 'GPyOpt/methods/bayesian_optimization.py'; GP = 'GPyOpt/models/gpmodel.py'
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'Every suggested point is a legal point of the declared search space',
  'Every point the optimizer suggests, or evaluates beyond the data the user supplied, is legal: each continuous coordinate lies inside its declared interval, each discrete coordinate is one of its declared values, each categorical coordinate is one of its declared category codes, and a bandit suggestion is one of its declared arms. This holds whatever the local search returns, for every evaluator and batch size.',
  ['inputs', 'configurations', 'histories'],
  'for every domain (any number and mix of non-bandit variables, or bandits), every surrogate and acquisition, every evaluator and batch size, and every vector the local search or the candidate sampler can return',
  'Functional tests run a few fixed-seed configurations and compare stored numbers; a legality bug shows only for particular mixes of variable types, batch positions or local-search results.',
  [S, V, OP + 'optimizer.py', OP + 'anchor_points_generator.py', EV + 'base.py', EV + 'batch_random.py', EV + 'batch_thompson.py', ED + 'random_design.py'],
  [('rounding of a model-space vector to the domain', V + ' round(); ' + S + ' round_optimum()'),
   ('rounding after local search', OP + 'optimizer.py apply_optimizer()'),
   ('candidate sampling', ED + 'random_design.py, ' + OP + 'anchor_points_generator.py'),
   ('decoding of suggestions', BO + ' _compute_next_evaluations()')],
  observe=['return value of suggest_next_locations', 'the X matrix after a run', 'inputs the objective receives'])

p('C02', 'Encoding to the model space and rounding are faithful',
  'Translating any legal point to the model representation and back returns the same point; that representation has, in declaration order, one column per continuous or discrete coordinate and one indicator column per category with exactly one entry equal to 1, and always lies within the reported model bounds. Rounding any real vector returns, variable by variable, the nearest legal value (clipping to the interval, closest listed value, largest indicator, closest arm) and leaves legal points unchanged.',
  ['inputs', 'configurations'],
  'for every list of variable declarations, every legal point, and every real vector of the model dimension',
  'Unit tests check a handful of hand-written domains and vectors; nothing covers every ordering of variables, offsets after a categorical variable, or arbitrary vectors.',
  [S, V], [('per-variable encoding', V + ' objective_to_model()/model_to_objective()'), ('offset bookkeeping', S + ' unzip_inputs()/zip_inputs()/model_to_objective()'), ('rounding', V + ' round(), ' + S + ' round_optimum()'), ('bounds', V + ' get_bounds()')],
  state=[('index_in_model', 'columns of a variable in the model representation', S + ' _compute_variables_indices()')])

p('C03', 'Context values are respected exactly and only free variables are searched',
  'When some variables are fixed to given values (a context), every suggested point carries exactly those values, the remaining variables stay legal, and a later request without a context searches all variables again. The function and gradient handed to the local search are the acquisition with the fixed values filled in at their own columns, the gradient being restricted to the free columns and the search bounds being those of the free columns.',
  ['inputs', 'configurations', 'histories'],
  'for every non-bandit domain, every proper subset of its variables fixed to legal values (in any order of the context entries), every acquisition and evaluator',
  'Tests fix one or two variables in one small domain; column mix-ups appear only for particular subsets, orders or categorical variables in the context.',
  [OP + 'acquisition_optimizer.py', OP + 'optimizer.py', OP + 'anchor_points_generator.py', BO],
  [('index and value bookkeeping', OP + 'acquisition_optimizer.py ContextManager'), ('expansion', OP + 'acquisition_optimizer.py _expand_vector()'), ('wrapped objective', OP + 'optimizer.py OptimizationWithContext'), ('context on candidates', OP + 'anchor_points_generator.py get()')])

p('C04', 'De-duplication never repeats an evaluated, pending or ignored point',
  'With de-duplication switched on, no suggested point equals a point already evaluated, declared pending or declared ignored, and no two points of a batch filled by random or Thompson sampling are equal. If every candidate is excluded, an explicit fully-explored error is raised instead of returning a repeat.',
  ['inputs', 'histories', 'configurations'],
  'for every history of evaluated points, every pending and ignored matrix (including all-zero ones), every domain, evaluator, batch size and context',
  'Tests use small discrete domains with one seed; the interesting cases are collisions caused by rounding, by zero-valued points and by the in-batch bookkeeping.',
  [DM, EV + 'base.py', OP + 'optimizer.py', OP + 'anchor_points_generator.py', BO],
  [('set of excluded points', DM), ('exclusion of starts', OP + 'anchor_points_generator.py get()'), ('fallback after rounding', OP + 'optimizer.py apply_optimizer()'), ('in-batch bookkeeping', EV + 'base.py compute_batch()')])

p('C05', 'The evaluation history is append-only and aligned with the objective',
  'The recorded inputs and outputs always have the same number of rows, output row i being the value of the objective (negated when maximizing) at input row i; earlier rows never change or move as a run proceeds or is resumed. Each suggested point is evaluated exactly once, and data supplied by the user come first, unevaluated if their outputs were supplied.',
  ['inputs', 'histories', 'configurations'],
  'for every objective, every initial data set, every sequence of runs and suggestions and every batch size',
  'Tests inspect final results of a few seeded runs; alignment over arbitrary histories, batch sizes and resumed runs is never quantified over.',
  [BO, OB, ME], [('augmentation of X and Y', BO + ' run_optimization()/evaluate_objective()'), ('row-by-row evaluation', OB + ' _eval_func()'), ('sign for maximization', ME + ' _sign()')],
  state=[('X, Y', 'evaluated inputs and outputs, one row each', BO)])

p('C06', 'A run stops within its budget and only for a stated reason',
  'A run performs at most the requested number of acquisition steps, and exactly that many unless the time budget was used up, the last two recorded points are within the tolerance, or the surrogate update failed numerically. Every step evaluates exactly one batch, a budget of zero evaluates nothing, and leaving a limit out means there is no limit of that kind.',
  ['inputs', 'histories', 'fault_sequences', 'configurations'],
  'for every iteration limit, time limit and tolerance (each possibly absent), every clock behaviour, and every sequence of suggestions and surrogate outcomes',
  'Tests run a few fixed iteration counts; off-by-one behaviour under time limits, tolerances, absent limits and surrogate failures is not covered.',
  [BO], [('loop guard and counters', BO + ' run_optimization()'), ('distance of last evaluations', BO + ' _distance_last_evaluations()')],
  state=[('num_acquisitions', 'acquisition steps performed in this run', BO)])

p('C07', 'Reported optimum and convergence trace match the recorded data',
  'After any run the reported optimal value is the minimum of all recorded outputs and the reported optimal input is a recorded input at which that minimum was observed. The convergence trace has one entry per evaluation, entry i being the best output among the first i+1 evaluations.',
  ['inputs', 'histories'],
  'for every data set with at least one evaluation, including ties and runs of zero further steps',
  'Tests compare a few stored numbers and never quantify over data sets, ties or repeated runs.',
  [BO, G], [('result computation', BO + ' _compute_results()'), ('running minimum', G + ' best_value()')])

p('C08', 'The surrogate is fitted on all data, faithfully encoded and normalised',
  'At every update the surrogate receives one row per recorded evaluation, in order: the inputs in their model encoding and the outputs, standardised exactly when normalisation is enabled; updates happen at the steps whose number is a multiple of the update interval. Standardisation is an increasing affine map giving non-constant data mean 0 and standard deviation 1 (or range -1 to 1 in the range mode), gives zeros (the centred data) for constant data, and never changes the recorded outputs.',
  ['inputs', 'histories', 'configurations'],
  'for every data set, update interval, normalisation setting and domain',
  'Tests normalise two or three vectors; that recorded outputs are not modified and that the surrogate sees all rows is not asserted for arbitrary runs.',
  [BO, G, S], [('model update', BO + ' _update_model()'), ('normalisation', G + ' normalize()'), ('encoding', S + ' unzip_inputs()')])

p('C09', 'Acquisition values match their formulas and gradients are exact',
  'Expected improvement, probability of improvement and lower confidence bound equal their closed-form expressions of the surrogate mean, standard deviation and incumbent (averaged over hyper-parameter samples in the integrated versions), and the returned gradient is the exact derivative of the returned value. Value-only and value-with-gradient evaluations agree: both are divided by the evaluation cost, multiplied by the feasibility indicator and negated for minimisation, except that the lower confidence bound ignores cost.',
  ['inputs', 'configurations'],
  'for every surrogate mean, standard deviation, gradients, incumbent, jitter or exploration weight, positive cost function, number of samples and points',
  'Tests compare a few hand-computed numbers on mocked surrogates; sign, chain-rule and per-row errors at other inputs are invisible to them.',
  [AC + 'base.py', AC + 'EI.py', AC + 'MPI.py', AC + 'LCB.py', AC + 'EI_mcmc.py', AC + 'MPI_mcmc.py', AC + 'LCB_mcmc.py', G],
  [('formulas', AC + ' _compute_acq()/_compute_acq_withGradients()'), ('cost and feasibility weighting', AC + 'base.py'), ('Gaussian quantiles', G + ' get_quantiles()')])

p('C10', 'Local penalization penalises exactly the chosen points and then resets',
  'While a batch is built by local penalization, the searched function is the log-transformed base acquisition plus one penalty for each point already chosen for this batch, each penalty being the log-probability given by that point\'s distance, radius and scale, and its gradient is the derivative of that function. The first point of a batch is chosen without penalty, the batch has the requested size, and after it is complete no penalty remains.',
  ['inputs', 'configurations', 'histories'],
  'for every base acquisition value and gradient, chosen points, radii, scales, transform, batch size and evaluation point distinct from the chosen ones',
  'Tests check a handful of mocked numbers in one dimension and small batches.',
  [AC + 'LP.py', EV + 'batch_local_penalization.py'], [('penalised value and gradient', AC + 'LP.py'), ('batch construction', EV + 'batch_local_penalization.py compute_batch()')],
  state=[('X_batch', 'points already chosen for the current batch', AC + 'LP.py')])

p('C11', 'Initial designs have the promised size, shape and stay in the domain',
  'Random, Latin-hypercube and Sobol designs return exactly the requested number of legal points; the grid design (with at least one continuous coordinate) returns r to the power d points, d being the number of continuous coordinates and r the largest integer whose d-th power does not exceed the request, forming the full lattice of r evenly spaced values per coordinate. A Latin-hypercube design has one point in each of the n equal slices of every continuous coordinate; unknown design names, and constraints with grid, Latin or Sobol designs, are rejected.',
  ['inputs', 'configurations'],
  'for every domain, every requested count of at least 1 and every outcome of the random number generator',
  'Tests check shapes and bounds for a few counts; integer roots, column placement and mixed domains are not covered for all counts.',
  [ED + 'random_design.py', ED + 'grid_design.py', ED + 'latin_design.py', ED + 'sobol_design.py', ED + '__init__.py', S],
  [('integer root', ED + 'grid_design.py iroot()'), ('lattice', ED + 'grid_design.py multigrid()'), ('affine maps', ED + 'latin_design.py, ' + ED + 'sobol_design.py'), ('random filling', ED + 'random_design.py')])

p('C12', 'Constraints are honoured by designs, candidates and acquisitions',
  'A point is marked feasible exactly when every declared constraint expression is at most zero at it, row by row, and an expression that cannot be evaluated raises an error. Random designs and search starting points on a constrained domain contain feasible points only, and expected improvement and probability of improvement are zero at infeasible points, so a suggestion with strictly better than zero acquisition is feasible.',
  ['inputs', 'configurations'],
  'for every list of constraint expressions, every point set, every random outcome, with and without context',
  'Tests use one or two constraints at fixed points; rejection sampling and the weighting are not checked for all draws.',
  [S, ED + 'random_design.py', OP + 'anchor_points_generator.py', AC + 'base.py'],
  [('indicator', S + ' indicator_constraints()'), ('rejection sampling', ED + 'random_design.py get_samples_with_constraints()'), ('weighting', AC + 'base.py')])

p('C13', 'Surrogate predictions are positive-variance, consistent and side-effect free',
  'The Gaussian-process surrogate returns the regression\'s mean and the square root of its variance floored at a small positive constant, one row per query, with the standard-deviation gradient being the derivative of that square root wherever the floor is inactive, and its incumbent is the smallest posterior mean over the training inputs. The sampled-hyper-parameter surrogate returns one such result per sample, in order, and predicting leaves its parameters exactly as they were; copying a surrogate gives an independent one with the same settings and data.',
  ['inputs', 'configurations', 'histories'],
  'for every fitted regression, query matrix or vector, number of hyper-parameter samples and fixed or free parameters',
  'Tests compare a few numeric predictions; parameter restoration and floors are not asserted for all samples and queries.',
  [GP, 'GPyOpt/models/warpedgpmodel.py', 'GPyOpt/models/input_warped_gpmodel.py', 'GPyOpt/models/rfmodel.py'],
  [('prediction wrappers', GP + ' predict()/predict_withGradients()/get_fmin()'), ('parameter save and restore', GP + ' GPModel_MCMC')])

p('C14', 'Batches have the requested size and composition',
  'Without de-duplication every evaluator returns exactly the requested number of points (one for sequential); with it, random and Thompson batches hold at least one and at most the requested number. The sequential suggestion and the first point of a random batch are exactly the acquisition optimum, and the other points of random and Thompson batches are sampled candidates or their refinements.',
  ['inputs', 'configurations'],
  'for every batch size from 1 up to the number of sampled candidates, every acquisition, domain, candidate set and exclusion set',
  'Tests mock one acquisition and a batch size of one or two.',
  [EV + 'base.py', EV + 'sequential.py', EV + 'batch_random.py', EV + 'batch_thompson.py', EV + 'batch_local_penalization.py'],
  [('batch assembly', EV + 'base.py compute_batch()'), ('per-evaluator parts', EV + 'batch_random.py, batch_thompson.py, batch_local_penalization.py, sequential.py')])

p('C15', 'Evaluation cost is modelled from all observed times and weighted correctly',
  'Without a cost the cost is one with zero gradient everywhere; a user-supplied cost is used unchanged; with evaluation-time cost, the cost model holds exactly one entry per evaluated point, in order, with the logarithm of its observed time, and the cost is the exponential of the predicted mean with the matching gradient. Cost is positive in the built-in modes, and choosing one mode never silently switches to another.',
  ['inputs', 'histories', 'configurations'],
  'for every sequence of evaluated batches and observed positive times, and every query point',
  'Tests build one cost object and never follow it through the optimizer\'s history.',
  [CO, BO, ME], [('cost model', CO), ('updates from the loop', BO + ' evaluate_objective()')])

p('C16', 'Named options and configuration files select what they say',
  'Each documented name of a surrogate, acquisition, evaluator, local optimizer, design or variable type selects that component with the parameters the user gave, and an unknown name is rejected with an error. When a configuration is merged with the defaults, every value the user gives wins at every nesting level, everything not mentioned keeps its default, and the defaults themselves are unchanged.',
  ['inputs', 'configurations'],
  'for every documented option name, every parameter value and every nested configuration',
  'Tests check some option names with default parameters and no merged configuration.',
  [AM, ME, 'GPyOpt/interface/config_parser.py', 'GPyOpt/interface/driver.py', OP + 'optimizer.py', ED + '__init__.py', V],
  [('component creation', AM), ('merge', 'GPyOpt/interface/config_parser.py update_config()'), ('driver', 'GPyOpt/interface/driver.py')])

p('C17', 'Saved evaluations, models and reports reproduce the recorded data',
  'The saved evaluations file has a header and then one line per evaluation, in order, with its number, output and inputs exactly as recorded; the saved models file has one line per recorded surrogate state with its number and parameters. The report states the number of collected samples, the smallest recorded output and a recorded location attaining it; saving changes no recorded data.',
  ['inputs', 'histories'],
  'for every recorded history, dimension and set of parameters',
  'Tests only check that a file appears, or compare one stored file.',
  [BO, 'GPyOpt/interface/output.py'], [('evaluations file', BO + ' save_evaluations()'), ('models file', BO + ' save_models()'), ('report', BO + ' save_report()')])

p('C18', 'Entropy search keeps a normalised belief over the location of the minimum',
  'The belief about the location of the minimum that entropy search computes is a normalised probability over its representer points, and the joint-minimum approximation returns matching derivative shapes.',
  ['inputs', 'configurations'],
  'for every posterior mean vector and covariance over representer points',
  'Tests evaluate one fixed mean and covariance, and fail on the installed versions.',
  [AC + 'ES.py', 'GPyOpt/util/epmgp.py'], [('joint minimum by expectation propagation', 'GPyOpt/util/epmgp.py joint_min()'), ('representer points', AC + 'ES.py')])

p('C19', 'Parallel evaluation gives the same values in the same order',
  'Evaluating a batch on several cores returns, for every row, the same value in the same position as evaluating it on one core, with one entry per row, uses the number of cores the user configured, and gives every evaluation the constant cost one. If a worker fails, the batch is re-evaluated sequentially and the result is that of sequential evaluation.',
  ['inputs', 'schedules', 'fault_sequences', 'configurations'],
  'for every deterministic objective, batch (also smaller than the number of cores), number of cores and worker failure',
  'Tests evaluate one small batch with a working pool; ordering for uneven splits and failing workers are not covered.',
  [OB, ME, G], [('strided split and merge', OB + ' _syncronous_batch_evaluation()'), ('fallback', OB + ' evaluate()')])

p('C20', 'Asking for suggestions changes no recorded data and evaluates nothing',
  'Requesting the next locations never calls the objective and leaves the recorded inputs and outputs unchanged, fits the surrogate on the current data first, and returns one batch computed for exactly the context, pending and ignored points of this request. A later request is not affected by the context, pending or ignored points of an earlier one.',
  ['inputs', 'histories', 'configurations'],
  'for every recorded history and every sequence of requests with different contexts, pending and ignored points',
  'Tests make one request on one optimizer.',
  [BO, OP + 'acquisition_optimizer.py'], [('request', BO + ' suggest_next_locations()/_compute_next_evaluations()')])

p('C21', 'The acquisition search returns the best candidate it examined',
  'The acquisition search starts from the best-scoring non-excluded sampled candidates, and returns a refined candidate together with its exact acquisition value such that no other refined candidate has a smaller one. The local search is started at the candidate, over the bounds of the searched variables, and when it reports failure the starting point itself is kept.',
  ['inputs', 'configurations'],
  'for every acquisition function, domain, candidate sample, local-search outcome, exclusion set and context',
  'Tests run one optimizer on one function; ties, failures and exclusion fallbacks are not covered.',
  [OP + 'acquisition_optimizer.py', OP + 'optimizer.py', OP + 'anchor_points_generator.py'],
  [('selection of starts', OP + 'anchor_points_generator.py get()'), ('refinement', OP + 'optimizer.py apply_optimizer()'), ('selection of the result', OP + 'acquisition_optimizer.py optimize()')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
