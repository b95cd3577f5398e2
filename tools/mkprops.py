#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code so that the lines stay uniform)."""
import json, os
C, T, O, P = ('bayesloop/core.py', 'bayesloop/transitionModels.py', 'bayesloop/observationModels.py',
              'bayesloop/parser.py')
H, J, PRE, IO = ('bayesloop/helper.py', 'bayesloop/jeffreys.py', 'bayesloop/preprocessing.py', 'bayesloop/fileIO.py')
R = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    R.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


p('C01', "The caller's objects are never modified",
  "Loading, configuring, fitting, stepping and querying never change an object that the caller supplied: data and "
  "timestamp arrays, parameter values, prior and hyper-prior arrays, transition-model priors and query arguments have the same contents afterwards. "
  "Likelihoods, prior functions and transition models likewise never alter the study's parameter grid or the "
  "distribution that is handed to them.",
  ['inputs', 'configurations', 'histories'], 'all supplied arrays/functions/lists, all study classes, any sequence of public calls',
  'Tests compare a handful of final numbers and never look at the arguments again after the call; in-place numpy operations through views only show on later use.',
  [C, T, O], [('copies before in-place arithmetic', 'Study._computePrior, HyperStudy._createHyperGrid, TransitionModel.computeForwardPrior, ObservationModel.pdf')],
  [('observationModel.prior', 'user supplied prior', O), ('grid', 'shared parameter grid', C)],
  ['Study.fit', 'HyperStudy.fit', 'OnlineStudy.step', 'ObservationModel.pdf'])
p('C02', 'Queries and plots do not change a study',
  "Every method that reports or plots results (parameter and hyper-parameter distributions, mean values, joint and duration distributions, "
  "transition-model probabilities, simulation, expression evaluation) leaves the study exactly as it was, so that repeating or reordering queries gives the same answers. "
  "This holds also when the query fails with an error, after which the study can still be queried, refitted and, for an online study, continued.",
  ['histories', 'inputs'], 'all query methods of all study classes, all arguments (valid or not), in any order and number, with plot on or off',
  'Tests call each query at most once per fitted study and do not exercise a failing query followed by further use.',
  [C, P], [('copies of marginal distributions; restored history containers', 'Study.get*, HyperStudy.get*, OnlineStudy.get*, plot*')],
  [('posteriorSequence', 'stored posteriors', C), ('hyperParameterDistribution', 'joint hyper-posterior', C)],
  ['getParameterDistribution', 'getHyperParameterDistribution', 'plot', 'eval'])
p('C03', 'A fit depends only on the current configuration',
  "The outcome of a fit is a function of the currently loaded data and timestamps, observation model and transition model only: earlier fits, optimisations, "
  "queries or failed fits leave nothing behind that influences it, and results of an earlier fit are never mixed into a later one. "
  "After a fit the transition model holds the same hyper-parameter values (including the value 'all') that the user gave it, and a model object that is reused with another grid or study adapts to it.",
  ['histories', 'configurations'], 'all sequences of load/set/fit/query calls, all study classes, models shared between studies',
  'Tests build a fresh study for every case; no test refits after a change of data, grid or model.',
  [C, T], [('re-initialisation of all result fields; kernel cache keys; restored hyper-parameters', 'Study.fit, HyperStudy.fit, ChangepointStudy.fit, AlphaStableRandomWalk, BivariateRandomWalk')],
  [('kernel', 'cached convolution kernel', T), ('fitWarningCounter', 'warnings issued', C)],
  ['Study.fit', 'HyperStudy.fit', 'ChangepointStudy.fit'])
p('C04', 'Evidence follows the forward filtering recursion',
  "Starting from the parameter prior, each time step multiplies the current distribution by the likelihood of that step's data segment, divides by the resulting sum, and passes the result with that step's time stamp through the transition model to give the prior of the next step. "
  "The log-evidence is the sum of the logarithms of all these sums plus the log of the grid's cell volume, the base-10 log-evidence is that value divided by ln 10, and the forward local evidence of a step is its sum times the cell volume; both are the same whether or not posteriors are stored.",
  ['inputs', 'configurations'], 'all data, grids, observation and transition models, and all combinations of the forward-only and evidence-only options',
  'Tests pin the evidence of a few fixed data sets to 5 digits; wrong handling that cancels there or needs several parameters, segments or flags is invisible.',
  [C, PRE], [('forward pass', 'Study.fit')], [('logEvidence', 'log marginal likelihood', C), ('localEvidence', 'per-step evidence', C)],
  ['Study.fit', 'Study.log10Evidence'])
p('C05', 'Posteriors are the normalised forward-backward product',
  "After a full fit, the posterior of a step is proportional to the forward distribution times the backward message, where the backward message starts flat and is updated, from the last step to the first, by multiplying with that step's likelihood, applying the backward transition for that step's time stamp and re-normalising; it sums to one. "
  "With the forward-only option the posterior is the normalised forward distribution itself. "
  "Posterior mean values are the posterior-weighted sums of each parameter's grid values, and the local evidence after the backward pass is the reciprocal of the cell volume times the sum of posterior over likelihood.",
  ['inputs', 'configurations'], 'all data, grids, models and both fit modes',
  'A few posterior mean values are pinned for Poisson and Gaussian examples only; the backward pass is not compared with the smoothing recursion.',
  [C], [('backward pass and mean values', 'Study.fit')], [('posteriorSequence', 'posterior per step', C), ('posteriorMeanValues', 'means', C)],
  ['Study.fit', 'Study.getParameterMeanValues'])
p('C06', 'Reported distributions are correct marginals with correct units',
  "A reported (hyper-)parameter distribution is the stored joint distribution summed over exactly the other axes, paired with the value array of the requested parameter; probabilities sum to one, and densities are those probabilities divided by that parameter's grid spacing. "
  "This holds for a single time step, the time average, the whole sequence, current and past online results, single, joint and duration distributions, in any parameter order and for any number of parameters.",
  ['inputs', 'configurations'], 'all parameter counts, names and orders, density on/off, single/averaged/sequence/joint queries',
  'Tests sum a few elements of one- and two-parameter examples; axis, order and unit mistakes for other parameters stay unseen.',
  [C], [('marginalisation of all other axes, division by lattice constant', 'Study.getParameterDistribution(s), HyperStudy.getHyperParameterDistribution, getJointHyperParameterDistribution, OnlineStudy.get*')],
  [], ['getParameterDistribution', 'getParameterDistributions', 'getHyperParameterDistribution', 'getJointHyperParameterDistribution', 'getDurationDistribution', 'simulate'])
p('C07', 'Every form of parameter prior yields the same density',
  "Whatever form the prior of the observation model takes (none, array, function, SymPy random variables), the prior used by inference is a probability density on the parameter grid: without a prior it is uniform, arrays and functions are divided by their sum and by the cell volume, and SymPy variables contribute the product of their densities in parameter order. "
  "Priors of wrong shape, number or kind, or with free symbols, are rejected.",
  ['inputs', 'configurations'], 'all priors of every supported form, all grids',
  'Tests use one prior of each form on one grid and only check the resulting evidence.',
  [C], [('prior normalisation', 'Study._computePrior')], [], ['Study.fit', 'OnlineStudy.step'])
p('C08', 'The parameter grid matches the observation model',
  "Setting an observation model creates, in the order of its parameters, one value array, one grid spacing, one size and one boundary pair per parameter, and one full grid per parameter whose axis order is the parameter order. "
  "Equally spaced values get their spacing as lattice constant and others the value 1, missing values are estimated from the loaded data, and a transition model that is already set learns the new spacing. "
  "Open intervals exclude and closed intervals include their end points, with exactly the requested number of equally spaced points.",
  ['inputs', 'configurations'], 'all observation models, parameter counts and value arrays, any order of configuration calls',
  'Tests only use one or two equally spaced parameters set in one order.',
  [C, O, H], [('grid construction', 'Study.setObservationModel; helper.cint, helper.oint; estimateParameterValues')],
  [('grid', 'meshgrid of parameter values', C), ('latticeConstant', 'spacing per parameter', C)], ['Study.setObservationModel', 'bayesloop.cint', 'bayesloop.oint'])
p('C09', 'Transition models transform the distribution as documented',
  "Each built-in transition model returns exactly its documented transformation of the incoming distribution: static leaves it unchanged, Gaussian and alpha-stable random walks blur only the target parameter's axis with a width in units of that parameter's grid spacing (zero width: unchanged), the bivariate walk uses the given two widths and correlation, regime-switching and not-equal models raise every probability to the minimal density times cell volume, independent restores the prior, and the deterministic model shifts the target axis by the increment of its function. "
  "Models that break normalisation renormalise their result to sum one.",
  ['inputs', 'configurations'], 'all distributions, grids, targets and hyper-parameter values, all built-in models',
  'One evidence or mean value per model is pinned on a 1-D or symmetric 2-D grid.',
  [T], [('computeForwardPrior of every model class', T)], [], ['*.computeForwardPrior', '*.computeBackwardPrior'])
p('C10', 'Break-points, change-points and nested models act at the right time',
  "A change-point resets the parameter distribution to the prior exactly between its time stamp and the next one, in the forward and (one step earlier) in the backward direction, and is inert at all other times; a serial model applies at each time the sub-model whose index is the number of break times not after it, with time measured from the last break. "
  "A combined model applies all sub-models one after the other in the given order. "
  "Sub-models always receive the outer model's study, grid spacing and time offset before they are used, at any nesting depth.",
  ['inputs', 'configurations', 'programs'], 'all nestings of models, all time stamps and break times, forward and backward',
  'Tests use one nesting and one break time, where off-by-one and propagation errors can hide in 5-digit comparisons.',
  [T], [('propagation of study/lattice constant/offset; model choice; reset test', 'CombinedTransitionModel, SerialTransitionModel, ChangePoint')],
  [('tOffset', 'time of last break', T)], ['*.computeForwardPrior', '*.computeBackwardPrior'])
p('C11', 'The hyper-parameter grid pairs every value combination with its prior',
  "A hyper-study analyses the full Cartesian product of the supplied hyper-parameter values, each combination paired with the product of the individual hyper-prior values, in the order in which the hyper-parameters appear in the (nested) transition model. "
  "Flat, function and array hyper-priors are normalised to a density over the value grid, SymPy hyper-priors are evaluated at the values, the value 'all' stands for all time stamps but the last, and equally spaced values get their spacing, others 1, as grid constant.",
  ['inputs', 'configurations'], 'all hyper-parameter values, priors and nestings',
  'Tests use at most two hyper-parameters with symmetric or flat priors.',
  [C], [('hyper-grid construction', 'HyperStudy._createHyperGrid, _unpackHyperPriors')], [('hyperGridValues', 'value combinations', C)], ['HyperStudy.fit', 'OnlineStudy.addTransitionModel'])
p('C12', 'Hyper-studies average models with their posterior weights',
  "The fit of a hyper-study runs one standard fit per hyper-parameter combination; combinations are weighted by evidence times hyper-prior times grid constants, the hyper-parameter distribution is these weights normalised to a density, the log-evidence is the logarithm of their sum, the averaged posterior of every step is the weighted average of the individual posteriors, and means are computed from it. "
  "Combinations with zero evidence get zero weight, local evidence is averaged with hyper-prior weights, and with at most one combination the standard fit is used.",
  ['inputs', 'configurations'], 'all hyper-grids, priors, data sets and option combinations',
  'Tests pin a few numbers for two-dimensional equally spaced hyper-grids.',
  [C], [('average model', 'HyperStudy.fit')], [('hyperParameterDistribution', 'hyper-posterior density', C)], ['HyperStudy.fit'])
p('C13', 'Parallel and serial hyper-study fits agree',
  "The number of processes used for a hyper-study or change-point fit does not change its results: every hyper-parameter combination is analysed exactly once with its own prior value, and results are merged in grid order into the same evidences, distributions and averages. "
  "Worker processes start from clean accumulators and never share mutable results with each other.",
  ['schedules', 'configurations', 'inputs'], 'all numbers of processes (including more processes than combinations), all worker completion orders',
  'One test runs two processes on one small grid.',
  [C], [('split, per-worker fit, merge', 'HyperStudy.fit, HyperStudy._parallelFit')], [], ['HyperStudy.fit', 'ChangepointStudy.fit'])
p('C14', 'Change-point studies use exactly the ordered combinations',
  "A change-point study analyses exactly those combinations in which the change- or break-points are strictly increasing, keeps the total hyper-prior weight by rescaling, and afterwards reports zero probability for all excluded combinations while all value combinations stay addressable. "
  "The duration distribution collects, for each possible difference of two points, the probability of all combinations with this difference, normalised to one. "
  "Models without such points, with both kinds, or with several serial models are rejected.",
  ['inputs', 'configurations'], 'all numbers of points, value ranges and additional hyper-parameters',
  'Tests use two change-points on one short series.',
  [C], [('mask of ordered combinations', 'ChangepointStudy.fit, getDurationDistribution')], [('mask', 'valid combinations', C)], ['ChangepointStudy.fit', 'ChangepointStudy.getDurationDistribution'])
p('C15', 'Online steps perform exact sequential inference',
  "For every added transition model and hyper-parameter combination, a step multiplies the likelihood of the newest data segment with the prior (first step) or with the previous posterior transformed by that model at the previous time stamp, normalises it, and accumulates the log of the sum. "
  "Hyper-parameter weights, the probability of each transition model (overall and for the newest data point alone), the averaged parameter posterior and the log-evidence follow from these by Bayes' rule.",
  ['histories', 'inputs', 'configurations'], 'all data streams, numbers of transition models and hyper-parameter grids',
  'Tests run one short stream with few models and pin a few digits.',
  [C], [('sequential update', 'OnlineStudy.step')], [('parameterPosterior', 'posterior per model and hyper value', C)], ['OnlineStudy.step'])
p('C16', 'Online history has one entry per analysed data segment',
  "With history enabled, every analysed data segment adds exactly one time stamp and one independent snapshot of the parameter posterior, its means, the hyper-parameter distributions and both transition-model distributions, and past entries never change later; steps that only wait for more data add none. "
  "Current queries report the latest entry, time-addressed queries the entry of that time stamp, and without history past queries are refused.",
  ['histories', 'inputs'], 'all streams, segment lengths, queries between steps',
  'Tests inspect the history of one stream once, at its end.',
  [C], [('append of copies; storeHistory guard', 'OnlineStudy.step, OnlineStudy.get*')], [('posteriorSequence', 'history', C)], ['OnlineStudy.step', 'OnlineStudy.get*'])
p('C17', 'Missing values carry no information and dimensions multiply',
  "A data segment that contains a missing value (NaN) has likelihood one for all parameter values, for every observation model. "
  "For models that treat dimensions as independent, the likelihood of multi-dimensional data is the product over dimensions of the single-dimension likelihoods with missing values handled per dimension; other models receive the segment unchanged. All inference paths use the likelihood processed in this way.",
  ['inputs', 'configurations'], 'all data with missing values in any position and dimension, all observation models, batch and online',
  'Two tests cover one NaN position in a single model.',
  [O, C], [('likelihood preprocessing', 'ObservationModel.processedPdf and its callers')], [], ['ObservationModel.processedPdf', 'Study.fit', 'OnlineStudy.step'])
p('C18', 'Built-in likelihoods are the documented densities',
  "Each built-in observation model returns, for every grid point and data segment, its documented probability (density): Bernoulli, Poisson, Gaussian, Laplace, Gaussian with given error, white noise, AR1 and scaled AR1, with properly normalised constants. "
  "Wrapped NumPy, SciPy and SymPy models pass the newest data point and the grids in the declared parameter order, using mass functions for discrete and densities for continuous variables and including fixed parameters.",
  ['inputs'], 'all data values and grid values',
  'Tests pin a posterior summary for one data set per model.',
  [O], [('pdf of every model class', O)], [], ['*.pdf'])
p('C19', 'Jeffreys priors and default parameter ranges are as documented',
  "Models that offer a Jeffreys prior use it by default and use exactly the prior the user passes otherwise: 1/sqrt(p(1-p)), 1/sqrt(rate), 1/std^2, 1/scale^2, 1/std; symbolic models derive it from the Fisher information with parameters in declared order; the auto-regressive Jeffreys prior follows Uhlig's formula and is rejected for non-stationary values. "
  "Default value ranges are computed from the loaded data with missing values ignored and cover the documented interval for each parameter name.",
  ['inputs', 'configurations'], 'all built-in models, data sets, parameter names',
  'Tests only check that a fit with defaults runs for some models.',
  [O, J], [('jeffreys, estimateParameterValues, getJeffreysPrior, computeJeffreysPriorAR1', O)], [], ['*.jeffreys', '*.estimateParameterValues', 'bayesloop.getJeffreysPrior', 'bayesloop.computeJeffreysPriorAR1'])
p('C20', 'Short-hand methods equal the methods they abbreviate',
  "Every abbreviation or convenience method (load, setOM, setTM, set, getPD, getPDs, getCPD, getHPD, getHPDs, getCHPD, getJHPD, getDD, getCTMD, getCTMP, getTMPs, addTM, add, plot, eval) has the same effect and result as the documented full method for all arguments, with the same defaults, including optional and keyword arguments.",
  ['inputs'], 'all arguments and option combinations of all abbreviations in all study classes',
  'Tests call most abbreviations with default options only, if at all.',
  [C], [('delegation with all arguments', 'Study/HyperStudy/ChangepointStudy/OnlineStudy')], [], ['all listed methods'])
p('C21', 'Output options change output only',
  "With silent=True, successful calls print nothing and draw no progress bar (warnings about unusable input excepted); silent, progress and plot options never change any computed result or stored state. "
  "Plotting options only add drawing calls.",
  ['inputs', 'configurations'], 'all methods with a silent or plot option, all other arguments',
  'Output is not captured by any test, and silent and non-silent runs are not compared.',
  [C, P, O], [('guards around output', 'all methods with silent/plot parameters')], [], ['stdout', 'study state'])
p('C22', 'Invalid configurations are rejected with a clear error',
  "Fitting, optimising or stepping without data, observation model or transition model, with duplicate hyper-parameter names, mis-ordered or misplaced break-points, wrong numbers of break-points or priors, wrong sizes of prior arrays, or (in hyper-studies) with change- or break-points that can coincide raises a configuration error before any result is produced; unknown parameter names, hyper-parameter names and time stamps in queries raise a post-processing error. "
  "Valid configurations are not rejected.",
  ['inputs', 'configurations'], 'all incomplete or inconsistent configurations and queries, all study classes',
  'Tests exercise no error path at all.',
  [C, T, O, P], [('consistency checks and raises', '_checkConsistency, constructors, get*')], [], ['public methods and constructors'])
p('C23', 'Expression queries compute exact probabilities of derived quantities',
  "Evaluating an (in)equality returns the total probability of all combinations of (hyper-)parameter values that satisfy it, for the operator written in the query; evaluating an expression returns its distribution. "
  "Parameters of the same study and time share their joint distribution, all others are combined as independent via the product of their probabilities, values are addressed at the requested time stamp of their own study, operator precedence is the usual one, and missing time stamps, duplicate names and malformed relations are rejected.",
  ['inputs', 'programs'], 'all expressions over the parameters of one or more studies, any time stamps',
  'A few fixed queries on one study are pinned.',
  [P], [('joint/compound distribution, operator mapping', 'Parser')], [], ['Parser.__call__', 'Study.eval'])
p('C24', 'Results are aligned with data segments and time stamps',
  "Analysed segments are all windows of consecutive data points of the model's segment length in order, and the time stamp of a segment is the one of its last point; there is one posterior, one local evidence and one mean per segment. "
  "Loading data stores exactly the given values and time stamps, and uses 0,1,2,... if no usable time stamps are given. "
  "A query for a time stamp returns the result of the segment with that time stamp.",
  ['inputs', 'configurations'], 'all data lengths, segment lengths and time stamps',
  'Tests use default time stamps and segment length 1 almost everywhere.',
  [C, PRE], [('segmentation and index lookup', 'movingWindow, Study.loadData, Study.fit, get*')], [('formattedTimestamps', 'time stamp per segment', C)], ['Study.fit', 'Study.loadData', 'getParameterDistribution'])
p('C25', 'Hyper-parameter names address the right values; optimisation uses them',
  "Hyper-parameter values are read from and written to exactly the named entry of the (nested) transition model, in model order, and reading back returns what was written. "
  "Optimisation maximises the log-evidence over exactly the selected hyper-parameters (by default all except break- and change-points) starting from the user's values, then sets the optimum and fits once more with it, and leaves no selection behind.",
  ['inputs', 'configurations', 'programs'], 'all nestings and hyper-parameter names, all selections',
  'One optimisation and one nested model are tested.',
  [C, H], [('nested unpack/assign', 'Study._unpack*, _set*, optimize, helper.recursiveIndex/assignNestedItem/flatten')], [], ['Study.optimize', 'Study.getHyperParameterValue', 'HyperStudy.fit'])
p('C26', 'Impossible data yield zero evidence, never uninitialised results',
  "If all parameter values have zero probability at some step, the fit stops with a warning, the log-evidence is minus infinity and such a hyper-parameter combination contributes nothing to the averaged posterior and has zero probability in the hyper-parameter distribution. "
  "No result array that a user or a later computation can read ever contains uninitialised memory.",
  ['inputs', 'fault_sequences'], 'all data/grid combinations, any failing step, forward or backward',
  'No test reaches a step with vanishing probability.',
  [C], [('zero-norm handling; initialisation of result arrays', 'Study.fit, HyperStudy.fit')], [], ['Study.fit', 'HyperStudy.fit'])
p('C27', 'Results are deterministic',
  "Given the same inputs and sequence of calls, all results are identical from run to run: nothing depends on random numbers, clock, environment, object identity or unordered-collection order.",
  ['histories', 'schedules'], 'all runs and environments',
  'A test run samples one process and one environment.',
  [C, T, O, P, H, J, PRE], [('absence of nondeterministic sources', 'whole package')], [], ['all results'])
p('C28', 'Saved studies are restored identically',
  "Saving a study to a file and loading it back, also in another process, gives a study with the same results and configuration that can be continued; saving does not change the study.",
  ['inputs', 'histories'], 'all studies and configurations, including user functions', 'Only one fitted study is saved and loaded in the same process.',
  [IO], [('cloudpickle dump/load of the whole study', IO)], [], ['bayesloop.save', 'bayesloop.load'])
p('C29', 'Optimisation converges to a local maximum of the evidence',
  "The hyper-parameter values found by optimisation are a local maximum of the log-evidence within the tolerance requested from the optimiser.",
  ['inputs'], 'all data, models and starting values', 'One optimisation is pinned.',
  [C], [('scipy.optimize.minimize (COBYLA)', C)], [], ['Study.optimize'])
p('C30', 'Grid discretisation and floating point errors stay bounded',
  "Evidence and posteriors approximate the exact continuous-parameter values up to the discretisation error of the grid, without overflow, loss of normalisation or underflow to zero for long series or extreme likelihoods.",
  ['inputs'], 'all grids, series lengths and likelihood scales', 'Tests compare with numbers produced by the same code.',
  [C, T, O], [('per-step normalisation and log-space averaging', C)], [], ['Study.fit', 'HyperStudy.fit'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for r in R:
        assert len(r['title']) <= 80, r['title']
        f.write(json.dumps(r) + '\n')
print(len(R), 'properties')
