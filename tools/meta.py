"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/meta.py). Not used by the checks."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, tech, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=['GPyOpt/' + f for f in files], mechanism=[dict(name=n, where='GPyOpt/' + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None), tech=tech, note=note))


STUB = 'The surrogate and the local optimizer are stand-ins that enumerate every answer of the bounded alphabet; the rest is the real code.'

prop('C01', 'Suggested and evaluated points are feasible members of the domain',
     'Every point that the optimization suggests or evaluates is a member of the declared domain (declared values for discrete, categorical and bandit variables, bounds for continuous ones), satisfies all constraints, and carries exactly the values of the given context. Suggestions are a 2-D array with one column per objective coordinate and batch_size rows; fewer rows are returned only when de-duplication leaves fewer candidates. This holds whatever the surrogate prefers, wherever the local optimizer ends, and for every evaluator and acquisition.',
     ['inputs', 'configurations', 'histories'], 'every domain (types, order, constraints, bandits), context, evaluator, acquisition, preference of the surrogate and end point of the local optimizer',
     'The tests run two or three domains with the default optimizer, never a local optimizer that leaves the feasible region, and contexts with constraints only by sampling.',
     ['core/bo.py', 'optimization/acquisition_optimizer.py', 'optimization/optimizer.py', 'optimization/anchor_points_generator.py', 'core/task/space.py', 'core/evaluators'],
     [('apply_optimizer rounds the optimum and falls back to the anchor', 'optimization/optimizer.py'), ('anchor points respect constraints and context', 'optimization/anchor_points_generator.py'), ('suggestions are mapped back to the objective coordinates', 'core/bo.py')],
     'exhaustive enumeration of environment answers (surrogate preference, local optimizer, context) driving the real loop', STUB + ' Anchor points are drawn by the real random design with a fixed seed per execution.')

prop('C02', 'De-duplication never repeats evaluated, pending, ignored or batched points',
     'With de_duplication switched on, no suggested point coincides with a point already evaluated, with one of the given pending points, with one of the given ignored points, or with another point of the same batch. When no other point is left the optimization says so with its documented error instead of returning a duplicate. Without de-duplication and without pending or ignored points nothing is filtered.',
     ['inputs', 'histories', 'configurations'], 'every partition of a finite domain into evaluated, pending, ignored and free points, every preferred point, evaluator, context, including points with all coordinates zero',
     'The tests cover one exhausted discrete space and one hand-made duplicate manager; not zero-valued points, batches, categorical encodings or a local optimizer that lands on a known point.',
     ['util/duplicate_manager.py', 'optimization/anchor_points_generator.py', 'optimization/acquisition_optimizer.py', 'core/evaluators', 'core/bo.py'],
     [('set of known points in the surrogate coordinates', 'util/duplicate_manager.py'), ('duplicates are removed from the anchors', 'optimization/anchor_points_generator.py'), ('zipped output is checked after the local optimization', 'optimization/acquisition_optimizer.py')],
     'exhaustive enumeration of known-point assignments and environment answers on the real code', STUB + ' 300 random candidates cover the finite domains of up to 12 points.')

prop('C03', 'The run ledger: data, surrogate and results stay in step over every history',
     'Over every sequence of runs, resumed runs and suggestions the recorded inputs and outputs only grow by appending, row i of the outputs being the value of the objective (with changed sign under maximization) at row i of the inputs, each evaluated exactly once and in order; suggestions evaluate nothing. Before each acquisition the surrogate was given all the data up to the last multiple of the update interval (encoded, and normalized if requested). The reported optimum, best location and best-so-far curve are those of the recorded data.',
     ['histories', 'configurations'], 'every sequence of operations up to the bound, with every way to give initial data, batch size, update interval, normalization, maximization and output shape',
     'The tests run one history (a single run of a few iterations) per configuration and compare stored results; resumption, update intervals, mixed suggestions and normalization are not crossed.',
     ['core/bo.py', 'methods/bayesian_optimization.py', 'methods/modular_bayesian_optimization.py', 'core/task/objective.py', 'util/general.py'],
     [('evaluate_objective appends inputs and outputs', 'core/bo.py'), ('_update_model at multiples of the update interval', 'core/bo.py'), ('_compute_results', 'core/bo.py')],
     'exhaustive exploration of operation sequences on the real code against a ledger model', STUB)

prop('C04', 'The loop stops exactly when a stop condition holds, with the reported reason',
     'A run performs exactly as many iterations as its limits allow: it ends after max_iter iterations, after the first iteration at which the elapsed time exceeds max_time, after the first iteration whose two last evaluated points are at most eps apart, or when the surrogate fails numerically, whichever comes first, and otherwise continues. A run with zero iterations evaluates no new point, a run without any limit evaluates no new point either, and the statistics that a run leaves (evaluations, optimum, number of acquisitions) describe exactly what was evaluated.',
     ['schedules', 'histories', 'configurations'], 'every combination of limits, schedules of distances between suggestions, durations and update failures up to the bound, and consecutive runs',
     'The tests stop by max_iter only; the clock, the distance and the numerical failure are never driven.',
     ['core/bo.py'], [('stop conditions of run_optimization', 'core/bo.py'), ('_distance_last_evaluations', 'core/bo.py')],
     'exhaustive enumeration of schedules under a controlled clock, against a reference loop', STUB + ' Time is read through time.time.')

prop('C05', 'A fault at any point of a run leaves consistent, resumable data',
     'If the objective, the surrogate, the acquisition optimization or the cost raises at any point of a run, the exception reaches the user, every evaluation that completed before is kept, and recorded inputs and outputs still have the same number of aligned rows. Running again continues from that data, without repeating recorded evaluations and without points that were never evaluated.',
     ['fault_sequences', 'crash_points', 'histories'], 'every single fault and pair of faults over all calls of the environment in a run and its resumptions, with every configuration of the bound',
     'No test injects a fault.',
     ['core/bo.py', 'core/task/objective.py'], [('inputs and outputs grow together', 'core/bo.py'), ('numerical failures of the surrogate end the run', 'core/bo.py')],
     'fault injection at every environment call, all single faults and pairs, on the real loop', STUB)

prop('C06', 'Parallel evaluation is order preserving and survives failing processes',
     'With several cores, the outputs of a batch are the objective values of its points in their order, for every split over processes, every interleaving of the processes and every result size, and at most num_cores processes are used. If a process raises, dies or cannot be started, the batch is evaluated in the parent process (an error of the objective then reaches the user); the call always returns and leaves no process waiting.',
     ['schedules', 'fault_sequences', 'inputs'], 'every batch size and number of cores of the bound, every interleaving of parent and children up to the preemption bound, children that raise, die or cannot be started at every point, buffered and blocking pipes',
     'The tests check real processes with one schedule and no failure.',
     ['core/task/objective.py', 'util/general.py'], [('_eval_batch_func: split, processes, pipes, fallback', 'core/task/objective.py'), ('spawn', 'util/general.py')],
     'systematic schedule exploration with bounded departures over stand-ins of Process and Pipe, conformance runs on real processes', 'multiprocessing.Process and Pipe are replaced by stand-ins owned by the explorer; six scenarios compare them with real forked processes.')

prop('C07', 'Encoding for the surrogate and decoding are inverse; layouts agree',
     'For every domain, turning points of the objective space into the encoding seen by the surrogate and back gives the same points (one-hot encoding for categorical variables by the values of their domain, all other coordinates unchanged), row by row and whatever the other rows. All descriptions of the layout of a space agree with each other and with the declared domain: dimensions, bounds, index maps, per-type dimensions, subspaces and names, for repeated, unnamed and unordered variables.',
     ['inputs', 'configurations'], 'every domain of up to three variables (sixteen kinds) in every order and every lattice point',
     'The tests check two hand-written spaces with categorical values that coincide with their indices.',
     ['core/task/space.py', 'core/task/variables.py'], [('zip_inputs / unzip_inputs', 'core/task/space.py'), ('objective_to_model / model_to_objective', 'core/task/variables.py'), ('index maps, bounds, subspaces', 'core/task/space.py')],
     'exhaustive enumeration of domains and points against a reference model of the domain', 'The reference model (mc/ref.py) is written from the documentation.')

prop('C08', 'Rounding yields the nearest member of the domain and is idempotent',
     'Rounding a vector of the encoded space gives, variable by variable, the nearest declared member: the bounds for continuous values outside of them, the closest value or arm for discrete and bandit variables, the category with the largest entry for categorical ones. Members are left unchanged, the result is the one-row encoding expected by the surrogate, and rounding twice changes nothing.',
     ['inputs', 'configurations'], 'every domain of up to three variables and bandits, every combination of per-coordinate values on, beside and between members',
     'The tests round a single vector of one space.',
     ['core/task/space.py', 'core/task/variables.py'], [('round_optimum of the space', 'core/task/space.py'), ('round of each type of variable', 'core/task/variables.py')],
     'exhaustive enumeration of domains and critical values against a reference rounding', 'The reference model (mc/ref.py) is written from the documentation.')

prop('C09', 'Constraint evaluation is row-wise, exact and isolated between spaces',
     'A point is marked feasible exactly when every constraint expression of its own space is at most zero at it, independently of the other rows of the block, of the number of constraints and of previous evaluations. Several spaces, also used from several threads at once under any interleaving, never see the constraints of one another.',
     ['inputs', 'schedules', 'histories'], 'every block of rows, set of constraints and sequence of evaluations of the bound; every interleaving of two and three threads up to the preemption bound',
     'The tests evaluate one constraint on one thread.',
     ['core/task/space.py'], [('indicator_constraints compiles and evaluates the expressions', 'core/task/space.py')],
     'stateless exploration of thread interleavings (line and opcode preemption) and of all blocks of rows', 'Threads switch between executed lines or opcodes of the code under test.')

prop('C10', 'Invalid configurations are rejected, valid ones accepted and left unmodified',
     'A domain with a defect (no domain, unknown type, repeated name, mixed bandits, ...) is rejected with the configuration error wherever the defect is, and so are unknown names of models, acquisitions, evaluators, optimizers and initial designs and contexts that name unknown variables. Every valid domain is accepted, also when given as a configuration, denotes the space it describes, and the objects given by the user are not modified.',
     ['configurations', 'inputs'], 'every domain of up to three variables with every defect at every position, every wrong value of every named option, every valid domain of sixteen kinds and bandits',
     'The tests check three hand-made invalid spaces.',
     ['core/task/space.py', 'core/task/variables.py', 'methods/bayesian_optimization.py', 'util/arguments_manager.py', 'core/errors.py', 'optimization/acquisition_optimizer.py'],
     [('_complete_attributes and validation', 'core/task/space.py'), ('create_variable', 'core/task/variables.py'), ('selectors', 'util/arguments_manager.py')],
     'exhaustive enumeration of configurations with and without defects', 'The menu of defects is that of the documented configuration format.')

prop('C11', 'Initial designs have the promised size, members and structure',
     'An initial design has the requested number of points (for a grid, the largest grid that fits), all of them feasible members of the domain, whatever the generator draws. Continuous variables follow the promised structure: one point at the centre of each stratum per variable for latin, the Sobol sequence scaled to the bounds for sobol, the product of regular grids for grid, and independent coverage of the whole domain for random. Designs other than random refuse constraints, and the optimization evaluates and records exactly the design.',
     ['inputs', 'configurations'], 'every domain of up to three variables and bandits, every design, size up to the bound and extreme behaviour of the random generator; every constrained domain; every grid size up to 300 in up to four dimensions',
     'The tests check the sizes of two spaces and the feasibility of one constrained space.',
     ['experiment_design', 'util/general.py', 'core/task/space.py'], [('designs', 'experiment_design'), ('samples_multidimensional_uniform / multigrid / iroot', 'util/general.py')],
     'exhaustive enumeration of domains, designs, sizes and extreme random streams', 'Random behaviours are injected at numpy.random.')

prop('C12', 'Acquisition values equal their definitions for every prediction and cost',
     'For every prediction (mean, standard deviation), incumbent, jitter or exploration weight and cost, the values of expected improvement, probability of improvement and lower confidence bound are those of their published definitions, averaged over the samples for the integrated versions, with the sign convention that smaller is better for the minimizer. They are zeroed outside of the constraints, divided by the cost where the acquisition supports it, computed row by row, and the version with gradients reports the same values.',
     ['inputs', 'configurations'], 'every combination of mean, deviation, incumbent, parameter, cost, feasibility and number of samples of the bounded grid, in blocks of one to three rows',
     'The tests pin five values computed by the code itself.',
     ['acquisitions/EI.py', 'acquisitions/MPI.py', 'acquisitions/LCB.py', 'acquisitions/EI_mcmc.py', 'acquisitions/MPI_mcmc.py', 'acquisitions/LCB_mcmc.py', 'acquisitions/base.py', 'util/general.py'],
     [('_compute_acq', 'acquisitions'), ('acquisition_function: cost and constraints', 'acquisitions/base.py'), ('get_quantiles', 'util/general.py')],
     'exhaustive enumeration of model answers (table surrogate) against independently written formulas', 'scipy.stats.norm provides the reference density and distribution.')

prop('C13', 'Reported gradients are the derivatives of the reported values',
     'Wherever a surrogate, an acquisition, a locally penalized acquisition or a learnt cost reports a gradient, it is the derivative of the value that it reports at the same point, for single points and for blocks of points. This holds for every acquisition, cost, batch and transformation, also at the edges of the numerical range where the value vanishes.',
     ['inputs', 'configurations'], 'every acquisition x surrogate x cost x penalization (batches of one to three, both transformations) at every point of the lattice',
     'The tests check three acquisitions at one point of one Gaussian process.',
     ['acquisitions', 'models/gpmodel.py', 'core/task/cost.py'], [('_compute_acq_withGradients', 'acquisitions'), ('d_acquisition_function of the penalized acquisition', 'acquisitions/LP.py'), ('predict_withGradients', 'models/gpmodel.py')],
     'exhaustive enumeration of configurations and lattice points against high order finite differences', 'Finite differences with an error estimate; kernels are smooth.')

prop('C14', 'Evaluation costs: user costs used as given, learnt costs follow all timings',
     'A cost function given by the user divides the acquisition as it is (value and gradient), and no cost means cost one. The learnt cost is one until evaluations have been timed, and then is the exponential of the posterior mean of a model of the logarithm of all the timings of the run so far, at the points where they were measured, in whatever shape or batches they arrive.',
     ['histories', 'inputs', 'configurations'], 'every sequence of timed evaluations (batches, shapes, zero durations) and runs up to the bound',
     'One test checks the cost of one run of three iterations.',
     ['core/task/cost.py', 'core/bo.py', 'acquisitions/base.py', 'core/task/objective.py'], [('CostModel.update_cost_model', 'core/task/cost.py'), ('timing of the evaluations', 'core/task/objective.py')],
     'exhaustive exploration of timing histories under a controlled clock', 'The Gaussian process of the learnt cost is the real one.')

prop('C15', 'Surrogate wrappers: predictions, updates and copies keep their contract',
     'Every surrogate returns means and strictly positive standard deviations of the right shape, row by row, consistent with its underlying Gaussian process; the incumbent is the smallest predicted mean at the data; covariances are those of the same posterior. Updating makes it equal to one built on the new data, and neither predicting nor sampling modifies it or the data it was given. A copy predicts as the original and is independent of it.',
     ['histories', 'inputs', 'configurations'], 'every sequence of update / predict / sample / copy operations up to the bound, for every surrogate class and option',
     'The tests check shapes of one prediction per class.',
     ['models/gpmodel.py', 'models/warpedgpmodel.py', 'models/input_warped_gpmodel.py', 'models/base.py'], [('GPModel, GPModel_MCMC', 'models/gpmodel.py'), ('WarpedGPModel', 'models/warpedgpmodel.py')],
     'exhaustive exploration of operation sequences against a closed form Gaussian process posterior', 'GPy computes the posterior of the reference only in the warped cases; the closed form is numpy.')

prop('C16', 'Context variables are fixed exactly and the rest is projected faithfully',
     'With a context, the problem seen by the acquisition optimizer is exactly the original one restricted to the given values: the free bounds are those of the other variables in their order, expanding a vector of free variables puts every value at the place of its variable (encoded, for categorical ones), and function, value and gradient of the restricted problem are those of the full one. Changing or removing the context leaves no trace of earlier ones.',
     ['configurations', 'histories', 'inputs'], 'every assignment of lattice values to every proper subset of the variables of every domain, and every sequence of two contexts',
     'The tests fix one variable in two domains.',
     ['optimization/acquisition_optimizer.py', 'optimization/optimizer.py'], [('ContextManager', 'optimization/acquisition_optimizer.py'), ('OptimizationWithContext', 'optimization/optimizer.py')],
     'exhaustive enumeration of domains and contexts against a reference projection', 'Bandit variables are outside: a context of a bandit is not defined by the documentation.')

prop('C17', 'The acquisition optimizer returns its best point with its true value',
     'The point that the acquisition optimizer returns is a feasible member of the (restricted) space, the value returned with it is the value of the acquisition there, the local searches start from the best scoring candidates, and it is the best of the feasible points they end at. Each wrapped optimizer works with value and gradient together, separately or without gradient, passes on bounds and limits, and treats abnormal ends of the search alike.',
     ['inputs', 'configurations', 'fault_sequences'], 'every optimizer, kind of gradient, domain, location of the minimum and way the local search can end',
     'The tests run the optimizers on one convex function.',
     ['optimization/acquisition_optimizer.py', 'optimization/optimizer.py', 'optimization/anchor_points_generator.py'], [('AcquisitionOptimizer.optimize', 'optimization/acquisition_optimizer.py'), ('OptLbfgs, OptCma, apply_optimizer', 'optimization/optimizer.py'), ('anchor points are the best candidates', 'optimization/anchor_points_generator.py')],
     'exhaustive enumeration of local optimizer answers and domains', 'scipy and cma are the real libraries except where their answer is enumerated; DIRECT is a stand-in.')

prop('C18', 'Saved evaluations, models and reports contain the run, whatever its history',
     'The evaluation file lists every recorded evaluation, in order, with its number, output and inputs; the models file lists the surrogate parameters of every update under their names; the report states the optimization that was run (domain size, constraints, iterations, optimum and its location). They can be written after every history of runs, including none, are complete replacements of an older file, and files can be asked for at the end of a run.',
     ['histories', 'configurations'], 'every history of runs and of file requests of the bound, for every surrogate and class of optimization',
     'One test checks that three files are created.',
     ['core/bo.py', 'methods/bayesian_optimization.py'], [('save_evaluations, save_models, save_report, _write_csv', 'core/bo.py')],
     'exhaustive exploration of histories, parsing the files back against the ledger', STUB)

prop('C19', 'Configuration files denote the same optimization as the Python interface',
     'A configuration file is merged into the defaults key by key, at every depth and without effect on the files read later, and the optimization that it starts evaluates what the same optimization written in Python does: the domain, constraints, design, model, acquisition, evaluator, tolerance and cores it names, the objective it names with one argument per variable, and no more iterations or minutes than its limits. The output engine writes the best so far at the intervals asked for.',
     ['configurations', 'inputs'], 'every combination of keys and values of the bounded menu, every merge of nested dictionaries up to depth three',
     'No stable test covers configuration files.',
     ['interface/config_parser.py', 'interface/driver.py', 'interface/func_loader.py', 'interface/output.py'], [('update_config / parser', 'interface/config_parser.py'), ('BODriver', 'interface/driver.py'), ('OutputEng', 'interface/output.py')],
     'exhaustive enumeration of configurations run through the real driver', 'Same seed on both sides; EI and MPI with GP models are the combinations that configuration files support.')

prop('C20', 'Every documented option reaches the component it configures',
     'Every combination of model, acquisition, evaluator, batch size, optimizer, cost and parameter accepted by the optimization builds exactly the named components with the given parameters (jitter, exploration weight, batch size, kernel, exact or noisy evaluations, optimizer restarts and budget, cores, normalization) and runs. User supplied models and acquisitions are used as they are.',
     ['configurations'], 'all pairs of options and all (model, acquisition, evaluator, batch) combinations of the documentation',
     'The tests run about thirty combinations of the several hundred documented ones.',
     ['util/arguments_manager.py', 'methods/bayesian_optimization.py', 'methods/modular_bayesian_optimization.py', 'core/evaluators'], [('ArgumentsManager', 'util/arguments_manager.py'), ('constructor', 'methods/bayesian_optimization.py')],
     'exhaustive enumeration of option combinations, observing the built components and runs', 'Random forests are not installed and excluded; DIRECT is a stand-in; the libraries that optimize end where they start.')

prop('C21', 'Optimizations are isolated from each other and leave user data unchanged',
     'Two optimizations in the same process, stepped in any interleaved order, give exactly what each gives alone, and neither modifies the arrays, dictionaries or objects that the user gave or that an earlier call returned; conversely, what the user later does to those objects does not reach the optimization. The same seed and the same calls give the same run.',
     ['schedules', 'histories', 'configurations'], 'every interleaving of the steps of two optimizations up to the bound, every pair of configurations, every user-visible array',
     'Every test runs a single optimization.',
     ['core/bo.py', 'methods/bayesian_optimization.py', 'util/arguments_manager.py', 'core/task/space.py', 'core/evaluators', 'acquisitions'], [('instance state of the optimization', 'core/bo.py'), ('instance state of the penalized acquisition', 'acquisitions/LP.py')],
     'exhaustive exploration of interleavings of operations of two instances, compared with the solo runs', 'Randomness is restored per instance around each step.')

prop('C22', 'Entropy search: the distribution of the minimum and its acquisition',
     'The joint probability of being the minimum is a probability distribution over the representer points, equivariant under their permutation and under a common shift and scaling of the problem, exact for two points, and its derivatives are those of its logarithm. The entropy search acquisition refers to the current data of its surrogate at every optimization.',
     ['inputs', 'histories'], 'all means and covariances of a bounded lattice for up to four points, all permutations, and all histories of updates of the bound',
     'The tests compare with one stored matrix.',
     ['util/epmgp.py', 'acquisitions/ES.py'], [('joint_min', 'util/epmgp.py'), ('optimize recomputes the representers', 'acquisitions/ES.py')],
     'exhaustive enumeration of a lattice of Gaussian distributions', 'Expectation propagation is an approximation; exactness is only asserted for two points.')

prop('C23', 'Benchmark functions and numerical utilities do what they declare',
     'Every benchmark function evaluates row by row, attains its declared minimum at its declared minimizers and nowhere a smaller value in its domain, and adds noise only when asked. The utilities used by the optimization (normalization, best value so far, quantiles, merging of values, roots, grids, samples inside of bounds) satisfy their definitions for every input of the bounded domain.',
     ['inputs'], 'every function and dimension on grids including its declared minimizers; every vector of the bounded alphabet for the utilities',
     'The tests check one value per utility and none of the functions.',
     ['objective_examples/experiments1d.py', 'objective_examples/experiments2d.py', 'objective_examples/experimentsNd.py', 'util/general.py', 'util/stats.py'], [('f of each function', 'objective_examples'), ('utilities', 'util/general.py')],
     'exhaustive enumeration of grids and bounded vectors against definitions', 'The definitions are written from the documentation of each function.')

prop('C24', 'Batches: first element optimal, later ones follow the documented strategy',
     'The first point of a batch is the optimum of the plain acquisition. With local penalization each later point optimizes the acquisition multiplied by the penalizers of exactly the points chosen before it, using the documented radii and Lipschitz estimate, and no penalizer survives the batch; the random strategy fills the batch with random feasible members, and Thompson sampling with minimizers of posterior draws.',
     ['configurations', 'histories', 'inputs'], 'every evaluator and batch size of the bound, every preferred point and point chosen before, sequences of batches',
     'The tests only look at the number of points of the batch.',
     ['core/evaluators', 'acquisitions/LP.py'], [('compute_batch', 'core/evaluators'), ('update_batches and the penalizers', 'acquisitions/LP.py')],
     'exhaustive enumeration of preferred points and batches, against a reference of the penalization', STUB)

prop('C25', 'Plots show the run and leave it as it is',
     'The plot of the convergence draws, after every history, the distances between consecutive evaluated points and the best value so far at each evaluation. The plot of the acquisition draws, for surrogates with one or two inputs, the data of the surrogate, its posterior mean and uncertainty over the whole domain, an increasing rescaling of the acquisition, and the locations suggested next. A plot is saved in the file of the given name and shown otherwise. Plotting evaluates nothing and does not change the data, the results, the report or the saved parameters of the run.',
     ['histories', 'configurations'], 'every history of runs, interrupted runs, suggestions and plots up to the bound, over domains of every type with one, two and three inputs of the surrogate, and every surrogate, evaluator and label of the bound',
     'No test plots anything.',
     ['core/bo.py', 'plotting/plots_bo.py'], [('plot_acquisition and plot_convergence of the optimization', 'core/bo.py'), ('figures', 'plotting/plots_bo.py')],
     'exhaustive exploration of operation sequences on the real code, the figures are read back', 'The surrogate of the histories and the shading of the density by GPy (incompatible with the installed matplotlib) are stand-ins; the figures are real matplotlib figures without a display.')

NA = [
    ('C90', 'Optimization quality', 'The optimization converges to the optimum of the objective at the rates promised in the literature (regret).',
     'Asymptotic statement over random runs and continuous objectives; a bounded enumeration of executions cannot decide it.', ['core/bo.py']),
    ('C91', 'Random draws follow their distributions', 'Random designs are uniform over the feasible set, Thompson draws and hyper-parameter samples follow the posterior.',
     'Distributional statements are about probabilities, not about sets of behaviours; only support, membership and structure are decided (C11, C15, C24).', ['experiment_design/random_design.py', 'models/gpmodel.py', 'util/mcmc_sampler.py']),
    ('C93', 'Random forest surrogates and the DIRECT library', 'Random forest surrogates satisfy the contract of C15 and the DIRECT library finds minima.',
     'scikit-learn and DIRECT are not installed here, so that code cannot be executed and no model of it can be bound to it (the wrapper of DIRECT is part of C17, with a stand-in for the library).', ['models/rfmodel.py', 'optimization/optimizer.py']),
]


def main():
    import sys
    done = [p for p in P if os.path.exists(os.path.join(HERE, 'mc/checks/%s.py' % p['id'].lower()))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in done:
            f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        for id, title, st, why, files in NA:
            f.write(json.dumps(dict(id=id, title=title, statement=st, quantifier=dict(over=['inputs'], text='every run'), why_tests_cant='Tests sample single runs.',
                                    anchors=dict(files=['GPyOpt/' + x for x in files], mechanism=[dict(name='see files', where='GPyOpt/' + files[0])]))) + '\n')
    m = dict(version=1, setup_cmd='true',
             checks=[dict(property=p['id'], quick_cmd='./run.sh %s' % p['id'], thorough_cmd='./run.sh %s --tier thorough' % p['id'],
                          technique='model checking: ' + p['tech'], level='model_checking', level_note=p['note']) for p in done],
             not_applicable=[dict(property=id, reason=why) for id, _, _, why, _ in NA],
             notes='Every check drives the real code of /repo (PYTHONPATH=/repo) in-process; no hooks are needed in /repo. MC_REPO points the checks at another tree.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(done), 'checks;', max(len(p['title']) for p in P))


main()
