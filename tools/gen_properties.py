#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(qtext.split())), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

EX = 'aideme/explore/'
AL = 'aideme/active_learning/'
NOTEST = 'The repository has no test of this part.'

p('P01', 'Every data point is in exactly one partition and keeps its own row',
  '''After any sequence of moves, each data point of a partitioned dataset is in exactly one of the labeled, inferred and
  unknown partitions, namely the one its accepted moves put it in, and the partition views and sizes agree with this.
  In every view and every lookup by index (single, repeated, any order) an index stands beside the data row it was given with,
  and samples are drawn without replacement from the dataset or view they are asked of.''',
  ['histories', 'inputs'], 'all sequences of moves to labeled / inferred / unknown, removals of inferred points, resets and lookups, over any pool size and any distinct integer indexes',
  NOTEST + ' The invariant ranges over move histories, each of which permutes rows in place.',
  [EX + 'partitioned.py', EX + 'index.py'],
  [('row swaps and the index-to-row map', EX + 'partitioned.py: PartitionedDataset, IndexedDataset'), ('Index', EX + 'index.py')],
  [('partition boundaries', 'start rows of the inferred and unknown partitions', EX + 'partitioned.py')],
  ['PartitionedDataset.labeled / inferred / unknown / unlabeled / index / data / from_index / sample / *_size'])
p('P02', 'Training sets pair each labeled point with the label it was given',
  '''The training set consists of exactly the points of the labeled partition, each once, and pairs each point's own data row
  with the final (or partial) label most recently given to it. The last training set does so for the points of the most
  recently accepted labeling batch. Points which leave the labeled partition take their label with them.''',
  ['histories', 'inputs'], 'all histories of labeling batches, moves between partitions, partial label updates and resets',
  NOTEST + ' Misalignment needs several moves, or a point moved out of the labeled partition and back.',
  [EX + 'partitioned.py', EX + 'labeledset.py'],
  [('labeled set kept in the row order of the labeled partition', EX + 'partitioned.py: training_set, last_training_set'), ('LabeledSet.concat / get_index', EX + 'labeledset.py')],
  [('labeled set', 'labels in labeling order', EX + 'partitioned.py')],
  ['PartitionedDataset.training_set, last_training_set, labeled_set'])
p('P03', 'A refused move changes nothing',
  '''A move naming a point which is already in the target partition, which is not in the dataset, or which is repeated within
  the batch is refused with an exception, and leaves partitions, labels and training sets exactly as they were. Any other move is accepted.''',
  ['histories', 'inputs'], 'all move histories, with the offending index at any place of the batch',
  NOTEST + ' Needs a failure in the middle of a batch.',
  [EX + 'partitioned.py'], [('checks before moving', EX + 'partitioned.py: move_to_labeled / move_to_inferred / move_to_unknown')],
  observe=['exceptions and all views of PartitionedDataset'])
p('P04', 'Resetting a dataset makes it as good as new',
  '''After a reset every point of a partitioned dataset is unknown, points are sorted by index with their own rows, there
  are no labels or last batch, and every later operation behaves as on a newly built dataset.''',
  ['histories'], 'all histories before and after the reset', NOTEST + ' Needs long histories on both sides of the reset.',
  [EX + 'partitioned.py'], [('clear', EX + 'partitioned.py')], observe=['all views of PartitionedDataset after clear()'])
p('P05', 'An exploration asks for each point at most once, with its true labels',
  '''In every iteration of a simulated exploration the points shown to the user are unlabeled points of the dataset, each at most once per run,
  and the recorded indexes, final labels and partial labels are those of these very points in the user's labeled set.
  When nothing else stops it, a run goes on until all points are labeled, and then stops.''',
  ['histories', 'inputs', 'configurations'], 'all pools, label assignments, index numberings, learners, samplers and subsample sizes',
  NOTEST + ' Depends on the whole history of a run.',
  [EX + 'explore.py', EX + 'manager.py', EX + 'labeledset.py'], [('exploration loop', EX + 'explore.py: _run'), ('get_next_to_label', EX + 'manager.py')],
  observe=['metrics yielded by PoolBasedExploration.run'])
p('P06', 'Initial sampling lasts exactly until both labels have been seen',
  '''With an initial sampler, points come from the sampler until at least one positive and one negative label are known, and from the
  active learner from the next iteration on; without one they always come from the learner. The learner is trained once per
  iteration that ends in the exploration phase, on all labels known by then, and never before; and the recorded phase of
  an iteration is the one it started in.''',
  ['histories', 'configurations'], 'all label sequences, sampler batches and label noise',
  NOTEST + ' Depends on which labels earlier iterations brought.',
  [EX + 'manager.py', EX + 'labeledset.py'], [('is_exploration_phase', EX + 'manager.py'), ('has_positive_and_negative_labels', EX + 'labeledset.py')],
  observe=['calls made to sampler and learner', 'metrics phase'])
p('P07', 'Exploration stops at the first iteration at which a criterion holds',
  '''A run takes no further iteration as soon as any configured criterion holds for the current state and the metrics of the
  iteration just finished, or no unlabeled point remains, and never stops otherwise. The iteration limit m stops a run once more than m
  iterations are done, and a metric threshold once the named metric is recorded with a value at or above it.''',
  ['histories', 'configurations'], 'all combinations of criteria, metric values and callback periods',
  NOTEST + ' Quantifies over runs and criteria.',
  ['aideme/utils/convergence.py', EX + 'manager.py', EX + 'explore.py'], [('converged', EX + 'manager.py'), ('criteria', 'aideme/utils/convergence.py')],
  observe=['number of yielded metrics', 'values given to the criteria'])
p('P08', 'Callbacks run on schedule and see the state after the iteration',
  '''With a callback period k, callback metrics are recorded for iterations 1, 1+k, 1+2k, ... and for an iteration after which
  the run stops anyway, and for no other. Every callback is run then, on the dataset and the learner as updated by that
  iteration, and if several report the same metric the last one counts.''',
  ['histories', 'configurations'], 'all callback periods, numbers of callbacks and stopping points', NOTEST,
  [EX + 'manager.py', EX + 'explore.py'], [('get_callback_metrics', EX + 'manager.py')], observe=['yielded metrics', 'arguments of callbacks'])
p('P09', 'The metrics of an iteration are its own',
  '''The record produced for an iteration contains what was logged during that iteration and nothing of an earlier one or of another
  run, also when earlier runs were abandoned halfway. Records already handed out never change, whether runs are read as lists or as generators.''',
  ['histories'], 'all interleavings of finished and abandoned runs, metrics that appear in some iterations only, list and generator output',
  NOTEST + ' Leaks need several iterations or runs.',
  [EX + 'explore.py', 'aideme/utils/metric_logger.py'], [('flush between iterations', EX + 'explore.py: _run')], observe=['yielded metrics'])
p('P10', 'Repeated runs are independent and reproducible',
  '''Every repetition starts from a reset dataset and a reset learner and is determined by its seed alone: the same seed
  gives the same queries and labels whatever ran before it, in the same exploration object, on the same learner or elsewhere.''',
  ['histories', 'configurations', 'inputs'], 'all seeds, repetition orders, abandoned earlier runs and learners of the library',
  NOTEST + ' Compares whole histories with each other.',
  [EX + 'explore.py', EX + 'manager.py', 'aideme/utils/random.py', AL + 'active_learner.py'], [('seeding and clear at the start of a run', EX + 'explore.py: _run'), ('clear of every learner', AL)],
  observe=['sequences of labeled indexes of runs'])
p('P11', "An exploration leaves the caller's objects alone",
  '''Running explorations with data copying on (the default) never changes the caller's data matrix, labels, partial labels, indexes, list of
  callbacks, list of criteria or seeds, and these may be any sequence, tuples included. Without data copying, indexes and labels are still untouched.''',
  ['inputs', 'histories', 'configurations'], 'all runs and argument types', NOTEST,
  [EX + 'explore.py', EX + 'partitioned.py', EX + 'labeledset.py', 'aideme/utils/validation.py'], [('copies', EX + 'explore.py: run'), ('process_callback', 'aideme/utils/validation.py')],
  observe=['the arguments after the run'])
p('P12', 'Label noise is consistent, confined to exploration, and does not touch the truth',
  '''Noise is injected only into iterations of the exploration phase having more than the given number of iterations before them; there each
  final label is flipped with the given probability (never for 0, always for 1), a point turned positive gets all its partial labels positive, a
  point turned negative gets exactly one partial label more negative, which may be any of them independently of the other points, and an unflipped point keeps them all. The model is trained on noisy labels while
  the record also keeps the true ones.''',
  ['histories', 'inputs', 'configurations'], 'all noise levels, skip counts and label matrices obeying the conjunction', NOTEST,
  ['aideme/utils/noise.py', EX + 'explore.py'], [('random_noise_injector', 'aideme/utils/noise.py')], observe=['yielded metrics', 'training sets of the learner'])
p('P13', 'The command line session accepts well-formed answers only',
  '''A manual session asks whether to continue until it gets y or n, stops at n or once converged, and asks for the labels of the shown points
  until it gets exactly one 0 or 1 per point. Exactly these labels, in this order, are attached to the shown points and given to the learner.
  The initial sampler picks the points until both labels are known, and then the learner, among as many candidates as configured.''',
  ['inputs', 'histories'], 'all sequences of user input lines, batch sizes and stopping criteria', NOTEST,
  [EX + 'command_line_explore.py'], [('input validation', EX + 'command_line_explore.py')], observe=['prompts', 'training sets of the learner'])
p('P14', 'Convex region predictions are exactly what the labels imply',
  '''While no conflict was found, a point is predicted positive if and only if it lies in the convex hull of the positive points seen (once these span
  the space), negative if and only if it lies in the cone which some negative point sees opposite to them (once enough of them span with it), and unknown otherwise.
  A labeled point is never predicted as having the opposite label, and a known prediction never changes as long as no conflict is found.''',
  ['histories', 'inputs'], 'all sequences of labeled batches in general position, any batch sizes, flat and empty batches included, and all query points; also with the roles of labels exchanged',
  'The existing tests use a dozen fixed point sets, one batch at a time; the claim is about every history and query point.',
  [AL + 'dsm/polytope.py', AL + 'dsm/convex/geometry.py', AL + 'dsm/convex/convex.py', AL + 'dsm/convex/one_dim_convex.py'],
  [('PositiveRegion and NegativeCone', AL + 'dsm/convex/geometry.py'), ('Polytope', AL + 'dsm/polytope.py')], observe=['update and predict of the polytopes'])
p('P15', 'Contradictory labels are noticed, whatever the batching',
  '''An update returns failure exactly when the labels seen so far contradict convexity of the assumed region, with the same outcome for every way of
  splitting a history into batches; a failed model predicts unknown everywhere and refuses updates.
  The persistent model then goes on with the opposite assumption, having seen the same history, and is invalid only when both are contradicted. Resetting makes any model as new.''',
  ['histories', 'inputs'], 'all labeled histories in general position and all ways to batch them',
  'Existing tests contain three fixed conflicts.',
  [AL + 'dsm/polytope.py'], [('ConvexError and is_valid', AL + 'dsm/polytope.py'), ('PersistentPolytope', AL + 'dsm/polytope.py')], observe=['update, is_valid, predict'])
p('P16', 'Categorical and multi-set models infer exactly what labels force',
  '''The categorical model predicts a label for precisely the values seen with that label. In the multi-set model, where a point is positive iff all its items are,
  items of positive points are positive, an item is negative once some negative point has no other item left that could be, and a point is predicted positive
  iff all items are known positive and negative iff one is known negative. Contradictions are reported by the update revealing them; results do not depend on the order or batching of a consistent history.''',
  ['histories', 'inputs'], 'all histories of labeled values / item sets and all query points', 'These models have no tests.',
  [AL + 'dsm/polytope.py', AL + 'version_space/categorical.py'], [('CategoricalPolytope, MultiSetPolytope', AL + 'dsm/polytope.py')], observe=['update, is_valid, predict'])
p('P17', 'Factorized models combine subspaces conjunctively',
  '''A factorized polytope model shows every subspace its own columns and its own partial labels of every batch; a point is predicted positive iff
  all subspaces are valid and predict positive, negative iff some valid subspace predicts negative, and unknown otherwise. A conflict in one
  subspace fails the update but costs the other subspaces nothing, and the model is invalid only when all subspaces are.''',
  ['histories', 'inputs', 'configurations'], 'all partitions (slices or column lists), modes, histories and query points', NOTEST,
  [AL + 'dsm/model.py'], [('FactorizedPolytopeModel', AL + 'dsm/model.py')], observe=['update, predict, predict_partial'])
p('P18', 'The inferred partition holds exactly what the polytope knows',
  '''After every training step of the dual space model with a valid polytope, an unlabeled point is in the inferred partition iff the polytope knows its label;
  after a conflict this is rebuilt with what the polytope then knows, and with an invalid polytope no point is newly inferred. Predictions give known points the polytope's label and all others the
  wrapped learner's.''',
  ['histories', 'inputs', 'configurations'], 'all labeling histories, conflicting ones included, polytope modes and subsample sizes', NOTEST,
  [AL + 'dsm/base.py', EX + 'partitioned.py'], [('fit_data', AL + 'dsm/base.py')], observe=['partitions after fit_data', 'predict, predict_proba'])
p('P19', 'The dual space model labels known points itself and asks the user for the rest',
  '''While unknown points remain and the polytope is valid, every point given to the user is one whose label the polytope does not know. Points picked
  by the wrapped learner whose label is known are added with that label to the learner's training data instead, which always consists of
  the user's labels plus those still confirmed by the polytope.''',
  ['histories', 'configurations'], 'all histories, learner preferences and mixing probabilities', NOTEST,
  [AL + 'dsm/base.py'], [('next_points_to_label', AL + 'dsm/base.py')], observe=['queries', 'fit calls to the wrapped learner'])
p('P20', 'The next query is a most informative unlabeled candidate',
  '''By default the next query is a single unlabeled point of minimal score among all unlabeled points, or among a random sample of the
  requested size of them, and every minimizer can be chosen. The random strategy returns the requested number of distinct unlabeled points, or all if fewer remain.''',
  ['inputs', 'histories'], 'all score assignments with ties, pools, subsample and batch sizes', NOTEST,
  [AL + 'active_learner.py', AL + 'random.py', EX + 'partitioned.py'], [('_select_next', AL + 'active_learner.py')], observe=['next_points_to_label', 'rank calls'])
p('P21', 'Subspace learners see their own columns and are combined as documented',
  '''With a factorization, each subspace learner is trained and queried on exactly its own columns and its own partial label, and label, probability and ranking of a point are the
  documented combination (and / or / product, sum or sum of squares, greedy / squared / product loss) of those of the subspace learners.
  A new factorization replaces the old one. Subspaces of categories and multi-sets give probability 0 or 1 to exactly the values which the labels settle (for categories, 1 / 2 to the others).''',
  ['inputs', 'configurations'], 'all partitions, connectors, losses and subspace predictions', NOTEST,
  [AL + 'version_space/subspace.py'], [('SubspaceLearner, SubspatialVersionSpace', AL + 'version_space/subspace.py')], observe=['calls to subspace learners', 'predict, predict_proba, rank'])
p('P22', 'Sampled hypotheses agree with every label',
  '''Every hypothesis sampled by a version space learner lies in the unit ball and classifies all labeled points correctly, so a labeled point has probability exactly 0 or 1;
  this holds at every step of any labeling, points coming one by one or in batches or being taken back, with and without sample and rounding caches, kernels, intercept and multiple chains. The random walk stays inside the body, on
  the segment cut out of it exactly, separating planes are reported iff a point is outside, and the rounding ellipsoid always contains the body and, rounded to the end, lies
  in its cone when shrunk by the documented factor. Warm-up, thinning and chains are as configured. A reset learner behaves as a new one.''',
  ['histories', 'inputs', 'configurations'], 'all consistent growing labelings and sampler configurations', 'The test file of this part cannot even be imported.',
  [AL + 'version_space/hit_and_run/hit_and_run.py', AL + 'version_space/hit_and_run/polyhedral_cone.py', AL + 'version_space/linear.py', AL + 'version_space/kernel.py'],
  [('HitAndRunSampler, BoundedPolyhedralCone', AL + 'version_space/hit_and_run/')], observe=['samples', 'predict_proba', 'intersection, get_separating_oracle, get_interior_point'])
p('P23', 'The swap learner switches phases on time, and only to a stable factorization',
  '''The swap learner delegates to the wrapped active learner for the configured number of training steps, then to its factorized linear model, trained in the next step, and
  never goes back before a reset. It switches to the fully factorized learner only when the computed factorization has been the same the required number of
  times in a row and each part is contained in exactly one subspace of the user, one to one; the subspaces are the ones last given by the user. Options of the factorization are passed on. Predictions come from the model of the current phase; the linear model is first trained
  on the active learner's predictions (or the labels, as configured), and then on all labels, from its previous weights. A reset goes back to the first phase with all models reset.''',
  ['histories', 'configurations'], 'all swap points, update periods and sequences of computed factorizations', NOTEST,
  [AL + 'factorization/active_learning.py'], [('SwapLearner, FactorizationManager', AL + 'factorization/active_learning.py')], observe=['delegated calls', 'training sets and starting weights of the wrapped models', 'predictions', 'FactorizationManager answers'])
p('P24', 'Computed factorizations are antichains, aligned with the user subspaces',
  '''An attribute is relevant to a subspace when the share of its absolute weight (of all its group's, when attributes are grouped) in the subspace is above average.
  The factorization derived from relevant attributes consists of exactly the maximal relevant attribute sets, without repetition or inclusion between them, whatever their order.
  On a switch it and the partial labels are put in the order of the user's subspaces, column by column.''',
  ['inputs'], 'all relevance matrices and all user factorizations', NOTEST,
  [AL + 'factorization/learn.py', AL + 'factorization/active_learning.py'], [('compute_factorization', AL + 'factorization/learn.py'), ('fact_reindexing', AL + 'factorization/active_learning.py')],
  observe=['compute_factorization, fact_reindexing, set_factorization_structure arguments'])
p('P25', 'Partition search covers every admissible partition',
  '''Exhaustive search evaluates every partition of the attributes within the given limits on number and size of blocks, no other, and returns one of least loss.
  Greedy search starts from single attributes, only ever merges two blocks within the size limit, takes a best merge while that lowers the loss, and stops otherwise.''',
  ['inputs', 'configurations'], 'all attribute counts, limits and loss functions', NOTEST,
  [AL + 'factorization/partitioning/learn.py'], [('BruteForceSelector, GreedySelector', AL + 'factorization/partitioning/learn.py')], observe=['partitions given to the learner', 'returned partition'])
p('P26', 'Mini-batches visit every example once per epoch',
  '''With a batch size below the number of examples, successive gradient batches partition the examples: all batches of an epoch have the batch size except perhaps the
  last, and every example is used exactly once per epoch, in a new random order. Otherwise every gradient uses all examples. A gradient is the mean over the examples of its batch,
  to which the gradient of the penalty is added in full, whatever the batch; proximal optimizers deal with the penalty themselves, so their gradients have none.''',
  ['histories', 'inputs'], 'all data sizes, batch sizes and numbers of steps', NOTEST,
  [AL + 'factorization/linear.py'], [('get_next_batch', AL + 'factorization/linear.py')], observe=['gradients with unit-vector examples'])
p('P27', 'Optimizers follow their protocol',
  '''An optimizer starts from the given point, which it does not modify, evaluates steps until the first time its tolerance test holds, or the iteration limit is reached, calls the callback once per iterate in order,
  and reports the last iterate with its function value and whether it converged (BFGS takes a starting point of any shape and returns one of that shape). Every step is the one its method prescribes (gradient descent with momentum, Adam, noisy, proximal, FISTA, line search).
  Scheduled step sizes depend only on the iteration number, and a second minimization behaves as on a new optimizer.''',
  ['histories', 'inputs', 'configurations'], 'all iteration limits, tolerances, schedules and repeated uses', NOTEST,
  [AL + 'factorization/optimization.py', AL + 'factorization/step_size_scheduler.py'], [('minimize', AL + 'factorization/optimization.py')], observe=['func, grad and callback calls', 'result'])
p('P28', 'Categorical inference over subspaces is sound',
  '''Given final labels only, inference over factorized categorical data concludes a partial label iff the labels force it under the conjunctive assumption, independently of the order of a consistent history. Contradictory labels
  are reported. Final predictions are the minimum of the partial ones, with one half standing for unknown.''',
  ['histories', 'inputs'], 'all label histories over categorical points', 'The one existing test makes no assertion.',
  [AL + 'inference/inference.py'], [('Inference', AL + 'inference/inference.py')], observe=['update, predict, predict_partial'])
p('P29', 'Predicted user labels never override the user',
  '''The labels predicted for the whole dataset list every point exactly once, with the label the user gave to each labeled point and the
  learner's prediction for that very point otherwise, and stay correct after later moves of the dataset.''',
  ['histories', 'inputs'], 'all move histories and learner predictions', NOTEST,
  [EX + 'partitioned.py', EX + 'manager.py'], [('predict_user_labels', EX + 'partitioned.py')], observe=['compute_user_labels_prediction'])
p('P30', 'Query by disagreement trains biased models on a background sample',
  '''The learner is trained on the labeled points; the two biased models on these plus up to the requested number of distinct unlabeled points,
  labeled all positive for the one and all negative for the other, with the background weight on these and weight one on the rest, at any stage of an exploration. Exactly the points on which the biased models differ rank first.''',
  ['inputs', 'histories'], 'all pools, sample sizes larger than what remains included', NOTEST,
  [AL + 'query_by_disagreement.py'], [('fit_data', AL + 'query_by_disagreement.py')], observe=['fit calls', 'rank'])
p('P31', 'Metric logger merges values as asked',
  '''A metric logged again is replaced, summed or appended to as requested for that call, other metrics are unaffected, an unknown
  option is refused without changing anything, and a flush empties the log without changing dictionaries handed out before.''',
  ['histories'], 'all sequences of logging calls', NOTEST,
  ['aideme/utils/metric_logger.py'], [('log_metric', 'aideme/utils/metric_logger.py')], observe=['get_metrics'])
p('P32', 'Classification metrics equal their definitions',
  '''Every reported classification score is its textbook function of the four confusion counts of the learner's predictions on the test set (or on the current training set),
  zero when its denominator is; names are prefixed as asked and unknown score names are refused. The three-set metric is the fraction of known positives among points
  not known to be negative, and the prediction entropy the mean entropy of the predicted probabilities, over the whole dataset.''',
  ['inputs'], 'all label and prediction vectors', NOTEST,
  ['aideme/utils/metrics.py'], [('classification_metrics', 'aideme/utils/metrics.py')], observe=['returned metrics'])
p('P33', 'Initial samplers return what they promise',
  '''Stratified sampling returns the requested numbers of distinct positive and negative points by their indexes, negatives restricted to points negative in
  all subspaces if asked, and fails when there are too few; random sampling returns distinct unlabeled points of the requested number or all that remain; fixed
  sampling returns the given points.''',
  ['inputs', 'histories'], 'all label sets, numberings and requested numbers', NOTEST,
  ['aideme/initial_sampling.py'], [('stratified_sampler, random_sampler', 'aideme/initial_sampling.py')], observe=['sampled indexes'])
p('P34', 'Query strategies score points as documented',
  '''Uncertainty sampling, simple margin, version space and categorical learners score a point the better the closer its predicted probability of being positive is to one half,
  with classifiers of one probability per point as with those of one column per class; ratio margin the better the closer the margins of the two possible labels are to each other; entropy
  reduction prefers points splitting the sampled hypotheses most evenly, and among these the ones which leave the least expected entropy of the predictions over its data sample. The learner
  asks for such a best unlabeled point, and scoring points does not change its predictions, at any stage of an exploration.''',
  ['inputs', 'histories'], 'all training sets, points and hypotheses', NOTEST,
  ['aideme/active_learning/uncertainty.py', 'aideme/active_learning/margin.py', 'aideme/active_learning/entropy.py', 'aideme/active_learning/version_space/base.py', 'aideme/active_learning/version_space/categorical.py',
   'aideme/active_learning/active_learner.py'],
  [('rank', 'aideme/active_learning/uncertainty.py'), ('EntropyReductionLearner.rank', 'aideme/active_learning/entropy.py'), ('RatioMargin.rank', 'aideme/active_learning/margin.py')],
  observe=['scores, probabilities and labels of points', 'points asked for'])
p('P35', 'Factorized linear models combine, restrict, merge and prune subspaces', 
  '''A factorized model's probability of a point is the product of those of its subspaces, and its label is positive exactly when this exceeds one half. Training on given subspaces leaves
  weights of attributes outside of them zero; of several starting points, which are not modified, the one of least loss counts. Pruning keeps, in order, exactly the subspaces with non-zero weights which
  some point of the data does not clearly satisfy, and leaves the original as it is. Merging two blocks keeps all weights and adds their biases. Weights, biases and copies handed out
  are the caller's own: changing them does not change the model.''',
  ['inputs', 'configurations'], 'all weights, subspaces, groups and data points', NOTEST,
  [AL + 'factorization/linear.py', AL + 'factorization/learn.py', AL + 'factorization/partitioning/linear.py'],
  [('LinearFactorizationLearner', AL + 'factorization/linear.py'), ('prune_irrelevant_subspaces', AL + 'factorization/learn.py'), ('merge_partitions', AL + 'factorization/partitioning/linear.py')],
  observe=['weights, bias, probabilities and labels of trained, pruned and merged models'])
p('P36', 'Penalties equal their definitions and yield true proximal points',
  '''Value, gradient, proximal point and optimality test of every penalty (L1, L2, square root of L2, sparse group lasso and group penalties, interaction, Huber) are those of its definition:
  the proximal point of a vector for a step size minimizes the penalty plus the squared distance over twice the step size, and the optimality test accepts a vector exactly if it is a subgradient
  at the given weights, up to the tolerance. Groups are taken as given, whether or not the penalty has been attached to a learner, and arguments are not modified.''',
  ['inputs', 'configurations'], 'all weight vectors, steps, penalty strengths and groups', NOTEST,
  [AL + 'factorization/penalty.py'], [('PenaltyTerm and its subclasses', AL + 'factorization/penalty.py')], observe=['penalty values, gradients, proximal points, answers of the optimality test'])
p('P37', 'Factorized linear models are trained on the stated loss',
  '''The function handed to the optimizer is the mean loss of the labels under the product of the subspace probabilities, plus the penalty of the weights without the bias, and the gradient handed over is
  this function's derivative; in a given factorization, only the attributes of a subspace carry weights, and a kernel model uses the kernel of the subspace columns with the training points. The
  resulting model is made of what the optimizer returned, also when trained again on other subspaces. The same holds for the learner of partitions of the attributes. A proximal optimizer gets the
  loss with the penalty, the gradient without it, and the proximal point of the weights, the biases being exempt.''',
  ['inputs', 'histories', 'configurations'], 'all training sets, factorizations, weights and penalties', NOTEST,
  [AL + 'factorization/linear.py', AL + 'factorization/partitioning/linear.py'], [('LinearFactorizationLearner', AL + 'factorization/linear.py')],
  observe=['values and gradients of the function given to the optimizer, starting points, weights and probabilities'])
p('P38', 'Kernels equal their definitions on whatever data they were fitted',
  '''Linear, polynomial and Gaussian kernel matrices and diagonals equal their definitions for every parameter (a Gaussian kernel's default being one over the number of attributes), with the jitter on the
  diagonal only. Kernel features are those of the points of the last fit (also in factorization learners, for the subspaces or the number of subspaces of this fit); factorized kernels use the columns of each subspace in the given order, and clones are independent. The
  features of a kernel version space have the kernel's products and norms. A Nystroem
  approximation with all components reproduces the kernel. Interaction terms are the attributes followed by their products. Arguments are not modified.''',
  ['inputs', 'histories', 'configurations'], 'all data, kernel parameters and factorizations', NOTEST,
  [AL + 'kernel.py', AL + 'factorization/kernel.py', AL + 'factorization/interaction.py', AL + 'version_space/kernel.py'], [('Kernel', AL + 'kernel.py'), ('FactorizedKernelTransform', AL + 'kernel.py')],
  observe=['kernel matrices, diagonals and transformed data'])
p('P39', 'Bayesian logistic regression predicts from the Laplace approximation',
  '''The predicted probability of a point is the normal distribution function at its margin under the most probable weights over the square root of its variance under the inverse Hessian plus 8 / pi.
  Labels and scores follow from these probabilities. The weight form and the kernel form of the same model agree (also for points of any length and polynomial kernels), a learner of kernel values is the one of weights on the values of the configured kernel, opposite labels and opposite points give the complementary probability, an improper
  prior adds nothing, and training again forgets the previous data.''',
  ['inputs', 'histories', 'configurations'], 'all training sets, priors and points', NOTEST,
  [AL + 'version_space/bayesian/laplace.py', AL + 'version_space/bayesian/base.py'], [('LaplaceBayesianLogisticRegression', AL + 'version_space/bayesian/laplace.py')],
  observe=['predicted probabilities, labels and scores'])
p('P40', 'Warm-started trainings follow their schedules',
  '''The factorized uncertainty sampler starts from random weights of the configured number of subspaces in its first training after a reset, and from its last weights in every later one,
  without the subspaces pruned meanwhile; its penalty grows evenly (or logarithmically) over the configured first trainings after a reset, and then stays at its full value. The simplified swap
  learner trains the linear model for the configured iterations: whole passes over the sample in batches when switching, and afterwards a limit which grows as configured up to its maximum, the
  step sizes decaying as configured. Subspaces are pruned at the configured threshold, and factorizations computed with the configured options.''',
  ['histories', 'configurations'], 'all sequences of trainings and resets, and all schedules', NOTEST,
  [AL + 'factorization/active_learning.py'], [('FLMUncertaintySampler', AL + 'factorization/active_learning.py'), ('SimplifiedSwapLearner', AL + 'factorization/active_learning.py')],
  observe=['starting weights, iterations and step sizes of trainings, values of the penalized loss'])
p('P41', 'Configurations out of range are refused',
  '''Constructing a component refuses (by a ValueError or TypeError) every numeric argument out of its range, and no other: counts such as batch, sample and chain sizes, iteration limits and repetitions
  have to be positive integers (and None only where it stands for no limit, infinity only for max_iter_reached); step sizes, tolerances, penalties, kernel widths and standard deviations positive and
  finite; optimizer tolerances non-negative; noise, momenta and pruning thresholds between 0 and 1. The documented names of modes, kernels, samplers, priors, strategies and scores
  are accepted and others refused, as are lists of modes, seeds, labels, indexes and weights which do not fit, and partition limits which no partition satisfies. A penalty keeps its value when a new one is refused.''',
  ['inputs', 'configurations'], 'all combinations of arguments of all components', NOTEST,
  ['aideme/utils/validation.py', EX + 'labeledset.py', EX + 'explore.py', AL + 'factorization/optimization.py'], [('assert_positive', 'aideme/utils/validation.py')],
  observe=['exceptions of constructors and setters'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
