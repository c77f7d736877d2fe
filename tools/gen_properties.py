#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay easy to review)."""
import json, os

B = 'bayesian_decision_tree/base.py'
P = 'bayesian_decision_tree/base_perpendicular.py'
H = 'bayesian_decision_tree/base_hyperplane.py'
C = 'bayesian_decision_tree/classification.py'
R = 'bayesian_decision_tree/regression.py'
O = 'bayesian_decision_tree/hyperplane_optimization.py'
U = 'bayesian_decision_tree/utils.py'
V = 'bayesian_decision_tree/_version.py'
I = 'bayesian_decision_tree/__init__.py'


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=observe, hook_needed=hook))


QUERIES = ['predict()', 'predict_proba()', 'prediction_paths()', 'feature_importance()', 'str()', 'get_depth()', 'get_n_leaves()', 'is_fitted()']

props = [
 prop('C01', 'Failed or interrupted training is all-or-nothing',
  'If a fit() call fails or is interrupted at any instant - keyboard interrupt, out of memory, an error raised by the optimizer or one of its evaluations, or a progress-output stream that fails - then afterwards the estimator either answers every query exactly as before the call, or exactly as after a complete fit on the new data, or reports itself untrained and rejects every query with ValueError. It never answers from a mixture of old and new training, from a partially grown or partially pruned tree, and never crashes in another way.',
  ['crash_points', 'fault_sequences', 'inputs', 'configurations'],
  'every instant of fit() at which an exception can surface in library code, every kind of fault, for all four model types, first-time and repeated training, with and without pruning and progress output',
  'The tests contain no failing or interrupted fit at all; the guarantee quantifies over every instant of the call.',
  [B, P, H],
  [('fit() validates, trains, prunes', B + ':fit'), ('posterior_ is assigned last', P + ':_fit'), ('posterior_ is assigned last', H + ':_fit'), ('two-step erasure of a split while pruning', B + ':_prune')],
  ['fit() outcome'] + QUERIES,
  [('posterior_', 'its presence is what "trained" means', B + ':is_fitted')]),
 prop('C02', 'Training is independent of the history of the estimator and its collaborators',
  'Whatever was done before with an estimator, its optimizer object, its parameters and its data - completed, rejected or interrupted fits on other data of other shapes or classes, queries, parameter changes, copies - a completed fit() leaves a model that answers every query exactly as a brand-new estimator with the same parameters trained once on the same data. Turning progress output on or off makes no difference.',
  ['histories', 'fault_sequences', 'inputs', 'configurations'],
  'every sequence of fit / failed fit / interrupted fit / query / set_params / clone operations over several estimators that share data, priors and optimizers',
  'Each test fits a fresh estimator exactly once; no test refits, reuses an optimizer after a failure, or compares with a fresh estimator.',
  [B, P, H, O],
  [('split information is erased or overwritten on every fit', P + ':_fit'), ('split information is erased before it is set', H + ':_fit'), ('optimizers create their random state per solve()', O + ':solve'), ('a new optimization function per node', H + ':_fit')],
  QUERIES),
 prop('C03', 'Queries never change a trained model, even when interrupted',
  'Asking a trained model anything - predictions, probabilities, prediction paths, feature importance, printing, depth and size, copying or saving it - never changes any answer it gives later, in whatever order and however often questions are asked. This also holds when a query is rejected or is interrupted at any instant, and when the caller goes on to overwrite the answers it got or the data it trained with.',
  ['histories', 'crash_points', 'inputs'],
  'every sequence of queries in every order, with rejected queries and an interruption at any instant of a query',
  'Tests query a model a few times in one fixed order and never interrupt a query.',
  [B, P, H, C, R],
  [('queries only read node fields', B + ':_predict'), ('paths are collected in caller-local lists', P + ':_update_prediction_paths'), ('importance is accumulated in a local array', B + ':feature_importance')],
  QUERIES),
 prop('C04', 'Concurrent queries on a shared trained model answer as if asked alone',
  'Any number of caller threads may query the same trained model at the same time, with inputs of different sizes and storage formats. In every interleaving each query returns exactly what it returns when asked alone, also when another thread\'s query fails or is killed half way.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every interleaving, at bytecode granularity inside the library, of the queries of 2 to 4 threads on one model',
  'No test starts a thread.',
  [B, P, H, C, R],
  [('no state is written while predicting; results are written into a caller-local array', B + ':_predict'), ('sparse format conversion rebinds a local name only', B + ':_predict')],
  QUERIES),
 prop('C05', 'Concurrent training of separate estimators is interference-free',
  'Threads that train separate estimators at the same time may share the training matrix, the targets, the prior, the feature names and the optimizer object. In every interleaving each estimator ends up exactly as if it had been trained alone, also when another thread\'s training fails or is interrupted half way.',
  ['schedules', 'fault_sequences', 'inputs', 'configurations'],
  'every interleaving, at bytecode granularity inside the library, of 2 to 4 concurrent fits sharing data, priors and optimizers',
  'No test starts a thread; the shared use of one optimizer object is never exercised.',
  [B, P, H, O],
  [('all training state lives in the estimator or in locals', P + ':_fit'), ('random state and candidates are local to solve()', O + ':solve'), ('optimization function per node', H + ':_fit')],
  ['fit()'] + QUERIES),
 prop('C06', 'Data and parameters handed in by the caller are never modified',
  'No operation modifies the training matrix, targets, query inputs, feature names, prior or any other object the caller passed in - not even temporarily, at any instant of the operation, and not when it fails or is interrupted. Read-only arrays are accepted wherever writable ones are.',
  ['inputs', 'crash_points', 'schedules', 'configurations'],
  'every instant of every operation, for dense (C, Fortran, strided, read-only), sparse, DataFrame and list inputs and all model types',
  'No test looks at its inputs after a call, let alone during one.',
  [B, P, H, O, C],
  [('sorting works on index arrays', P + ':_fit'), ('normals are normalised on a copy', O + ':compute'), ('posterior = prior + counts makes a new array', C + ':_compute_posterior')],
  ['the caller-owned objects themselves, at every step']),
 prop('C07', 'Training and answers are reproducible and independent of ambient state',
  'With fixed data, parameters and optimizer seeds, training and all queries give exactly the same results in every process, whatever the state of the global random number generators, the clock, the hash seed or the numerical work done before. The library never consumes, reseeds or otherwise disturbs the global random number generators, at any instant.',
  ['schedules', 'configurations', 'histories', 'inputs'],
  'all ambient states: global RNG state, clock value and jumps, hash seed, process, for all model types and built-in optimizers',
  'Tests run once in one process with PYTHONHASHSEED=0 and mostly seed the global generator first.',
  [O, H, B],
  [('private RandomState(seed) per solve()', O + ':solve'), ('default optimizer has a fixed seed', H + ':_fit'), ('seed handed to the scipy solver', O + ':ScipyOptimizer.solve')],
  QUERIES + ['numpy.random.get_state()', 'random.getstate()']),
 prop('C08', 'The best proposed split wins, whatever the optimizer does',
  'A hyperplane node adopts a split that is at least as likely as the best split along every direction its optimizer proposed, and stays a leaf only if none of these beats not splitting - whatever the order, number, scale or quality of proposals: duplicates, degenerate vectors, early stop, no proposals at all. The score returned to the optimizer for a proposal is the negated log-likelihood of the best split along it, and the adopted hyperplane separates the node\'s training data exactly into the two groups that were scored.',
  ['fault_sequences', 'schedules', 'inputs'],
  'every sequence of proposals (lost, duplicated, reordered, degenerate, truncated) from a built-in or custom optimizer, on all data without near-ties at the split precision',
  'Tests use five built-in optimizers on a handful of tiny data sets and only check coarse placement of the split.',
  [O, H, U],
  [('best split over all evaluations is remembered in the optimization function', O + ':HyperplaneOptimizationFunction.compute'), ('the split is adopted only if both sides are non-empty', H + ':_fit'), ('mapping of the unit hypercube to directions', U + ':hypercube_to_hypersphere_surface')],
  ['HyperplaneOptimizationFunction.compute() return values', 'best_hyperplane_normal_ / best_hyperplane_origin_ of every node', 'n_data_ of every node'],
  [('best_*', 'best split seen so far during one solve()', O)]),
 prop('C09', 'Parallel evaluation of proposals loses or mixes nothing',
  'When an optimizer evaluates its proposals on several worker threads or in worker processes (such as the workers option of the scipy solvers), in every interleaving and with slow, duplicated, reordered or retried evaluations, the adopted split is as likely as the best evaluation reported to the optimizer. The adopted direction, position and recorded likelihood always belong to one and the same proposal.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every interleaving, at bytecode granularity, of 2 to 4 evaluation workers; in-process and out-of-process evaluation; delayed, duplicated, reordered, retried evaluations',
  'No test passes the workers option or evaluates concurrently.',
  [O, H],
  [('check-then-update of the best split', O + ':HyperplaneOptimizationFunction.compute'), ('solver options are passed through', O + ':ScipyOptimizer')],
  ['compute() return values', 'best_hyperplane_normal_ / best_hyperplane_origin_', 'feature_importance()'],
  [('best_*', 'four fields that must change together', O)]),
 prop('C10', 'Every decision of an axis-aligned tree is the Bayesian optimum',
  'After any history of operations and faults, a completed fit of a perpendicular tree is the greedy maximum-marginal-likelihood tree: each node splits midway between two neighbouring distinct values on the feature and position of highest posterior likelihood (Dirichlet-categorical or normal-gamma evidence times the partition prior) if that beats not splitting, and is a leaf otherwise. With pruning, for all tree types, exactly those sibling leaves with identical predictions are merged, repeatedly until none are left, and a merged node answers from all the data below it.',
  ['histories', 'fault_sequences', 'inputs', 'configurations'],
  'all histories of fits (completed, failed, interrupted) over all data sets, storage formats, priors, partition priors, split precisions and delta values',
  'Tests check hand-made data sets with at most two splits and one prior; ties, deep trees, sparse and multiclass data and histories are not reached.',
  [P, C, R, B, U],
  [('exhaustive scan of splits with prefix sums', P + ':_fit'), ('evidence', C + ':_compute_log_p_data_split'), ('evidence', R + ':_compute_log_p_data_split'), ('pruning', B + ':_prune'), ('log beta function', U + ':multivariate_betaln')],
  ['tree structure (child1_, child2_, split_dimension_, split_value_)', 'prediction_paths()', 'feature_importance()']),
 prop('C11', 'Training samples are conserved and routed to the leaf that learned from them',
  'After any history of operations and faults, every training sample of the last completed fit, also one with missing values (NaN), is counted in exactly one leaf: node counts add up level by level to the number of samples, and querying a training sample reaches precisely the leaf whose count and posterior include it. Each leaf\'s posterior is its prior updated with exactly the samples it holds.',
  ['histories', 'fault_sequences', 'inputs'],
  'all histories over all training sets (duplicates, neighbouring floating-point numbers, narrow integer types, sparse, DataFrame) and all model types',
  'Tests check counts on data sets of ten well-separated points only.',
  [P, H, B, C, R],
  [('partition of the sort indices', P + ':_fit'), ('split value between the neighbours', P + ':_fit'), ('x < split goes left, x >= split goes right', P + ':_compute_child1_and_child2_indices'), ('projection sign', H + ':_compute_child1_and_child2_indices'), ('conjugate update', C + ':_compute_posterior')],
  ['n_data_ of every node', 'predict_proba()/predict() on the training data', 'str()']),
 prop('C12', 'Answers do not depend on how query rows are packaged',
  'The answer for a row is a function of that row and the trained model only: it is the same whether the row is asked alone or in any batch, in any order, next to duplicates or retries, and in any supported storage format (dense, CSR, CSC, DataFrame, list, narrower numeric type holding the same values). Every row of a request gets exactly one answer, in request order, also if values are missing (NaN) or infinite.',
  ['schedules', 'histories', 'inputs'],
  'every batching, reordering, duplication and retry schedule of a request stream and every storage format, for all model types',
  'Tests use batches of four to six rows in one order on trees of depth at most two.',
  [B, P, H],
  [('index bookkeeping while descending', B + ':_predict'), ('path bookkeeping while descending', P + ':_update_prediction_paths'), ('sparse column access', P + ':_to_array')],
  ['predict()', 'predict_proba()', 'prediction_paths()']),
 prop('C13', 'A model survives save, crash and restore unchanged',
  'A model saved at any point of its history and restored after a crash in a new process answers every query exactly as the saved one did, and training the restored one gives the same result as training the original; an untrained or failed one is restored as untrained. A save that was cut short is never restored as a model that answers differently.',
  ['crash_points', 'histories', 'fault_sequences', 'configurations'],
  'every point of the history at which the model is saved, pickle protocols and copies, and every truncation of the saved bytes; restore in a fresh process',
  'No test saves or copies a model.',
  [B, H, O],
  [('plain attributes only; bound method of the node kept in the optimization function', H + ':_fit'), ('constructor arguments stored under their own names', B + ':__init__')],
  ['pickle / copy.deepcopy'] + QUERIES),
 prop('C14', 'Clones in a worker pool influence neither each other nor the prototype',
  'Cross-validation and parameter search with scikit-learn work as for any estimator: clones of one prototype, reparameterised, trained and scored by concurrent workers on subsets of shared data (arrays, sparse matrices, or pandas objects with any index), give exactly the scores of serial evaluation, also when workers die and their tasks are retried. The prototype keeps its parameters and its trained or untrained state.',
  ['schedules', 'fault_sequences', 'inputs', 'configurations'],
  'every interleaving of 2 to 4 workers over clone / set_params / fit / score tasks, with killed, duplicated and retried tasks',
  'No test clones an estimator, sets parameters or uses scikit-learn model selection.',
  [B, C, R, H, P],
  [('scikit-learn BaseEstimator protocol', B + ':__init__'), ('constructor arguments', C + ':__init__'), ('target normalisation', B + ':fit')],
  ['sklearn.base.clone', 'get_params()/set_params()', 'score()']),
 prop('C15', 'Invalid requests are rejected with ValueError and have no effect',
  'In every state of an estimator - untrained, trained, after a failed or interrupted fit - training data of wrong shape, mismatched lengths or wrong class labels, queries with the wrong number of features, and any query to an untrained model are rejected with ValueError. A rejected request changes nothing: all later answers are as if it had never been made.',
  ['histories', 'fault_sequences', 'inputs'],
  'every history of valid, invalid and interrupted requests in every order, all storage formats and model types',
  'Tests reject a few requests on fresh models and never look at the model afterwards.',
  [B, C, R],
  [('validation precedes any state change', B + ':fit'), ('label check', C + ':_check_target'), ('state and dimension check', B + ':_ensure_is_fitted')],
  ['fit() / query outcome'] + QUERIES),
 prop('C16', 'The package imports and reports a version whatever git does',
  'Importing the package never fails because of the version lookup: if git is missing, not permitted, crashes, is killed or fails in any of its invocations, or answers with bytes that are not text, the import succeeds and the version falls back to a placeholder string. If git answers properly the version is derived from the nearest matching tag, the distance, the commit and the dirty flag.',
  ['fault_sequences', 'configurations'],
  'every sequence of outcomes of the git subprocess invocations made during import',
  'Tests import the package once, in a healthy checkout.',
  [V, I],
  [('run_command wraps subprocess failures', V + ':run_command'), ('fall-back chain', V + ':get_versions'), ('rendering', V + ':render')],
  ['bayesian_decision_tree.__version__', 'get_versions()']),
 prop('C17', 'Every operation terminates within a bounded amount of work',
  'Every fit and every query finishes within a bounded number of steps, for all data (constant, duplicated, degenerate, pure noise), all built-in optimizers, under any thread interleaving, and after any fault once faults stop; there is no deadlock or livelock. A tree never has more leaves than distinct training rows and every split leaves samples on both sides.',
  ['schedules', 'fault_sequences', 'inputs', 'configurations'],
  'all data sets and optimizers within the stated size, all interleavings of concurrent operations, all single faults followed by a retry',
  'Tests run on benign data only and would just hang.',
  [P, H, O, B],
  [('recursion only into nodes with at least two samples and two target values', P + ':_fit'), ('both sides must be non-empty', H + ':_fit'), ('loops bounded by no-improvement counters', O + ':SimulatedAnnealingOptimizer.solve'), ('pruning recursion until nothing changes', B + ':_prune')],
  ['number of executed library steps', 'number of objective evaluations', 'get_n_leaves()', 'get_depth()']),
 prop('C18', 'All views of a trained model agree with each other',
  'At every point of a history at which a model is trained - after refits, pruning, faults, copies, restores - all its views describe one and the same tree: predicted class is the most probable one, predicted value is the leaf posterior mean, prediction paths lead to the leaf that predicts, printed tree, depth and leaf count match, and feature importance is the normalised sum of the log-likelihood gains of the splits present in the tree. Probabilities are positive and sum to one.',
  ['histories', 'fault_sequences', 'inputs', 'configurations'],
  'every history of training, faults, copies and queries for all model types and inputs; feature importance for trees with at least one split',
  'Tests compare single views with hand-computed values on trees of depth at most two.',
  [B, P, H, C, R],
  [('class and probability from the same posterior', C + ':_predict_leaf'), ('paths', P + ':_update_prediction_paths'), ('printing', P + ':_str'), ('printing', H + ':_str'), ('importance', H + ':_update_feature_importance')],
  QUERIES),
 # ---- properties this technique family does not decide --------------------------------------
 prop('N01', 'Hypercube points map uniformly to the unit (half-)hypersphere',
  'Every point of the unit hypercube is mapped to a unit vector, uniformly distributed points to uniformly distributed directions, and in half mode the first coordinate is never negative.',
  ['inputs'], 'all points of all unit hypercubes of dimension 1 and up',
  'Tests sample dimensions 1, 2, 5 and 6 with coarse octant counts.',
  [U], [('algorithm YPHL', U + ':hypercube_to_hypersphere_surface')], ['returned array']),
 prop('N02', 'Relabelling or order-preserving rescaling of the input does not change the tree',
  'Permuting samples, permuting or order-preservingly transforming features, or renaming classes together with the prior changes a perpendicular tree only by the corresponding renaming (up to ties).',
  ['inputs'], 'all training sets, permutations and monotone transformations',
  'One test mirrors the axes of one data set and compares importances to one decimal.',
  [P, C, R], [('likelihood depends on order and counts only', P + ':_fit')], ['tree structure']),
 prop('N03', 'Evidence is numerically sound for extreme magnitudes',
  'Marginal likelihoods stay finite and correctly ordered for targets of any magnitude and offset and any number of samples.',
  ['inputs'], 'all finite targets', 'Tests use targets of order one.',
  [R, U], [('sum-of-squares formula', R + ':_compute_posterior_internal')], ['chosen splits']),
 prop('N04', 'The quasi-random sequence is a low-discrepancy sequence in the open unit cube',
  'For every dimension the generator yields points of [0, 1)^d that form the additive recurrence of the generalised golden ratio.',
  ['inputs'], 'all dimensions and sequence positions', 'The generator has no test.',
  [U], [('fixed-point iteration', U + ':r2_series_generator')], ['yielded points']),
]

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(props), 'properties')
