EQ = 'abstract interpretation to guarded effects, equivalence with a parsed reference definition by term normalisation'
EQN = 'Decides equality of guarded effect terms with the reference (sa/spec); other idioms stay undecided (reported in the evidence, never an alarm); no floating-point reasoning.'

p('E02', 'Ranking evaluations report the mean of each metric over the evaluated users',
  'ranking_evaluation and recommendation_evaluation run one task per distinct test user up to n_test_users, and for every metric and cutoff add each value the metric returned exactly once, so the entry "name@k" is the 4-digit rounded mean over the users for which the metric succeeded and 0 when there is none. A user that is skipped or whose metric raises contributes to neither sum nor count. Non-positive k, n_test_users, n_pos_interactions or n_neg_interactions, non-metric objects and negative generation without a count are rejected before any work.',
  ['inputs', 'configurations', 'fault_sequences'], 'all models, datasets, metric lists, cutoffs and failing metrics',
  'tests evaluate a few fixed models; failing metrics, scalar vs list k, skipped users and option combinations are not enumerated',
  [E + 'ranking_evaluation.py', E + 'recommendation_evaluation.py'],
  [dict(name='per-(metric, k) sum/count cells', where=E + 'ranking_evaluation.py')], EQ, EQN)
p('E03', 'Each user is evaluated on the documented candidate and relevance lists',
  'ranking_evaluation asks the model to rank exactly the user\'s sampled (or all) positive test items plus the sampled (or all, or generated never-positive) negative items; recommendation_evaluation asks for max(k) recommendations with the given novelty and threshold. Positives are test interactions at or above the interaction threshold, negatives those below it; users with fewer positives than requested, with too few items to generate negatives, or with nothing to rank are skipped. Every metric receives, by parameter name, the returned item order, the positive items, the item with the highest interaction, the relevancy of every item (0 when unrated) and the cutoff.',
  ['inputs', 'configurations'], 'all users, datasets, thresholds, sampling counts and ratios',
  'tests use tiny datasets with one threshold; sampling corner cases and the generated-negatives path are reached for a couple of seeds only',
  [E + 'ranking_evaluation.py', E + 'recommendation_evaluation.py'],
  [dict(name='per-user task', where=E + 'ranking_evaluation.py')], EQ,
  EQN + ' The id space of generated negatives is a known finding.')
p('E04', 'Predictive evaluation pairs every prediction with its own true value',
  'predictive_evaluation predicts test records in order until n_test_predictions predictions were counted, and gives every metric two lists of equal length in which position i holds the true interaction and the model\'s prediction of the same record. A missing prediction is skipped, or counted as 0 when count_none_predictions is set. Results are the metric values rounded to 4 digits keyed by metric name; a non-positive count or non-metric object is rejected.',
  ['inputs', 'configurations'], 'all models (including ones returning no prediction), datasets and counts',
  'tests exercise two models on a fixed dataset; missing predictions combined with a prediction budget are not enumerated',
  [E + 'predictive_evaluation.py'], [dict(name='paired y_true / y_pred lists', where=E + 'predictive_evaluation.py')], EQ, EQN)
N = 'DRecPy/Sampler/'
p('N01', 'Point sampling draws positives and negatives from the right populations',
  'A point sampler returns exactly n triples of internal ids; each is a positive with probability 1 / (neg_ratio + 1), drawn from the records at or above the interaction threshold (all records without one) with its own stored interaction, and otherwise a negative with interaction 0, drawn from the dataset\'s null pairs for the same threshold. The negative/positive choice, the positive and the negative streams are all seeded with the given seed. A missing dataset or ratio, a foreign object, or a dataset without internal ids is rejected.',
  ['inputs', 'configurations'], 'all datasets, ratios, thresholds, seeds and sample counts',
  'tests draw a handful of samples with one seed; the populations behind the draws and the exhaustion of a stream are not observable there',
  [N + 'point_sampler.py'], [dict(name='positive / null pair generators', where=N + 'point_sampler.py')], EQ,
  EQN + ' Uniformity of the draws is inherited from random.Random.')
p('N02', 'List sampling keeps windows, targets and negative ids consistent',
  'A list sampler returns n groups; each group holds the positive records (at or above the threshold) of one existing group, sorted by the sort column, at least min_positive_records of them plus n_targets, limited to one contiguous window of at most max_positive_records whose n_targets targets are the records that directly follow it. Negative ids are neg_ratio per target, distinct, existing, and never among any positive record of the group. A group without enough records or negatives is redrawn up to the documented number of tries and then reported; inconsistent options are rejected at construction.',
  ['inputs', 'configurations'], 'all datasets, group columns, window limits, thresholds, target counts and ratios',
  'window arithmetic is off by one only for particular group sizes relative to max_positive_records and n_targets',
  [N + 'list_sampler.py'], [dict(name='window / target / negative selection', where=N + 'list_sampler.py')], EQ, EQN)
MD, BD, AD = D + 'mem_dataset.py', D + 'db_dataset.py', D + 'dataset_abc.py'
p('D01', 'Copies and derived datasets are independent of their source',
  'After copying a dataset, or deriving one by select, drop or unique with copy enabled, no operation on either one changes the records, columns, column types or id assignment that the other observes, for both backends. State that a copy still shares with its source is replaced, never changed in place; rows of a database table are only deleted or rewritten when no other dataset uses that table, no value stream over it is open, and it is not the table of a file the user supplied.',
  ['histories', 'inputs'], 'all sequences of operations on a dataset and its copies',
  'tests copy once and perform one operation; interference needs a specific sequence of operations on both datasets', [MD, BD, AD],
  [dict(name='copy(), shared DataFrame and shared table registry', where=BD + ' copy, _optimize_states')],
  'ownership (sharing) analysis of fields and ' + EQ, EQN + ' Two processes on one file are out of scope.')
p('D03', 'Interaction vectors always reflect the current rows of the dataset',
  'The interaction vector of a user (item) has one entry per internal item (user) id, holds the stored interactions of exactly that user (item) at the position of their internal ids and zeros elsewhere, and unknown internal ids or missing ids are rejected. Vectors are computed once and then reused, but after any operation that changes rows, interactions or internal ids the next vector shows the changed data, and a copy never answers with vectors of the original. Both backends agree, also when the whole matrix does not fit in memory.',
  ['histories', 'inputs'], 'all datasets and all sequences of selections, changes, copies and vector reads',
  'a stale vector needs a read, a change and another read on one instance; tests read vectors of fresh datasets', [MD, BD],
  [dict(name='cached vectors and their invalidation', where=MD + ' select_user_interaction_vec')],
  'typestate of the cached vectors over every public method, and ' + EQ, EQN)
p('D04', 'A query selects exactly the records that satisfy all its conditions',
  'select keeps exactly the records for which every condition holds, select_one returns the first of them in row order projected on the requested columns (as a record, a list or a bare value) or nothing, and exists tells whether there is one. Each operator (==, !=, >, >=, <, <=) compares the stored value in the column with the value written in the query; unknown columns or operators and queries on unassigned internal ids are rejected. Both backends agree.',
  ['inputs'], 'all datasets, conjunctions of conditions, columns and operators',
  'tests run a few fixed queries on one dataset; most column kind x operator x combination cases are never reached', [MD, BD, AD],
  [dict(name='query interpretation', where=MD + ' _query_one_cond')], EQ, EQN + ' SQL text is compared token-wise with the reference; sqlite itself is trusted.')
p('D05', 'Views of a dataset return the documented rows and values',
  'drop removes exactly (or with keep, retains exactly) the records with the given record ids; unique keeps the first record per combination of the given columns (record ids aside); values and values_list yield every record once, in row order, projected on the requested columns in the requested order, as records, lists or bare values; max, min, len and count_unique are those of the current rows. With copy disabled the operation applies to the dataset itself and returns it, otherwise to a new one. Unknown columns are rejected. Both backends agree.',
  ['inputs', 'configurations'], 'all datasets, record id lists, column lists and option combinations',
  'tests sample a few column lists and options per method', [MD, BD, AD],
  [dict(name='drop/unique/values/max/min/len/count_unique', where=MD)], EQ, EQN + ' pandas and sqlite operations are trusted by name.')
p('D06', 'Internal ids are a dense bijection with the raw ids',
  'assign_internal_ids numbers the distinct users and the distinct items of the current rows from 0 without gaps in order of first appearance, stores each record\'s numbers with the record, and makes the columns queryable; user to internal id and back (and likewise for items) are inverse to each other on known ids and yield nothing on unknown ids. Translating before assignment is rejected, and removing internal ids removes numbers, columns and translations together.',
  ['inputs', 'histories'], 'all datasets and id types, in both backends',
  'tests use one small dataset; density and inverse translation depend on the rows present at assignment time', [MD, BD],
  [dict(name='assign_internal_ids and id translations', where=MD + ' assign_internal_ids')], EQ, EQN)
p('D07', 'Saving writes every selected record and column and nothing else',
  'save writes, for every record of the current state in row order, the requested columns without record and internal ids (those are recreated on load) to the given path or else to the dataset\'s own path; missing values are written empty and a header is written only on request. A database save writes and commits the complete new file before replacing an existing one and keeps the dataset usable afterwards; saving without any path, or with unknown columns, is rejected before a file is touched.',
  ['inputs', 'fault_sequences'], 'all datasets, column lists, paths, and interruption points of a save',
  'tests save and reload one dataset; column subsets, own-path saves and interruption before completion are not covered', [MD, BD],
  [dict(name='save()', where=BD + ' save')], 'ordering (typestate) rule on file replacement and ' + EQ, EQN)
p('D09', 'Closing a dataset never deletes data it does not own',
  'Closing a database dataset stops its use of the table and deletes the table only when it was the last user, no value stream is open and the table is a temporary one; the database file is deleted only when it is a temporary file with no remaining tables in use. A file supplied by the user is never deleted or changed by closing, and closing twice has no further effect.',
  ['histories', 'fault_sequences'], 'all open/copy/close histories of datasets over shared tables and files',
  'needs several datasets on one file closed in a particular order; tests close at most one', [BD],
  [dict(name='close() and the shared table registry', where=BD + ' close')], 'typestate of the table registry, ' + EQ, EQN)
p('D11', 'Applying a function changes exactly one column of exactly this dataset',
  'apply replaces the value of the given column of every current record by the function\'s result for that value, each once, keeps the column\'s type information in step with the results, leaves every other column and every other dataset alone, and refreshes cached per-user and per-item data. Identifier columns and unknown columns are rejected before anything changes.',
  ['inputs', 'histories'], 'all datasets, columns, functions, and open value streams',
  'tests apply one function to one column; type changes with open streams or shared tables are not covered', [MD, BD],
  [dict(name='apply()', where=BD + ' apply')], EQ, EQN + ' Atomicity when the function raises midway is not claimed.')
p('D13', 'Random record and null-pair generators draw from the documented population',
  'A random generator over a dataset yields complete records of that dataset that satisfy the query, chosen by a random stream that depends only on the given seed, and fails on an empty population. A null-pair generator yields pairs of internal ids of existing users and items drawn by the seeded generator, never a pair that occurs as an interaction at or above the threshold (as any interaction without one), and rejects datasets without internal ids. Both backends agree.',
  ['inputs', 'configurations'], 'all datasets, queries, thresholds and seeds',
  'tests draw a few values with one seed; the population behind the draw is not observable there', [MD, BD, AD],
  [dict(name='select_random_generator, null_interaction_pair_generator', where=MD)], EQ, EQN + ' Uniformity is inherited from random.Random.')
MA = R + 'recommender_abc.py'
EQM = EQN + ' Bodies of TensorFlow, scipy, numpy and heapq are trusted by name.'
p('M01', 'predict, recommend and rank translate ids and report unknowns',
  'predict returns the model\'s value for the internal ids of the given user and item; before fitting, for unknown ids or when the model has no value it fails, unless errors are skipped, in which case the result is empty. recommend scores all items for the user (all of them when no number is given), keeps those at or above the threshold and returns (score, raw item id) pairs in the model\'s order. rank does the same for exactly the given items, skipping unknown ones or failing on them as asked, and rejects asking for more than there are.',
  ['inputs', 'configurations'], 'all fitted or unfitted models, users, items, thresholds, counts and skip options',
  'tests query a few ids on one fitted model per class; unknown ids combined with options are not enumerated',
  [MA], [dict(name='public prediction API', where=MA)], EQ, EQM)
p('M02', 'Every model ranks exactly the permitted candidates, best score first',
  'The ranked list of every recommender consists of the n best-scored (score, item) pairs among the candidate items, without the items the user already interacted with when novelty is requested, in decreasing order of score. Items for which the model has no score do not appear; a neighbourhood model scores each candidate by its aggregation of the neighbours\' interactions (or the item average when that is enabled and no neighbour rated it), a network by its own output at that item\'s position.',
  ['inputs', 'configurations'], 'all models, users, candidate sets, counts, and both novelty settings',
  'tests rank with one small dataset and check a handful of positions; candidate filtering depends on the user\'s history',
  [MA, R + 'Baseline/user_knn.py', R + 'Baseline/item_knn.py', R + 'cdae.py', R + 'dmf.py', R + 'caser.py'],
  [dict(name='_rank of every model', where=MA + ' _rank')], EQ, EQM)
p('M03', 'Neighbourhood models predict from the k most similar qualified neighbours',
  'A pair of users (items) has a similarity only when they share at least m rated items (users); it is the metric\'s value scaled by shared / (shared + shrinkage) when shrinkage is set, and is found for either order of the pair (0 otherwise). The neighbours of an entity are the at most k others with the highest positive similarity; a prediction aggregates those neighbours\' existing interactions with their similarities, and falls back to the average of the target\'s interactions only when enabled and no neighbour has one. Fitting again starts from empty similarities and neighbours.',
  ['inputs', 'configurations', 'histories'], 'all datasets, both neighbourhood models, all k, m, shrinkage and averaging settings, refits',
  'tests compare a few predictions of one dataset; the cut-offs m and k only act on particular overlaps',
  [R + 'Baseline/base_knn.py', R + 'Baseline/user_knn.py', R + 'Baseline/item_knn.py'],
  [dict(name='similarity and neighbour tables', where=R + 'Baseline/base_knn.py')], EQ, EQM)
p('M04', 'Similarity and aggregation functions compute their documented formulas',
  'Each similarity function returns a sparse matrix whose entry (i, j) is its documented formula over rows i and j: cosine of the rows, cosine of mean-adjusted rows, cosine over the co-rated columns, Jaccard of the rated columns, one minus the mean squared difference (relative to the rating range) over co-rated columns, and Pearson correlation over co-rated columns. Aggregations are the plain mean, and the mean weighted by similarity. A pair without common columns has no entry (or 0), also when that leaves the matrix empty, and an aggregation without weight yields no value.',
  ['inputs'], 'all interaction matrices and all neighbour lists',
  'tests compare single hand-computed matrices; index arithmetic over co-rated columns differs only for particular overlaps of two sparse rows',
  [R + 'Baseline/similarity.py', R + 'Baseline/aggregation.py'],
  [dict(name='row merge over sorted column indices', where=R + 'Baseline/similarity.py')],
  'abstract interpretation of loops as transition systems, ' + EQ, EQM + ' Equality over the reals, not in floating point.')
p('M05', 'Fitting sets up, trains and finishes in the documented order',
  'fit keeps the given dataset (or a copy when asked), numbers its ids, records the number of users, items, rows and the interaction bounds, registers the optimizer (the custom one last), and lets the model prepare itself from scratch, so that nothing of an earlier fit remains. Every epoch samples one batch, differentiates batch loss plus regularisation with respect to all registered variables, applies each gradient to its own variable, snapshots the weights and reports loss and callback results at the requested frequency. Early stopping is consulted at its frequency and after the last epoch with all results so far, ends training when asked, and restores the weights of the epoch it selected.',
  ['histories', 'configurations'], 'all models, datasets, epoch counts, callbacks, optimizers, early stopping rules and frequencies, refits',
  'tests train for a few epochs with default options; order of steps, refits and combinations of callback and stopping frequency are not observed',
  [MA], [dict(name='epoch loop', where=MA + ' fit')], EQ, EQM + ' Convergence and gradient values are out of scope.')
p('M06', 'Early stopping selects the epoch with the best recorded result',
  'An early stopping rule requires recorded results that are lists and contain a value of every metric it needs, otherwise it reports them as unusable; the default rule selects the first epoch with the highest value of its metric, mapped to the epoch the callback was called on, and never asks to stop early by itself. Recorded losses and callback results keep one entry per call in call order with the epoch of the call, and the running average is that of the current losses.',
  ['inputs', 'histories'], 'all sequences of losses and callback results, metrics and callback frequencies',
  'tests use one short result list; ties, late maxima and interleaved callbacks are not enumerated',
  [R + 'EarlyStopping/early_stopping_rule_abc.py', R + 'EarlyStopping/max_validation_value_rule.py', E + 'loss_tracker.py'],
  [dict(name='best epoch selection', where=R + 'EarlyStopping/max_validation_value_rule.py')], EQ, EQM)
p('M07', 'Training batches and model outputs pair inputs with their own targets',
  'In CDAE, DMF and Caser every training sample is turned into an input, a prediction and a desired value of the same user, item and interaction, in one order throughout: desired values are the stored interactions (scaled, binarised or 0 for sampled negatives as documented), predictions come from the model\'s own variables for that user and item, and the batch loss compares them position by position. Predictions outside training are the same outputs scaled back to the interaction range; a model without point predictions says so.',
  ['inputs', 'configurations'], 'all datasets, batch contents, and model options',
  'tests only check that training runs and the shape of outputs; swapped or shifted pairs still train',
  [R + 'cdae.py', R + 'dmf.py', R + 'caser.py'], [dict(name='batch assembly and forward pass', where=R + 'dmf.py _sample_batch')], EQ, EQM)
p('M08', 'Constructors honour every option and train exactly their own variables',
  'Every recommender constructor stores each option it documents under its documented default, resolves named similarity, aggregation and loss options to the function of that name, and rejects other names and wrong types. Preparing a network creates variables and layers of the documented shapes from the dataset\'s user and item counts, registers each of them for training exactly once, and builds its sampler over the fitted dataset with the negative ratio and the model\'s own seed.',
  ['configurations'], 'all option combinations of all models, all dataset sizes',
  'tests construct each model with a few options; an option that is ignored or a variable that is not trained still passes',
  [R + 'Baseline/base_knn.py', R + 'cdae.py', R + 'dmf.py', R + 'caser.py'], [dict(name='__init__ and _pre_fit', where=R + 'caser.py _pre_fit')], EQ, EQM)

p('D12', 'Loading keeps every record and column of the source exactly once',
  'Building a dataset from a text file, a data frame or a sqlite file gives one record per data row, in source order, under consecutive record ids, with every named column (unnamed ones skipped) holding the values at that position, text columns without missing values and column types taken from the source. Delimiter, header and encoding options are honoured in every pass over the file, and both backends reject reserved or missing columns.',
  ['inputs', 'configurations'], 'all files, delimiters, encodings, column lists with unnamed columns, chunk sizes and data frame indexes',
  'tests load a few small files with standard options; skipped columns, several-character delimiters, chunk borders and frame indexes combine freely',
  [MD, BD, D + 'dataset_factory.py'], [dict(name='csv / frame / sqlite loaders', where=BD + ' _load_from_csv')], EQ,
  EQN + ' pandas.read_csv, csv.reader and sqlite are trusted by name.')
p('D10', 'Temporary database files stay recorded until they are deleted',
  'Every new temporary database file is recorded in the data folder before it is created; files that existed already and files opened for reading are never recorded, so they are never deleted. Recording adds one entry, unrecording removes exactly that entry and keeps the others, and cleaning up (on import) deletes exactly the recorded files and then the record; both cope with files or a record that are gone already. The data folder is the configured one, or the default one in the home folder, and is created when missing.',
  ['histories', 'inputs', 'crash_points'], 'all sequences of creating, saving, closing and cleaning up datasets',
  'no test looks at the record, and what is left after a crash or whose files a clean-up deletes depends on earlier runs', [D + 'file_utils.py', BD, D + '__init__.py'],
  [dict(name='record of temporary files', where=D + 'file_utils.py unregister_temp_file')], EQ,
  EQN + ' Operations of os and of file objects are trusted; concurrent processes are out of scope (X02).')

p('I01', 'Integrated datasets are read, split and stored with their own parameters',
  'Every integrated dataset is read from its documented file with its own columns, delimiter, encoding and header option; train and test sets without a file of their own come from one seeded leave-10-out split of the full dataset over users with at least 10 interactions, both halves are stored, and stored halves are reused with the options they were written with. Unknown names are rejected.',
  ['configurations', 'histories'], 'all integrated datasets, options, and states of the local store',
  'the datasets need downloads, so no test runs these functions at all', [D + 'integrated_datasets.py'],
  [dict(name='getters and the parameter table', where=D + 'integrated_datasets.py DATASETS')], EQ, EQN + ' Download contents and interrupted downloads are out of scope.')

p('D02', 'Arguments passed in by the caller are never modified',
  'No public operation changes a list, dictionary, data frame or dataset passed to it as an argument, whatever the other arguments are. The one exception is documented: fitting a model without asking for a copy numbers the ids of the given dataset.',
  ['inputs', 'histories'], 'all public functions and methods, all argument combinations',
  'tests pass fresh literals and never look at the arguments again', [MD, BD, AD, MA, E + 'ranking_evaluation.py', N + 'list_sampler.py'],
  [dict(name='argument handling', where=AD + ' _handle_columns')], 'ownership analysis: every in-place change is traced to its object',
  'Objects kept by a constructor and changed by a later method are only covered as far as D01-D13; pandas and numpy operations are trusted by name (in-place ones known to the engine).')

p('X01', 'Training reduces the loss and reaches useful recommendations',
  'Fitting a network model with a suitable learning rate decreases its training loss over the epochs, and its recommendations beat those of an untrained model.',
  ['inputs', 'configurations'], 'all datasets and hyperparameters', 'tests train for a few epochs on tiny data',
  [R + 'cdae.py', R + 'dmf.py', R + 'caser.py'], [dict(name='optimiser steps', where=R + 'recommender_abc.py _fit')], '', '',
  na='Depends on floating-point optimisation trajectories of TensorFlow; no static argument over the source bounds them. The parts visible in the source (loss terms, targets, trained variables, step order) are claimed as M05, M07 and M08.')
p('X02', 'On-disk datasets survive crashes and concurrent use by other processes',
  'A dataset stored on disk is readable with all its records after a crash at any point of a change, and operations of several processes on the same file do not lose records or fail with lock errors.',
  ['crash_points', 'schedules'], 'all crash points and interleavings of processes', 'tests run one process to completion',
  [BD], [dict(name='sqlite connections and commits', where=BD + ' commit')], '', '',
  na='Decided by the journal, isolation and locking of sqlite and by connection settings at run time, none of which is in this source; only the write-before-replace order of saving (D07) and ownership of files (D09) are visible statically.')
p('X03', 'Evaluation figures agree to floating-point precision across backends',
  'Every computed score, similarity and metric equals the exact real value of its formula within a stated number of digits, for both backends and every thread count.',
  ['inputs', 'schedules'], 'all inputs and orders of summation', 'tests compare a few rounded values',
  [E + 'ranking_evaluation.py', R + 'Baseline/similarity_metrics.py'], [dict(name='sums of floats', where=E + 'ranking_evaluation.py')], '', '',
  na='The analysis compares formulas over the reals; rounding errors depend on magnitudes and summation order at run time, which no static bound in reach covers.')

p('R01', 'With a seed given, every random draw depends on that seed alone',
  'Every split, evaluation, sampler, random-record and null-pair generator and model that is given a seed (0 included) draws only from generators created from that seed, in every call anew, and passes the seed on to whatever it samples through. No draw depends on process-wide random state, clocks, object identities, the hash order of text ids or the schedule of concurrent tasks, so the same call on the same data gives the same result.',
  ['inputs', 'schedules', 'histories'], 'all seeds, datasets with any id type, thread schedules and earlier calls in the process',
  'tests run one process with integer ids and fixed seeds: hash order, schedules, seed 0 and shared state never vary',
  [S + 'leave_k_out.py', S + 'matrix_split.py', S + 'random_split.py', E + 'ranking_evaluation.py', E + 'recommendation_evaluation.py', N + 'point_sampler.py', N + 'list_sampler.py', MD, BD, R + 'recommender_abc.py', R + 'cdae.py'],
  [dict(name='generator creation and draws', where=N + 'list_sampler.py __init__')],
  'def-use analysis of seeds and generators, order provenance of populations, sharing across task submissions',
  'Library draws only; the internal sequence of tensorflow after set_seed is trusted, and floating-point sums may depend on the schedule (X03).')
