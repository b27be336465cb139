PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, bounds='', note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds, note=note))


def N(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))


IDX = 'alipy/index/index_collections.py'
MLT = 'alipy/index/multi_label_tools.py'

P('P01', 'An index collection is a set with a stable order',
  'After any sequence of additions, updates, removals, pops and copies, an index collection holds exactly the elements a mathematical set would hold after the same sequence, '
  'each once, keeping the order of insertion, and its length, membership test, iteration and positional access agree with that. Copies and caller-held lists are independent of it. '
  'A random sample of rate r holds round(r*n) distinct elements of the collection and leaves it unchanged.',
  ['inputs', 'histories'], 'all element values, all operation sequences up to the bound, all sampling outcomes',
  'The tests run a handful of literal histories on small literal lists; duplicates, aliasing and self-application are combinations over all values and histories.',
  [IDX], [('IndexCollection add/discard/update/difference_update/pop/random_sampling', IDX)],
  'up to 5 initial elements (200 with concrete contents) and histories of up to 3 operations')
P('P02', 'A multi-label or feature index collection is a set of in-range label pairs',
  'A multi-label (or feature) index collection holds exactly the set of (instance, label) pairs denoted by what was put in and not taken out: an index that names only an instance '
  'stands for all its labels, and one that names several labels stands for each of them. Every stored label lies in [0, label_size), out-of-range labels are rejected, '
  'and no pair is stored twice. Copies are independent of the original.',
  ['inputs', 'histories'], 'all instances and labels in the bound, all index forms, all operation sequences up to the bound',
  'The tests check literal pairs; the four index forms times the operations times overlaps between existing and new pairs cannot be enumerated by hand.',
  [IDX], [('MultiLabelIndexCollection, FeatureIndexCollection mutators', IDX)],
  'label_size up to 3 (6 with concrete contents), up to 3 initial indexes, histories of up to 3 operations')

SPL = 'alipy/data_manipulate/al_split.py'
SIO = 'alipy/experiment/state_io.py'
STA = 'alipy/experiment/state.py'
STOP = 'alipy/experiment/stopping_criteria.py'
ORA = 'alipy/oracle/oracle.py'
P('P03', 'Every view of a multi-label collection denotes the same pairs',
  'The label mask (dense or sparse), the 1d indexes (C or F order), the list of instances, the per-instance label lists, the fully/partly/never seen instances and the mapping of indexes to '
  'positions in the training set of a multi-label or feature collection all denote exactly the pairs it holds. A collection built from a 0/1 mask or from 1d indexes holds exactly the marked pairs, '
  'so that going through any view and back gives the same collection. Building a view never changes the collection.',
  ['inputs'], 'all sets of pairs in the grid, all masks, all orders of the training set',
  'The tests look at one literal collection per view; agreement of the views is a statement over all collections.',
  [IDX, MLT], [('get_matrix_mask, get_onedim_index, get_instance_index, get_break_instances, construct_by_1d_array, construct_by_element_mask', IDX), ('map_whole_index_to_train', 'alipy/index/misc.py')],
  'up to 3 pairs (4 thorough) in grids of up to 4 x 3')
P('P04', 'Multi-label index tools flatten, integrate and slice to the same pairs',
  'Flattening a list of multi-label indexes, integrating it, and slicing a label matrix by it all refer to the same set of (instance, label) pairs, whichever of the accepted index forms '
  '(instance only, one label, several labels) each index is written in. The slice returns exactly the addressed entries of the matrix, and the label size inferred from the indexes is one more than the largest label named. '
  'Malformed indexes and out-of-range labels are refused.',
  ['inputs'], 'all instances, labels and label matrices within the bound, for the index forms listed in the evidence',
  'Tests use one literal list per function; overlap between forms and duplicates is a statement over all lists.',
  [MLT], [('flattern_multilabel_index, integrate_multilabel_index, get_Xy_in_multilabel, infer_label_size_multilabel, check_index_multilabel', MLT)],
  'up to 4 indexes over 3 instances and 3 labels')
P('P05', 'A split partitions the instances with the requested sizes and classes',
  'For every split, the training and test indexes partition the given instances, the labeled and unlabeled indexes partition the training indexes, and none of the four repeats an element. '
  'Their sizes are the rounded ratios requested, and with all_class the initial labeled set contains every class of the data whenever it can hold one instance of each class; the call always terminates. '
  'Loading a saved split gives the same split back.',
  ['inputs', 'configurations'], 'all random permutations, all ratios in (0,1), all label vectors within the bound',
  'The tests check one random draw on one data set; a partition failure may need a particular permutation or a ratio at which rounding meets the number of classes.',
  [SPL], [('split, split_load, _saving', SPL)], '3 to 6 instances (9 thorough)')
P('P06', 'Multi-label and feature splits partition instances and label entries',
  'In a multi-label split, the training and test instances partition the data, and the labeled and unlabeled indexes partition the training instances, every index standing for all labels of its instance. '
  'In a feature split, the seen and unseen entries partition the (training instance, feature) grid with the requested missing rate, and with all_features every feature is seen at least once when enough entries are kept. '
  'With all_class every label is present in the initial labeled set when the data allow it; every call terminates, and a saved split loads back unchanged.',
  ['inputs', 'configurations'], 'all permutations and draws, all ratios and label matrices within the bound',
  'The tests check one draw on one data set.', [SPL], [('split_multi_label, split_features, split_load', SPL)], '2 to 5 instances, 2 or 3 labels or features')
P('P07', 'A recovered workspace is the initial one moved by the recorded queries',
  'At every recorded point of an experiment, the workspace recovered for that point has as labeled set the initial labeled set plus exactly the indexes queried up to then, and as unlabeled set the initial unlabeled set minus them, '
  'with the train and test sets unchanged, for single-label and multi-label experiments alike. Removing a recorded state or recovering an earlier point leaves the number of queries and the accumulated cost equal to those of the states that remain. '
  'Later changes to collections the caller holds never change the recorded history.',
  ['histories', 'inputs'], 'all selected indexes, all histories up to the bound, all recovery points',
  'Tests recover one literal history; queried indexes in other forms, batches and repeated recovery are histories no test writes down.',
  [SIO], [('StateIO.get_workspace, recover_workspace, pop, add_state', SIO)], 'up to 3 queries (batches of up to 2)')
P('P08', 'Recorded states are kept exactly, counted exactly and survive saving',
  'A recorded state returns exactly the selected indexes, performance, cost and extra entries it was given, whatever the caller later does with its own objects. The number of recorded queries, the accumulated cost, the batch size and the '
  'performance list of an experiment equal those of the states recorded. Saving and loading gives an equal experiment, and a crash at any point of saving leaves a file that loads to the old or to the new experiment.',
  ['inputs', 'histories', 'crash_points'], 'all contents of the states, all crash points of saving',
  'No test interrupts a save, and the tests only look at one literal state.', [SIO, STA], [('StateIO.add_state, save, load, cost_inall, batch_size', SIO), ('State', STA)], 'up to 3 states (4 thorough); crashes after 0, 1, 8, .. 36 bytes, half or all but one byte, or at closing')
P('P09', 'A stopping criterion fires exactly when its condition holds',
  'After every recorded query, and after recovering an earlier point, the stopping criterion reports stop if and only if the number of queries, the accumulated cost, the labeled fraction of the initial unlabeled set or the elapsed time has reached the '
  'given limit, or no unlabeled instance is left. Resetting it restarts the measurement. Unknown criteria and percentages outside [0,1] are refused.',
  ['histories', 'inputs'], 'all limits, costs, selected indexes and elapsed times for histories up to the bound',
  'The tests step one literal history per criterion; equality with the limit and recovery are histories they do not contain.',
  [STOP, SIO], [('StoppingCriteria.is_stop, update_information, reset', STOP)], 'up to 2 queries (3 thorough) over 2 to 4 unlabeled instances (7 thorough)')
P('P10', 'An oracle answers every query with the stored label and cost',
  'Querying an oracle by index or by example returns, for each queried item in order, exactly the label (for a multi-label or feature query, exactly the addressed labels) and the cost stored for it, whether stored at construction or added later; '
  'an item the oracle does not know raises a KeyError. A group of oracles accumulates exactly the costs of all answers given and records every query in its history. Saving and loading an oracle gives an equal oracle.',
  ['inputs', 'histories'], 'all labels, costs and indexes, all query forms, all sequences of additions and queries within the bound',
  'The tests query literal items of one oracle of each kind; they never query a later addition of another form, an unknown item, or several multi-label items of different size.',
  [ORA], [('Oracle, OracleQueryMultiLabel, OracleQueryFeatures query_by_index/query_by_example/add_knowledge', ORA), ('Oracles.query_from, query_from_s', ORA)], 'up to 3 instances, 3 labels and 3 queries')

REPO = 'alipy/oracle/knowledge_repository.py'
P('P11', 'An element repository returns the last label, cost and example put in',
  'After any sequence of additions, query updates, discards and clears, an element repository holds each index once, in order of first addition, with the label (and example) last given for it; retrieval by index or by example, '
  'membership, subscription and the training data all agree with that. The accumulated cost is the sum of the costs given and the number of queries that of the query updates. Lists the caller passed in or was given are independent of it.',
  ['histories', 'inputs'], 'all labels and costs, all sequences of operations up to the bound',
  'The tests follow one literal history in which no index is added twice and no example is shared.',
  [REPO], [('ElementRepository add/update_query/discard/clear/retrieve_by_*', REPO)], 'up to 2 initial items and 2 operations over 3 indexes')
P('P12', 'A matrix repository returns the last label, cost and example put in',
  'After any sequence of additions, query updates, discards and clears, a matrix repository holds each index once with the label (and example) last given for it; retrieval by index or by example, membership and the training data all agree with that. '
  'The accumulated cost is the sum of the costs given and the number of queries that of the query updates. A refused operation leaves it unchanged, and arrays the caller passed in or was given are independent of it.',
  ['histories', 'inputs'], 'all labels and costs, all sequences of operations up to the bound',
  'The tests follow one literal history; clearing, single-index retrieval and refused additions are combinations they never reach.',
  [REPO], [('MatrixRepository add/update_query/discard/clear/retrieve_by_*', REPO)], 'up to 2 initial items and 2 operations over 3 indexes')

QL = 'alipy/query_strategy/query_labels.py'
P('P13', 'Every label query strategy selects distinct unlabeled instances as requested',
  'Every query strategy for instance labels returns exactly the requested number of distinct instances of the unlabeled set (all of them if fewer are left), whichever container type the labeled and unlabeled indexes come in, '
  'whether it is given a model, a prediction matrix or uses its default model, which it trains on the labeled instances only. It never changes the index sets, the data or the predictions it was given.',
  ['inputs', 'configurations'], 'all scores of two instances, all container types, all batch sizes up to the bound, all strategies',
  'The tests run each strategy once with a batch of one or two; boundary batch sizes, other containers and mutated inputs are combinations they never try.',
  [QL], [('QueryInstance*.select, select_by_prediction_mat', QL)], '1 to 3 unlabeled of 5 instances (4 thorough)')
P('P14', 'Uncertainty, committee and error reduction select the best-scoring instances',
  'Uncertainty sampling selects the instances of highest entropy, smallest margin, lowest confidence or smallest distance to the boundary; query by committee those of highest vote entropy or mean KL divergence from the consensus; '
  'expected error reduction those whose labeling minimises the expected loss of the retrained model over the remaining unlabeled instances. No instance left out has a better score than a selected one, for any predictions of the model.',
  ['inputs'], 'all class probabilities and votes, all batch sizes within the bound',
  'The tests only look at the type of the result; which instance is best depends on every probability.',
  [QL], [('QueryInstanceUncertainty, QueryInstanceQBC, QueryExpectedErrorReduction', QL)], '3 or 4 unlabeled instances, 2 or 3 classes, 2 or 3 committee members')
P('P15', 'Representativeness strategies select what their definition says',
  'Core-set selects greedily the instance farthest from the labeled and selected ones; graph density the densest instance, reducing the density of its neighbours; density weighting the highest product of uncertainty and mean distance; '
  'QUIRE the instance minimising its min-max objective; LAL the instances with the highest gain its regressor predicts; SPAL and BMDR those with the highest weight in the optimisation problem they are defined by (discrepancy of the distributions plus the worst-case loss of the fitted model), which is the problem they hand to the solver in every round. No instance left out is better by that definition.',
  ['inputs', 'histories'], 'all distances, densities, labels, predictions and weights, all batch sizes within the bound',
  'The tests only look at the type of the result; which instance is best depends on every distance and on the earlier rounds.',
  [QL], [('QueryInstanceCoresetGreedy, QueryInstanceGraphDensity, QueryInstanceDensityWeighted, QueryInstanceQUIRE, QueryInstanceLAL, QueryInstanceBMDR, QueryInstanceSPAL', QL)],
  '2 to 4 unlabeled and 1 to 3 labeled instances (up to 5 and 3 thorough); kernels, neighbour graphs and the forest are fixed; cvxpy is a stand-in that records the problem it is given and returns arbitrary weights')

PERF = 'alipy/metrics/performance.py'
P('P16', 'Accuracy, 0/1 loss and Hamming loss equal their definition',
  'For every pair of truth and prediction, of single labels or of label sets, in any accepted container, the accuracy is the (weighted) fraction of samples predicted exactly, the 0/1 loss the (weighted) fraction or number of the others, '
  'and the Hamming loss the fraction of wrong labels. Inputs of different length, or single labels against label sets, are refused.',
  ['inputs'], 'all labels and predictions within the bound, lists, arrays and columns',
  'No test of the suite computes these metrics on inputs with a known value.', [PERF], [('accuracy_score, zero_one_loss, hamming_loss', PERF)], 'up to 3 samples of 3 classes (4 thorough), label sets of 2 or 3 labels')
P('P17', 'ROC, precision-recall and label ranking metrics equal their definition',
  'For every score matrix, ties included, the ROC curve, its area and the precision-recall curve give at each threshold the (weighted) rates of the samples scored at least that high; coverage error, ranking loss, ranking precision, one-error, '
  'micro AUC and average precision equal their definition by pairs and ranks of labels, weighted by sample. A single class, labels that are not binary without a positive label and inputs of different length are refused.',
  ['inputs'], 'all scores (reals) and all label vectors or matrices within the bound',
  'No test of the suite computes these metrics on inputs with a known value; ties, degenerate label sets and weights are where they go wrong.',
  [PERF], [('get_fps_tps_thresholds, precision_recall_curve, roc_curve, roc_auc_score, one_error, coverage_error, label_ranking_loss, label_ranking_average_precision_score, micro_auc_score, average_precision_score', PERF)],
  '3 samples (4 thorough); label matrices up to 1x3 and 2x2 (1x4, 2x3 thorough); one-error and average precision without ties')

NO = 'alipy/query_strategy/noisy_oracles.py'
P('P18', 'Strategies for noisy oracles choose instance and oracles by their definition',
  'Majority vote returns a label with the largest (weighted) number of votes, and query results exactly the answers and costs of the chosen oracles. The strategies select an unlabeled instance of highest uncertainty (or any, where they are random) with all oracles, one oracle, or those whose '
  'estimated quality reaches epsilon times the best; CEAL the pair of instance and oracle of highest usefulness, accuracy on the nearest labeled neighbours and cost included. None changes its inputs.',
  ['inputs', 'histories'], 'all labels, probabilities, weights and costs and all earlier answers within the bound',
  'The tests only look at the type of the result; ties, weights, priced oracles and the reward history of the estimators are never judged.',
  [NO], [('majority_vote, get_query_results, get_majority_vote, QueryNoisyOraclesCEAL, QueryNoisyOraclesIEthresh, QueryNoisyOraclesAll, QueryNoisyOraclesRandom', NO)],
  'up to 3 oracles and 3 instances (4 thorough), up to 3 rounds of answers')

CS = 'alipy/query_strategy/cost_sensitive.py'
P('P19', 'Cost-sensitive selection stays within budget and no affordable one is better',
  'The knapsack selection fits the capacity and has the largest value of all that fit; POSS stays within the budget. The cost-sensitive strategies select distinct unlabeled pairs within the budget, for costs given per label or by an oracle; the performance strategy '
  'and HALC reach the largest total informativeness, HALC counting the votes of neighbours and the label hierarchy. Marking by hierarchy adds exactly the implied pairs that are not known.',
  ['inputs'], 'all values, costs, decision values, labels and selections within the bound',
  'The tests check the type of the result only; what is best depends on every value, cost and on the hierarchy.',
  [CS], [('select_Knapsack_01, select_POSS, hierarchical_multilabel_mark, QueryCostSensitiveHALC, QueryCostSensitivePerformance, QueryCostSensitiveRandom', CS)],
  'up to 4 items of integer cost (6 thorough), 4 instances with 2 or 3 labels, 2 to 4 unlabeled pairs, budgets 1 to 3')

MI, DP = 'alipy/utils/misc.py', 'alipy/data_manipulate/datapreprocess.py'
P('P20', 'Selection, kernel and scaling helpers return what they promise',
  'The positions of the n largest or smallest values are distinct, as many as asked for, and no value left out is more extreme; a random permutation holds distinct members of its range and can be any of them. Gaussian kernel matrices, minmax scaling and standardising equal their formula for '
  'every matrix, constant features included. Correspondence checks accept exactly arguments of equal length, and unpacking replaces lists of one element.',
  ['inputs'], 'all values, sizes, ranges and argument forms within the bound, all draws',
  'No test checks the returned values; sizes beyond the array, ties and constant features are where they go wrong.',
  [MI, DP], [('nlargestarg, nsmallestarg, randperm, get_gaussian_kernel_mat, calc_kernel_matrix, check_one_to_one_correspondence, unpack', MI), ('minmax_scale, StandardScale', DP)],
  'up to 4 values (5 thorough); matrices up to 3x1 and 2x2 (4x1, 3x2 thorough); standardising 2x1 (2x2 thorough)')

ML, QT = 'alipy/query_strategy/multi_label.py', 'alipy/query_strategy/query_type.py'
P('P21', 'Multi-label strategies select unlabeled pairs or instances by their definition',
  'The multi-label strategies return unlabeled pairs (or as many distinct unlabeled instances as asked for, all if fewer are left) and change none of their inputs. QUIRE minimises its min-max objective over the known labels; AUDI and AURO take the most inconsistent (least labeled) instance and the '
  'labels nearest the dummy label or most relevant; MMC maximises the expected loss reduction; Adaptive takes the best trade-off candidate of least error after retraining. A label ranking model fitted anew does not depend on earlier fits, one fitted incrementally goes on from them.',
  ['inputs'], 'all known labels, scores, classifier outputs, draws, container types and batch sizes within the bound',
  'The tests only look at the type of the result; what is best depends on every label and classifier output, and on models retrained for each candidate.',
  [ML, QT], [('QueryMultiLabelQUIRE, QueryMultiLabelAUDI, QueryMultiLabelMMC, QueryMultiLabelAdaptive, QueryMultiLabelRandom, LabelRankingModel.lr_predict, LabelRankingModel.fit', ML), ('QueryTypeAURO', QT)],
  '4 or 6 instances, 2 or 3 labels, 2 to 4 unlabeled pairs or instances (5 thorough); kernels fixed; trained ranking models and classifiers are stand-ins with arbitrary outputs')

QF = 'alipy/query_strategy/query_features.py'
P('P22', 'Feature queries take the most uncertain unknown entry; completion keeps the rest',
  'The feature query strategies select an entry of the given unknown set whose variance over the completions so far (AFASMC) or over the committee (Stability) is largest, or any distinct ones as asked for (Random), in the indexes of the whole data, and change none of their inputs. '
  'Matrix completion keeps every observed entry, never depends on what a missing entry holds (not even nan), respects the limits and stops at convergence or the last iteration.',
  ['inputs', 'histories'], 'all completions, missing values, index container types, training sets given or not, draws and batch sizes within the bound, over up to 3 rounds',
  'The tests only look at the type of the result; which entry is selected depends on every completion, and leaks of missing values do not show in a run.',
  [QF], [('QueryFeatureAFASMC, QueryFeatureStability, QueryFeatureRandom, IterativeSVD_mc.impute, AFASMC_mc, AFASMC_mask_mc', QF)],
  '3 training instances of 4, 2 features, 2 or 3 unknown entries; matrices up to 2x3; SVD a stand-in with arbitrary reconstructions; AFASMC numerics run on one matrix, only the missing values are symbolic')

EA = 'alipy/experiment/experiment_analyser.py'
P('P23', 'The analyser reports and plots exactly what the experiments recorded',
  'A learning curve has, for every method by itself, the mean over the folds of the recorded performance at each number of queries (or, interpolated, at each accumulated cost) that all folds reach, starting at the initial or given point, with the standard deviation over the folds around it. '
  'Summaries report folds, common queries, batch size, cost, mean and deviation of what was recorded. Undefined performances are refused, different settings warned about, and the paired t-test compares pair by pair at the given level.',
  ['inputs', 'histories'], 'all performances, containers, fold lengths, cost patterns, initial points and plot options within the bound',
  'The tests plot to a file and look at nothing; ragged folds, several methods and per-fold initial points are where curves go wrong.',
  [EA], [('ExperimentAnalyser, StateIOContainer, _NumOfQueryAnalyser, _CostEffectiveAnalyser, paired_ttest', EA)],
  '2 or 3 folds of 1 to 3 queries; two methods at a time; costs from three patterns; matplotlib and interpolation are stand-ins that record or compute exactly')

AE = 'alipy/experiment/al_experiment.py'
P('P24', 'An experiment queries, trains, measures and stops as configured in every fold',
  'For every fold by itself, AlExperiment asks the strategy with the current labeled and unlabeled sets and the batch size, records what it selected, trains on exactly the labeled instances with their labels, records the metric asked for on the test set of the fold, and stops as soon as the stopping '
  'criterion of that fold is met and not before. Folds in threads give the same results under every schedule. Implemented strategies get the given parameters or their own defaults; incomplete settings are refused.',
  ['inputs', 'histories', 'schedules'], 'all selections, performances, durations, stopping values, batch sizes and thread schedules within the bound',
  'The tests run one data set to the end and assert nothing; races between folds, limits and dropped parameters leave no trace in a passing run.',
  [AE], [('AlExperiment (set_query_strategy, set_performance_metric, set_data_split, split_AL, start_query, get_experiment_result), StoppingCriteria in the loop', AE)],
  '2 folds of 2 unlabeled instances (4 thorough), up to 6 thread switches (9 thorough) at training, prediction, selection and the stopping test; model, metric and strategies are stand-ins with arbitrary answers')

MT = 'alipy/utils/multi_thread.py'
P('P25', 'A multi-threaded run is the same under every schedule and survives every crash',
  'aceThreading runs every round exactly once from its own split, never more rounds at a time than allowed, ends whatever other threads exist, and its results do not depend on the schedule. After a crash at any point, of any file operation included, recovering loses no saved query, repeats none, takes no '
  'unfinished round, failed round or stale file for a result, and goes on with the same parameters until every round is complete; the threads of AlExperiment can be recovered in the same way.',
  ['inputs', 'schedules', 'crash_points', 'histories'], 'all schedules, crash points, failing rounds, selections and performances within the bound',
  'The tests run one schedule and recover one file that a complete run left behind; races and torn files need a switch or crash at one particular point.',
  [MT, 'alipy/experiment/state_io.py', AE], [('aceThreading (start_all_threads, save, recover, get_results)', MT), ('StateIO.save, StateIO.load', 'alipy/experiment/state_io.py'), ('AlExperiment main loop in threads', AE)],
  '1 to 4 rounds of 2 queries, up to 5 free thread switches (7 thorough) between queries, one crash at any of the first 400 points; files keep what was written before the crash (no loss of written data, as in a power failure)')

TBX = 'alipy/toolbox.py'
P('P26', 'A ToolBox hands out tools that agree with its data and its split',
  'The collections, clean oracle, repository, experiment record and threads a ToolBox hands out for a round refer to the same instances, names, labels, features, costs and split, in each query type (AllLabels, PartLabels, Features); splits have the requested sizes, a split once made or given stays, '
  'and using what was handed out changes neither. The metric, stopping criterion, analyser and strategy are the ones named, with the given parameters; unfit settings are refused. '
  'A ToolBox saves and loads unchanged, is not overwritten by a new one on the same path, and survives a crash during saving.',
  ['inputs', 'configurations', 'crash_points'], 'all labels, costs, feature values, permutations, given splits, rounds, scores and crash points within the bound',
  'The tests use the ToolBox on one data set of one kind and never compare its tools with each other.',
  [TBX], [('ToolBox (split_AL, get_split, get_clean_oracle, get_repository, get_stateio, calc_performance_metric, get_ace_threading, save, load)', TBX), ('split, split_multi_label, split_features behind split_AL', SPL)],
  '3 or 4 instances (5 thorough), 2 labels or features (3 thorough), 1 or 2 rounds; crashes after 0, 1, 8, .. 36 bytes, half or all but one byte, or at closing')

N('P91', 'BMDR and SPAL solve their optimisation problem to optimality',
  'The weights behind a BMDR or SPAL selection are an optimal solution of the quadratic programme that the data, the kernel and the current predictions define.',
  ['inputs'], 'all data matrices, kernels and labels', 'The tests that run these strategies need cvxpy.', [QL], [('QueryInstanceBMDR.select, QueryInstanceSPAL.select', QL)],
  'The optimum is computed by cvxpy and its C solvers (ECOS, OSQP), which are not installed and whose numerics cannot be encoded; P15 decides that the problem is the right one in the first two rounds and what the strategies do with arbitrary weights the solver returns.')
N('P92', 'The label ranking model fits its training labels and the AFASMC completion lowers its objective',
  'Training LabelRankingModel lowers the ranking loss of the training labels, and each AFASMC iteration lowers the objective it minimises.',
  ['inputs'], 'all data matrices and labels', 'The tests only run them.', [ML, QF], [('LabelRankingModel.fit, train_model', ML), ('AFASMC_mc, AFASMC_mask_mc', QF)],
  'Hundreds of floating-point steps of stochastic gradient descent with norm projections, and singular value decompositions inside LAPACK: neither is encodable over symbolic matrices of any useful size. '
  'P21 decides the selection for arbitrary trained models, P22 that the completion does not depend on missing values.')
N('P93', 'LAL learns its regressor from the published simulations',
  'The regressor that LAL uses is the random forest trained on the published data sets of simulated learning episodes.',
  ['configurations'], 'all training modes and paths', 'The tests cannot download the data.', [QL], [('QueryInstanceLAL.download_data, train_selector_from_file', QL)],
  'Needs a download from the network and the training of a forest of thousands of trees in C code; P15 decides the selection for arbitrary predictions of the regressor.')
