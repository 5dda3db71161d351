"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
  a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
  if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
  if observe: a['observe_at'] = [observe]
  P.append({'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': a})

p('C01', 'Built-in aggregates equal their textbook definition in every slice',
  'Every built-in aggregate (sum, count and distinct count, dot product, plain and weighted mean, max, min, nth, plain and weighted quantile, variance, standard deviation, coefficient of variation, covariance with bias/ddof/weights, correlation) reports for every slice exactly the value its mathematical definition gives on that slice\'s rows, skipping missing values the way its documentation says and yielding a missing value where the definition has none (e.g. too few degrees of freedom). This holds for scalar, series and table forms of the answer, for one or several grouping columns and for any parameter combination the aggregate accepts.',
  ['inputs', 'configurations'],
  'all numeric tables (missing values, duplicates, constants, single-row slices, negative and zero weights where legal), all parameter settings of each aggregate, any list of grouping columns',
  'the unit tests evaluate each aggregate on one or two fixed frames of a handful of rows; most parameter/missing-value/slice-size combinations are never evaluated',
  ['metrics.py', 'utils.py'],
  [('vectorised group-by evaluation of each aggregate', 'metrics.py: class Count .. class Cov, compute_slices'),
   ('expansion of weighted statistics into sums and counts', 'metrics.py: get_equivalent_without_filter; utils.py: get_fully_expanded_equivalent_metric_tree')],
  observe='return value of compute_on')

p('C02', 'Slices are independent: grouped result equals result on the slice alone',
  'For any metric or operation tree, computing with grouping columns yields exactly one block of rows per combination of grouping values that occurs in the data, and each block equals what the same metric yields when computed, ungrouped, on only the rows of that combination. In particular values of grouping columns that do not occur (such as unused categories) never appear, and the kind of values used in the grouping columns (text, number, boolean, category, date) does not matter.',
  ['inputs', 'programs'],
  'all metric/operation trees, all tables and grouping column lists with any level types and sparsity',
  'the tests check one dense random frame with one or two integer/text grouping columns per operation',
  ['metrics.py', 'operations.py', 'diversity.py', 'models.py', 'utils.py'],
  [('per-slice evaluation and concatenation', 'metrics.py: Metric.compute_slices, split_data, group'),
   ('extra grouping columns of operations', 'operations.py: Operation.compute_slices/split_data')],
  observe='return value of compute_on')

p('C03', 'A filter on a metric equals filtering the data first',
  'A metric carrying a filter (one string or several) computes exactly what the unfiltered metric computes on only the rows satisfying all of them; filters on different levels of a metric tree combine as a conjunction along the path to each leaf, in any order, and affect no sibling. This holds for aggregates, arithmetic on metrics, lists, operations and uncertainty estimates, including filters that contain alternatives ("or") and filters that remove whole slices.',
  ['inputs', 'programs'],
  'all metric trees with filters at any subset of nodes, all tables, any grouping',
  'tests use one conjunctive comparison filter at the root or at the first child on a dense frame',
  ['metrics.py', 'operations.py', 'utils.py'],
  [('filter application before computation', 'metrics.py: Metric.where/add_where/compute_through'),
   ('pushing filters to leaves and filter-aware cache keys', 'utils.py: push_filters_to_leaf, CacheKey; operations.py: Jackknife/Bootstrap precomputation')],
  observe='return value of compute_on')

p('C04', 'Computation reads only the relevant data and never writes to its inputs',
  'Computing a metric leaves the caller\'s table, the arguments and the metric\'s own definition unchanged, and running it again gives the same answer. The answer does not depend on the table\'s index (including duplicate, named or multi-level indexes), on the order of its columns, on columns the metric does not mention, or, for order-insensitive metrics, on the order of its rows.',
  ['inputs', 'programs'],
  'all metric/operation/model trees and all tables under re-indexing, row/column permutation and addition of unrelated columns',
  'tests compute on frames with a default range index and never compare the input before and after',
  ['metrics.py', 'operations.py', 'models.py', 'diversity.py', 'utils.py'],
  [('index-free grouping', 'metrics.py: split_data/Correlation.compute_slices; operations.py: Jackknife/Bootstrap.get_samples set_index'),
   ('copy-on-write of intermediate frames', 'metrics.py: save_to_cache; utils.py: add_auxiliary_cols')],
  observe='return value of compute_on plus the table and metric before/after')

p('C05', 'Sharing work between metrics computed together never changes any answer',
  'When several metrics are computed together (in lists, in arithmetic, below the same operation, or with an explicitly shared cache), each of them reports exactly what it reports when computed alone on the same data, whatever the other metrics are, in whatever order they appear and however much they have in common.',
  ['programs', 'inputs', 'histories'],
  'all lists/compositions of metrics drawn from a family of near-duplicates (differing in one parameter, filter, weight, grouping, operation setting), all tables, shared cache histories',
  'tests only check hand-picked pairs and count calls; sharing hazards need two specific metrics in one computation',
  ['metrics.py', 'operations.py', 'models.py', 'utils.py'],
  [('cache keyed by metric identity, filter, split and data key', 'metrics.py: _compute_with_caching_and_postprocessing, get_fingerprint; utils.py: CacheKey'),
   ('precomputed leave-one-out and preaggregated entries', 'operations.py: Jackknife.precompute_sum_or_count_for_jackknife, get_preaggregated_data')],
  state=[('cache', 'results of sub-metrics within one computation')],
  observe='return value of compute_on')

p('C06', 'Metric objects carry no state from one computation to the next',
  'After any history of computations, failed computations, copies, renames and reuse of the same metric objects inside other trees, a computation on a metric object gives exactly the answer a freshly built identical metric gives. Applying one operation object to several metrics gives independent metrics, and after a top-level computation ends (also by an error) no cached data remains.',
  ['histories', 'fault_sequences', 'programs'],
  'all sequences of compute calls on different tables/groupings/output forms, interleaved with failing computations, deep copies, pipelines and shared sub-metrics',
  'tests run one or two calls per object; leftovers only show after specific sequences',
  ['metrics.py', 'operations.py', 'models.py', 'utils.py'],
  [('cache reset at the root', 'metrics.py: clean_up_cache, cache_key handling in finally'),
   ('copying on application', 'operations.py: Operation.__call__; metrics.py: __deepcopy__')],
  state=[('cache/cache_key', 'per-object computation state')],
  observe='sequence of compute_on calls on shared objects')

p('C07', 'Arithmetic on metrics equals arithmetic on their results',
  'Adding, subtracting, multiplying, dividing, negating and raising metrics to powers, with metrics or numbers on either side and in any nesting, yields per slice exactly the arithmetic of the operands\' results, with the operands in the written order; the ratio shorthand equals the quotient of the two sums. Results are labelled by the written formula (or the name/columns the user set), and operands themselves are unaffected.',
  ['programs', 'inputs'],
  'all arithmetic expressions over metrics, lists and constants (including division by zero, missing slices and powers), all tables and groupings',
  'tests check one expression per operator on a two-row frame',
  ['metrics.py'],
  [('operator overloads', 'metrics.py: Metric.__add__ .. __rpow__'),
   ('alignment and reduction of operands', 'metrics.py: CompositeMetric.compute_on_children, to_series_or_number')],
  observe='return value of compute_on')

p('C08', 'Long and wide outputs and list results carry exactly the same data',
  'The long form of any result holds exactly the values, slice labels and metric names of the wide form, and converting long to wide and back is lossless, with metrics and slices in the same order. A list of metrics yields exactly its members\' columns, in order, under their own (or the requested) names, and asking for a plain number or series instead of a table changes only the container.',
  ['inputs', 'programs', 'configurations'],
  'all metric trees (single, list, nested list, multi-column, with uncertainty columns), all groupings, all output switches and rename/template settings',
  'tests cover a few fixed frames with unique well-behaved names',
  ['utils.py', 'metrics.py', 'operations.py'],
  [('wide/long conversion', 'utils.py: melt, unmelt, remove_empty_level, apply_name_tmpl'),
   ('column concatenation and renaming', 'metrics.py: MetricList.to_dataframe/manipulate/compute_on_children')],
  observe='return value of compute_on with different output switches')

p('C09', 'Distributions are shares of the slice total; cumulative ones accumulate in order',
  'Within every slice, the distribution of a metric over some columns is each cell\'s value divided by the sum over the cells of that slice, so the shares sum to one. The cumulative distribution is the running sum of those shares in the documented order (by key, by a custom order, or by value; ascending or descending), ending at one, with one row per cell and rows in that order.',
  ['inputs', 'programs'],
  'all child metrics (single, lists, composites), one or several "over" columns, any grouping, any order settings, sparse tables',
  'tests use four-row frames with one over column',
  ['operations.py'],
  [('normalisation within the slice', 'operations.py: Distribution.compute_on_children'),
   ('ordering and cumulative sum', 'operations.py: CumulativeDistribution.compute_on_children')],
  observe='return value of compute_on')

p('C10', "Percent and absolute changes compare each condition with its slice's baseline",
  'For every slice, every column and every non-baseline condition, the reported change is (value/baseline - 1)*100 respectively value - baseline, where baseline is the same column of the same slice in the baseline condition; conditions without a baseline in their slice get a missing value rather than another slice\'s baseline. The baseline row is reported if and only if asked for, and conditions may be given by several columns.',
  ['inputs', 'programs'],
  'all child metrics, one or several condition columns, any level types, any grouping including slices lacking the baseline, include_base on/off',
  'tests use a complete two-condition design on a few rows',
  ['operations.py'],
  [('baseline lookup and alignment', 'operations.py: PercentChange/AbsoluteChange.compute_on_children')],
  observe='return value of compute_on')

p('C11', 'Pre-period adjusted changes equal the regression-adjusted definition',
  'The pre/post percent change equals 100*(intercept of treatment / intercept of control - 1) from per-condition least-squares fits of the metric on covariates centred within the slice, and the CUPED change equals the difference of condition means of metric minus theta times covariate with theta fitted on all conditions of the slice together. Both hold for one or several covariates, several metrics, several treatments, any strata and per grouping slice.',
  ['inputs', 'programs'],
  'all tables with at least two strata per condition, one or more covariates/metrics/treatments, any grouping, include_base on/off',
  'tests compare a handful of fixed frames',
  ['operations.py'],
  [('covariate centring and adjustment', 'operations.py: PrePostChange.adjust_value, CUPED.adjust_value')],
  observe='return value of compute_on')

p('C12', 'Mantel-Haenszel change equals the stratified weighted ratio',
  'For each slice and each non-baseline condition the Mantel-Haenszel change of a ratio equals 100*(sum over strata of a1*n0/(n0+n1) divided by sum over strata of a0*n1/(n0+n1), minus one), using only strata where both conditions occur, for one or several stratification columns, several conditions, lists of ratios and filters. The baseline row is reported if and only if asked for.',
  ['inputs', 'programs'],
  'all ratio metrics and lists of them, any strata sparsity, any grouping, single or multi-column conditions',
  'tests use a complete small design',
  ['operations.py'],
  [('stratum weights and join with baseline', 'operations.py: MH.compute_mh, compute_children')],
  observe='return value of compute_on')

p('C13', 'Diversity measures equal their definition on the distribution',
  'Over the distribution of a metric across categories in each slice, the Herfindahl-Hirschman index is the sum of squared shares, entropy is minus the sum of share times natural log of share, top-k is the sum of the k largest shares, and Nxx is the smallest number of largest categories whose shares reach the threshold; each is reported per metric column and per grouping slice.',
  ['inputs', 'programs'],
  'all child metrics and lists, one or several category columns, any grouping, k larger than the number of categories, thresholds hit exactly',
  'tests use one small frame each',
  ['diversity.py', 'operations.py'],
  [('measures over the distribution', 'diversity.py: HHI, Entropy, TopK, Nxx')],
  observe='return value of compute_on')

p('C14', 'Jackknife equals leave-one-unit-out recomputation, with or without shortcuts',
  'For any metric tree, the jackknife reports the point estimate on all data together with the standard error sqrt((n-1)/n * sum (theta_i - mean theta)^2), where the theta_i are the metric recomputed after removing each unit occurring in the slice. The fast path and the plain path give identical results, whatever filters, operations, missing values and unit/slice sparsity are involved.',
  ['inputs', 'programs', 'configurations'],
  'all metric trees whose leave-one-out recomputation succeeds for every unit, all tables, groupings and unit layouts, optimisation on/off',
  'tests compare both paths on one dense frame per operation',
  ['operations.py', 'utils.py', 'metrics.py'],
  [('vectorised leave-one-out via cached sums and counts', 'operations.py: Jackknife.compute_slices, precompute_sum_or_count_for_jackknife; utils.py: adjust_slices_for_loo'),
   ('plain leave-one-out', 'operations.py: Jackknife.get_samples, get_stderrs')],
  observe='return value of compute_on, and the tables handed to user-defined child metrics')

p('C15', 'Bootstrap resamples whole units with replacement and reports their spread',
  'Each bootstrap replicate is computed on a table in which, in every slice, as many units (or rows if no unit) as the slice has were drawn uniformly with replacement and every drawn unit brings all of its rows unchanged; exactly the requested number of replicates is used and the reported standard error is the sample standard deviation of the replicate values around an unchanged point estimate. Preaggregation shortcuts do not change the distribution of the result and a fixed random seed reproduces it.',
  ['inputs', 'programs', 'configurations'],
  'all metric trees, tables, groupings, with and without unit, optimisation on/off, any replicate count and seed',
  'tests pin a few seeds and compare with a re-implementation of the same sampling calls',
  ['operations.py'],
  [('resampling', 'operations.py: Bootstrap.get_samples'),
   ('preaggregation', 'operations.py: get_preaggregated_data')],
  observe='tables handed to user-defined child metrics; return value of compute_on')

p('C16', 'Poisson bootstrap weights whole units by independent Poisson(1) counts',
  'Each Poisson bootstrap replicate is computed on a table in which every unit of every slice (or every row if no unit) appears, with all of its rows, an independent Poisson(1)-distributed number of times; exactly the requested number of replicates is used and the reported standard error is the sample standard deviation of the replicate values. Preaggregation shortcuts (including for maxima and minima) and repeated samples do not change the distribution of the result.',
  ['inputs', 'programs', 'configurations'],
  'all metric trees, tables, groupings, with and without unit, optimisation on/off, any replicate count and seed, column names of any form',
  'tests pin a few seeds and compare with a re-implementation of the same sampling calls',
  ['operations.py'],
  [('weights', 'operations.py: PoissonBootstrap.get_samples, get_sample_weight'),
   ('preaggregation', 'operations.py: get_preaggregated_data')],
  observe='tables handed to user-defined child metrics; return value of compute_on')

p('C17', 'Confidence intervals are estimate plus/minus t-quantile times standard error',
  'With a confidence level, jackknife and bootstrap results contain for every metric and slice the point estimate and bounds equal to estimate -/+ t-quantile((1+level)/2, replicates-1) times exactly the standard error reported without a level; intervals are nested as the level grows. The base values attached for comparisons are the child metric\'s values per condition, and the display shows the same numbers and marks exactly the intervals excluding zero.',
  ['inputs', 'programs', 'configurations'],
  'all metric trees and levels in (0,1), wide and long output, comparisons with and without baseline row',
  'tests use one level and one frame',
  ['operations.py', 'confidence_interval_display.py'],
  [('interval construction', 'operations.py: MetricWithCI.compute_ci/get_ci_width/compute_change_base'),
   ('display binding', 'operations.py: get_display_fn')],
  observe='return value of compute_on and of its display method')

p('C18', 'Metrics that compare equal compute the same thing',
  'If two metrics compare equal (or hash into the same set entry) they produce the same result on every table, copies of a metric equal the original, and metrics that differ in any setting that changes results, including filters, weights, parameters, sub-metrics and operation settings, do not compare equal. Equality and hash agree and do not depend on computation history.',
  ['programs', 'inputs', 'histories'],
  'all pairs of metrics from a family closed under single-parameter changes',
  'tests list some forty distinct metrics; pairs of settings and histories are not explored',
  ['metrics.py', 'operations.py', 'models.py', 'diversity.py'],
  [('fingerprint', 'metrics.py: get_fingerprint, __eq__, __hash__')],
  observe='==, hash and compute_on of metric pairs')

p('C19', 'Generated SQL for aggregates, arithmetic and lists computes the in-memory answer',
  'For any tree of built-in aggregates, arithmetic and lists with filters at any level, executing the generated query under standard SQL semantics returns the same slices, columns and values as computing in memory on the same table. This holds for any grouping, for column names containing special characters, for expressions used as columns, and for sub-query tables.',
  ['programs', 'inputs'],
  'all metric trees expressible in SQL, all tables, groupings and filters with the same meaning in both languages',
  'the repository has no test that executes, or even inspects, generated SQL',
  ['sql.py', 'metrics.py', 'utils.py'],
  [('query construction', 'metrics.py: to_sql/get_sql_and_with_clause/get_sql_columns'),
   ('query merging and alias management', 'sql.py: is_compatible, Sql.merge, Datasources, Columns, Column')],
  observe='query text handed to the executor and the table returned by compute_on_sql')

p('C20', 'Generated SQL for operations computes the in-memory answer',
  'For distributions, cumulative distributions, percent and absolute changes, pre-period adjusted changes and Mantel-Haenszel over any supported child metric with filters at any level, executing the generated query returns the same slices, columns and values as computing in memory on the same table.',
  ['programs', 'inputs'],
  'all operation trees expressible in SQL, all tables and groupings (complete and sparse designs) and filters',
  'the repository has no test that executes, or even inspects, generated SQL',
  ['operations.py', 'sql.py', 'metrics.py', 'utils.py', 'diversity.py'],
  [('sub-query construction', 'operations.py: get_sql_and_with_clause of each operation')],
  observe='query text handed to the executor and the table returned by compute_on_sql')

p('C21', 'Jackknife and bootstrap in SQL agree with their in-memory definition',
  'Executing the SQL for a jackknife returns exactly the in-memory point estimates, standard errors and intervals; executing the SQL for a bootstrap or Poisson bootstrap returns exactly the in-memory point estimates and a standard error computed over the requested number of replicates, each of which draws whole units (or rows) within its slice according to the method.',
  ['programs', 'inputs', 'configurations'],
  'all supported child metrics, tables, groupings, filters, unit layouts, preaggregated and general paths',
  'the repository has no test that executes, or even inspects, generated SQL',
  ['operations.py', 'sql.py'],
  [('resampling queries', 'operations.py: get_jackknife_data_fast/general, bootstrap_by_row/unit, PoissonBootstrap.get_resampled_data_sql, get_se_sql')],
  observe='intermediate and final tables of the executed query')

p('C22', 'All execution modes of a query agree',
  'For any metric tree, executing in full-SQL mode, in mixed mode with any batch size, and on the equivalent in-memory table returns the same table in the same shape; long and wide, pipeline and method-call forms agree. So does compute_on_beam on a collection with the same rows, whose executor gets one labelled SqlTransform per query with the given arguments, and reading a collection back through files yields all its rows and touches no other file. Generating a query does not change the metric, is repeatable, and a query can itself be used as the table of another.',
  ['programs', 'inputs', 'configurations'],
  'all metric/operation trees, modes, batch sizes, output switches, table given by name or sub-query',
  'no test executes SQL in any mode',
  ['metrics.py', 'operations.py', 'sql.py'],
  [('mode dispatch', 'metrics.py: compute_through_sql, compute_on_sql_mixed_mode, compute_children_sql; operations.py: MetricWithCI.compute_on_sql, compute_children_sql')],
  observe='queries handed to the executor and returned tables')

p('C23', 'Fitted models equal the direct fit on the aggregated data',
  'Fitting a model metric yields, for every grouping slice, the same intercept and coefficients, under the documented names, as fitting the corresponding estimator directly on the table of the y and x metrics aggregated by the model\'s group-by columns, for every model kind, penalty, intercept and normalisation setting and any x/y metric trees.',
  ['inputs', 'programs', 'configurations'],
  'all x/y metric trees, group-by and grouping columns, model kinds and settings, well-conditioned designs',
  'tests fit two-feature models on one frame',
  ['models.py', 'metrics.py'],
  [('aggregation and fitting', 'models.py: Model.compute_on_children/compute, model classes')],
  observe='return value of compute_on')

p('C24', 'Models solved from sufficient statistics in SQL equal the ordinary fit',
  'In every execution mode, including the one that only reads sufficient statistics from the database, a model metric returns the same coefficients (to solver accuracy) as the ordinary in-memory fit, per grouping slice.',
  ['inputs', 'programs', 'configurations'],
  'all model kinds and settings, x/y metric trees, grouping slices, well-conditioned designs',
  'no test executes SQL in any mode',
  ['models.py', 'sql.py'],
  [('sufficient statistics and solvers', 'models.py: compute_on_sql_magic_mode, get_sufficient_stats_elements, compute_ridge_coefs, fista, newtons_method')],
  observe='queries handed to the executor and returned tables')

p('C25', 'The formatted display shows the given numbers and colours them by significance',
  'In the formatted table every experiment cell shows the value, the change and the interval bounds of exactly its row and metric, in the requested number format; it is marked positive if the whole interval is above zero, negative if it is below, unmarked otherwise, with the roles swapped for metrics whose colour is flipped. Rows, metrics and dimensions keep their labels, control rows and requested sort and metric orders are respected, and the input table is not modified.',
  ['inputs', 'configurations'],
  'all long tables with any metrics, dimensions, controls, interval positions (including touching zero, missing) and display switches',
  'tests compare against a few golden frames',
  ['confidence_interval_display.py', 'operations.py'],
  [('cell formatting and colouring', 'confidence_interval_display.py: MetricFormatter, get_formatted_df, _sorted_long_to_wide, add_control_rows')],
  observe='cells of the formatted table')

p('C26', 'Rewriting a metric in terms of sums and counts preserves its value',
  'Whenever a metric tree is rewritten into an equivalent one over sums and counts (with helper columns), computing the rewritten tree on the extended table gives the same values, names and slices as the original tree on the original table, with all filters preserved, and the original tree and table are not modified.',
  ['programs', 'inputs'],
  'all metric/operation trees with rewritable and non-rewritable leaves, filters at any level, tables with missing values',
  'tests check a few single metrics without filters',
  ['utils.py', 'metrics.py', 'operations.py'],
  [('expansion', 'utils.py: get_fully_expanded_equivalent_metric_tree, get_equivalent_metric, push_filters_to_leaf, add_auxiliary_cols')],
  observe='values of the rewritten tree on the extended table')

p('C27', 'User-defined metrics work like built-in ones',
  'A metric or operation written by a user (overriding compute, compute_slices, compute_with_split_by, precompute, postcompute, final_compute, compute_through or compute_on_children, deriving from a built-in one, delegating to a child or helper metric, or having its own query or own resampling and intervals) gives what the same computation written with built-in metrics gives, in any tree, slice, form, under jackknife and bootstrap and in SQL and mixed mode. Its methods are called in the documented order with the documented data (filtered rows, one slice at a time), and its results are shared in the cache by different instances only if the class asks for it and never with a metric that computes something else.',
  ['programs', 'inputs', 'configurations'],
  'all trees mixing built-in and user-defined metrics, tables, groupings, filters, output switches, resamplings, sharing across instances',
  'tests define one or two toy metrics with one table each',
  ['metrics.py', 'operations.py'],
  [('evaluation pipeline', 'metrics.py: Metric.compute_through, compute_slices, split_data, manipulate, final_compute; Metric.get_fingerprint, cache_across_instances'),
   ('operations', 'operations.py: Operation.compute_child, compute_util_metric_on, MetricWithCI.compute_on_samples, compute_ci, is_metric_precomputable')],
  observe='results, and the log of calls to user code')

p('C28', 'Drawing or walking through a metric shows exactly its tree',
  'For any metric, the drawing (to_dot, and what visualize_metric_tree hands to the renderer) has one node for every distinct metric and constant of the tree, labelled with its name and, if it has one, its filter, and an edge from every metric to each of its children (repeated ones merged exactly if strict); traverse visits every occurrence once, itself and the constants only if asked; get_leaf_metrics gives the metrics without metrics below; a MetricList is the sequence of its children. Looking at a metric, used before or not, does not change it.',
  ['programs'],
  'all metric trees with shared parts, constants, filters and arbitrary names',
  'the test draws one five-node tree',
  ['metrics.py', 'utils.py'],
  [('drawing and traversal', 'metrics.py: Metric.to_dot, visualize_metric_tree, traverse, MetricList.__iter__; utils.py: get_leaf_metrics')],
  observe='the DOT text, parsed back; the sequences returned')

if __name__ == '__main__':
  for q in P:
    assert len(q['title']) <= 80, (q['id'], len(q['title']))
  with open(os.path.join(HERE, '..', 'properties.jsonl'), 'w') as f:
    for q in P: f.write(json.dumps(q) + '\n')
  print(len(P))
