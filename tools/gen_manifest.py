"""Writes /verif/MANIFEST.json: one entry per property whose monitor exists."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
T = {
 'C01': ('runtime oracle: results of real computations checked cell by cell against an exact-rational reference of each definition', 'Random tables and parameter settings; reference uses Fractions and its own grouping code; trusts that reference.'),
 'C02': ('metamorphic runtime monitor: grouped run vs one ungrouped run per occurring slice, with categorical/relabelled keys', 'Random metric trees and tables; assumes the ungrouped computation itself (C01, C07-C14).'),
 'C03': ('metamorphic runtime monitor: filtered metric vs the unfiltered metric on rows selected in pure Python', 'Random trees with filters at random nodes; trusts the small filter evaluator.'),
 'C04': ('runtime monitor of inputs before/after (frame, arguments, metric structure) and of invariance under perturbed irrelevant data', 'Random trees, index kinds, extra columns, row/column orders.'),
 'C05': ('differential runtime monitor: members of lists/arithmetic/shared caches vs each computed alone', 'Random member sets with forced sub-metric overlap; random filters, names, orders.'),
 'C06': ('runtime history monitor: random operation sequences (compute, failure, copy, rename, embed, SQL) then comparison with a freshly built metric, plus cache-empty assertions', 'Random histories with injected failures; observes results and the cache attributes after each top-level call.'),
 'C07': ('runtime oracle: composite results vs independent arithmetic on the operand results', 'Random formulas; trusts operand results (C01).'),
 'C08': ('runtime oracle: long/wide/list/container forms compared with each other cell by cell', 'Random results incl. mixed index kinds.'),
 'C09': ('runtime oracle: distributions and running shares recomputed in plain Python, with row order checked', 'Random cells, orders, ties; child metric is a black box.'),
 'C10': ('runtime oracle: changes recomputed per slice/condition from the child metric on that condition rows only', 'Random conditions incl. missing baselines and multi-column conditions.'),
 'C11': ('runtime oracle: PrePost/CUPED recomputed by independent per-condition least squares', 'Random strata/covariates; numerical tolerance.'),
 'C12': ('runtime oracle: Mantel-Haenszel ratio recomputed in plain Python from raw rows', 'Random strata sparsity.'),
 'C13': ('runtime oracle: diversity indices recomputed in plain Python from category values', 'Random positive categories.'),
 'C14': ('runtime oracle: leave-one-unit-out recomputation by re-running the child on reduced tables, fast path vs plain path', 'Random trees, filters, sparsity; one open known finding is excluded by its exact condition.'),
 'C15': ('online monitor of every replicate table handed to the child metric (event log) plus spread oracle', 'Structural checks on every replicate, statistical checks with negligible false-alarm thresholds.'),
 'C16': ('online monitor of every Poisson replicate table handed to the child metric (event log) plus spread oracle', 'Structural checks on every replicate, statistical checks with negligible false-alarm thresholds.'),
 'C17': ('runtime oracle: interval bounds recomputed from the reported standard error and Student-t quantiles', 'Random trees, levels, both sign cases; display data compared.'),
 'C18': ('runtime monitor: equality/hash of random pairs of metrics cross-checked with their results on distinguishing tables', 'Pairs differing in exactly one setting plus random pairs.'),
 'C19': ('differential runtime monitor: generated SQL executed by an independent SQL interpreter vs in-memory result', 'Trusts the mini SQL interpreter (mon/bq.py), which was validated against sqlite3 where dialects overlap.'),
 'C20': ('differential runtime monitor: generated SQL of operations executed by an independent SQL interpreter vs in-memory result', 'As C19.'),
 'C21': ('differential and trace monitor: SQL of jackknife/bootstrap executed by an instrumented SQL interpreter; replicate composition checked', 'As C19; bootstrap checked through recorded intermediate tables.'),
 'C22': ('differential runtime monitor: every execution mode, batch size, shape of the same query compared, Beam through a recording stand-in', 'As C19.'),
 'C23': ('runtime oracle: coefficients vs estimators fitted directly on the aggregated table', 'Random model settings; trusts scikit-learn.'),
 'C24': ('differential runtime monitor: sufficient-statistics and all SQL modes vs ordinary fit', 'As C19; solver tolerance.'),
 'C25': ('runtime oracle: the rendered cells parsed and compared with the given numbers', 'Random formats, sorts, flips.'),
 'C26': ('runtime oracle: rewritten tree on the extended table vs original tree on the original table', 'Random trees; inputs snapshot before/after.'),
 'C27': ('runtime oracle: user-defined twins of built-in metrics vs the built-in ones, plus an online checker of the log of calls to user code', 'Random trees with user-defined parts in six writing styles, derived classes, custom operations, resamplings and intervals, SQL and mixed mode.'),
 'C28': ('runtime oracle: the DOT drawing parsed back and the walks compared with an independent walk over the children; the metric compared before/after', 'Random trees with shared parts, constants, filters, hostile names; trusts pydot to parse.'),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for d in props:
  i = d['id']
  if os.path.exists(os.path.join(ROOT, 'mon', 'props', i.lower() + '.py')):
    tech, note = T[i]
    checks.append({'property': i, 'quick_cmd': 'bash check.sh %s quick' % i,
                   'thorough_cmd': 'bash check.sh %s thorough' % i,
                   'technique': tech, 'level': 'exploration',
                   'level_note': note})
  else:
    na.append({'property': i, 'reason': 'monitor not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh',
           'hooks': {'guard': 'METERSTICK_VERIF_HOOKS',
                     'enable': 'no hooks were added to /repo; the monitors observe through the public API and through wrappers installed from /verif at run time',
                     'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'All checks: bash check.sh <ID> [quick|thorough]; replay a witness with bash check.sh <ID> quick --replay <file>.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
