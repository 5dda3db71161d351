"""C04: inputs are never written to; index, column order and row order are irrelevant."""
import copy

import numpy as np
import pandas as pd

from mon import cmpx, gen
from mon.cmpx import check, run
from mon.core import Skip, Violation

RULE = ('one random metric tree computed on one table and on variants of it '
        '(other index, columns permuted, unrelated columns added or removed, '
        'rows permuted), with snapshots of table, arguments and metric before '
        'and after; distinct = (spec, grouping columns, variant)')
ASSUMPTIONS = ['the table index never carries the name of a column in use '
               '(ambiguous for pandas itself)',
               'row order is varied except for the bootstraps, whose draws are '
               'tied to row positions']
LIMITS = {'quick': (2500, 50), 'thorough': (60000, 600)}
MIN_EVENTS = {'snapshots': 1500, 'variants': 1500}


def tree(rng):
  r = rng.random()
  if r < .3:
    return gen.measure(rng, 'robust', .3)
  if r < .42:
    return gen.leaf(rng, 'rich', where_p=.2)
  if r < .47:
    return {'k': 'Nth', 'var': 'x', 'n': rng.choice([0, 1, -1]), 'sort_by': 't',
            'ascending': rng.random() < .5, 'dropna': rng.random() < .5}
  if r < .51:
    return {'k': 'WQuantile', 'var': 'x', 'quantile': rng.choice(
        [.5, [.25, .75]])}
  if r < .75:
    return gen.operation(rng, where_p=.2)
  if r < .8:
    return gen.operation(rng, rng.choice(gen.OPS_ADJ))
  child = rng.choice([
      lambda: gen.pos_measure(rng, .2),
      lambda: gen.leaf(rng, 'rich', where_p=.2),
      lambda: gen.operation(rng, rng.choice(['Distribution', 'PercentChange']),
                            lists=False)])()
  k = rng.choice(['Jackknife', 'Jackknife', 'Bootstrap', 'PoissonBootstrap'])
  s = {'k': k, 'unit': 'u', 'child': child, 'opt': rng.random() < .6,
       'conf': None if 'list' in gen.kinds_in(child) else rng.choice([None, .9])}
  if k != 'Jackknife':
    s.update(n=3, unit=rng.choice(['u', None]))
  return s


def used_columns(s):
  import json
  import re
  return set(re.findall(r'[A-Za-z_0-9]+', json.dumps(s)))


def simple(v):
  if isinstance(v, (str, int, float, bool, type(None), tuple, frozenset)):
    return True
  return isinstance(v, (list, dict, set, np.ndarray))


def snap_metric(m):
  """Public attributes of every node, as a comparable structure."""
  out = []
  for n in m.traverse():
    d = {}
    for k, v in vars(n).items():
      if k in ('cache', 'cache_key', 'children') or k.startswith('_'):
        continue
      if simple(v):
        d[k] = repr(sorted(v, key=repr) if isinstance(v, set) else v)
    out.append((id(n), type(n).__name__, str(n.name), repr(n.where),
                [id(c) if hasattr(c, 'children') else repr(c)
                 for c in n.children], d))
  return out


def diff_snap(a, b):
  if len(a) != len(b):
    return 'number of nodes changed'
  for x, y in zip(a, b):
    if x[:5] != y[:5]:
      return 'node %s became %s' % (x[1:5], y[1:5])
    for k in x[5]:
      if k not in y[5] or x[5][k] != y[5][k]:
        return '%s.%s: %s became %s' % (x[1], k, x[5][k], y[5].get(k))
  return None


def same_frame(a, b):
  try:
    pd.testing.assert_frame_equal(a, b, check_exact=True, check_freq=False)
    assert list(a.index.names) == list(b.index.names)
    assert [str(t) for t in a.dtypes] == [str(t) for t in b.dtypes]
    return None
  except AssertionError as e:
    return str(e)[:300]


def seeded(m, df, split, seed):
  np.random.seed(seed)
  return m.compute_on(df, split)


def f_main(rng, rec):
  spec = tree(rng)
  kinds = gen.kinds_in(spec)
  rich = bool(kinds & {'Cov', 'WMean', 'WVariance', 'WSD', 'WCov', 'FCov',
                       'WCorr', 'Correlation', 'CV', 'Quantile', 'WQuantile',
                       'PrePost', 'CUPED'})
  df = gen.table(rng, n=rng.choice([24, 48]), rich=rich, dense=True,
                 n_units=rng.choice([4, 8]), group_vals=2,
                 nan=0 if rich else rng.choice([0, .15]))
  if rng.random() < .3:
    df = gen.catify(rng, df, [c for c in ('g', 'cond', 's2', 'u', 'h')
                              if c not in gen.filter_cols(spec)])
  split = gen.split(rng, maxn=2, p0=.35)
  seed = rng.randint(0, 2**31)
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df)}
  m = gen.build(spec)
  arg = list(split) if split else None
  before_df, before_m, before_arg = df.copy(), snap_metric(m), copy.copy(arg)
  try:
    r1 = seeded(m, df, arg, seed)
  except Exception as e:  # undefined on this table: must still not write
    # Undefined: no baseline, or resampling of a table the filters empty.
    if kinds & {'PercentChange', 'AbsoluteChange', 'MH', 'PrePost', 'CUPED',
                'Jackknife', 'Bootstrap', 'PoissonBootstrap'}:
      if same_frame(df, before_df):
        raise Violation('a failing computation changed the table', det)
      raise Skip('undefined: %r' % e)
    run(lambda: seeded(m, df, arg, seed), 'compute_on', det)
    raise
  d = same_frame(df, before_df)
  if d:
    raise Violation('computing changed the caller\'s table: ' + d, det)
  d = diff_snap(before_m, snap_metric(m))
  if d:
    raise Violation('computing changed the metric: ' + d, det)
  if arg != before_arg:
    raise Violation('split_by list changed: %r' % arg, det)
  rec.add('snapshots')
  n1 = cmpx.norm(r1)
  n1 = cmpx.Norm(n1.names, n1.cols, [(k, list(v)) for k, v in n1.rows])
  r2 = run(lambda: seeded(m, df, arg, seed), 'second compute_on', det)
  check(r2, n1, 'computing twice gives different answers', det, rtol=1e-12,
        atol=1e-12, order=True)
  # Writing into a returned result must not reach the table.
  if isinstance(r2, pd.DataFrame) and len(r2):
    try:
      r2.iloc[:, 0] = -12345.0
    except Exception:  # pylint: disable=broad-except
      pass
    if same_frame(df, before_df):
      raise Violation('the result shares memory with the table', det)
  used = used_columns(spec) | set(split)
  variants = ['index', 'cols', 'extra', 'drop', 'rows']
  if kinds & {'Bootstrap', 'PoissonBootstrap'}:
    variants.remove('rows')
  for variant in rng.sample(variants, 2):
    if variant == 'index':
      kind = rng.choice(gen.INDEX_KINDS)
      v = gen.reindex(rng, df, kind)
      label = 'index:' + kind
    elif variant == 'cols':
      cs = list(df.columns)
      rng.shuffle(cs)
      v, label = df[cs], 'column order'
    elif variant == 'extra':
      v = df.copy()
      for c in rng.sample(['Metric', 'Value', 'index', 'level_0', 'foo', 'Slice',
                           '_x', 'x_', 'count'], 3):
        v[c] = [rng.choice(['p', 'q']) for _ in range(len(v))]
      label = 'unrelated columns'
    elif variant == 'drop':
      # w, f and u are defaults the builders use without naming them.
      v = df[[c for c in df.columns if c in used or c in ('w', 'f', 'u')]]
      label = 'unused columns dropped'
    else:
      perm = list(range(len(df)))
      rng.shuffle(perm)
      v, label = df.iloc[perm], 'row order'
    det['variant'] = label
    r = run(lambda: seeded(gen.build(spec), v, arg, seed),
            'compute_on after changing ' + label, det)
    check(r, n1, 'the answer depends on ' + label, det, rtol=1e-6, atol=1e-6)
    rec.add('variants')
    rec.add('variant_' + label.split(':')[0])
    rec.signature(spec, split, label)
  rec.add('tree_' + spec['k'])
  rec.sample = {'spec': spec, 'split_by': split, 'variant': det['variant'],
                'nodes_snapshotted': len(before_m)}


FAMILIES = [('main', 1, f_main)]
