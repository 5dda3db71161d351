"""C19: generated SQL for aggregates, arithmetic and lists equals memory."""
import math

import pandas as pd

from mon import cmpx, gen, sqlx
from mon.core import Skip, Violation

from meterstick import metrics as M

RULE = ('one random metric tree (built-in aggregates, arithmetic, lists, '
        'filters on every level) on a random table, computed by compute_on and '
        'by compute_on_sql whose queries run on an independent interpreter of '
        'the BigQuery dialect; slices, columns and values compared; distinct = '
        '(spec, grouping, table source, number of slices)')
ASSUMPTIONS = [
    'the interpreter in mon/bq.py stands for the database; what the dialect '
    'leaves open (row order, order of ties) is shuffled',
    'every aggregate has data in every slice it reports (aggregates of nothing '
    'differ between the two worlds: known findings)',
    'a row with missing values only counts like an absent row; infinite values '
    'count as missing in SQL']
LIMITS = {'quick': (5200, 50), 'thorough': (80000, 600)}
MIN_EVENTS = {'cases_compared': 2600, 'queries': 2600, 'values': 12000,
              'trees_with_gaps': 300}

COLS = ('x', 'y', 'z')


def value_leaf(rng, where_p, pool='rich'):
  r = rng.random()
  if r < .06:
    s = {'k': 'Quantile', 'var': rng.choice('xyz'),
         'quantile': rng.choice([0, .25, .5, .9, 1, .29, .57, .01,
                                 [.1, .5], [.25, .29, .75]])}
  elif r < .1:
    s = {'k': 'WQuantile', 'var': rng.choice('xyz'),
         'quantile': rng.choice([.25, .5, .9, 1, 0, .3])}
  elif r < .15:
    s = {'k': 'Nth', 'var': rng.choice('xyz'), 'n': rng.choice([0, 1, -1, 2]),
         'sort_by': 't', 'ascending': rng.random() < .5,
         'dropna': rng.random() < .5}
  else:
    s = gen.leaf(rng, pool, COLS, 0, sql=True)
  s['where'] = [gen.filt(rng, 1, sql=True)
                for _ in range(rng.choice([1, 1, 2]))
                ] if rng.random() < where_p else []
  return s


def scalar(rng, depth, where_p, pool):
  for _ in range(20):
    s = gen.scalar(rng, depth, where_p=where_p, sql=True,
                   leaf_fn=lambda: value_leaf(rng, where_p, pool))
    ok = True
    for lf, _, _ in sqlx.leaves(s):
      if isinstance(lf.get('quantile'), list):
        ok = s is lf
    if ok:
      return s
  return {'k': 'Sum', 'var': 'x'}


# Never zero on the tables of these checks.
SAFE = {'list', 'bin', 'Count', 'CountD'}


def tree(rng, where_p, pool):
  r = rng.random()
  if r < .5:
    return scalar(rng, rng.choice([0, 1, 2, 3]), where_p, pool)
  ch = [scalar(rng, rng.choice([0, 1, 1, 2]), where_p, pool)
        for _ in range(rng.choice([2, 2, 3]))]
  if rng.random() < .15:
    ch.append({'k': 'list', 'ch': gen.dedup([
        scalar(rng, 1, where_p, pool), scalar(rng, 0, where_p, pool)]),
               'where': gen.wheres(rng, where_p)})
  s = {'k': 'list', 'ch': gen.dedup([c for c in ch if c['k'] != 'list']) +
       [c for c in ch if c['k'] == 'list'], 'where': gen.wheres(rng, where_p)}
  names = []
  for c in s['ch']:
    names += ([gen.build(q).name for q in c['ch']] if c['k'] == 'list' else
              [gen.build(c).name])
  if len(set(names)) < len(names):
    s['ch'] = s['ch'][:1]
  r = rng.random()
  if r < .25 and not any(isinstance(lf.get('quantile'), list)
                         for lf, _, _ in sqlx.leaves(s)):
    op = rng.choice('+-*/')
    other = rng.choice([2, .5, gen.safe_denom(rng)])
    s = {'k': 'bin', 'op': op, 'a': s, 'b': other,
         'where': gen.wheres(rng, where_p)}
    if rng.random() < .35 and (op != '/' or not gen.kinds_in(s) - SAFE):
      s['a'], s['b'] = s['b'], s['a']
  return s


def strip(s, rng):
  """Removes one filter somewhere."""
  spots = []
  def walk(o):
    if isinstance(o, dict):
      if o.get('where'):
        spots.append(o)
      for v in o.values():
        walk(v)
    elif isinstance(o, list):
      for v in o:
        walk(v)
  walk(s)
  if spots:
    rng.choice(spots)['where'] = []
  return bool(spots)


def make_fed(s, df, split, rng, need=1):
  while not sqlx.fed(s, df, split, need):
    if not strip(s, rng):
      raise Skip('a slice has no data')


def f_tree(rng, rec):
  nan = rng.choice([0, 0, .1])
  df = gen.table(rng, n=rng.choice([12, 20, 30, 45]), rich=rng.random() < .5,
                 nan=nan, nan_cols=('x', 'y'), sql=True, index='any',
                 group_vals=rng.choice([2, 3]))
  where_p = rng.choice([0, .3, .6])
  pool = rng.choice(['robust', 'rich'])
  split = gen.split(rng, sqlx.SPLITS)
  for _ in range(8):
    s = tree(rng, where_p, pool)
    table, mem, kind = sqlx.source(rng, df)
    if not nan:
      break
    # pairwise statistics with partially missing rows: a known finding
    if not gen.kinds_in(s) & PAIRWISE:
      break
  else:
    s = {'k': 'Sum', 'var': 'x'}
  make_fed(s, mem, split, rng)
  judge(rng, rec, s, df, table, mem, split, kind)


PAIRWISE = {'Cov'}



def judge(rng, rec, s, df, table, mem, split, kind, clean=False, **kw):
  kw.setdefault('ignore_missing_rows', False)
  if sqlx.twice(s):
    raise Skip('one value under two names: a known finding')
  det = {'spec': s, 'split_by': split, 'source': str(table),
         'table': gen.df_repr(df)}
  m = gen.build(s)
  what = 'compute_on_sql of %s by %s on %s' % (m.name, split, kind)
  ref = cmpx.run(lambda: gen.build(s).compute_on(mem, list(split)),
                 'compute_on', det)
  run = sqlx.Run(df, rng.random())
  res = sqlx.call(lambda: m.compute_on_sql(table, list(split), run.execute),
                  what, det, run)
  if clean:
    ref, res = sqlx.unquote(ref), sqlx.unquote(res)
  try:
    sqlx.check(ref, res, what, det, run, **kw)
  except Violation:
    if infinite(s, mem, split):
      raise Skip('computed from a division by zero')
    raise
  n = cmpx.norm(ref)
  rec.add('cases_compared')
  rec.add('queries', len(run.queries))
  rec.add('values', sum(v is not None for _, vs in n.rows for v in vs))
  rec.add('source_' + kind)
  for k in gen.kinds_in(s):
    rec.add('kind_' + k)
  rec.trivial = not n.rows
  rec.signature(s, split, str(table), len(n.rows))
  rec.sample = {'spec': s, 'split_by': split, 'table': str(table),
                'query': run.queries[-1][:600] if run.queries else None}


def infinite(s, df, split, by=(), top=True):
  """Whether part of a metric divides by zero, which is NULL in SQL."""
  if isinstance(s, list):
    return any(infinite(v, df, split, by, False) for v in s)
  if not isinstance(s, dict):
    return False
  if not top and s.get('k') in ('Ratio', 'bin', 'PercentChange', 'MH', 'PrePost'):
    try:
      n = cmpx.norm(gen.build(s).compute_on(
          df, list(dict.fromkeys(list(split) + list(by)))))
    except Exception:  # pylint: disable=broad-except
      return False
    if any(isinstance(v, float) and math.isinf(v) for _, vs in n.rows
           for v in vs):
      return True
  if s.get('where'):
    df = df.iloc[gen.fmask(s['where'], df)]
  for k in ('over', 'cond', 'strat'):
    v = s.get(k)
    if v is not None:
      by = list(by) + ([v] if isinstance(v, str) else list(v))
  return any(infinite(v, df, split, by, False) for k, v in s.items()
             if k != 'where')


EXPRS = {
    'x + y': lambda d: d.x + d.y,
    'x - y': lambda d: d.x - d.y,
    'x * f': lambda d: d.x * d.f,
    '-z': lambda d: -d.z,
    'w * 2 + 1': lambda d: d.w * 2 + 1,
    '(x + y) * f': lambda d: (d.x + d.y) * d.f,
    'IF(f > 2, x, y)': lambda d: d.x.where(d.f > 2, d.y),
    'x + y - z': lambda d: d.x + d.y - d.z,
    'ABS(x)': lambda d: d.x.abs(),
    '2 - x': lambda d: 2 - d.x,
    'CASE WHEN f = 1 THEN x ELSE z END': lambda d: d.x.where(d.f == 1, d.z),
    'x / f': lambda d: d.x / d.f,
}
WEXPRS = {'w + f': lambda d: d.w + d.f, 'w * f': lambda d: d.w * d.f,
          'f + 1': lambda d: d.f + 1}
BYEXPRS = {
    'i > 1': lambda d: d.i > 1,
    's + f': lambda d: d.s + d.f,
    'IF(f > 2, "big", "small")': lambda d: pd.Series(
        ['big' if v > 2 else 'small' for v in d.f], index=d.index),
    'CONCAT(g, s2)': lambda d: d.g + d.s2,
    's - f': lambda d: d.s - d.f,
    "g = 'a'": lambda d: d.g == 'a',
    'f * 2': lambda d: d.f * 2,
    'f / 2': lambda d: d.f / 2,
    'UPPER(s2)': lambda d: d.s2.str.upper(),
}


def subst(s, names, weights, rng):
  """Replaces columns of a spec by expressions."""
  if isinstance(s, list):
    return [subst(v, names, weights, rng) for v in s]
  if not isinstance(s, dict):
    return s
  out = {}
  for k, v in s.items():
    if k in ('var', 'var2') and v in names:
      out[k] = names[v]
    elif k == 'where':
      out[k] = v
    else:
      out[k] = subst(v, names, weights, rng)
  if s.get('k') in ('WMean', 'WVariance', 'WSD', 'WCov', 'WCorr',
                    'WQuantile') and weights:
    out['weight'] = weights
  return out


def f_exprs(rng, rec):
  """Expressions as columns, weights and dimensions."""
  df = gen.table(rng, n=rng.choice([16, 24, 36]), rich=rng.random() < .5,
                 sql=True, index='any', group_vals=2)
  exprs = rng.sample(sorted(EXPRS), 3)
  names = dict(zip(COLS, exprs))
  if rng.random() < .5:
    names.pop(rng.choice(COLS))
  mem = df.copy()
  for e in names.values():
    mem[e] = EXPRS[e](df)
  weights = rng.choice([None] + sorted(WEXPRS))
  if weights:
    mem[weights] = WEXPRS[weights](df)
  split = gen.split(rng, sqlx.SPLITS)
  if rng.random() < .4:
    by = rng.sample(sorted(BYEXPRS), rng.choice([1, 1, 2]))
    for e in by:
      mem[e] = BYEXPRS[e](df)
    split = (split[:1] + by) if rng.random() < .5 else by
  by_float = 'f / 2' in split
  where_p = rng.choice([0, .3])
  s = tree(rng, where_p, rng.choice(['robust', 'rich']))
  if by_float and gen.kinds_in(s) & {'WQuantile'}:
    raise Skip('window over a float dimension')
  s = subst(s, names, weights, rng)
  make_fed(s, mem, split, rng)
  judge(rng, rec, s, df, 'T', mem, split, 'exprs')
  rec.add('expression_columns', sum(
      1 for lf, _, _ in sqlx.leaves(s) for k in ('var', 'var2')
      if lf.get(k) in EXPRS))
  rec.add('expression_dims', sum(c in BYEXPRS for c in split))


ODD = ['my col', 'a-b', 'x.1', 'sel%', 'select', '1st', 'a/b', 'p (q)', 'Sum x',
       'data', 'order', 'x + y', 'a_b', 'a b', 'group', 'by', 'coût', 'a\nb']


def f_quoted(rng, rec):
  """Columns whose names need backquotes in SQL."""
  df = gen.table(rng, n=rng.choice([16, 24, 36]), rich=rng.random() < .5,
                 sql=True, index='any', group_vals=2)
  odd = rng.sample(ODD, 4)
  if {'a b', 'a_b'} <= set(odd) or {'a-b'} <= set(odd) and False:
    pass
  names = dict(zip(COLS, odd))
  dim = odd[3]
  stored = df.rename(columns=dict(names, g=dim))
  q = lambda c: '`%s`' % c
  split = gen.split(rng, sqlx.SPLITS)
  split = [q(dim) if c == 'g' else c for c in split]
  if not split and rng.random() < .7:
    split = [q(dim)]
  mem = df.rename(columns=dict({k: q(v) for k, v in names.items()},
                               g=q(dim)))
  where_p = rng.choice([0, .3])
  s = tree(rng, where_p, rng.choice(['robust', 'rich']))
  def no_g(o):
    if isinstance(o, dict):
      o = {k: ([f for f in v if 'g' not in gen.filter_cols([f])]
               if k == 'where' else no_g(v)) for k, v in o.items()}
    elif isinstance(o, list):
      o = [no_g(v) for v in o]
    return o
  s = no_g(s)
  s = subst(s, {k: q(v) for k, v in names.items()}, None, rng)
  make_fed(s, mem, split, rng)
  judge(rng, rec, s, stored, 'T', mem, split, 'quoted', clean=True)
  rec.add('quoted_columns', len(gen.used_cols(s, split, mem)))


NAMES = ['foo', 'a b', 'a-b', 'a_b', 'a__b', 'A_B', 'x', 'x_1', 'g', 'h', '1', '1_1',
         'count', 'sum', 'select', 'Data', 'T', 'w', 'a.b', 'x / y', 'x/y', '%',
         'sum(x)', 'sum x', 'SUM(X)', 'weight', 'prev_weight', '(x)', 'é', 'rank',
         'all', 'total']


def f_names(rng, rec):
  """Members with chosen, similar, clashing names; renamed columns."""
  df = gen.table(rng, n=rng.choice([16, 24, 36]), rich=rng.random() < .5,
                 sql=True, index='any', group_vals=2)
  split = gen.split(rng, sqlx.SPLITS)
  where_p = rng.choice([0, .3, .6])
  pool = rng.choice(['robust', 'rich'])
  n = rng.choice([1, 2, 3, 4])
  names = rng.sample([v for v in NAMES if v not in split], n)
  ch = []
  for nm in names:
    c = value_leaf(rng, where_p, pool)
    while isinstance(c.get('quantile'), list):
      c = value_leaf(rng, where_p, pool)
    if rng.random() < .3:
      c = {'k': 'bin', 'op': rng.choice('+-*'), 'a': c,
           'b': rng.choice([2, gen.safe_denom(rng)]), 'where': []}
    if ch and rng.random() < .4:  # the same value again under another name
      c = dict(rng.choice(ch))
      w = list(c.get('where') or [])
      c['where'] = [gen.near(rng, w[0])] + w[1:] if w else [gen.filt(
          rng, 1, sql=True)]
    c['name'] = nm
    ch.append(c)
  r = rng.random()
  if n == 1:
    s = ch[0]
  elif r < .3 and all('a' not in c for c in ch):
    s = {'k': 'bin', 'op': rng.choice('+-*'), 'a': ch[0], 'b': ch[1], 'where': [],
         'name': rng.choice([None, rng.choice(NAMES)])}
    if s['name'] in split:
      s['name'] = None
  elif r < .6:
    s = {'k': 'list', 'ch': ch, 'where': gen.wheres(rng, where_p),
         'rename': rng.sample([v for v in NAMES if v not in split], n)}
  elif r < .75:
    s = {'k': 'list', 'ch': ch, 'where': gen.wheres(rng, where_p),
         'tmpl': rng.choice(['my {}', '{} %', '{}-{}', 'é{}', '{} / total',
                             '<{}>'])}
    if s['tmpl'].count('{}') == 2:
      s['tmpl'] = '1. {}'
  else:
    s = {'k': 'list', 'ch': ch, 'where': gen.wheres(rng, where_p)}
    if rng.random() < .4:
      s = {'k': 'bin', 'op': rng.choice('+-*'), 'a': s,
           'b': rng.choice([2, gen.safe_denom(rng), {
               'k': 'list', 'ch': [dict(c, name=c['name'] + '!') for c in ch]}]),
           'where': []}
  make_fed(s, df, split, rng)
  judge(rng, rec, s, df, 'T', df, split, 'names')
  rec.add('named_metrics', n)


LABELS = ['a', 'a == b', "o'k", 'a OR b', 'x AND y', '50%', '{}', 'a\tb', '#1',
          '--', 'é', ' or ', '(', '`', '{x}', '', '%s', ';',
          'a" == \'b', '"', 'c\\d == e', '" OR "', "'=='"]


def f_labels(rng, rec):
  """Filters that compare with unusual string labels."""
  df = gen.table(rng, n=rng.choice([16, 24, 36]), sql=True, index='any')
  labels = rng.sample(LABELS, 3)
  df['g'] = [rng.choice(labels) for _ in range(len(df))]
  def f():
    c = ['cmp', 'g', rng.choice(['==', '!=']), rng.choice(labels)]
    if rng.random() < .4:
      return [rng.choice(['and', 'or']), c, gen.filt(rng, 0, ['i', 'f'])]
    return ['not', c] if rng.random() < .2 else c
  s = tree(rng, 0, 'robust')
  spots = [lf for lf, _, _ in sqlx.leaves(s)] + [s]
  for o in spots:
    if rng.random() < .5:
      o['where'] = [f()]
  split = gen.split(rng, sqlx.SPLITS)
  make_fed(s, df, split, rng)
  judge(rng, rec, s, df, 'T', df, split, 'labels')


GAPPY = ('Mean', 'WMean', 'Max', 'Min', 'Quantile', 'WQuantile', 'Nth')


def f_gaps(rng, rec):
  """Metrics that have no data in some of the slices next to others that do."""
  df = gen.table(rng, n=rng.choice([8, 12, 16, 24]), sql=True, index='any',
                 group_vals=3)
  def leaf():
    for _ in range(60):
      s = value_leaf(rng, 0, 'rich')
      if s['k'] in GAPPY and not isinstance(s.get('quantile'), list):
        break
    else:
      s = {'k': 'Max', 'var': rng.choice(COLS)}
    if rng.random() < .75:
      s['where'] = [gen.filt(rng, 1, sql=True)]
    return s
  def member():
    s = leaf()
    if rng.random() < .3:
      s = {'k': 'bin', 'op': rng.choice('+-*'), 'a': s,
           'b': leaf() if rng.random() < .6 else rng.choice([2, .5]),
           'where': gen.wheres(rng, .2)}
    return s
  s = {'k': 'list', 'ch': gen.dedup([member() for _ in range(rng.choice([2, 3, 3, 4]))]),
       'where': gen.wheres(rng, .2)}
  names = [gen.build(c).name for c in s['ch']]
  if len(set(names)) < len(names):
    for i, c in enumerate(s['ch']):
      c['name'] = 'm%d' % i
  if rng.random() < .2:
    s = {'k': 'bin', 'op': rng.choice('+*'), 'a': s, 'b': leaf(), 'where': []}
  split = gen.split(rng, sqlx.SPLITS)
  gaps = not sqlx.fed(s, df, split)
  judge(rng, rec, s, df, 'T', df, split, 'gaps', ignore_missing_rows=True)
  rec.add('trees_with_gaps', gaps)


FAMILIES = [('tree', 6, f_tree), ('gaps', 2, f_gaps), ('exprs', 2, f_exprs), ('quoted', 1, f_quoted),
            ('names', 2, f_names), ('labels', 1, f_labels)]


def compare(mem_metric, sql_metric, df, split, what, mech):
  run = sqlx.Run(df, 1)
  res = sqlx.call(lambda: sql_metric.compute_on_sql('T', split, run.execute),
                  what, {}, run, mech)
  sqlx.check(mem_metric.compute_on(df, split), res, what, {}, run, mech)


SMALL = pd.DataFrame({'x': [1., 2., 4., math.nan], 'y': [2., math.nan, 5., 9.],
                      'g': ['a', 'a', 'a', 'b'], 'i': [1, 2, 1, 2]})


def finding_twice(rec):
  """Listed finding: one value under two names."""
  m = lambda: M.MetricList([M.Sum('x', 'foo'), M.Sum('x', 'bar')])
  compare(m(), m(), SMALL, None, 'a list with one value under two names',
          'sql-same-member-twice')


def finding_count(rec):
  """Listed finding: a count of nothing in one slice."""
  m = lambda: M.MetricList([M.Sum('i'), M.Count('i', where='i > 2 or g == "a"')])
  compare(m(), m(), SMALL, 'g', 'a count whose filter empties a slice',
          'sql-count-of-nothing')


def finding_sum(rec):
  """Listed finding: a sum over missing values only."""
  compare(M.Sum('x'), M.Sum('x'), SMALL, 'g', 'a sum of missing values only',
          'sql-sum-of-nothing')


def finding_cov(rec):
  """Listed finding: Cov of partly missing pairs."""
  compare(M.Cov('x', 'y'), M.Cov('x', 'y'), SMALL, None,
          'a covariance of partly missing pairs', 'sql-cov-partial-pairs')


def finding_null(rec):
  """Listed finding: rows whose dimension is missing."""
  df = pd.DataFrame({'g': ['a', None, 'b', None], 'x': [1., 2., 3., 4.]})
  compare(M.Sum('x'), M.Sum('x'), df, 'g', 'rows without a dimension value',
          'sql-missing-dimension')


FINDINGS = {'sql-missing-dimension': finding_null,
            'sql-same-member-twice': finding_twice,
            'sql-count-of-nothing': finding_count,
            'sql-sum-of-nothing': finding_sum,
            'sql-cov-partial-pairs': finding_cov}
