"""C26: rewriting metrics in terms of sums and counts preserves the values."""
import copy
import math

import numpy as np
import pandas as pd

from mon import cmpx, gen, sqlx
from mon.cmpx import run
from mon.core import Skip, Violation
from mon.props import c20

from meterstick import metrics as M
from meterstick import operations as O
from meterstick import utils as U

RULE = ('one random metric tree (leaves of every kind, arithmetic, lists, '
        'operations, jackknife, models, user-defined metrics with helper '
        'columns) on a random table with hostile column names and missing '
        'values; the rewritten tree on the extended table is compared with the '
        'original one on the original table, and the inputs with snapshots; '
        'distinct = (spec, grouping, table shape)')
ASSUMPTIONS = [
    'covariances of partially missing pairs are left out (finding of C14)',
    'values close to zero are compared absolutely (moments cancel)',
    'pushing filters to the leaves is only compared without resampling']
LIMITS = {'quick': (4000, 45), 'thorough': (80000, 600)}
MIN_EVENTS = {'cases': 1300, 'values': 5000, 'helper_columns': 1200,
              'pushed': 170, 'user_cases': 350, 'hostile_names': 180}

PAIRWISE = {'Cov', 'Correlation', 'WCov', 'FCov', 'WCorr'}


def table(rng, nan=None):
  if nan is None:
    nan = rng.choice([0, 0, .15])
  df = gen.table(rng, n=rng.choice([6, 12, 25, 40]), rich=rng.random() < .6,
                 nan=nan, nan_cols=('x', 'y'), index='any',
                 group_vals=rng.choice([2, 3]), dense=rng.random() < .7)
  return df, nan


def tree(rng, df, where_p, nan):
  r = rng.random()
  pool = rng.choice(['robust', 'rich', 'rich'])
  if r < .5:
    s = gen.scalar(rng, rng.choice([0, 0, 1, 2, 3]), pool, where_p)
  elif r < .65:
    s = gen.multi(rng, 1, pool=pool, where_p=where_p)
  elif r < .8:
    s = c20.op(rng, where_p)
  elif r < .85:
    s = c20.nested_spec(rng, where_p)
  elif r < .9:
    s = c20.list_spec(rng, df, where_p)
  else:
    c = gen.scalar(rng, rng.choice([0, 1]), pool, where_p)
    s = {'k': 'Jackknife', 'unit': 'u', 'child': c, 'opt': rng.random() < .5,
         'where': gen.wheres(rng, where_p)}
  if nan and gen.kinds_in(s) & PAIRWISE:
    raise Skip('pairs with partially missing values')
  return s


HOSTILE = ['x y', 'a(b)', 'x + y', 'x * y', '(x * y)', 'x-y', '`q`', 'sum(x)',
           'meterstick_tmp:(x * y)', 'meterstick_tmp:x', 'lambda', '2', 'POWER',
           'über', 'x.y', '_x', 'X']


def rename(rng, s, df):
  """Hostile names for the measures."""
  names = rng.sample(HOSTILE, 4)
  m = dict(zip(['x', 'y', 'w', 'f'], names))
  df = df.rename(columns=m)
  def walk(o):
    if isinstance(o, list):
      return [walk(v) for v in o]
    if isinstance(o, dict):
      out = {k: (m.get(v, v) if k in ('var', 'var2', 'weight', 'fweight') and
                 isinstance(v, str) else walk(v)) for k, v in o.items()}
      if o.get('k') in ('WMean', 'WVariance', 'WSD', 'WCov', 'WCorr'):
        out.setdefault('weight', m['w'])
      if o.get('k') == 'FCov':
        out.setdefault('fweight', m['f'])
      return out
    return o
  if set(m) & set(gen.filter_cols(s)):
    return s, None
  return walk(s), df


def snapshot(m):
  """What a metric tree is, by its public attributes."""
  if not isinstance(m, M.Metric):
    return repr(m)
  skip = ('children', 'cache', 'cache_key', 'tmpl', 'computable', 'model',
          'precompute', 'compute', 'postcompute', 'compute_slices', 'final_compute')
  attrs = {}
  for k, v in sorted(vars(m).items()):
    if k in skip or callable(v) or k.startswith('_'):
      continue
    attrs[k] = repr(v) if not isinstance(v, M.Metric) else snapshot(v)
  return (type(m).__name__, m.name, tuple(sorted(attrs.items())),
          tuple(map(snapshot, m.children or ())))


def frames_equal(a, b):
  return (list(a.columns) == list(b.columns) and a.index.equals(b.index) and
          a.index.names == b.index.names and
          list(map(str, a.dtypes)) == list(map(str, b.dtypes)) and a.equals(b))


def final(m):
  """Leaves that could be rewritten further."""
  out = []
  for leaf in U.get_leaf_metrics(m):
    if isinstance(leaf, M.Metric) and leaf.get_equivalent(
        *leaf.get_auxiliary_cols()):
      out.append(type(leaf).__name__)
  return out


def tolerance(s):
  """Square roots of cancelled moments."""
  k = gen.kinds_in(s)
  if k & {'StandardDeviation', 'CV', 'WSD', 'Correlation', 'WCorr'}:
    return dict(rtol=1e-6, atol=2e-5)
  return dict(rtol=1e-8, atol=1e-7)


def unstable(s, df, split):
  """Ratios of statistics that cancel to zero cannot be compared."""
  rows = gen.rows_of(df)
  bad = {'CV', 'Correlation', 'WCorr', 'WVariance', 'WSD', 'WCov', 'FCov',
         'Variance', 'StandardDeviation', 'Cov'}
  for lf, fs, by in sqlx.leaves(s):
    if lf['k'] not in bad:
      continue
    vars_ = [lf['var']] + ([lf['var2']] if lf.get('var2') else [])
    seen = {}
    for r in rows:
      if all(gen.feval(f, r) for f in fs):
        for v in vars_:
          if r.get(v) is not None:
            seen.setdefault(tuple(r[c] for c in list(split) + by) + (v,),
                            []).append(r[v])
    for vs in seen.values():
      if len(set(vs)) < 2:
        return True
      if lf['k'] == 'CV' and abs(sum(vs)) < 1e-6 * sum(map(abs, vs)):
        return True
  return False


def judge(rng, rec, s, df, split, make):
  m = make()
  before = snapshot(m)
  keep = df.copy(deep=True)
  det = {'spec': s, 'split_by': split, 'table': gen.df_repr(df)}
  try:
    want = make().compute_on(df, list(split))
  except Exception:  # pylint: disable=broad-except
    raise Skip('the original has no value')   # other properties judge that
  res = run(lambda: U.get_fully_expanded_equivalent_metric_tree(m, df),
            'rewriting', det)
  new, ext = res
  if snapshot(m) != before:
    raise Violation('rewriting %s changes the metric' % m.name, det)
  if not frames_equal(df, keep):
    raise Violation('rewriting %s changes the table' % m.name, det)
  det['rewritten'] = repr(snapshot(new))[:2000]
  if len(ext) != len(df) or not ext.index.equals(df.index):
    raise Violation('the extended table has other rows', det)
  cols = list(df.columns)
  if not frames_equal(ext[cols] if len(set(cols)) == len(cols) else ext, keep):
    raise Violation('the extended table changes the given columns', det)
  extra = [c for c in ext.columns if c not in cols]
  if len(ext.columns) != len(cols) + len(extra):
    raise Violation('the extended table has duplicated columns', det)
  left = final(new)
  if left:
    raise Violation('%s could be rewritten further' % left, det)
  if new.name != m.name:
    raise Violation('the rewritten metric is called %r instead of %r' % (
        new.name, m.name), det)
  ext_keep = ext.copy(deep=True)
  got = run(lambda: new.compute_on(ext, list(split)), 'the rewritten metric', det)
  tol = tolerance(s)
  cmpx.check(want, got, 'rewritten %s by %s' % (m.name, split), det, **tol)
  if not frames_equal(ext, ext_keep):
    raise Violation('computing the rewritten metric changes the table', det)
  # Rewriting is repeatable, also of its own result.
  again, ext2 = U.get_fully_expanded_equivalent_metric_tree(m, df)
  if snapshot(again) != snapshot(new) or not frames_equal(ext2, ext):
    raise Violation('rewriting twice gives another metric', det)
  third, ext3 = U.get_fully_expanded_equivalent_metric_tree(new, ext)
  cmpx.check(want, run(lambda: third.compute_on(ext3, list(split)),
                       'the metric rewritten twice', det),
             'rewritten twice', det, **tol)
  # Without a table the same tree results, up to the names of helper columns.
  plain, none = U.get_fully_expanded_equivalent_metric_tree(m)
  if none is not None:
    raise Violation('a table appears', det)
  if [type(x).__name__ for x in plain.traverse()] != [
      type(x).__name__ for x in new.traverse()]:
    raise Violation('the rewritten metric depends on the table', det)
  n = cmpx.norm(want)
  rec.add('cases')
  rec.add('values', sum(v is not None for _, vs in n.rows for v in vs))
  rec.add('helper_columns', len(extra))
  if extra or snapshot(new) != before:
    rec.add('rewritten')
  for lf in U.get_leaf_metrics(m):
    rec.add('leaf_' + type(lf).__name__)
  rec.trivial = not n.rows
  return n


def f_tree(rng, rec):
  df, nan = table(rng)
  where_p = rng.choice([0, .3, .6])
  s = tree(rng, df, where_p, nan)
  split = gen.split(rng, maxn=2)
  if any(c in split for c in c20.used(s)):
    raise Skip('split by a dimension of the operation')
  if unstable(s, df, split):
    raise Skip('constant values')
  if gen.leaf_starved(s, df):
    raise Skip('a leaf without data')
  if s['k'] == 'Jackknife' and (df['u'].nunique() < 3):
    raise Skip('too few units')
  if rng.random() < .3:
    s2, df2 = rename(rng, s, df)
    if df2 is not None:
      rec.add('hostile_names')
      s, df = s2, df2
  judge(rng, rec, s, df, split, lambda: gen.build(s))
  if gen.filter_cols(s):
    rec.add('filtered')
  rec.signature(s, split, len(df))
  rec.sample = {'spec': s, 'split_by': split, 'rows': len(df)}


def f_push(rng, rec):
  """Filters pushed to the leaves select the same data."""
  df, nan = table(rng)
  s = tree(rng, df, rng.choice([.4, .7]), nan)
  if s['k'] == 'Jackknife':
    s = s['child']
  split = gen.split(rng, maxn=2)
  if any(c in split for c in c20.used(s)):
    raise Skip('split by a dimension of the operation')
  if gen.leaf_starved(s, df):
    raise Skip('a leaf without data')
  if not gen.filter_cols(s):
    raise Skip('no filter')
  det = {'spec': s, 'split_by': split, 'table': gen.df_repr(df)}
  m = gen.build(s)
  before = snapshot(m)
  try:
    want = gen.build(s).compute_on(df, list(split))
  except Exception:  # pylint: disable=broad-except
    raise Skip('the original has no value')   # other properties judge that
  new = run(lambda: U.push_filters_to_leaf(m), 'pushing filters', det)
  if snapshot(m) != before:
    raise Violation('pushing filters changes the metric', det)
  for x in new.traverse(include_self=True):
    if isinstance(x, M.Metric) and x.children and x.where:
      raise Violation('%s keeps a filter' % x.name, det)
  got = run(lambda: new.compute_on(df, list(split)), 'the pushed metric', det)
  cmpx.check(want, got, 'filters of %s pushed to its leaves' % m.name, det)
  again = U.push_filters_to_leaf(new)
  if snapshot(again) != snapshot(new):
    raise Violation('pushing filters twice changes the metric again', det)
  rec.add('pushed')
  rec.signature('push', s, split)
  rec.trivial = not cmpx.norm(want).rows


# ------------------------------------------------------ user-defined metrics


class Total(M.Metric):
  """Sum of a computed column, as a user would define it."""

  def __init__(self, expr, label, mean=False, where=None, fns=None):
    super().__init__(label, where=where, additional_fingerprint_attrs=[
        'label', 'mean'])
    self.expr = expr
    self.label = label
    self.mean = mean
    self.fns = fns or {}

  def compute_slices(self, df, split_by=None):
    col = pd.Series([value(self.expr, r) for r in rows_for(df)],
                    index=df.index, dtype=float)
    if split_by:
      g = col.groupby([df[c] for c in split_by], observed=True)
      return g.mean() if self.mean else g.sum()
    return col.mean() if self.mean else col.sum()

  def get_equivalent_without_filter(self, *auxiliary_cols):
    if self.mean:
      return M.Mean(auxiliary_cols[0])
    return M.Sum(auxiliary_cols[0])

  def get_auxiliary_cols(self):
    return (self.expr,)


def f_max(a, b):
  return np.maximum(a, b)


def f_hyp(a, b):
  return (a * a + b * b) ** .5


def rows_for(df):
  cols = list(df.columns)
  return [dict(zip(cols, r)) for r in df.itertuples(index=False, name=None)]


def value(e, row):
  if isinstance(e, str):
    return float(row[e])
  if not isinstance(e, tuple):
    return float(e)
  a, op, b = e
  x, y = value(a, row), value(b, row)
  if op is f_max:
    return max(x, y) if x == x and y == y else math.nan
  if op is f_hyp:
    return math.sqrt(x * x + y * y)
  return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
          '/': lambda: x / y, '**': lambda: x ** y}[op]()


def expr(rng, depth, cols):
  """An expression over positive columns."""
  if depth == 0 or rng.random() < .2:
    return rng.choice(cols)
  a = expr(rng, depth - 1, cols)
  op = rng.choice(['+', '-', '*', '/', '**', f_max, f_hyp, '+', '*'])
  if op == '**':
    return (a, op, rng.choice([2, 1]))
  if rng.random() < .25:
    b = rng.choice([2, .5, 3, -1, 0.25])
    if rng.random() < .5 and op not in (f_max, f_hyp, '/'):
      return (b, op, a)
    return (a, op, b)
  b = expr(rng, depth - 1, cols)
  if op == '/':
    b = rng.choice(cols)
  return (a, op, b)


def plain(e):
  if isinstance(e, tuple):
    return [plain(e[0]), getattr(e[1], '__name__', e[1]), plain(e[2])]
  return e


def f_user(rng, rec):
  """Metrics that users define through helper columns."""
  n = rng.choice([4, 9, 20])
  names = rng.sample(HOSTILE + ['w', 'f', 'p'], 3)
  rows = []
  for _ in range(n):
    r = {c: rng.choice([.25, .5, 1, 1.5, 2, 3, 4]) for c in names}
    r.update(g=rng.choice('ab'), h=rng.choice([1, 2]), u=rng.choice([1, 2, 3]))
    rows.append(r)
  df = pd.DataFrame(rows)
  if rng.random() < .3:
    df = gen.reindex(rng, df)
  exprs = []
  for _ in range(rng.choice([1, 2, 3])):
    for _ in range(20):
      e = expr(rng, rng.choice([1, 2, 2, 3]), names)
      if isinstance(e, tuple):
        exprs.append(e)
        break
  if rng.random() < .4 and exprs:
    a = expr(rng, 1, names)
    exprs.append((a, rng.choice(['*', '+']), copy.deepcopy(a)))
  fs = [gen.where_arg([['cmp', 'h', '==', 1]]) if rng.random() < .3 else None
        for _ in exprs]
  means = [rng.random() < .4 for _ in exprs]
  arith = len(exprs) > 1 and rng.random() < .4
  def make():
    ms = [Total(e, 'total %d' % i, k, w) for i, (e, k, w) in enumerate(
        zip(exprs, means, fs))]
    if len(ms) == 1:
      return ms[0]
    if arith:
      return M.MetricList([ms[0] - ms[1]] + ms[2:])
    return M.MetricList(ms)
  split = rng.choice([[], ['g'], ['g', 'h']])
  spec = {'user': [plain(e) for e in exprs], 'where': fs, 'mean': means,
          'k': 'user'}
  judge(rng, rec, spec, df, split, make)
  units = df.groupby(split)['u'].nunique().min() if split else df['u'].nunique()
  if rng.random() < .5 and not any(fs) and units > 1:
    # The jackknife makes use of the rewriting.
    det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df)}
    fast, slow = [run(lambda: O.Jackknife('u', make(), enable_optimization=o)
                      .compute_on(df, list(split)), 'jackknife', det)
                  for o in (True, False)]
    cmpx.check(slow, fast, 'jackknife of a user-defined metric', det,
               rtol=1e-7, atol=1e-7)
    rec.add('user_jackknife')
  rec.add('user_cases')
  rec.signature(spec['user'], split, fs)
  rec.sample = {'user': spec['user'], 'split_by': split}


FAMILIES = [('tree', 6, f_tree), ('push', 2, f_push), ('user', 2, f_user)]
FINDINGS = {}
