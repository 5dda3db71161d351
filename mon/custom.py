"""User-defined metrics, written the ways the custom-metrics notebook shows.

A spec with an 'impl' key is built with one of these instead of the built-in
metric it is the counterpart of.
"""
import numpy as np
import pandas as pd

from mon import env, gen
env.setup()

from meterstick import metrics as M  # pylint: disable=g-import-not-at-top
from meterstick import operations as O
from meterstick import sql as S

AGG = {
    'Sum': lambda v: v.sum(),
    'Count': lambda v: v.count(),
    'Mean': lambda v: v.mean(),
    'Max': lambda v: v.max(),
    'Min': lambda v: v.min(),
}
NAMES = {'Sum': 'sum({})', 'Count': 'count({})', 'Mean': 'mean({})',
         'Max': 'max({})', 'Min': 'min({})'}
CALLS = []  # ('compute' | ..., agg, var): what user code has been asked to do.


class Compute(M.Metric):
  """No vectorization."""

  def __init__(self, agg, var, where=None, shared=False, name=None):
    self.agg = agg
    self.var = var
    super().__init__(name or NAMES[agg].format(var), where=where,
                     additional_fingerprint_attrs=['agg', 'var'])
    self.cache_across_instances = shared

  def compute(self, df):
    CALLS.append(('compute', self.agg, self.var))
    return AGG[self.agg](df[self.var])


class Slices(M.Metric):
  """With vectorization."""

  def __init__(self, agg, var, where=None, shared=False, name=None):
    self.agg = agg
    self.var = var
    super().__init__(name or NAMES[agg].format(var), where=where,
                     additional_fingerprint_attrs=['agg', 'var'])
    self.cache_across_instances = shared

  def compute_slices(self, df, split_by=None):
    CALLS.append(('compute_slices', self.agg, self.var))
    if split_by:
      return AGG[self.agg](df.groupby(split_by, observed=True)[self.var])
    return AGG[self.agg](df[self.var])


class WithSplit(M.Metric):
  """Told the slice it works on."""

  def __init__(self, agg, var, where=None, shared=False, name=None):
    self.agg = agg
    self.var = var
    super().__init__(name or NAMES[agg].format(var), where=where,
                     additional_fingerprint_attrs=['agg', 'var'])
    self.cache_across_instances = shared

  def compute_with_split_by(self, df, split_by=None, slice_value=None):
    if split_by:
      want = slice_value if isinstance(slice_value, tuple) else (slice_value,)
      for c, v in zip(split_by, want):
        if not (df[c] == v).all():
          raise AssertionError('slice %r has other rows' % (slice_value,))
    return AGG[self.agg](df[self.var])


class Pre(M.Metric):
  """Prepares its input and corrects its output."""

  def __init__(self, agg, var, where=None, shared=False, name=None):
    self.agg = agg
    self.var = var
    super().__init__(name or NAMES[agg].format(var), where=where,
                     additional_fingerprint_attrs=['agg', 'var'])
    self.cache_across_instances = shared

  def precompute(self, df, split_by):
    return df.assign(**{'prepared ' + self.var: df[self.var] * 2})

  def compute(self, df):
    return AGG[self.agg](df['prepared ' + self.var])

  def postcompute(self, res, split_by):
    return res / (1 if self.agg == 'Count' else 2)


class Through(M.Metric):
  """Replaces the whole computation."""

  def __init__(self, agg, var, where=None, shared=False, name=None):
    self.agg = agg
    self.var = var
    super().__init__(name or NAMES[agg].format(var), where=where,
                     additional_fingerprint_attrs=['agg', 'var'])
    self.cache_across_instances = shared

  def compute_through(self, df, split_by=None):
    df = df.query(self.where) if self.where else df
    if split_by:
      return AGG[self.agg](df.groupby(split_by, observed=True)[self.var])
    return AGG[self.agg](df[self.var])


class Inner(M.Metric):
  """Asks a helper on the slice it is handed."""

  def __init__(self, agg, var, where=None, shared=False, name=None):
    self.agg = agg
    self.var = var
    super().__init__(name or NAMES[agg].format(var), where=where,
                     additional_fingerprint_attrs=['agg', 'var'])
    self.cache_across_instances = shared
    self.helpers = [getattr(M, agg)(var), M.Sum(var), M.Count(var)]

  def compute(self, df):
    a, b, c = [self.compute_util_metric_on(h, df, [], return_dataframe=False)
               for h in self.helpers]
    if self.agg != 'Mean':
      return a
    return b / c


class Cut(M.Metric):
  """Splits the data its own way."""

  def __init__(self, agg, var, where=None, shared=False, name=None):
    self.agg = agg
    self.var = var
    super().__init__(name or NAMES[agg].format(var), where=where,
                     additional_fingerprint_attrs=['agg', 'var'])
    self.cache_across_instances = shared

  def split_data(self, df, split_by=None):
    for part, value in super().split_data(df, split_by):
      yield part.assign(**{'cut ' + self.var: part[self.var]}), value

  def compute(self, df):
    return AGG[self.agg](df['cut ' + self.var])


class Simple(M.SimpleMetric):
  """Delegates to the built-in one and has a query."""

  def __init__(self, agg, var, where=None, shared=False, name=None):
    self.agg = agg
    super().__init__(var, name, NAMES[agg], where,
                     additional_fingerprint_attrs=['agg', '_inner'])
    self._inner = getattr(M, agg)(var, name, where)
    self.cache_across_instances = shared

  def compute_slices(self, df, split_by=None):
    return self._inner.compute_slices(df, split_by)

  def get_sql_and_with_clause(self, table, split_by, global_filter, indexes,
                              local_filter, with_data):
    del indexes  # unused
    local_filter = S.Filters(self.where_).add(local_filter).remove(
        global_filter)
    fn = {'Mean': 'AVG'}.get(self.agg, self.agg.upper()) + '({})'
    columns = S.Column(self.var, fn, self.name, local_filter)
    return S.Sql(columns, table, global_filter, split_by), with_data


_SUBS = {}


def subclass(base):
  """A class that inherits from a built-in one, as USOnlySum does."""
  if base in _SUBS:
    return _SUBS[base]

  class Sub(base):
    keep = None
    square = False

    def precompute(self, df, split_by):
      df = super().precompute(df, split_by)
      return df.query(self.keep) if self.keep else df

    def compute_through(self, data, split_by):
      CALLS.append(('compute_through', base.__name__, self.var))
      return super().compute_through(data, split_by)

    def postcompute(self, res, split_by):
      res = super().postcompute(res, split_by)
      return res**2 if self.square else res

  Sub.__name__ = base.__name__ + 'WithTrace'
  _SUBS[base] = Sub
  return Sub


def inherit(s, where):
  """A metric of a class derived from the one of s."""
  base = gen.build({k: v for k, v in s.items() if k not in ('impl', 'where')})
  wh, keep = s.get('where') or [], None
  if s['impl'] == 'keep' and wh:
    wh, keep = wh[:-1], gen.ftext(wh[-1])
  base.__class__ = subclass(type(base))
  base.where = gen.where_arg(wh)
  base.keep = keep
  base.cache_across_instances = s.get('shared', False)
  if base.cache_across_instances:
    base.additional_fingerprint_attrs.update(['keep', 'square'])
  return base


def square(s):
  """The square of a metric by means of postcompute."""
  m = inherit(dict(s['a'], impl='sub'), None)
  m.square = True
  m.name = '%s ^ %s' % (m.name, s['b'])
  w = gen.where_arg(s.get('where'))
  if w:
    m.add_where(w)
  return m


LEAVES = {'compute': Compute, 'slices': Slices, 'split': WithSplit, 'pre': Pre,
          'through': Through, 'simple': Simple, 'inner': Inner,
          'cut': Cut}


class DistOnChildren(O.Operation):
  """Distribution with vectorization."""

  def __init__(self, over, child=None, name_tmpl='Distribution of {}', **kw):
    super().__init__(child, name_tmpl, over, **kw)
    self.cache_across_instances = True

  def compute_on_children(self, children, split_by):
    total = (children.groupby(level=split_by, observed=True).sum()
             if split_by else children.sum())
    return children / total


class DistCompute(O.Operation):
  """Distribution slice by slice."""

  def __init__(self, over, child=None, name_tmpl='Distribution of {}', **kw):
    super().__init__(child, name_tmpl, over, **kw)
    self.cache_across_instances = True

  def compute(self, slice_of_children):
    return slice_of_children / slice_of_children.sum()


class DistSlices(O.Operation):
  """Distribution that calls its child, with a query."""

  def __init__(self, over, child=None, name_tmpl='Distribution of {}', **kw):
    super().__init__(child, name_tmpl, over, **kw)
    self.cache_across_instances = True

  def compute_slices(self, df, split_by=None):
    lvls = split_by + self.extra_index if split_by else self.extra_index
    res = self.compute_child(df, lvls)
    total = (res.groupby(level=split_by, observed=True).sum() if split_by else
             res.sum())
    return res / total

  def get_sql_and_with_clause(self, table, split_by, global_filter, indexes,
                              local_filter, with_data):
    local_filter = S.Filters(self.where_).add(local_filter).remove(
        global_filter)
    child_sql, with_data = self.children[0].get_sql_and_with_clause(
        table, S.Columns(split_by).add(self.extra_split_by), global_filter,
        indexes, local_filter, with_data)
    child_table = S.Datasource(child_sql, 'DistributionRaw')
    child_table_alias = with_data.add(child_table)
    groupby = S.Columns(indexes.aliases)
    columns = S.Columns()
    for c in child_sql.columns:
      if c.alias in groupby:
        continue
      col = S.Column(c.alias) / S.Column(c.alias, 'SUM({})',
                                         partition=split_by.aliases)
      col.set_alias('Distribution of %s' % c.alias_raw)
      columns.add(col)
    return S.Sql(groupby.add(columns), child_table_alias), with_data


class DistUtil(O.Operation):
  """Distribution by means of another metric of the library."""

  def __init__(self, over, child=None, name_tmpl='Distribution of {}', **kw):
    super().__init__(child, name_tmpl, over, **kw)
    self.cache_across_instances = True

  def compute_slices(self, df, split_by=None):
    part = self.compute_child(df, split_by + self.extra_split_by)
    # The totals are distributive: every spec that uses this has such a child.
    total = self.compute_util_metric_on(self.children[0], df, split_by)
    if split_by:
      return part / total
    return part / total.iloc[0]


OPS = {'vector': DistOnChildren, 'compute': DistCompute, 'slices': DistSlices,
       'util': DistUtil}


class TDistribution(O.MetricWithCI):
  """Student's t interval over the units' values, as in the notebook."""

  def __init__(self, unit, child=None, confidence=None,
               name_tmpl='{} t-distribution', **kw):
    super().__init__(unit, child, confidence, name_tmpl, None, **kw)
    self.extra_split_by = (list(unit) if isinstance(unit, (tuple, list)) else
                           [unit])
    self.cache_across_instances = True

  def compute_children(self, df, split_by=None, melted=False,
                       return_dataframe=True, cache_key=None):
    child = super(O.MetricWithCI, self).compute_children(
        df, split_by, True, True, cache_key=cache_key)
    return [child.unstack(self.extra_split_by)]

  def compute_point_estimate(self, df, split_by):
    child = self.compute_child(df, split_by + self.extra_split_by, melted=True)
    return child.groupby(level=list(range(len(split_by) + 1))).mean()

  @staticmethod
  def get_stderrs(bucket_estimates):
    dof = bucket_estimates.count(axis=1) - 1
    return bucket_estimates.sem(axis=1), dof


class Folds(O.MetricWithCI):
  """Leaves every k-th row out, some folds several times."""

  def __init__(self, col, k, child=None, confidence=None, keyed=False,
               repeat=(), style=None, **kw):
    super().__init__(None, child, confidence, '{} Folds',
                     additional_fingerprint_attrs=['col', 'k', 'style'], **kw)
    self.col, self.k, self.keyed, self.style = col, k, keyed, style
    self.repeat = repeat
    self.cache_across_instances = True

  def get_samples(self, df, split_by=None):
    for i in list(range(self.k)) + list(self.repeat):
      yield (i if self.keyed else None), df[df[self.col] % self.k != i]

  def get_ci_width(self, stderrs, dof):
    if self.style == 'asym':
      return stderrs, 2 * stderrs
    if self.style == 'bounds':
      return stderrs * 0 - 1, dof + stderrs * 0
    return super().get_ci_width(stderrs, dof)

  def compute_ci(self, res):
    return res if self.style == 'bounds' else super().compute_ci(res)


class Regression(O.Operation):
  """y on x over the means of groups, delegating to Mean."""

  def __init__(self, x, y, grp, **kw):
    child = M.MetricList((M.Mean(x), M.Mean(y)))
    super().__init__(child, '%s ~ %s' % (y, x), grp, **kw)
    self.cache_across_instances = True

  def split_data(self, df, split_by=None):
    if not split_by:
      yield self.compute_child(df, self.extra_split_by), None
    else:
      child = self.compute_child(df, split_by + self.extra_split_by)
      keys, indices = list(zip(*child.groupby(
          split_by, observed=True).groups.items()))
      for i, idx in enumerate(indices):
        yield child.loc[idx.unique()].droplevel(split_by), keys[i]

  def compute(self, df):
    a = np.array(df.iloc[:, 0], dtype=float)
    b = np.array(df.iloc[:, 1], dtype=float)
    slope = ((a - a.mean()) * (b - b.mean())).sum() / ((a - a.mean())**2).sum()
    return pd.DataFrame([slope, b.mean() - slope * a.mean()])


class RegressionSlow(M.Metric):
  """The same without delegating."""

  def __init__(self, x, y, grp, where=None):
    self.x, self.y, self.grp = x, y, grp
    super().__init__('%s ~ %s' % (y, x), where=where,
                     additional_fingerprint_attrs=['x', 'y', 'grp'])
    self.cache_across_instances = True

  def compute(self, df):
    g = df.groupby(self.grp, observed=True)
    a = np.array(g[self.x].mean(), dtype=float)
    b = np.array(g[self.y].mean(), dtype=float)
    slope = ((a - a.mean()) * (b - b.mean())).sum() / ((a - a.mean())**2).sum()
    return pd.DataFrame([slope, b.mean() - slope * a.mean()])


def build(s, where, child, kw):
  if s['impl'] in ('sub', 'keep'):
    return inherit(s, where)
  if s['impl'] == 'square':
    return square(s)
  if s['k'] in AGG:
    if s['impl'] == 'lambda':
      fn, var = AGG[s['k']], s['var']
      m = M.Metric(kw.get('name') or NAMES[s['k']].format(var), where=where)
      m.compute = lambda df: fn(df[var])
      return m
    return LEAVES[s['impl']](s['k'], s['var'], where, s.get('shared', False),
                             kw.get('name'))
  if s['k'] == 'Distribution':
    return OPS[s['impl']](s['over'], child, where=where, **kw)
  raise ValueError(s['k'])


# Look like built-in ones that are equivalent to one another but differ.


class DotSquare(M.Dot):
  """The order of the columns matters."""

  def compute_slices(self, df, split_by=None):
    df = df.assign(**{'the dot': df[self.var]**2 * df[self.var2]})
    return self.group(df, split_by)['the dot'].sum()


class CovSquare(M.Cov):
  """The order of the columns matters."""

  def compute_slices(self, df, split_by=None):
    df = df.assign(**{'the square': df[self.var]**2})
    return M.Cov('the square', self.var2, self.bias, self.ddof).compute_slices(
        df, split_by)


class CorrSquare(M.Correlation):
  """The order of the columns matters."""

  def compute_slices(self, df, split_by=None):
    df = df.assign(**{'the square': df[self.var]**2})
    return M.Cov('the square', self.var2).compute_slices(df, split_by)


class SumSquare(M.Sum):

  def compute_slices(self, df, split_by=None):
    df = df.assign(**{'the square': df[self.var]**2})
    return self.group(df, split_by)['the square'].sum()


class CountTwice(M.Count):

  def postcompute(self, res, split_by):
    return res * 2


class MeanMax(M.Mean):

  def compute_slices(self, df, split_by=None):
    return self.group(df, split_by)[self.var].max()


class RatioInverse(M.Ratio):

  def postcompute(self, res, split_by):
    return 1 / res


class CompositeTwice(M.CompositeMetric):

  def postcompute(self, res, split_by):
    return res * 2


TWINS = {
    'mean': (lambda x, y: M.Mean(x), lambda a, b: a.mean()),
    'sum/count': (lambda x, y: M.Sum(x) / M.Count(x), lambda a, b: a.mean()),
    'ratio': (lambda x, y: M.Ratio(x, y), lambda a, b: a.sum() / b.sum()),
    'sum/sum': (lambda x, y: M.Sum(x) / M.Sum(y),
                lambda a, b: a.sum() / b.sum()),
    'dot': (lambda x, y: M.Dot(x, y), lambda a, b: (a * b).sum()),
    'cov': (lambda x, y: M.Cov(x, y), lambda a, b: np.cov(a, b)[0, 1]),
    'corr': (lambda x, y: M.Correlation(x, y),
             lambda a, b: np.corrcoef(a, b)[0, 1]),
    'sumsq/count': (lambda x, y: SumSquare(x) / M.Count(x),
                    lambda a, b: (a**2).mean()),
    'sum/count2': (lambda x, y: M.Sum(x) / CountTwice(x),
                   lambda a, b: a.mean() / 2),
    'sumsq/sum': (lambda x, y: SumSquare(x) / M.Sum(y),
                  lambda a, b: (a**2).sum() / b.sum()),
    'meanmax': (lambda x, y: MeanMax(x), lambda a, b: a.max()),
    'inverse': (lambda x, y: RatioInverse(x, y),
                lambda a, b: b.sum() / a.sum()),
    'twice': (lambda x, y: CompositeTwice(
        lambda a, b: a / b, '{} / {}', (M.Sum(x), M.Count(x))),
              lambda a, b: 2 * a.mean()),
    'dotsq': (lambda x, y: DotSquare(x, y), lambda a, b: (a**2 * b).sum()),
    'covsq': (lambda x, y: CovSquare(x, y),
              lambda a, b: np.cov(a**2, b)[0, 1]),
    'corrsq': (lambda x, y: CorrSquare(x, y),
               lambda a, b: np.cov(a**2, b)[0, 1]),
}


def twin(name, x, y, shared):
  """A metric of TWINS, its parts shared across instances or not."""
  m = TWINS[name][0](x, y)
  for c in m.traverse():
    c.cache_across_instances = shared
  return m


class Bounds:
  """User-defined intervals on top of a built-in resampling."""
  style = None

  def get_ci_width(self, stderrs, dof):
    if self.style == 'asym':
      return stderrs, 2 * stderrs
    return -3 * stderrs, stderrs

  def compute_ci(self, res):
    return res if self.style == 'bounds' else super().compute_ci(res)


class MyJackknife(Bounds, O.Jackknife):
  pass


class MyBootstrap(Bounds, O.Bootstrap):
  pass
