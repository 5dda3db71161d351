"""C14: the jackknife equals leave-one-unit-out recomputation on both paths."""
import math

import numpy as np
import pandas as pd

from mon import cmpx, gen
from mon.cmpx import ANY, Norm, check, run
from mon.core import Skip, Violation

from meterstick import diversity as D
from meterstick import metrics as M
from meterstick import operations as O

RULE = ('one random metric tree below a jackknife, computed with and without '
        'shortcuts; per slice the child is re-run on the rows without each '
        'occurring unit and estimate and standard error recomputed in plain '
        'Python; distinct = (spec, grouping, units, rows); trivial = no slice '
        'with two or more units')
ASSUMPTIONS = [
    'units and grouping values are never missing',
    'diversity measures of categories that filters remove completely (in the '
    'data or in a replicate) have no documented value',
    'the jackknife has at least two units; replicates in which a row has no '
    'value do not count for that row']
LIMITS = {'quick': (2500, 60), 'thorough': (30000, 700)}
MIN_EVENTS = {'se_checked': 4000, 'replicates_recomputed': 3200,
              'paths_compared': 1000, 'fast_path_cases': 850, 'filtered': 150,
              'slices_with_one_unit': 50}

FAST_LEAVES = ('Sum', 'Count', 'Mean', 'Dot', 'Variance', 'StandardDeviation',
               'CV', 'Cov', 'Correlation', 'WMean', 'WVariance', 'WSD', 'WCov',
               'FCov', 'DotN', 'WCorr')


def leaf(rng, pool, where_p):
  for _ in range(30):
    s = gen.leaf(rng, pool, where_p=where_p)
    if s['k'] in FAST_LEAVES or rng.random() < .1:
      if s.get('ddof'):
        s['ddof'] = None
      return s
  return {'k': 'Sum', 'var': 'x'}


def child_spec(rng, where_p, pool):
  r = rng.random()
  lf = lambda: leaf(rng, pool, where_p)
  if r < .25:
    return lf()
  if r < .42:
    return gen.scalar(rng, 2, pool, where_p, leaf_fn=lf)
  if r < .55:
    ch = gen.dedup([gen.scalar(rng, 1, pool, where_p, leaf_fn=lf)
                    for _ in range(rng.choice([2, 3]))])
    s = {'k': 'list', 'ch': ch}
    if rng.random() < where_p:
      s['where'] = [gen.filt(rng)]
    return s
  if r < .86:
    return gen.operation(rng, where_p=where_p)
  if r < .91:
    o = gen.operation(rng, rng.choice(gen.OPS_ADJ))
    o.update(strat=rng.choice([['s', 's2'], ['s', 's2', 'u']]),
             cov=o['cov'][:1])
    return o
  inner = gen.operation(rng, rng.choice(['Distribution', 'HHI', 'PercentChange',
                                         'AbsoluteChange']), where_p=where_p,
                        over=['s'], lists=False)
  if inner['k'] in ('PercentChange', 'AbsoluteChange'):
    inner.update(cond='cond', base='ctl', include_base=False)
    return rng.choice([
        {'k': 'Distribution', 'over': ['s'], 'child': inner},
        {'k': 'bin', 'op': rng.choice('+-'), 'a': inner,
         'b': dict(inner, k='AbsoluteChange')}])
  return {'k': rng.choice(['PercentChange', 'AbsoluteChange']), 'cond': 'cond',
          'base': 'ctl', 'child': inner, 'include_base': rng.random() < .3}


def make(rng, big, rec):
  pool = 'rich' if rng.random() < .35 else 'robust'
  n = rng.choice([10, 20, 30]) if not big else rng.choice([12, 25, 50])
  if pool == 'rich':
    n = 60
  df = gen.table(rng, n=n, rich=pool == 'rich' or rng.random() < .5,
                 dense=rng.random() < .6,
                 nan=rng.choice([0, 0, .15]),
                 nan_cols=rng.choice([('x',), ('x', 'y'), ('x', 'w')]),
                 n_units=rng.choice([2, 3, 4, 5]) if not big else
                 rng.choice([2, 4, 7]), group_vals=2, strata=2)
  where_p = rng.choice([0, 0, .3])
  child = child_spec(rng, where_p, pool)
  if rng.random() < .12:
    child = gen.swap_col(child, 's', 'u')
  if rng.random() < .05:
    child = {'k': 'Count', 'var': 'u'}
    if rng.random() < .5:
      child = {'k': 'AbsoluteChange', 'cond': 'cond', 'base': 'ctl',
               'child': child, 'include_base': rng.random() < .5}
  spec = {'k': 'Jackknife', 'unit': 'u', 'child': child,
          'where': gen.wheres(rng, where_p)}
  rec.add('user_class', 'sub' in gen.user_class(rng, spec))
  maxn = 1 if pool == 'rich' else 2
  split = gen.split(rng, cands=('g', 'b', 'c', 'h'), maxn=maxn, p0=.35)
  data = df.iloc[gen.fmask(spec['where'], df)] if spec['where'] else df
  if not len(data) or data['u'].nunique() < 2:
    raise Skip('too few units')
  if gen.leaf_starved(spec, df):
    raise Skip('a leaf without any data')
  if 'Correlation' in gen.kinds_in(child) and (
      df[['x', 'y', 'w', 'p', 'z']].isna().any(axis=None)):
    raise Skip('listed finding')
  if not gen.loo_has_baseline(spec, data, split):
    raise Skip('no replicate has a baseline')
  if split and gen.loo_sparse(spec, df, split):
    raise Skip('listed finding')
  if gen.kinds_in(child) & {'HHI', 'Entropy', 'TopK', 'Nxx'} and (
      gen.loo_sparse(spec, df, split, zero=True)):
    raise Skip('diversity of nothing')
  if gen.kinds_in(child) & {'HHI', 'Entropy', 'TopK', 'Nxx'} and split and (
      data.groupby(split, observed=True)['u'].nunique().max() < 2):
    raise Skip('listed finding')
  if rng.random() < .15:
    data = data[gen.used_cols(spec, split, data)]
    df = df[list(data.columns)]
  df2 = gen.catify(rng, df, [c for c in ('g', 'cond', 's', 's2', 'u', 'h')
                             if c not in gen.filter_cols(spec)]
                   ) if rng.random() < .25 else df
  return df2, data, spec, split


def both(spec, df, split, det, rec):
  out = []
  for opt in (True, False):
    m = gen.build(dict(spec, opt=opt))
    if opt and m.can_precompute():
      rec.add('fast_path_cases')
    out.append(cmpx.norm(run(lambda: m.compute_on(df, list(split)),
                             'compute_on with enable_optimization=%s' % opt,
                             det)))
  return out


def f_loo(rng, rec):
  df, data, spec, split = make(rng, False, rec)
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df),
         'dtypes': str(dict(df.dtypes.astype(str)))}
  ch = spec['child']
  try:
    whole = cmpx.norm(gen.build(ch).compute_on(data.reset_index(drop=True),
                                               list(split)))
  except KeyError:
    raise Skip('no baseline')
  if not whole.rows:
    raise Skip('no rows')
  want = {}
  multi_units = 0
  ucol = data['u'].tolist()
  for sl, pos in gen.cells(data, split).items():
    sl = tuple(map(cmpx.keyval, sl))
    units = sorted(set(ucol[i] for i in pos), key=str)
    if len(units) < 2:
      rec.add('slices_with_one_unit')
      reps = []
    else:
      multi_units += 1
      reps = []
      for u in units:
        keep = [i for i in pos if ucol[i] != u]
        sub = data.iloc[keep].reset_index(drop=True)
        try:
          reps.append(cmpx.norm(gen.build(ch).compute_on(sub, list(split))))
        except KeyError:
          reps.append(None)
        rec.add('replicates_recomputed')
    for k, vs in whole.rows:
      if k[:len(split)] != sl:
        continue
      ses = []
      for j in range(len(vs)):
        th = [r.d[k][j] for r in reps if r is not None and k in r.d]
        ses.append(jackknife_se([t for t in th if t is not None]))
      want[k] = (vs, ses)
  results = both(spec, df, split, det, rec)
  names = list(whole.cols)
  for opt, got in zip((True, False), results):
    det['got'] = got.dump()
    cols = [c for nm in names for c in ((nm, 'Value'), (nm, 'Jackknife SE'))]
    if got.cols != cols or got.names != whole.names:
      raise Violation('opt=%s: columns %r index %r instead of %r %r' % (
          opt, got.cols, got.names, cols, whole.names), det)
    gd = got.d
    if set(gd) != set(want) or len(gd) != len(got.rows):
      raise Violation('opt=%s: rows %r instead of %r' % (
          opt, sorted(set(gd) - set(want), key=str)[:3],
          sorted(set(want) - set(gd), key=str)[:3]), det)
    for k, (vs, ses) in want.items():
      for j in range(len(vs)):
        a, s = gd[k][2 * j], gd[k][2 * j + 1]
        if not cmpx.close(a, vs[j], 1e-7, 1e-7):
          raise Violation('opt=%s: point estimate of %r at %r is %r instead of '
                          '%r' % (opt, names[j], k, a, vs[j]), det)
        e, scale = ses[j]
        if not cmpx.close(s, e, 1e-6, 1e-6 * scale):
          raise Violation('opt=%s: standard error of %r at %r is %r instead of '
                          '%r' % (opt, names[j], k, s, e), det)
        rec.add('se_checked')
  rec.add('paths_compared')
  if gen.filter_cols(spec):
    rec.add('filtered')
  rec.add('child_' + ch['k'])
  rec.trivial = not multi_units
  rec.signature(spec, split, len(set(ucol)), len(want))
  rec.sample = {'spec': spec, 'split_by': split, 'units': len(set(ucol)),
                'rows': len(want)}


def jackknife_se(th):
  """(SE, scale) of the replicate values."""
  if any(math.isinf(t) for t in th):
    return ANY, 1
  n = len(th)
  if n < 2:
    return None, 1
  m = sum(th) / n
  return (math.sqrt((n - 1) / n * sum((t - m) ** 2 for t in th)),
          max(1, max(abs(t) for t in th)))


def f_paths(rng, rec):
  """Larger and sparser: the two paths against each other only."""
  df, data, spec, split = make(rng, True, rec)
  if rng.random() < .4:
    spec['conf'] = rng.choice([.5, .9, .95])
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df)}
  try:
    r = gen.build(spec['child']).compute_on(data.reset_index(drop=True),
                                            list(split))
    if not cmpx.norm(r).rows:
      raise Skip('no rows')
  except KeyError:
    raise Skip('no baseline')
  m = gen.build(spec)
  if not m.can_precompute():
    raise Skip('no shortcut exists')
  a, b = both(spec, df, split, det, rec)
  check(a, b, 'the shortcut changes the result', det, rtol=1e-5, atol=1e-6)
  rec.add('paths_compared')
  if gen.filter_cols(spec):
    rec.add('filtered')
  rec.signature(spec, split, len(a.rows))


def finding_sparse(rec):
  """Listed finding: a filter leaves one slice to a single unit."""
  df = pd.DataFrame({'u': [1, 2, 1, 2], 'g': ['a', 'a', 'b', 'b'],
                     'f': [1, 0, 1, 1], 'x': [1., 2., 3., 5.]})
  r = [cmpx.norm(O.Jackknife('u', M.Sum('x', where='f > 0'),
                             enable_optimization=o).compute_on(df, 'g'))
       for o in (True, False)]
  check(r[0], r[1], 'a slice left to one unit by a filter: with and without '
        'shortcut', {}, mech='loo-filter-single-unit')


def finding_pairs(rec):
  """Listed finding: Correlation of partly missing pairs."""
  df = pd.DataFrame({'u': [1, 1, 2, 2, 3, 3], 'x': [1., 2., 4., math.nan, 3., 7.],
                     'y': [2., 1., 5., 9., math.nan, 8.]})
  r = [cmpx.norm(O.Jackknife('u', M.Correlation('x', 'y'),
                             enable_optimization=o).compute_on(df))
       for o in (True, False)]
  check(r[0], r[1], 'correlation of partly missing pairs: with and without '
        'shortcut', {}, mech='corr-partial-pairs')


def finding_single(rec):
  """Listed finding: diversity when every slice has a single unit."""
  df = pd.DataFrame({'u': [1, 1, 2, 2], 'g': ['a', 'a', 'b', 'b'],
                     'c': [1, 2, 1, 2], 'x': [1., 2., 3., 5.]})
  m = lambda o: O.Jackknife('u', D.HHI('c', M.Sum('x')), enable_optimization=o)
  a = cmpx.norm(m(False).compute_on(df, 'g'))
  try:
    b = cmpx.norm(m(True).compute_on(df, 'g'))
  except ValueError as e:
    raise Violation('a diversity index with one unit per slice raised %r' % e,
                    {}, 'jk-diversity-no-replicates')
  check(a, b, 'diversity with one unit per slice', {},
        mech='jk-diversity-no-replicates')


def finding_missing(rec):
  """Listed finding: rows whose unit is missing."""
  df = pd.DataFrame({'u': ['a', None, 'b', None, 'c', 'c'],
                     'x': [1., 2., 3., 4., 9., 5.]})
  r = [cmpx.norm(O.Jackknife('u', M.Mean('x'), enable_optimization=o
                             ).compute_on(df)) for o in (True, False)]
  check(r[0], r[1], 'rows without a unit: with and without shortcut', {},
        mech='missing-units')


FINDINGS = {'missing-units': finding_missing,
            'jk-diversity-no-replicates': finding_single,
            'loo-filter-single-unit': finding_sparse,
            'corr-partial-pairs': finding_pairs}
FAMILIES = [('loo', 3, f_loo), ('paths', 2, f_paths)]
