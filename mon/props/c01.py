"""C01: leaf aggregates against exact textbook definitions, per slice."""
import math

import numpy as np
import pandas as pd

from mon import cmpx, gen, leafref
from mon.cmpx import Norm, check, run
from mon.core import Violation

RULE = ('one random aggregate (kind, parameters, filters) computed on one '
        'random table with one random grouping; distinct = (spec, grouping '
        'columns, number of slices, container form); trivial = no rows left')
ASSUMPTIONS = [
    'weighted aggregates and covariances are driven with the measure present '
    'whenever the weight (and the paired measure) is: the library documents no '
    'rule for partially missing rows there',
    'a slice whose values or weights are all missing may be absent from a '
    'weighted quantile',
    'results of divisions by an exact zero are accepted as any value here']
LIMITS = {'quick': (20000, 50), 'thorough': (150000, 600)}
MIN_EVENTS = {'slices_checked': 3000}


def expected(s, df, split):
  pos = gen.fmask(s.get('where') or [], df)
  d2 = df.iloc[pos]
  rows = gen.rows_of(d2)
  if not split:
    return rows, [((), [cmpx.val(v) if not isinstance(v, cmpx._Any) else v
                        for v in leafref.evaluate(s, rows)])]
  out = []
  for k, p in gen.cells(d2, split).items():
    out.append((tuple(map(cmpx.keyval, k)),
                [cmpx.val(v) if not isinstance(v, cmpx._Any) else v
                 for v in leafref.evaluate(s, [rows[i] for i in p])]))
  return rows, out


def one(rng, rec, s, df, split):
  rows, exp = expected(s, df, split)
  if not rows:
    rec.trivial = True
  m = run(lambda: gen.build(s), 'building the metric', {'spec': s})
  form = rng.choice(['frame', 'frame', 'raw', 'melted', 'strsplit'])
  det = {'spec': s, 'split_by': split, 'table': gen.df_repr(df)}
  sp = split[0] if form == 'strsplit' and len(split) == 1 else (
      list(split) if split else rng.choice([None, []]))
  if not rows and split:
    return  # Nothing to group: no slices, shape unspecified.
  if s['k'] == 'WQuantile' and split and not any(
      r[s['var']] is not None and r['w'] is not None for r in rows):
    return  # No usable row at all: same.
  if form == 'raw':
    res = run(lambda: m.compute_on(df, sp, return_dataframe=False),
              'compute_on', det)
    multi = isinstance(s.get('quantile'), list) and len(s['quantile']) > 1
    if not multi:
      ok = isinstance(res, pd.Series) if split else (
          np.isscalar(res) or res is None or res is pd.NaT or
          isinstance(res, pd.Timestamp))
      if not ok:
        raise Violation('return_dataframe=False gave %s' % type(res), det)
    if not isinstance(res, (pd.Series, pd.DataFrame)):
      res = pd.DataFrame({m.name: [res]})
  elif form == 'melted':
    res = run(lambda: m.compute_on(df, sp, melted=True), 'compute_on', det)
    names = list(res.index.names)
    if names != ['Metric'] + list(split) or list(res.columns) != ['Value']:
      raise Violation('melted result has index %r columns %r' %
                      (names, list(res.columns)), det)
    wide = {}
    cols = []
    for k, v in zip(res.index, res['Value']):
      k = k if isinstance(k, tuple) else (k,)
      if k[0] not in cols:
        cols.append(k[0])
      key = tuple(map(cmpx.keyval, k[1:]))
      if k[0] in wide.setdefault(key, {}):
        raise Violation('melted result repeats %r' % (k,), det)
      wide[key][k[0]] = cmpx.val(v)
    res = Norm(list(split), cols, [(k, [d.get(c) for c in cols])
                                   for k, d in wide.items()])
  else:
    res = run(lambda: m.compute_on(df, sp), 'compute_on', det)
    if not isinstance(res, pd.DataFrame):
      raise Violation('compute_on gave %s' % type(res), det)
  got = cmpx.norm(res)
  cols = leafref.columns(s) or got.cols
  e = Norm(list(split), cols, exp)
  rec.add('slices_checked', len(exp))
  rec.add('values_any', sum(v is cmpx.ANY for _, vs in exp for v in vs))
  rec.add('values_missing', sum(v is None for _, vs in exp for v in vs))
  rec.add('kind_' + s['k'])
  rec.signature(s, split, len(exp), form)
  rec.sample = {'spec': s, 'split_by': split, 'slices': len(exp),
                'first': repr(exp[:2])}
  # One multi-column quirk: quantile vectors come back in the given order.
  check(got, e, 'aggregate differs from its definition', det,
        ignore_missing_rows=s['k'] == 'WQuantile',
        rtol=1e-7, atol=1e-7 if s['k'] in ('WSD', 'WCorr', 'WCov') else 1e-9)


def f_basic(rng, rec):
  nan = rng.choice([0, 0, .2, .5])
  df = gen.table(rng, nan=nan, nan_cols=rng.choice([('x',), ('x', 'y', 'p')]))
  k = rng.choice(['Sum', 'Count', 'CountD', 'Mean', 'Max', 'Min', 'Dot', 'DotN',
                  'Variance', 'StandardDeviation', 'CV'])
  v = rng.choice(['x', 'x', 'y', 'i', 'f'])
  s = {'k': k, 'var': v, 'where': gen.wheres(rng, .35)}
  if k in ('Count', 'CountD'):
    s['var'] = rng.choice(['x', 'y', 'g', 'd', 'c', 'b', 'i'])
  if k in ('Max', 'Min') and rng.random() < .15:
    s['var'] = 'd'
  if k in ('Dot', 'DotN'):
    s['var2'] = rng.choice(['x', 'y', 'p', 'i', 'w'])
  if k in ('Variance', 'StandardDeviation', 'CV'):
    s['unbiased'] = rng.random() < .6
  if rng.random() < .15:
    s['name'] = 'my name'
  split = gen.split(rng)
  if s['var'] in split:
    split = []
  one(rng, rec, s, df, split)


def f_weighted(rng, rec):
  df = gen.table(rng)
  wn = rng.choice([0, 0, .25])
  df['w'] = [math.nan if rng.random() < wn else w for w in df['w']]
  if rng.random() < .25:
    # The measures are missing together with the weight.
    miss = [rng.random() < .2 for _ in range(len(df))]
    for c in ('x', 'y', 'w', 'f'):
      df[c] = [math.nan if m else float(v) for v, m in zip(df[c], miss)]
  if rng.random() < .2:
    df['w'] = [0. if rng.random() < .2 else w for w in df['w']]
  k = rng.choice(['WMean', 'WVariance', 'WSD', 'WCov', 'FCov', 'WCov'])
  s = {'k': k, 'var': rng.choice(['x', 'y']), 'where': gen.wheres(rng, .3)}
  s['weight'] = rng.choice(['w', 'w', 'f'])
  if k in ('WCov', 'FCov'):
    s['var2'] = rng.choice(['x', 'y'])
    s['bias'] = rng.random() < .4
    s['ddof'] = rng.choice([None, None, 0, 1, 2])
    if k == 'FCov':
      s['fweight'] = 'f'
      del s['weight']
    elif rng.random() < .4:
      s.update(weight='w', fweight='f')
  else:
    s['unbiased'] = rng.random() < .6
  # A filter on the weight itself would drop rows with missing weights only.
  one(rng, rec, s, df, gen.split(rng))


def f_quantile(rng, rec):
  nan = rng.choice([0, 0, .2])
  df = gen.table(rng, nan=nan)
  q1 = lambda: rng.choice([0, .1, .25, .3, .5, .57, .75, .9, .99, 1])
  s = {'k': 'Quantile', 'var': rng.choice(['x', 'y']),
       'interpolation': rng.choice(
           ['linear', 'linear', 'lower', 'higher', 'midpoint', 'nearest']),
       'where': gen.wheres(rng, .25)}
  s['quantile'] = q1() if rng.random() < .5 else sorted(
      {q1() for _ in range(rng.randint(1, 3))} | {.5})
  if rng.random() < .1:
    s['name'] = 'my q'
  one(rng, rec, s, df, gen.split(rng))


def f_wquantile(rng, rec):
  df = gen.table(rng, nan=rng.choice([0, .2]))
  q1 = lambda: rng.choice([0, .1, .25, .3, .5, .57, .75, .9, .99, 1])
  s = {'k': 'WQuantile', 'var': 'x', 'where': gen.wheres(rng, .25)}
  s['quantile'] = q1() if rng.random() < .5 else sorted(
      {q1() for _ in range(rng.randint(2, 3))} | {.25, .5})
  if rng.random() < .3:
    df['w'] = [math.nan if rng.random() < .3 else w for w in df['w']]
  split = gen.split(rng)
  one(rng, rec, s, df, split)


def f_nth(rng, rec):
  df = gen.table(rng, nan=rng.choice([0, .3]))
  s = {'k': 'Nth', 'var': rng.choice(['x', 'y', 'i', 'g', 'u']),
       'n': rng.choice([0, 0, 1, 2, 3, -1, -2, 20]), 'sort_by': 't',
       'ascending': rng.random() < .6, 'dropna': rng.random() < .5,
       'where': gen.wheres(rng, .25)}
  split = gen.split(rng)
  if s['var'] in split:
    split = []
  one(rng, rec, s, df, split)


def f_corr(rng, rec):
  df = gen.table(rng, nan=rng.choice([0, .25]), nan_cols=('x', 'y'))
  if rng.random() < .7:
    s = {'k': 'Correlation', 'var': 'x', 'var2': 'y',
         'method': rng.choice(['pearson', 'pearson', 'spearman', 'kendall'])}
  else:
    df = gen.table(rng)
    s = {'k': 'WCorr', 'var': 'x', 'var2': 'y', 'weight': rng.choice('wf')}
  if rng.random() < .5:
    s['var'], s['var2'] = s['var2'], s['var']
  s['where'] = gen.wheres(rng, .25)
  one(rng, rec, s, df, gen.split(rng))


def f_cov(rng, rec):
  df = gen.table(rng)
  if rng.random() < .5:
    miss = [rng.random() < .25 for _ in range(len(df))]
    for c in ('x', 'y'):
      df[c] = [math.nan if m else v for v, m in zip(df[c], miss)]
  s = {'k': 'Cov', 'var': rng.choice('xy'), 'var2': rng.choice('xy'),
       'bias': rng.random() < .4, 'ddof': rng.choice([None, None, 0, 1, 2, 3]),
       'where': gen.wheres(rng, .25)}
  one(rng, rec, s, df, gen.split(rng))


FAMILIES = [('basic', 5, f_basic), ('weighted', 3, f_weighted),
            ('quantile', 2, f_quantile), ('wquantile', 2, f_wquantile),
            ('nth', 2, f_nth), ('corr', 2, f_corr), ('cov', 2, f_cov)]
