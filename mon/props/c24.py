"""C24: models solved from sufficient statistics in SQL equal the fit."""
import contextlib
import io
import math

import numpy as np
import pandas as pd
from sklearn import linear_model as LM

from mon import cmpx, gen, sqlx
from mon.cmpx import run
from mon.core import Skip, Violation
from mon.props import c23

from meterstick import metrics as M
from meterstick import models as MD
from meterstick import operations as O

RULE = ('one random model (kind, penalty, intercept, normalisation, y and x '
        'trees, group-by, filters) on a random table held by the BigQuery '
        'interpreter, with rows returned in random order; the coefficients '
        'from every execution mode are compared with an estimator fitted in '
        'Python on the table aggregated in plain Python (for penalised '
        'logistic fits, their objective values are compared too); distinct = '
        '(kind, settings, trees, grouping, mode, table shape)')
ASSUMPTIONS = [
    'designs are well conditioned and of moderate scale, solvers are given '
    'tight tolerances and many iterations',
    'every cell of the grouped table has data for every metric',
    'the interpreter implements the BigQuery dialect']
LIMITS = {'quick': (1800, 55), 'thorough': (30000, 800)}
MIN_EVENTS = {'coefficients': 1600, 'fits_magic': 500, 'fits_sql': 60,
              'fits_mixed': 60, 'ridge_magic': 100, 'normalized': 120,
              'linearregression_magic': 100, 'lasso_magic': 90,
              'elasticnet_magic': 80, 'logisticregression_magic': 90,
              'objectives': 110, 'wrapped': 60}


def table(rng, kind, units=None):
  n = rng.choice([30, 40, 60])
  df = gen.table(rng, n=n, rich=True, n_units=units or rng.choice([8, 11, 14]),
                 index='range', group_vals=rng.choice([1, 2, 2]), strata=2,
                 sql=True)
  if kind == 'LogisticRegression':
    for c in 'xyz':
      df[c] /= 8
  df['lab'] = [rng.randint(0, 1) if rng.random() < .6 else 0 for _ in range(n)]
  df['lab3'] = [rng.choice([0, 0, 0, 1, 1, 2]) for _ in range(n)]
  if rng.random() < .25:
    new = rng.sample(LABELS, 3)
    old = list(df['g'].unique())
    df['g'] = [new[old.index(v) % 3] for v in df['g']]
  return gen.reindex(rng, df, 'any')


LABELS = ["it's", 'a"b', 'a b', 'x & y', 'a=b', '100%', 'é', 'a\\b', '{}', '`']


def settings(rng, kind, mode):
  kw = {}
  if rng.random() < .5:
    kw['fit_intercept'] = rng.random() < .4
  if kind != 'LogisticRegression' and rng.random() < .5:
    kw['normalize'] = rng.random() < .8
  if kind in ('Ridge', 'Lasso', 'ElasticNet') and rng.random() < .9:
    kw['alpha'] = rng.choice([.01, .1, .5, 2., 30.])
  if kind in ('Lasso', 'ElasticNet'):
    kw.update(tol=1e-13, max_iter=200000)
    if rng.random() < .2:
      kw['positive'] = True
  if kind == 'ElasticNet' and rng.random() < .8:
    kw['l1_ratio'] = rng.choice([.1, .3, .9, 1])
  if kind == 'LogisticRegression':
    p = rng.choice(['l2', 'l2', 'default', None, 'l1', 'elasticnet'])
    if p != 'default':
      kw['penalty'] = p
    if p is not None and rng.random() < .7:
      kw['C'] = rng.choice([.05, .2, .5, 3.])
    kw['tol'] = 1e-8
    kw['max_iter'] = 2000
    if p in ('l1', 'elasticnet'):
      kw.update(solver='saga', random_state=1, tol=1e-6)
    elif mode == 'magic' or rng.random() < .5:
      kw['solver'] = rng.choice(['newton-cholesky', 'newton-cg', 'lbfgs'])
    if p == 'elasticnet':
      kw['l1_ratio'] = rng.choice([.2, .5, 1])
  if rng.random() < .15:
    kw['name'] = rng.choice(['my model', 'm-1', 'a ~ b'])
  return kw


def logit_trees(rng, k):
  out, seen = [], set()
  while len(out) < k:
    s = rng.choice([
        lambda: {'k': rng.choice(['Mean', 'Max', 'Min', 'Mean']),
                 'var': rng.choice('xyz')},
        lambda: {'k': 'bin', 'op': rng.choice('+-*'), 'a': {
            'k': 'Mean', 'var': 'x'}, 'b': {'k': 'Max', 'var': 'y'}},
        lambda: {'k': 'Ratio', 'var': rng.choice('xyz'), 'var2': 'f'},
        lambda: {'k': 'neg', 'a': {'k': 'Mean', 'var': rng.choice('yz')}}])()
    nm = gen.build(s).name
    if nm not in seen:
      seen.add(nm)
      out.append(s)
  return out


def model_spec(rng, kinds, mode, where_p=.15):
  kind = rng.choice(kinds)
  k = rng.choice([1, 2, 2, 3])
  kw = settings(rng, kind, mode)
  if kind == 'LogisticRegression':
    x = logit_trees(rng, k)
    multi = mode != 'magic' and rng.random() < .2
    y = {'k': rng.choice(['Max', 'Max', 'Min']),
         'var': 'lab3' if multi else 'lab'}
  else:
    ts = c23.trees(rng, k + 1, where_p if rng.random() < .3 else 0)
    y, x = ts[0], ts[1:]
  gb = rng.choice([['u'], ['u'], ['u', 's2'], ['s2', 'u', 'b'], ['u', 'c']])
  return {'k': 'Model', 'model': kind, 'y': y, 'x': x, 'gb': gb, 'kw': kw,
          'where': gen.wheres(rng, where_p)}


def admissible(s, df, split):
  if sqlx.twice(s):
    raise Skip('one value under two names: a known finding')
  if any(c in s['gb'] for c in split):
    raise Skip('grouped twice')
  for X, Y in c23.design(s, df, split).values():
    if len(Y) < X.shape[1] + 2:
      raise Skip('too few groups')
    if s['model'] == 'LogisticRegression':
      if abs(X).max() > 8:
        raise Skip('badly scaled')
      icpt = s['kw'].get('fit_intercept', True)
      if s['kw'].get('penalty', 'l2') is None:
        m = LM.LogisticRegression(C=1e6, max_iter=2000, fit_intercept=icpt)
        if len(set(Y)) < 2:
          raise Skip('one class')
        m.fit(X, Y)
        if abs(m.coef_).max() > 4:
          raise Skip('separable')
    Z = X - X.mean(0) if s['kw'].get('fit_intercept', True) else X
    A = np.hstack([X, np.ones((len(X), 1))]) if s['kw'].get(
        'fit_intercept', True) else X
    if np.linalg.cond(A) > 3e3:
      raise Skip('badly conditioned')


def objective(s, X, Y, coef):
  """The penalised loss that the fit minimises (per the sklearn docs)."""
  kw = s['kw']
  names = [gen.build(x).name for x in s['x']]
  b = np.array([coef[n] for n in names], float)
  z = X @ b + coef.get('intercept', 0.0)
  t = np.where(Y == max(Y), 1.0, -1.0)
  loss = np.logaddexp(0, -t * z).sum()
  p = kw.get('penalty', 'l2')
  C = kw.get('C', 1.0)
  r = {'l1': 1.0, 'l2': 0.0, None: 0.0}.get(p, kw.get('l1_ratio'))
  pen = 0 if p is None else (r * abs(b).sum() + (1 - r) / 2 * (b**2).sum())
  return loss + pen / C


def coefs_of(res, s):
  n = cmpx.norm(res)
  pre = len('%s Coefficient: ' % c23.title(s))
  return {k: {c[pre:]: v for c, v in zip(n.cols, vs)} for k, vs in n.rows}


def solve(s, df, split, rec):
  want = {}
  for key, (X, Y) in c23.design(s, df, split).items():
    want[tuple(cmpx.keyval(k) for k in key)] = (X, Y)
  out = {k: c23.fit(s, X, Y)[0] for k, (X, Y) in want.items()}
  if not out:
    raise Skip('no slice')
  return out, want


def go(rng, rec, s, df, split, mode, table='T', mem=None):
  mem = df if mem is None else mem
  if not sqlx.fed(s, mem, split):
    raise Skip('a cell has no data')
  admissible(s, mem, split)
  want, designs = solve(s, mem, split, rec)
  det = {'spec': s, 'split_by': split, 'source': str(table), 'mode': mode,
         'table': gen.df_repr(df)}
  what = '%s mode %s' % (s['model'], mode)
  db = sqlx.Run(df, rng.random())
  m = gen.build(s)
  out = io.StringIO()
  def call():
    with contextlib.redirect_stdout(out):
      return m.compute_on_sql(table, list(split), db.execute, mode=mode)
  res = sqlx.call(call, what, det, db)
  det['queries'] = '\n----\n'.join(db.queries[-3:])
  det['printed'] = out.getvalue()[:300]
  penal = s['kw'].get('penalty') in ('l1', 'elasticnet')
  loose = penal and mode == 'magic'
  rec.add('unconverged', "didn't converge" in out.getvalue())
  if loose:
    # saga may stop early: a fit with a smaller loss is as good.
    got = coefs_of(res, s)
    for key in want:
      if set(got.get(key, ())) == set(want[key]) and not any(
          v is None for v in got[key].values()):
        X, Y = designs[key]
        if objective(s, X, Y, got[key]) <= objective(
            s, X, Y, want[key]) + 1e-7:
          want[key] = {c: got[key][c] for c in want[key]}
          rec.add('as_good')
  c23.compare(res, want, s, what, det, rec, rtol=2e-2 if loose else 2e-4)
  if s['model'] == 'LogisticRegression' and s['y'].get('var') == 'lab':
    for key, c in coefs_of(res, s).items():
      X, Y = designs[key]
      a, b = objective(s, X, Y, c), objective(s, X, Y, want[key])
      if a > b + 1e-4 * (1 + abs(b)):
        raise Violation('%s: the penalised loss at slice %r is %r, the '
                        'estimator reaches %r' % (what, key, a, b), det)
      rec.add('objectives')
  ref = cmpx.norm(run(lambda: gen.build(s).compute_on(mem, list(split)),
                      'compute_on', det))
  n = cmpx.norm(res)
  if ref.names != n.names:
    raise Violation('%s: index %r, in memory %r' % (what, n.names, ref.names),
                    det)
  rec.add('fits_%s' % (mode or 'sql'), len(want))
  rec.add('%s_%s' % (s['model'].lower(), mode or 'sql'), len(want))
  if s['kw'].get('normalize') and s['kw'].get('fit_intercept', True):
    rec.add('normalized', len(want))
  rec.add('queries', len(db.queries))
  rec.signature(s['model'], repr(s['kw']), tuple(split), repr(s['x']),
                repr(s['y']), mode, len(df))
  rec.sample = {'spec': s, 'split_by': split, 'mode': mode, 'coefficients': {
      repr(k): {c: float(v) for c, v in w.items()} for k, w in want.items()}}
  return res


def inputs(rng, kinds, mode):
  s = model_spec(rng, kinds, mode)
  df = table(rng, s['model'])
  split = gen.split(rng, [c for c in ('g', 'b', 's', 'h', 'd', 'c')
                          if c not in s['gb']], rng.choice([1, 1, 2]), p0=.3)
  tab, mem, _ = sqlx.source(rng, df)
  return s, df, split, tab, mem


@c23.quiet
def fam_ls(rng, rec):
  s, df, split, tab, mem = inputs(rng, ['LinearRegression', 'Ridge'], 'magic')
  go(rng, rec, s, df, split, 'magic', tab, mem)


@c23.quiet
def fam_en(rng, rec):
  s, df, split, tab, mem = inputs(rng, ['Lasso', 'ElasticNet'], 'magic')
  go(rng, rec, s, df, split, 'magic', tab, mem)


@c23.quiet
def fam_log(rng, rec):
  s, df, split, tab, mem = inputs(rng, ['LogisticRegression'], 'magic')
  go(rng, rec, s, df, split, 'magic', tab, mem)


@c23.quiet
def fam_modes(rng, rec):
  mode = rng.choice([None, 'mixed'])
  s, df, split, tab, mem = inputs(
      rng, ['LinearRegression', 'Ridge', 'Lasso', 'ElasticNet',
            'LogisticRegression'], mode)
  go(rng, rec, s, df, split, mode, tab, mem)


@c23.quiet
def fam_wrap(rng, rec):
  """Models inside other metrics, in every mode."""
  mode = rng.choice([None, 'mixed', 'magic', 'magic'])
  kinds = ['LinearRegression', 'Ridge', 'Lasso', 'ElasticNet']
  s, df, split, tab, mem = inputs(rng, kinds, mode)
  s['where'] = []
  how = rng.choice(['abs', 'list', 'two', 'arith', 'jk'])
  if s['kw'].get('positive'):
    s['kw'].pop('positive')
  split = [c for c in split if c != 'cond'][:1]
  by = split + (['cond'] if how == 'abs' else [])
  if not sqlx.fed(s, mem, by):
    raise Skip('a cell has no data')
  admissible(s, mem, by)
  want, _ = solve(s, mem, by, rec)
  other = gen.scalar(rng, 1, 'robust')
  def make():
    m = gen.build(s)
    if how == 'abs':
      return O.AbsoluteChange('cond', 'ctl', m)
    if how == 'list':
      return M.MetricList([gen.build(other), m])
    if how == 'two':
      s2 = dict(s, kw=dict(s['kw'], name='second', fit_intercept=not s[
          'kw'].get('fit_intercept', True)))
      return M.MetricList([m, gen.build(s2)])
    if how == 'jk':
      return O.Jackknife('s', m)
    return m * 2
  if how == 'abs' and any(k[:-1] + ('ctl',) not in want for k in want):
    raise Skip('no baseline')
  if how == 'two' :
    s2 = dict(s, kw=dict(s['kw'], fit_intercept=not s['kw'].get(
        'fit_intercept', True)))
    admissible(s2, mem, by)
    solve(s2, mem, by, rec)
  if how == 'jk':
    if 's' in split or 's' in s['gb']:
      raise Skip('unit used')
    for v in mem['s'].unique():
      sub = mem[mem['s'] != v]
      if not sqlx.fed(s, sub, by):
        raise Skip('a cell has no data')
      admissible(s, sub, by)
      if set(solve(s, sub, by, rec)[0]) != set(want):
        raise Skip('a slice has one unit')
  det = {'spec': s, 'split_by': split, 'source': str(tab), 'mode': mode,
         'how': how, 'other': other, 'table': gen.df_repr(df)}
  what = '%s of a %s, mode %s' % (how, s['model'], mode)
  if how == 'list' and not sqlx.fed(other, mem, split):
    raise Skip('no data')
  ref = run(lambda: make().compute_on(mem, list(split)), 'compute_on', det)
  db = sqlx.Run(df, rng.random())
  def call():
    with contextlib.redirect_stdout(io.StringIO()):
      return make().compute_on_sql(tab, list(split), db.execute, mode=mode)
  res = sqlx.call(call, what, det, db)
  big = max(abs(v) for w in want.values() for v in w.values())
  sqlx.check(ref, res, what, det, db, rtol=1e-3, atol=1e-4 * (1e-2 + big))
  rec.add('wrapped')
  rec.add('wrapped_' + how)
  rec.signature('wrap', how, mode, s['model'], repr(s['kw']), tuple(split))


FAMILIES = [('ls', 6, fam_ls), ('en', 5, fam_en), ('log', 4, fam_log),
            ('modes', 4, fam_modes), ('wrap', 3, fam_wrap)]
