"""C23: fitted models equal the direct fit on the aggregated data."""
import itertools
import math
import warnings

import numpy as np
import pandas as pd
from sklearn import linear_model as LM

from mon import cmpx, gen, leafref
from mon.cmpx import run
from mon.core import Skip, Violation

from meterstick import metrics as M
from meterstick import models as MD
from meterstick import operations as O

RULE = ('one random model (kind, penalty, intercept, normalisation, solver '
        'settings, y and x trees, group-by) on a random table; the rows of '
        'every slice are grouped and aggregated in plain Python and the '
        'estimator is fitted on that; distinct = (kind, settings, trees, '
        'grouping, table shape)')
ASSUMPTIONS = [
    'designs are well conditioned, and no aggregated value is missing',
    'scikit-learn estimators are trusted; least squares and ridge are also '
    'checked against normal equations']
LIMITS = {'quick': (7000, 45), 'thorough': (60000, 600)}
MIN_EVENTS = {'fits': 2300, 'coefficients': 10000, 'normalized': 500,
              'closed_form': 1600, 'logistic': 550, 'multiclass': 60,
              'combined': 300, 'called': 600, 'refits': 400}


def cell_value(s, rows):
  """Value of an arithmetic tree over leaves on plain rows."""
  if isinstance(s, (int, float)):
    return float(s)
  for f in s.get('where') or []:
    rows = [r for r in rows if gen.feval(f, r)]
  k = s['k']
  if k == 'bin':
    a, b = cell_value(s['a'], rows), cell_value(s['b'], rows)
    if a is None or b is None:
      return None
    op = s['op']
    if op == '+':
      return a + b
    if op == '-':
      return a - b
    if op == '*':
      return a * b
    if op == '/':
      return a / b if b else None
    return a ** b
  if k == 'neg':
    a = cell_value(s['a'], rows)
    return None if a is None else -a
  if k == 'Ratio':
    a = sum(r[s['var']] for r in rows)
    b = sum(r[s['var2']] for r in rows)
    return a / b if rows and b else None
  if not rows:
    return None
  v = leafref.evaluate(s, rows)[0]
  return v if isinstance(v, (int, float)) else None


def data(rng, n=None, units=None):
  n = n or rng.choice([30, 50, 80])
  nu = units or rng.choice([7, 10, 14])
  df = gen.table(rng, n=n, rich=True, n_units=nu, index='range',
                 group_vals=rng.choice([1, 2, 2]), strata=2)
  df['lab'] = [rng.randint(0, 1) if rng.random() < .6 else 0 for _ in range(n)]
  df['lab3'] = [rng.choice([0, 0, 0, 1, 1, 2]) for _ in range(n)]
  # Several rows for most units, at least one each.
  return gen.reindex(rng, df, 'any')


def trees(rng, k, where_p=0.0, pool='robust'):
  out, seen = [], set()
  while len(out) < k:
    s = gen.scalar(rng, rng.choice([0, 0, 1, 2]), pool, where_p)
    kinds = gen.kinds_in(s)
    if kinds & {'CountD', 'Variance', 'StandardDeviation'} and rng.random() < .7:
      continue
    nm = gen.build(s).name
    if nm not in seen:
      seen.add(nm)
      out.append(s)
  return out


def settings(rng, kind):
  kw = {}
  if rng.random() < .5:
    kw['fit_intercept'] = rng.random() < .5
  if kind != 'LogisticRegression' and rng.random() < .5:
    kw['normalize'] = rng.random() < .8
  if kind in ('Ridge', 'Lasso', 'ElasticNet'):
    if rng.random() < .9:
      kw['alpha'] = rng.choice([.01, .1, .5, 2., 30.])
  if kind in ('Lasso', 'ElasticNet'):
    if rng.random() < .6:
      kw['tol'] = rng.choice([1e-2, 1e-6, 1e-10])
    if rng.random() < .5:
      kw['max_iter'] = rng.choice([1, 3, 200, 100000])
    if rng.random() < .25:
      kw['positive'] = True
    if rng.random() < .2:
      kw.update(selection='random', random_state=rng.choice([0, 7]))
  if kind == 'ElasticNet' and rng.random() < .8:
    kw['l1_ratio'] = rng.choice([.1, .3, .9, 1])
  if kind == 'Ridge' and rng.random() < .3:
    kw['solver'] = rng.choice(['svd', 'cholesky', 'lsqr'])
  if kind == 'LogisticRegression':
    p = rng.choice(['l2', 'l2', None, 'l1', 'elasticnet', 'default'])
    if p != 'default':
      kw['penalty'] = p
    if p != None and rng.random() < .7:
      kw['C'] = rng.choice([.01, .1, .5, 3.])
    if p == 'l1':
      kw.update(solver=rng.choice(['liblinear', 'saga']), random_state=1)
    if p == 'elasticnet':
      kw.update(solver='saga', random_state=3, l1_ratio=rng.choice([.2, .5, 1]))
    if p in ('l2', 'default') and rng.random() < .4:
      kw['solver'] = rng.choice(['newton-cg', 'newton-cholesky', 'liblinear'])
      kw['random_state'] = 2
    if rng.random() < .4:
      kw['tol'] = rng.choice([1e-2, 1e-7])
    if rng.random() < .4:
      kw['max_iter'] = rng.choice([2, 50, 3000])
    if rng.random() < .2:
      kw['class_weight'] = 'balanced'
    if kw.get('solver') == 'liblinear' and rng.random() < .5:
      kw['intercept_scaling'] = rng.choice([.5, 4.])
  return kw


def model_spec(rng, kinds=None, where_p=.1):
  kind = rng.choice(kinds or ['LinearRegression', 'LinearRegression', 'Ridge',
                              'Lasso', 'ElasticNet'] +
                    ['LogisticRegression'] * 4)
  k = rng.choice([1, 2, 2, 3])
  ts = trees(rng, k + 1, where_p if rng.random() < .3 else 0)
  y, x = ts[0], ts[1:]
  kw = settings(rng, kind)
  if kind == 'LogisticRegression':
    multi = rng.random() < .2 and kw.get('solver') not in (
        'liblinear', 'newton-cholesky')
    y = {'k': rng.choice(['Max', 'Max', 'Min']),
         'var': 'lab3' if multi else 'lab'}
  gb = rng.choice([['u'], ['u'], ['u', 's2'], ['s2', 'u', 'b'], ['u', 'c']])
  if rng.random() < .2:
    kw['name'] = rng.choice(['my model', 'm{', 'a ~ b'][:1] + ['a ~ b'])
  s = {'k': 'Model', 'model': kind, 'y': y, 'x': x, 'gb': gb, 'kw': kw,
       'where': gen.wheres(rng, where_p)}
  return s


def slices(df, split):
  return gen.cells(df, split) if split else {(): list(range(len(df)))}


def design(s, df, split):
  """{slice: (X, y)} aggregated in plain Python."""
  pos = gen.fmask(s.get('where') or [], df)
  sub = df.iloc[pos]
  rows = gen.rows_of(sub)
  out = {}
  if not rows:
    return out
  top = slices(sub, split)
  for key, idx in top.items():
    groups = {}
    for i in idx:
      groups.setdefault(tuple(rows[i][c] for c in s['gb']), []).append(rows[i])
    X, Y = [], []
    for g in groups.values():
      Y.append(cell_value(s['y'], g))
      X.append([cell_value(x, g) for x in s['x']])
    flat = Y + list(itertools.chain(*X))
    if any(v is None or not math.isfinite(v) for v in flat):
      raise Skip('an aggregated value is missing')
    out[key] = (np.array(X, float), np.array(Y, float))
  return out


def fit(s, X, Y, need=None):
  """{coefficient: value} and whether a closed form confirmed it."""
  kind, kw = s['model'], dict(s.get('kw') or {})
  kw.pop('name', None)
  names = [gen.build(x).name for x in s['x']]
  icpt = kw.get('fit_intercept', True)
  norm = kw.pop('normalize', False) and icpt
  n, p = X.shape
  if kind == 'LinearRegression' or (kind == 'LogisticRegression'):
    if n < p + 2:
      raise Skip('too few groups')
  Xc = X - X.mean(0) if icpt else X
  sv = np.linalg.svd(Xc / np.maximum(np.sqrt((Xc**2).sum(0)), 1e-300),
                     compute_uv=False)
  if n <= p or sv[-1] < 1e-2 or (np.sqrt((Xc**2).sum(0)) < 1e-6 * (
      1 + abs(X).max(0))).any():
    raise Skip('badly conditioned')
  if (abs(X).max(0) > 1e5).any() or abs(Y).max() > 1e5:
    raise Skip('badly scaled')
  if norm:
    scale = np.sqrt((Xc**2).sum(0))
    Xf = Xc / scale
  else:
    Xf = X
  cls = getattr(LM, kind)
  if kind == 'LogisticRegression':
    if len(set(Y)) < 2:
      raise Skip('one class')
    kw.setdefault('penalty', 'l2')
    if kw['penalty'] is None:
      # Separable data have no finite fit.
      m = LM.LogisticRegression(C=1e6, max_iter=2000, fit_intercept=icpt)
      m.fit(Xf / np.maximum(abs(Xf).max(0), 1e-9), Y)
      if abs(m.coef_).max() > 60:
        raise Skip('separable')
  else:
    kw.pop('normalize', None)
  if kind == 'Ridge':
    kw.setdefault('tol', .001)  # the declared default
  m = cls(**kw)
  m.fit(Xf, Y)
  if kind in ('Lasso', 'ElasticNet', 'LogisticRegression') or 'solver' in kw:
    # Stochastic and unfinished solvers depend on the order of the rows.
    for perm in (np.arange(n)[::-1], np.argsort(Xf[:, 0], kind='stable')):
      m2 = cls(**kw)
      m2.fit(Xf[perm], Y[perm])
      if not np.allclose(m2.coef_, m.coef_, rtol=1e-6, atol=1e-7 * (
          1e-3 + abs(m.coef_).max())) or not np.allclose(
              m2.intercept_, m.intercept_, rtol=1e-6, atol=1e-8):
        raise Skip('depends on the order of the rows')
  closed = False
  if kind == 'LogisticRegression':
    coef, it = m.coef_, np.ravel(m.intercept_)
    out = {}
    if len(m.classes_) == 2:
      if icpt:
        out['intercept'] = it[0]
      out.update(zip(names, coef[0]))
    else:
      for i, c in enumerate(m.classes_):
        c = int(c)
        if icpt:
          out['intercept for class %s' % c] = it[i]
        out.update({'%s for class %s' % (nm, c): v
                    for nm, v in zip(names, coef[i])})
    return out, closed
  coef = np.array(m.coef_, float)
  if kind in ('LinearRegression', 'Ridge') and kw.get('solver') != 'lsqr':
    a = kw.get('alpha', 1) if kind == 'Ridge' else 0
    Yc = Y - Y.mean() if icpt else Y
    Z = Xf - Xf.mean(0) if icpt else Xf
    mine = np.linalg.solve(Z.T @ Z + a * np.eye(p), Z.T @ Yc)
    if not np.allclose(mine, coef, rtol=1e-5, atol=1e-7 * (1 + abs(mine).max())):
      raise Skip('the estimator itself is inaccurate')
    coef = mine
    closed = True
  if norm:
    coef = coef / scale
  out = {}
  if icpt:
    out['intercept'] = Y.mean() - X.mean(0) @ coef
  out.update(zip(names, coef))
  return out, closed


def title(s):
  nm = (s.get('kw') or {}).get('name')
  if nm:
    return nm
  short = {'LinearRegression': 'OLS'}.get(s['model'], s['model'])
  return '%s(%s ~ %s)' % (short, gen.build(s['y']).name, ' + '.join(
      gen.build(x).name for x in s['x']))


def clean(name):
  return name[:-2] if name.endswith('.0') else name


def expected(s, df, split, rec):
  out, closed = {}, 0
  for key, (X, Y) in design(s, df, split).items():
    key = tuple(cmpx.keyval(k) for k in key)
    out[key], c = fit(s, X, Y)
    closed += c
  if not out:
    raise Skip('no slice')
  rec.add('closed_form', closed)
  return out


def compare(res, want, s, what, det, rec, rtol=1e-5, kind='coefficients'):
  """want: {slice: {coefficient: value}}."""
  n = cmpx.norm(res)
  got = {}
  pre = '%s Coefficient: ' % title(s)
  for c in n.cols:
    if not isinstance(c, str) or not c.startswith(pre):
      raise Violation('%s: column %r, not %r…' % (what, c, pre), det)
  cols = [clean(c[len(pre):]) for c in n.cols]
  if len(set(cols)) != len(cols):
    raise Violation('%s: duplicated columns %r' % (what, cols), det)
  got = {k: dict(zip(cols, v)) for k, v in n.rows
         if k in want or any(x is not None for x in v)}
  orders = {tuple(w) for w in want.values()}
  if len(orders) == 1 and list(list(orders)[0]) != cols:
    raise Violation('%s: columns are %r instead of %r' % (
        what, cols, list(list(orders)[0])), det)
  if set(got) != set(want):
    raise Violation('%s: slices %r instead of %r' % (
        what, sorted(map(repr, got)), sorted(map(repr, want))), det)
  for key in want:
    w = want[key]
    big = max([abs(v) for v in w.values()] + [1e-3])
    for c in set(cols) | set(w):
      a, b = w.get(c), got[key].get(c)
      if c not in got[key] and c in w:
        raise Violation('%s: no coefficient %r' % (what, c), det)
      if a is None and b is None:
        continue
      if not isinstance(b, (float, type(None))):
        raise Violation('%s: slice %r coefficient %r is %r' % (
            what, key, c, b), dict(det, result=n.dump()))
      if a is None or b is None or not math.isclose(
          a, b, rel_tol=rtol, abs_tol=rtol * .1 * big):
        raise Violation('%s: slice %r coefficient %r is %r instead of %r' % (
            what, key, c, b, a), dict(det, result=n.dump()))
      rec.add(kind)


def detail(s, df, split):
  return {'spec': s, 'split_by': split, 'table': gen.df_repr(df)}


def pick_split(rng, s):
  return gen.split(rng, [c for c in ('g', 'b', 's', 'h', 'd', 'c')
                         if c not in s['gb']], rng.choice([1, 1, 2]), p0=.35)


def quiet(fn):
  def g(*a):
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      return fn(*a)
  return g


def note(s, rec, want):
  kw = s.get('kw') or {}
  rec.add('fits', len(want))
  if kw.get('normalize') and kw.get('fit_intercept', True):
    rec.add('normalized', len(want))
  if s['model'] == 'LogisticRegression':
    rec.add('logistic', len(want))
    rec.add('multiclass', sum('class' in c for w in want.values()
                              for c in list(w)[:1]))


@quiet
def fam_fit(rng, rec):
  df = data(rng)
  s = model_spec(rng)
  split = pick_split(rng, s)
  want = expected(s, df, split, rec)
  det = detail(s, df, split)
  note(s, rec, want)
  m = gen.build(s)
  snap = df.copy()
  res = run(lambda: m.compute_on(df, split or None), 'model', det)
  compare(res, want, s, 'model', det, rec)
  if not df.equals(snap):
    raise Violation('the table was changed', det)
  rec.signature(s['model'], repr(s.get('kw')), tuple(split), repr(s['x']),
                repr(s['y']), len(df))
  rec.sample = {'spec': s, 'split_by': split, 'coefficients': {
      repr(k): {c: float(v) for c, v in w.items()}
      for k, w in want.items()}}


@quiet
def fam_reuse(rng, rec):
  """One model object fitted on several tables, groupings and orders."""
  s = model_spec(rng)
  m = gen.build(s)
  done = 0
  for i in range(rng.choice([2, 3])):
    df = data(rng)
    split = pick_split(rng, s)
    try:
      want = expected(s, df, split, rec)
    except Skip:
      continue
    det = detail(s, df, split)
    res = run(lambda: m.compute_on(df, split or None), 'model reused', det)
    compare(res, want, s, 'model reused', det, rec)
    rec.add('refits', 1 if done else 0)
    done += 1
  if not done:
    raise Skip('no design')
  rec.signature('reuse', s['model'], repr(s.get('kw')), repr(s['x']))


@quiet
def fam_call(rng, rec):
  """A model applied on a list of metrics, and x given in different forms."""
  df = data(rng)
  s = model_spec(rng, ['LinearRegression', 'Ridge', 'Lasso', 'ElasticNet'],
                 where_p=0)
  named = rng.random() < .3
  if not named:
    s['kw'].pop('name', None)
  elif 'name' not in s['kw']:
    s['kw']['name'] = 'named'
  split = pick_split(rng, s)
  want = expected(s, df, split, rec)
  det = detail(s, df, split)
  note(s, rec, want)
  cls = getattr(MD, s['model'])
  y, x = gen.build(s['y']), [gen.build(i) for i in s['x']]
  gb = s['gb'][0] if len(s['gb']) == 1 and rng.random() < .5 else list(s['gb'])
  form = rng.choice(['pipe', 'call', 'list', 'single', 'tuple'])
  kw = s['kw']
  if form == 'pipe':
    m = M.MetricList([y] + x) | cls(group_by=gb, **kw)
  elif form == 'call':
    m = cls(group_by=gb, **kw)(M.MetricList([y] + x))
  elif form == 'list':
    m = cls(y, M.MetricList(x), gb, **kw)
  elif form == 'single' and len(x) == 1:
    m = cls(y, x[0], gb, **kw)
  else:
    form = 'tuple'
    m = cls(y, tuple(x), gb, **kw)
  det['form'] = form
  what = 'model given by %s' % form
  if rng.random() < .5:
    res = run(lambda: m.compute_on(df, split or None), what, det)
  else:
    res = run(lambda: df | m.compute_on(df, split or None)
              if False else m | M.compute_on(df, split or None), what, det)
  compare(res, want, s, what, det, rec)
  rec.add('called', len(want))
  rec.signature('call', form, s['model'], repr(kw), repr(s['x']), tuple(split))


@quiet
def fam_combine(rng, rec):
  """Models inside lists, comparisons and long results."""
  df = data(rng, rng.choice([60, 90]), 8)
  s = model_spec(rng, where_p=.05)
  if s['y'].get('var') == 'lab3':
    raise Skip('different columns per slice')
  kind = rng.choice(['list', 'abs', 'pct', 'melt', 'outer_where', 'two', 'arith'])
  split = [c for c in pick_split(rng, s) if c != 'cond'][:1]
  det = detail(s, df, split)
  det['how'] = kind
  m = gen.build(s)
  pre = '%s Coefficient: ' % title(s)
  what = 'model in %s' % kind
  if kind in ('abs', 'pct'):
    if len({repr(k) for k in gen.cells(df, ['cond'])}) < 2:
      raise Skip('one condition')
    cell = expected(s, df, split + ['cond'], rec)
    want = {}
    for key, w in cell.items():
      b = cell.get(key[:-1] + ('ctl',))
      if b is None:
        raise Skip('no baseline')
      if key[-1] != 'ctl':
        if kind == 'pct' and min(abs(v) for v in b.values()) < 1e-4:
          raise Skip('zero baseline')
        want[key] = {c: (w[c] - b[c]) if kind == 'abs' else
                        (w[c] / b[c] - 1) * 100 for c in w}
    cls = O.AbsoluteChange if kind == 'abs' else O.PercentChange
    res = run(lambda: cls('cond', 'ctl', m).compute_on(df, split or None),
              what, det)
    tail = {'abs': ' Absolute Change', 'pct': ' Percent Change'}[kind]
    n = cmpx.norm(res)
    if not all(c.endswith(tail) for c in n.cols):
      raise Violation('%s: columns %r' % (what, n.cols), det)
    n = cmpx.Norm(n.names, [c[:-len(tail)] for c in n.cols], n.rows)
    order = lambda k: k
    # cmpx keeps the index order: split columns first, then the condition.
    compare(n, want, s, what, det, rec, rtol=3e-4)
  elif kind == 'arith':
    want = expected(s, df, split, rec)
    k = rng.choice([2, -.5])
    want = {key: {c: v * k for c, v in w.items()} for key, w in want.items()}
    res = run(lambda: (m * k).compute_on(df, split or None), what, det)
    n = cmpx.norm(res)
    tail = ' * %s' % k
    cols = [c for c in n.cols]
    n = cmpx.Norm(n.names, [pre + c for c in list(list(want.values())[0])]
                  if len(cols) == len(list(want.values())[0]) else cols, n.rows)
    compare(n, want, s, what, det, rec)
  elif kind == 'melt':
    want = expected(s, df, split, rec)
    res = run(lambda: m.compute_on(df, split or None, melted=True), what, det)
    flat = {}
    names = list(res.index.names)
    if names[0] != 'Metric':
      raise Violation('%s: index %r' % (what, names), det)
    for key, v in zip(res.index, res.iloc[:, 0]):
      key = key if isinstance(key, tuple) else (key,)
      flat[(tuple(cmpx.keyval(k) for k in key[1:]), clean(key[0]))] = v
    exp = {(tuple(key), pre + c): v for key, w in want.items()
           for c, v in w.items()}
    if set(flat) != set(exp):
      raise Violation('%s: rows %r instead of %r' % (
          what, sorted(map(repr, flat))[:6], sorted(map(repr, exp))[:6]), det)
    for k2 in exp:
      if not math.isclose(exp[k2], flat[k2], rel_tol=1e-5, abs_tol=1e-6 * (
          1 + abs(exp[k2]))):
        raise Violation('%s: %r is %r instead of %r' % (
            what, k2, flat[k2], exp[k2]), det)
  else:
    other = gen.scalar(rng, 1, 'robust', .1)
    wh = gen.wheres(rng, 1) if kind == 'outer_where' else []
    eff = df.iloc[gen.fmask(wh, df)] if wh else df
    want = expected(s, eff, split, rec)
    s2 = None
    if kind == 'two':
      s2 = model_spec(rng, where_p=0)
      if s2['y'].get('var') == 'lab3' or title(s2) == title(s) or any(
          c in s2['gb'] for c in split):
        raise Skip('clash')
      want2 = expected(s2, eff, split, rec)
      if set(want2) != set(want):
        raise Skip('other slices')
      ml = M.MetricList([m, gen.build(s2)])
      det['spec2'] = s2
    else:
      ml = M.MetricList([gen.build(other), m], where=gen.where_arg(wh))
      det['other'] = other
      det['outer_where'] = wh
    res = run(lambda: ml.compute_on(df, split or None), what, det)
    n = cmpx.norm(res)
    k = len(list(want.values())[0])
    at = 0 if s2 else 1
    mine = cmpx.Norm(n.names, n.cols[at:at + k],
                     [(key, v[at:at + k]) for key, v in n.rows])
    compare(mine, want, s, what, det, rec)
    if s2:
      mine = cmpx.Norm(n.names, n.cols[k:], [(key, v[k:]) for key, v in n.rows])
      compare(mine, want2, s2, what, det, rec)
    else:
      alone = gen.build(other).compute_on(eff, split or None)
      cmpx.check(alone, cmpx.Norm(n.names, n.cols[:1],
                                  [(key, v[:1]) for key, v in n.rows]),
                 'metric next to a model', det, ignore_missing_rows=True)
  rec.add('combined')
  rec.signature('combine', kind, s['model'], repr(s['kw']), tuple(split))


FAMILIES = [('fit', 10, fam_fit), ('reuse', 3, fam_reuse), ('call', 3, fam_call),
            ('combine', 4, fam_combine)]
