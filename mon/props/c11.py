"""C11: PrePost and CUPED changes equal the regression-adjusted definition."""
import math

import numpy as np

from mon import cmpx, gen
from mon.cmpx import ANY, Norm, check, run
from mon.core import Skip, Violation

RULE = ('one random PrePostChange/CUPED with 1-3 covariates, 1-3 metrics, 1-3 '
        'strata columns, several treatments and grouping columns; metric and '
        'covariates are evaluated alone on the rows of every (slice, '
        'condition, stratum) and the least-squares fits redone with numpy; '
        'distinct = (spec, grouping, rows); trivial = nothing comparable')
ASSUMPTIONS = [
    'every stratum of a condition has both the metric and the covariates '
    '(otherwise there is no documented value), and the covariates are not '
    'collinear on it']
LIMITS = {'quick': (2000, 60), 'thorough': (40000, 600)}
MIN_EVENTS = {'changes_checked': 2500, 'multi_covariate': 300,
              'multi_metric': 300, 'grouped': 500, 'multi_condition_columns': 80,
              'base_rows': 250}


def cov_leaf(rng, cols=('p', 'q', 'y', 'z')):
  r = rng.random()
  c = rng.choice(cols)
  if r < .75:
    return {'k': rng.choice(['Sum', 'Mean', 'Max', 'Sum']), 'var': c}
  if r < .9:
    return {'k': 'Ratio', 'var': c, 'var2': 'w'}
  return {'k': 'bin', 'op': rng.choice('+-*'), 'a': {'k': 'Sum', 'var': c},
          'b': rng.choice([{'k': 'Sum', 'var': 'f'}, 2])}


def f_adj(rng, rec):
  n = rng.choice([30, 60, 90])
  df = gen.table(rng, n=n, rich=True, dense=True, strata=rng.choice([3, 4]),
                 n_units=rng.choice([4, 6, 10]), group_vals=2)
  # Continuous-looking covariates.
  for c in ('p', 'q'):
    df[c] = [rng.randint(0, 512) / 64 for _ in range(n)]
  ncov = rng.choice([1, 1, 2, 2, 3])
  cov, names = [], set()
  for _ in range(20):
    c = cov_leaf(rng)
    nm = gen.build(c).name
    if nm not in names:
      names.add(nm)
      cov.append(c)
    if len(cov) == ncov:
      break
  nm_ = rng.choice([1, 1, 2, 3])
  ch = []
  for _ in range(20):
    c = rng.choice([
        {'k': rng.choice(['Sum', 'Mean', 'Min']), 'var': rng.choice('xw')},
        {'k': 'Ratio', 'var': 'x', 'var2': 'w'},
        {'k': 'Count', 'var': 'x'}, {'k': 'Sum', 'var': 'f'},
        {'k': 'bin', 'op': '-', 'a': {'k': 'Sum', 'var': 'x'},
         'b': {'k': 'Mean', 'var': 'f'}}])
    nm = gen.build(c).name
    if nm not in names:
      names.add(nm)
      ch.append(c)
    if len(ch) == nm_:
      break
  if rng.random() < .2:  # As if they only differed in their filters.
    rng.choice(ch)['name'] = gen.build(rng.choice(cov)).name
    rec.add('covariates_named_as_child')
  child = ch[0] if len(ch) == 1 and rng.random() < .7 else {'k': 'list', 'ch': ch}
  conds = rng.choice([['cond']] * 4 + [['cond', 's2'], ['s2']])
  base = {'cond': 'ctl', 's2': 'p'}
  strat = rng.choice([['u']] * 4 + [['s'], ['s', 'b'], ['u', 's']])
  split = gen.split(rng, cands=('g', 'h', 'c', 'b'), maxn=2, p0=.4)
  split = [c for c in split if c not in strat]
  kind = rng.choice(['PrePost', 'CUPED'])
  spec = {'k': kind, 'cond': conds, 'cov': cov, 'child': child, 'strat': strat,
          'base': tuple(base[c] for c in conds) if len(conds) > 1 else
          base[conds[0]], 'where': [gen.filt(rng)] if rng.random() < .15 else []}
  if rng.random() < .12:
    (ch if rng.random() < .5 else cov)[0]['where'] = [gen.filt(rng)]
  inc = rng.random() < .3
  m = build(spec, inc, rng)
  data = df.iloc[gen.fmask(spec['where'], df)] if spec['where'] else df
  df2 = gen.catify(rng, df, [c for c in ('g', 'cond', 's', 's2', 'u', 'h')
                             if c not in gen.filter_cols(spec)]
                   ) if rng.random() < .3 else df
  det = {'spec': spec, 'include_base': inc, 'split_by': split,
         'table': gen.df_repr(df2, 100)}
  key = tuple(base[c] for c in conds)
  ns, nc = len(split), len(conds)
  want = {}
  names = None
  missing_any = False
  for sl, pos in gen.cells(data, split).items():
    sl = tuple(map(cmpx.keyval, sl))
    sub = data.iloc[pos].reset_index(drop=True)
    cells = {}
    bad = False
    for k2, pos2 in gen.cells(sub, conds + strat).items():
      k2 = tuple(map(cmpx.keyval, k2))
      part = sub.iloc[pos2].reset_index(drop=True)
      y = cmpx.norm(gen.build(child).compute_on(part))
      x = [cmpx.norm(gen.build(c).compute_on(part)).rows[0][1][0] for c in cov]
      names = y.cols
      vals = list(y.rows[0][1]) + x
      if any(v is None or math.isinf(v) for v in vals):
        bad = True
      for f in [q.get('where') for q in ch + cov]:
        if f and not gen.fmask(f, part):
          bad = True
      cells.setdefault(k2[:nc], []).append(vals)
    if bad:
      missing_any = True
    want[sl] = None if bad else cells
  if names is None:
    raise Skip('empty')
  if missing_any and ncov > 1:
    raise Skip('incomplete strata')
  if not any(c and key in c for c in want.values()):
    raise Skip('no baseline')
  got = cmpx.norm(run(lambda: m.compute_on(df2, list(split)), 'compute_on', det))
  det['got'] = got.dump()
  t = '%s PrePost Percent Change' if kind == 'PrePost' else '%s CUPED Change'
  if got.cols != [t % c for c in names]:
    raise Violation('columns %r instead of %r' % (
        got.cols, [t % c for c in names]), det)
  if got.names != split + conds:
    raise Violation('index %r instead of %r' % (got.names, split + conds), det)
  gd = got.d
  if len(gd) != len(got.rows):
    raise Violation('duplicated rows', det)
  ok_keys = set()
  checked = 0
  for sl, cells in want.items():
    if cells is None:
      ok_keys |= {k for k in gd if k[:ns] == sl}
      continue
    exp = adjust(kind, cells, key, len(names), ncov)
    for c in cells:
      if c == key and not inc:
        continue
      k = sl + c
      ok_keys.add(k)
      if k not in gd:
        raise Violation('no row for %r' % (k,), det)
      for j, (e, tol) in enumerate(exp[c]):
        if e is ANY:
          rec.add('undetermined')
          continue
        if not cmpx.close(gd[k][j], e, tol, tol):
          raise Violation('%s of %r at %r is %r instead of %r' % (
              kind, names[j], k, gd[k][j], e), det)
        checked += 1
        rec.add('changes_checked')
        if e is None:
          rec.add('without_baseline')
      if c == key:
        rec.add('base_rows')
  if set(gd) - ok_keys:
    raise Violation('rows that should not exist: %r' % (
        sorted(set(gd) - ok_keys, key=str)[:4]), det)
  rec.trivial = not checked
  rec.add('kind_' + kind)
  for nme, cnd in (('multi_covariate', ncov > 1), ('multi_metric', len(ch) > 1),
                   ('grouped', split), ('multi_condition_columns', nc > 1),
                   ('multi_strata_columns', len(strat) > 1)):
    if cnd:
      rec.add(nme)
  rec.signature(spec, inc, split, len(gd))
  rec.sample = {'spec': spec, 'split_by': split, 'rows': len(gd)}


def build(spec, inc, rng):
  from meterstick import operations as O
  cls = O.PrePostChange if spec['k'] == 'PrePost' else O.CUPED
  cov = [gen.build(c) for c in spec['cov']]
  cond, strat = list(spec['cond']), list(spec['strat'])
  args = (cond if len(cond) > 1 or rng.random() < .5 else cond[0], spec['base'])
  strat = strat if len(strat) > 1 or rng.random() < .5 else strat[0]
  w = gen.where_arg(spec['where'])
  return cls(*args, gen.build(spec['child']), cov, strat, include_base=inc,
             where=w)


def adjust(kind, cells, key, ny, nx):
  """{condition: [(expected, tolerance)]}."""
  everything = np.array([r for rs in cells.values() for r in rs], dtype=float)
  center = everything[:, ny:].mean(axis=0)

  def fit(rows, j):
    """intercept, slopes, cond or None when not determined."""
    a = np.asarray(rows, dtype=float)
    x = a[:, ny:] - center
    if len(a) < nx + 1:
      return None
    xc = x - x.mean(axis=0)
    sc = np.linalg.svd(xc, compute_uv=False)
    if sc[-1] < 1e-3 * max(1, sc[0]):
      return None
    co, *_ = np.linalg.lstsq(xc, a[:, j] - a[:, j].mean(), rcond=None)
    return a[:, j].mean() - x.mean(axis=0) @ co, co, sc[0] / sc[-1]

  out = {}
  if kind == 'PrePost':
    adj = {c: [fit(rs, j) for j in range(ny)] for c, rs in cells.items()}
    for c in cells:
      res = []
      for j in range(ny):
        if key not in cells:
          res.append((None, 0))
          continue
        t, b = adj[c][j], adj[key][j]
        if t is None or b is None:
          res.append((ANY, 0))
          continue
        scale = np.abs(everything[:, j]).max() * (1 + np.abs(t[1]).max() +
                                                  np.abs(b[1]).max())
        if abs(b[0]) < 1e-3 * max(scale, 1e-9):
          res.append((ANY, 0))
          continue
        res.append(((t[0] / b[0] - 1) * 100,
                    1e-8 * max(t[2], b[2]) * max(1, scale / abs(b[0]))))
      out[c] = res
    return out
  th = [fit(everything, j) for j in range(ny)]
  for c in cells:
    res = []
    for j in range(ny):
      if key not in cells:
        res.append((None, 0))
        continue
      if th[j] is None:
        res.append((ANY, 0))
        continue
      val = {}
      for q in (c, key):
        a = np.asarray(cells[q], dtype=float)
        val[q] = a[:, j].mean() - a[:, ny:].mean(axis=0) @ th[j][1]
      scale = 1 + np.abs(everything).max() * (1 + np.abs(th[j][1]).max())
      res.append((val[c] - val[key], 1e-9 * th[j][2] * scale))
    out[c] = res
  return out


FAMILIES = [('adj', 1, f_adj)]
