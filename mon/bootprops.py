"""Shared workloads of C15 (Bootstrap) and C16 (PoissonBootstrap)."""
import collections
import contextlib
import io
import math

import numpy as np
import pandas as pd
from scipy import stats

from mon import boot, cmpx, gen
from mon.cmpx import run
from mon.core import Skip, Violation

from meterstick import metrics as M
from meterstick import operations as O

LOG = []


class Recorder(M.Metric):
  """A user-defined metric that records every table it is computed on."""

  def __init__(self, tag='rec', where=None, coef=1.0):
    super().__init__(tag, where=where)
    self.tag = tag
    self.coef = coef

  def compute_slices(self, df, split_by=None):
    LOG.append((self.tag, df.copy(), list(split_by or [])))
    h = (df['x'] * self.coef + df['y'] ** 2)
    if split_by:
      return h.groupby([df[c] for c in split_by], observed=True).sum()
    return h.sum()


def quiet(fn):
  buf = io.StringIO()
  with contextlib.redirect_stdout(buf):
    r = fn()
  return r, buf.getvalue()


def make_df(rng, n, n_units, special=False):
  df = gen.table(rng, n=n, rich=rng.random() < .5, nan=rng.choice([0, 0, .1]),
                 n_units=n_units, group_vals=2, strata=2)
  return df


def rowtuples(df, cols):
  return [tuple(map(cmpx.val, r))
          for r in df[cols].itertuples(index=False, name=None)]


def f_tables(method):
  """Every table the child receives is a legal resample."""
  def fam(rng, rec):
    n = rng.choice([4, 7, 12, 20, 35])
    df = gen.table(rng, n=n, rich=rng.random() < .5, nan=rng.choice([0, 0, .1]),
                   n_units=rng.choice([2, 3, 5, 9, 14]) if n > 8 else
                   rng.choice([2, 3]), group_vals=3, strata=2)
    unit = rng.choice(['u', 'u', 'u', None])
    split = gen.split(rng, cands=('g', 'c', 'b', 'h', 'd'), maxn=2, p0=.4)
    fs = [gen.filt(rng)] if rng.random() < .25 else []
    data = df.iloc[gen.fmask(fs, df)]
    if len(data) < 3:
      raise Skip('too few rows')
    n_rep = rng.choice([1, 2, 5, 17, 40, 40])
    df2 = gen.catify(rng, df, [c for c in ('g', 'u', 'h') if c not in
                               gen.filter_cols(fs)]) if rng.random() < .3 else df
    if rng.random() < .2:
      # Units that look alike across slices but of another type.
      df2 = df2.assign(u=df2['u'].astype(str))
      data = data.assign(u=data['u'].astype(str))
    opt = rng.random() < .7
    conf = rng.choice([None, None, .9])
    det = {'table': gen.df_repr(df), 'unit': unit, 'split': split, 'where':
           gen.where_arg(fs), 'n': n_rep, 'opt': opt, 'conf': conf}
    many = rng.random() < .3
    if many:
      child = M.MetricList([Recorder('rec', coef=1.), Recorder('rec2', coef=2.)])
    else:
      child = Recorder()
    m = getattr(O, method)(unit, child, n_rep, confidence=conf,
                           enable_optimization=opt, where=gen.where_arg(fs))
    seed = rng.randint(0, 2**31 - 1)
    cols = list(df2.columns)
    results = []
    for again in range(2):
      del LOG[:]
      np.random.seed(seed)
      res, out = run(lambda: quiet(lambda: m.compute_on(df2, list(split))),
                     method, det)
      results.append(cmpx.norm(res))
      log = [(d, s) for t, d, s in LOG if t == 'rec']
    cmpx.check(results[0], results[1], 'the same random seed gives another '
               'result', det, rtol=1e-12, atol=1e-12)
    rec.add('seed_repeats')
    if 'Warning' in out:
      raise Violation('a replicate failed: %s' % out[:200], det)
    blocks = boot.blocks_of(data, split, unit)
    allrows = rowtuples(data, cols)
    for d, sp in log:
      if set(cols) - set(map(str, d.columns)):
        raise Violation('the child received a table without columns %r' % (
            sorted(set(cols) - set(map(str, d.columns)))), det)
      if list(sp) != split:
        raise Violation('the child was computed by %r instead of %r' % (
            sp, split), det)
    for d, _ in log:
      legal(rowtuples(d, cols), allrows, cols, split, unit, method, det, rec)
    n_tables = len(log)
    det['tables'] = n_tables
    if n_tables > n_rep + 1:
      raise Violation('%d tables were computed for %d replicates and the point '
                      'estimate' % (n_tables, n_rep), det)
    rec.add('tables', n_tables)
    point(results[0], data, cols, split, conf, many, det, rec)
    # Every replicate has a value for every slice, so the spread and the degrees
    # of freedom are exact when no sample was taken from cache.
    if n_tables == n_rep + 1:
      exact_spread(results[0], log, data, split, n_rep, conf, method, det, rec)
    rec.signature(method, unit, split, n_rep, n, sorted(map(len,
                                                           blocks.values())))
    rec.sample = dict(det, table='%d rows' % n)
  return fam


def h_of(d, split, coef=1.0):
  out = {}
  x, y = d['x'].tolist(), d['y'].tolist()
  for sl, pos in gen.cells(d, split).items():
    vs = [x[i] * coef + y[i] ** 2 for i in pos]
    out[tuple(map(cmpx.keyval, sl))] = math.fsum(v for v in vs if v == v)
  return out


def point(res, data, cols, split, conf, many, det, rec):
  """The point estimates are those of the unresampled table."""
  w = 3 if conf else 2
  if len(res.cols) != w * (2 if many else 1):
    raise Violation('columns %r' % res.cols, det)
  for j, coef in enumerate([1., 2.] if many else [1.]):
    want = h_of(data, split, coef)
    got = {k: v[j * w] for k, v in res.rows}
    if set(got) != set(want):
      raise Violation('slices %r instead of %r' % (list(got), list(want)), det)
    for k in want:
      if not cmpx.close(got[k], want[k]):
        raise Violation('point estimate %r at %r instead of %r' % (
            got[k], k, want[k]), det)
      rec.add('points')


def exact_spread(res, log, data, split, n_rep, conf, method, det, rec):
  whole = h_of(data, split)
  reps = [h_of(d, split) for d, _ in log]
  if not split:
    reps = [r if r else {(): 0.0} for r in reps]
  # One of the tables is the point estimate: find which choice explains the SE.
  w = 3 if conf else 2
  for k, vs in res.rows:
    ok = False
    for drop in (0, len(reps) - 1):
      if not cmpx.close(reps[drop].get(k), whole[k], 1e-9, 1e-9):
        continue
      th = [r[k] for i, r in enumerate(reps) if i != drop and k in r]
      n = len(th)
      se = float(np.std(th, ddof=1)) if n > 1 else None
      if conf:
        hw = None if se is None else se * stats.t.ppf((1 + conf) / 2, n - 1)
        lo = None if hw is None else vs[0] - hw
        hi = None if hw is None else vs[0] + hw
        ok = ok or (cmpx.close(vs[1], lo, 1e-7, 1e-7) and
                    cmpx.close(vs[2], hi, 1e-7, 1e-7))
        got = vs[1:]
        want = [lo, hi]
      else:
        ok = ok or cmpx.close(vs[1], se, 1e-7, 1e-7)
        got, want = vs[1], se
      if ok:
        break
    if not ok:
      raise Violation('at %r the spread is %r but the %d recorded replicates '
                      'have %r' % (k, got, n_rep, want), det)
    rec.add('exact_spreads')


def legal(rows, allrows, cols, split, unit, method, det, rec):
  """Each slice consists of whole units, as many as the method allows."""
  split_ix = [cols.index(c) for c in split]
  u_ix = cols.index('u')
  src = {}
  for r in allrows:
    k = tuple(r[i] for i in split_ix)
    src.setdefault(k, {}).setdefault(r[u_ix] if unit else None,
                                     collections.Counter())[r] += 1
  got = {}
  for r in rows:
    k = tuple(r[i] for i in split_ix)
    got.setdefault(k, {}).setdefault(r[u_ix] if unit else None,
                                     collections.Counter())[r] += 1
  for k in got:
    if k not in src:
      raise Violation('a resample has a slice %r that the data does not' % (k,),
                      det)
  for k, us in src.items():
    g = got.get(k, {})
    total = 0
    if unit:
      for u, c in g.items():
        if u not in us:
          raise Violation('slice %r of a resample has rows of unit %r that it '
                          'does not have in the data' % (k, u), det)
        mult = {r: c[r] / us[u][r] if us[u][r] else None for r in
                set(c) | set(us[u])}
        ms = set(mult.values())
        if len(ms) != 1 or None in ms or list(ms)[0] != int(list(ms)[0]):
          raise Violation('unit %r in slice %r comes without all of its rows or '
                          'with changed ones' % (u, k), det)
        total += int(list(ms)[0])
      want = len(us)
    else:
      for r in g.get(None, {}):
        if r not in us[None]:
          raise Violation('slice %r of a resample has a row that is not in the '
                          'data' % (k,), det)
      total = sum(g.get(None, {}).values())
      want = sum(us[None].values())
    if method == 'Bootstrap' and total != want:
      raise Violation('slice %r of a resample has %d units instead of %d' % (
          k, total, want), det)
    rec.add('resampled_slices')


def check_counts(cols, names, method, det, rec, what):
  """names: (slice, drawn thing, how many there are); cols: its draws."""
  n = len(cols[0])
  for i, (sl, u, k) in enumerate(names):
    c = cols[i]
    p = 1 / k
    var = k * p * (1 - p) if method == 'Bootstrap' else 1.0
    if k == 1 and method == 'Bootstrap':
      if (c != 1).any():
        raise Violation(what + ': the only unit is not always drawn', det)
      continue
    z = (c.mean() - 1) / math.sqrt(var / n)
    if abs(z) > 6.8:
      raise Violation(what + ': unit %r in slice %r is drawn %.3f times on average '
                      'instead of 1 (z=%.1f)' % (u, sl, c.mean(), z), det)
    if method == 'Bootstrap':
      m4 = sum(stats.binom.pmf(j, k, p) * (j - 1) ** 4 for j in range(k + 1))
    else:
      m4 = 4.0
    s2 = ((c - 1) ** 2).mean()
    tol = bern(n, m4 - var ** 2, 36)
    if abs(s2 - var) > tol:
      raise Violation(what + ': the number of draws of unit %r has variance %.3f '
                      'instead of %.3f' % (u, s2, var), det)
    p0 = (1 - p) ** k if method == 'Bootstrap' else math.exp(-1)
    f0 = (c == 0).mean()
    if abs(f0 - p0) > bern(n, p0 * (1 - p0), 1):
      raise Violation(what + ': unit %r is left out of %.3f of the resamples instead '
                      'of %.3f' % (u, f0, p0), det)
    rec.add('count_tests')
  value_tests(cols, names, method, det, rec, what)
  # Dependence between units.
  for i in range(len(names)):
    for j in range(i):
      if names[i][2] == 1 or names[j][2] == 1:
        continue
      same = names[i][0] == names[j][0]
      a, b = cols[i] - 1, cols[j] - 1
      cov = (a * b).mean()
      want = 0.0
      if method == 'Bootstrap' and same:
        want = -1.0 / names[i][2]
      tol = bern(n, 4.0 if method != 'Bootstrap' else 3.0, 36)
      if abs(cov - want) > tol:
        raise Violation(what + ': numbers of draws of %r and %r have covariance %.3f '
                        'instead of %.3f' % (names[i][:2], names[j][:2], cov,
                                             want), det)
      rec.add('pair_tests')


def value_tests(cols, names, method, det, rec, what):
  """How often each number of draws occurs, by exact binomial tails.

  Poisson draws of the things of one slice are independent and pooled; the
  multinomial ones of the Bootstrap are tested one by one.
  """
  groups = {}
  for i, (sl, u, k) in enumerate(names):
    key = (sl, u if method == 'Bootstrap' else None, k)
    groups.setdefault(key, []).append(cols[i])
  for (sl, u, k), cs in groups.items():
    c = np.concatenate(cs)
    law = stats.binom(k, 1 / k) if method == 'Bootstrap' else stats.poisson(1)
    top = min(6, k) if method == 'Bootstrap' else 6
    for j in range(top + 1):
      q = law.sf(j - 1) if j == top else law.pmf(j)
      hit = int((c >= j).sum() if j == top else (c == j).sum())
      tail = min(stats.binom.cdf(hit, len(c), q),
                 stats.binom.sf(hit - 1, len(c), q))
      if tail < 1e-12:
        raise Violation(what + ': %d of %d draws in slice %r are %d%s instead of '
                        'about %.1f' % (hit, len(c), sl, j, '+' * (j == top),
                                        q * len(c)), det)
      rec.add('value_tests')


def f_counts(method):
  """How often units are drawn follows the method's distribution."""
  def fam(rng, rec):
    n_units = rng.choice([2, 3, 5, 8])
    two = rng.random() < .6
    rows = []
    for u in range(n_units):
      for g in (['a', 'b'] if two else ['a']):
        for _ in range(rng.choice([1, 1, 2, 3])):
          rows.append(dict(u=u, g=g, x=rng.random(), y=rng.random()))
    rng.shuffle(rows)
    unit = rng.choice(['u', 'u', None])
    df = pd.DataFrame(rows)
    split = ['g'] if two and rng.random() < .8 else []
    n_rep = 400
    det = {'table': gen.df_repr(df), 'unit': unit, 'split': split, 'n': n_rep}
    m = getattr(O, method)(unit, Recorder(), n_rep, enable_optimization=False)
    del LOG[:]
    np.random.seed(rng.randint(0, 2**31 - 1))
    _, out = run(lambda: quiet(lambda: m.compute_on(df, list(split))), method, det)
    log = [d for t, d, _ in LOG][:-1]
    if len(LOG) != n_rep + 1:
      # Repeated samples come from cache: only their support can be observed.
      rec.add('cached_cases')
      raise Skip('repeated samples are cached')
    blocks = boot.blocks_of(df, split, unit)
    names = []
    for sl, bl in blocks.items():
      for pos in bl:
        names.append((sl, df['u'].iloc[pos[0]] if unit else df['x'].iloc[pos[0]],
                      len(pos), len(bl)))
    ix = {(sl, u): i for i, (sl, u, _, _) in enumerate(names)}
    cnt = np.zeros((len(log), len(names)))
    for r, d in enumerate(log):
      us = d['u'].tolist() if unit else d['x'].tolist()
      gs = d['g'].tolist()
      for u, g in zip(us, gs):
        sl = (g,) if split else ()
        cnt[r, ix[sl, u]] += 1
    cnt /= np.array([s for _, _, s, _ in names])
    check_counts(list(cnt.T), [(sl, u, k) for sl, u, _, k in names], method, det,
                 rec, method)
    rec.signature(method, unit, split, n_units, len(names))
    rec.sample = dict(det, table='%d rows' % len(df))
  return fam


SEEN = []


def watched(method):
  """The method, recording the replicates its standard errors come from."""
  cls = getattr(O, method)

  class Watched(cls):

    def get_stderrs(self, bucket_estimates):
      SEEN.append(bucket_estimates.copy())
      return cls.get_stderrs(bucket_estimates)

  return Watched


def f_digits(method):
  """The replicates tell how often each unit is drawn: a unit's sum is a power.

  Covers the shortcut on preaggregated data and the samples taken from cache.
  """
  def fam(rng, rec):
    n_units = rng.choice([2, 3, 4, 4, 6])
    unit = rng.choice(['u', 'u', 'u', None])
    two = rng.random() < .5
    parts = rng.choice([1, 1, 2, 3]) if unit else 1
    rows = []
    for g in 'ab'[:1 + two]:
      for u in range(n_units):
        for _ in range(parts):
          rows.append(dict(u='u%d' % u, g=g, x=100.0 ** u / parts))
    rng.shuffle(rows)
    df = pd.DataFrame(rows)
    split = ['g'] if two else []
    opt = rng.random() < .5
    n_rep = 400
    det = {'table': gen.df_repr(df), 'unit': unit, 'split': split, 'opt': opt,
           'n': n_rep, 'method': method}
    m = watched(method)(unit, M.Sum('x'), n_rep, enable_optimization=opt)
    del SEEN[:]
    np.random.seed(rng.randint(0, 2**31 - 1))
    run(lambda: quiet(lambda: m.compute_on(df, list(split))), method, det)
    if len(SEEN) != 1 or len(SEEN[0]) != 1 + two or SEEN[0].shape[1] > n_rep:
      raise Violation('the standard errors come from %r values' % [
          b.shape for b in SEEN], det)
    cols, names = [], []
    for sl, vs in zip(['a', 'b'], SEEN[0].to_numpy(float)):
      vs = np.where(np.isnan(vs), 0, vs)
      if SEEN[0].shape[1] < n_rep:  # Replicates without any row.
        vs = np.append(vs, np.zeros(n_rep - len(vs)))
      left = np.rint(vs).astype(object)
      if np.abs(vs - np.rint(vs)).max() > 1e-3:
        raise Violation('a replicate %r is not made of whole units' % vs[
            np.abs(vs - np.rint(vs)).argmax()], det)
      for u in range(n_units):
        cols.append(np.array([int(v) // 100**u % 100 for v in left], float))
        names.append(((sl,) if two else (), u, n_units))
      if method == 'Bootstrap':
        total = np.sum(cols[-n_units:], axis=0)
        if (total != n_units).any():
          raise Violation('a replicate has %d units instead of %d' % (
              total[total != n_units][0], n_units), det)
    check_counts(cols, names, method, det, rec,
                 '%s (replicates of %s)' % (method, 'shortcut' if opt else
                                            'resampled tables'))
    rec.add('digits_shortcut' if opt else 'digits_tables')
    rec.add('digits_cached', int(len(set(map(tuple, np.array(cols).T))) <
                                 n_rep / 2 and bool(unit) and not opt))
    rec.signature(method, 'digits', unit, split, n_units, parts, opt)
    rec.sample = dict(det, table='%d rows' % len(df))
  return fam


def bern(n, var, b):
  lo = boot.LOG_TERM * b / 3
  return (lo + math.sqrt(lo * lo + 2 * n * boot.LOG_TERM * var)) / n


def child_spec(rng, where_p, method):
  r = rng.random()
  kinds = ['Sum', 'Sum', 'Count', 'Mean', 'Max', 'Min', 'Dot', 'Variance',
           'CountD', 'StandardDeviation']
  def leaf():
    s = {'k': rng.choice(kinds), 'var': rng.choice('xyp')}
    if s['k'] == 'Dot':
      s['var2'] = 'y'
    if s['k'] in ('Variance', 'StandardDeviation'):
      s['unbiased'] = rng.random() < .5
    if rng.random() < where_p:
      s['where'] = [gen.filt(rng)]
    return s
  if r < .3:
    return leaf()
  if r < .5:
    return gen.scalar(rng, 2, 'robust', where_p, leaf_fn=leaf)
  if r < .7:
    s = {'k': 'list', 'ch': gen.dedup([gen.scalar(
        rng, 1, 'robust', where_p, leaf_fn=leaf) for _ in range(rng.choice([2, 3]))])}
    if rng.random() < where_p:
      s['where'] = [gen.filt(rng)]
    return s
  return gen.operation(rng, where_p=where_p)


def extra_cols(o):
  """All the columns the operations in a spec group by in addition."""
  if isinstance(o, (list, tuple)):
    return [c for x in o for c in extra_cols(x)]
  if not isinstance(o, dict):
    return []
  out = []
  for k in ('over', 'cond', 'strat', 'gb'):
    v = o.get(k) or []
    out += [v] if isinstance(v, str) else list(v)
  return out + [c for v in o.values() if isinstance(v, (dict, list, tuple))
                for c in extra_cols(v)]


def sparse(spec, df, split, unit):
  """Whether a filtered part of a slice can vanish from a resample."""
  rows = gen.rows_of(df)

  def leaves(o, fs):
    fs = fs + list(o.get('where') or [])
    kids = [o.get('child'), o.get('a'), o.get('b')] + list(o.get('ch') or [])
    kids = [c for c in kids if isinstance(c, dict)]
    if not kids:
      yield fs
    for c in kids:
      yield from leaves(c, fs)

  for fs in leaves(spec, []):
    if not fs:
      continue
    sl = {}
    for i, r in enumerate(rows):
      k = tuple(r[c] for c in split)
      u = r[unit] if unit else i
      d = sl.setdefault(k, {})
      d[u] = d.get(u, False) or all(gen.feval(f, r) for f in fs)
    for d in sl.values():
      if not all(d.values()):
        return True
  return False


def f_spread(method):
  """The reported error against the exact distribution over all resamples."""
  def fam(rng, rec):
    unit = rng.choice(['u', 'u', 'u', None])
    poisson = method != 'Bootstrap'
    nu = rng.choice([2, 3] if poisson else [2, 3, 4, 5])
    split = gen.split(rng, cands=('g', 'b', 'c'), maxn=1, p0=.5)
    if unit is None:
      n = nu * (2 if split else 1)
    else:
      n = rng.choice([nu * 2, nu * 4, 16])
    df = gen.table(rng, n=n, n_units=nu, rich=rng.random() < .5,
                   nan=rng.choice([0, 0, .15]), group_vals=2, strata=2,
                   dense=rng.random() < .5)
    where_p = rng.choice([0, 0, 0, .4])
    spec = child_spec(rng, where_p, method)
    m_spec = {'k': method, 'unit': unit, 'child': spec, 'n': rng.choice(
        [300, 500, 900]), 'opt': rng.random() < .6, 'where':
              gen.wheres(rng, where_p)}
    rec.add('user_class', 'sub' in gen.user_class(rng, m_spec))
    data = df.iloc[gen.fmask(m_spec['where'], df)]
    if not len(data):
      raise Skip('no rows')
    if gen.leaf_starved(m_spec, df):
      raise Skip('starved')
    if sparse(spec, data, split, unit):
      raise Skip('a filtered slice may vanish')
    if m_spec['opt'] and sparse(spec, data, split + extra_cols(spec), unit):
      raise Skip('known: preagg-filtered-slices')
    if max(map(len, boot.blocks_of(data, split, unit).values())) > (
        3 if poisson else 5):
      raise Skip('too many resamples')
    det = {'spec': m_spec, 'split': split, 'table': gen.df_repr(df)}
    # Companions that share the cache of the computation.
    mates = []
    if rng.random() < .35:
      other = rng.choice([('Jackknife', 'u'), ('Bootstrap', 'u'),
                          ('Bootstrap', None), ('PoissonBootstrap', 'u'),
                          ('PoissonBootstrap', 's2'), ('Bootstrap', 's2')])
      mates = [{'k': other[0], 'unit': other[1], 'child': spec, 'n': 30,
                'opt': m_spec['opt'], 'where': gen.wheres(rng, .3)}]
      if rng.random() < .5:
        mates[0]['where'] = m_spec['where']
    exact = boot.exact_rows(data, split, unit, method, spec)
    if not exact:
      raise Skip('no rows')
    try:
      whole = cmpx.norm(gen.build(spec).compute_on(data.reset_index(drop=True),
                                                   list(split)))
    except KeyError:
      raise Skip('no baseline')
    np.random.seed(rng.randint(0, 2**31 - 1))
    m = gen.build(m_spec)
    if mates:
      first = rng.random() < .5
      ms = [gen.build(mates[0]), m] if first else [m, gen.build(mates[0])]
      lst = M.MetricList(ms)
      det['with'] = mates
      try:
        gen.build(mates[0]).compute_on(df, list(split))
      except Exception:  # pylint: disable=broad-except
        raise Skip('the companion has no value')
      r, out = run(lambda: quiet(lambda: lst.compute_on(
          df, list(split), return_dataframe=False)), method, det)
      if len(r) != 2:
        raise Violation('a member of the list got lost: %s' % out[:200], det)
      res = cmpx.norm(r[1 if first else 0])
      rec.add('with_companion')
    else:
      r, out = run(lambda: quiet(lambda: m.compute_on(df, list(split))), method,
                   det)
      res = cmpx.norm(r)
    if 'RecursionError' in out:
      raise Violation('replicates failed: %s' % out[:150], det)
    want = {k: vs for k, vs in whole.rows}
    if set(res.d) != set(want):
      raise Violation('rows %r instead of %r' % (sorted(res.d, key=str)[:4],
                                                 sorted(want, key=str)[:4]), det)
    if len(res.cols) != 2 * len(whole.cols):
      raise Violation('columns %r' % res.cols, det)
    for k, vs in want.items():
      for j in range(len(vs)):
        a, s = res.d[k][2 * j], res.d[k][2 * j + 1]
        if not cmpx.close(a, vs[j], 1e-7, 1e-7):
          raise Violation('point estimate of %r at %r is %r instead of %r' % (
              whole.cols[j], k, a, vs[j]), det)
        pairs = exact.get(k, [[]] * len(vs))[j]
        got = boot.check_se(pairs, s, m_spec['n'], '%r at %r' % (
            whole.cols[j], k), det)
        if got:
          rec.add('spread_' + got)
          if m_spec['opt'] and unit and m.can_precompute():
            rec.add('spread_shortcut')
        else:
          rec.add('spread_undecidable')
    rec.add('resamples_enumerated', sum(
        len(c[0]) for c in exact.values() if c))
    rec.add('child_' + spec['k'])
    rec.signature(m_spec, split, n)
    rec.sample = {'spec': m_spec, 'split': split, 'rows': n}
  return fam


def finding_filtered(method):
  """The shortcut reports slices the child's filter leaves nothing of."""
  def fn(rec):
    df = pd.DataFrame({'x': [1., 2, 3, 4, 5, 6, 7, 8], 'g': list('aabbaabb'),
                       'u': [1, 2, 3, 4, 3, 4, 1, 2]})
    r = {}
    for opt in (True, False):
      m = getattr(O, method)('u', M.Sum('x', where='g == "a"'), 20,
                             enable_optimization=opt)
      r[opt] = list(quiet(lambda: m.compute_on(df, 'g'))[0].index)
    rec.add('directed')
    if r[True] != r[False]:
      raise Violation('slices %r with the shortcut, %r without' % (
          r[True], r[False]), {}, mech='preagg-filtered-slices')
  return fn


def finding_missing(method):
  """The shortcut drops the rows whose unit is missing, the plain path not."""
  def fn(rec):
    df = pd.DataFrame({'x': [1., 2, 3, 4, 9, 5],
                       'u': ['a', None, 'b', None, 'c', 'c']})
    r = [float(quiet(lambda: getattr(O, method)(
        'u', M.Mean('x'), 5, enable_optimization=opt).compute_on(df))[0].iloc[0, 0])
         for opt in (True, False)]
    rec.add('directed')
    if r[0] != r[1]:
      raise Violation('the mean is %r with the shortcut, %r without' % tuple(r),
                      {}, mech='missing-units')
  return fn


def f_named(method):
  """Shortcut and plain path on columns whose names need escaping."""
  def fam(rng, rec):
    names = ['x y', 'x_y', '_x_y', 'x.y', 'x-y', 'a(b)', 'x', 'sum_x']
    pick = rng.sample(names, 3)
    n_units = rng.choice([3, 4]) if method == 'Bootstrap' else 3
    rows = []
    for u in range(n_units):
      for g in 'ab':
        for _ in range(rng.choice([1, 2])):
          r = dict(u=u, g=g, f=rng.choice([1, 2]))
          r.update({c: rng.randint(1, 64) / 4 for c in pick})
          rows.append(r)
    df = pd.DataFrame(rows)
    parts = []
    for c in pick:
      k = rng.choice(['Sum', 'Mean', 'Max', 'Min', 'Count', 'Sum'])
      parts.append({'k': k, 'var': c})
    tw = [['or', ['cmp', 'f', '>', 1], ['and', ['cmp', 'g', '==', 'a'],
                                        ['cmp', 'u', '>', 0]]],
          ['and', ['or', ['cmp', 'f', '>', 1], ['cmp', 'g', '==', 'a']],
           ['cmp', 'u', '>', 0]]]
    filtered = rng.random() < .4
    split = ['g'] if not filtered and rng.random() < .5 else []
    if filtered:
      parts = [{'k': 'Sum', 'var': pick[0], 'where': [tw[0]]},
               {'k': 'Sum', 'var': pick[0], 'where': [tw[1]],
                'name': 'other sum'}]
    spec = {'k': 'list', 'ch': parts}
    m_spec = {'k': method, 'unit': 'u', 'child': spec, 'n': 400, 'opt': True}
    det = {'spec': m_spec, 'split': split, 'table': gen.df_repr(df)}
    exact = boot.exact_rows(df, split, 'u', method, spec)
    np.random.seed(rng.randint(0, 2**31 - 1))
    r, out = run(lambda: quiet(lambda: gen.build(m_spec).compute_on(
        df, list(split))), method, det)
    res = cmpx.norm(r)
    whole = cmpx.norm(gen.build(spec).compute_on(df, list(split)))
    for k, vs in whole.rows:
      for j in range(len(vs)):
        a, s = res.d[k][2 * j], res.d[k][2 * j + 1]
        if not cmpx.close(a, vs[j], 1e-7, 1e-7):
          raise Violation('point estimate of %r at %r is %r instead of %r' % (
              whole.cols[j], k, a, vs[j]), det)
        if boot.check_se(exact[k][j], s, 400, '%r at %r' % (whole.cols[j], k),
                         det):
          rec.add('named_spreads')
    rec.signature(m_spec, split)
  return fam
