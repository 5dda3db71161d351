"""C21: jackknife and bootstrap in SQL."""
import datetime
import math

import numpy as np
import pandas as pd
from scipy import stats

from mon import boot, bootprops, cmpx, gen, sqlx
from mon.core import Skip, Violation
from mon.props import c19, c20

from meterstick import metrics as M
from meterstick import operations as O

RULE = ('one random metric tree below a jackknife or bootstrap on a random '
        'table; the jackknife is computed in memory without shortcuts, by one '
        'query with and without preaggregation and in mixed mode with a random '
        'batch size; bootstraps are checked against the exact distribution over '
        'all resamples, and the replicates that mixed mode reads are decoded to '
        'the rows they consist of; distinct = (spec, grouping, mode, units)')
ASSUMPTIONS = c20.ASSUMPTIONS + [
    'no leaf is left without data in a cell that still has rows when a unit is '
    'removed; at least two units',
    'FARM_FINGERPRINT is modelled by another uniform 64 bit hash']
LIMITS = {'quick': (1500, 75), 'thorough': (40000, 800)}
MIN_EVENTS = {'jackknife_cases': 450, 'values': 4000, 'points': 250,
              'resamples_decoded': 15000, 'count_tests': 250,
              'spread_loose': 120, 'queries': 2500, 'absent_units': 60}


def jk_child(rng, df, where_p):
  r = rng.random()
  if r < .3:
    return c19.tree(rng, where_p, 'robust')
  if r < .45:
    return c20.pos_child(rng, where_p)
  if r < .8:
    return c20.op(rng, where_p)
  if r < .9:
    return c20.nested_spec(rng, where_p)
  return c20.list_spec(rng, df, where_p)


def make_fed(s, df, split, unit, rng):
  while not (sqlx.fed(s, df, split) and sqlx.loo_fed(s, df, split, unit)):
    if not c19.strip(s, rng):
      raise Skip('a slice has no data')


def jk_table(rng):
  n = rng.choice([12, 20, 36])
  df = gen.table(rng, n=n, rich=rng.random() < .6, sql=True, index='any',
                 dense=rng.random() < .8, group_vals=2, strata=2,
                 nan=rng.choice([0, 0, .1]), nan_cols=('x', 'y'),
                 n_units=rng.choice([2, 3, 4, 6]))
  r = rng.random()
  us = sorted(set(df['u']), key=str)
  if r < .1:
    m = {u: datetime.datetime(2024, 1, 1 + i) for i, u in enumerate(us)}
    df['u'] = [m[u] for u in df['u']]
  elif r < .2:
    m = {u: v for u, v in zip(us, ["it's", 'a b', 'x"y', '1', 'A', 'a'])}
    df['u'] = [m[u] for u in df['u']]
  elif r < .25:
    m = {u: i + .5 for i, u in enumerate(us)}
    df['u'] = [m[u] for u in df['u']]
  elif r < .32:
    m = {u: datetime.date(2024, 1, 1 + i) for i, u in enumerate(us)}
    df['u'] = [m[u] for u in df['u']]
  elif r < .4 and len(us) == 2:
    df['u'] = [u == us[0] for u in df['u']]
  return df


def one_value(s, split, mem):
  """Regions of the listed findings of C19 and C20, and ties."""
  if sqlx.twice(s):
    raise Skip('one value under two names: a known finding')
  c20.aliased(s)
  if c20.tied(s, mem, split):
    raise Skip('ties in a cumulative order')
  for o in c20.spots(s):
    if 'base' in o and not c20.no_base_ok(o, s, mem):
      raise Skip('no baseline')


def f_jk(rng, rec):
  df = jk_table(rng)
  where_p = rng.choice([0, 0, .3])
  child = jk_child(rng, df, where_p)
  if rng.random() < .08 and 'u' not in c20.used(child):
    child = gen.swap_col(child, 's', 'u')
    for o in c20.spots(child):
      o.pop('order', None)
  spec = {'k': 'Jackknife', 'unit': 'u', 'child': child,
          'where': gen.wheres(rng, where_p)}
  if rng.random() < .35:
    spec['conf'] = rng.choice([.5, .9, .95])
  jk(rng, rec, spec, df, c20.splits(rng, child))


def flat(spec, df, split):
  """Whether some group has too few strata to adjust for a covariate."""
  for o in c20.spots(spec):
    if o.get('k') in ('PrePost', 'CUPED'):
      on = list(split) + [o['cond']] if isinstance(o['cond'], str) else (
          list(split) + list(o['cond']))
      n = df.assign(_s=df[o['strat']].astype(str).agg('/'.join, axis=1)).groupby(
          on, observed=True)['_s'].nunique()
      if n.min() < 3:
        return True
  return False


def f_adj(rng, rec):
  df = c20.adj_table(rng, rng.choice([40, 60]))
  child = c20.adj_spec(rng, rng.choice([0, .3]))
  # Strata that every unit takes part in.
  child = gen.swap_col(child, 'u', 'h')
  spec = {'k': 'Jackknife', 'unit': 'u', 'child': child,
          'where': gen.wheres(rng, .3)}
  if rng.random() < .4:
    spec['conf'] = .9
  jk(rng, rec, spec, df, c20.splits(rng, child, 1))


def f_absent(rng, rec):
  """A filter of the whole that removes all the rows of a unit in a slice."""
  df = jk_table(rng)
  child = (c19.tree(rng, 0, 'robust') if rng.random() < .5 else
           jk_child(rng, df, 0))
  split = c20.splits(rng, child) or ['g']
  if set(split) & c20.used(child):
    raise Skip('no slices')
  cells = lambda d: set(d[split + ['u']].astype(str).agg('/'.join, axis=1))
  for _ in range(20):
    f = gen.filt(rng)
    if cells(df.iloc[gen.fmask([f], df)]) != cells(df):
      break
  else:
    raise Skip('every unit keeps rows')
  spec = {'k': 'Jackknife', 'unit': 'u', 'child': child, 'where': [f]}
  if rng.random() < .3:
    spec['conf'] = .9
  jk(rng, rec, spec, df, split, modes=[(None, None, False), (None, None, False),
                                       (None, None, True), ('mixed', 2, True),
                                       ('mixed', None, False)], wrap=rng.random() < .5)
  rec.add('absent_units')


def f_dims(rng, rec):
  """Expressions and quoted names as dimensions and unit."""
  df = jk_table(rng)
  child = c20.op(rng, rng.choice([0, .3]))
  spec = {'k': 'Jackknife', 'unit': 'u', 'child': child, 'where': []}
  if rng.random() < .3:
    spec['conf'] = .9
  spec, split, stored, mem, quoted = c20.renamed(
      rng, df, spec, c20.splits(rng, child), ['u'] if isinstance(
          df['u'].iloc[0], str) else [])
  jk(rng, rec, spec, stored, split, mem, quoted)


def jk_ready(spec, mem, split, rng):
  """Skips what a jackknife is not asked to handle; the filtered rows."""
  u = spec['unit']
  make_fed(spec, mem, split, u, rng)
  one_value(spec, split, mem)
  data = mem.iloc[gen.fmask(spec['where'], mem)]
  if data[u].nunique() < 2:
    raise Skip('too few units')
  if not gen.loo_has_baseline(spec, data, split, u):
    raise Skip('no replicate has a baseline')
  try:
    if not cmpx.norm(gen.build(spec['child']).compute_on(data, list(split))).rows:
      raise Skip('no rows')
  except KeyError:
    raise Skip('no baseline')
  if any('sort_by_values' in o for o in c20.spots(spec)) and any(
      c20.tied(spec, data[data[u] != v], split) for v in set(data[u])):
    raise Skip('ties in a cumulative order')
  return data


def flat_columns(df):
  """A list has plain columns in SQL and two levels in memory."""
  df = pd.DataFrame(df)
  df.columns = [c if isinstance(c, str) else c[0] if c[1] == 'Value' else
                ' '.join(c) for c in df.columns]
  return df


MODES = [(None, None, True), (None, None, False), ('mixed', None, True),
         ('mixed', 0, None)]


def lost_base(spec, data):
  """Whether a metric of a list has no baseline at all in some replicate.

  In memory the list goes on with the others, in SQL the replicate fails.
  """
  if not any(o.get('k') == 'list' for o in c20.spots(spec)):
    return False
  for o in c20.spots(spec):
    if 'base' in o and 'cond' in o:
      c, b = o['cond'], o['base']
      c = [c] if isinstance(c, str) else list(c)
      b = list(b) if isinstance(b, (list, tuple)) else [b]
      units = [r[spec['unit']] for r in gen.rows_of(data)
               if all(r[q] == v for q, v in zip(c, b))]
      if len(set(units)) < 2:
        return True
  return False


def jk(rng, rec, spec, df, split, mem=None, clean=False, modes=MODES,
       wrap=False):
  rec.add('user_class', 'sub' in gen.user_class(rng, spec))
  c20.clean_names(spec, split)
  if mem is not None:
    table = 'T'
  else:
    table, mem, _ = (('T', df, 'name') if rng.random() < .6 else
                     sqlx.source(rng, df))
  data = jk_ready(spec, mem, split, rng)
  det = {'spec': spec, 'split_by': split, 'source': str(table),
         'table': gen.df_repr(df)}
  ref = cmpx.run(lambda: gen.build(dict(spec, opt=False)).compute_on(
      mem, list(split)), 'compute_on', det)
  n = cmpx.norm(ref)
  w = 3 if spec.get('conf') else 2
  if all(v is None for _, vs in n.rows for j, v in enumerate(vs) if j % w):
    raise Skip('no standard error at all')
  mode, batch, opt = rng.choice(modes)
  if batch == 0:
    batch, opt = rng.choice([1, 2, 3, 50]), rng.random() < .5
  det['mode'] = mode, batch, opt
  m = gen.build(dict(spec, opt=opt, where=[] if wrap else spec['where']))
  if wrap:  # The filter is that of a list around it.
    m = M.MetricList([m], where=gen.where_arg(spec['where']))
    rec.add('filtered_list')
  det['wrap'] = wrap
  what = '%s by %s in mode %s (batches of %s, optimized: %s)' % (
      m.name, split, mode, batch, opt)
  run = sqlx.Run(df, rng.random())
  res = sqlx.call(lambda: m.compute_on_sql(
      table, list(split), run.execute, mode=mode, **(
          {} if wrap else {'batch_size': batch})), what, det, run)
  if wrap:
    ref, res = flat_columns(ref), flat_columns(res)
  if clean:
    ref, res = sqlx.unquote(ref), sqlx.unquote(res)
  try:
    sqlx.check(ref, res, what, det, run, rtol=1e-5, atol=1e-6)
  except Violation:
    if any(flat(spec, data[data[spec['unit']] != v], split) for v in set(data[spec['unit']])):
      raise Skip('covariates of a single stratum')
    if any(c19.infinite(spec, data[data[spec['unit']] != v], split)
           for v in set(data[spec['unit']])):
      raise Skip('computed from a division by zero')
    if mode and lost_base(spec, data):
      raise Skip('one metric of a list fails on a replicate')
    raise
  rec.add('jackknife_cases')
  rec.add('jackknife_%s' % (mode or ('fast' if opt and (
      m[0] if wrap else m).can_precompute() else
                                     'general')))
  rec.add('queries', len(run.queries))
  rec.add('values', sum(v is not None for _, vs in n.rows for v in vs))
  if spec.get('conf'):
    rec.add('intervals')
  if gen.filter_cols(spec):
    rec.add('filtered')
  rec.add('child_' + spec['child']['k'])
  rec.trivial = not n.rows
  rec.signature(spec, split, mode, batch, opt, len(n.rows))
  rec.sample = {'spec': spec, 'split_by': split, 'mode': mode, 'batch': batch}


def isinf(v):
  return isinstance(v, float) and math.isinf(v)


def bs_table(rng, unit, nu, split):
  if unit is None:
    n = nu * (2 if split else 1)
  else:
    n = rng.choice([nu * 2, nu * 4, 16])
  df = gen.table(rng, n=n, n_units=nu, rich=rng.random() < .5, sql=True,
                 nan=rng.choice([0, 0, .1]), group_vals=2, strata=2,
                 nan_cols=('x', 'y'), dense=rng.random() < .6)
  us = sorted(set(df['u']), key=str)
  r = rng.random()
  if r < .1:
    df['u'] = [datetime.datetime(2024, 1, 1 + us.index(u)) for u in df['u']]
  elif r < .25:
    m = dict(zip(us, ["it's", 'a b', 'x"y', '1', 'A', 'a']))
    df['u'] = [m[u] for u in df['u']]
  return df


def bs_child(rng, df, where_p, method):
  r = rng.random()
  if r < .35:
    return bootprops.child_spec(rng, where_p, method)
  if r < .55:
    return c19.tree(rng, where_p, 'robust')
  if r < .65:
    return c20.pos_child(rng, where_p)
  if r < .9:
    return c20.op(rng, where_p, lists=rng.random() < .5)
  return c20.nested_spec(rng, where_p)


def f_spread(method):
  """Reported errors against the exact distribution over all resamples."""
  def fam(rng, rec):
    unit = rng.choice(['u', 'u', 'u', None])
    poisson = method != 'Bootstrap'
    nu = rng.choice([2, 3] if poisson else [2, 3, 4])
    split = gen.split(rng, cands=('g', 'b', 'c', 's', 'd'), maxn=1, p0=.5)
    df = bs_table(rng, unit, nu, split)
    where_p = rng.choice([0, 0, 0, .4])
    child = bs_child(rng, df, where_p, method)
    if set(c20.used(child)) & set(split):
      raise Skip('split by a dimension of the child')
    n_rep = rng.choice([150, 250, 400])
    spec = {'k': method, 'unit': unit, 'child': child, 'n': n_rep,
            'where': gen.wheres(rng, where_p)}
    if rng.random() < .3:
      spec['conf'] = rng.choice([.5, .9])
    stored, mem, quoted, table = df, df, False, 'T'
    if rng.random() < .25:
      spec, split, stored, mem, quoted = c20.renamed(
          rng, df, spec, split, [unit] if unit and isinstance(
              df['u'].iloc[0], str) else [])
      unit = spec['unit']
      child = spec['child']
    elif rng.random() < .5:
      table, mem, _ = sqlx.source(rng, df)
    spread(rng, rec, spec, stored, mem, table, split, quoted)
  return fam


def spread(rng, rec, spec, df, mem, table, split, clean):
  method, unit, child, n_rep = (spec[k] for k in ('k', 'unit', 'child', 'n'))
  rec.add('user_class', 'sub' in gen.user_class(rng, spec))
  c20.clean_names(spec, split)
  if sqlx.twice(spec):
    raise Skip('one value under two names: a known finding')
  c20.aliased(spec)
  if not sqlx.fed(spec, mem, split):
    raise Skip('a slice has no data')
  data = mem.iloc[gen.fmask(spec['where'], mem)]
  if not len(data):
    raise Skip('no rows')
  if gen.leaf_starved(spec, mem):
    raise Skip('starved')
  if bootprops.sparse(child, data, split, unit):
    raise Skip('a filtered slice may vanish')
  if any('sort_by_values' in o for o in c20.spots(child)):
    raise Skip('ties in a cumulative order')
  opt = rng.random() < .6
  if opt and bootprops.sparse(child, data, split + bootprops.extra_cols(child),
                              unit):
    raise Skip('known: preagg-filtered-slices')
  if max(map(len, boot.blocks_of(data, split, unit).values())) > (
      3 if method != 'Bootstrap' else 5):
    raise Skip('too many resamples')
  exact = boot.exact_rows(data, split, unit, method, child)
  if not exact:
    raise Skip('no rows')
  some = None
  if method != 'Bootstrap' and not split:
    some = boot.exact_rows(data, split, unit, method, child, empty=False)
  try:
    whole = cmpx.norm(gen.build(child).compute_on(data.reset_index(drop=True),
                                                  list(split)))
  except KeyError:
    raise Skip('no baseline')
  if all(v is None for _, vs in whole.rows for v in vs):
    raise Skip('no values')
  if not every_unit(child, data, split, unit):
    raise Skip('a leaf without data for a unit')
  mode, batch = rng.choice([(None, None), (None, None), ('mixed', None), (
      'mixed', rng.choice([7, 60, n_rep, n_rep // 2, 100]))])
  spec = dict(spec, opt=opt)
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df),
         'source': str(table), 'mode': [mode, batch]}
  m = gen.build(spec)
  what = '%s by %s in mode %s (batches of %s, optimized: %s)' % (
      m.name, split, mode, batch, opt)
  run = sqlx.Run(df, rng.random())
  res = sqlx.call(lambda: m.compute_on_sql(
      table, list(split), run.execute, mode=mode, batch_size=batch), what, det,
      run)
  det['queries'] = '\n----\n'.join(run.queries[-3:])
  res = cmpx.norm(res)
  if clean:
    res, whole = sqlx.unquote(res), sqlx.unquote(whole)
  conf = spec.get('conf')
  w = 3 if conf else 2
  want = {k: vs for k, vs in whole.rows}
  det.update(in_memory=whole.dump(), sql=res.dump())
  extra = [k for k in res.d if k not in want]
  lost = [k for k in want if k not in res.d and any(
      v is not None for v in want[k])]
  if extra or lost:
    raise Violation('%s: rows %r instead of %r' % (
        what, sorted(res.d, key=str)[:4], sorted(want, key=str)[:4]), det)
  nb = len(whole.cols)
  if len(res.cols) != w * nb and not (
      conf and len(res.cols) == (w + 1) * nb):
    raise Violation('%s: columns %r' % (what, res.cols), det)
  for k, vs in want.items():
    if k not in res.d:
      continue
    got = res.d[k]
    for j in range(nb):
      a = got[w * j]
      if isinf(vs[j]) or any(isinf(v) for v, _ in exact.get(
          k, [[]] * nb)[j]):
        rec.add('infinite')
        continue
      label = '%s: %r at %r' % (what, whole.cols[j], k)
      if not cmpx.close(a, vs[j], 1e-7, 1e-7):
        raise Violation('%s is %r instead of %r' % (label, a, vs[j]), det)
      rec.add('points')
      pairs = exact.get(k, [[]] * nb)[j]
      tot = sum(p for _, p in pairs)
      if not conf:
        se = got[w * j + 1]
      elif tot < 1 - 1e-5:
        continue
      else:
        lo, hi = got[w * j + 1:w * j + 3]
        if (lo is None) != (hi is None):
          raise Violation('%s has half an interval: %r' % (label, got), det)
        se = None
        if lo is not None:
          if not cmpx.close(hi - a, a - lo, 1e-6, 1e-6):
            raise Violation('%s lies not in the middle of %r' % (
                label, (lo, hi)), det)
          se = (hi - lo) / 2 / stats.t.ppf((1 + conf) / 2, n_rep - 1)
        rec.add('intervals')
      if tot < 1 - 1e-9 and not poisson_empty(pairs, method):
        rec.add('partial')
      try:
        got_se = boot.check_se(pairs, se, n_rep, label, det)
      except Violation:
        # Whether a resample without any row counts as one.
        if some is None or split:
          raise
        got_se = boot.check_se(some.get(k, [[]] * nb)[j], se, n_rep, label, det)
      if got_se:
        rec.add('spread_' + got_se)
        rec.add('%s_%s' % (method, mode or ('fast' if opt and m.can_precompute()
                                            else 'general')))
      else:
        rec.add('spread_undecidable')
  rec.add('resamples_enumerated', sum(len(c[0]) for c in exact.values() if c))
  rec.add('queries', len(run.queries))
  rec.add('child_' + child['k'])
  rec.signature(spec, split, mode, batch)
  rec.sample = {'spec': spec, 'split_by': split, 'mode': mode, 'batch': batch}


def every_unit(s, df, split, unit):
  """Whether every unit of a slice has data for every leaf there."""
  rows = gen.rows_of(df)
  for lf, fs, _ in sqlx.leaves(s):
    seen = {}
    for i, r in enumerate(rows):
      k = tuple(r[c] for c in split) + (r[unit] if unit else i,)
      seen[k] = seen.get(k, False) or (
          all(gen.feval(f, r) for f in fs) and
          all(r.get(lf[m], 0) is not None for m in sqlx.MEASURES if lf.get(m)))
    if not all(seen.values()):
      return False
  return True


def poisson_empty(pairs, method):
  return method != 'Bootstrap'


LABELS = {'num': list(range(1, 40)), 'txt': ['1', '11', '111', '2', '12', '1 1',
                                             "o'k", 'x"y', '21', '112'],
          'flt': [.5, 1.5, 2.25, 3., 11., 1.]}


def f_draws(method):
  """What mixed mode draws, decoded from the results it reads."""
  def fam(rng, rec):
    poisson = method != 'Bootstrap'
    kind = rng.choice(['num', 'txt', 'flt'])
    nu = rng.choice([2, 3, 5])
    units = rng.sample(LABELS[kind][:12 if kind == 'num' else None], nu)
    gs = rng.sample([1, 11, 12, 2, 111] if rng.random() < .5 else [
        '1', '11', '1 1', 'a', "b'"], 2)
    unit = rng.choice(['u', 'u', None])
    split = ['g'] if rng.random() < .7 else []
    rows = []
    for g in gs:
      for u in units:
        for _ in range(rng.choice([1, 1, 2])):
          rows.append({'g': g, 'u': u, 'k': rng.randint(0, 4)})
    rng.shuffle(rows)
    fs = [['cmp', 'k', '>', 0]] if rng.random() < .4 else []
    df = pd.DataFrame(rows)
    keep = gen.fmask(fs, df)
    data = df.iloc[keep]
    if not len(data):
      raise Skip('no rows')
    blocks = boot.blocks_of(data, split, unit)
    if max(map(len, blocks.values())) > 9 or (not split and len(data) > 20):
      raise Skip('too many rows')
    # One digit of base 32 per drawn thing and slice.
    code = [0] * len(df)
    size, owner = {}, {}
    for sl, bl in blocks.items():
      for i, pos in enumerate(bl):
        size[sl, i] = len(pos)
        owner[sl, i] = data['u'].iloc[pos[0]] if unit else i
        for j in pos:
          code[keep[j]] = 64 ** i
    df['code'] = code
    n_rep = rng.choice([200, 300])
    batch = rng.choice([None, n_rep, 70, n_rep // 2])
    opt = rng.random() < .5
    det = {'table': gen.df_repr(df), 'unit': unit, 'split': split, 'n': n_rep,
           'where': gen.where_arg(fs), 'batch': batch, 'opt': opt}
    m = getattr(O, method)(unit, M.Sum('code'),
                           n_rep, where=gen.where_arg(fs),
                           enable_optimization=opt)
    mode = rng.choice(['mixed', None])
    if mode is None:
      batch = n_rep
    what = '%s by %s in mode %s (batches of %s)' % (m.name, split, mode, batch)
    seen = []
    run = sqlx.Run(df, rng.random(), log=[])

    def execute(q):
      r = run.execute(q)
      if 'meterstick_resample_idx' in r:
        seen.append(r.copy())
      return r
    res = sqlx.call(lambda: m.compute_on_sql(
        'T', list(split), execute, mode=mode, batch_size=batch), what, det, run)
    det['queries'] = '\n----\n'.join(run.queries[-2:])
    if mode is None:
      # The results of the resamples are a table of the WITH clause.
      if seen:
        raise Violation('%s: it reads resamples' % what, det)
      for t in run.db.trace[-1].values():
        r = resampled_results(t, split, n_rep)
        if r is not None:
          seen.append(r)
      if len(seen) != 1:
        rec.add('unobservable')
        raise Skip('the results of the resamples are not a table')
      rec.add('with_tables_decoded')
    reps = {}
    total = 0
    for q, r in enumerate(seen):
      names = list(r.columns)
      vals = [c for c in names if c not in split + ['meterstick_resample_idx']]
      if len(vals) != 1 or not set(split) < set(names):
        raise Violation('%s: it reads columns %r' % (what, names), det)
      ids = sorted(set(r['meterstick_resample_idx'].tolist()))
      top = batch or 1000
      want_n = min(top, n_rep - total)
      total += want_n
      if len(ids) > want_n or not poisson and len(ids) < want_n:
        raise Violation('%s: a batch has %d resamples instead of %d' % (
            what, len(ids), want_n), det)
      for _, row in r.iterrows():
        sl = tuple(cmpx.keyval(row[c]) for c in split)
        i = row['meterstick_resample_idx']
        if (q, int(i), sl) in reps:
          raise Violation('%s: resample %s has two rows of %r' % (what, i, sl),
                          det)
        reps[q, int(i), sl] = int(row[vals[0]])
    if total != n_rep:
      raise Violation('%s: %d resamples instead of %d' % (what, total, n_rep),
                      det)
    keys = []
    left = n_rep
    for q in range(len(seen)):
      k = min(batch or 1000, left)
      left -= k
      ids = sorted(set(i for p, i, _ in reps if p == q))
      if ids and ids[-1] - ids[0] < k:  # empty resamples are in between
        first = 1 if ids[-1] <= k else ids[0]
        ids = list(range(first, first + k))
      keys += [(q, i) for i in ids + [None] * (k - len(ids))]
    norm = {tuple(map(cmpx.keyval, sl)): sl for sl in blocks}
    for _, _, sl in reps:
      if sl not in norm:
        raise Violation('%s: a resample has the slice %r' % (what, sl), det)
    cols, names = [], []
    for nsl, sl in norm.items():
      k = len(blocks[sl])
      cnt = np.zeros((n_rep, k))
      for r, (q, i) in enumerate(keys):
        v = reps.get((q, i, nsl))
        if v is None:
          if not poisson:
            raise Violation('%s: resample %d lacks the slice %r' % (
                what, i, sl), det)
          continue
        for j in range(k):
          d = v // 64 ** j % 64
          if d % size[sl, j]:
            raise Violation('%s: resample %d of %r has %d of the %d rows of '
                            'unit %r' % (what, i, sl, d, size[sl, j],
                                         owner[sl, j]), det)
          cnt[r, j] = d // size[sl, j]
        if v >= 64 ** k:
          raise Violation('%s: resample %d of %r has foreign rows' % (
              what, i, sl), det)
        if not poisson and cnt[r].sum() != k:
          raise Violation('%s: resample %d of %r has %d units instead of %d' % (
              what, i, sl, cnt[r].sum(), k), det)
        rec.add('resamples_decoded')
      for j in range(k):
        cols.append(cnt[:, j])
        names.append((sl, owner[sl, j], k))
    bootprops.check_counts(cols, names, method, det, rec, what)
    # Different resamples are different draws.
    if len(names) > 1:
      rows_ = [tuple(c[r] for c in cols) for r in range(n_rep)]
      for lag in (1, 10, 100) + ((batch,) if batch and batch < n_rep else ()):
        same = sum(a == b for a, b in zip(rows_, rows_[lag:]))
        n = len(rows_) - lag
        p = same_draw([k for _, _, k in names], norm, blocks, method)
        if same - p * n > bootprops.bern(n, p * (1 - p), 1) * n * 1.5:
          raise Violation('%s: %d of %d resamples repeat the one %d before' % (
              what, same, n, lag), det)
    # Different things of different resamples are drawn independently.
    for a in range(len(names)):
      for b in range(len(names)):
        for sh in shifts(names[a][1], names[b][1], n_rep):
          x = [(cols[a][i - 1], cols[b][j - 1]) for i, j in sh]
          if a == b or len(x) < 40 or batch is not None and batch < n_rep:
            continue
          eq = sum(u == v for u, v in x)
          if eq == len(x):
            raise Violation('%s: unit %r of resample 1.. is always drawn like '
                            'unit %r of another resample' % (
                                what, names[a][:2], names[b][:2]), det)
          rec.add('shifted_pairs')
    rec.signature(method, unit, split, kind, batch, sorted(size.values()))
    rec.add('draw_cases')
    rec.sample = dict(det, table='%d rows' % len(df))
  return fam


def resampled_results(table, split, n):
  """The table as a frame of resample, slice, sum and count if it is that."""
  cols, rows = table
  if len(cols) != len(split) + 2 or set(split) - set(cols):
    return None
  rows = [dict(zip(cols, r)) for r in rows]
  rest = [c for c in cols if c not in split]
  for c in rest:
    vs = [r[c] for r in rows]
    if not all(isinstance(v, int) and 1 <= v <= n for v in vs):
      continue
    keys = set(tuple(r[d] for d in split) + (r[c],) for r in rows)
    if len(keys) == len(rows) and len(set(vs)) > n / 3:
      others = [d for d in rest if d != c]
      others.sort(key=lambda d: -max(r[d] or 0 for r in rows))
      names = ['meterstick_resample_idx'] + split + others
      out = pd.DataFrame([[r[d] for d in [c] + split + others] for r in rows],
                         columns=names)
      return out
  return None


def shifts(u, v, n):
  """Pairs of resamples in which names of units glued to numbers coincide."""
  u, v = str(u), str(v)
  if not (len(v) > len(u) and v.startswith(u) and v[len(u):].isdigit()):
    return
  pre = v[len(u):]
  out = [(int(pre + str(i)), i) for i in range(1, n + 1)
         if int(pre + str(i)) <= n and not pre.startswith('0')]
  if out:
    yield out


def same_draw(_, norm, blocks, method):
  """Probability that two independent resamples are equal."""
  p = 1.0
  for sl in norm.values():
    k = len(blocks[sl])
    if method == 'Bootstrap':
      if k <= 6:
        p *= sum(q * q for _, q in boot.multinomial_draws(k))
      else:
        p *= .01
    else:
      p *= .3086 ** k
  return p


FAMILIES = [('jk', 12, f_jk), ('absent', 3, f_absent), ('adj', 2, f_adj), ('dims', 4, f_dims),
            ('bs_spread', 3, f_spread('Bootstrap')),
            ('pbs_spread', 3, f_spread('PoissonBootstrap')),
            ('bs_draws', 1, f_draws('Bootstrap')),
            ('pbs_draws', 1, f_draws('PoissonBootstrap'))]
FINDINGS = {}
