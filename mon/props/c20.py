"""C20: generated SQL for operations equals memory."""
import math
import re

import pandas as pd

from mon import cmpx, gen, sqlx
from mon.core import Skip, Violation
from mon.props import c19

from meterstick import diversity as D
from meterstick import metrics as M
from meterstick import operations as O

RULE = ('one random tree with operations (distributions, cumulative ones, '
        'changes, Mantel-Haenszel, pre-period adjusted changes, diversity; '
        'nested, in lists, in arithmetic, filters on every level) on a random '
        'table, computed by compute_on and by compute_on_sql whose queries run '
        'on an independent interpreter of the BigQuery dialect; distinct = '
        '(spec, grouping, table source, number of slices)')
ASSUMPTIONS = c19.ASSUMPTIONS + [
    'strata of adjusted changes have both the metric and the covariate; a '
    'cumulative order covers every value']
LIMITS = {'quick': (4500, 60), 'thorough': (60000, 700)}
MIN_EVENTS = {'cases_compared': 2200, 'queries': 2200, 'values': 12000,
              'kind_MH': 200}

SIMPLE = ('Distribution', 'CumulativeDistribution', 'PercentChange',
          'AbsoluteChange', 'MH', 'HHI', 'Entropy', 'TopK', 'Nxx')


def pos_child(rng, where_p, lists=True):
  r = rng.random()
  if r < .75:
    s = gen.pos_measure(rng, where_p, lists)
  elif r < .85:
    s = {'k': 'Ratio', 'var': 'w', 'var2': 'f', 'where': gen.wheres(rng, where_p)}
  else:
    s = {'k': rng.choice(['CountD', 'WMean', 'DotN']),
         'var': 'f', 'var2': 'w', 'where': gen.wheres(rng, where_p)}
    if s['k'] == 'WMean':
      s['weight'] = 'w'
  if s['k'] != 'list' and rng.random() < .1:
    s['name'] = rng.choice(c19.NAMES[:12])
  return s


def op(rng, where_p, kind=None, child=None, lists=True):
  k = kind or rng.choice(SIMPLE)
  if child is None and k in ('PercentChange', 'AbsoluteChange'):
    child = (c19.tree(rng, where_p, 'robust') if rng.random() < .4 else
             pos_child(rng, where_p, lists))
    if not lists and child['k'] == 'list' or any(
        isinstance(lf.get('quantile'), list) for lf, _, _ in sqlx.leaves(child)):
      child = None
  if child is None and k != 'MH':
    child = pos_child(rng, where_p, lists)
  s = gen.operation(rng, k, where_p, child=child, lists=lists)
  if k in ('PercentChange', 'AbsoluteChange') and rng.random() < .2:
    r = rng.random()
    if r < .4:
      s.update(cond=['cond', 's2'], base=('ctl', 'p'))
    elif r < .7:
      s.update(cond='s', base=1)
    else:
      s.update(cond='b', base=True)
  if k == 'MH' and rng.random() < .35:
    s.update(rng.choice([
        {'cond': ['cond', 's2'], 'base': ('ctl', 'p'), 'strat': ['s']},
        {'cond': ['s2', 'b'], 'base': ('q', True), 'strat': ['s']},
        {'cond': ['s', 'cond'], 'base': (1, 't1'), 'strat': ['s2']},
        {'cond': 's2', 'base': 'q', 'strat': ['s']},
        {'cond': 'b', 'base': False, 'strat': ['s2']}]))
  if k == 'CumulativeDistribution':
    r = rng.random()
    if r < .25:
      s['over'] = ['cond']
      s['order'] = rng.sample(['ctl', 't1', 't2'], 3)
    elif r < .35:
      s['over'] = ['s']
      s['order'] = rng.sample([0, 1, 2], 3)
    elif r < .5:
      s['sort_by_values'] = True
  return s


def tied(s, df, split, by=()):
  """Whether cumulating by values would have to break ties."""
  if isinstance(s, list):
    return any(tied(v, df, split, by) for v in s)
  if not isinstance(s, dict):
    return False
  if s.get('sort_by_values'):
    on = list(dict.fromkeys(list(split) + list(by)))
    n = cmpx.norm(gen.build(dict(s, k='Distribution', sort_by_values=False)
                            ).compute_on(df, on))
    seen = set()
    for k, vs in n.rows:
      for j, v in enumerate(vs):
        key = (k[:len(on)], j, None if v is None else round(v, 9))
        if key in seen:
          return True
        seen.add(key)
  if s.get('where'):
    df = df.iloc[gen.fmask(s['where'], df)]
  for k in ('over', 'cond', 'strat'):
    v = s.get(k)
    if v is not None:
      by = list(by) + ([v] if isinstance(v, str) else list(v))
  return any(tied(v, df, split, by) for k, v in s.items() if k != 'where')


def spots(s):
  out = []
  def walk(o):
    if isinstance(o, dict):
      out.append(o)
      for v in o.values():
        walk(v)
    elif isinstance(o, list):
      for v in o:
        walk(v)
  walk(s)
  return out


def used(s):
  out = set()
  for o in spots(s):
    for k in ('over', 'cond', 'strat', 'gb'):
      v = o.get(k)
      if v is not None:
        out |= {v} if isinstance(v, str) else set(v)
  return out


def splits(rng, s, maxn=2):
  return [c for c in gen.split(rng, [c for c in sqlx.SPLITS if c not in used(s)],
                               maxn=maxn, p0=.35)]


def a_table(rng, nan=0):
  df = gen.table(rng, n=rng.choice([14, 24, 40, 60]), rich=rng.random() < .6,
                 nan=nan, nan_cols=('x', 'y'), sql=True, index='any',
                 dense=rng.random() < .8, group_vals=2,
                 strata=rng.choice([2, 3]))
  return df


def columns(o, df):
  try:
    return gen.build(o).compute_on(df).columns
  except KeyError:
    raise Skip('no baseline')


def aliased(s):
  """Whether two operations compute one value under two names (see C19)."""
  seen = {}

  def walk(o, fs):
    if isinstance(o, dict):
      fs = fs + [gen.ftext(f) for f in o.get('where') or []]
      c = o.get('child')
      if isinstance(c, dict):
        kids = c['ch'] if c['k'] == 'list' else [c]
        more = fs + [gen.ftext(f) for f in c.get('where') or []
                     ] if c['k'] == 'list' else fs
        for k in kids:
          key = tuple(sqlx.columns_of(nameless(k), more))
          nm = ((c.get('tmpl') or '{}') if c is not k else '{}').format(
              gen.build(k).name)
          if c is not k and c.get('rename'):
            nm = c['rename'][c['ch'].index(k)]
          if seen.setdefault(key, nm) != nm:
            raise Skip('one value under two names: a known finding')
      for k, v in o.items():
        if k != 'where':
          walk(v, fs)
    elif isinstance(o, list):
      for v in o:
        walk(v, fs)
  walk(s, [])


def nameless(o):
  if isinstance(o, dict):
    return {k: nameless(v) for k, v in o.items() if k != 'name' and not (
        k == 'tmpl' and o['k'] in gen.TEMPLATED)}
  return [nameless(v) for v in o] if isinstance(o, list) else o


def clean_names(s, split):
  """No metric is named as a dimension, up to case and punctuation."""
  word = lambda n: re.sub(r'\W+', '_', n).strip('_').lower()
  dims = {word(d) for d in set(split) | used(s)}
  for o in spots(s):
    if o.get('name') and word(o['name']) in dims:
      o.pop('name')


def go(rng, rec, s, df, split, family, fed=None):
  if rng.random() < .2:
    rec.add('name_tmpl', gen.templated(rng, s, .6))
  clean_names(s, split)
  table, mem, kind = (('T', df, 'name') if rng.random() < .6 else
                      sqlx.source(rng, df))
  ready(s, mem, split, rng)
  if fed:
    fed(mem)
  exact = exact_rows(s, mem, split)
  try:
    c19.judge(rng, rec, s, df, table, mem, split, kind,
              ignore_missing_rows=not exact)
  except Violation:
    if nearly_constant(s, mem, split):
      raise Skip('the covariate of a group is nearly constant')
    raise
  rec.add('family_' + family)
  rec.add('rows_exact', exact)


def ready(s, mem, split, rng):
  """Skips what is outside the domain."""
  c19.make_fed(s, mem, split, rng)
  aliased(s)
  if tied(s, mem, split):
    raise Skip('ties in a cumulative order')
  # No baseline anywhere: nothing to compare with in memory.
  for o in spots(s):
    if 'base' in o and not no_base_ok(o, s, mem):
      raise Skip('no baseline')
  try:
    gen.build(s).compute_on(mem, list(split))
  except KeyError:
    if any('base' in o for o in spots(s)):
      raise Skip('no baseline')


def no_base_ok(o, s, df):
  cond = [o['cond']] if isinstance(o['cond'], str) else list(o['cond'])
  base = list(o['base']) if isinstance(o['base'], (list, tuple)) else [o['base']]
  fs = [f for q in spots(s) for f in q.get('where') or []]
  for r in gen.rows_of(df):
    if all(r[c] == b for c, b in zip(cond, base)) and all(
        gen.feval(f, r) for f in fs):
      return True
  return False


def nearly_constant(s, df, split):
  """Whether a slope would be fitted to rounding errors of a covariate."""
  for o in spots(s):
    if o.get('k') not in ('PrePost', 'CUPED'):
      continue
    cond = [o['cond']] if isinstance(o['cond'], str) else list(o['cond'])
    on = list(split) + (cond if o['k'] == 'PrePost' else [])
    for cov in o['cov']:
      n = cmpx.norm(gen.build(cov).compute_on(
          df, list(split) + cond + list(o['strat'])))
      groups = {}
      for k, vs in n.rows:
        groups.setdefault(k[:len(on)], []).append(vs[0])
      for vs in groups.values():
        vs = [v for v in vs if v is not None]
        big = max(map(abs, vs), default=0)
        if len(vs) > 1 and max(vs) - min(vs) <= 1e-9 * big:
          return True
  return False


def exact_rows(s, df, split):
  """Whether also the rows of missing values must be the same.

  Memory has them for slices without a baseline, SQL does not.
  """
  ops = [o for o in spots(s) if 'base' in o]
  if not ops:
    return True
  for o in spots(s):
    if o.get('where'):
      return False
    if ('base' in o or 'over' in o) and any(
        'base' in q or 'over' in q for q in spots(o.get('child'))):
      return False
  for o in ops:
    cond = [o['cond']] if isinstance(o['cond'], str) else list(o['cond'])
    base = list(o['base']) if isinstance(o['base'], (list, tuple)) else [o['base']]
    rows = gen.rows_of(df)
    for pos in gen.cells(df, split).values():
      is_base = [all(rows[i][c] == b for c, b in zip(cond, base)) for i in pos]
      if not any(is_base) or all(is_base):
        return False
  return True


def f_one(rng, rec):
  df = a_table(rng)
  s = op(rng, rng.choice([0, .3, .5]))
  go(rng, rec, s, df, splits(rng, s), 'one')


def f_nested(rng, rec):
  """Operations over operations."""
  df = a_table(rng)
  s = nested_spec(rng, rng.choice([0, 0, .3]))
  go(rng, rec, s, df, splits(rng, s, 1), 'nested')


def nested_spec(rng, where_p):
  kind = rng.choice(['Distribution', 'HHI', 'Entropy', 'TopK', 'Nxx', 'MH',
                     'CumulativeDistribution', 'PercentChange',
                     'AbsoluteChange'])
  inner = op(rng, where_p, kind, None if kind == 'MH' else pos_child(
      rng, where_p, rng.random() < .4))
  if 'over' in inner:
    inner['over'] = rng.choice([['s2'], ['s'], ['s', 's2']])
    inner.pop('order', None)
  else:
    inner.update(cond='s2', base='p')
    if inner['k'] == 'MH':
      inner['strat'] = ['s']
    inner['include_base'] = rng.random() < .5
  outer = rng.choice(['PercentChange', 'AbsoluteChange', 'AbsoluteChange',
                      'Distribution', 'CumulativeDistribution', 'HHI'])
  w = gen.wheres(rng, where_p)
  if outer in ('PercentChange', 'AbsoluteChange'):
    s = {'k': outer, 'cond': 'cond', 'base': 'ctl', 'child': inner, 'where': w,
         'include_base': rng.random() < .3}
  else:
    if inner['k'] in ('PercentChange', 'AbsoluteChange', 'MH'):
      raise Skip('shares of numbers of either sign')
    if outer == 'CumulativeDistribution' and inner['k'] in (
        'CumulativeDistribution', 'Distribution'):
      raise Skip('the order within a cell is open')
    if inner['k'] == 'Entropy':
      raise Skip('shares of nothing')
    if outer == 'HHI' and inner['k'] in ('Distribution',
                                         'CumulativeDistribution'):
      raise Skip('diversity of an operation with dimensions: a known finding')
    s = {'k': outer, 'over': ['cond'], 'child': inner, 'where': w}
  return s


def f_list(rng, rec):
  """Lists of and arithmetic on operations."""
  df = a_table(rng)
  s = list_spec(rng, df, rng.choice([0, 0, .3]))
  go(rng, rec, s, df, splits(rng, s), 'list')


def list_spec(rng, df, where_p):
  r = rng.random()
  if r < .4:
    inc = rng.random() < .4
    ch = [op(rng, where_p, rng.choice(['PercentChange', 'AbsoluteChange', 'MH']))
          for _ in range(rng.choice([2, 3]))]
    apart = rng.random() < .5
    for o in ch:
      o.update(cond='cond', base='ctl', include_base=inc)
      if apart:  # Each part then has rows of its own.
        o.update(include_base=rng.random() < .5,
                 base=rng.choice(['ctl', 'ctl', 't1']))
  elif r < .65:
    over = rng.choice([['s'], ['cond'], ['s', 's2']])
    ch = [op(rng, where_p, rng.choice(['Distribution', 'CumulativeDistribution']))
          for _ in range(2)]
    for o in ch:
      o.update(over=over)
      o.pop('order', None)
  else:
    ch = [op(rng, where_p, rng.choice(['HHI', 'Entropy', 'TopK', 'Nxx']))
          for _ in range(rng.choice([1, 2]))]
    ch.append(pos_child(rng, where_p, False))
    rng.shuffle(ch)
  names = []
  for o in ch:
    names += list(columns(o, df))
  if len(set(names)) < len(names):
    ch = ch[:1]
  r = rng.random()
  if r < .55 or len(ch) < 2:
    for i, o in enumerate(ch):
      # A filter above an operation that doesn't apply to the rest of the list.
      if len(ch) > 1 and rng.random() < .25 and not o.get('name'):
        w = [gen.filt(rng, 1, sql=True)]
        ch[i] = ({'k': 'bin', 'op': '*', 'a': o, 'b': rng.choice([2, 100]),
                  'where': w} if rng.random() < .6 else
                 {'k': 'list', 'ch': [o], 'where': w})
    s = {'k': 'list', 'ch': ch, 'where': gen.wheres(rng, where_p)}
    if rng.random() < .25:
      s['tmpl'] = rng.choice(['my {}', '{} %'])
    if len(ch) > 1 and rng.random() < .25:
      s['rename'] = ['r%d' % i for i in range(len(names))]
  elif r < .8:
    s = {'k': 'bin', 'op': rng.choice('+-*'), 'a': ch[0],
         'b': rng.choice([2, .5, 100]), 'where': gen.wheres(rng, where_p)}
    if rng.random() < .3 and not isinstance(ch[0].get('child'), dict):
      s['a'], s['b'] = s['b'], s['a']
  else:
    one = [o for o in ch if len(columns(o, df)) == 1]
    if len(one) < 2:
      raise Skip('several columns')
    s = {'k': 'bin', 'op': rng.choice('+-*'), 'a': one[0], 'b': one[1],
         'where': gen.wheres(rng, where_p)}
  return s


def f_gaps(rng, rec):
  """Parts which have rows of their own: none of the rows may get lost."""
  df = gen.table(rng, n=rng.choice([30, 60]), rich=True, dense=True, sql=True,
                 group_vals=2, index='any')
  def part():
    if rng.random() < .15:
      return gen.pos_scalar(rng, 0)
    o = op(rng, 0, rng.choice(['PercentChange', 'AbsoluteChange']), lists=False)
    o.update(cond='cond', base=rng.choice(['ctl', 'ctl', 't1']),
             include_base=rng.random() < .5)
    return o
  a, b = part(), part()
  if 'base' not in a and 'base' not in b or gen.build(a).name == gen.build(b).name:
    raise Skip('no operation or same names')
  s = {'k': 'bin', 'op': rng.choice('+-*'), 'a': a, 'b': b}
  r = rng.random()
  if r < .2:
    c = part()
    s = {'k': 'bin', 'op': rng.choice('+-'), 'a': s, 'b': c}
  elif r < .4 and 'base' in a and 'base' in b:
    s = {'k': 'list', 'ch': [a, b]}
  wide = set(len(columns(o, df)) for o in (a, b) + ((c,) if r < .2 else ()))
  if len(wide - {1}) > 1:
    raise Skip('different widths')
  split = rng.sample(['g', 'h'], rng.choice([0, 1, 1]))
  if not exact_rows(s, df, split):
    raise Skip('no baseline in a slice')
  go(rng, rec, s, df, split, 'gaps')


def f_adj(rng, rec):
  """PrePost and CUPED with one covariate."""
  df = adj_table(rng, rng.choice([40, 60, 90]))
  s = adj_spec(rng, rng.choice([0, .3]))
  split = splits(rng, s)
  go(rng, rec, s, df, split, 'adj')


def adj_table(rng, n):
  df = gen.table(rng, n=n, rich=True, dense=True, strata=3, sql=True,
                 n_units=rng.choice([4, 6, 9]), group_vals=2, index='any')
  for c in ('p', 'q'):
    df[c] = [rng.randint(0, 512) / 64 for _ in range(n)]
  return df


def adj_spec(rng, where_p):
  cov = rng.choice([
      {'k': rng.choice(['Sum', 'Mean', 'Max']), 'var': rng.choice('pqy')},
      {'k': 'Ratio', 'var': 'p', 'var2': 'w'},
      {'k': 'bin', 'op': rng.choice('+-*'), 'a': {'k': 'Sum', 'var': 'q'},
       'b': rng.choice([{'k': 'Sum', 'var': 'f'}, 2])}])
  kid = lambda: rng.choice([
      {'k': rng.choice(['Sum', 'Mean', 'Min']), 'var': rng.choice('xw')},
      {'k': 'Ratio', 'var': 'x', 'var2': 'w'},
      {'k': 'bin', 'op': '-', 'a': {'k': 'Sum', 'var': 'x'},
       'b': {'k': 'Mean', 'var': 'f'}}])
  ch = gen.dedup([kid() for _ in range(rng.choice([1, 1, 2, 3]))])
  if rng.random() < .2:  # As if they only differed in their filters.
    rng.choice(ch)['name'] = gen.build(cov).name
  child = (ch[0] if len(ch) == 1 and rng.random() < .7 else
           gen.list_labels(rng, {'k': 'list', 'ch': ch}))
  for o in [cov] + ch:
    o['where'] = gen.wheres(rng, where_p)
  r = rng.random()
  if r < .15 and child['k'] == 'list':
    child['where'] = gen.wheres(rng, .5)
  conds, base = rng.choice([('cond', 'ctl')] * 4 + [
      (['cond', 's2'], ('ctl', 'p')), ('s2', 'q')])
  s = {'k': rng.choice(['PrePost', 'CUPED']), 'cond': conds, 'base': base,
       'strat': rng.choice([['u'], ['u'], ['s', 'b'], ['u', 's']]),
       'cov': [cov], 'child': child, 'where': gen.wheres(rng, where_p)}
  if rng.random() < .1:
    s = {'k': 'bin', 'op': '*', 'a': s, 'b': 2, 'where': []}
  return s


# Names the library gives to columns and tables of its own queries.
OWN = ['sum_sum_w', 'count_bucket', 'sum_tier', 'ct', 'total_table', 'unit',
       'change_base', 'LOO', 'Data', 'count_ct', 'ResampledResults']
# ... to the sums and counts that a mean is made of: no metric of the query has
# these names (a dimension named as a metric is the user's mistake).
PARTS = ['sum_' + c for c in 'xyzwf'] + ['count_x', 'count_y', 'count_f']


def own_names(s):
  means = {'Mean', 'Variance', 'StandardDeviation', 'CV', 'Jackknife',
           'Bootstrap', 'PoissonBootstrap'}
  return OWN + PARTS * 2 * all(o['k'] in means for o in spots(s) if 'k' in o)


def renamed(rng, df, s, split, more=()):
  """The metric and table with expressions or quoted names as dimensions."""
  quoted = rng.random() < .5
  names, mem, stored = {}, df.copy(), df
  dims = [c for c in sorted(used(s) | set(split) | set(more))
          if c not in ('c', 'd')]
  if quoted:
    # Dimensions with one alias: a known finding.
    clash = rng.choice(['a b', 'a\nb', 'a_b', 'a-b'])
    odd = rng.sample([o for o in c19.ODD if o == clash or o not in (
        'a b', 'a\nb', 'a_b', 'a-b')], min(len(dims), 4))
    pairs = [(c, o) for c, o in zip(dims, odd)
             if c not in gen.filter_cols(s) and rng.random() < .7]
    stored = df.rename(columns=dict(pairs))
    names = {c: '`%s`' % o for c, o in pairs}
    mem = df.rename(columns=names)
  elif rng.random() < .5:
    # Names that the library itself might give to a column or table.
    own = list(dict.fromkeys(rng.sample(own_names(s), 8)))
    pairs = [(c, o) for c, o in zip(dims, own)
             if c not in gen.filter_cols(s) and rng.random() < .8]
    names = dict(pairs)
    mem = stored = df.rename(columns=names)
  else:
    exprs = {'s': ('s + 0', lambda d: d.s + 0),
             's2': ('LOWER(s2)', lambda d: d.s2.str.lower()),
             'cond': ('LOWER(cond)', lambda d: d['cond'].str.lower()),
             'b': ('b OR FALSE', lambda d: d.b),
             'h': ('h * 1', lambda d: d.h * 1),
             'u': ("CONCAT(u, '')", lambda d: d.u),
             'g': ('CONCAT(g, g)', lambda d: d.g + d.g)}
    for c in dims:
      if c in exprs and rng.random() < .7:
        names[c] = exprs[c][0]
        mem[exprs[c][0]] = exprs[c][1](df)
  ren = lambda v: names.get(v, v) if isinstance(v, str) else (
      [names.get(x, x) for x in v])
  def walk(o):
    if isinstance(o, dict):
      return {k: ren(v) if v and k in ('over', 'cond', 'strat', 'unit')
              else walk(v) for k, v in o.items()}
    return [walk(v) for v in o] if isinstance(o, list) else o
  s2 = walk(s)
  split = [names.get(c, c) for c in split]
  clean_names(s2, split)
  return s2, split, stored, mem, quoted


def f_dims(rng, rec):
  """Expressions and quoted names as the operation's own dimensions."""
  df = a_table(rng)
  s = op(rng, rng.choice([0, .3]))
  s2, split, stored, mem, quoted = renamed(rng, df, s, splits(rng, s))
  c19.make_fed(s2, mem, split, rng)
  aliased(s2)
  if tied(s2, mem, split):
    raise Skip('ties')
  for o in spots(s2):
    if 'base' in o and not no_base_ok(o, s2, mem):
      raise Skip('no baseline')
  c19.judge(rng, rec, s2, stored, 'T', mem, split,
            'quoted' if quoted else 'exprs', clean=quoted,
            ignore_missing_rows=True)
  rec.add('family_dims')


def f_zeros(rng, rec):
  """Dimension values that contribute nothing: shares of exactly 0."""
  df = a_table(rng)
  over = rng.sample(['g', 's', 's2', 'cond'], rng.choice([1, 1, 2]))
  for c in rng.choice([['w'], ['f'], ['w', 'f']]):
    df.loc[df[over[0]] == rng.choice(sorted(set(df[over[0]]))), c] = 0
  leaf = lambda c: {'k': 'Sum', 'var': c, 'where': gen.wheres(rng, .15)}
  child = rng.choice([
      leaf('w'), leaf('f'), {'k': 'Mean', 'var': 'w', 'where': []},
      {'k': 'list', 'ch': [leaf('w'), leaf('f')]},
      {'k': 'list', 'ch': [leaf('f'), {'k': 'Count', 'var': 'w', 'where': []}]}])
  s = op(rng, rng.choice([0, 0, .3]), rng.choice(
      ['Entropy', 'Entropy', 'Distribution', 'HHI', 'TopK', 'Nxx']), child)
  s['over'] = over if len(over) > 1 or rng.random() < .5 else over[0]
  if s['k'] in ('Entropy', 'HHI') and 'cond' not in over and rng.random() < .3:
    s = {'k': 'AbsoluteChange', 'cond': 'cond', 'base': 'ctl', 'child': s,
         'where': [], 'include_base': rng.random() < .3}
  split = splits(rng, s)
  div = s if 'over' in s else s['child']
  by = list(split) + (['cond'] if div is not s else [])
  def fed(mem):
    where = s['where'] + (div['where'] if div is not s else [])
    part = mem.iloc[gen.fmask(where, mem)]
    cells = gen.build(child).compute_on(part, by + over)
    total = (cells.groupby(by, observed=True).sum() if by else
             cells.sum().to_frame().T)
    if (total == 0).any(axis=None):
      raise Skip('shares of nothing')
  go(rng, rec, s, df, split, 'zeros', fed)


FAMILIES = [('one', 5, f_one), ('nested', 2, f_nested), ('list', 3, f_list),
            ('gaps', 1, f_gaps), ('zeros', 1, f_zeros),
            ('adj', 2, f_adj), ('dims', 1, f_dims)]
SMALL = pd.DataFrame({'x': [1., 2., 4., 3.], 'g': ['a', 'a', 'b', 'b'],
                      'h': [1, 2, 1, 2]})


def finding_nested(rec):
  """Listed finding: diversity of an operation that has dimensions."""
  m = lambda: D.HHI('g', O.Distribution('h', M.Sum('x')))
  c19.compare(m(), m(), SMALL, None, 'HHI of a Distribution',
              'sql-diversity-of-operation')


def finding_alias(rec):
  """Listed finding: two dimensions with one alias."""
  df = pd.DataFrame({'x': [1., 2., 3., 4., 5., 6.], 'a b': [1, 1, 2, 2, 1, 1],
                     'a_b': list('ppppqq'), 'c': [1, 2, 1, 2, 1, 2]})
  mem = df.rename(columns={'a b': '`a b`', 'a_b': '`a_b`'})
  m = lambda: O.PercentChange('`a_b`', 'p', M.Sum('x'), include_base=True)
  run = sqlx.Run(df, 1)
  res = sqlx.call(lambda: m().compute_on_sql('T', ['`a b`'], run.execute),
                  'a change over a dimension whose alias clashes', {}, run,
                  'sql-dimension-alias-clash')
  sqlx.check(m().compute_on(mem, ['`a b`']), res, 'a change over a dimension '
             'whose alias clashes', {}, run, 'sql-dimension-alias-clash')


FINDINGS = {'sql-dimension-alias-clash': finding_alias, 'sql-diversity-of-operation': finding_nested}
