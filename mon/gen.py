"""Workload generators: tables, filters, metric trees (as JSON-able specs)."""
import datetime
import math
import random
import zlib

import numpy as np
import pandas as pd

from mon import env
env.setup()

from meterstick import metrics as M  # pylint: disable=g-import-not-at-top
from meterstick import operations as O
from meterstick import diversity as D
from meterstick import models as MD

GROUP_COLS = ('g', 'h', 'c', 'b', 'd')
G_VALS = ['a', 'b', "o'k", 'd e', 'Z', 'é']
# Labels that differ only in what careless comparisons ignore.
ALIKE = [('a', 'A'), ('d e', 'de'), ('Z', 'z'), ('d e', 'd  e'), ('b', 'b '),
         ('1', '01'), ('1', '1.0')]
C_CATS = ['lo', 'mid', 'hi', 'never', 'nope']
DATES = [pd.Timestamp('2020-01-01'), pd.Timestamp('2020-01-02'),
         pd.Timestamp('2021-03-01')]


def dy(rng, lo=-8, hi=16, q=4):
  """A small dyadic number: sums and products of these are exact floats."""
  return rng.randint(lo * q, hi * q) / q


def table(rng, n=None, nan=0.0, nan_cols=('x',), rich=False, index='any',
          conds=('ctl', 't1', 't2'), n_units=None, dense=False, cols=None,
          sql=False, group_vals=3, positive=False, strata=3):
  """A table with every kind of column the specs refer to.

  rich: all measure columns are continuous-looking and slices are not tiny.
  """
  if n is None:
    n = rng.choice([6, 9, 14, 20, 30, 45]) if not rich else rng.choice([40, 60])
  ng = rng.randint(1, group_vals)
  gs = rng.sample(G_VALS, min(ng, len(G_VALS)))
  if rng.random() < .25:
    gs = list(rng.choice(ALIKE)) + gs[:1]
  if sql:
    gs = rng.sample(['a', 'b', 'd e', 'Z', 'A'], min(ng, 4))
  hs = rng.sample([1, 2, 3, 10, -1], rng.randint(1, group_vals))
  if len(hs) > 1 and rng.random() < .25:
    hs[:2] = [-1, -2]  # hash(-1) == hash(-2)
  cs = rng.sample(C_CATS[:3], rng.randint(1, 3))
  ds = rng.sample(DATES, rng.randint(1, 3))
  nu = n_units or rng.randint(2, max(2, min(9, n)))
  if rng.random() < .5:
    units = rng.sample(range(1, 40), nu)
  else:
    units = ['u%s' % i for i in rng.sample(range(1, 40), nu)]
  lo = 1 if positive else -8

  def num():
    v = dy(rng, lo, 16) if not rich else rng.randint(lo * 64, 16 * 64) / 64
    return v

  if rng.random() < .15:
    # Skewed data: heavy repetition.
    pool = [num() for _ in range(3)]
    numf = (lambda: rng.choice(pool)) if not rich else num
  else:
    numf = num
  rows = []
  tkeys = list(range(n))
  rng.shuffle(tkeys)
  for i in range(n):
    r = dict(
        x=numf(), y=numf(), z=numf(),
        w=rng.choice([.5, 1., 1.5, 2., 4.]), f=rng.randint(1, 4),
        g=rng.choice(gs), h=rng.choice(hs), c=rng.choice(cs),
        b=rng.random() < .5, d=rng.choice(ds), u=rng.choice(units),
        cond=rng.choice(conds), s=rng.choice(range(strata)),
        s2=rng.choice('pq'),
        p=dy(rng, 0, 8), q=dy(rng, 0, 8), t=tkeys[i], i=rng.randint(-3, 6))
    rows.append(r)
  if dense:
    # Every (cond) occurs for every (g); used where a baseline is required.
    k = 0
    for gv in gs:
      for cv in conds:
        for _ in range(2):
          rows[k % n].update(g=gv, cond=cv)
          k += 1
  for r in rows:
    for col in nan_cols:
      if rng.random() < nan:
        r[col] = math.nan
  df = pd.DataFrame(rows)
  # Object columns with NaN would be odd; measures stay float.
  for col in ('x', 'y', 'z', 'w', 'p', 'q'):
    df[col] = df[col].astype(float)
  df['c'] = pd.Categorical(df['c'], categories=C_CATS,
                           ordered=rng.random() < .5)
  if cols:
    df = df[list(cols)]
  return reindex(rng, df, index)


INDEX_KINDS = ('range', 'dup', 'str', 'named', 'multi', 'offset', 'neg',
               'sorted', 'blocks')


def reindex(rng, df, kind='any'):
  if kind == 'any':
    kind = rng.choice(INDEX_KINDS)
  n = len(df)
  df = df.copy()
  if kind == 'range':
    df.index = pd.RangeIndex(n)
  elif kind == 'dup':
    df.index = [rng.randint(0, 2) for _ in range(n)]
  elif kind == 'sorted':  # like the one set_index() leaves on sorted data
    df.index = sorted(rng.randint(0, max(1, n // 3)) for _ in range(n))
  elif kind == 'blocks':  # like the one pd.concat() leaves
    df.index = [i % max(1, n // 2) for i in range(n)]
  elif kind == 'str':
    df.index = ['r%s' % rng.randint(0, n) for _ in range(n)]
  elif kind == 'named':
    df.index = pd.Index([rng.randint(0, n) for _ in range(n)],
                        name=rng.choice(['idx', 'foo', 'Value', 'Metric']))
  elif kind == 'multi':
    df.index = pd.MultiIndex.from_arrays(
        [[rng.randint(0, 1) for _ in range(n)],
         [rng.choice('kl') for _ in range(n)]], names=['m1', 'm2'])
  elif kind == 'offset':
    df.index = pd.RangeIndex(100, 100 + n)
  else:
    df.index = pd.RangeIndex(n, 0, -1)
  return df


def plain(v):
  """Python scalar of a cell; missing becomes None."""
  if v is None:
    return None
  if isinstance(v, (float, np.floating)):
    return None if math.isnan(v) else float(v)
  if isinstance(v, (bool, np.bool_)):
    return bool(v)
  if isinstance(v, np.integer):
    return int(v)
  if v is pd.NaT:
    return None
  return v


def rows_of(df):
  cols = list(df.columns)
  return [dict(zip(cols, map(plain, r)))
          for r in df.itertuples(index=False, name=None)]


def cells(df, cols):
  """{key tuple: [row positions]} in sorted key order; own grouping code."""
  out = {}
  vals = [[plain(v) for v in df[c].tolist()] for c in cols]
  for i, k in enumerate(zip(*vals) if cols else [()] * len(df)):
    out.setdefault(k, []).append(i)
  return out


# ------------------------------------------------------------------ filters


def filt(rng, depth=1, cols=None, sql=False):
  """A filter expression AST over never-missing columns plus x."""
  if depth > 0 and rng.random() < .4:
    k = rng.choice(['and', 'or', 'or', 'not'])
    if k == 'not':
      return ['not', filt(rng, depth - 1, cols, sql)]
    return [k, filt(rng, depth - 1, cols, sql), filt(rng, depth - 1, cols, sql)]
  c = rng.choice(cols or ['i', 'i', 'f', 'p', 'g', 's', 'h', 'w'])
  if c == 'g':
    v = rng.choice(['a', 'b', 'Z'] if sql else
                   ['a', 'b', 'Z', 'd e', 'A', '1'])
    if rng.random() < .15:
      return ['cmp', 'g', rng.choice(['in', 'not in']),
              rng.sample(['a', 'b', 'Z', 'd', 'A'], rng.choice([2, 3]))]
    return ['cmp', 'g', rng.choice(['==', '!=']), v]
  if c == 'cond':
    return ['cmp', 'cond', '!=', 't2']
  op = rng.choice(['>', '<', '>=', '<=', '==', '!=', '>', '<='])
  if c in ('i', 's', 'h') and rng.random() < .1:
    return ['cmp', c, rng.choice(['in', 'not in']),
            rng.sample(range(4), rng.choice([2, 3]))]
  lim = {'i': (-2, 5), 'f': (1, 3), 's': (0, 2), 'h': (1, 3)}.get(c)
  v = rng.randint(*lim) if lim else rng.choice([1.5, 2.0, 1.0, 3.25])
  if sql and op == '!=' and False:
    op = '>'
  return ['cmp', c, op, v]


def near(rng, f):
  """A filter that looks almost like f."""
  if f[0] == 'not':
    return ['not', near(rng, f[1])] if rng.random() < .7 else f[1]
  if f[0] in ('and', 'or'):
    r = rng.random()
    if r < .4:
      return [{'and': 'or', 'or': 'and'}[f[0]]] + f[1:]
    if r < .7:
      return [f[0], near(rng, f[1]), f[2]]
    return [f[0], f[1], near(rng, f[2])]
  _, c, op, v = f
  if op in ('in', 'not in'):
    return (['cmp', c, op, v[1:] + v[:1] + [v[0] + v[0]]] if rng.random() < .5
            else ['cmp', c, 'in' if op == 'not in' else 'not in', v])
  if isinstance(v, str):
    alike = [b if v == a else a for a, b in ALIKE if v in (a, b)]
    if alike and rng.random() < .7:
      return ['cmp', c, op, rng.choice(alike)]
    return ['cmp', c, {'==': '!=', '!=': '=='}[op], v]
  r = rng.random()
  if r < .5:
    return ['cmp', c, {'>': '>=', '>=': '>', '<': '<=', '<=': '<', '==': '>=',
                       '!=': '>'}[op], v]
  return ['cmp', c, op, v + 1]


def ftext(f):
  k = f[0]
  if k == 'cmp':
    v = lambda x: repr(x) if not isinstance(x, str) else '"%s"' % (
        x.replace('\\', '\\\\').replace('"', '\\"'))
    if f[2] in ('in', 'not in'):
      return '%s %s (%s)' % (f[1], f[2], ', '.join(map(v, f[3])))
    return '%s %s %s' % (f[1], f[2], v(f[3]))
  if k == 'not':
    return 'not (%s)' % ftext(f[1])
  style = zlib.crc32(repr(f).encode()) % 8
  if style == 0:
    return k.join('(%s)' % ftext(s) for s in f[1:])
  # Deliberately no parentheses around comparisons; nested ones get them.
  parts = [ftext(s) if s[0] == 'cmp' else '(%s)' % ftext(s) for s in f[1:]]
  return ((' %s ' if style > 1 else '\t%s  ') % k).join(parts)


def feval(f, row):
  k = f[0]
  if k == 'cmp':
    a, b = row[f[1]], f[3]
    if f[2] in ('in', 'not in'):
      return (a in b) == (f[2] == 'in')
    if a is None:
      return f[2] == '!='
    return {'>': lambda: a > b, '<': lambda: a < b, '>=': lambda: a >= b,
            '<=': lambda: a <= b, '==': lambda: a == b,
            '!=': lambda: a != b}[f[2]]()
  if k == 'not':
    return not feval(f[1], row)
  if k == 'and':
    return feval(f[1], row) and feval(f[2], row)
  return feval(f[1], row) or feval(f[2], row)


def fmask(fs, df):
  rows = rows_of(df)
  return [i for i, r in enumerate(rows) if all(feval(f, r) for f in fs)]


def where_arg(fs):
  """None, a string or a tuple of strings."""
  if not fs:
    return None
  t = [ftext(f) for f in fs]
  return t[0] if len(t) == 1 else tuple(t)


# -------------------------------------------------------------------- specs
# spec = {'k': kind, ..., 'where': [filter ASTs]}


def leaf(rng, pool='robust', cols=('x', 'y', 'z'), where_p=0.0, sql=False):
  """A single-column leaf spec.

  robust: well conditioned on any slice; rich: needs non-degenerate slices.
  """
  c = rng.choice(cols)
  robust = ['Sum', 'Sum', 'Count', 'Mean', 'Mean', 'Max', 'Min', 'Dot', 'CountD',
            'Variance', 'StandardDeviation']
  rich = ['CV', 'Correlation', 'Cov', 'WMean', 'WVariance', 'WSD', 'WCov',
          'FCov', 'DotN', 'WCorr', 'Quantile']
  if sql:
    rich = [r for r in rich if r != 'Quantile']
  k = rng.choice(robust + (rich if pool == 'rich' else []))
  s = {'k': k, 'var': c}
  others = [o for o in cols if o != c] or [c]
  if k in ('Dot', 'DotN', 'Correlation', 'Cov', 'WCov', 'FCov', 'WCorr'):
    s['var2'] = rng.choice(others + ([c] if k in ('Dot', 'Cov') else []))
  if k in ('Variance', 'StandardDeviation', 'CV', 'WVariance', 'WSD'):
    s['unbiased'] = rng.random() < .6
  if k in ('Cov', 'WCov', 'FCov'):
    s['bias'] = rng.random() < .4
    s['ddof'] = rng.choice([None, None, 0, 1, 2])
  if k == 'Quantile':
    s['quantile'] = rng.choice([0, .25, .5, .9, 1])
  if rng.random() < where_p:
    s['where'] = [filt(rng) for _ in range(rng.choice([1, 1, 2]))]
  return s


def wheres(rng, p):
  if rng.random() < p:
    return [filt(rng) for _ in range(rng.choice([1, 1, 2]))]
  return []


def scalar(rng, depth=2, pool='robust', where_p=.2, cols=('x', 'y', 'z'),
           sql=False, leaf_fn=None):
  """A single-column metric: a leaf or arithmetic."""
  lf = leaf_fn or (lambda: leaf(rng, pool, cols, where_p, sql))
  if depth <= 0 or rng.random() < .4:
    return lf()
  r = rng.random()
  rec = lambda: scalar(rng, depth - 1, pool, where_p, cols, sql, leaf_fn)
  if r < .12:
    a, b = rng.sample(['x', 'y', 'z'], 2)
    return {'k': 'Ratio', 'var': a, 'var2': rng.choice(['p', 'w', 'f', b]),
            'where': wheres(rng, where_p)}
  op = rng.choice(['+', '-', '*', '/', '/'])
  if r < .3:
    const = rng.choice([2, 3, .5, -1, -2, 100, 1.5])
    a, b = (const, rec()) if rng.random() < .5 else (rec(), const)
    if op == '/' and isinstance(b, dict):
      # constant / metric: keep the denominator safely away from zero.
      b = safe_denom(rng, where_p)
    return {'k': 'bin', 'op': op, 'a': a, 'b': b, 'where': wheres(rng, where_p)}
  if r < .36:
    return {'k': 'neg', 'a': rec()}
  if r < .42:
    return {'k': 'bin', 'op': '**', 'a': rec(), 'b': 2,
            'where': wheres(rng, where_p)}
  a = rec()
  b = safe_denom(rng, where_p) if op == '/' else rec()
  return {'k': 'bin', 'op': op, 'a': a, 'b': b, 'where': wheres(rng, where_p)}


def safe_denom(rng, where_p=0.0):
  """A metric over strictly positive columns: never zero on a non-empty slice."""
  k = rng.choice(['Sum', 'Mean', 'Max', 'Count', 'Sum'])
  return {'k': k, 'var': rng.choice(['w', 'f']), 'where': wheres(rng, where_p)}


def multi(rng, depth=1, n=None, uniq=True, **kw):
  ch = [scalar(rng, depth, **kw) for _ in range(n or rng.choice([2, 2, 3]))]
  if uniq:
    ch = dedup(ch)
  return {'k': 'list', 'ch': ch}


def dedup(ch):
  """Removes children whose displayed names would collide."""
  seen, out = set(), []
  for c in ch:
    nm = build(c).name
    if nm not in seen:
      seen.add(nm)
      out.append(c)
  return out


def op_spec(rng, child, kinds=None, cond=None):
  k = rng.choice(kinds or ['Distribution', 'PercentChange', 'AbsoluteChange',
                           'CumulativeDistribution'])
  if k in ('Distribution', 'CumulativeDistribution'):
    over = rng.choice([['cond'], ['s'], ['g2']]) if False else rng.choice(
        [['cond'], ['s'], ['s', 's2']])
    return {'k': k, 'over': over, 'child': child}
  return {'k': k, 'cond': 'cond', 'base': 'ctl', 'child': child,
          'include_base': rng.random() < .3}


TEMPLATED = ('Distribution', 'CumulativeDistribution', 'PercentChange',
             'AbsoluteChange', 'MH', 'PrePost', 'CUPED', 'Jackknife',
             'Bootstrap', 'PoissonBootstrap')


def templated(rng, s, p):
  """Gives some operations in s (in place) a name template; returns how many."""
  n = [0]

  def walk(o):
    if isinstance(o, dict):
      if o.get('k') in TEMPLATED and not o.get('impl') and rng.random() < p:
        n[0] += 1
        o['tmpl'] = rng.choice(['my%d {}', '{} %% %d', 'a%d {} b', '<{}>%d',
                                'Distribution of %d {}']) % n[0]
      for k, v in o.items():
        if k != 'where':
          walk(v)
    elif isinstance(o, (list, tuple)):
      for v in o:
        walk(v)

  walk(s)
  return n[0]


# A user's own class that inherits everything.
USERS = {k: type('My' + k, (getattr(O, k),), {})
         for k in ('Jackknife', 'Bootstrap', 'PoissonBootstrap')}


def user_class(rng, spec, p=.15):
  if rng.random() < p:
    spec['sub'] = True
  return spec


def build(s):
  """Builds the meterstick metric of a spec."""
  if not isinstance(s, dict):
    return s
  k = s['k']
  w = where_arg(s.get('where'))
  kw = {}
  if s.get('name'):
    kw['name'] = s['name']
  if s.get('tmpl') and k in TEMPLATED:
    kw['name_tmpl'] = s['tmpl']
  if s.get('impl'):
    from mon import custom  # pylint: disable=g-import-not-at-top
    return custom.build(s, w, build(s['child']) if 'child' in s else None, kw)
  if k in ('Sum', 'Count', 'Mean', 'Max', 'Min'):
    return getattr(M, k)(s['var'], where=w, **kw)
  if k == 'CountD':
    return M.Count(s['var'], distinct=True, where=w, **kw)
  if k == 'WMean':
    return M.Mean(s['var'], weight=s.get('weight', 'w'), where=w, **kw)
  if k in ('Dot', 'DotN'):
    return M.Dot(s['var'], s['var2'], normalize=k == 'DotN', where=w, **kw)
  if k in ('Variance', 'StandardDeviation', 'CV'):
    return getattr(M, k)(s['var'], s.get('unbiased', True), where=w, **kw)
  if k == 'WVariance':
    return M.Variance(s['var'], s.get('unbiased', True), s.get('weight', 'w'),
                      where=w, **kw)
  if k == 'WSD':
    return M.StandardDeviation(s['var'], s.get('unbiased', True),
                               s.get('weight', 'w'), where=w, **kw)
  if k == 'Cov':
    return M.Cov(s['var'], s['var2'], s.get('bias', False), s.get('ddof'),
                 where=w, **kw)
  if k == 'WCov':
    return M.Cov(s['var'], s['var2'], s.get('bias', False), s.get('ddof'),
                 weight=s.get('weight', 'w'), fweight=s.get('fweight'),
                 where=w, **kw)
  if k == 'FCov':
    return M.Cov(s['var'], s['var2'], s.get('bias', False), s.get('ddof'),
                 fweight=s.get('fweight', 'f'), where=w, **kw)
  if k == 'Correlation':
    return M.Correlation(s['var'], s['var2'], method=s.get('method', 'pearson'),
                         where=w, **kw)
  if k == 'WCorr':
    return M.Correlation(s['var'], s['var2'], weight=s.get('weight', 'w'),
                         where=w, **kw)
  if k == 'Quantile':
    return M.Quantile(s['var'], s['quantile'],
                      interpolation=s.get('interpolation', 'linear'),
                      where=w, **kw)
  if k == 'WQuantile':
    return M.Quantile(s['var'], s['quantile'], weight=s.get('weight', 'w'),
                      where=w, **kw)
  if k == 'Nth':
    return M.Nth(s['var'], s['n'], s['sort_by'], s.get('ascending', True),
                 s.get('dropna', False), where=w, **kw)
  if k == 'Ratio':
    return M.Ratio(s['var'], s['var2'], where=w, **kw)
  if k == 'bin':
    a, b = build(s['a']), build(s['b'])
    r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
         '/': lambda: a / b, '**': lambda: a ** b}[s['op']]()
    if w:
      r.where = w
    if s.get('name'):
      r.set_name(s['name'])
    return r
  if k == 'neg':
    r = -build(s['a'])
    if w:
      r.where = w
    return r
  if k == 'list':
    return M.MetricList([build(c) for c in s['ch']], where=w,
                        name_tmpl=s.get('tmpl'), rename_columns=s.get('rename'))
  ch = build(s['child']) if 'child' in s else None
  if k == 'Distribution':
    return O.Distribution(s['over'], ch, where=w, **kw)
  if k == 'CumulativeDistribution':
    return O.CumulativeDistribution(
        s['over'], ch, s.get('order'), s.get('ascending', True),
        s.get('sort_by_values', False), where=w, **kw)
  if k in ('PercentChange', 'AbsoluteChange'):
    return getattr(O, k)(s['cond'], s['base'], ch,
                         include_base=s.get('include_base', False), where=w, **kw)
  if k == 'MH':
    return O.MH(s['cond'], s['base'], s['strat'], ch,
                include_base=s.get('include_base', False), where=w, **kw)
  if k == 'PrePost':
    return O.PrePostChange(s['cond'], s['base'], ch,
                           [build(c) for c in s['cov']], s['strat'], where=w,
                           **kw)
  if k == 'CUPED':
    return O.CUPED(s['cond'], s['base'], ch, [build(c) for c in s['cov']],
                   s['strat'], where=w, **kw)
  if k == 'Model':
    return getattr(MD, s['model'])(build(s['y']), [build(c) for c in s['x']],
                                   list(s['gb']), where=w, **dict(
                                       s.get('kw') or {}, **kw))
  if k in ('HHI', 'Entropy', 'TopK', 'Nxx'):
    if k == 'TopK':
      r = D.TopK(s['over'], s['kk'], ch)
    elif k == 'Nxx':
      r = D.Nxx(s['over'], s['share'], ch)
    else:
      r = getattr(D, k)(s['over'], ch)
    if w:
      r.where = w
    return r
  if k == 'Jackknife':
    cls = USERS[k] if s.get('sub') else O.Jackknife
    return cls(s['unit'], ch, s.get('conf'),
               enable_optimization=s.get('opt', True), where=w, **kw)
  if k in ('Bootstrap', 'PoissonBootstrap'):
    cls = USERS[k] if s.get('sub') else getattr(O, k)
    return cls(s.get('unit'), ch, s.get('n', 20), s.get('conf'),
               enable_optimization=s.get('opt', True), where=w, **kw)
  raise ValueError(k)


def kinds_in(s):
  out = set()
  def walk(o):
    if isinstance(o, dict):
      if 'k' in o:
        out.add(o['k'])
      for v in o.values():
        walk(v)
    elif isinstance(o, list):
      for v in o:
        walk(v)
  walk(s)
  return out


def split(rng, cands=('g', 'h', 'c', 'b', 'd'), maxn=2, p0=.25):
  if rng.random() < p0:
    return []
  k = rng.randint(1, maxn)
  return rng.sample(list(cands), k)


def df_repr(df, max_rows=60):
  """A compact reproducible dump of a table for witnesses."""
  return df.head(max_rows).to_csv(index=True)


# -------------------------------------------------------------- metric trees

ORDERED = ('CumulativeDistribution',)


def measure(rng, pool='robust', where_p=0.0, lists=True, depth=1):
  """One or several columns of aggregates/arithmetic."""
  if lists and rng.random() < .3:
    return multi(rng, depth, pool=pool, where_p=where_p)
  return scalar(rng, depth, pool=pool, where_p=where_p)


def positive_measure(rng, where_p=0.0):
  """A measure that is >= 0 and sums to something positive."""
  k = rng.choice(['Sum', 'Count', 'Mean', 'Max'])
  return {'k': k, 'var': rng.choice(['w', 'f', 'p1']), 'where':
          wheres(rng, where_p)}


def pos_scalar(rng, where_p=0.0):
  """Arithmetic over strictly positive columns: strictly positive values."""
  leaf_ = lambda: {'k': rng.choice(['Sum', 'Count', 'Mean', 'Max', 'Min', 'Dot']),
                   'var': rng.choice(['w', 'f']), 'var2': 'f',
                   'where': wheres(rng, where_p)}
  r = rng.random()
  if r < .5:
    return leaf_()
  if r < .8:
    return {'k': 'bin', 'op': rng.choice(['+', '*', '/']), 'a': leaf_(),
            'b': leaf_(), 'where': wheres(rng, where_p)}
  return {'k': 'bin', 'op': rng.choice(['*', '+']), 'a': leaf_(),
          'b': rng.choice([2, .5, 3]), 'where': wheres(rng, where_p)}


def pos_measure(rng, where_p=0.0, lists=True):
  if lists and rng.random() < .35:
    ch = dedup([pos_scalar(rng, where_p) for _ in range(rng.choice([2, 3]))])
    return list_labels(rng, {'k': 'list', 'ch': ch})
  return pos_scalar(rng, where_p)


def list_labels(rng, s, p=.2):
  """Sometimes gives the columns of a list of scalars other labels."""
  n = len(s['ch'])
  if rng.random() < p:
    s['tmpl'] = rng.choice(['my {}', '{} %', '{}-', 'T {} (pp)'])
  if rng.random() < p:
    s['rename'] = (rng.sample(['r%d' % i for i in range(n)], n)
                   if rng.random() < .6 else
                   rng.sample([build(c).name for c in s['ch']], n))
  return s


OPS_BASIC = ('Distribution', 'CumulativeDistribution', 'PercentChange',
             'AbsoluteChange', 'MH', 'HHI', 'Entropy', 'TopK', 'Nxx')
OPS_ADJ = ('PrePost', 'CUPED')


def operation(rng, kind=None, where_p=0.0, child=None, lists=True, over=None):
  """An operation over strictly positive measures: always well conditioned."""
  k = kind or rng.choice(OPS_BASIC)
  w = wheres(rng, where_p)
  if k in ('Distribution', 'CumulativeDistribution', 'HHI', 'Entropy', 'TopK',
           'Nxx'):
    over = over or rng.choice([['cond'], ['s'], ['s2'], ['s', 's2'],
                               ['s', 'cond']])
    s = {'k': k, 'over': over, 'where': w,
         'child': child or pos_measure(rng, where_p, lists)}
    if k == 'TopK':
      s['kk'] = rng.choice([1, 2, 3])
    if k == 'Nxx':
      s['share'] = rng.choice([.31, .57, .83])
    if k == 'CumulativeDistribution':
      s['ascending'] = rng.random() < .6
    return s
  inc = rng.random() < .3
  if k in ('PercentChange', 'AbsoluteChange'):
    s = {'k': k, 'cond': 'cond', 'base': 'ctl', 'include_base': inc, 'where': w,
         'child': child or pos_measure(rng, where_p, lists)}
    if rng.random() < .2 and not child:
      s.update(cond=['cond', 's2'], base=['ctl', 'p'])
      s['base'] = ('ctl', 'p')
    return s
  if k == 'MH':
    r = lambda: {'k': 'bin', 'op': '/', 'a': {
        'k': 'Sum', 'var': rng.choice('wp'), 'where': wheres(rng, where_p)},
                 'b': {'k': rng.choice(['Sum', 'Count']), 'var': 'f',
                       'where': wheres(rng, where_p)}}
    ch = r()
    if rng.random() < .3:
      ch = {'k': 'list', 'ch': dedup([r(), r()])}
    if rng.random() < .15:
      ch = {'k': 'Ratio', 'var': 'w', 'var2': 'f'}
    return {'k': 'MH', 'cond': 'cond', 'base': 'ctl',
            'strat': rng.choice([['s2'], ['s'], ['s', 's2']]),
            'include_base': inc, 'where': w, 'child': ch}
  if k in ('PrePost', 'CUPED'):
    n = rng.choice([1, 1, 2])
    cov = [{'k': rng.choice(['Sum', 'Mean']), 'var': v}
           for v in rng.sample(['p', 'q'], n)]
    ch = {'k': rng.choice(['Sum', 'Mean']), 'var': 'w', 'where': []}
    if rng.random() < .3:
      ch = {'k': 'list', 'ch': [ch, {'k': 'Mean', 'var': 'f'}]}
    return {'k': k, 'cond': 'cond', 'base': 'ctl', 'cov': cov, 'child': ch,
            'strat': ['u'], 'where': w}
  raise ValueError(k)


def filter_cols(s):
  out = set()
  def walk(o):
    if isinstance(o, (list, tuple)) and len(o) == 4 and o[0] == 'cmp':
      out.add(o[1])
    elif isinstance(o, dict):
      for v in o.values():
        walk(v)
    elif isinstance(o, (list, tuple)):
      for v in o:
        walk(v)
  walk(s)
  return out


def relabel(rng, specs, df, p=.6):
  """Gives g the labels that filters in specs ask for and ones like them."""
  vals = set()

  def walk(o):
    if isinstance(o, (list, tuple)):
      if len(o) == 4 and o[0] == 'cmp' and isinstance(o[3], str) and o[1] == 'g':
        vals.add(o[3])
      else:
        for v in o:
          walk(v)
    elif isinstance(o, dict):
      for v in o.values():
        walk(v)

  walk(specs)
  if not vals or rng.random() > p:
    return df
  for a, b in ALIKE:
    if (a in vals or b in vals) and rng.random() < .5:
      vals |= {a, b}
  vals = sorted(vals)
  rng.shuffle(vals)
  old = sorted(set(df['g']))
  df = df.copy()
  df['g'] = [vals[old.index(v)] if old.index(v) < len(vals) else v
             for v in df['g']]
  return df


def catify(rng, df, cols=('g', 'cond', 's', 's2', 'u', 'h', 'd'), p=.5):
  """Turns some label columns into categoricals with unused categories.

  The categories keep the natural order of the labels.
  """
  df = df.copy()
  for c in cols:
    if c in df and rng.random() < p:
      vals = sorted(set(df[c].tolist()))
      extra = (['zz_unused', 'Aunused'] if isinstance(vals[0], str) else
               [pd.Timestamp('1999-01-01')] if hasattr(vals[0], 'year') else
               [-99, 999])
      df[c] = pd.Categorical(df[c], categories=sorted(vals + extra))
  return df


def baseline_ok(df, cells_pos, cond='cond', base='ctl'):
  vals = df[cond].tolist()
  return all(any(vals[i] == base for i in pos) for pos in cells_pos)


def extra_index(s):
  """Index levels a spec adds to split_by."""
  if not isinstance(s, dict):
    return []
  k = s['k']
  if k == 'list':
    return extra_index(s['ch'][0])
  if k == 'bin':
    return extra_index(s['a']) or extra_index(s['b'])
  if k == 'neg':
    return extra_index(s['a'])
  if k in ('Distribution', 'CumulativeDistribution'):
    return list(s['over']) + extra_index(s['child'])
  if k in ('PercentChange', 'AbsoluteChange', 'MH', 'PrePost', 'CUPED'):
    c = s['cond']
    own = [c] if isinstance(c, str) else list(c)
    if k in ('MH', 'PrePost', 'CUPED'):
      return own
    return own + extra_index(s['child'])
  if k in ('Jackknife', 'Bootstrap', 'PoissonBootstrap', 'HHI', 'Entropy',
           'TopK', 'Nxx'):
    return extra_index(s['child'])
  return []


def loo_sparse(s, df, split, wh=(), zero=False):
  """Whether a filter below a jackknife leaves a slice to a single unit.

  The jackknife then has a replicate without any data in that slice, which the
  two paths treat differently (see DESIGN.md, finding on C14).
  """
  rows = rows_of(df)

  def leaves(o, fs):
    if not isinstance(o, dict):
      return
    fs = fs + list(o.get('where') or [])
    kids = [o.get('child'), o.get('a'), o.get('b')] + list(o.get('ch') or []) + (
        list(o.get('cov') or []))
    kids = [c for c in kids if isinstance(c, dict)]
    if not kids:
      yield fs
    for c in kids:
      yield from leaves(c, fs)

  def walk(o, fs):
    if isinstance(o, list):
      return any(walk(c, fs) for c in o)
    if not isinstance(o, dict):
      return False
    fs = fs + list(o.get('where') or [])
    if o.get('k') == 'Jackknife':
      base = {}
      for r in rows:
        if all(feval(f, r) for f in fs):
          base.setdefault(tuple(r[c] for c in split), []).append(r)
      for lf in leaves(o['child'], []):
        if not lf:
          continue
        for rs in base.values():
          n = len(set(r[o['unit']] for r in rs))
          m = len(set(r[o['unit']] for r in rs if all(feval(f, r) for f in lf)))
          if n > 1 and (m == 1 or (zero and m == 0)):
            return True
    return any(walk(v, fs) for k, v in o.items() if k != 'where')

  return walk(s, list(wh))


def leaf_starved(s, df):
  """Whether the filters above some leaf select no row at all."""
  rows = rows_of(df)

  def walk(o, fs):
    fs = fs + list(o.get('where') or [])
    kids = [o.get('child'), o.get('a'), o.get('b'), o.get('y')]
    for k in ('ch', 'cov', 'x'):
      kids += list(o.get(k) or []) if isinstance(o.get(k), (list, tuple)) else []
    kids = [c for c in kids if isinstance(c, dict)]
    if not kids:
      return bool(fs) and not any(all(feval(f, r) for f in fs) for r in rows)
    return any(walk(c, fs) for c in kids)

  return walk(s, [])


def loo_has_baseline(s, data, split, unit='u'):
  """Whether some slice keeps its baseline when one of its units is removed."""
  need = []
  def walk(o):
    if isinstance(o, dict):
      if 'base' in o and 'cond' in o:
        c, b = o['cond'], o['base']
        c = [c] if isinstance(c, str) else list(c)
        b = [b] if not isinstance(b, (list, tuple)) else list(b)
        need.append((c, b))
      for v in o.values():
        walk(v)
    elif isinstance(o, (list, tuple)):
      for v in o:
        walk(v)
  walk(s)
  rows = rows_of(data)
  for c, b in need:
    units = {}
    for r in rows:
      k = tuple(r[q] for q in split)
      us = units.setdefault(k, (set(), set()))
      us[0].add(r[unit])
      if all(r[q] == v for q, v in zip(c, b)):
        us[1].add(r[unit])
    if not any(len(a) > 1 and bs and (len(bs) > 1 or len(a - bs))
               and any(bs - {u} for u in a) for a, bs in units.values()):
      return False
  return True


def swap_col(s, a, b):
  """Replaces column a by b where operations split by it (not in filters)."""
  if not isinstance(s, dict):
    return s
  out = {}
  for k, v in s.items():
    if k in ('over', 'strat', 'cond'):
      v = (b if v == a else v) if isinstance(v, str) else list(dict.fromkeys(
          b if c == a else c for c in v))
    elif k in ('child', 'a', 'b', 'y'):
      v = swap_col(v, a, b)
    elif k in ('ch', 'cov', 'x') and isinstance(v, list):
      v = [swap_col(c, a, b) for c in v]
    out[k] = v
  return out


def used_cols(s, split, df):
  """The columns of df a spec mentions, in the order of df."""
  out = set(split)
  def walk(o):
    if isinstance(o, dict):
      for v in o.values():
        walk(v)
      if o.get('k') in ('WMean', 'WVariance', 'WSD', 'WCov', 'WCorr'):
        out.add(o.get('weight', 'w'))
      if o.get('k') == 'FCov':
        out.add('f')
    elif isinstance(o, (list, tuple)):
      for v in o:
        walk(v)
    elif isinstance(o, str):
      out.add(o)
  walk(s)
  return [c for c in df.columns if c in out]
