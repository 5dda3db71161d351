"""C10: percent and absolute changes against the slice's own baseline."""
import math

import pandas as pd

from mon import cmpx, gen
from mon.cmpx import ANY, Norm, check, run
from mon.core import Skip, Violation

RULE = ('one random percent/absolute change with one or several condition '
        'columns of any kind and slices that may lack the baseline; the child '
        'is evaluated alone on the rows of every (slice, condition) and the '
        'change recomputed in plain Python; distinct = (spec, grouping, number '
        'of conditions seen); trivial = no non-baseline condition')
ASSUMPTIONS = [
    'the baseline occurs somewhere in the data (otherwise an error is raised)',
    'division by a zero baseline follows IEEE arithmetic (inf or missing)']
LIMITS = {'quick': (7000, 50), 'thorough': (80000, 600)}
MIN_EVENTS = {'changes_checked': 20000, 'missing_baselines': 3000,
              'base_rows_checked': 1000, 'multi_column_conditions': 1000}

CONDS = {
    'str': (['ctl', 't1', 't2'], 'ctl'),
    'odd': (['a b', "o'k", 'é'], "o'k"),
    'int': ([0, 1, 2], 1),
    'neg': ([-1, 0, 5], 5),
    'bool': ([False, True], False),
    'date': (gen.DATES, gen.DATES[1]),
    'float': ([.5, 1.0, 2.25], .5),
    'strnum': (['0', '1', '10'], '1'),
}


def pct(a, b):
  if a is None or b is None:
    return None
  if b == 0:
    if a == 0:
      return None
    return math.copysign(math.inf, a) * (math.copysign(1, b))
  r = (a / b - 1) * 100
  return None if math.isnan(r) else r


def absd(a, b):
  if a is None or b is None:
    return None
  r = a - b
  return None if math.isnan(r) else r


def child_spec(rng, where_p):
  r = rng.random()
  if r < .5:
    return gen.measure(rng, 'robust', where_p)
  if r < .75:
    return gen.pos_measure(rng, where_p)
  if r < .85:
    return {'k': 'Ratio', 'var': 'x', 'var2': 'w'}
  if r < .9:
    return {'k': 'list', 'ch': gen.dedup([
        gen.scalar(rng, 1), {'k': 'Count', 'var': 'x'},
        {'k': 'CountD', 'var': 'i'}])}
  k = rng.choice(['Distribution', 'HHI', 'Entropy', 'PercentChange',
                  'AbsoluteChange', 'CumulativeDistribution'])
  s = gen.operation(rng, k, over=['s2'], lists=rng.random() < .3)
  if k in ('PercentChange', 'AbsoluteChange'):
    s.update(cond='s2', base='p', include_base=rng.random() < .5)
  return s


def f_change(rng, rec):
  n = rng.choice([6, 12, 25, 50])
  df = gen.table(rng, n=n, nan=rng.choice([0, 0, .2]), rich=rng.random() < .5)
  if rng.random() < .12:
    df[['x', 'y', 'z']] = df[['x', 'y', 'z']].round().astype(
        float) * rng.choice([0, 1, 1, 1])
  conds, bases = [], []
  names = rng.sample(['cond', 'k2', 'k3'], rng.choice([1, 1, 1, 2, 2, 3]))
  sparse = rng.random() < .5
  for c in names:
    vals, base = CONDS[rng.choice(list(CONDS))]
    vals = [v for v in vals if v == base or rng.random() < .8]
    df[c] = [rng.choice(vals) for _ in range(n)]
    if rng.random() < .2 and not isinstance(base, bool):
      df[c] = pd.Categorical(df[c], categories=sorted(vals) + (
          ['zz'] if isinstance(base, str) else []))
    conds.append(c)
    bases.append(base)
  # The baseline occurs.
  j = rng.randrange(n)
  for c, b in zip(names, bases):
    df.iloc[j, df.columns.get_loc(c)] = b
  where_p = rng.choice([0, 0, .3])
  ch = child_spec(rng, where_p)
  if 'cond' in gen.filter_cols(ch):
    raise Skip('')
  ex = gen.extra_index(ch)
  split = gen.split(rng, cands=('g', 'h', 'c', 'b', 'd'), maxn=3, p0=.2)
  kind = rng.choice(['PercentChange', 'AbsoluteChange'])
  spec = {'k': kind, 'cond': conds if len(conds) > 1 or rng.random() < .4
          else conds[0],
          'base': tuple(bases) if len(bases) > 1 else bases[0],
          'include_base': rng.random() < .4, 'child': ch,
          'where': gen.wheres(rng, where_p)}
  shown = dict(spec, base=[str(b) for b in bases])
  data = df.iloc[gen.fmask(spec['where'], df)] if spec['where'] else df
  det = {'spec': shown, 'split_by': split, 'table': gen.df_repr(df),
         'dtypes': str(dict(df.dtypes.astype(str)))}
  key = tuple(cmpx.keyval(b) for b in bases)
  # Reference.
  filtered = bool(gen.filter_cols(ch))
  ns, nc = len(split), len(conds)
  want, optional, cols = {}, set(), None
  n_base = 0
  for sl, pos in gen.cells(data, split).items():
    sl = tuple(map(cmpx.keyval, sl))
    sub = data.iloc[pos].reset_index(drop=True)
    cells = {}
    for k2, pos2 in gen.cells(sub, conds).items():
      k2 = tuple(map(cmpx.keyval, k2))
      part = sub.iloc[pos2].reset_index(drop=True)
      try:
        if filtered:
          nn = cmpx.norm(gen.build(ch).compute_on(part, list(conds)))
          d = {k[nc:]: v for k, v in nn.rows}
        else:
          nn = cmpx.norm(gen.build(ch).compute_on(part))
          d = dict(nn.rows)
      except KeyError:
        # The nested comparison has no baseline here.
        d = None
      if d is not None:
        cols = cols or nn.cols
      cells[k2] = d
    base = cells.get(key)
    if base:
      n_base += 1
    for k2, d in cells.items():
      if k2 == key and not spec['include_base']:
        continue
      if d is None:
        optional.add((sl, k2))
        continue
      for k3, vs in d.items():
        bv = (base or {}).get(k3)
        if bv is None:
          rec.add('missing_baselines')
          e = [None] * len(vs)
        else:
          f = pct if kind == 'PercentChange' else absd
          e = [f(a, b) for a, b in zip(vs, bv)]
          if cells[key] is None:
            e = [ANY] * len(vs)
        if base is None and key in cells:
          e = [ANY] * len(vs)  # nested baseline missing
        want[sl + k2 + k3] = e
  if not n_base or cols is None:
    raise Skip('no baseline in the data')
  m = gen.build(spec)
  got = cmpx.norm(run(lambda: m.compute_on(df, list(split)), 'compute_on', det))
  det['got'] = got.dump()
  tmpl = {'PercentChange': '%s Percent Change',
          'AbsoluteChange': '%s Absolute Change'}[kind]
  if got.cols != [tmpl % c for c in cols]:
    raise Violation('columns %r instead of %r' % (
        got.cols, [tmpl % c for c in cols]), det)
  if got.names != list(split) + conds + list(ex):
    raise Violation('index %r instead of %r' % (
        got.names, list(split) + conds + list(ex)), det)
  gd = got.d
  if len(gd) != len(got.rows):
    raise Violation('duplicated rows', det)
  extra = [k for k in gd if k not in want and (k[:ns], k[ns:ns + nc])
           not in optional]
  gone = [k for k in want if k not in gd]
  if extra or gone:
    raise Violation('rows that should not exist %r / missing rows %r' % (
        extra[:4], gone[:4]), det)
  if not spec['include_base'] and any(k[ns:ns + nc] == key for k in gd):
    raise Violation('baseline rows reported though not asked for', det)
  for k, e in want.items():
    for a, b, c in zip(gd[k], e, cols):
      if isinstance(b, float) and math.isinf(b) and isinstance(
          a, float) and math.isinf(a):
        # The sign of a zero baseline is not determined.
        rec.add('zero_baselines')
        continue
      if not cmpx.close(a, b, 1e-7, 1e-7):
        raise Violation('change of %r at %r is %r instead of %r' % (c, k, a, b),
                        det)
      rec.add('changes_checked')
    if k[ns:ns + nc] == key:
      rec.add('base_rows_checked')
  if nc > 1:
    rec.add('multi_column_conditions')
  rec.trivial = all(k[ns:ns + nc] == key for k in want)
  rec.signature(shown, split, len(want))
  rec.sample = {'spec': shown, 'split_by': split, 'rows': len(want)}


FAMILIES = [('change', 1, f_change)]
