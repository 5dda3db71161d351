"""C09: distributions are shares of the slice total; cumulative ones accumulate."""
import math

import pandas as pd

from mon import cmpx, gen
from mon.cmpx import Norm, check, run
from mon.core import Skip, Violation

from meterstick import operations as O

RULE = ('one random (cumulative) distribution of a random child over one or '
        'several columns, recomputed in plain Python from the child evaluated '
        'on every cell alone; shares, their sum, running sums, final value, '
        'row set and row order are checked per slice and column; distinct = '
        '(spec, grouping, number of cells); trivial = one cell per slice')
ASSUMPTIONS = [
    'a custom order lists every occurring value (what happens to others is not '
    'documented); cells without a value may be left out under a custom order',
    'with sort_by_values and several metric columns only the values, not the '
    'row order, are determined; cells with equal shares may come in any order',
    'slices whose total is zero have no defined shares and are not compared']
LIMITS = {'quick': (8000, 50), 'thorough': (80000, 600)}
MIN_EVENTS = {'cells_checked': 40000, 'slices_checked': 10000,
              'ordered_slices': 3500, 'by_value_columns': 1200,
              'custom_order_slices': 800}

OVERS = [['cond'], ['s'], ['s2'], ['s', 's2'], ['s2', 's'], ['cond', 's'], ['h'],
         ['d'], ['b'], ['u'], ['g', 's', 'b']]


def child_spec(rng, where_p):
  r = rng.random()
  if r < .55:
    return gen.pos_measure(rng, where_p)
  if r < .85:
    return gen.measure(rng, 'robust', where_p)
  if r < .93:
    return {'k': 'list', 'ch': gen.dedup([
        gen.leaf(rng, 'robust', where_p=where_p), {'k': 'Sum', 'var': 'f'}])}
  return {'k': 'Ratio', 'var': 'p', 'var2': 'w'}


def reference(spec, df, over, split):
  """{slice: (cols, {over key: [values]})} from independent child runs."""
  ch = spec['child']
  filtered = bool(gen.filter_cols(ch))
  out = {}
  cols = None
  for key, pos in gen.cells(df, split).items():
    sub = df.iloc[pos].reset_index(drop=True)
    vals = {}
    if filtered:
      n = cmpx.norm(gen.build(ch).compute_on(sub, list(over)))
      cols = n.cols
      vals = {k: v for k, v in n.rows}
    else:
      for k2, pos2 in gen.cells(sub, over).items():
        n = cmpx.norm(gen.build(ch).compute_on(
            sub.iloc[pos2].reset_index(drop=True)))
        cols = n.cols
        vals[tuple(map(cmpx.keyval, k2))] = n.rows[0][1]
    out[tuple(map(cmpx.keyval, key))] = vals
  return cols, out


def shares(vals, j):
  """{over key: share or None}; None for the whole slice when undefined."""
  tot = sum(v[j] for v in vals.values() if v[j] is not None)
  mag = sum(abs(v[j]) for v in vals.values() if v[j] is not None)
  if abs(tot) <= 1e-9 * max(1, mag) or math.isinf(mag):
    return None, 1
  return ({k: None if v[j] is None else v[j] / tot for k, v in vals.items()},
          mag / abs(tot))


def sortkey(k):
  return tuple((0, float(v)) if isinstance(v, (int, float)) else (1, str(v))
               for v in k)


def make(rng, cumulative):
  n = rng.choice([8, 15, 30, 60, 60])
  df = gen.table(rng, n=n, rich=rng.random() < .4, nan=rng.choice([0, 0, .15]),
                 strata=rng.choice([2, 3, 5, 30]), dense=rng.random() < .3,
                 n_units=rng.choice([None, 3, min(n, 25)]))
  over = rng.choice(OVERS)
  if rng.random() < .25:
    # Non-lexical numbers / text as cells.
    df['s'] = df['s'].map(lambda v: 'k%d' % v)
  split = [c for c in gen.split(rng, maxn=2, p0=.3) if c not in over]
  where_p = rng.choice([0, 0, .3])
  ch = child_spec(rng, where_p)
  spec = {'k': 'CumulativeDistribution' if cumulative else 'Distribution',
          'over': over if len(over) > 1 or rng.random() < .5 else over[0],
          'child': ch, 'where': gen.wheres(rng, where_p)}
  strs = df['s'].dtype == object
  if strs and 's' in gen.filter_cols(spec):
    raise Skip('filter on relabelled column')
  data = df.iloc[gen.fmask(spec['where'], df)] if spec['where'] else df
  if not len(data):
    raise Skip('empty')
  return df, data, over, split, spec


def f_dist(rng, rec):
  df, data, over, split, spec = make(rng, False)
  df2 = gen.catify(rng, df, [c for c in ('g', 'cond', 's', 's2', 'u', 'h', 'd')
                             if c not in gen.filter_cols(spec)]
                   ) if rng.random() < .4 else df
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df2)}
  cols, ref = reference(spec, data, over, split)
  got = cmpx.norm(run(lambda: gen.build(spec).compute_on(df2, list(split)),
                      'compute_on', det))
  blocks = grouped(got, split, over, det, False)
  if set(blocks) != {k for k, v in ref.items() if v}:
    raise Violation('slices %r reported, %r occur' % (
        sorted(blocks, key=str)[:5], sorted(ref, key=str)[:5]), det)
  want_cols = ['Distribution of %s' % c for c in cols]
  if got.cols != want_cols:
    raise Violation('columns %r instead of %r' % (got.cols, want_cols), det)
  for sl, vals in ref.items():
    if not vals:
      continue
    b = dict(blocks[sl])
    if len(b) != len(blocks[sl]) or set(b) != set(vals):
      raise Violation('slice %r reports cells %r instead of %r' % (
          sl, sorted(b, key=str), sorted(vals, key=str)),
                      dict(det, got=got.dump()))
    for j in range(len(cols)):
      sh, cond = shares(vals, j)
      if sh is None:
        rec.add('zero_total_columns')
        continue
      tot = 0
      for k, e in sh.items():
        if not cmpx.close(b[k][j], e, 1e-9 * cond, 1e-11 * cond):
          raise Violation('share of %r in slice %r is %r instead of %r' %
                          (k, sl, b[k][j], e), dict(det, got=got.dump()))
        tot += b[k][j] or 0
        rec.add('cells_checked')
      if abs(tot - 1) > 1e-8 * cond:
        raise Violation('shares of slice %r sum to %r' % (sl, tot), det)
      rec.add('slices_checked')
  rec.trivial = all(len(v) < 2 for v in ref.values())
  rec.signature(spec, split, sum(map(len, ref.values())))
  rec.sample = {'spec': spec, 'split_by': split,
                'cells': sum(map(len, ref.values()))}


def grouped(got, split, over, det, together=True):
  if list(got.names) != list(split) + list(over):
    raise Violation('index %r instead of %r' % (got.names, split + over), det)
  blocks = {}
  last = None
  for k, vs in got.rows:
    sl = k[:len(split)]
    if together and sl != last and sl in blocks:
      raise Violation('the rows of slice %r are not together' % (sl,),
                      dict(det, got=got.dump()))
    last = sl
    blocks.setdefault(sl, []).append((k[len(split):], vs))
  return blocks


def f_cum(rng, rec):
  df, data, over, split, spec = make(rng, True)
  mode = rng.choice(['key', 'key', 'custom', 'value'])
  if mode == 'custom' and len(over) > 1:
    over = over[:1]
    spec['over'] = over
    split = [c for c in split if c not in over]
  spec['ascending'] = rng.random() < .5
  if mode == 'custom':
    vals = sorted(set(df[over[0]].tolist()))
    rng.shuffle(vals)
    if rng.random() < .3:
      vals.insert(rng.randint(0, len(vals)),
                  'never' if isinstance(vals[0], str) else
                  pd.Timestamp('1990-01-01') if over == ['d'] else 777)
    if over == ['b']:
      vals = [v for v in vals if isinstance(v, bool)]
    spec['order'] = vals
  elif mode == 'value':
    spec['sort_by_values'] = True
  m = gen.build(spec)
  shown = {k: v for k, v in spec.items()}
  shown['order'] = [str(v) for v in spec.get('order') or []]
  det = {'spec': shown, 'split_by': split, 'table': gen.df_repr(df)}
  cols, ref = reference(spec, data, over, split)
  got = cmpx.norm(run(lambda: m.compute_on(df, list(split)), 'compute_on', det))
  blocks = grouped(got, split, over, det)
  det['got'] = got.dump()
  want_cols = ['Cumulative Distribution of %s' % c for c in cols]
  if got.cols != want_cols:
    raise Violation('columns %r instead of %r' % (got.cols, want_cols), det)
  if mode == 'custom':
    ix = {cmpx.keyval(v): i for i, v in enumerate(spec['order'])}
    rank = lambda k: ix[k[0]]
  else:
    rank = sortkey
  for sl, vals in ref.items():
    undefined = [shares(vals, j)[0] is None for j in range(len(cols))]
    have = [k for k, _ in blocks.get(sl, [])]
    may_drop = lambda vs: mode == 'custom' and all(
        v is None or undefined[j] for j, v in enumerate(vs))
    if mode == 'custom' and all(undefined):
      rec.add('zero_total_columns')
      continue
    gone = [k for k in vals if k not in have]
    if len(set(have)) != len(have) or [k for k in have if k not in vals] or any(
        not may_drop(vals[k]) for k in gone):
      raise Violation('slice %r reports cells %r, %r occur' % (
          sl, have, sorted(vals, key=str)), det)
    b = dict(blocks.get(sl, []))
    if mode != 'value':
      want = sorted(have, key=rank, reverse=not spec['ascending'])
      if have != want:
        raise Violation('slice %r: rows in order %r instead of %r' % (
            sl, have, want), det)
      rec.add('ordered_slices')
      if mode == 'custom':
        rec.add('custom_order_slices')
    for j in range(len(cols)):
      sh, cond = shares(vals, j)
      if sh is None:
        rec.add('zero_total_columns')
        continue
      tol = 1e-9 * cond * max(1, len(have))
      if mode == 'value':
        present = [k for k in have if sh[k] is not None]
        if len(cols) == 1:
          seq = present
          for a, c in zip(seq, seq[1:]):
            d = sh[c] - sh[a] if spec['ascending'] else sh[a] - sh[c]
            if d < -tol:
              raise Violation('slice %r: rows not ordered by value at %r' % (
                  sl, c), det)
          rec.add('ordered_slices')
        else:
          # Order by share; equal shares in the order of their running sums,
          # whichever sign they have.
          q = lambda k: round(sh[k] / cond, 9)
          sgn = 1 if spec['ascending'] else -1
          seq = sorted(present, key=lambda k: (
              sgn * q(k), b[k][j] * (1 if q(k) > 0 else -1)))
          if len(set(q(k) for k in present)) < len(present) and any(
              abs(q(k)) < 1e-6 for k in present):
            rec.add('ambiguous_by_value')
            continue
        rec.add('by_value_columns')
      else:
        seq = have
      tot = 0
      for k in seq:
        e = None
        if sh[k] is not None:
          tot += sh[k]
          e = tot
        if not cmpx.close(b[k][j], e, tol, tol):
          raise Violation(
              'slice %r column %r: running share at %r is %r instead of %r' %
              (sl, cols[j], k, b[k][j], e), det)
        rec.add('cells_checked')
      if not gone and seq and abs(tot - 1) > 1e-8 * cond:
        raise Violation('running shares of slice %r end at %r' % (sl, tot), det)
      rec.add('slices_checked')
  if set(blocks) - set(ref):
    raise Violation('slices that do not occur: %r' % (set(blocks) - set(ref)),
                    det)
  rec.add('mode_' + mode)
  rec.trivial = all(len(v) < 2 for v in ref.values())
  rec.signature(shown, split, sum(map(len, ref.values())))
  rec.sample = {'spec': shown, 'split_by': split, 'mode': mode}


def f_nested(rng, rec):
  """A distribution of an operation: every output row is a cell."""
  df = gen.table(rng, n=rng.choice([30, 60]), dense=True, rich=True,
                 group_vals=2, strata=2)
  kind = rng.choice(['HHI', 'Distribution', 'PercentChange', 'AbsoluteChange',
                     'MH'])
  ch = gen.operation(rng, kind, over=['s2'], lists=False)
  if kind == 'MH':
    ch['strat'] = ['s2']
  spec = {'k': 'Distribution', 'over': ['s'], 'child': ch}
  split = [c for c in gen.split(rng, cands=('g', 'b'), maxn=1)]
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df)}
  got = cmpx.norm(run(lambda: gen.build(spec).compute_on(df, list(split)),
                      'compute_on', det))
  ns = len(split)
  det['got'] = got.dump()
  for key, pos in gen.cells(df, split).items():
    sub = df.iloc[pos].reset_index(drop=True)
    key = tuple(map(cmpx.keyval, key))
    try:
      n = cmpx.norm(gen.build(ch).compute_on(sub, ['s']))
    except KeyError:
      continue
    b = {k[ns:]: v for k, v in got.rows if k[:ns] == key}
    if set(b) != set(n.keys()):
      raise Violation('slice %r reports cells %r instead of %r' % (
          key, sorted(b, key=str), n.keys()), det)
    for j in range(len(n.cols)):
      sh, cond = shares(n.d, j)
      if sh is None or cond > 1e6:
        continue
      for k, e in sh.items():
        if not cmpx.close(b[k][j], e, 1e-8 * cond, 1e-9 * cond):
          raise Violation('share of %r in slice %r is %r instead of %r' %
                          (k, key, b[k][j], e), det)
        rec.add('cells_checked')
      rec.add('slices_checked')
  rec.add('nested_' + kind)
  rec.signature(spec, split)


FAMILIES = [('dist', 4, f_dist), ('cum', 5, f_cum), ('nested', 1, f_nested)]
