"""C12: the Mantel-Haenszel change equals the stratified weighted ratio."""
import math

from mon import cmpx, gen
from mon.cmpx import ANY, Norm, check, run
from mon.core import Skip, Violation

from meterstick import metrics as M
from meterstick import operations as O

RULE = ('one random MH over 1-2 strata columns, 1-2 condition columns, lists '
        'of ratios with filters at every level, on sparse tables; numerator '
        'and denominator are evaluated alone on the rows of every (slice, '
        'condition, stratum) and the statistic summed in plain Python; '
        'distinct = (spec, grouping, rows); trivial = nothing comparable')
ASSUMPTIONS = [
    'numerators without rows in a stratum count as zero (sums and counts); '
    'strata whose two denominators add up to zero have no documented weight']
LIMITS = {'quick': (4000, 60), 'thorough': (60000, 600)}
MIN_EVENTS = {'changes_checked': 10000, 'one_sided_strata': 9000,
              'lists': 500, 'multi_condition_columns': 300, 'base_rows': 1000,
              'filtered': 700, 'same_named_parts': 100}


def part(rng, cols, where_p, denom=False):
  k = rng.choice(['Sum', 'Sum', 'Count'] if denom else
                 ['Sum', 'Sum', 'Sum', 'Count', 'Dot'])
  s = {'k': k, 'var': rng.choice(cols), 'where': gen.wheres(rng, where_p)}
  if k == 'Dot':
    s['var2'] = rng.choice('wp')
  return s


def ratio(rng, where_p):
  r = rng.random()
  if r < .2:
    a, b = rng.sample(['x', 'p', 'w', 'f'], 2)
    return {'k': 'Ratio', 'var': a, 'var2': b if b in 'wf' else 'w' if a != 'w'
            else 'f', 'where': gen.wheres(rng, where_p)}
  a = part(rng, ['x', 'p', 'w', 'y'], where_p)
  b = part(rng, ['w', 'f'] if rng.random() < .8 else ['x', 'y'], where_p, True)
  if r < .3:
    # Parts displayed under the same name.
    b = {'k': 'Sum', 'var': 'w'}
    a = {'k': 'Sum', 'var': 'w', 'where': [gen.filt(rng)]}
  return {'k': 'bin', 'op': '/', 'a': a, 'b': b, 'where': gen.wheres(rng, where_p)}


def parts_of(c):
  if c['k'] == 'Ratio':
    return ({'k': 'Sum', 'var': c['var']}, {'k': 'Sum', 'var': c['var2']})
  return c['a'], c['b']


def value(spec, df):
  """The sum/count of a leaf on rows (None without rows)."""
  pos = gen.fmask(spec.get('where') or [], df)
  if not pos:
    return None
  sub = df.iloc[pos].reset_index(drop=True)
  leaf = {k: v for k, v in spec.items() if k != 'where'}
  return cmpx.norm(gen.build(leaf).compute_on(sub)).rows[0][1][0]


def f_mh(rng, rec):
  n = rng.choice([8, 15, 30, 60])
  df = gen.table(rng, n=n, nan=rng.choice([0, 0, .2]), strata=rng.choice([2, 4]),
                 group_vals=2, dense=rng.random() < .4)
  where_p = rng.choice([0, 0, .3])
  conds = rng.choice([['cond']] * 4 + [['cond', 'b'], ['h']])
  bases = {'cond': 'ctl', 'b': False, 'h': df['h'].iloc[0].item()}
  strat = rng.choice([['s'], ['s2'], ['s', 's2'], ['u'], ['s2', 's']])
  split = gen.split(rng, cands=[c for c in ('g', 'c', 'd') if c not in conds],
                    maxn=2, p0=.35)
  chs = [ratio(rng, where_p)]
  aslist = rng.random() < .35
  lw = []
  if aslist:
    chs = gen.dedup(chs + [ratio(rng, where_p) for _ in range(rng.choice([1, 2]))])
    lw = gen.wheres(rng, where_p)
    child = {'k': 'list', 'ch': chs, 'where': lw}
  else:
    child = chs[0]
  spec = {'k': 'MH', 'cond': conds if len(conds) > 1 or rng.random() < .5
          else conds[0], 'base': tuple(bases[c] for c in conds)
          if len(conds) > 1 else bases[conds[0]],
          'strat': strat if len(strat) > 1 or rng.random() < .5 else strat[0],
          'include_base': rng.random() < .35, 'child': child,
          'where': gen.wheres(rng, where_p)}
  df2 = gen.catify(rng, df, [c for c in ('g', 'cond', 's', 's2', 'u')
                             if c not in gen.filter_cols(spec)]
                   ) if rng.random() < .3 else df
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df2)}
  keep = gen.fmask(spec['where'] + lw, df)
  data = df.iloc[keep] if len(keep) < len(df) else df
  key = tuple(cmpx.keyval(bases[c]) for c in conds)
  ns, nc = len(split), len(conds)
  want = {}
  seen_base = [False] * len(chs)
  for sl, pos in gen.cells(data, split).items():
    sl = tuple(map(cmpx.keyval, sl))
    sub = data.iloc[pos].reset_index(drop=True)
    cells = {}
    for k2, pos2 in gen.cells(sub, conds + strat).items():
      k2 = tuple(map(cmpx.keyval, k2))
      rows = sub.iloc[pos2].reset_index(drop=True)
      res = []
      for j, c in enumerate(chs):
        rr = rows.iloc[gen.fmask(c.get('where') or [], rows)].reset_index(
            drop=True)
        a, b = parts_of(c)
        va = value(a, rr) if len(rr) else None
        vb = value(b, rr) if len(rr) else None
        if k2[:nc] == key and (va is not None or vb is not None):
          seen_base[j] = True
        res.append((va, vb))
      cells.setdefault(k2[:nc], {})[k2[nc:]] = res
    for c, strata in cells.items():
      if c == key and not spec['include_base']:
        continue
      out = []
      for j in range(len(chs)):
        num = den = 0.0
        mag_n = mag_d = 0.0
        amb = False
        present = any(v[j] != (None, None) for v in strata.values())
        for st, v in strata.items():
          a1, n1 = v[j]
          o = cells.get(key, {}).get(st)
          if o is None:
            rec.add('one_sided_strata')
            continue
          a0, n0 = o[j]
          if n1 is None or n0 is None:
            continue
          if abs(n0 + n1) <= 1e-6 * abs(n0):
            amb = True
            continue
          ta, tb = (a1 or 0) * n0 / (n0 + n1), (a0 or 0) * n1 / (n0 + n1)
          num += ta
          den += tb
          mag_n += abs(ta)
          mag_d += abs(tb)
        if amb:
          e = (ANY, 0)
        elif den == 0:
          e = (None if num == 0 else 'inf', 1)
        elif abs(den) < 1e-6 * mag_d:
          e = (ANY, 0)
        else:
          e = ((num / den - 1) * 100, max(1, mag_d / abs(den), mag_n / abs(den)))
        out.append(e if present else ('absent', 0))
      want[sl + c] = out
  if not all(seen_base):
    raise Skip('no baseline')
  m = gen.build(spec)
  got = cmpx.norm(run(lambda: m.compute_on(df2, list(split)), 'compute_on', det))
  det['got'] = got.dump()
  cols = ['%s MH Ratio' % gen.build(c).name for c in chs]
  if got.cols != cols or got.names != split + conds:
    raise Violation('columns %r index %r instead of %r %r' % (
        got.cols, got.names, cols, split + conds), det)
  gd = got.d
  if len(gd) != len(got.rows):
    raise Violation('duplicated rows', det)
  if set(gd) - set(want):
    raise Violation('rows that should not exist: %r' % (
        sorted(set(gd) - set(want), key=str)[:4]), det)
  checked = 0
  for k, es in want.items():
    if k not in gd:
      if any(e not in ('absent',) for e, _ in es):
        raise Violation('no row for %r' % (k,), det)
      continue
    for j, (e, mag) in enumerate(es):
      v = gd[k][j]
      if e is ANY:
        rec.add('undetermined')
        continue
      if e in ('absent', None):
        if v is not None:
          raise Violation('%r reported at %r where there is no value' % (v, k),
                          det)
      elif e == 'inf':
        if v is not None and not math.isinf(v):
          raise Violation('%r reported at %r, the ratio is infinite' % (v, k),
                          det)
      elif not cmpx.close(v, e, 1e-9 * mag, 1e-7 * mag):
        raise Violation('MH of %r at %r is %r instead of %r' % (
            cols[j], k, v, e), det)
      checked += 1
      rec.add('changes_checked')
    if k[ns:] == key:
      rec.add('base_rows')
  for c in chs:
    a, b = parts_of(c)
    if gen.build(a).name == gen.build(b).name:
      rec.add('same_named_parts')
  for nm, cnd in (('lists', aslist), ('multi_condition_columns', nc > 1),
                  ('filtered', gen.filter_cols(spec)),
                  ('multi_strata', len(strat) > 1)):
    if cnd:
      rec.add(nm)
  rec.trivial = not checked
  rec.signature(spec, split, len(want))
  rec.sample = {'spec': spec, 'split_by': split, 'rows': len(want)}


FAMILIES = [('mh', 1, f_mh)]
