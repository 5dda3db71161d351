"""C13: diversity measures equal their definition on the distribution."""
from fractions import Fraction as Fr
import math

from mon import cmpx, gen
from mon.cmpx import ANY, Norm, check, run
from mon.core import Skip, Violation

from meterstick import diversity as D

RULE = ('one random HHI/Entropy/TopK/Nxx over 1-3 category columns of one or '
        'several non-negative metrics; category values are computed alone per '
        'cell and the index recomputed in exact arithmetic; distinct = (spec, '
        'grouping, cells); trivial = at most one category everywhere')
ASSUMPTIONS = [
    'shares are non-negative with a positive total (other distributions have '
    'no documented diversity); members filtered to nothing in a slice are not '
    'compared',
    'a share that misses the Nxx threshold by less than 1e-6 without hitting it '
    'is not compared; exact hits are']
LIMITS = {'quick': (6000, 60), 'thorough': (90000, 600)}
MIN_EVENTS = {'values_checked': 9000, 'nxx_exact_hits': 300,
              'zero_categories': 350, 'k_beyond_categories': 800,
              'multi_metric': 1200}

OVERS = [['cond'], ['s'], ['s2'], ['s', 's2'], ['cond', 's'], ['u'], ['d', 'b'],
         ['h']]
SHARES = [.1, .2, .25, .3, .4, .5, .6, .7, .75, .8, .9, 1, 1.0, .31, .57, .99,
          .05, .35]
KINDS = ('HHI', 'Entropy', 'TopK', 'Nxx')


def pos_leaf(rng, where_p):
  r = rng.random()
  w = gen.wheres(rng, where_p)
  if r < .5:
    return {'k': rng.choice(['Sum', 'Count', 'Sum']), 'var': rng.choice('wfpe'),
            'where': w}
  if r < .8:
    return {'k': rng.choice(['Mean', 'Max', 'Sum']), 'var': rng.choice('wfpe'),
            'where': w}
  return gen.pos_scalar(rng, where_p)


def reference(spec, vals):
  """(value or ANY, kind notes) of one column's category values (Fractions)."""
  tot = sum(vals)
  if tot <= 0:
    return ANY
  sh = sorted((v / tot for v in vals), reverse=True)
  k = spec['k']
  if k == 'HHI':
    return float(sum(s * s for s in sh))
  if k == 'Entropy':
    return -sum(float(s) * math.log(s) for s in sh if s)
  if k == 'TopK':
    return float(sum(sh[:spec['kk']]))
  t = Fr(str(spec['share']))
  acc = Fr(0)
  for i, s in enumerate(sh):
    acc += s
    if acc != t and abs(acc - t) < Fr(1, 10**6):
      return ANY
    if acc >= t:
      return float(i + 1)
  return ANY


def f_div(rng, rec):
  n = rng.choice([4, 8, 15, 30, 60])
  df = gen.table(rng, n=n, rich=rng.random() < .3, nan=rng.choice([0, 0, .15]),
                 nan_cols=('p',), strata=rng.choice([2, 3, 10]),
                 n_units=rng.choice([None, min(n, 10), min(n, 25)]))
  # e: every category may weigh the same, some weigh nothing.
  pool = rng.choice([[1.], [1., 0.], [1., 2.], [0., .5, 3.], [1., 1., 1., 5.]])
  df['e'] = [rng.choice(pool) for _ in range(n)]
  if rng.random() < .2:
    # Exactly one row per category.
    df['u'] = range(n)
  over = rng.choice(OVERS)
  split = [c for c in gen.split(rng, maxn=2, p0=.35) if c not in over]
  where_p = rng.choice([0, 0, 0, .3])
  ch = pos_leaf(rng, where_p)
  if rng.random() < .35:
    chs = gen.dedup([ch] + [pos_leaf(rng, where_p) for _ in range(
        rng.choice([1, 2]))])
    ch = {'k': 'list', 'ch': chs}
  k = rng.choice(KINDS)
  spec = {'k': k, 'over': over if len(over) > 1 or rng.random() < .5 else over[0],
          'child': ch, 'where': gen.wheres(rng, where_p)}
  if k == 'TopK':
    spec['kk'] = rng.choice([1, 1, 2, 3, 5, 50])
  if k == 'Nxx':
    spec['share'] = rng.choice(SHARES)
  data = df.iloc[gen.fmask(spec['where'], df)] if spec['where'] else df
  if not len(data):
    raise Skip('empty')
  df2 = gen.catify(rng, df, [c for c in ('g', 'cond', 's', 's2', 'u', 'h')
                             if c not in gen.filter_cols(spec)]
                   ) if rng.random() < .3 else df
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df2)}
  filtered = bool(gen.filter_cols(ch))
  want, maybe = {}, set()
  cols = None
  cats = 0
  for sl, pos in gen.cells(data, split).items():
    sl = tuple(map(cmpx.keyval, sl))
    sub = data.iloc[pos].reset_index(drop=True)
    vals = []
    for k2, pos2 in gen.cells(sub, over).items():
      part = sub.iloc[pos2].reset_index(drop=True)
      if filtered:
        nn = cmpx.norm(gen.build(ch).compute_on(part, list(over)))
        cols = nn.cols
        vals += [v for _, v in nn.rows]
      else:
        nn = cmpx.norm(gen.build(ch).compute_on(part))
        cols = nn.cols
        vals.append(nn.rows[0][1])
    if not vals:
      maybe.add(sl)
      continue
    cats = max(cats, len(vals))
    out = []
    for j in range(len(cols)):
      v = [Fr(x[j]) for x in vals if x[j] is not None]
      if any(x < 0 for x in v):
        raise Skip('negative')
      e = reference(spec, v) if v else ANY
      out.append(e)
      if e is ANY:
        rec.add('undetermined')
        continue
      if any(x == 0 for x in v):
        rec.add('zero_categories')
      if k == 'TopK' and len(v) < spec['kk']:
        rec.add('k_beyond_categories')
      if k == 'Nxx':
        t, acc, tot = Fr(str(spec['share'])), Fr(0), sum(v)
        for x in sorted(v, reverse=True):
          acc += x / tot
          if acc == t:
            rec.add('nxx_exact_hits')
            break
    want[sl] = out
  if not want:
    raise Skip('nothing')
  m = gen.build(spec)
  got = cmpx.norm(run(lambda: m.compute_on(df2, list(split)), 'compute_on', det))
  det['got'] = got.dump()
  tmpl = {'HHI': 'HHI of %s', 'Entropy': 'Entropy of %s',
          'TopK': "Top-%s's share of %%s" % spec.get('kk')}.get(k)
  if tmpl and got.cols != [tmpl % c for c in cols]:
    raise Violation('columns %r instead of %r' % (
        got.cols, [tmpl % c for c in cols]), det)
  if k == 'Nxx' and (len(got.cols) != len(cols) or not all(
      str(a).startswith('N(') and str(a).endswith(' of %s' % c)
      for a, c in zip(got.cols, cols))):
    raise Violation('columns %r for metrics %r' % (got.cols, cols), det)
  if got.names != split:
    raise Violation('index %r instead of %r' % (got.names, split), det)
  gd = got.d
  if len(gd) != len(got.rows) or set(want) - set(gd) or (
      set(gd) - set(want) - maybe):
    raise Violation('slices %r instead of %r' % (
        sorted(gd, key=str)[:6], sorted(want, key=str)[:6]), det)
  for sl, es in want.items():
    for j, e in enumerate(es):
      if not cmpx.close(gd[sl][j], e, 1e-8, 1e-9):
        raise Violation('%s of %r in slice %r is %r instead of %r' % (
            k, cols[j], sl, gd[sl][j], e), det)
      if e is not ANY:
        rec.add('values_checked')
  rec.add('kind_' + k)
  if len(cols) > 1:
    rec.add('multi_metric')
  rec.trivial = cats < 2
  rec.signature(spec, split, len(want), cats)
  rec.sample = {'spec': spec, 'split_by': split, 'slices': len(want)}


FAMILIES = [('div', 1, f_div)]
