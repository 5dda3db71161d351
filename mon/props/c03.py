"""C03: filters equal prefiltering, conjoin along the path, leave siblings alone."""
import copy

from mon import cmpx, gen
from mon.cmpx import check, run
from mon.core import Skip, Violation

RULE = ('one random metric tree with random filters evaluated by an independent '
        'Python filter evaluator; distinct = (family, spec, grouping columns); '
        'trivial = the filters keep every row')
ASSUMPTIONS = ['filters mention only columns without missing values, or use '
               'comparisons whose meaning on missing values is the usual one '
               '(false, except for "!=")']
LIMITS = {'quick': (8000, 50), 'thorough': (80000, 600)}
MIN_EVENTS = {'compared': 3000, 'with_or': 400, 'nothing': 200}


def has_or(o):
  return '"or"' in __import__('json').dumps(o)


def tree(rng, where_p):
  r = rng.random()
  if r < .35:
    return gen.measure(rng, 'robust', where_p)
  if r < .45:
    return gen.leaf(rng, 'rich', where_p=where_p)
  if r < .95:
    return gen.operation(rng, where_p=where_p)
  return {'k': 'PercentChange', 'cond': 'cond', 'base': 'ctl', 'where': [],
          'child': gen.operation(rng, rng.choice(['Distribution', 'HHI']),
                                 where_p, over=['s'], lists=False)}


def prep(rng, spec):
  rich = bool(gen.kinds_in(spec) & {'Cov', 'WMean', 'WVariance', 'WSD', 'WCov',
                                    'FCov', 'WCorr', 'Correlation', 'CV',
                                    'Quantile'})
  df = gen.table(rng, n=rng.choice([20, 40, 60]), rich=rich, dense=True)
  return df


def compute(spec_or_metric, df, split):
  m = gen.build(spec_or_metric) if isinstance(spec_or_metric,
                                              dict) else spec_or_metric
  return m.compute_on(df, list(split))


def reference(fn):
  """Runs the prefiltered side; where it fails, nothing can be compared."""
  try:
    return fn()
  except Exception as e:  # pylint: disable=broad-except
    raise Skip('reference side undefined: %r' % e)


KW = dict(rtol=1e-6, atol=1e-6)


def f_top(rng, rec):
  """Top-level filter against a prefiltered table."""
  spec = tree(rng, .2)
  if rng.random() < .25:
    spec = {'k': 'Jackknife', 'unit': 'u', 'child': gen.pos_measure(rng),
            'opt': rng.random() < .6}
  elif rng.random() < .15:
    spec = {'k': rng.choice(['Bootstrap', 'PoissonBootstrap']),
            'unit': rng.choice(['u', None]), 'child': gen.pos_measure(rng),
            'n': 4, 'opt': rng.random() < .6}
  df = prep(rng, spec)
  split = gen.split(rng)
  fs = [gen.filt(rng, 2) for _ in range(rng.choice([1, 1, 2, 3]))]
  pos = gen.fmask(fs, df)
  if not pos:
    raise Skip('nothing left')
  own = spec.get('where') or []
  full = dict(spec, where=own + fs)
  sub = df.iloc[pos]
  det = {'spec': full, 'split_by': split, 'table': gen.df_repr(df)}
  how = rng.choice(['ctor', 'attr', 'add', 'str'])
  import numpy as np
  np.random.seed(5)
  e = reference(lambda: compute(spec, sub, split))
  np.random.seed(5)
  if how == 'ctor':
    m = gen.build(full)
  else:
    m = gen.build(spec)
    if how == 'attr':
      m.where = [gen.ftext(f) for f in own + fs]
    elif how == 'add':
      for f in fs:
        m.add_where(gen.ftext(f) if rng.random() < .5 else [gen.ftext(f)])
    else:
      m.where = ' and '.join('(%s)' % gen.ftext(f) for f in own + fs)
  g = run(lambda: compute(m, df, split), 'filtered compute_on', det)
  check(g, e, 'filter given as %s differs from filtering the table first' % how,
        det, **KW)
  rec.add('compared')
  rec.add('with_or', int(has_or(full)))
  rec.add('tree_' + spec['k'])
  rec.trivial = len(pos) == len(df)
  rec.signature('top', full, split, how)
  rec.sample = {'spec': full, 'split_by': split, 'rows_kept': len(pos),
                'rows': len(df)}


def pushdown(s, inherited):
  """An equivalent spec whose filters sit at the leaves only."""
  if not isinstance(s, dict):
    return s
  s = copy.deepcopy(s)
  fs = inherited + (s.get('where') or [])
  kids = []
  for key in ('a', 'b', 'child'):
    if isinstance(s.get(key), dict):
      s[key] = pushdown(s[key], fs)
      kids.append(key)
  for key in ('ch', 'cov'):
    if key in s:
      s[key] = [pushdown(c, fs) for c in s[key]]
      kids.append(key)
  s['where'] = [] if kids else fs
  return s


def f_push(rng, rec):
  """Filters conjoin along the path to each leaf."""
  spec = tree(rng, .5)
  if rng.random() < .3:
    spec = dict(spec, where=(spec.get('where') or []) + [gen.filt(rng, 2)])
  df = prep(rng, spec)
  split = gen.split(rng)
  pushed = pushdown(spec, [])
  if spec['k'] == 'Ratio' or gen.kinds_in(spec) & {'Ratio'}:
    pass
  det = {'spec': spec, 'pushed': pushed, 'split_by': split,
         'table': gen.df_repr(df)}
  e = reference(lambda: compute(pushed, df, split))
  g = run(lambda: compute(spec, df, split), 'compute_on with nested filters',
          det)
  check(g, e, 'filters do not combine as a conjunction down to the leaves', det,
        ignore_missing_rows=True, inf_is_missing=False, **KW)
  rec.add('compared')
  rec.add('with_or', int(has_or(spec)))
  rec.trivial = spec == pushed
  rec.signature('push', spec, split)


def f_order(rng, rec):
  """Any order, nesting or phrasing of a conjunction is the same filter."""
  spec = tree(rng, .15)
  fs = [gen.filt(rng, 2) for _ in range(rng.choice([2, 3]))]
  df = prep(rng, spec)
  split = gen.split(rng)
  own = spec.get('where') or []
  a = dict(spec, where=own + fs)
  sh = fs[:]
  rng.shuffle(sh)
  variant = rng.choice(['shuffled', 'nested', 'list'])
  det = {'spec': a, 'variant': variant, 'split_by': split,
         'table': gen.df_repr(df)}
  e = reference(lambda: compute(spec, df.iloc[gen.fmask(fs, df)], split))
  if variant == 'shuffled':
    m = gen.build(dict(spec, where=sh + own))
  elif variant == 'nested':
    from meterstick import metrics
    inner = gen.build(dict(spec, where=own + sh[1:]))
    if not own and rng.random() < .5:
      inner.add_where(gen.ftext(sh[1]))
    m = metrics.MetricList([inner], where=gen.ftext(sh[0]))
  else:
    from meterstick import metrics
    m = metrics.MetricList([gen.build(spec)],
                           where=[gen.ftext(f) for f in sh])
  g = run(lambda: compute(m, df, split), 'compute_on', det)
  check(g, e, 'conjunction (%s) differs from filtering the table' % variant,
        det, ignore_missing_rows=True, **KW)
  rec.add('compared')
  rec.add('with_or', int(has_or(a)))
  rec.signature('order', a, split, variant)


def f_sibling(rng, rec):
  """Each member of a list / operand sees exactly its own filters."""
  base = gen.scalar(rng, 1, where_p=0) if rng.random() < .6 else None
  specs = []
  outer = [gen.filt(rng)] if rng.random() < .4 else []
  for i in range(rng.choice([2, 3, 4])):
    s = copy.deepcopy(base) if base else gen.scalar(rng, 1, where_p=.3)
    if rng.random() < .7:
      s['where'] = (s.get('where') or []) + [gen.filt(rng, 2)]
    specs.append(s)
  df = gen.table(rng, n=rng.choice([15, 40]), nan=rng.choice([0, .2]))
  split = gen.split(rng)
  from meterstick import metrics
  m = metrics.MetricList([gen.build(s) for s in specs],
                         where=gen.where_arg(outer))
  det = {'specs': specs, 'outer': outer, 'split_by': split,
         'table': gen.df_repr(df)}
  got = run(lambda: m.compute_on(df, list(split)), 'compute_on', det)
  g = cmpx.norm(got)
  if len(g.cols) != len(specs):
    raise Violation('list of %d metrics gave columns %r' % (len(specs), g.cols),
                    det)
  for i, s in enumerate(specs):
    fs = outer + (s.get('where') or [])
    bare = dict(s, where=[])
    sub = df.iloc[gen.fmask(fs, df)]
    if split and not len(sub):
      continue
    e = cmpx.norm(reference(lambda: compute(bare, sub, split)))
    gi = cmpx.Norm(g.names, [g.cols[i]], [(k, [v[i]]) for k, v in g.rows])
    check(gi, e, 'member %d is affected by its siblings\' filters' % i, det,
          ignore_missing_rows=True, **KW)
    rec.add('compared')
  rec.add('with_or', int(has_or(specs)))
  rec.signature('sibling', specs, outer, split)


NOTHING = ('x > 1000000', 'x < -1000000', 'g == "nobody"', 'u == "nobody"', 'x > y and x < y')


def f_nothing(rng, rec):
  """A filter that leaves no row of a grouped table: an empty result of the
  usual shape; in a list, the other members keep their rows."""
  from meterstick import metrics
  df = gen.table(rng, n=rng.choice([12, 30]), nan=rng.choice([0, .2]),
                 rich=True)
  r = rng.random()
  if r < .5:
    spec = gen.leaf(rng, rng.choice(['robust', 'rich', 'rich']), where_p=.2)
  elif r < .8:
    spec = gen.operation(rng, rng.choice(
        ['Distribution', 'CumulativeDistribution', 'HHI', 'Entropy', 'TopK',
         'Nxx']), where_p=0)
  else:
    spec = gen.measure(rng, 'robust', 0)
  split = rng.choice([['g'], ['g', 'h'], ['h', 'g'], ['u']])
  melted = rng.random() < .4
  text = rng.choice(NOTHING)
  det = {'spec': spec, 'where': text, 'split_by': split, 'melted': melted,
         'table': gen.df_repr(df)}
  full = reference(
      lambda: gen.build(spec).compute_on(df, list(split), melted=melted))
  m = gen.build(spec)
  m.add_where(text)
  if rng.random() < .6 or spec['k'] in ('Distribution',
                                        'CumulativeDistribution'):
    g = run(lambda: m.compute_on(df, list(split), melted=melted),
            'a filter that keeps no row', det)
    if len(g):
      raise Violation('a filter that keeps no row left %d rows' % len(g), det)
    if list(g.columns) != list(full.columns) or list(g.index.names) != list(
        full.index.names):
      raise Violation(
          'the empty result has columns %r, index %r instead of %r, %r' %
          (list(g.columns), list(g.index.names), list(full.columns),
           list(full.index.names)), det)
  else:
    other = {'k': 'Sum', 'var': 'x', 'where': []}
    pair = [gen.build(other), m]
    if rng.random() < .5:
      pair.reverse()
    g = run(lambda: metrics.MetricList(pair).compute_on(df, list(split)),
            'a list with a member whose filter keeps no row', det)
    wide = gen.build(spec).compute_on(df, list(split))
    e = gen.build(other).compute_on(df, list(split))
    names = [str(c) for c in wide.columns]
    got = [str(c) for c in g.columns]
    if sorted(got) != sorted(names + [str(c) for c in e.columns]):
      raise Violation('columns %r, not those of the two members %r' %
                      (got, names), det)
    own = 0 if pair[1] is m else len(names)
    check(g.iloc[:, [own]], e, 'the other member changed', det, **KW)
    rest = [i for i in range(len(got)) if i != own]
    if g.iloc[:, rest].notna().to_numpy().any():
      raise Violation('the member without rows has values', det)
    rec.add('nothing_in_list')
  rec.add('nothing')
  rec.add('nothing_' + spec['k'])
  rec.signature('nothing', spec, split, melted, text)


FAMILIES = [('top', 5, f_top), ('push', 4, f_push), ('order', 2, f_order),
            ('sibling', 3, f_sibling), ('nothing', 2, f_nothing)]
