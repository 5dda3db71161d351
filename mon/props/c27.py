"""C27: metrics written by users work like built-in ones."""
import copy
import math

import numpy as np
import pandas as pd
from scipy import stats

from mon import bq, cmpx, custom, gen, sqlx
from mon.cmpx import ANY, Norm, check, run
from mon.core import Skip, Violation
from mon.props import c20

from meterstick import metrics as M
from meterstick import operations as O

RULE = ('random metric trees in which some built-in metrics are replaced by '
        'user-defined ones written the ways the documentation shows; both '
        'trees are computed and compared, the calls the library makes to user '
        'code are recorded and checked against the documented data flow; '
        'distinct = (spec, grouping, forms, table shape)')
ASSUMPTIONS = [
    'the user-defined metrics compute what their built-in counterparts do, and '
    'register their attributes as the documentation asks',
    'no missing values, and no filter that leaves a metric without any row',
    'the interpreter implements the BigQuery dialect']
LIMITS = {'quick': (14000, 60), 'thorough': (200000, 800)}
MIN_EVENTS = {'trees': 1355, 'split': 998, 'flows': 378,
              'calls_checked': 2891, 'flow_split': 283, 't_plain': 211,
              't_paired': 69, 'sql': 210, 'sql_mixed': 193,
              'queries': 633, 'cache_own': 156, 'cache_shared': 244,
              'melted': 399, 'again': 532, 'op_slicewise': 188,
              'op_whole': 193, 'as_leaf_sub': 873, 'as_leaf_simple': 409,
              'as_leaf_slices': 291, 'as_leaf_keep': 487,
              'as_leaf_compute': 293, 'as_leaf_through': 151,
              'as_leaf_lambda': 158, 'as_leaf_pre': 145,
              'as_leaf_square': 37, 'as_leaf_split': 149,
              'as_Distribution_slices': 111,
              'as_Distribution_compute': 129,
              'as_Distribution_vector': 113, 'twins': 263,
              'twins_jk': 164, 'regressions': 121, 'regressions_jk': 130,
              'ci_bounds': 112, 'ci_asym': 102, 'ci_t': 123, 'ci_se': 117,
              'ci_sub_sql': 78, 'ci_sub_mixed': 66, 'ci_sub_memory': 133,
              'resampled_Jackknife': 221, 'resampled_Bootstrap': 101,
              'resampled_PoissonBootstrap': 106}

GROUPS = ('g', 'h', 'c', 'b', 'd')
IMPLS = ('lambda', 'compute', 'compute', 'slices', 'slices', 'split', 'pre',
         'through', 'simple', 'sub', 'sub', 'keep', 'inner', 'inner', 'cut')


SUBBED = ('CountD', 'Dot', 'Variance', 'StandardDeviation', 'CV', 'Correlation',
          'Cov', 'WMean', 'WVariance', 'WSD', 'WCov', 'FCov', 'DotN', 'WCorr',
          'Quantile')


def swap(rng, s, p, impls=IMPLS, ops=True, ok=True):
  """s with some parts user-defined; counts them in the result's 'n'."""
  n = [0]

  def walk(o):
    if isinstance(o, list):
      return [walk(c) for c in o]
    if not isinstance(o, dict):
      return o
    out = {k: walk(v) if k in ('child', 'a', 'b', 'ch') else v
           for k, v in o.items()}
    if rng.random() < p:
      if o['k'] in custom.AGG or (o['k'] in SUBBED and ops):
        out['impl'] = rng.choice([i for i in impls if o['k'] in custom.AGG or
                                  i in ('sub', 'keep')])
        out['shared'] = rng.random() < .5
        n[0] += 1
      elif o['k'] == 'bin' and o['op'] == '**' and isinstance(
          o['a'], dict) and o['a']['k'] in SUBBED + tuple(custom.AGG) and (
              'keep' in impls):
        out.update(impl='square', a=o['a'])
        n[0] += 1
      elif o['k'] == 'Distribution' and ops:
        cand = ['vector', 'compute', 'slices']
        out['impl'] = rng.choice(cand)
        n[0] += 1
    return out

  return walk(s), n[0]


def impls_in(s):
  out = set()
  if isinstance(s, dict):
    if s.get('impl'):
      out.add('%s_%s' % (s['k'] if s['k'] == 'Distribution' else 'leaf',
                         s['impl']))
    for v in s.values():
      out |= impls_in(v)
  elif isinstance(s, (list, tuple)):
    for v in s:
      out |= impls_in(v)
  return out


def leaf(rng, where_p, cols=('x', 'y', 'w', 'f')):
  return {'k': rng.choice(list(custom.AGG)), 'var': rng.choice(cols),
          'where': gen.wheres(rng, where_p)}


def tree(rng, where_p, pool=None):
  lf = lambda: (leaf(rng, where_p) if not pool or rng.random() < .4 else
                gen.leaf(rng, pool, ('x', 'y', 'z'), where_p))
  pos = lambda: leaf(rng, where_p, ('w', 'f'))
  ratio = lambda: {'k': 'bin', 'op': rng.choice('+*/'), 'a': pos(), 'b': pos(),
                   'where': gen.wheres(rng, where_p)}
  kids = lambda: gen.dedup([pos() if rng.random() < .5 else ratio()
                            for _ in range(rng.choice([2, 3]))])
  r = rng.random()
  if r < .2:
    return lf()
  if r < .4:
    return gen.scalar(rng, 2, leaf_fn=lf, where_p=where_p)
  if r < .55:
    return gen.list_labels(rng, {'k': 'list', 'ch': gen.dedup(
        [gen.scalar(rng, 1, leaf_fn=lf, where_p=where_p) for _ in range(3)])})
  ch = pos() if rng.random() < .7 else {'k': 'list', 'ch': kids()}
  k = rng.choice(['Distribution', 'Distribution', 'Distribution',
                  'PercentChange', 'AbsoluteChange', 'HHI', 'TopK',
                  'CumulativeDistribution', 'MH'])
  if k == 'MH':
    ch = {'k': 'bin', 'op': '/', 'a': dict(pos(), k='Sum'),
          'b': dict(pos(), k=rng.choice(['Sum', 'Count']))}
  s = gen.operation(rng, k, where_p, child=ch)
  r = rng.random()
  if r < .15 and k == 'Distribution':
    return {'k': rng.choice(['AbsoluteChange', 'PercentChange']),
            'cond': 'cond', 'base': 'ctl',
            'child': dict(s, over=['s2']), 'include_base': False}
  if r < .3 and k in ('PercentChange', 'AbsoluteChange'):
    return {'k': 'Distribution', 'over': ['s2'], 'child': s}
  if r < .4 and k == 'Distribution':
    return {'k': 'bin', 'op': rng.choice('+-*'), 'a': s, 'b': dict(
        s, child=pos())} if ch['k'] != 'list' else s
  return s


def table(rng, n=None, **kw):
  return gen.table(rng, n=n or rng.choice([8, 14, 25, 40]), nan=0, group_vals=3,
                   strata=2, **kw)


def pair(rng, where_p=None, tree_fn=None, **kw):
  """(spec, its user-defined version)."""
  where_p = rng.choice([0, .3]) if where_p is None else where_p
  s = (tree_fn or tree)(rng, where_p)
  for _ in range(20):
    u, n = swap(rng, s, rng.choice([.4, .8, 1]), **kw)
    if n:
      return s, u
  raise Skip('nothing to replace')


def ask(m, df, split, form):
  kw = {}
  if form['melted']:
    kw['melted'] = True
  if not form['frame']:
    kw['return_dataframe'] = False
  arg = split[0] if form['str'] and len(split) == 1 else list(split)
  if not split and form['str']:
    arg = None
  if form['pipe']:
    return m | M.compute_on(df, arg, **kw)
  if form['key']:
    kw['cache_key'] = form['key']
  return m.compute_on(df, arg, **kw)


def form_of(rng):
  f = {'melted': rng.random() < .3, 'frame': rng.random() < .75,
       'str': rng.random() < .4, 'pipe': rng.random() < .2,
       'key': rng.choice([None, None, 'K'])}
  f['frame'] = f['frame'] or f['melted']
  return f


def note(rec, s, u, df, split, *more):
  for i in impls_in(u):
    rec.add('as_' + i)
  rec.signature(u, split, df.shape, *more)
  rec.sample = {'spec': u, 'split_by': split, 'rows': len(df)}


def fam_sub(rng, rec):
  fam_tree(rng, rec, 'rich' if rng.random() < .4 else 'robust')


def fam_tree(rng, rec, pool=None):
  """The user-defined tree computes what the built-in one does."""
  df = table(rng, dense=rng.random() < .7, rich=pool == 'rich')
  s, u = (pair(rng) if not pool else
          pair(rng, tree_fn=lambda r, p: tree(r, p, pool),
               impls=('sub', 'keep')))
  split = gen.split(rng, GROUPS)
  if gen.leaf_starved(s, df):
    raise Skip('a leaf without any data')
  need_base(s, df, split)
  form = form_of(rng)
  det = {'spec': u, 'split_by': split, 'form': form, 'table': gen.df_repr(df)}
  want = run(lambda: ask(gen.build(s), df, split, dict(form, key=None)),
             'the built-in metrics', det)
  m = gen.build(u)
  before = df.copy()
  got = run(lambda: ask(m, df, split, form), 'user-defined metrics', det)
  same(want, got, 'user-defined metrics compute something else', det)
  if not before.equals(df):
    raise Violation('the table was changed', det)
  rec.add('trees')
  if split:
    rec.add('split')
  if form['melted']:
    rec.add('melted')
  # Once more with the same object, other data in between.
  if rng.random() < .4:
    other = df.iloc[rng.sample(range(len(df)), max(1, len(df) // 2))]
    try:
      m.compute_on(other, list(split))
    except Exception:  # pylint: disable=broad-except
      pass
    f2 = form_of(rng)
    f2['key'] = None
    want = run(lambda: ask(gen.build(s), df, split, f2), 'the built-in', det)
    got = run(lambda: ask(m, df, split, f2), 'the second computation', det)
    same(want, got, 'the second computation gives something else', det)
    rec.add('again')
  note(rec, s, u, df, split, form)


def need_base(s, df, split):
  if gen.kinds_in(s) & {'PercentChange', 'AbsoluteChange', 'MH'}:
    if not gen.baseline_ok(df, list(gen.cells(df, split).values())):
      raise Skip('no baseline')
    for _, fs, _ in sqlx.leaves(s):
      sub = df.iloc[gen.fmask(fs, df)]
      if not any(c == 'ctl' and p == 'p' for c, p in zip(
          sub['cond'].tolist(), sub['s2'].tolist())):
        raise Skip('no baseline')


def same(want, got, what, det, **kw):
  a = 'table' if isinstance(want, pd.DataFrame) else (
      'series' if isinstance(want, pd.Series) else
      'list' if isinstance(want, (list, tuple)) else 'number')
  b = 'table' if isinstance(got, pd.DataFrame) else (
      'series' if isinstance(got, pd.Series) else
      'list' if isinstance(got, (list, tuple)) else 'number')
  if a != b:
    raise Violation('%s: a %s instead of a %s' % (what, b, a), dict(
        det, got=repr(got)[:800], want=repr(want)[:800]))
  if a == 'list':
    if len(want) != len(got):
      raise Violation('%s: %d results for %d' % (what, len(got), len(want)),
                      det)
    for i, j in zip(want, got):
      same(i, j, what, det, **kw)
    return
  if a == 'series' and want.name != got.name:
    raise Violation('%s: a series called %r instead of %r' % (
        what, got.name, want.name), det)
  check(want, got, what, det, **dict(dict(rtol=1e-9, atol=1e-9), **kw))


# ------------------------------------------------------------------ data flow


class Traced(M.Metric):
  """Records what it is handed."""

  def __init__(self, var, log, where=None, keep=None, shared=False):
    self.var, self.log, self.keep = var, log, keep
    super().__init__('traced %s' % var, where=where,
                     additional_fingerprint_attrs=['var', 'keep'])
    self.cache_across_instances = shared

  def __deepcopy__(self, memo):
    log, self.log = self.log, None
    try:
      out = super().__deepcopy__(memo)
    finally:
      self.log = log
    out.log = log
    return out

  def precompute(self, df, split_by):
    self.log.append(('precompute', df.copy(), list(split_by or [])))
    return df[df[self.keep[0]] > self.keep[1]] if self.keep else df

  def compute(self, df):
    self.log.append(('compute', df.copy(), None))
    return df[self.var].sum()

  def postcompute(self, res, split_by):
    self.log.append(('postcompute', copy.deepcopy(res), list(split_by or [])))
    return res * 2

  def final_compute(self, res, melted, return_dataframe, split_by, df):
    self.log.append(('final_compute', res.copy() if hasattr(res, 'copy') else
                     res, (melted, return_dataframe, list(split_by or []), df)))
    return res + 1


def rows_eq(a, b):
  return a.equals(b)


def fam_flow(rng, rec):
  """df.query(where) -> precompute -> slices -> postcompute -> manipulate ->
  final_compute."""
  df = table(rng)
  split = gen.split(rng, GROUPS)
  wh = gen.wheres(rng, .5)
  keep = ('i', rng.choice([-2, 0, 2])) if rng.random() < .5 else None
  log = []
  form = form_of(rng)
  form.update(key=None, pipe=False)
  rows = df.iloc[gen.fmask(wh, df)]
  kept = rows[rows['i'] > keep[1]] if keep else rows
  if not len(kept):
    raise Skip('no rows')
  det = {'where': gen.where_arg(wh), 'keep': keep, 'split_by': split,
         'form': form, 'table': gen.df_repr(df)}
  m = Traced('x', log, gen.where_arg(wh), keep)
  res = run(lambda: ask(m, df, split, form), 'the traced metric', det)
  det['calls'] = [c[0] for c in log]
  groups = gen.cells(kept, split) if split else {(): range(len(kept))}
  want = (['precompute'] + ['compute'] * len(groups) +
          ['postcompute', 'final_compute'])
  if [c[0] for c in log] != want:
    raise Violation('user code is called as %r instead of %r' % (
        [c[0] for c in log], want), det)
  by = {k: v for k, v in zip(['pre', 'post', 'final'], [
      log[0], log[-2], log[-1]])}
  if not rows_eq(by['pre'][1], rows):
    raise Violation('precompute is not handed the filtered rows', dict(
        det, got=gen.df_repr(by['pre'][1])))
  if by['pre'][2] != split or by['post'][2] != split:
    raise Violation('pre-/postcompute are handed split_by=%r, %r' % (
        by['pre'][2], by['post'][2]), det)
  seen = [c[1] for c in log if c[0] == 'compute']
  for k, pos in groups.items():
    sl = kept.iloc[list(pos)]
    if sum(rows_eq(sl, x) for x in seen) < 1:
      raise Violation('compute is not handed the rows of the slice %r' % (k,),
                      dict(det, got='\n--\n'.join(map(gen.df_repr, seen))))
  sums = {tuple(map(cmpx.keyval, k)): float(kept['x'].iloc[list(p)].sum())
          for k, p in groups.items()}
  mid = by['post'][1]
  if split:
    if not isinstance(mid, pd.Series):
      raise Violation('postcompute is handed a %s' % type(mid), det)
    check(Norm(split, ['v'], [(k, [v]) for k, v in sums.items()]), mid,
          'what postcompute is handed', det, cols=False)
  elif not cmpx.close(sums[()], float(mid)):
    raise Violation('postcompute is handed %r, not %r' % (mid, sums[()]), det)
  fin = by['final']
  if fin[2][:3] != (form['melted'], form['frame'], split):
    raise Violation('final_compute is handed %r' % (fin[2][:3],), det)
  if fin[2][3] is not df:
    raise Violation('final_compute is not handed the original table', det)
  col = ('Value' if form['melted'] else 'traced x')
  if not split and not form['frame'] and not form['melted']:
    if not cmpx.close(float(res), sums[()] * 2 + 1):
      raise Violation('the result is %r instead of %r' % (
          res, sums[()] * 2 + 1), det)
  else:
    names = list(split)
    head = ()
    if form['melted'] and (form['frame'] or split):
      names = ['Metric'] + names
      head = ('traced x',)
    if form['melted'] and not form['frame'] and not split:
      raise Skip('a number cannot be molten')
    exp = Norm(names, [col], [(head + k, [v * 2 + 1]) for k, v in sums.items()])
    check(exp, res, 'the result', det)
    before = Norm(names, [col], [(head + k, [v * 2]) for k, v in sums.items()])
    check(before, fin[1], 'what final_compute is handed', det)
  rec.add('flows')
  rec.add('calls_checked', len(log))
  rec.add('flow_split' if split else 'flow_total')
  rec.signature('flow', wh, keep, split, form, df.shape)
  rec.sample = {'where': gen.where_arg(wh), 'split_by': split,
                'calls': det['calls'][:8]}


class TracedOp(O.Operation):
  """Records what it is handed by its child."""

  def __init__(self, over, child, log, slicewise, where=None):
    self.log = log
    super().__init__(child, 'op {}', over, where=where)
    self.slicewise = slicewise

  def compute_on_children(self, children, split_by):
    if self.slicewise:
      return super().compute_on_children(children, split_by)
    self.log.append(('children', children.copy(), list(split_by)))
    return children * 3

  def compute(self, df):
    self.log.append(('compute', df.copy(), None))
    return df * 3


def fam_op_flow(rng, rec):
  """An operation is handed the result of its child, whole or slice by slice."""
  df = table(rng)
  where_p = rng.choice([0, .4])
  child = (leaf(rng, where_p) if rng.random() < .6 else
           {'k': 'list', 'ch': gen.dedup([leaf(rng, 0), leaf(rng, where_p)])})
  child, _ = swap(rng, child, .5)
  over = rng.choice([['s'], ['s', 's2'], ['cond']])
  split = gen.split(rng, GROUPS)
  wh = gen.wheres(rng, .4)
  rows = df.iloc[gen.fmask(wh, df)]
  if not len(rows) or gen.leaf_starved(dict(k='list', ch=[child], where=wh),
                                       df):
    raise Skip('no rows')
  log = []
  slicewise = rng.random() < .5
  m = TracedOp(over if rng.random() < .5 or len(over) > 1 else over[0],
               gen.build(child), log, slicewise, gen.where_arg(wh))
  form = form_of(rng)
  form['key'] = None
  form['frame'] = True
  det = {'child': child, 'where': gen.where_arg(wh), 'split_by': split,
         'over': over, 'form': form, 'slicewise': slicewise,
         'table': gen.df_repr(df)}
  base = run(lambda: gen.build(child).compute_on(rows, split + over),
             'the child', det)
  res = run(lambda: ask(m, df, split, form), 'the operation', det)
  n = cmpx.norm(base)
  if not slicewise:
    if len(log) != 1:
      raise Violation('compute_on_children is called %d times' % len(log), det)
    check(base, log[0][1], 'what compute_on_children is handed', det)
    if log[0][2] != split:
      raise Violation('compute_on_children is handed split_by=%r' % (
          log[0][2],), det)
  else:
    parts = {}
    for k, v in n.rows:
      parts.setdefault(k[:len(split)], []).append((k[len(split):], v))
    if len(log) != len(parts):
      raise Violation('compute is called %d times for %d slices' % (
          len(log), len(parts)), det)
    left = [cmpx.norm(c[1]) for c in log]
    for k, rs in parts.items():
      want = Norm(over, n.cols, rs)
      hit = [x for x in left if cmpx.diff(want, x) is None]
      if not hit:
        raise Violation('compute is not handed the slice %r of the child' % (
            k,), dict(det, got='\n--\n'.join(x.dump() for x in left)))
      left.remove(hit[0])
  exp = Norm(n.names, ['op %s' % c for c in n.cols],
             [(k, [None if x is None else 3 * x for x in v])
              for k, v in n.rows])
  if form['melted']:
    exp = Norm(['Metric'] + n.names, ['Value'], [
        ((c,) + k, [v[j]]) for j, c in enumerate(exp.cols)
        for k, v in exp.rows])
  check(exp, res, 'the result', det)
  rec.add('op_flows')
  rec.add('op_slicewise' if slicewise else 'op_whole')
  rec.signature('opflow', child, over, split, wh, form, slicewise, df.shape)


# -------------------------------------------------------------------- caching


def fam_cache(rng, rec):
  """Instances of a class share results if and only if asked to."""
  df = table(rng)
  split = gen.split(rng, GROUPS, p0=.4)
  shared = rng.random() < .6
  n = rng.choice([2, 3, 4])
  pool = [leaf(rng, .3, ('x', 'w')) for _ in range(rng.choice([1, 2]))]
  impl = rng.choice(['compute', 'slices', 'keep'])
  if impl == 'keep':
    # Such instances of a class differ in an attribute only.
    pool = [dict(pool[0], where=[gen.filt(rng)] if rng.random() < .7 else [])
            for _ in range(3)]
  specs = [dict(rng.choice(pool), impl=impl, shared=shared) for _ in range(n)]
  if any(gen.leaf_starved(p, df) for p in pool):
    raise Skip('a leaf without any data')
  ms = [gen.build(s) for s in specs]
  if not shared and impl != 'keep' and rng.random() < .5:
    name = rng.choice(['Sum', 'Max', 'Distribution', 'Ratio', 'MyMetric'])
    cls = type(name, (type(ms[0]),), {})
    for m in ms:
      m.__class__ = cls
      m.additional_fingerprint_attrs = set()
    rec.add('cache_named_' + ('own' if name == 'MyMetric' else 'built_in'))
  # The same object may be used in several places.
  uses = [rng.randrange(n) for _ in range(rng.choice([2, 3, 5]))]
  parts = [ms[i] * (j + 1) for j, i in enumerate(uses)]
  for j, p in enumerate(parts):
    p.set_name('v%d' % j)
  root = M.MetricList(parts) if rng.random() < .6 else None
  if root is None:
    root = parts[0]
    for p in parts[1:]:
      root = root + p
  det = {'specs': specs, 'uses': uses, 'split_by': split,
         'list': isinstance(root, M.MetricList), 'table': gen.df_repr(df)}
  custom.CALLS.clear()
  res = run(lambda: root.compute_on(df, list(split)), 'the metrics', det)
  calls = list(custom.CALLS)
  key = (lambda i: (specs[i]['k'], specs[i]['var'], str(specs[i]['where']))) if (
      shared) else (lambda i: i)
  want = 0
  for k in {key(i) for i in uses}:
    s = specs[next(i for i in uses if key(i) == k)]
    rows = df.iloc[gen.fmask(s['where'], df)] if s['where'] else df
    want += (1 if impl != 'compute' or not split else
             len(gen.cells(rows, split)))
  if len(calls) != want:
    raise Violation(
        'user code is called %d times instead of %d (%s)' % (
            len(calls), want, 'results are shared by instances' if shared else
            'every instance has its own result'), det)
  built = [gen.build({k: v for k, v in s.items() if k != 'impl'})
           for s in specs]
  parts = [built[i] * (j + 1) for j, i in enumerate(uses)]
  for j, p in enumerate(parts):
    p.set_name('v%d' % j)
  if isinstance(root, M.MetricList):
    ref = M.MetricList(parts)
  else:
    ref = parts[0]
    for p in parts[1:]:
      ref = ref + p
  same(run(lambda: ref.compute_on(df, list(split)), 'the built-in', det), res,
       'user-defined metrics compute something else', det, cols=False)
  rec.add('cache_shared' if shared else 'cache_own')
  rec.add('cache_' + impl)
  rec.add('calls_checked', len(calls))
  rec.signature('cache', specs, uses, split, df.shape)


# ----------------------------------------------------------------- resampling


def fam_resample(rng, rec):
  """Jackknife and bootstrap of user-defined metrics."""
  df = table(rng, n=rng.choice([16, 30]), dense=True, n_units=rng.choice(
      [3, 4, 6]), rich=True)
  s, u = (pair(rng) if rng.random() < .5 else
          pair(rng, tree_fn=lambda r, p: tree(r, p, 'robust'),
               impls=('sub', 'keep')))
  k = rng.choice(['Jackknife', 'Jackknife', 'Bootstrap', 'PoissonBootstrap'])
  top = {'k': k, 'unit': 'u' if k == 'Jackknife' or rng.random() < .6 else None,
         'n': rng.choice([3, 6]), 'conf': rng.choice([None, None, .9]),
         'where': gen.wheres(rng, .25)}
  if k == 'Jackknife':
    top.pop('n')
  split = gen.split(rng, ('g', 'h', 'b'), maxn=1, p0=.5)
  data = df.iloc[gen.fmask(top['where'], df)]
  if not len(data) or data['u'].nunique() < 2:
    raise Skip('too few units')
  need_base(s, data, split)
  if not gen.loo_has_baseline(s, data, split):
    raise Skip('no baseline')
  full = dict(top, child=s)
  if gen.leaf_starved(full, df) or gen.loo_sparse(full, df, split, zero=True):
    raise Skip('a replicate without any data')
  det = {'spec': dict(top, child=u), 'split_by': split,
         'table': gen.df_repr(df)}
  if k != 'Jackknife':
    for sub in gen.cells(data, split + ['u'] if top['unit'] else split):
      pass
  seed = rng.randrange(10**6)

  def go(child, opt):
    np.random.seed(seed)
    return gen.build(dict(top, child=child, opt=opt)).compute_on(
        df, list(split))

  # Draws are the same when nothing is aggregated before.
  opt = k == 'Jackknife' and rng.random() < .7
  if k != 'Jackknife':
    if gen.kinds_in(s) & {'HHI', 'TopK'}:
      raise Skip('diversity of nothing')
    try:
      want = go(s, opt)
    except ValueError:
      raise Skip('no replicate has all it needs')
  else:
    try:
      want = go(s, opt)
    except ValueError:
      raise Skip('the jackknife of built-in metrics fails: see C14')
  # Leaves that are not built-in never take the shortcut.
  got = run(lambda: go(u, rng.random() < .6 if k == 'Jackknife' or all(
      i.startswith('leaf') for i in impls_in(u)) and plain_leaf(u) else False),
            'user-defined metrics', det)
  same(want, got, '%s of user-defined metrics' % k, det, rtol=1e-6, atol=1e-7)
  rec.add('resampled_' + k)
  note(rec, s, u, df, split, top)


def plain_leaf(u):
  """Whether some leaf is user-defined, so that there are no shortcuts."""
  return any(i.startswith('leaf') for i in impls_in(u))


# --------------------------------------------------------- notebook's examples


def fam_t(rng, rec):
  """The t interval and the paired t-test of the notebook."""
  df = table(rng, n=rng.choice([20, 40]), n_units=rng.choice([3, 5, 8]),
             conds=('ctl', 't1'), dense=True)
  paired = rng.random() < .5
  unit = rng.choice(['u', ['u'], ['u', 's2']]) if not paired else 'u'
  units = [unit] if isinstance(unit, str) else list(unit)
  lf = leaf(rng, 0, ('x', 'y'))
  lf['where'] = []
  lf['k'] = rng.choice(['Sum', 'Mean'])
  child, _ = swap(rng, lf, .3)
  conf = rng.choice([None, .8, .9, .95])
  split = gen.split(rng, ('g', 'b', 'h'), maxn=1, p0=.5)
  if paired:
    child = {'k': 'AbsoluteChange', 'cond': 'cond', 'base': 'ctl',
             'child': child}
  wh = gen.wheres(rng, .25)
  data = df.iloc[gen.fmask(wh, df)]
  m = custom.TDistribution(unit if rng.random() < .5 else tuple(units),
                           gen.build(child), conf, where=gen.where_arg(wh))
  det = {'unit': unit, 'child': child, 'conf': conf, 'split_by': split,
         'where': gen.where_arg(wh), 'table': gen.df_repr(df)}
  fn = custom.AGG[lf['k']]
  cells = gen.cells(data, split) if split else {(): list(range(len(data)))}
  rows = []
  name = 't-distribution'
  for k, pos in cells.items():
    sl = data.iloc[list(pos)]
    if paired:
      v = fn(sl.groupby(['cond'] + units)[lf['var']])
      if 'ctl' not in v.index or 't1' not in v.index:
        raise Skip('one group is absent')
      a, b = v.loc['t1'], v.loc['ctl']
      if len(a.index.union(b.index)) != len(a) or len(a) != len(b):
        raise Skip('units in one group only')
      vals = (a - b).tolist()
    else:
      vals = fn(sl.groupby(units)[lf['var']]).tolist()
    if len(vals) < 2:
      raise Skip('a single unit')
    est = float(np.mean(vals))
    se = float(np.std(vals, ddof=1) / math.sqrt(len(vals)))
    if se < 1e-9:
      raise Skip('a constant')
    if conf:
      lo, hi = stats.t.interval(conf, len(vals) - 1, est, se)
      rows.append((k, [est, lo, hi]))
    else:
      rows.append((k, [est, se]))
  if not rows:
    raise Skip('no rows')
  res = run(lambda: m.compute_on(df, list(split)), 'the t distribution', det)
  n = cmpx.norm(res)
  got = {}
  for k, v in n.rows:
    d = dict(zip(n.names, k))
    if paired and d.get('cond') != 't1':
      raise Violation('an unexpected row %r' % (k,), det)
    got[tuple(d[c] for c in split)] = v
  want = {tuple(map(cmpx.keyval, k)): v for k, v in rows}
  if set(want) != set(got):
    raise Violation('slices %r instead of %r' % (sorted(got), sorted(want)),
                    dict(det, got=n.dump()))
  for k, v in want.items():
    if len(got[k]) != len(v) or not all(cmpx.close(a, b) for a, b in zip(
        v, got[k])):
      raise Violation('the slice %r is %r instead of %r' % (k, got[k], v),
                      dict(det, got=n.dump()))
  tail = [c[-1] for c in n.cols]
  exp = (['Value', 't-distribution CI-lower', 't-distribution CI-upper'] if conf
         else ['Value', 't-distribution SE'])
  if tail != exp:
    raise Violation('columns %r' % (n.cols,), det)
  rec.add('t_paired' if paired else 't_plain')
  rec.signature('t', unit, child, conf, split, wh, df.shape)


def fam_ci(rng, rec):
  """User-defined resampling and intervals."""
  df = table(rng, n=rng.choice([24, 40]), dense=True)
  s = tree(rng, 0)
  if gen.kinds_in(s) & {'HHI', 'TopK', 'CumulativeDistribution'}:
    raise Skip('folds without a category')
  u, _ = swap(rng, s, .3)
  split = gen.split(rng, ('g', 'b', 'h'), maxn=1, p0=.5)
  conf = rng.choice([None, .8, .95, .9])
  style = rng.choice([None, 'asym', 'bounds']) if conf else None
  k = rng.choice([3, 4, 5])
  keyed = rng.random() < .6
  repeat = [rng.randrange(k) for _ in range(rng.choice([0, 0, 2]))]
  wh = gen.wheres(rng, .3)
  data = df.iloc[gen.fmask(wh, df)]
  form = form_of(rng)
  form.update(frame=True, key=None)
  det = {'spec': u, 'where': gen.where_arg(wh), 'split_by': split, 'k': k,
         'conf': conf, 'style': style, 'keyed': keyed, 'repeat': repeat,
         'form': form, 'table': gen.df_repr(df)}
  need_base(dict(s, where=list(s.get('where') or []) + wh), df, split)
  built = gen.build(s)
  if any(not len(data[data['t'] % k != i]) for i in range(k)):
    raise Skip('a fold without rows')
  try:
    est = cmpx.norm(built.compute_on(data, list(split)))
    folds = [cmpx.norm(built.compute_on(data[data['t'] % k != i], list(split)))
             for i in list(range(k)) + repeat]
  except Exception:  # pylint: disable=broad-except
    raise Skip('a fold without all it needs')
  if any(len(f.cols) != len(est.cols) or f.names != est.names for f in folds):
    raise Skip('a fold of another form')
  if not any(f.rows for f in folds):
    raise Skip('no fold has any row')
  if style == 'bounds' and any(k not in est.d for f in folds for k in f.d):
    raise Skip('a row only folds have')
  cols, rows = [], [(key, []) for key in est.keys()]
  tail = ['Folds CI-lower', 'Folds CI-upper'] if conf else ['Folds SE']
  for j, c in enumerate(est.cols):
    cols += [(c, t) for t in ['Value'] + tail]
    for (key, v), (_, out) in zip(est.rows, rows):
      vals = [f.d[key][j] for f in folds if key in f.d]
      vals = [x for x in vals if x is not None]
      if any(math.isinf(x) for x in vals + [v[j] or 0]):
        raise Skip('a division by zero')
      se = float(np.std(vals, ddof=1)) if len(vals) > 1 else None
      dof = len(vals) - 1
      out.append(v[j])
      if not conf:
        out.append(se)
      elif se is None or (v[j] is None and style != 'bounds'):
        out += [None, None]
      elif style == 'bounds':
        out += [-1.0, float(dof)]
      else:
        a, b = ((se, 2 * se) if style == 'asym' else
                [se * stats.t.ppf((1 + conf) / 2, dof)] * 2)
        out += [v[j] - a, v[j] + b]
  m = custom.Folds('t', k, gen.build(u), conf, keyed, repeat, style,
                   where=gen.where_arg(wh))
  res = run(lambda: ask(m, df, split, form), 'the folds', det)
  if form['melted']:
    rows = [((c,) + tuple(key), v[i * (len(tail) + 1):(i + 1) * (len(tail) + 1)])
            for i, c in enumerate(est.cols) for key, v in rows]
    want = Norm(['Metric'] + est.names, ['Value'] + tail, rows)
  else:
    want = Norm(est.names, cols, rows)
  check(want, res, 'the folds', det)
  rec.add('ci_' + (style or ('t' if conf else 'se')))
  rec.add('ci_values', sum(len(v) for _, v in rows))
  rec.signature('ci', u, split, k, conf, style, keyed, repeat, wh, form)


def fam_regression(rng, rec):
  """The two regressions of the notebook, alone and jackknifed."""
  df = table(rng, n=rng.choice([30, 50]), rich=True, n_units=rng.choice([3, 5]))
  split = gen.split(rng, ('g', 'b'), maxn=1, p0=.5)
  grp = rng.choice(['s', 'cond', 'i'])
  wh = gen.wheres(rng, .2)
  data = df.iloc[gen.fmask(wh, df)]
  cells = gen.cells(data, split) if split else {(): list(range(len(data)))}
  jk = rng.random() < .5
  sub = []
  for k, pos in cells.items():
    sl = data.iloc[list(pos)]
    sub += [sl] + ([sl[sl['u'] != v] for v in sl['u'].unique()] if jk else [])
  if not cells or any(s[grp].nunique() < 3 and grp != 's' or
                      s[grp].nunique() < 2 for s in sub):
    raise Skip('too few groups')
  det = {'grp': grp, 'split_by': split, 'where': gen.where_arg(wh), 'jk': jk,
         'table': gen.df_repr(df)}
  w = gen.where_arg(wh)

  def go(cls, opt=True):
    m = cls('x', 'y', grp, where=w)
    if jk:
      m = O.Jackknife('u', m, rng.choice([None]), enable_optimization=opt)
    return m.compute_on(df, list(split))

  fast = run(lambda: go(custom.Regression), 'the delegating version', det)
  slow = run(lambda: go(custom.RegressionSlow), 'the plain version', det)
  plain = run(lambda: go(custom.Regression, False), 'without shortcuts', det)
  vals = lambda r: [v for _, v in cmpx.norm(r).rows]
  for other, what in ((slow, 'the plain version'), (plain,
                                                   'without shortcuts')):
    a, b = vals(fast), vals(other)
    if len(a) != len(b) or any(
        not cmpx.close(x, y, 1e-6, 1e-7) for p, q in zip(a, b)
        for x, y in zip(p, q)):
      raise Violation('the delegating version differs from %s' % what, dict(
          det, fast=cmpx.norm(fast).dump(), other=cmpx.norm(other).dump()))
  # Against the closed form on the full data.
  by = {}
  for k, v in cmpx.norm(fast).rows:
    d = dict(zip(cmpx.norm(fast).names, k))
    by.setdefault(tuple(d[c] for c in split), []).append(v[0])
  if set(by) != {tuple(map(cmpx.keyval, k)) for k in cells}:
    raise Violation('slices %r' % sorted(by), det)
  for k, pos in cells.items():
    sl = data.iloc[list(pos)]
    g = sl.groupby(grp)[['x', 'y']].mean()
    slope = np.polyfit(g['x'], g['y'], 1)
    a, b = by[tuple(map(cmpx.keyval, k))]
    if not cmpx.close(a, slope[0], 1e-5, 1e-6) or not cmpx.close(
        b, slope[1], 1e-5, 1e-5):
      raise Violation('slice %r: %r, %r instead of %r' % (k, a, b, slope),
                      dict(det, fast=cmpx.norm(fast).dump()))
  rec.add('regressions_jk' if jk else 'regressions')
  rec.signature('reg', grp, split, wh, jk, df.shape)


# ------------------------------------------------------------------------ SQL


def fam_sql(rng, rec):
  """Queries of user-defined metrics, and mixed mode."""
  where_p = rng.choice([0, .3])
  df = c20.a_table(rng)
  s = tree(rng, where_p)
  split = c20.splits(rng, s, 2)
  if 'MH' in gen.kinds_in(s) or 'CumulativeDistribution' in gen.kinds_in(s):
    raise Skip('see C20')
  c20.clean_names(s, split)
  c20.ready(s, df, split, rng)
  u, n = swap(rng, s, rng.choice([.4, .8, 1]), impls=('simple', 'sub'))
  if not n:
    raise Skip('nothing to replace')
  if sqlx.twice(s):
    raise Skip('one value under two names: a known finding')
  mode = rng.choice([None, 'mixed'])
  ops = [i for i in impls_in(u) if i.startswith('Dist')]
  if mode == 'mixed' and 'Distribution_slices' in ops:
    raise Skip('has no mixed mode')
  if mode is None and set(ops) - {'Distribution_slices'} and (
      u['k'] != 'Distribution' or u.get('impl') == 'slices') and (
          'Distribution_slices' in ops):
    raise Skip('a query above or below a metric without one')
  det = {'spec': u, 'split_by': split, 'mode': mode, 'table': gen.df_repr(df)}
  want = run(lambda: gen.build(s).compute_on(df, list(split)), 'in memory', det)
  if any(v is not None and not abs(v) < 1e8 for _, vs in cmpx.norm(want).rows
         for v in vs):
    raise Skip('a division by rounding errors')
  db = sqlx.Run(df, rng.random())
  m = gen.build(u)
  got = sqlx.call(lambda: m.compute_on_sql('T', list(split), db.execute,
                                           mode=mode),
                  'user-defined metrics in SQL', det, db)
  sqlx.check(want, got, 'user-defined metrics in SQL', det, db)
  rec.add('sql' if mode is None else 'sql_mixed')
  rec.add('queries', len(db.queries))
  note(rec, s, u, df, split, mode)


def fam_twins(rng, rec):
  """Metrics derived from equivalent built-in ones are not confused."""
  jk = rng.random() < .4
  df = table(rng, n=rng.choice([16, 30]), dense=True, rich=True,
             n_units=rng.choice([2, 3, 4]))
  split = gen.split(rng, ('g', 'h', 'b'), maxn=1, p0=.5)
  cells = gen.cells(df, split) if split else {(): list(range(len(df)))}
  names = list(custom.TWINS)
  cols = ('x', 'w', 'f') if rng.random() < .5 else ('w', 'f')
  parts = []
  for _ in range(rng.choice([2, 3, 5, 8])):
    if parts and rng.random() < .4:  # the columns the other way round
      parts.append((parts[-1][0], parts[-1][2], parts[-1][1]))
    else:
      a, b = rng.sample(cols, 2)
      if parts and rng.random() < .6:
        a, b = parts[0][1:3]
      parts.append((rng.choice(names), a, b))
  rng.shuffle(parts)
  shared = rng.random() < .5
  ms = []
  for i, (n, a, b) in enumerate(parts):
    m = custom.twin(n, a, b, shared)
    if hasattr(m, 'set_name'):
      m.set_name('v%d' % i)
    else:
      m.name = 'v%d' % i
    ms.append(m)
  root = M.MetricList(ms)
  kind = rng.choice(['Jackknife', 'Jackknife', 'same']) if jk else None
  det = {'parts': parts, 'shared': shared, 'split_by': split, 'jk': kind,
         'table': gen.df_repr(df)}
  rows = []
  for k, pos in cells.items():
    sl = df.iloc[list(pos)]
    units = sl['u'].unique()
    if jk and len(units) < 2 or len(sl) < 3 or jk and any(
        sum(sl['u'] != u) < 2 for u in units):
      raise Skip('too few units')
    vals = []
    for n, a, b in parts:
      fn = custom.TWINS[n][1]
      with np.errstate(all='ignore'):
        est = float(fn(sl[a], sl[b]))
        loo = [float(fn(sl[a][sl['u'] != u], sl[b][sl['u'] != u]))
               for u in units] if jk else []
      if not all(map(math.isfinite, [est] + loo)):
        raise Skip('not defined')
      vals.append(est)
      if jk:
        vals.append(float(np.std(loo) * math.sqrt(len(loo) - 1)))
    rows.append((k, vals))
  def go():
    m = O.Jackknife('u', root, enable_optimization=rng.random() < .7) if jk else root
    if kind == 'same' or not jk and rng.random() < .3:
      cache = {}  # Everything is in there the second time.
      m.compute_on(df, list(split), cache_key='K', cache=cache)
      return m.compute_on(None, list(split), cache_key='K', cache=cache)
    return m.compute_on(df, list(split))
  res = run(go, 'the metrics', det)
  names = ['v%d' % i for i in range(len(parts))]
  if jk:
    names = [(n, t) for n in names for t in ('Value', 'Jackknife SE')]
  check(Norm(split, names, rows), res, 'twins', det, rtol=1e-7, atol=1e-7)
  rec.add('twins_jk' if jk else 'twins')
  for n in {p[0] for p in parts}:
    rec.add('twin_' + n.replace('/', '_'))
  rec.signature('twins', parts, split, shared, kind, df.shape)


def fam_ci_sub(rng, rec):
  """Intervals defined on top of a jackknife, in memory and in SQL."""
  df = table(rng, n=rng.choice([24, 40]), dense=True, rich=True, sql=True,
             n_units=rng.choice([3, 5]))
  s = tree(rng, 0)
  if gen.kinds_in(s) & {'HHI', 'TopK', 'CumulativeDistribution', 'MH',
                        'Distribution'}:
    raise Skip('replicates without a category')
  split = gen.split(rng, ('g', 'b', 'h'), maxn=1, p0=.5)
  need_base(s, df, split)
  if not gen.loo_has_baseline(s, df, split):
    raise Skip('no baseline')
  top = {'k': 'Jackknife', 'unit': 'u', 'where': []}
  full = dict(top, child=s)
  if gen.leaf_starved(full, df) or gen.loo_sparse(full, df, split, zero=True):
    raise Skip('a replicate without any data')
  if sqlx.twice(s):
    raise Skip('one value under two names: a known finding')
  c20.clean_names(s, split)
  style = rng.choice(['asym', 'bounds'])
  mode = rng.choice(['memory', 'memory', 'sql', 'mixed'])
  batch = rng.choice([None, 1, 2])
  det = {'spec': s, 'split_by': split, 'style': style, 'mode': mode,
         'batch': batch, 'table': gen.df_repr(df)}
  base = cmpx.norm(run(lambda: O.Jackknife('u', gen.build(s)).compute_on(
      df, list(split)), 'the jackknife', det))
  m = custom.MyJackknife('u', gen.build(s), .9,
                         enable_optimization=rng.random() < .7)
  m.style = style
  db = sqlx.Run(df, rng.random())
  if mode == 'memory':
    res = run(lambda: m.compute_on(df, list(split)), 'own intervals', det)
  else:
    kw = {'batch_size': batch} if mode == 'mixed' and batch else {}
    res = sqlx.call(lambda: m.compute_on_sql(
        'T', list(split), db.execute, mode='mixed' if mode == 'mixed' else None,
        **kw), 'own intervals in SQL', det, db)
  cols, rows = [], [(k, []) for k in base.keys()]
  for j in range(0, len(base.cols), 2):
    n = base.cols[j][0] if isinstance(base.cols[j], tuple) else base.cols[j]
    cols += [(n, t) for t in ('Value', 'Jackknife CI-lower',
                              'Jackknife CI-upper')]
    for (_, v), (_, out) in zip(base.rows, rows):
      est, se = v[j], v[j + 1]
      if se is None or est is None:
        out += [est, None, None]
      elif style == 'asym':
        out += [est, est - se, est + 2 * se]
      else:
        out += [est, -3 * se, se]
  want = Norm(base.names, cols, rows)
  if mode == 'memory':
    check(want, res, 'own intervals', det, rtol=1e-6, atol=1e-7)
  else:
    sqlx.check(want, res, 'own intervals in ' + mode, det, db, rtol=1e-5,
               atol=1e-6)
  rec.add('ci_sub_' + mode)
  rec.signature('cisub', s, split, style, mode, batch, df.shape)


FAMILIES = [('tree', 8, fam_tree), ('sub', 3, fam_sub), ('flow', 3, fam_flow),
            ('op_flow', 3, fam_op_flow), ('cache', 3, fam_cache),
            ('resample', 4, fam_resample), ('t', 3, fam_t), ('ci', 4, fam_ci),
            ('regression', 2, fam_regression), ('sql', 4, fam_sql),
            ('twins', 3, fam_twins), ('ci_sub', 3, fam_ci_sub)]
FINDINGS = {}
