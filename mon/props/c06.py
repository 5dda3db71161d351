"""C06: metric objects carry no state from one computation to the next."""
import copy

import numpy as np
import pandas as pd

from mon import cmpx, gen
from mon.cmpx import check
from mon.core import Skip, Violation

from meterstick import metrics as M
from meterstick import operations as O

RULE = ('one history of 6-14 steps over a growing pool of live metric objects: '
        'computations (in memory, long form, user caches, query generation), '
        'computations that fail (missing column, bad filter, failing executor, '
        'failing custom metric), copies, renames, filter changes, embedding in '
        'lists/arithmetic/operations, one operation applied to many metrics; '
        'after each computation the result is compared with a freshly built '
        'metric and the caches are inspected; distinct = the whole history')
ASSUMPTIONS = ['histories contain one thread only',
               'the random state of numpy is set to the same value before the '
               'live and the fresh computation of a bootstrap']
LIMITS = {'quick': (900, 55), 'thorough': (25000, 600)}
MIN_EVENTS = {'computations_compared': 2500, 'failed_computations': 400,
              'caches_inspected': 3000, 'op_reused': 80, 'copies': 100}
KW = dict(rtol=1e-9, atol=1e-9)


class Boom(Exception):
  pass


class FailingMetric(M.Metric):
  """A custom metric that fails on demand, somewhere in the middle."""

  def __init__(self, var, fuse):
    super().__init__('failing(%s)' % var)
    self.var, self.fuse = var, fuse

  def compute(self, df):
    if self.fuse['left'] == 0:
      raise Boom('injected')
    self.fuse['left'] -= 1
    return df[self.var].sum()


def model_spec(rng):
  kind = rng.choice(['LinearRegression', 'Ridge', 'Lasso', 'ElasticNet'])
  kw = {'fit_intercept': rng.random() < .7, 'normalize': rng.random() < .3}
  if kind != 'LinearRegression':
    kw['alpha'] = rng.choice([.01, .1])
  return {'k': 'Model', 'model': kind, 'gb': rng.choice([['u'], ['u', 's2']]),
          'y': {'k': 'Sum', 'var': 'w'}, 'kw': kw,
          'x': [{'k': 'Mean', 'var': 'p'}, {'k': 'Sum', 'var': 'q'}][
              :rng.choice([1, 2])]}


def base(rng):
  r = rng.random()
  if r < .25:
    return gen.leaf(rng, rng.choice(['robust', 'rich']), where_p=.3)
  if r < .4:
    return gen.scalar(rng, 2, where_p=.2)
  if r < .5:
    return gen.multi(rng, 1, where_p=.2)
  if r < .75:
    return gen.operation(rng, rng.choice(gen.OPS_BASIC + gen.OPS_ADJ), .15)
  if r < .83:
    return model_spec(rng)
  child = gen.pos_scalar(rng, 0) if rng.random() < .6 else gen.operation(
      rng, rng.choice(['Distribution', 'PercentChange', 'AbsoluteChange',
                       'HHI']), 0, lists=False)
  k = rng.choice(['Jackknife', 'Jackknife', 'Bootstrap', 'PoissonBootstrap'])
  return {'k': k, 'unit': 'u' if k == 'Jackknife' else rng.choice(['u', None]),
          'n': 4, 'child': child, 'conf': rng.choice([None, .9]),
          'opt': rng.random() < .7}


def simple(s):
  """Usable as an operand/list member with any other simple one."""
  return s['k'] not in ('list', 'Model', 'Jackknife', 'Bootstrap',
                        'PoissonBootstrap') and not gen.extra_index(s)


class Live:
  def __init__(self, spec, m):
    self.spec, self.m = spec, m


def nodes(m):
  return list(m.traverse())


def inspect(m, det, rec, extra=(), own=()):
  """No cached data and no cache key after a top-level computation."""
  for x in nodes(m) + [n for e in extra for n in nodes(e)]:
    rec.add('caches_inspected')
    if getattr(x, 'cache_key', None) is not None:
      raise Violation('a cache key remains in %s after the computation' % x.name,
                      det)
    c = getattr(x, 'cache', None)
    if any(c is o for o in own):
      continue  # a cache the user passed explicitly
    if len(c or {}):
      raise Violation('cached data remains in %s after the computation' % x.name,
                      det)


def outcome(fn):
  try:
    return ('ok', fn())
  except Exception as e:  # pylint: disable=broad-except
    return ('err', e)


def f_history(rng, rec):
  n = rng.choice([20, 30])
  tables = [gen.table(rng, n=n, dense=True, rich=True, group_vals=2,
                      n_units=rng.choice([3, 4])) for _ in range(2)]
  # The second table differs in content only.
  pool = []
  log = []
  for _ in range(rng.choice([1, 2])):
    s = base(rng)
    pool.append(Live(s, gen.build(s)))
    log.append(['new', s])
  ops = []  # operation templates: (spec without child, live op, used)
  user_cache = {}
  own = [user_cache]
  steps = rng.randint(6, 14)
  det = {'history': log, 'tables': [gen.df_repr(t) for t in tables]}
  n_cmp = 0

  def compute(lv, force=None):
    nonlocal n_cmp
    ti = rng.randrange(2)
    split = gen.split(rng, ('g', 'b', 'h'), 2, .4)
    # User caches outlive a computation, by design.
    how = force or rng.choice(['df', 'df', 'df', 'melted', 'pipe', 'cached',
                               'sql', 'nodf'])
    df = tables[ti]
    seed = rng.randrange(10**6)
    fresh = gen.build(lv.spec)
    kind = gen.kinds_in(lv.spec)
    log.append(['compute', how, ti, split, lv.spec['k'], pool.index(lv)])
    kw = {}
    if how == 'melted':
      kw['melted'] = True
    if how == 'nodf':
      kw['return_dataframe'] = False
    if how == 'sql':
      a = outcome(lambda: str(lv.m.to_sql('T', list(split))))
      b = outcome(lambda: str(fresh.to_sql('T', list(split))))
      if a[0] != b[0] or (a[0] == 'ok' and a[1] != b[1]):
        raise Violation('the query of a used metric differs from that of a '
                        'fresh one', dict(det, used=str(a[1]), fresh=str(b[1])))
      rec.add('queries_compared')
      return

    def run_(m, c=None):
      np.random.seed(seed)
      if how == 'pipe':
        return m | M.compute_on(df, list(split))
      if c is not None:
        return m.compute_on(df, list(split), cache_key='tab%s' % ti, cache=c)
      return m.compute_on(df, list(split), **kw)

    c = user_cache if how == 'cached' else None
    if c is not None and kind & {'Bootstrap', 'PoissonBootstrap'}:
      c = {}
      own.append(c)  # a cached bootstrap result is a different draw
    a = outcome(lambda: run_(lv.m, c))
    b = outcome(lambda: run_(fresh))
    if a[0] != b[0]:
      raise Violation(
          'after this history the metric %s while a fresh one %s' % (
              ('raises %r' % a[1]) if a[0] == 'err' else 'succeeds',
              ('raises %r' % b[1]) if b[0] == 'err' else 'succeeds'), det)
    if a[0] == 'ok':
      ra, rb = a[1], b[1]
      if how == 'nodf' and isinstance(ra, list):
        for x, y in zip(ra, rb):
          check(x, y, 'used vs fresh metric', det, order=True, **KW)
      else:
        check(ra, rb, 'used vs fresh metric', det, order=how != 'cached', **KW)
      rec.add('computations_compared')
      n_cmp += 1
    else:
      rec.add('both_raise')
    inspect(lv.m, det, rec, own=own)

  for _ in range(steps):
    act = rng.choice(['compute'] * 5 + ['fail'] * 2 + ['copy', 'embed', 'embed',
                                                     'opcall', 'rename', 'where',
                                                     'new', 'eq', 'failin'])
    lv = rng.choice(pool)
    if act == 'compute':
      compute(lv)
    elif act == 'new' and len(pool) < 7:
      s = base(rng)
      pool.append(Live(s, gen.build(s)))
      log.append(['new', s])
    elif act == 'fail':
      df = rng.choice(tables)
      how = rng.choice(['column', 'split', 'none', 'sql', 'sqlmixed', 'mode'])
      log.append(['fail', how, pool.index(lv)])
      if how == 'column':
        # Drop one of the columns; some metrics do not need it.
        col = rng.choice(['x', 'y', 'z', 'w', 'f', 'p', 'q', 'u', 'cond', 's',
                          's2', 'i'])
        r = outcome(lambda: lv.m.compute_on(df.drop(columns=[col]), ['g']))
      elif how == 'split':
        r = outcome(lambda: lv.m.compute_on(df, ['no_such_column']))
      elif how == 'none':
        r = outcome(lambda: lv.m.compute_on(df.drop(columns=list(df.columns)[:8]),
                                            ['b']))
      elif how == 'mode':
        r = outcome(lambda: lv.m.compute_on_sql('T', ['g'], lambda q: None,
                                                mode='nonsense'))
      else:
        def execute(q):
          raise Boom(q[:20])
        r = outcome(lambda: lv.m.compute_on_sql(
            'T', ['g'], execute, mode=None if how == 'sql' else 'mixed'))
      rec.add('failed_computations' if r[0] == 'err' else 'unexpected_success')
      inspect(lv.m, det, rec, own=own)
    elif act == 'failin':
      # A failing sibling or child deep inside a tree of live metrics.
      fuse = {'left': rng.choice([0, 0, 1, 2])}
      bad = FailingMetric('w', fuse)
      form = rng.choice(['bin', 'list', 'jk', 'change'])
      if form == 'bin' and not simple(lv.spec):
        form = 'list'
      log.append(['failin', form, fuse['left'], pool.index(lv)])
      tree = {'bin': lambda: lv.m / bad,
              'list': lambda: M.MetricList([lv.m, bad]),
              'jk': lambda: O.Jackknife('u', M.MetricList([bad, M.Sum('w')])),
              'change': lambda: O.PercentChange('cond', 'ctl', bad)}[form]()
      r = outcome(lambda: tree.compute_on(rng.choice(tables), ['g']))
      rec.add('failed_computations' if r[0] == 'err' else 'tolerated_failures')
      inspect(tree, det, rec, [lv.m], own)
    elif act == 'copy':
      how = rng.choice(['copy', 'deepcopy', 'pool'])
      m2 = copy.copy(lv.m) if how == 'copy' else copy.deepcopy(lv.m)
      log.append([how, pool.index(lv)])
      rec.add('copies')
      if how == 'pool' and len(pool) < 7:
        pool.append(Live(copy.deepcopy(lv.spec), m2))
      else:
        lv.m = m2
    elif act == 'rename':
      s = lv.spec
      if s['k'] in ('Sum', 'Count', 'Mean', 'Max', 'Min', 'bin'):
        nm = rng.choice(['renamed', 'foo bar', 'A'])
        log.append(['rename', nm, pool.index(lv)])
        if s['k'] == 'bin':
          lv.m.set_name(nm)
        else:
          lv.m.name = nm
        lv.spec = dict(s, name=nm)
        # Parents that display this name were built with the old one; the
        # displayed labels of formulas are fixed when they are built, so only
        # keep this object.
        pool[:] = [p for p in pool if p is lv or not any(
            n is x for n in nodes(lv.m) for x in nodes(p.m))]
      elif s['k'] == 'list' and not s.get('rename'):
        df = tables[0]
        k = len(s['ch'])
        if all(c['k'] not in ('list', 'Jackknife') for c in s['ch']):
          cols = ['c%s' % i for i in range(k)]
          log.append(['rename_columns', cols, pool.index(lv)])
          lv.m.rename_columns(list(cols))
          lv.spec = dict(s, rename=list(cols))
          pool[:] = [p for p in pool if p is lv or not any(
              lv.m is x for x in nodes(p.m))]
    elif act == 'where':
      f = gen.filt(rng)
      log.append(['where', f, pool.index(lv)])
      lv.m.where = gen.ftext(f)
      lv.spec = dict(lv.spec, where=[f])
      # Other trees that contain this very object are changed as well.
      pool[:] = [p for p in pool if p is lv or not any(
          lv.m is x for x in nodes(p.m))]
    elif act == 'embed' and len(pool) < 8:
      other = rng.choice(pool)
      form = rng.choice(['bin', 'list', 'dist', 'pc', 'jk', 'num', 'neg'])
      s = m = None
      if form == 'bin' and simple(lv.spec) and simple(other.spec):
        op = rng.choice('+-*')
        s = {'k': 'bin', 'op': op, 'a': lv.spec, 'b': other.spec}
        m = {'+': lambda: lv.m + other.m, '-': lambda: lv.m - other.m,
             '*': lambda: lv.m * other.m}[op]()
      elif form == 'num' and simple(lv.spec):
        s = {'k': 'bin', 'op': '*', 'a': 2, 'b': lv.spec}
        m = 2 * lv.m
      elif form == 'neg' and simple(lv.spec):
        s = {'k': 'neg', 'a': lv.spec}
        m = -lv.m
      elif form == 'list' and simple(lv.spec) and simple(other.spec) and (
          lv.m.name != other.m.name):
        s = {'k': 'list', 'ch': [lv.spec, other.spec]}
        m = M.MetricList([lv.m, other.m])
      elif form == 'dist' and simple(lv.spec):
        s = {'k': 'Distribution', 'over': ['s'], 'child': lv.spec}
        m = O.Distribution(['s'], lv.m)
      elif form == 'pc' and simple(lv.spec):
        s = {'k': 'AbsoluteChange', 'cond': 'cond', 'base': 'ctl',
             'child': lv.spec}
        m = O.AbsoluteChange('cond', 'ctl', lv.m)
      elif form == 'jk' and simple(lv.spec):
        s = {'k': 'Jackknife', 'unit': 'u', 'child': lv.spec}
        m = O.Jackknife('u', lv.m)
      if s:
        log.append(['embed', form, pool.index(lv), pool.index(other)])
        pool.append(Live(s, m))
        rec.add('embedded')
    elif act == 'opcall' and len(pool) < 8:
      kind = rng.choice(['Distribution', 'PercentChange', 'Jackknife',
                         'CumulativeDistribution', 'HHI', 'AbsoluteChange', 'MH',
                         'Model', 'Bootstrap', 'TopK', 'Nxx'])
      sp = {'k': kind, 'over': ['s'], 'cond': 'cond', 'base': 'ctl',
            'unit': 'u', 'strat': ['s2'], 'kk': 2, 'share': .57, 'n': 4,
            'conf': rng.choice([None, .9])}
      if kind == 'Model':
        sp = {'k': 'Model', 'model': 'LinearRegression', 'gb': ['u', 's2']}
        from meterstick import models as MD
        live_op = MD.LinearRegression(group_by=['u', 's2'])
      else:
        live_op = gen.build(dict(sp))
      outs = []
      for j in range(rng.choice([2, 2, 3])):
        if kind == 'Model':
          y = {'k': 'Sum', 'var': rng.choice(['w', 'p'])}
          xs = [{'k': 'Mean', 'var': 'q'}]
          cs = dict(sp, y=y, x=xs)
          arg = M.MetricList([gen.build(y)] + [gen.build(x) for x in xs])
        elif kind == 'MH':
          ch = {'k': 'bin', 'op': '/', 'a': {'k': 'Sum', 'var': rng.choice('wp')},
                'b': {'k': rng.choice(['Sum', 'Count']), 'var': 'f'}}
          cs = dict(sp, child=ch)
          arg = gen.build(ch)
        else:
          ch = gen.pos_scalar(rng, .2)
          cs = dict(sp, child=ch)
          arg = gen.build(ch)
        m = arg | live_op if rng.random() < .3 else live_op(arg)
        outs.append(Live(cs, m))
        if rng.random() < .5:
          pool.append(outs[-1])
          compute(outs[-1], 'df')
          pool.pop()
        if rng.random() < .2:
          outcome(lambda: m.compute_on(tables[0], ['no_such_column']))
          inspect(m, det, rec, own=own)
      log.append(['opcall', kind, [o.spec.get('child') for o in outs]])
      rec.add('op_reused')
      for o in outs:
        if o.m is not outs[0].m:
          shared = set(map(id, nodes(o.m))) & set(map(id, nodes(outs[0].m)))
          if shared:
            raise Violation('one operation applied to two metrics gives trees '
                            'that share nodes', det)
      pool.extend(outs)
      for o in outs:
        compute(o, 'df')
    elif act == 'eq':
      fresh = gen.build(lv.spec)
      log.append(['eq', pool.index(lv)])
      a = outcome(lambda: (lv.m == fresh, hash(lv.m) == hash(fresh)))
      if a[0] == 'ok' and a[1] != (True, True) and lv.spec['k'] not in (
          'bin', 'neg', 'Model'):
        raise Violation('a used metric does not equal a fresh one: %r' % (a[1],),
                        dict(det, spec=lv.spec))
      rec.add('equalities')
  for lv in list(pool):
    compute(lv, 'df')
  if not n_cmp:
    raise Skip('nothing could be computed')
  rec.signature(log)
  rec.sample = {'history': [l[0] for l in log]}


FAMILIES = [('history', 1, f_history)]
