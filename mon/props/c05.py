"""C05: metrics computed together report what each reports alone."""
import copy

import numpy as np
import pandas as pd

from mon import cmpx, gen
from mon.cmpx import Norm, check, run
from mon.core import Skip, Violation

RULE = ('a set of 2-9 deliberately similar metrics computed together (list, '
        'nested lists, under one operation, or through one explicitly shared '
        'cache), each compared with a fresh copy computed alone; distinct = '
        '(specs, way of sharing, grouping)')
LIMITS = {'quick': (2500, 50), 'thorough': (60000, 600)}
MIN_EVENTS = {'members_compared': 4000, 'cache_steps': 800}
KW = dict(rtol=1e-9, atol=1e-9)


def variants(rng, s):
  """Specs that differ from s in one setting."""
  out = []
  k = s['k']
  swap = lambda **kw: out.append(dict(copy.deepcopy(s), **kw))
  if 'var' in s and k != 'Nth':
    swap(var=rng.choice(['x', 'y', 'z']))
  if k in ('Sum', 'Count', 'Mean', 'Max', 'Min', 'CountD'):
    swap(k=rng.choice(['Sum', 'Count', 'Mean', 'Max', 'Min', 'CountD']))
  if 'unbiased' in s:
    swap(unbiased=not s['unbiased'])
    k2 = {'Variance': 'StandardDeviation', 'StandardDeviation': 'Variance',
          'CV': 'Variance', 'WVariance': 'WSD', 'WSD': 'WVariance'}[k]
    swap(k=k2)
    if k in ('Variance', 'StandardDeviation'):
      swap(k='W' + {'Variance': 'Variance', 'StandardDeviation': 'SD'}[k])
  if k in ('Cov', 'WCov', 'FCov'):
    swap(bias=not s.get('bias'))
    swap(ddof=rng.choice([0, 1, 2, None]))
    swap(k=rng.choice(['Cov', 'WCov', 'FCov']))
    swap(var=s['var2'], var2=s['var'])
  if k in ('Dot', 'DotN', 'Correlation', 'WCorr'):
    swap(var=s['var2'], var2=s['var'])
    swap(k={'Dot': 'DotN', 'DotN': 'Dot', 'Correlation': 'WCorr',
            'WCorr': 'Correlation'}[k])
    if k == 'Correlation':
      swap(method=rng.choice(['spearman', 'kendall']))
  if k in ('WMean', 'WVariance', 'WSD', 'WCov', 'WCorr'):
    swap(weight=rng.choice(['f', 'q1', 'w']))
  if k == 'Quantile':
    swap(quantile=rng.choice([.1, .6, 1]))
    swap(interpolation=rng.choice(['lower', 'higher', 'nearest']))
    swap(k='WQuantile')
  if k == 'Nth':
    swap(n=s['n'] + 1)
    swap(ascending=not s.get('ascending', True))
    swap(dropna=not s.get('dropna'))
  w = s.get('where') or []
  swap(where=w + [gen.filt(rng)])
  swap(where=[gen.filt(rng)])
  if w:
    swap(where=[])
    swap(where=w[:-1] + [gen.near(rng, w[-1])])
    swap(where=w[:-1] + [gen.near(rng, w[-1])])
  if k == 'bin':
    if isinstance(s['b'], dict) and isinstance(s['a'], dict):
      swap(a=s['b'], b=s['a'])
    swap(op=rng.choice(['+', '-', '*']))
    for side in 'ab':
      if not isinstance(s[side], dict) and s['op'] != '/':
        swap(**{side: -1})
        swap(**{side: -2})
    if isinstance(s['a'], dict):
      out.append(copy.deepcopy(s['a']))
  if k in ('Distribution', 'CumulativeDistribution'):
    swap(k={'Distribution': 'CumulativeDistribution',
            'CumulativeDistribution': 'Distribution'}[k])
    if k == 'CumulativeDistribution':
      swap(ascending=not s.get('ascending', True))
      swap(sort_by_values=not s.get('sort_by_values'))
  if k in ('PercentChange', 'AbsoluteChange'):
    swap(k={'PercentChange': 'AbsoluteChange',
            'AbsoluteChange': 'PercentChange'}[k])
    swap(include_base=not s.get('include_base'))
    if s['cond'] == 'cond':
      swap(base='t1')
  if k == 'MH':
    swap(strat=rng.choice([['s'], ['s2'], ['s', 's2']]))
    swap(include_base=not s.get('include_base'))
  if k == 'TopK':
    swap(kk=s['kk'] + 1)
  if k == 'Nxx':
    swap(share=.47)
  if k in ('HHI', 'Entropy', 'TopK', 'Nxx'):
    swap(over=['s'])
    swap(k=rng.choice(['HHI', 'Entropy']))
  if k == 'PrePost' or k == 'CUPED':
    swap(cov=[{'k': 'Mean', 'var': rng.choice('pq')}])
    swap(strat=rng.choice([['u'], ['u', 's2']]))
    swap(k={'PrePost': 'CUPED', 'CUPED': 'PrePost'}[k])
  if k == 'Jackknife':
    swap(unit=rng.choice(['s', 'u']))
    swap(conf=rng.choice([None, .9, .95]))
    swap(opt=not s.get('opt', True))
  for key in ('child',):
    if isinstance(s.get(key), dict) and s[key]['k'] != 'list':
      for v in variants(rng, s[key])[:3]:
        swap(**{key: v})
  rng.shuffle(out)
  return out


def base_spec(rng, kind):
  if kind == 'leaf':
    r = rng.random()
    if r < .1:
      return {'k': 'Nth', 'var': 'x', 'n': 0, 'sort_by': 't'}
    return gen.leaf(rng, rng.choice(['robust', 'rich', 'rich']), where_p=.2)
  if kind == 'arith':
    return gen.scalar(rng, 2, where_p=.2)
  if kind == 'ci':
    return {'k': 'Jackknife', 'unit': 'u', 'opt': rng.random() < .7,
            'child': gen.pos_scalar(rng, .2)}
  return gen.operation(rng, rng.choice(gen.OPS_BASIC + gen.OPS_ADJ), .2,
                       lists=False)


def kin(rng):
  """Metrics over one column that the code may treat as each other."""
  v = rng.choice(['x', 'w', 'f'])
  w = lambda: rng.choice([[], [], w1, w2])
  w1, w2 = [gen.filt(rng)], [gen.filt(rng), gen.filt(rng)]
  if rng.random() < .5:
    w2 = [gen.near(rng, w1[0])]
  leaf = lambda: {'k': rng.choice(['Sum', 'Count', 'Mean', 'Sum', 'Count',
                                   'CountD', 'Max']), 'var': v, 'where': w()}
  out = []
  for _ in range(rng.randint(3, 7)):
    r = rng.random()
    if r < .3:
      s = leaf()
    elif r < .8:
      a, b = rng.choice([('Sum', 'Count'), ('Count', 'Sum'), ('Sum', 'Sum'),
                         ('Sum', 'CountD'), ('Mean', 'Count')])
      wa = w()
      op = rng.choice('//+-*') if v != 'x' or b != 'Sum' else rng.choice('+-*')
      s = {'k': 'bin', 'op': op,
           'a': {'k': a, 'var': v, 'where': wa},
           'b': {'k': b, 'var': v, 'where': rng.choice([wa, wa, w()])},
           'where': w()}
    elif r < .9:
      s = {'k': 'Ratio', 'var': v, 'var2': rng.choice('wf'), 'where': w()}
    else:
      s = {'k': 'bin', 'op': rng.choice('+-*'), 'a': leaf(), 'b': 2,
           'where': w()}
    out.append(s)
  wrap = rng.choice(['', '', '', 'Jackknife', 'Jackknife', 'Distribution',
                     'PercentChange'])
  if wrap == 'Jackknife':
    ww = w()
    out = [{'k': 'Jackknife', 'unit': rng.choice(['u', 'u', 's']), 'child': s,
            'opt': rng.random() < .7, 'where': rng.choice([[], ww])}
           for s in out]
  elif wrap == 'Distribution' and v != 'x':
    for i, s in enumerate(out):
      if rng.random() < .4 and s['k'] not in ('Ratio',):
        s['name'] = 'N%d' % rng.randint(0, 2)
    out = [{'k': wrap, 'over': ['s2'], 'child': s} for s in out]
  elif wrap == 'PercentChange' and v != 'x':
    out = [{'k': wrap, 'cond': 'cond', 'base': 'ctl', 'child': s} for s in out]
  return ('op' if wrap else 'arith'), out


def same_hash(rng):
  """Metrics that differ in one value, and the values have one hash."""
  a, b = rng.sample([-1, -2], 2) if rng.random() < .8 else (0, 2**61 - 1)
  child = gen.pos_scalar(rng, .2)
  if rng.random() < .4:
    op = rng.choice('+-*')
    if a not in (-1, -2):  # integers would overflow
      a, b = 1, 2.**61
    mk = rng.choice([lambda v: {'k': 'bin', 'op': op, 'a': child, 'b': v},
                     lambda v: {'k': 'bin', 'op': op, 'a': v, 'b': child}])
    kind = 'arith'
  else:
    k = rng.choice(['PercentChange', 'AbsoluteChange'])
    inc = rng.random() < .5
    mk = lambda v: {'k': k, 'cond': 'lab', 'base': v, 'include_base': inc,
                    'child': child}
    kind = 'op'
  out = [mk(a), mk(b)]
  if rng.random() < .4:
    out = [{'k': 'Jackknife', 'unit': 'u', 'child': s,
            'opt': rng.random() < .7} for s in out]
    kind = 'ci'
  return kind, copy.deepcopy(out)


def pool(rng):
  r = rng.random()
  if r < .3:
    return kin(rng)
  if r < .4:
    return same_hash(rng)
  kind = rng.choice(['leaf', 'leaf', 'arith', 'op', 'op', 'op', 'ci'])
  s = base_spec(rng, kind)
  out = [s]
  vs = variants(rng, s)
  out += vs[:rng.randint(1, 5)]
  if rng.random() < .3:
    out.append(copy.deepcopy(s))  # the very same metric again
  if rng.random() < .3 and kind in ('leaf', 'arith'):
    out.append(base_spec(rng, kind))
  if rng.random() < .25 and kind in ('leaf', 'arith'):
    out.append({'k': 'bin', 'op': rng.choice('+-'), 'a': copy.deepcopy(out[0]),
                'b': copy.deepcopy(out[1 % len(out)])})
  rng.shuffle(out)
  return kind, out


def table(rng, small=False, specs=()):
  df = gen.table(rng, n=rng.choice([40, 60]) if not small else 24, rich=True,
                 dense=True, group_vals=2, n_units=rng.choice([5, 10]))
  df['lab'] = [rng.choice([-1, -2, -2, 0, 2**61 - 1]) for _ in range(len(df))]
  df['q1'] = [rng.choice([1., 2., 3.]) for _ in range(len(df))]
  return gen.relabel(rng, specs, df)


def alone(spec, df, split):
  m = gen.build(spec)
  return cmpx.norm(m.compute_on(df, list(split)))


def usable(specs, df, split):
  """Keeps the members that are defined on this table when computed alone."""
  out = []
  for s in specs:
    if gen.loo_sparse(s, df, split):
      continue  # the jackknife itself is ambiguous there (finding on C14)
    try:
      out.append((s, alone(s, df, split)))
    except Exception:  # pylint: disable=broad-except
      pass
  return out


def f_list(rng, rec):
  kind, specs = pool(rng)
  df = table(rng, specs=specs)
  split = gen.split(rng, p0=.4)
  pairs = usable(specs, df, split)
  if kind in ('op', 'ci') and pairs:
    # Concatenation needs one common index.
    names = pairs[0][1].names
    pairs = [p for p in pairs if p[1].names == names]
  if len(pairs) < 2:
    raise Skip('too few members')
  from meterstick import metrics
  ms = [gen.build(s) for s, _ in pairs]
  if rng.random() < .25:
    i = rng.randint(0, len(ms) - 1)
    ms[i] = metrics.MetricList([ms[i]])  # nested
  det = {'specs': [s for s, _ in pairs], 'split_by': split,
         'table': gen.df_repr(df)}
  m = metrics.MetricList(ms)
  got = cmpx.norm(run(lambda: m.compute_on(df, list(split)),
                      'computing the list', det))
  width = sum(len(e.cols) for _, e in pairs)
  if len(got.cols) != width:
    raise Violation('the list has columns %r, its members %r' %
                    (got.cols, [e.cols for _, e in pairs]), det)
  j = 0
  for i, (s, e) in enumerate(pairs):
    n = len(e.cols)
    g = Norm(got.names, got.cols[j:j + n],
             [(k, v[j:j + n]) for k, v in got.rows])
    j += n
    check(g, e, 'member %d (%s) differs from the same metric alone' %
          (i, s['k']), det, ignore_missing_rows=True, **KW)
    rec.add('members_compared')
  rec.add('list_' + kind)
  rec.signature('list', det['specs'], split)
  rec.sample = {'specs': det['specs'], 'split_by': split}


def f_under(rng, rec):
  """Members below one operation."""
  kind, specs = pool(rng)
  if kind in ('op', 'ci'):
    specs = [gen.pos_scalar(rng, .2) for _ in range(3)]
    specs += variants(rng, specs[0])[:2]
  df = table(rng, specs=specs)
  split = gen.split(rng, p0=.4)
  wrap = rng.choice(['PercentChange', 'AbsoluteChange', 'Distribution',
                     'Jackknife', 'HHI', 'CumulativeDistribution'])
  if wrap in ('Distribution', 'HHI', 'CumulativeDistribution'):
    mk = lambda c: {'k': wrap, 'over': ['s2'], 'child': c}
    # Shares are only well conditioned for positive measures.
    # A filter can leave a member without any cell in a slice: HHI then sums
    # nothing, so only unfiltered members are compared below it.
    p = 0 if wrap == 'HHI' else .2
    specs = [gen.pos_scalar(rng, p) for _ in range(2)]
    specs += [v for v in variants(rng, specs[0])
              if v.get('var', 'w') in ('w', 'f') and
              (p or not gen.filter_cols(v))][:3]
  elif wrap == 'Jackknife':
    opt = rng.random() < .7
    mk = lambda c: {'k': 'Jackknife', 'unit': 'u', 'child': c, 'opt': opt}
    # Replicates are matched by displayed name, so names must be distinct.
    specs = gen.dedup([s for s in specs])
  else:
    mk = lambda c: {'k': wrap, 'cond': 'cond', 'base': 'ctl', 'child': c}
  specs = [s for s in specs if gen.kinds_in(s) and
           not (isinstance(s.get('quantile'), list))]
  pairs = usable([mk(s) for s in specs], df, split)
  if len(pairs) < 2:
    raise Skip('too few members')
  members = [p[0]['child'] for p in pairs]
  spec = mk({'k': 'list', 'ch': members})
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df)}
  got = cmpx.norm(run(lambda: gen.build(spec).compute_on(df, list(split)),
                      'computing the operation on a list', det))
  n = len(pairs[0][1].cols)
  if len(got.cols) != n * len(pairs):
    raise Violation('columns %r for %d members' % (got.cols, len(pairs)), det)
  for i, (s, e) in enumerate(pairs):
    g = Norm(got.names, e.cols, [(k, v[i * n:i * n + n]) for k, v in got.rows])
    check(g, e, 'member %d below %s differs from the operation on it alone' %
          (i, wrap), det, ignore_missing_rows=True, rtol=1e-6, atol=1e-7)
    rec.add('members_compared')
  rec.add('under_' + wrap)
  rec.signature('under', spec, split)


def f_cache(rng, rec):
  """One explicit cache shared over tables, groupings and metrics."""
  kind, specs = pool(rng)
  dfs = [table(rng, small=True, specs=specs), None]
  dfs[1] = table(rng, small=True, specs=specs)
  if rng.random() < .5:
    # Same shape, other values: a wrong hit is invisible in the index.
    dfs[1] = dfs[0].copy()
    for c in ('x', 'y', 'z', 'p', 'q'):
      dfs[1][c] = list(dfs[0][c] + 1)
    dfs[1]['w'] = list(dfs[0]['w'] * 2)
  splits = [[], ['g'], ['b'], ['g', 'b'], ['b', 'g']]
  cache = {}
  live = {}
  log = []
  for _ in range(rng.randint(5, 10)):
    s = rng.choice(specs)
    d = rng.randint(0, 1)
    split = rng.choice(splits)
    key = rng.choice([('k', d), 'key%d' % d, d, -1 - d])
    if gen.loo_sparse(s, dfs[d], split):
      continue
    try:
      e = alone(s, dfs[d], split)
    except Exception:  # pylint: disable=broad-except
      continue
    sid = repr(s)
    m = live.get(sid) if rng.random() < .5 else None
    m = m or gen.build(s)
    live[sid] = m
    log.append([s, d, split, str(key)])
    det = {'history': log, 'table0': gen.df_repr(dfs[0]),
           'table1': gen.df_repr(dfs[1])}
    got = run(lambda: m.compute_on(dfs[d], list(split), cache_key=key,
                                   cache=cache),
              'compute_on with an explicit cache', det)
    check(got, e, 'a result read through the shared cache differs', det, **KW)
    rec.add('cache_steps')
    rec.add('members_compared')
    # The caller may do what it likes with the result.
    if isinstance(got, pd.DataFrame) and len(got) and rng.random() < .3:
      got = got.copy()
  rec.signature('cache', log)
  rec.trivial = len(log) < 2


def f_arith(rng, rec):
  """Operands of one expression share work: a op b equals alone op alone."""
  kind, specs = pool(rng)
  specs = [s for s in specs if s['k'] not in ('list',)]
  if kind in ('ci',):
    specs = [gen.leaf(rng, 'rich', where_p=.3) for _ in range(3)]
  df = table(rng, specs=specs)
  split = gen.split(rng, p0=.3)
  pairs = usable(specs, df, split)
  if len(pairs) < 2:
    raise Skip('too few')
  (sa, ea), (sb, eb) = rng.sample(pairs, 2)
  if ea.names != eb.names or len(ea.cols) != 1 or len(eb.cols) != 1:
    raise Skip('different shapes')
  op = rng.choice(['+', '-', '*'])
  spec = {'k': 'bin', 'op': op, 'a': sa, 'b': sb}
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df)}
  got = cmpx.norm(run(lambda: gen.build(spec).compute_on(df, list(split)),
                      'computing the expression', det))
  da, db = ea.d, eb.d
  rows = []
  for k in list(da) + [k for k in db if k not in da]:
    x, y = da.get(k, [None])[0], db.get(k, [None])[0]
    v = None if x is None or y is None else {
        '+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[op]()
    rows.append((k, [None if v is not None and v != v else v]))
  check(got, Norm(ea.names, got.cols, rows),
        'operands computed together differ from operands computed alone', det,
        ignore_missing_rows=True, rtol=1e-7, atol=1e-7)
  rec.add('members_compared', 2)
  rec.add('arith')
  rec.signature('arith', spec, split)


FAMILIES = [('list', 4, f_list), ('under', 2, f_under), ('cache', 3, f_cache),
            ('arith', 2, f_arith)]
