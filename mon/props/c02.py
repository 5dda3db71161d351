"""C02: grouped results equal the result on each slice alone."""
import pandas as pd

from mon import cmpx, gen
from mon.cmpx import Norm, check, run
from mon.core import Skip, Violation

RULE = ('one random metric tree computed with grouping columns on a table '
        '(some label columns turned into categoricals with unused values or '
        'relabelled to another kind), compared with one ungrouped computation '
        'per occurring combination on a plain copy of its rows; distinct = '
        '(spec, grouping columns, number of slices); trivial = one slice only')
ASSUMPTIONS = [
    'filters appear only at the top of the tree here: an inner filter that '
    'empties a slice makes that slice absent when grouped but zero or missing '
    'when ungrouped (documented pandas behaviour)',
    'for comparisons with a baseline, slices without the baseline are only '
    'required to exist (C10 decides their values)']
LIMITS = {'quick': (3000, 50), 'thorough': (60000, 600)}
MIN_EVENTS = {'slices_compared': 1500, 'catified_tables': 100}


def spec_any(rng):
  r = rng.random()
  if r < .3:
    return gen.measure(rng, 'robust', 0)
  if r < .4:
    return gen.measure(rng, 'rich', 0)
  if r < .8:
    return gen.operation(rng)
  if r < .9:
    a = gen.operation(rng, 'Distribution', lists=False)
    b = gen.operation(rng, 'Distribution', lists=False, over=a['over'])
    if rng.random() < .5:
      return {'k': 'list', 'ch': [a, b]} if gen.build(a).name != gen.build(
          b).name else a
    return {'k': 'bin', 'op': rng.choice('+-*'), 'a': a,
            'b': rng.choice([b, 2, 100])}
  # Operations on operations.
  inner = gen.operation(rng, rng.choice(['Distribution', 'HHI', 'Entropy']),
                        over=['s'], lists=False)
  return {'k': rng.choice(['PercentChange', 'AbsoluteChange']), 'cond': 'cond',
          'base': 'ctl', 'child': inner, 'include_base': rng.random() < .3}


def alone(spec, df):
  return gen.build(spec).compute_on(df)


def expect(spec, df, split, rec):
  """{cell: Norm or None when the slice has no baseline}."""
  out = {}
  for key, pos in gen.cells(df, split).items():
    sub = df.iloc[pos].reset_index(drop=True)
    try:
      out[key] = cmpx.norm(alone(spec, sub))
    except KeyError:
      out[key] = None  # baseline missing in this slice
  return out


def compare(spec, split, got, exp, det, rec, keymap=None, **kw):
  got = cmpx.norm(got)
  ns = len(split)
  blocks = {}
  for k, vs in got.rows:
    blocks.setdefault(k[:ns], []).append((k[ns:], vs))
  norm_key = lambda k: tuple(map(cmpx.keyval, keymap(k) if keymap else k))
  want = {norm_key(k): v for k, v in exp.items()}
  missing = [k for k in want if k not in blocks and want[k] is not None and
             want[k].rows]
  extra = [k for k in blocks if k not in want]
  if extra or missing:
    raise Violation('grouped result has slices %r that do not occur / lacks %r'
                    % (extra[:4], missing[:4]), dict(det, got=got.dump()))
  for k, e in want.items():
    if e is None or k not in blocks:
      rec.add('slices_without_baseline')
      continue
    g = Norm(e.names, got.cols, blocks[k])
    check(g, e, 'slice %r differs from the slice computed alone' % (k,), det,
          names=False, rtol=1e-6, atol=1e-6, **kw)
    rec.add('slices_compared')
  if list(got.names[:ns]) != list(split):
    raise Violation('index names %r do not start with %r' % (got.names, split),
                    det)


def f_tree(rng, rec):
  rich = rng.random() < .5
  df = gen.table(rng, rich=rich, n=rng.choice([20, 40, 60]), dense=True,
                 nan=rng.choice([0, 0, .1]))
  spec = spec_any(rng)
  if gen.kinds_in(spec) & {'Cov', 'WMean', 'WVariance', 'WSD', 'WCov', 'FCov',
                           'WCorr', 'Correlation', 'CV', 'Quantile'}:
    df = gen.table(rng, rich=True, n=60, group_vals=2)
  cands = ['g', 'h', 'c', 'b', 'd']
  split = rng.sample(cands, rng.choice([1, 1, 2, 3]))
  where = None
  if rng.random() < .3:
    where = gen.filt(rng)
  plain = df if where is None else df.iloc[gen.fmask([where], df)]
  if not len(plain):
    raise Skip('empty after filter')
  exp = expect(spec, plain, split, rec)
  full = dict(spec)
  if where is not None:
    full['where'] = [where] + (spec.get('where') or [])
  df2 = gen.catify(rng, df, [
      c for c in ('g', 'cond', 's', 's2', 'u', 'h', 'd')
      if c not in gen.filter_cols(full)]) if rng.random() < .6 else df
  if df2 is not df:
    rec.add('catified_tables')
  det = {'spec': full, 'split_by': split, 'table': gen.df_repr(df2),
         'dtypes': str(dict(df2.dtypes.astype(str)))}
  m = gen.build(full)
  if all(v is None for v in exp.values()):
    raise Skip('no baseline anywhere')
  got = run(lambda: m.compute_on(df2, list(split)), 'grouped compute_on', det)
  compare(spec, split, got, exp, det, rec)
  rec.trivial = len(exp) < 2
  rec.add('tree_' + spec['k'])
  rec.signature(full, split, len(exp))
  rec.sample = {'spec': full, 'split_by': split, 'slices': len(exp)}


def f_ci(rng, rec):
  """Jackknife: the slice alone gives the same estimate and error."""
  df = gen.table(rng, n=rng.choice([20, 40]), dense=True, rich=True,
                 n_units=rng.choice([3, 4, 5]), group_vals=2)
  child = gen.pos_measure(rng) if rng.random() < .6 else gen.operation(
      rng, rng.choice(['Distribution', 'PercentChange']), over=['s2'],
      lists=False)
  spec = {'k': 'Jackknife', 'unit': 'u', 'child': child,
          'conf': rng.choice([None, None, .9]), 'opt': rng.random() < .7}
  if spec['conf'] and gen.kinds_in(child) & {'list'}:
    spec['conf'] = None
  split = [rng.choice(['g', 'b', 'c'])]
  cells = gen.cells(df, split)
  exp = {}
  for key, pos in cells.items():
    sub = df.iloc[pos].reset_index(drop=True)
    if not gen.baseline_ok(sub, [range(len(sub))]) or sub['u'].nunique() < 2:
      exp[key] = None
    else:
      try:
        exp[key] = cmpx.norm(alone(spec, sub))
      except (KeyError, ValueError):
        exp[key] = None  # e.g. no baseline once a unit is removed
  if all(v is None for v in exp.values()):
    raise Skip('no usable slice')
  df2 = gen.catify(rng, df, cols=('g', 'cond', 's2', 'u'))
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df2),
         'dtypes': str(dict(df2.dtypes.astype(str)))}
  got = run(lambda: gen.build(spec).compute_on(df2, list(split)),
            'grouped compute_on', det)
  compare(spec, split, got, exp, det, rec)
  rec.add('tree_Jackknife')
  rec.trivial = len(exp) < 2
  rec.signature(spec, split, len(exp))


def f_relabel(rng, rec):
  """The kind of grouping values is irrelevant."""
  df = gen.table(rng, n=rng.choice([20, 40]), dense=True, rich=True)
  spec = spec_any(rng)
  col = 'g'
  vals = sorted(set(df[col]))
  kind = rng.choice(['int', 'float', 'date', 'cat', 'bool', 'numstr', 'pydate',
                     'emptystr'])
  if kind == 'bool' and len(vals) > 2:
    kind = 'int'
  new = {'int': [-5, 0, 7, 11, 12], 'float': [-.5, 0., 1.25, 3., 9.],
         'date': [pd.Timestamp(2000 + i, 1, 1) for i in range(5)],
         'cat': ['a', 'b', 'c', 'd', 'e'], 'bool': [False, True],
         'numstr': ['0', '1', '10', '2', '3'],
         'pydate': [pd.Timestamp(2000 + i, 1, 1).date() for i in range(5)],
         'emptystr': ['', ' ', 'a', 'b', 'c']}[kind]
  mp = dict(zip(vals, new))
  df2 = df.copy()
  df2[col] = [mp[v] for v in df[col]]
  if kind == 'cat':
    df2[col] = pd.Categorical(df2[col], categories=['e', 'q', 'd', 'c', 'b', 'a'])
  split = rng.choice([['g'], ['g', 'h'], ['b', 'g']])
  i = split.index('g')
  det = {'spec': spec, 'split_by': split, 'kind': kind,
         'table': gen.df_repr(df2)}
  try:
    a = gen.build(spec).compute_on(df, list(split))
  except KeyError:
    raise Skip('no baseline')
  b = run(lambda: gen.build(spec).compute_on(df2, list(split)),
          'compute_on after relabelling', det)
  a, b = cmpx.norm(a), cmpx.norm(b)
  rows = [(k[:i] + (cmpx.keyval(mp[k[i]]),) + k[i + 1:], v) for k, v in a.rows]
  check(Norm(a.names, a.cols, rows), b,
        'relabelling the grouping values changed the result', det,
        rtol=1e-6, atol=1e-6)
  rec.add('relabelled_' + kind)
  rec.add('slices_compared', len(gen.cells(df, split)))
  rec.signature(spec, split, kind)


FAMILIES = [('tree', 6, f_tree), ('ci', 2, f_ci), ('relabel', 2, f_relabel)]
