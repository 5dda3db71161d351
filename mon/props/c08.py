"""C08: long/wide forms, lists and containers carry the same data."""
import copy

import numpy as np
import pandas as pd

from mon import cmpx, gen
from mon.cmpx import Norm, check, run
from mon.core import Skip, Violation

from meterstick import metrics as M
from meterstick import operations as O
from meterstick import utils as U

RULE = ('one random metric/list/operation/uncertainty estimate computed in the '
        'wide and the long form (and as number or series), compared cell by '
        'cell including the order of metrics and rows, and converted in both '
        'directions; lists compared with their members; distinct = (spec, '
        'grouping)')
ASSUMPTIONS = ['metrics of one list have different labels']
LIMITS = {'quick': (4000, 50), 'thorough': (100000, 600)}
MIN_EVENTS = {'cells_compared': 15000, 'round_trips': 1000,
              'lists_checked': 500, 'containers_checked': 400}
NAMES = ['Value', 'Metric', 'my name', 'a{b}', '0', 'é', 'x', 'g', 'A B', '']


def wide_cells(w):
  """[(metric, [sub columns], [(key, values)])] in order."""
  n = cmpx.norm(w)
  multi = isinstance(w.columns, pd.MultiIndex)
  order, pos = [], {}
  for i, c in enumerate(w.columns):
    m = c[0] if multi else c
    if m not in pos:
      order.append(m)
      pos[m] = []
    pos[m].append(i)
  out = []
  for m in order:
    subs = [w.columns[i][1] for i in pos[m]] if multi else ['Value']
    out.append((m, subs, [(k, [vs[i] for i in pos[m]]) for k, vs in n.rows]))
  return n.names, out


def long_cells(l, what, det):
  names = list(l.index.names)
  if names[0] != 'Metric':
    raise Violation('%s: the first index level of the long form is %r' %
                    (what, names[0]), det)
  out = []
  for k, vs in zip(l.index, l.itertuples(index=False, name=None)):
    k = k if isinstance(k, tuple) else (k,)
    if not out or out[-1][0] != k[0]:
      out.append((k[0], list(l.columns), []))
    out[-1][2].append((tuple(map(cmpx.keyval, k[1:])), [cmpx.val(v) for v in vs]))
  return names[1:], out


def same(w, l, what, det, rec):
  nw, cw = wide_cells(w)
  nl, cl = long_cells(l, what, det)
  if nw != nl:
    raise Violation('%s: index names %r (wide) vs %r (long)' % (what, nw, nl),
                    det)
  if [c[0] for c in cw] != [c[0] for c in cl]:
    raise Violation('%s: metrics or their order differ: wide %r, long %r' % (
        what, [c[0] for c in cw], [c[0] for c in cl]), det)
  for (m, sw, rw), (_, sl, rl) in zip(cw, cl):
    if sw != sl:
      raise Violation('%s: columns of %r: wide %r, long %r' % (what, m, sw, sl),
                      det)
    if [k for k, _ in rw] != [k for k, _ in rl]:
      raise Violation('%s: slices of %r or their order differ: wide %r, long '
                      '%r' % (what, m, [k for k, _ in rw], [k for k, _ in rl]),
                      det)
    for (k, a), (_, b) in zip(rw, rl):
      for x, y in zip(a, b):
        if not cmpx.close(x, y, 0, 0):
          raise Violation('%s: metric %r slice %r: wide %r, long %r' % (
              what, m, k, x, y), det)
      rec.add('cells_compared', len(a))


def frames_equal(a, b, what, det):
  ca, cb = cmpx.norm(a), cmpx.norm(b)
  check(ca, cb, what, det, order=True, rtol=0, atol=0)
  if isinstance(a.columns, pd.MultiIndex) != isinstance(b.columns,
                                                        pd.MultiIndex):
    raise Violation(what + ': column levels differ', det)
  if list(a.columns.names) != list(b.columns.names):
    raise Violation('%s: names of column levels differ %r %r' % (
        what, a.columns.names, b.columns.names), det)


def any_spec(rng):
  r = rng.random()
  if r < .15:
    s = gen.scalar(rng, 1, rng.choice(['robust', 'rich']), .15)
    if s['k'] in ('Sum', 'Mean', 'bin', 'Max', 'Count') and rng.random() < .4:
      s['name'] = rng.choice(NAMES[:-1])
    return s
  if r < .35:
    return gen.multi(rng, 1, pool='rich', where_p=.15)
  if r < .65:
    return gen.operation(rng, rng.choice(gen.OPS_BASIC + gen.OPS_ADJ), .1)
  child = gen.pos_measure(rng, .1) if rng.random() < .5 else gen.operation(
      rng, rng.choice(gen.OPS_BASIC), 0)
  if child['k'] == 'list' and rng.random() < .3:
    child['rename'] = ['r%d' % i for i in range(len(child['ch']))]
  k = rng.choice(['Jackknife', 'Jackknife', 'Bootstrap', 'PoissonBootstrap'])
  conf = rng.choice([None, .9])
  return {'k': k, 'unit': 'u' if k == 'Jackknife' else rng.choice(['u', None]),
          'n': 4, 'child': child, 'conf': conf, 'opt': rng.random() < .7}


def f_forms(rng, rec):
  df = gen.table(rng, n=rng.choice([12, 24, 40]), dense=True, rich=True,
                 group_vals=3, n_units=rng.choice([3, 5]),
                 nan=rng.choice([0, .1]))
  if rng.random() < .4:
    df = gen.catify(rng, df, cols=('g', 'cond', 's', 's2', 'h'))
  spec = any_spec(rng)
  split = gen.split(rng)
  if gen.kinds_in(spec) & {'Jackknife', 'Bootstrap', 'PoissonBootstrap'}:
    split = split[:1]
  if gen.filter_cols(spec) & {'g', 'cond', 's', 's2', 'h'}:
    df = df.copy()
    for c in ('g', 'cond', 's', 's2', 'h'):
      df[c] = df[c].astype(object if df[c].map(type).eq(str).all() else int)
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df)}
  seed = rng.randrange(10**6)

  def comp(melted):
    np.random.seed(seed)
    return gen.build(spec).compute_on(df, list(split), melted=melted)

  try:
    w = comp(False)
  except Exception:  # pylint: disable=broad-except
    raise Skip('not computable on this table')
  l = run(lambda: comp(True), 'the long form', det)
  if not isinstance(w, pd.DataFrame) or not isinstance(l, pd.DataFrame):
    raise Violation('a table was expected, got %s and %s' % (type(w), type(l)),
                    det)
  if not len(w):
    raise Skip('empty result')
  det.update(wide=str(w), long=str(l))
  same(w, l, 'wide vs long', det, rec)
  w2, l2 = w.copy(), l.copy()
  m = run(lambda: U.melt(w2), 'melt', det)
  frames_equal(m, l, 'melt(wide) vs long', det)
  u = run(lambda: U.unmelt(l2), 'unmelt', det)
  same(u, l, 'unmelt(long) vs long', det, rec)
  c1 = [tuple(c) if isinstance(c, tuple) else c for c in u.columns]
  c2 = [tuple(c) if isinstance(c, tuple) else c for c in w.columns]
  if c1 != c2 or cmpx.norm(u).keys() != cmpx.norm(w).keys():
    raise Violation('unmelt(long) is not the wide form: %r vs %r' % (c1, c2),
                    det)
  check(U.unmelt(U.melt(w2)), w, 'wide -> long -> wide', det, order=True,
        rtol=0, atol=0)
  frames_equal(U.melt(U.unmelt(l2)), l, 'long -> wide -> long', det)
  frames_equal(w2, w, 'melt changed its argument', det)
  frames_equal(l2, l, 'unmelt changed its argument', det)
  rec.add('round_trips')
  rec.add('forms_' + spec['k'])
  rec.signature(spec, split)
  rec.sample = {'spec': spec, 'split_by': split, 'rows': len(l)}


def f_list(rng, rec):
  """A list is its members' columns in order."""
  df = gen.table(rng, dense=True, rich=rng.random() < .5, group_vals=3,
                 nan=rng.choice([0, .1]))
  op = rng.random() < .4
  if op:
    kind = rng.choice(['Distribution', 'PercentChange', 'AbsoluteChange'])
    mk = lambda: gen.operation(rng, kind, .1, over=['s'])
  else:
    mk = lambda: (gen.scalar(rng, 1, 'rich', .2) if rng.random() < .8 else
                  gen.multi(rng, 1, pool='rich', where_p=.1))
  ch = [mk() for _ in range(rng.choice([1, 2, 3, 4]))]
  if rng.random() < .15:
    # The same metric with another filter has the same label.
    ch.append(dict(copy.deepcopy(rng.choice(ch)), where=gen.wheres(rng, 1)))
  if op:
    for c in ch:
      c['include_base'] = ch[0].get('include_base')
      if c.get('cond') not in (None, 'cond'):
        raise Skip('multi-column condition')
  for c in ch:
    if c['k'] in ('Sum', 'Mean', 'bin', 'Max') and rng.random() < .3:
      c['name'] = rng.choice(NAMES[:-1])
  split = gen.split(rng)
  spec = {'k': 'list', 'ch': ch}
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df)}
  try:
    alone = [cmpx.norm(gen.build(c).compute_on(df, list(split))) for c in ch]
  except KeyError:
    raise Skip('no baseline')
  cols = [c for a in alone for c in a.cols]
  dup = len(set(cols)) < len(cols)
  keys = []
  for a in alone:
    keys += [k for k in a.keys() if k not in keys]
  d = {k: [v for a in alone for v in a.d.get(k, [None] * len(a.cols))]
       for k in keys}
  want = list(cols)
  form = rng.choice(['plain', 'plain', 'tmpl', 'rename', 'rename_method',
                     'pickle', 'nested'])
  if dup:
    # The long form needs distinct labels.
    form = 'rename' if form in ('plain', 'tmpl') else 'rename_method'
    rec.add('same_label_renamed')
  if form == 'tmpl':
    spec['tmpl'] = rng.choice(['my {}', '{} (pp)'])
    m = gen.build(spec)
  elif form == 'rename':
    spec['rename'] = ['col %d' % i for i in range(len(cols))]
    want = list(spec['rename'])
    m = gen.build(spec)
  elif form == 'rename_method':
    m = gen.build(spec)
    want = ['n%d' % i for i in range(len(cols))][::-1]
    m.rename_columns(list(want))
  elif form == 'nested':
    k = rng.randint(0, len(ch))
    m = M.MetricList([M.MetricList([gen.build(c) for c in part])
                      for part in (ch[:k], ch[k:]) if part])
  elif form == 'pickle':
    m = copy.deepcopy(gen.build(spec))
  else:
    m = gen.build(spec)
  got = run(lambda: m.compute_on(df, list(split)), 'the list', det)
  if form == 'tmpl':
    want = [spec['tmpl'].format(c) for c in cols]
  exp = Norm(alone[0].names, want, [(k, d[k]) for k in keys])
  check(got, exp, 'list vs its members', det, rtol=1e-12, atol=1e-12)
  if not len(got):
    raise Skip('no rows, nothing to put into the long form')
  long_ = run(lambda: m.compute_on(df, list(split), melted=True),
              'the long list', det)
  same(got, long_, 'list wide vs long', det, rec)
  if form not in ('nested', 'tmpl', 'rename', 'rename_method'):
    parts = run(lambda: m.compute_on(df, list(split), return_dataframe=False),
                'the list without table', det)
    if not isinstance(parts, list) or len(parts) != len(ch):
      raise Violation('a list of %d results was expected, got %r' % (
          len(ch), parts), det)
    for p, a in zip(parts, alone):
      check(p, a, 'member result of the list', det, rtol=1e-12, atol=1e-12)
    rec.add('containers_checked')
  rec.add('lists_checked')
  rec.add('list_' + form)
  rec.signature(spec, split, form)
  rec.sample = {'spec': spec, 'split_by': split, 'form': form}


def f_container(rng, rec):
  """A number or a series instead of a table."""
  df = gen.table(rng, nan=rng.choice([0, .1]), rich=rng.random() < .5)
  if rng.random() < .3:
    df = gen.catify(rng, df, cols=('d',))
  r = rng.random()
  if r < .7:
    spec = gen.scalar(rng, rng.choice([0, 1]), 'rich', .2)
  else:
    spec = gen.operation(rng, None, 0)
  split = gen.split(rng)
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df)}
  try:
    t = gen.build(spec).compute_on(df, list(split))
  except KeyError:
    raise Skip('no baseline')
  m = gen.build(spec)
  how = rng.choice(['method', 'pipe', 'str'])
  arg = list(split)
  if how == 'str' and len(split) == 1:
    arg = split[0]
  if how == 'pipe':
    got = run(lambda: m | M.compute_on(df, arg, return_dataframe=False),
              'the bare result', det)
  else:
    got = run(lambda: m.compute_on(df, arg, return_dataframe=False),
              'the bare result', det)
  n = cmpx.norm(t)
  if spec['k'] in gen.OPS_BASIC:
    check(got, t, 'bare operation vs table', det, order=True, rtol=0, atol=0)
  elif split:
    if not isinstance(got, pd.Series):
      raise Violation('a series was expected, got %r' % type(got), det)
    check(got, t, 'series vs table', det, order=True, rtol=0, atol=0)
    if got.name != n.cols[0]:
      raise Violation('the series is named %r, the column %r' % (
          got.name, n.cols[0]), det)
  else:
    if isinstance(got, (pd.Series, pd.DataFrame)):
      raise Violation('a number was expected, got %r' % type(got), det)
    if not cmpx.close(cmpx.val(got), n.rows[0][1][0], 0, 0):
      raise Violation('number %r, table %r' % (got, n.rows), det)
  rec.add('containers_checked')
  rec.signature(spec, split, how)
  rec.sample = {'spec': spec, 'split_by': split}


FAMILIES = [('forms', 5, f_forms), ('list', 3, f_list),
            ('container', 2, f_container)]
