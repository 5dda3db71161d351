"""C07: arithmetic on metrics equals arithmetic on their results."""
import copy

import numpy as np
import pandas as pd

from mon import cmpx, gen
from mon.cmpx import Norm, check, run
from mon.core import Skip, Violation

from meterstick import metrics as M

RULE = ('one random formula (metrics, lists, operations, numbers on either '
        'side, nested up to depth 3) on a random table; every operand is '
        'computed on its own and the formula is applied per slice in plain '
        'Python floats in the written order; labels compared with the written '
        'formula; distinct = (formula spec, grouping, number of slices)')
ASSUMPTIONS = ['an operand without a value in a slice gives a missing value '
               'there; a row with missing values only counts like an absent row',
               'integer-valued metrics are not raised to negative integer powers '
               '(numpy refuses loudly) nor to powers that leave 64 bits']
LIMITS = {'quick': (5000, 50), 'thorough': (150000, 600)}
MIN_EVENTS = {'values_checked': 15000, 'div_by_zero': 40, 'formulas': 4000,
              'labels_checked': 4000}

SYM = {'+': '{} + {}', '-': '{} - {}', '*': '{} * {}', '/': '{} / {}',
       '**': '{} ^ {}'}


def apply(op, a, b):
  a, b = [np.float64('nan') if v is None else np.float64(v) for v in (a, b)]
  with np.errstate(all='ignore'):
    r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
         '/': lambda: a / b, '**': lambda: a ** b}[op]()
  return None if np.isnan(r) else float(r)


class Val:
  """{key: [values]} with column labels; key = slice + own index levels."""

  def __init__(self, names, cols, d):
    self.names, self.cols, self.d = names, cols, d


def label(o, m):
  return str(o) if not isinstance(o, dict) else m.name


def is_multi(s):
  if s['k'] in ('bin', 'neg'):
    return any(isinstance(c, dict) and is_multi(c)
               for c in (s.get('a'), s.get('b')))
  if s['k'] == 'list':
    return len(s['ch']) > 1
  return s['k'] in ('Distribution', 'PercentChange', 'AbsoluteChange',
                    'CumulativeDistribution') and is_multi(s['child'])


def ev(s, df, split, rec):
  """Evaluates a formula from its operands' own results."""
  if s['k'] == 'Ratio':
    a = {'k': 'Sum', 'var': s['var']}
    b = {'k': 'Sum', 'var': s['var2']}
    v = ev({'k': 'bin', 'op': '/', 'a': a, 'b': b, 'where': s.get('where')}, df,
           split, rec)
    return v
  if s['k'] not in ('bin', 'neg'):
    n = cmpx.norm(gen.build(s).compute_on(df, list(split)))
    rec.add('operands')
    return Val(n.names, list(n.cols), dict(n.rows))
  if s.get('where'):
    df = df.iloc[gen.fmask(s['where'], df)]
  if s['k'] == 'neg':
    v = ev(s['a'], df, split, rec)
    d = {k: [None if x is None else -x for x in vs] for k, vs in v.d.items()}
    return Val(v.names, ['-%s' % c for c in v.cols], d)
  a, b, op = s['a'], s['b'], s['op']
  va = ev(a, df, split, rec) if isinstance(a, dict) else None
  vb = ev(b, df, split, rec) if isinstance(b, dict) else None
  tmpl = SYM[op]
  if op == '**' and isinstance(b, float) and b == .5:
    tmpl = 'sqrt({})'
  ns = len(split)
  if va is None or vb is None:
    v = va or vb
    la = str(a) if va is None else None
    lb = str(b) if vb is None else None
    d = {k: [apply(op, a if va is None else x, b if vb is None else x)
             for x in vs] for k, vs in v.d.items()}
    cols = [tmpl.format(la or c, lb or c) for c in v.cols]
    return Val(v.names, cols, d)
  long_ = va if len(va.names) >= len(vb.names) else vb
  keys = set()
  for v in (va, vb):
    if v.names == long_.names:
      keys |= set(v.d)
  n = max(len(va.cols), len(vb.cols))
  d = {}
  for k in keys:
    def get(v):
      kk = k if v.names == long_.names else k[:len(v.names)]
      vs = v.d.get(kk, [None] * len(v.cols))
      return vs * n if len(vs) == 1 else vs
    d[k] = [apply(op, x, y) for x, y in zip(get(va), get(vb))]
    if op == '/':
      rec.add('div_by_zero', sum(1 for y in get(vb) if y == 0))
  na, nb = gen.build(a).name, gen.build(b).name
  ca, cb = va.cols, vb.cols
  if len(ca) == 1 and len(cb) == 1:
    cols = [tmpl.format(na, nb)]
  else:
    ca = ca if len(ca) > 1 else [na] * n
    cb = cb if len(cb) > 1 else [nb] * n
    cols = [tmpl.format(x, y) for x, y in zip(ca, cb)]
  return Val(long_.names, cols, d)


def power(rng, a):
  if rng.random() < .3:
    return {'k': 'bin', 'op': '**', 'a': rng.choice([2, 1.5, .5, 3]),
            'b': {'k': 'Mean', 'var': rng.choice('xw')}}
  if rng.random() < .3:
    return {'k': 'bin', 'op': '**', 'a': a, 'b': {
        'k': 'Mean', 'var': rng.choice('xw')}}
  return {'k': 'bin', 'op': '**', 'a': a, 'b': rng.choice([2, 3, .5, 1.5, 0,
                                                          1])}


def num(rng):
  return rng.choice([2, 3, .5, -1, 100, 1.5, 0, 1, -2.25])


def leaf_(rng, where_p):
  s = gen.leaf(rng, rng.choice(['robust', 'robust', 'rich']), where_p=where_p)
  if s['k'] in ('DotN',) and False:
    return None
  return s


def formula(rng, depth, where_p):
  if depth <= 0 or rng.random() < .15:
    if rng.random() < .15:
      a, b = rng.sample(['x', 'y', 'w', 'p'], 2)
      return {'k': 'Ratio', 'var': a, 'var2': b,
              'where': gen.wheres(rng, where_p)}
    return leaf_(rng, where_p)
  r = rng.random()
  if r < .1:
    return {'k': 'neg', 'a': formula(rng, depth - 1, where_p)}
  if r < .25:
    return power(rng, leaf_(rng, where_p))
  op = rng.choice(['+', '-', '*', '/', '/', '-'])
  w = gen.wheres(rng, where_p * .5)
  if r < .5:
    a, b = formula(rng, depth - 1, where_p), num(rng)
    if rng.random() < .5:
      a, b = b, a
    return {'k': 'bin', 'op': op, 'a': a, 'b': b, 'where': w}
  return {'k': 'bin', 'op': op, 'a': formula(rng, depth - 1, where_p),
          'b': formula(rng, depth - 1, where_p), 'where': w}


def int_table(rng, df):
  """Small integers: zero denominators and cancellations do occur."""
  df = df.copy()
  for c in ('x', 'y', 'z', 'p', 'q'):
    df[c] = [float(rng.choice([-2, -1, 0, 0, 1, 2])) for _ in range(len(df))]
    if rng.random() < .4:
      df[c] = df[c].astype(int)
  return df


def judge(spec, m, df, split, det, rec, labels=True, rtol=1e-9):
  e = run(lambda: ev(spec, df, split, rec), 'an operand', det)
  got = run(lambda: m.compute_on(df, list(split)), 'the formula', det)
  exp = Norm(e.names, e.cols, sorted(e.d.items(), key=repr))
  check(got, exp, 'formula vs arithmetic on operand results', det,
        cols=labels, rtol=rtol, atol=1e-9, ignore_missing_rows=True, inf_sign=False)
  rec.add('values_checked', sum(len(v) for v in e.d.values()))
  rec.add('formulas')
  if labels:
    rec.add('labels_checked')
  return e


def f_scalar(rng, rec):
  df = gen.table(rng, nan=rng.choice([0, 0, .15]), rich=rng.random() < .4)
  if rng.random() < .5:
    df = int_table(rng, df)
  spec = formula(rng, rng.choice([1, 2, 2, 3]), rng.choice([0, 0, .2]))
  if spec['k'] not in ('bin', 'neg', 'Ratio'):
    spec = {'k': 'bin', 'op': '-', 'a': spec, 'b': num(rng)}
  split = gen.split(rng)
  det = {'spec': spec, 'split_by': split, 'table': gen.df_repr(df)}
  m = gen.build(spec)
  if rng.random() < .1 and spec['k'] == 'bin':
    m.set_name('my name')
    e = ev(spec, df, split, rec)
    got = run(lambda: m.compute_on(df, list(split)), 'the formula', det)
    check(got, Norm(e.names, ['my name'], list(e.d.items())), 'renamed formula',
          det, ignore_missing_rows=True, inf_sign=False)
    rec.add('renamed')
  elif rng.random() < .1 and spec['k'] == 'bin':
    m.rename_columns(['col A'])
    e = ev(spec, df, split, rec)
    got = run(lambda: m.compute_on(df, list(split)), 'the formula', det)
    if not isinstance(got, pd.DataFrame) or split:
      check(got, Norm(e.names, ['col A'], list(e.d.items())),
            'formula with renamed column', det, ignore_missing_rows=True, inf_sign=False)
    rec.add('renamed')
  # The label of a plain formula is the written formula.
  judge(spec, gen.build(spec), df, split, det, rec,
        labels=spec['k'] != 'Ratio')
  # Operands are unaffected by having been used in a formula.
  if spec['k'] == 'bin' and isinstance(spec['a'], dict) and rng.random() < .3:
    a = gen.build(spec['a'])
    name, where = a.name, a.where
    before = cmpx.norm(a.compute_on(df, list(split)))
    comb = a * 2 + a / gen.build(gen.safe_denom(rng))
    comb.compute_on(df, list(split))
    check(a.compute_on(df, list(split)), before, 'operand changed by use', det)
    if (a.name, a.where) != (name, where):
      raise Violation('operand name or filter changed', det)
    rec.add('operands_rechecked')
  rec.signature(spec, split, len(gen.cells(df, split)))
  rec.sample = {'spec': spec, 'split_by': split}


def f_lists(rng, rec):
  """Several columns on one or both sides."""
  df = gen.table(rng, nan=rng.choice([0, .1]), rich=rng.random() < .5)
  if rng.random() < .3:
    df = int_table(rng, df)
  n = rng.choice([2, 2, 3])
  wp = rng.choice([0, 0, .25])
  mk = lambda: {'k': 'list', 'ch': [formula(rng, 1, wp) for _ in range(n)]}

  def other():
    # A second list: new members, the same ones in another order, or some.
    b = mk()
    r = rng.random()
    if r < .3:
      b['ch'] = copy.deepcopy(a['ch'])
      rng.shuffle(b['ch'])
    elif r < .5:
      b['ch'][rng.randrange(n)] = copy.deepcopy(rng.choice(a['ch']))
    return b
  a = mk()
  if len(set(gen.build(c).name for c in a['ch'])) < n:
    raise Skip('same label twice')
  form = rng.choice(['num', 'numleft', 'metric', 'metricleft', 'list', 'neg',
                     'nested', 'pow'])
  op = rng.choice('+-*/')
  s = {'num': lambda: {'k': 'bin', 'op': op, 'a': a, 'b': num(rng)},
       'numleft': lambda: {'k': 'bin', 'op': op, 'a': num(rng), 'b': a},
       'metric': lambda: {'k': 'bin', 'op': op, 'a': a, 'b': formula(rng, 1, wp)},
       'metricleft': lambda: {'k': 'bin', 'op': op, 'a': formula(rng, 1, wp),
                              'b': a},
       'list': lambda: {'k': 'bin', 'op': op, 'a': a, 'b': other()},
       'neg': lambda: {'k': 'neg', 'a': a},
       'nested': lambda: {'k': 'bin', 'op': '-', 'b': num(rng), 'a': {
           'k': 'bin', 'op': op, 'a': a, 'b': formula(rng, 0, 0)}},
       'pow': lambda: {'k': 'bin', 'op': '**', 'a': a, 'b': 2}}[form]()
  split = gen.split(rng)
  det = {'spec': s, 'split_by': split, 'table': gen.df_repr(df)}
  judge(s, gen.build(s), df, split, det, rec)
  rec.add('list_' + form)
  rec.signature(s, split)
  rec.sample = {'spec': s, 'split_by': split}


def f_ops(rng, rec):
  """Operations as operands (extra index levels)."""
  df = gen.table(rng, dense=True, rich=True, group_vals=2)
  kind = rng.choice(['Distribution', 'PercentChange', 'AbsoluteChange',
                     'CumulativeDistribution'])
  lists = rng.random() < .3
  o = lambda: gen.operation(rng, kind, 0, over=['s'], lists=lists)
  a = o()
  a.pop('where', None)
  if a.get('cond') not in (None, 'cond'):
    raise Skip('multi-column condition')
  form = rng.choice(['num', 'numleft', 'op', 'metric', 'metricleft', 'neg'])
  op = rng.choice('+-*')
  if form in ('num', 'numleft'):
    s = {'k': 'bin', 'op': rng.choice('+-*/') if form == 'num' else op, 'a': a,
         'b': rng.choice([2, 100, .5])}
    if form == 'numleft':
      s['a'], s['b'] = s['b'], s['a']
  elif form == 'op':
    b = o()
    if b.get('cond') not in (None, 'cond'):
      raise Skip('multi-column condition')
    b['include_base'] = a.get('include_base')
    na = len(a['child'].get('ch', [0]))
    nb = len(b['child'].get('ch', [0]))
    if na != nb:
      raise Skip('different widths')
    s = {'k': 'bin', 'op': op, 'a': a, 'b': b}
  elif form == 'neg':
    s = {'k': 'neg', 'a': a}
  else:
    s = {'k': 'bin', 'op': op, 'a': a, 'b': gen.pos_scalar(
        rng, rng.choice([0, .3]))}
    if form == 'metricleft':
      s['a'], s['b'] = s['b'], s['a']
  split = gen.split(rng, maxn=2)
  det = {'spec': s, 'split_by': split, 'table': gen.df_repr(df)}
  try:
    for q in (s['a'], s.get('b')):
      if isinstance(q, dict):
        gen.build(q).compute_on(df, list(split))
  except KeyError:
    raise Skip('no baseline')
  judge(s, gen.build(s), df, split, det, rec)
  rec.add('ops_' + form)
  rec.signature(s, split)
  rec.sample = {'spec': s, 'split_by': split}


FAMILIES = [('scalar', 6, f_scalar), ('lists', 2, f_lists), ('ops', 2, f_ops)]
