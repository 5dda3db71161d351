"""C18: equal metrics compute the same thing; copies and histories."""
import contextlib
import copy
import io
import warnings

import numpy as np

from mon import cmpx, gen
from mon.cmpx import run
from mon.core import Skip, Violation

from meterstick import metrics as M
from meterstick import operations as O
from meterstick import models as MD

RULE = ('one random metric tree and a neighbour that differs in one setting of '
        'one node, with the displayed names made equal in half of the cases; '
        'compared with ==, hash and set membership and computed on three tables; '
        'copies, rebuilt metrics and metrics with a history are compared too; '
        'distinct = pair of specs; trivial = the neighbour is the same spec')
ASSUMPTIONS = [
    'user-defined metrics are identified by class, name and declared attributes',
    'random replicates are made comparable by numpy.random.seed']
LIMITS = {'quick': (2500, 50), 'thorough': (60000, 700)}
MIN_EVENTS = {'pairs': 1200, 'different_results': 1000, 'equal_pairs': 45,
              'same_names': 550, 'copies': 2400, 'histories': 1200,
              'set_where': 55, 'set_kind': 40, 'set_var': 150, 'set_ch': 25,
              'set_name': 80, 'set_rename': 10, 'set_tmpl': 15, 'set_base': 15,
              'set_over': 30, 'set_kw': 20, 'set_op': 30, 'set_quantile': 4,
              'set_conf': 10, 'set_n': 15, 'set_ddof': 2, 'set_unbiased': 15}


class Own(M.Metric):
  """A user-defined metric with declared settings."""

  def __init__(self, coef, power=1, name='own', shared=True, where=None):
    super().__init__(name, where=where,
                     additional_fingerprint_attrs=['coef', 'power'])
    self.coef = coef
    self.power = power
    self.cache_across_instances = shared

  def compute(self, df):
    return ((df['x'] ** self.power) * self.coef).sum()


def build(s):
  if isinstance(s, dict) and s['k'] == 'Own':
    return Own(s['coef'], s['power'], s.get('name') or 'own', s['shared'],
               gen.where_arg(s.get('where')))
  m = gen.build(s)
  if s.get('topname'):
    m.name = s['topname']
  return m


COLS = ['x', 'y', 'z', 'w', 'p']
SWAPS = [('Sum', 'Count', 'Mean', 'Max', 'Min', 'CountD', 'WMean'),
         ('Dot', 'DotN', 'Cov', 'Correlation', 'WCov', 'FCov', 'WCorr'),
         ('Variance', 'StandardDeviation', 'CV', 'WVariance', 'WSD'),
         ('Quantile', 'WQuantile'),
         ('PercentChange', 'AbsoluteChange'), ('PrePost', 'CUPED'),
         ('Distribution', 'CumulativeDistribution', 'HHI', 'Entropy'),
         ('Bootstrap', 'PoissonBootstrap')]
DEFAULTS = {
    'unbiased': [True, False], 'bias': [True, False], 'ddof': [None, 0, 1, 2],
    'weight': ['w', 'p', 'f'], 'fweight': ['f', 's'],
    'method': ['pearson', 'spearman', 'kendall'],
    'quantile': [0, .25, .5, .9, 1], 'interpolation': ['linear', 'lower',
                                                        'higher', 'nearest'],
    'n': [2, 3, 5], 'sort_by': ['t', 'y'], 'ascending': [True, False],
    'dropna': [True, False], 'op': ['+', '-', '*', '/'],
    'sort_by_values': [True, False], 'include_base': [True, False],
    'kk': [1, 2, 3], 'share': [.31, .57, .83], 'conf': [None, .5, .9],
    'unit': ['u', 's'], 'tmpl': [None, 'A {}', 'B {}']}
OF = {'Variance': ['unbiased', 'var'], 'StandardDeviation': ['unbiased', 'var'],
      'CV': ['unbiased', 'var'], 'WVariance': ['unbiased', 'weight', 'var'],
      'WSD': ['unbiased', 'weight', 'var'], 'WMean': ['weight', 'var'],
      'Cov': ['bias', 'ddof', 'var', 'var2'],
      'WCov': ['bias', 'ddof', 'weight', 'fweight', 'var', 'var2'],
      'FCov': ['bias', 'ddof', 'fweight', 'var', 'var2'],
      'Correlation': ['method', 'var', 'var2'], 'WCorr': ['weight', 'var', 'var2'],
      'Dot': ['var', 'var2'], 'DotN': ['var', 'var2'], 'Ratio': ['var', 'var2'],
      'Quantile': ['quantile', 'interpolation', 'var'],
      'WQuantile': ['quantile', 'weight', 'var'],
      'Nth': ['n', 'sort_by', 'ascending', 'dropna', 'var'],
      'bin': ['op', 'swap', 'const'], 'list': ['ch', 'ch', 'tmpl', 'rename'],
      'Distribution': ['over'], 'CumulativeDistribution': [
          'over', 'order', 'ascending', 'sort_by_values'],
      'PercentChange': ['base', 'include_base', 'cond'],
      'AbsoluteChange': ['base', 'include_base', 'cond'],
      'MH': ['base', 'include_base', 'strat'], 'PrePost': ['base', 'strat', 'cov'],
      'CUPED': ['base', 'strat', 'cov'], 'HHI': ['over'], 'Entropy': ['over'],
      'TopK': ['over', 'kk'], 'Nxx': ['over', 'share'],
      'Jackknife': ['unit', 'conf'], 'Bootstrap': ['unit', 'conf', 'n'],
      'PoissonBootstrap': ['unit', 'conf', 'n'], 'Model': ['kw', 'kw', 'gb'],
      'Own': ['coef', 'power']}

MODEL_KW = {
    'LinearRegression': {'fit_intercept': [True, False],
                         'normalize': [False, True]},
    'Ridge': {'alpha': [1, 3., 10.], 'fit_intercept': [True, False],
              'normalize': [False, True], 'solver': ['auto', 'svd', 'lsqr']},
    'Lasso': {'alpha': [.05, .3], 'fit_intercept': [True, False],
              'normalize': [False, True], 'positive': [False, True],
              'max_iter': [1000, 1], 'tol': [1e-4, .5],
              'selection': ['cyclic', 'random'], 'random_state': [1, 2],
              'precompute': [False, True], 'warm_start': [False]},
    'ElasticNet': {'alpha': [.05, .3], 'l1_ratio': [.5, .1],
                   'fit_intercept': [True, False], 'normalize': [False, True],
                   'positive': [False, True], 'max_iter': [1000, 1],
                   'tol': [1e-4, .5], 'selection': ['cyclic', 'random'],
                   'random_state': [1, 2]},
    'LogisticRegression': {'C': [1., .1], 'fit_intercept': [True, False],
                           'tol': [1e-4, 1.], 'max_iter': [100, 1],
                           'class_weight': [None, 'balanced'],
                           'penalty': ['l2', None],
                           'solver': ['lbfgs', 'liblinear'],
                           'intercept_scaling': [1, 20]}}


def leaf(rng):
  k = rng.random()
  if k < .1:
    return {'k': 'Nth', 'var': 'x', 'n': rng.choice([0, 1, -1]), 'sort_by': 't',
            'dropna': rng.random() < .5}
  if k < .15:
    return {'k': 'WQuantile', 'var': 'x', 'quantile': .5}
  if k < .2:
    return {'k': 'Own', 'coef': 2, 'power': 1, 'shared': rng.random() < .6}
  if k < .25:
    return {'k': 'Correlation', 'var': 'x', 'var2': 'y',
            'method': rng.choice(['pearson', 'spearman'])}
  return gen.leaf(rng, 'rich', where_p=.25)


def model(rng):
  name = rng.choice(list(MODEL_KW))
  kw = {}
  for k, vs in MODEL_KW[name].items():
    if rng.random() < .5:
      kw[k] = rng.choice(vs)
  if name == 'LogisticRegression':
    if kw.get('penalty', 0) is None:
      kw['solver'] = 'lbfgs'
    y = {'k': 'Max', 'var': 'bin'}
  else:
    y = {'k': 'Sum', 'var': 'y'}
  x = [{'k': 'Sum', 'var': 'x'}, {'k': 'Mean', 'var': 'w'}][:rng.choice([1, 2, 2])]
  return {'k': 'Model', 'model': name, 'y': y, 'x': x, 'gb': ['s', 'u'],
          'kw': kw, 'where': gen.wheres(rng, .2)}


def tree(rng):
  r = rng.random()
  if r < .3:
    return leaf(rng)
  if r < .45:
    return {'k': 'bin', 'op': rng.choice('+-*/'), 'a': leaf(rng), 'b': rng.choice(
        [2, leaf(rng), .5]), 'where': gen.wheres(rng, .2)}
  if r < .55:
    return {'k': 'list', 'ch': [leaf(rng) for _ in range(rng.choice([1, 2, 3]))],
            'where': gen.wheres(rng, .2), 'tmpl': rng.choice([None, None, 'A {}'])}
  if r < .75:
    k = rng.choice(gen.OPS_BASIC + gen.OPS_ADJ)
    s = gen.operation(rng, k, where_p=.2)
    if k in gen.OPS_ADJ:
      s['strat'] = ['u', 's']
    return s
  if r < .9:
    return model(rng)
  k = rng.choice(['Jackknife', 'Bootstrap', 'PoissonBootstrap'])
  return {'k': k, 'unit': 'u', 'child': rng.choice([
      gen.measure(rng), gen.operation(rng, 'PercentChange')]),
          'n': 4, 'conf': rng.choice([None, .9]), 'where': gen.wheres(rng, .2)}


def nodes(s, out=None):
  out = [] if out is None else out
  if isinstance(s, dict):
    out.append(s)
    for k in ('child', 'a', 'b', 'y'):
      nodes(s.get(k), out)
    for k in ('ch', 'cov', 'x'):
      for c in s.get(k) or [] if isinstance(s.get(k), list) else []:
        nodes(c, out)
  return out


def mutate(rng, s):
  """Changes one setting of one node in place; returns its name."""
  ns = nodes(s)
  n = rng.choice(ns) if rng.random() < .6 else ns[0]
  opts = ['where', 'kind'] + OF.get(n['k'], ['var'])
  if n['k'] in ('Sum', 'Count', 'Mean', 'Max', 'Min', 'CountD'):
    opts = ['where', 'kind', 'var', 'name']
  # Settings of the kind at hand are the point.
  o = rng.choice(opts[2:]) if rng.random() < .7 else rng.choice(opts)
  other = lambda vals, cur: rng.choice([v for v in vals if v != cur] or [cur])
  if o == 'where':
    w = n.get('where') or []
    r = rng.random()
    if w and r < .3:
      n['where'] = w[:-1]
    elif w and r < .7:
      n['where'] = w[:-1] + [gen.near(rng, w[-1])]
    else:
      n['where'] = (w if r < .6 else []) + [gen.filt(rng)]
  elif o == 'kind':
    for group in SWAPS:
      if n['k'] in group:
        n['k'] = other(group, n['k'])
        if n['k'] in SWAPS[1]:
          n.setdefault('var2', 'y')
        if n['k'] == 'CumulativeDistribution':
          n['ascending'] = True
        break
    else:
      return None
    n.setdefault('quantile', .5)
  elif o in ('var', 'var2'):
    n[o] = other(COLS, n.get(o))
  elif o == 'name':
    n['name'] = other(['nm1', 'nm2'], n.get('name'))
  elif o == 'swap':
    n['a'], n['b'] = n['b'], n['a']
  elif o == 'const':
    if isinstance(n['b'], dict):
      if not isinstance(n['a'], dict):
        return None
      n['b'] = rng.choice([2, 3])
    else:
      n['b'] = other([2, 3, .5, -1], n['b'])
  elif o == 'ch':
    r = rng.random()
    if r < .3 and len(n['ch']) > 1:
      n['ch'] = n['ch'][::-1]
    elif r < .6:
      n['ch'] = n['ch'] + [leaf(rng)]
    else:
      i = rng.randrange(len(n['ch']))
      n['ch'] = n['ch'][:i] + [leaf(rng)] + n['ch'][i + 1:]
  elif o == 'rename':
    n['rename'] = None if n.get('rename') else [
        'col%d' % i for i in range(len(n['ch']))]
  elif o in ('over', 'strat', 'gb'):
    n[o] = other([['s'], ['s2'], ['s', 's2'], ['s2', 's'], ['u'], ['cond', 's']
                  ] if o == 'over' else [['s'], ['s2'], ['u', 's'], ['u', 's2']],
                 n[o])
  elif o == 'cond':
    n.update(rng.choice([dict(cond='s', base=0), dict(cond='s2', base='p'),
                         dict(cond=['cond', 's2'], base=('ctl', 'q'))]))
  elif o == 'base':
    if n['cond'] == 'cond':
      n['base'] = other(['ctl', 't1'], n['base'])
    else:
      n['base'] = ('ctl', 'q') if n['base'] == ('ctl', 'p') else ('ctl', 'p')
      if n['cond'] == 's':
        n['base'] = 1
  elif o == 'cov':
    n['cov'] = other([[{'k': 'Sum', 'var': 'p'}], [{'k': 'Sum', 'var': 'q'}],
                      [{'k': 'Mean', 'var': 'p'}]], n['cov'])
  elif o == 'order':
    if len(n['over']) > 1 or n['over'][0] != 's':
      n['over'] = ['s']
    n['order'] = other([None, [0, 1, 2], [2, 0, 1]], n.get('order'))
  elif o == 'kw':
    kw = dict(n['kw'])
    k = rng.choice(list(MODEL_KW[n['model']]))
    vs = MODEL_KW[n['model']][k]
    kw[k] = other(vs, kw.get(k, vs[0]))
    n['kw'] = kw
  elif o in ('coef', 'power'):
    n[o] = other([1, 2, 3], n[o])
  elif o == 'n' and n['k'] == 'Nth':
    n['n'] = other([0, 1, 2, -1], n['n'])
  elif o == 'share':
    n['share'] = other(DEFAULTS[o], n[o])
  else:
    n[o] = other(DEFAULTS[o], n.get(o, DEFAULTS[o][0]))
  return o


def quiet(fn):
  with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
    warnings.simplefilter('ignore')
    return fn()


def outcome(m, df, split):
  np.random.seed(7)
  try:
    return cmpx.norm(quiet(lambda: m.compute_on(df, list(split)))), None
  except Exception as e:  # pylint: disable=broad-except
    return None, type(e).__name__


def tables(rng, specs):
  out = []
  for _ in range(3):
    df = gen.table(rng, n=40, rich=True, nan=rng.choice([0, .1]), dense=True,
                   n_units=4, group_vals=2, index='range')
    df['bin'] = (df['x'] > 3).astype(int)
    df.loc[0, 'bin'], df.loc[1, 'bin'] = 0, 1
    out.append(gen.relabel(rng, specs, df))
  return out


def f_pairs(rng, rec):
  s = tree(rng)
  same = rng.random() < .55
  if same:
    for i, n in enumerate(nodes(s)):
      if n['k'] not in ('list', 'bin', 'neg') and 'child' not in n and (
          n['k'] != 'Model'):
        n['name'] = 'nm%d' % i
    if s['k'] != 'list' and rng.random() < .8:
      s['topname'] = 'the name'
  t = copy.deepcopy(s)
  what = mutate(rng, t)
  if what is None or t == s:
    rec.trivial = True
    what = None
  try:
    a, b = build(s), build(t)
  except (ValueError, AttributeError):
    raise Skip('not a metric')
  det = {'a': s, 'b': t, 'setting': what}
  eq = run(lambda: bool(a == b), '==', det)
  hashes = run(lambda: (hash(a), hash(b)), 'hash', det)
  if eq != bool(b == a) or eq == bool(a != b):
    raise Violation('== and != disagree', det)
  if eq and hashes[0] != hashes[1]:
    raise Violation('the metrics are equal but their hashes differ', det)
  if len({a, b}) != (1 if eq else 2):
    raise Violation('a set holds %d of two metrics, == says %r' % (
        len({a, b}), eq), det)
  if a == 1 or a == None or a == 'x' or not a != 3:  # pylint: disable=singleton-comparison
    raise Violation('a metric equals something else', det)
  dfs = tables(rng, [s, t])
  differ = False
  for i, df in enumerate(dfs):
    split = [[], ['g'], ['b']][i]
    ra, ea = outcome(build(s), df, split)
    rb, eb = outcome(build(t), df, split)
    d = None
    if ea or eb:
      d = None if ea == eb else 'errors %r vs %r' % (ea, eb)
    else:
      d = cmpx.diff(ra, rb, 1e-10, 1e-12)
    if d:
      differ = True
      if eq:
        det['table'] = gen.df_repr(df)
        raise Violation('equal metrics compute different things: %s' % d, det)
  rec.add('pairs')
  if differ:
    rec.add('different_results')
    rec.add('set_%s' % what)
    if same:
      rec.add('same_names')
  if eq:
    rec.add('equal_pairs')
  # Copies.
  h = hash(a)
  for how, c in (('deepcopy', copy.deepcopy(a)), ('copy', copy.copy(a)),
                 ('rebuilt', build(s))):
    if not c == a or not a == c:
      raise Violation('%s does not equal the original' % how, det)
    if hash(c) != h:
      raise Violation('%s has another hash than the original' % how, det)
    if how != 'rebuilt':
      rec.add('copies')
  # Histories.
  for j in range(rng.choice([1, 2, 3])):
    df = rng.choice(dfs)
    kw = rng.choice([{}, {'melted': True}, {'cache_key': 'k'},
                     {'return_dataframe': False}])
    np.random.seed(7)
    try:
      quiet(lambda: a.compute_on(df, rng.choice([None, 'g', ['g', 'b']]), **kw))
    except Exception:  # pylint: disable=broad-except
      rec.add('failed_histories')
  if hash(a) != h:
    raise Violation('computing changed the hash', det)
  if not a == copy.deepcopy(a) or not a == build(s):
    raise Violation('computing changed what the metric equals', det)
  rec.add('histories')
  rec.signature(s, t)
  rec.sample = det


FAMILIES = [('pairs', 1, f_pairs)]
