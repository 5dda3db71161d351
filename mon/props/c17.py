"""C17: intervals, base values and the display bound to them."""
import contextlib
import io
import math

import numpy as np
from scipy import stats

from mon import cmpx, gen
from mon.cmpx import Norm, check, run
from mon.core import Skip, Violation
from mon.props import c25

from meterstick import metrics as M
from meterstick import operations as O

RULE = ('one random metric tree below a jackknife, bootstrap or Poisson '
        'bootstrap, computed without and with several confidence levels from the '
        'same random seed; half widths against independent t quantiles, degrees '
        'of freedom from counted replicates; base values and displayed cells are '
        'recomputed from the child metric; distinct = (spec, grouping, levels)')
ASSUMPTIONS = [
    'the degrees of freedom of a bootstrap whose replicates may lack a row are '
    'only required to be the same whole number, at most replicates - 1, at '
    'every level',
    'condition values are never missing; the base of a list of comparisons is '
    'not attached',
    'random replicates are made comparable by numpy.random.seed']
LIMITS = {'quick': (1200, 50), 'thorough': (30000, 700)}
MIN_EVENTS = {'intervals': 2300, 'exact_dof': 380, 'nested': 750,
              'bases_checked': 2000, 'cells': 2000, 'good': 200, 'bad': 240,
              'base_none': 15, 'falsy_baseline': 60, 'multi_condition': 28}

METHODS = {'Jackknife': 'Jackknife', 'Bootstrap': 'Bootstrap',
           'PoissonBootstrap': 'Poisson Bootstrap'}


def quiet(fn):
  with contextlib.redirect_stdout(io.StringIO()):
    return fn()


def child_spec(rng, where_p):
  r = rng.random()
  if r < .2:
    return gen.scalar(rng, 1, 'robust', where_p)
  if r < .3:
    return {'k': 'list', 'ch': gen.dedup([
        gen.scalar(rng, 1, 'robust', where_p) for _ in range(2)])}
  if r < .4:
    return gen.operation(rng, where_p=where_p, lists=False)
  return comparison(rng, where_p)


def comparison(rng, where_p):
  s = gen.operation(rng, rng.choice(['PercentChange', 'AbsoluteChange']),
                    where_p=where_p)
  if rng.random() < .25:
    # A falsy baseline.
    s.update(cond='s', base=0)
  if rng.random() < .15:
    s['child'] = gen.operation(rng, 'Distribution', over=['s3'], lists=False)
    s['child']['over'] = ['c']
  if rng.random() < .12:
    s = gen.operation(rng, rng.choice(['PrePost', 'CUPED']))
    s.update(strat=['s', 's2', 'u'], cov=s['cov'][:1])
  return s


def make(rng, spec_fn, where_p):
  n = rng.choice([14, 24, 40])
  df = gen.table(rng, n=n, rich=rng.random() < .5, dense=True,
                 nan=rng.choice([0, 0, .1]), n_units=rng.choice([2, 3, 5, 8]),
                 group_vals=2, strata=2)
  child = spec_fn(rng, where_p)
  k = rng.choice(list(METHODS))
  spec = {'k': k, 'unit': 'u', 'child': child, 'where': gen.wheres(rng, where_p),
          'opt': rng.random() < .6}
  if k != 'Jackknife':
    spec['n'] = rng.choice([2, 3, 8, 15])
    if rng.random() < .25:
      spec['unit'] = None
  split = gen.split(rng, cands=('g', 'b', 'h'), maxn=2, p0=.4)
  data = df.iloc[gen.fmask(spec['where'], df)] if spec['where'] else df
  if not len(data) or data['u'].nunique() < 2:
    raise Skip('too few units')
  if gen.leaf_starved(spec, df):
    raise Skip('a leaf without any data')
  if k == 'Jackknife' and (gen.loo_sparse(spec, df, split) or
                           not gen.loo_has_baseline(spec, data, split)):
    raise Skip('sparse')
  if k != 'Jackknife' and filtered_child(child):
    # A resample could have no data left.
    raise Skip('filters below a bootstrap')
  return df, data, spec, split


def filtered_child(s):
  return bool(gen.filter_cols({k: v for k, v in s.items() if k != 'where'}
                              if isinstance(s, dict) else s)) or bool(
                                  s.get('where'))


def point_of(spec, data, split):
  try:
    p = cmpx.norm(gen.build(spec['child']).compute_on(
        data.reset_index(drop=True), list(split)))
  except KeyError:
    raise Skip('no baseline')
  if not p.rows:
    raise Skip('no rows')
  return p


def compute(spec, conf, df, split, seed, det, **kw):
  m = gen.build(dict(spec, conf=conf))
  np.random.seed(seed)
  what = 'compute_on at level %r' % conf
  return run(lambda: quiet(lambda: m.compute_on(df, list(split), **kw)), what,
             det)


def f_interval(rng, rec):
  df, data, spec, split = make(rng, child_spec, rng.choice([0, .25]))
  method = METHODS[spec['k']]
  point = point_of(spec, data, split)
  seed = rng.randint(0, 2**31 - 1)
  levels = sorted(rng.sample([.01, .3, .5, .8, .9, .95, .99, .9999,
                              round(rng.uniform(.05, .98), 3)], 3))
  det = {'spec': spec, 'split_by': split, 'seed': seed, 'levels': levels,
         'table': gen.df_repr(df)}
  df2 = gen.catify(rng, df, [c for c in ('g', 'cond', 'u', 'h') if c not in
                             gen.filter_cols(spec)]) if rng.random() < .2 else df
  se = cmpx.norm(compute(spec, None, df2, split, seed, det))
  det['se'] = se.dump()
  nm = len(point.cols)
  expect_cols(se, point, [method + ' SE'], det)
  cis = []
  for c in levels:
    r = cmpx.norm(compute(spec, c, df2, split, seed, det))
    expect_cols(r, point, [method + ' CI-lower', method + ' CI-upper'], det)
    if sorted(r.keys(), key=str) != sorted(se.keys(), key=str):
      raise Violation('rows %r at level %r instead of %r' % (
          r.keys(), c, se.keys()), det)
    cis.append(r.d)
  dofs = exact_dof(spec, data, split, point, rng)
  for k, vs in se.rows:
    for j in range(nm):
      est, sd = vs[2 * j:2 * j + 2]
      cell = '%r at %r' % (point.cols[j], k)
      want = point.d.get(k)
      if want is not None and not cmpx.close(est, want[j], 1e-7, 1e-7):
        raise Violation('estimate of %s is %r instead of %r' % (
            cell, est, want[j]), det)
      halves = []
      for c, d in zip(levels, cis):
        e, lo, hi = d[k][3 * j:3 * j + 3]
        if not cmpx.close(e, est, 1e-12, 1e-12):
          raise Violation('estimate of %s depends on the level: %r vs %r' % (
              cell, e, est), det)
        if est is None or sd is None or math.isinf(est) or math.isinf(sd):
          if sd is None and (lo is not None or hi is not None):
            raise Violation('bounds of %s are [%r, %r] without a standard '
                            'error' % (cell, lo, hi), det)
          continue
        if lo is None or hi is None:
          raise Violation('bounds of %s are missing but its standard error is '
                          '%r' % (cell, sd), det)
        if not cmpx.close((lo + hi) / 2, est, 1e-9, 1e-9 * (1 + abs(hi - lo))):
          raise Violation('interval of %s is [%r, %r] around %r' % (
              cell, lo, hi, est), det)
        halves.append((hi - lo) / 2)
      if len(halves) < len(levels):
        rec.add('without_value')
        continue
      cands = dofs(k, j)
      ok = [f for f in cands if all(
          cmpx.close(h, sd * float(stats.t.ppf((1 + c) / 2, f)), 1e-6,
                     1e-9 * (1 + abs(est))) for h, c in zip(halves, levels))]
      if not ok:
        raise Violation(
            'half widths of %s at %r are %r; standard error %r; degrees of '
            'freedom could be %r' % (cell, levels, halves, sd, cands[:5]), det)
      if any(b < a - 1e-12 * abs(a) for a, b in zip(halves, halves[1:])):
        raise Violation('intervals of %s are not nested: %r at %r' % (
            cell, halves, levels), det)
      rec.add('intervals', len(levels))
      rec.add('nested')
      if len(cands) == 1:
        rec.add('exact_dof')
  rec.add('method_' + spec['k'])
  rec.trivial = len(se.rows) * nm < 1
  rec.signature(spec, split, levels)
  rec.sample = {'spec': spec, 'split_by': split, 'levels': levels,
                'rows': len(se.rows)}


def expect_cols(r, point, suffixes, det):
  cols = [(nm, c) for nm in point.cols for c in ['Value'] + suffixes]
  if r.cols != cols or r.names != point.names:
    raise Violation('columns %r index %r instead of %r %r' % (
        r.cols, r.names, cols, point.names), det)


def exact_dof(spec, data, split, point, rng):
  """A function from (row, column) to the list of possible dofs."""
  if spec['k'] == 'Jackknife':
    cache = {}
    ucol = data['u'].tolist()
    groups = {tuple(map(cmpx.keyval, sl)): pos
              for sl, pos in gen.cells(data, split).items()}

    def reps(sl):
      if sl not in cache:
        out = []
        pos = groups[sl]
        units = sorted(set(ucol[i] for i in pos), key=str)
        for u in units if len(units) > 1 else []:
          sub = data.iloc[[i for i in pos if ucol[i] != u]]
          try:
            out.append(cmpx.norm(gen.build(spec['child']).compute_on(
                sub.reset_index(drop=True), list(split))).d)
          except KeyError:
            pass
        cache[sl] = out
      return cache[sl]

    return lambda k, j: [sum(
        1 for d in reps(k[:len(split)]) if k in d and d[k][j] is not None) - 1]
  n = spec['n']
  ch = spec['child']
  always = spec['k'] == 'Bootstrap' and ch['k'] in ('Sum', 'Count', 'Dot',
                                                    'CountD')
  if spec['k'] == 'Bootstrap' and not data[['x', 'y', 'z']].isna().any(
      axis=None) and ch['k'] in ('Mean', 'Max', 'Min', 'list', 'bin'):
    if not gen.kinds_in(ch) - {'Mean', 'Max', 'Min', 'Sum', 'Count', 'Dot',
                               'list', 'bin', 'Ratio', 'CountD'}:
      always = True
  if always:
    return lambda k, j: [n - 1]
  return lambda k, j: list(range(1, n))


def f_base(rng, rec):
  """Base values and the display."""
  df, data, spec, split = make(
      rng, comparison if rng.random() < .8 else child_spec, 0)
  if rng.random() < .3:
    f = gen.wheres(rng, 1)
    if spec['k'] == 'Jackknife':
      spec['child']['where'] = f
      if gen.loo_sparse(spec, df, split) or gen.leaf_starved(spec, df) or (
          not gen.loo_has_baseline(spec, data.iloc[gen.fmask(f, data)], split)):
        raise Skip('sparse')
  ch = spec['child']
  method = METHODS[spec['k']]
  point = point_of(spec, data, split)
  seed = rng.randint(0, 2**31 - 1)
  level = rng.choice([.3, .6, .9, .95])
  melted = rng.random() < .5
  kw = {'melted': True} if melted else {}
  if rng.random() < .25:
    kw['cache_key'] = 'k'
  det = {'spec': spec, 'split_by': split, 'seed': seed, 'level': level,
         'kw': kw, 'table': gen.df_repr(df)}
  m = gen.build(dict(spec, conf=level))
  res = None
  for again in range(2 if 'cache_key' in kw else 1):
    np.random.seed(seed)
    res = run(lambda: quiet(lambda: m.compute_on(df, list(split), **kw)),
              'compute_on', det)
  np.random.seed(seed)
  wide = cmpx.norm(run(lambda: quiet(lambda: gen.build(dict(
      spec, conf=level)).compute_on(df, list(split))), 'compute_on', det))
  compare = ch['k'] in ('PercentChange', 'AbsoluteChange', 'PrePost', 'CUPED')
  names = list(point.cols)
  kids = None
  cond = []
  base = {}
  if not compare:
    if getattr(res, 'meterstick_change_base', 0) is not None:
      raise Violation('base values %r of something that is not a comparison' % (
          getattr(res, 'meterstick_change_base', 0),), det)
    rec.add('base_none')
  else:
    cond = [ch['cond']] if isinstance(ch['cond'], str) else list(ch['cond'])
    sub = data.iloc[gen.fmask(ch.get('where') or [], data)].reset_index(drop=True)
    kids = cmpx.norm(gen.build(ch['child']).compute_on(sub, split + cond))
    got = res.meterstick_change_base
    if got is None:
      raise Violation('no base values', det)
    base = {}
    gotn = [tuple(map(cmpx.keyval, k)) for k in got.index]
    for k, v in zip(gotn, got.iloc[:, 0].tolist()):
      base[k] = cmpx.val(v)
    if list(got.index.names) != ['Metric'] + kids.names:
      raise Violation('levels of the base values are %r instead of %r' % (
          list(got.index.names), ['Metric'] + kids.names), det)
    if len(base) != len(gotn):
      raise Violation('duplicated base values', det)
    want = {(names[j],) + k: vs[j] for k, vs in kids.rows
            for j in range(len(names))}
    for k in set(want) | set(base):
      if not cmpx.close(base.get(k), want.get(k), 1e-9, 1e-9):
        raise Violation('base value at %r is %r instead of %r' % (
            k, base.get(k), want.get(k)), det)
      rec.add('bases_checked')
  show(res, wide, base, kids, names, split, cond, ch, method, compare, df, data,
       det, rec, rng)
  rec.trivial = len(wide.rows) < 1
  rec.signature(spec, split, level, sorted(kw))
  rec.sample = {'spec': spec, 'split_by': split, 'level': level,
                'rows': len(wide.rows)}


def show(res, wide, base, kids, names, split, cond, ch, method, compare, df,
         data, det, rec, rng):
  """The display, against the numbers of the wide result and the base."""
  d = wide.d
  index = list(wide.names)
  dims = [c for c in index if c not in cond] if compare else list(index)
  agg = rng.random() < .6
  args = {'aggregate_dimensions': agg, 'return_formatted_df': True}
  formats = {'Ratio': 'percent'} if ch['k'] in ('PercentChange', 'PrePost') else {}
  if rng.random() < .3:
    formats = {'Value': rng.choice(['percent', '{:.1f}']),
               'Ratio': rng.choice(['percent', 'pp', 'absolute'])}
    args['metric_formats'] = dict(formats)
  shown = [n[:-len(' Percent Change')] if n.endswith(' Percent Change') else
           n[:-len(' Absolute Change')] if n.endswith(' Absolute Change') else n
           for n in names] if compare else list(names)
  if len(set(shown)) < len(shown):
    raise Skip('names that look alike')
  flip = rng.sample(shown, rng.randint(0, len(shown))) if rng.random() < .4 else []
  if flip:
    args['flip_color'] = flip
  show_control = compare
  if rng.random() < .3:
    show_control = args['show_control'] = rng.random() < .5
    if not show_control and compare:
      args['show_metric_value_when_control_hidden'] = rng.random() < .5
  hide = True
  if rng.random() < .2:
    hide = args['hide_null_ctrl'] = False
  if not compare and rng.random() < .2:
    args['show_metric_value_when_control_hidden'] = rng.random() < .5
  if not agg:
    args['display_expr_info'] = rng.random() < .3
  order = list(shown)
  if rng.random() < .3:
    order = args['metric_order'] = rng.sample(shown, len(shown))
  det['display'] = repr(args)
  bkey = ch.get('base')
  bkey = tuple(bkey) if isinstance(bkey, (tuple, list)) else (bkey,)
  rows, cells = {}, {}
  ci, di = [index.index(c) for c in cond], [index.index(c) for c in dims]
  keys = list(kids.keys()) if compare else []
  allk = list(dict.fromkeys(
      [tuple(k) for k in (tuple(kk) for kk in keys)] + list(d)))
  if compare and kids.names != index:
    raise Violation('index %r of the result, %r of the base' % (
        index, kids.names), det)
  for k in allk:
    e = tuple(k[i] for i in ci)
    is_ctl = compare and e == bkey
    if is_ctl and not show_control:
      continue
    q = {c: k[i] for c, i in zip(dims, di)}
    if compare:
      q['Experiment_Id'] = e[0] if len(e) == 1 else str(e)
      q['Is_Control'] = is_ctl
    rid = tuple(k[i] for i in di) + ((q['Experiment_Id'],) if compare else ())
    rows[rid] = q
    for j, n in enumerate(names):
      est, lo, hi = d[k][3 * j:3 * j + 3] if k in d else (None,) * 3
      v = base.get((n,) + k) if compare else None
      if not show_control and not args.get(
          'show_metric_value_when_control_hidden'):
        v = None
      if is_ctl:
        est = None
      cells[rid, shown[j]] = (v, est, lo, hi)
  src = {'rows': list(rows.values()), 'ids': list(rows), 'cells': cells}
  out = run(lambda: quiet(lambda: res.display(**args)), 'display', det)
  det['output'] = '\n'.join(str(r) for r in out.head(20).values.tolist())
  kw = {'aggregate_dimensions': agg, 'hide_null_ctrl': hide,
        'display_expr_info': args.get('display_expr_info', False)}
  exp_col = cond[0] if len(cond) == 1 else '_expr_id'
  c25.verify(out, src, dims, {'Experiment_Id': exp_col}, kw, formats, flip,
             order, False, compare, shown, None, det, rec)
  if compare and len(cond) > 1:
    rec.add('multi_condition')
  if compare and bkey == (0,):
    rec.add('falsy_baseline')


FAMILIES = [('interval', 3, f_interval), ('base', 3, f_base)]
