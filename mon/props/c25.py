"""C25: the formatted display against an independent reading of its HTML."""
import contextlib
import copy
import io
import math

import numpy as np
import pandas as pd

from mon import cmpx, disp, gen
from mon.cmpx import run
from mon.core import Skip, Violation

from meterstick import confidence_interval_display as C

RULE = ('random long-format tables (dimensions, experiments, controls, missing '
        'rows and numbers) and option combinations; every displayed cell is '
        'read back from the HTML and compared with the numbers of exactly its '
        'row and metric; distinct = (options, rows); trivial = fewer than 2 rows')
ASSUMPTIONS = [
    'one row per metric, dimensions and experiment; dimensions are not missing',
    'the default order of rows and metrics is not specified, requested ones are',
    'control values of a slice differ either by more than 1 or by less than 1e-6',
    'filling in control rows is used together with showing them']
LIMITS = {'quick': (8000, 45), 'thorough': (120000, 700)}
MIN_EVENTS = {'cells': 20000, 'good': 2000, 'bad': 2000, 'flipped': 2000,
              'control_cells': 4500, 'sorted': 1300, 'metric_order': 1500,
              'numbers_prepared': 6500, 'filled_controls': 550,
              'falsy_ids': 2000, 'na_cells': 1300}

DIM_SETS = [['US', 'GB', 'de'], [1, 2, 10], ['a b', 'x*y', 'z'], [True, False],
            [0, 5], ['', 'q'], [1.5, 2.0]]
EXP_SETS = [['ctl', 't1', 't2'], [0, 1, 2], [42, 7, 13], ['', 'a', 'b'],
            [True, False], ['c 0', 'c 1', 'c-2']]


def number(rng):
  return rng.choice([rng.uniform(-5, 5), rng.uniform(-100, 900), 0.0,
                     rng.uniform(-.01, .01), float(rng.randint(-3, 3))])


def make(rng):
  nd = rng.choice([0, 1, 1, 2])
  dim_names = rng.choice([['Dim_1', 'Dim_2'], ['Country', 'Type'],
                          ['zz', 'Aa'], ['Dim_2', 'Dim_1']])[:nd]
  if nd and rng.random() < .1:
    dim_names = ['Dim_10', 'Dim_2'][:nd]
  dim_vals = [rng.choice(DIM_SETS) for _ in dim_names]
  has_exp = rng.random() < .85
  exps = rng.choice(EXP_SETS)
  n_ctl = 1
  ctl_style = rng.choice(['scalar', 'scalar', 'column', 'dict', 'ids']) if (
      has_exp) else None
  exps = list(exps)
  if ctl_style == 'dict' and len(exps) == 3 and rng.random() < .5:
    ctl = {exps[0]: [exps[1]], exps[2]: []}
    control_of = {exps[0]: exps[0], exps[1]: exps[0], exps[2]: exps[2]}
  elif has_exp:
    ctl = {exps[0]: exps[1:]}
    control_of = {e: exps[0] for e in exps}
  else:
    ctl, control_of = None, {}
  metrics = rng.sample(['m1', 'Metric Foo', 'zz metric', 'a/b', 'sum(x)'],
                       rng.choice([1, 2, 3]))
  slices = [()]
  for vs in dim_vals:
    slices = [s + (v,) for s in slices for v in rng.sample(
        vs, rng.randint(1, len(vs)))]
  slices = list(dict.fromkeys(slices))[:5]
  desc_style = rng.choice([None, None, 'full', 'part']) if has_exp else None
  descs = {e: 'about %s' % i for i, e in enumerate(exps)}
  rows = []
  drop_controls = has_exp and rng.random() < .35
  inconsistent = rng.random() < .3
  for s in slices:
    for e in (exps if has_exp else [None]):
      is_ctl = has_exp and e in ctl
      for m in metrics:
        if rng.random() < .08:
          continue
        a, b = number(rng), number(rng)
        lo, hi = min(a, b), max(a, b)
        r = {dim_names[i]: v for i, v in enumerate(s)}
        r['Metric'] = m
        r['Value'] = number(rng)
        if rng.random() < .08:
          r['Value'] = None
        r['Ratio'] = (lo + hi) / 2
        r['CI_Lower'], r['CI_Upper'] = lo, hi
        if rng.random() < .08:
          r['CI_Lower'] = None
        if rng.random() < .08:
          r['CI_Upper'] = None
        if is_ctl and rng.random() < .8:
          r.update(Ratio=None, CI_Lower=None, CI_Upper=None)
        if rng.random() < .04:
          r['Ratio'] = None
        if has_exp:
          r['Experiment_Id'] = e
          if desc_style:
            r['Description'] = descs[e]
            if desc_style == 'part' and rng.random() < .4:
              r['Description'] = rng.choice(['', None])
        if is_ctl and drop_controls and rng.random() < .7:
          continue
        rows.append(r)
  # Descriptions belong to an experiment within a slice, not to a metric.
  seen = {}
  for r in rows:
    if 'Description' in r:
      k = tuple(r.get(d) for d in dim_names) + (r['Experiment_Id'],)
      r['Description'] = seen.setdefault(k, r['Description'])
  if len(rows) < 1:
    raise Skip('empty')
  # Control values.
  cv = {}
  for r in rows:
    if not has_exp:
      break
    k = (r['Metric'], control_of[r['Experiment_Id']]) + tuple(
        r.get(d) for d in dim_names)
    base = cv.setdefault(k, number(rng))
    r['Control_Value'] = base + (
        5 * rng.randint(0, 1) if inconsistent else rng.uniform(0, 1e-9))
  rng.shuffle(rows)
  df = pd.DataFrame(rows)
  for i, d in enumerate(dim_names):
    if rng.random() < .25:
      vals = list(dict.fromkeys(df[d].tolist()))
      try:
        vals = sorted(vals)
      except TypeError:
        pass
      df[d] = pd.Categorical(df[d], categories=vals + (
          ['unused'] if isinstance(vals[0], str) else []))
  df = gen.reindex(rng, df, rng.choice(['range', 'dup', 'str', 'offset']))
  kw = {}
  if has_exp:
    if ctl_style == 'scalar':
      kw['ctrl_id'] = exps[0]
    elif ctl_style == 'dict':
      kw['ctrl_id'] = ctl
    elif ctl_style == 'column':
      df['Is_Control'] = [e in ctl for e in df['Experiment_Id']]
      df['Control_Id'] = [control_of[e] for e in df['Experiment_Id']]
    else:
      df['Control_Id'] = [control_of[e] for e in df['Experiment_Id']]
  if not (dim_names and all(d.startswith('Dim_') for d in dim_names) and
          rng.random() < .3):
    kw['dims'] = dim_names[0] if nd == 1 and rng.random() < .5 else dim_names
  else:
    dim_names = sorted(dim_names)
  return df, kw, dim_names, metrics, ctl or {}, control_of, has_exp


OPT = {'percent': 'percent', 'absolute': 'absolute', 'pp': 'pp'}


def f_display(rng, rec):
  df, kw, dims, metrics, ctl, control_of, has_exp = make(rng)
  agg = rng.random() < .55
  kw['aggregate_dimensions'] = agg
  show = rng.random() < .6
  kw['show_control'] = show
  formats = {}
  if rng.random() < .5:
    formats = {k: rng.choice(['percent', 'absolute', 'pp', '{:.1f}', '{:.3e}'])
               for k in rng.sample(['Value', 'Ratio'], rng.randint(1, 2))}
    kw['metric_formats'] = dict(formats)
  flip = rng.sample(metrics, rng.randint(0, len(metrics)))
  if flip:
    kw['flip_color'] = flip if rng.random() < .6 else tuple(flip)
  kw['hide_null_ctrl'] = rng.random() < .5
  kw['auto_add_description'] = rng.random() < .4
  if 'Description' in df and df['Description'].isna().any():
    kw['auto_add_description'] = True
  kw['show_metric_value_when_control_hidden'] = rng.random() < .5
  if not agg:
    kw['display_expr_info'] = rng.random() < .4
  order = None
  if rng.random() < .4:
    order = rng.sample(metrics, rng.randint(1, len(metrics)))
    kw['metric_order'] = order if rng.random() < .7 else tuple(order)
  fill = show and has_exp and rng.random() < .3
  kw['auto_decide_control_vals'] = fill
  pre = rng.random() < .25
  kw['return_pre_agg_df'] = pre
  use_range = rng.random() < .15
  if use_range:
    df = df.copy()
    mid = (df['CI_Lower'].astype(float) + df['CI_Upper'].astype(float)) / 2
    ok = df['Ratio'].astype(float).notna() & mid.notna()
    df['CI_Range'] = (df['CI_Upper'].astype(float) -
                      df['CI_Lower'].astype(float)).where(ok)
    df['Ratio'] = df['Ratio'].astype(float)
    df = df.drop(columns=['CI_Lower', 'CI_Upper'])
  # The caller's own column names.
  ren = {}
  if rng.random() < .3:
    table = {'Metric': ('metric', 'the metric'), 'Ratio': ('ratio', 'change'),
             'Value': ('value', 'val'), 'CI_Upper': ('ci_upper', 'upper'),
             'CI_Lower': ('ci_lower', 'lower'), 'Experiment_Id': (
                 'expr_id', 'arm'), 'Description': ('description', 'text'),
             'CI_Range': ('ci_range', 'width'),
             'Control_Value': ('control_value', 'cv')}
    for c in rng.sample(list(table), rng.randint(1, 4)):
      if c in df:
        arg, new = table[c]
        ren[c] = new
        kw[arg] = new
  src = reference_rows(df, dims, ctl, control_of, has_exp, kw, use_range, fill,
                       rec)
  sort_by = None
  if rng.random() < .35:
    sort_by = []
    cands = list(dims) + (['Experiment_Id'] if has_exp else [])
    fields = [('Ratio', m) for m in metrics] + [('CI_Lower', m) for m in metrics]
    if show or kw['show_metric_value_when_control_hidden']:
      fields += [('Value', m) for m in metrics]
    for c in rng.sample(cands, min(len(cands), rng.randint(0, 2))):
      s = {'column': ren.get(c, c)}
      if rng.random() < .5:
        s['ascending'] = rng.random() < .5
      if rng.random() < .5:
        vals = list(dict.fromkeys(
            [r[c] for r in src['rows']] if c in dims else
            [r['Experiment_Id'] for r in src['rows']]))
        rng.shuffle(vals)
        s['order'] = vals
      sort_by.append(s)
    if rng.random() < .5 or not sort_by:
      s = {'column': rng.choice(fields)}
      if rng.random() < .5:
        s['ascending'] = rng.random() < .5
      sort_by.append(s)
    if any(isinstance(s['column'], tuple) and s['column'][1] not in set(
        m for _, m in src['cells']) for s in sort_by):
      sort_by = None
    else:
      kw['sort_by'] = sort_by
  df = df.rename(columns=ren)
  det = {'table': gen.df_repr(df), 'dtypes': str(dict(df.dtypes.astype(str))),
         'args': repr(kw)}
  before = df.copy(deep=True)
  kw_before = copy.deepcopy({k: v for k, v in kw.items() if k != 'metric_formats'})
  if not src['rows'] or (order is not None and not has_exp and not dims and
                         not set(order) & set(m for _, m in src['cells'])):
    raise Skip('nothing to show')
  with contextlib.redirect_stdout(io.StringIO()):
    out = run(lambda: C.get_formatted_df(df, **kw), 'get_formatted_df', det)
  try:
    pd.testing.assert_frame_equal(df, before)
  except AssertionError as e:
    raise Violation('the input table was modified: %s' % str(e)[:200], det)
  if {k: v for k, v in kw.items() if k != 'metric_formats'} != kw_before:
    raise Violation('the arguments were modified: %r' % kw, det)
  det['output'] = '\n'.join(str(r) for r in out.head(20).values.tolist())
  verify(out, src, dims, ren, kw, formats, flip, order, pre, has_exp, metrics,
         sort_by, det, rec)
  rec.trivial = len(src['rows']) < 2
  rec.signature(repr(kw), len(df), dims)
  rec.sample = {'args': repr(kw), 'rows': len(df)}


def reference_rows(df, dims, ctl, control_of, has_exp, kw, use_range, fill, rec):
  """{'rows': [row dicts], 'cells': {(row id, metric): (v, r, lo, hi)}}"""
  show = kw['show_control']
  recs = []
  for r in gen.rows_of(df):
    q = dict(r)
    if use_range:
      q['CI_Lower'] = q['CI_Upper'] = None
      if q['Ratio'] is not None and q['CI_Range'] is not None:
        q['CI_Lower'] = q['Ratio'] - q['CI_Range'] / 2
        q['CI_Upper'] = q['Ratio'] + q['CI_Range'] / 2
    q['Is_Control'] = has_exp and q['Experiment_Id'] in ctl
    recs.append(q)
  if kw['auto_add_description'] and has_exp:
    for q in recs:
      if not q.get('Description'):
        q['Description'] = 'Control' if q['Is_Control'] else 'Not Control'
  if show:
    for q in recs:
      if q['Is_Control']:
        q['Ratio'] = None
  else:
    recs = [q for q in recs if not q['Is_Control']]
    if not kw['show_metric_value_when_control_hidden']:
      for q in recs:
        q['Value'] = None
  if fill:
    have = {}
    for q in recs:
      if q['Is_Control']:
        have[(q['Metric'], q['Experiment_Id']) + tuple(q[d] for d in dims)] = q
    groups = {}
    for q in recs:
      if not q['Is_Control']:
        groups.setdefault((q['Metric'], control_of[q['Experiment_Id']]) + tuple(
            q[d] for d in dims), []).append(q['Control_Value'])
    for k, vs in groups.items():
      if max(vs) - min(vs) > 1e-5:
        continue
      if k in have:
        if have[k]['Value'] is None:
          have[k]['Value'] = min(vs)
        continue
      q = {d: v for d, v in zip(dims, k[2:])}
      q.update(Metric=k[0], Experiment_Id=k[1], Value=min(vs), Ratio=None,
               CI_Lower=None, CI_Upper=None, Is_Control=True)
      recs.append(q)
      rec.add('filled_controls')
    if any('Description' in q for q in recs):
      for q in recs:
        if q['Is_Control']:
          q['Description'] = 'Control'
  rows, cells = {}, {}
  for q in recs:
    rid = tuple(q[d] for d in dims) + (
        (q['Experiment_Id'],) if has_exp else ())
    rows.setdefault(rid, q)
    cells[rid, q['Metric']] = (q['Value'], q['Ratio'], q['CI_Lower'],
                               q['CI_Upper'])
  return {'rows': list(rows.values()), 'ids': list(rows), 'cells': cells}


def verify(out, src, dims, ren, kw, formats, flip, order, pre, has_exp, metrics,
           sort_by, det, rec):
  agg = kw['aggregate_dimensions']
  shown = [c for c in out.columns]
  names = set(m for _, m in src['cells'])
  label_cols = [c for c in shown if c not in names]
  got_metrics = [c for c in shown if c in names]
  if order is not None:
    want = [m for m in order if m in names]
    if got_metrics != want:
      raise Violation('metrics %r instead of %r' % (got_metrics, want), det)
    rec.add('metric_order')
  elif sorted(got_metrics) != sorted(names):
    raise Violation('metrics %r instead of %r' % (got_metrics, sorted(names)), det)
  ids = {}
  for rid, q in zip(src['ids'], src['rows']):
    ids[label_of(q, dims, agg, has_exp, kw, pre)] = rid
    if has_exp and not q['Experiment_Id']:
      rec.add('falsy_ids')
  if len(ids) != len(src['ids']):
    raise Skip('rows that look alike')
  want_cols = []
  if agg:
    if dims or has_exp:
      want_cols = ['Dimensions']
  else:
    want_cols = list(dims)
    if has_exp:
      want_cols.append(ren.get('Experiment_Id', 'Experiment_Id'))
      if kw.get('display_expr_info'):
        want_cols.append('Is_Control')
        if order is None:
          want_cols.append('Control_Id')
        if any('Description' in q for q in src['rows']):
          want_cols.append(ren.get('Description', 'Description'))
  if sorted(map(str, label_cols)) != sorted(want_cols):
    raise Violation('label columns %r instead of %r' % (label_cols, want_cols),
                    det)
  seen = []
  pos = {c: i for i, c in enumerate(shown)}
  for row in out.itertuples(index=False, name=None):
    lab = read_label(row, pos, dims, ren, agg, has_exp, kw, pre)
    if lab not in ids:
      raise Violation('a row is labelled %r, expected one of %r' % (
          lab, list(ids)[:6]), det)
    rid = ids[lab]
    if rid in seen:
      raise Violation('row %r is shown twice' % (lab,), det)
    seen.append(rid)
    q = dict(zip(src['ids'], src['rows']))[rid]
    for m in got_metrics:
      cell = src['cells'].get((rid, m))
      got = row[pos[m]]
      if pre:
        want = cell or (None,) * 4
        if not all(cmpx.close(cmpx.val(a), cmpx.val(b), 1e-9, 1e-12)
                   for a, b in zip(got, want)):
          raise Violation('numbers of %r in row %r are %r instead of %r' % (
              m, lab, got, want), det)
        rec.add('numbers_prepared')
        continue
      if cell is None:
        cell = (None,) * 4
        rec.add('na_cells')
      txt, mk = disp.expected_cell(cell, formats, m in flip,
                                   kw['hide_null_ctrl'])
      if not disp.same_text(disp.texts(got), txt):
        raise Violation('cell %r of row %r shows %r instead of %r' % (
            m, lab, disp.texts(got), txt), det)
      if disp.mark(got) != mk:
        lo, hi = cell[2:]
        raise Violation('cell %r of row %r is marked %r instead of %r' % (
            m, lab, disp.mark(got), mk), det)
      rec.add('cells')
      if mk:
        rec.add(mk)
        if m in flip:
          rec.add('flipped')
      if has_exp and q['Is_Control']:
        rec.add('control_cells')
  if set(seen) != set(src['ids']):
    raise Violation('rows are missing: %r' % (sorted(
        set(src['ids']) - set(seen), key=str)[:4]), det)
  if sort_by:
    check_sorted(seen, src, dims, ren, sort_by, det)
    rec.add('sorted')


def dim_text(v):
  return str(v)


def label_of(q, dims, agg, has_exp, kw, pre):
  desc = q.get('Description')
  if agg and not pre:
    out = []
    if has_exp and desc:
      out.append(desc)
    if has_exp and str(q['Experiment_Id']) != '':
      out.append(str(q['Experiment_Id']))
    if dims:
      out.append(' * '.join(str(q[d]) for d in dims))
    return tuple(o for o in out if o)
  out = [str(q[d]) for d in dims]
  if has_exp:
    out.append(str(q['Experiment_Id']))
    if agg or kw.get('display_expr_info'):
      out.append(str(bool(q['Is_Control'])))
      if 'Description' in q:
        out.append(str(desc or ''))
  return tuple(out)


def read_label(row, pos, dims, ren, agg, has_exp, kw, pre):
  one = lambda c: row[pos[c]] if pre else ''.join(disp.texts(row[pos[c]]))
  if agg:
    if not dims and not has_exp:
      return ()
    d = row[pos['Dimensions']]
    if not pre:
      return tuple(disp.texts(d))
    out = [str(gen.plain(d['Dim_%d' % (i + 1)])) for i in range(len(dims))]
    if has_exp:
      out += [str(gen.plain(d['Experiment_Id'])), str(bool(d['Is_Control']))]
      if 'Description' in d:
        out.append(str(d['Description'] or ''))
    return tuple(out)
  out = [str(gen.plain(one(d))) for d in dims]
  if has_exp:
    out.append(str(gen.plain(one(ren.get('Experiment_Id', 'Experiment_Id')))))
    if kw.get('display_expr_info'):
      out.append(str(gen.plain(one('Is_Control'))))
      c = ren.get('Description', 'Description')
      if c in pos:
        out.append(str(one(c) or ''))
  return tuple(out)


def check_sorted(seen, src, dims, ren, sort_by, det):
  byid = dict(zip(src['ids'], src['rows']))
  back = {v: k for k, v in ren.items()}
  fields = ['Value', 'Ratio', 'CI_Lower', 'CI_Upper']
  keys = []
  for s in sort_by:
    c = s['column']
    if isinstance(c, tuple):
      get = lambda rid, c=c: (src['cells'].get((rid, c[1])) or (None,) * 4)[
          fields.index(c[0])]
    else:
      c = back.get(c, c)
      get = lambda rid, c=c: byid[rid][c]
    order = s.get('order')
    keys.append((get, order, s.get('ascending', True)))

  def cmp(a, b):
    for get, order, asc in keys:
      x, y = get(a), get(b)
      if order:
        x, y = order.index(x), order.index(y)
      if x is None and y is None:
        continue
      if x is None:
        return 1
      if y is None:
        return -1
      if x == y or (isinstance(x, float) and isinstance(y, float) and
                    abs(x - y) < 1e-12):
        continue
      return (1 if x > y else -1) * (1 if asc else -1)
    return 0

  for a, b in zip(seen, seen[1:]):
    if cmp(a, b) > 0:
      raise Violation('rows are not in the requested order: %r before %r' % (
          a, b), det)


FAMILIES = [('display', 1, f_display)]
