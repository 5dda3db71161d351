"""C22: all execution modes of a query agree."""
import copy
import math
import os
import tempfile

import numpy as np
import pandas as pd

from mon import beam, cmpx, gen, sqlx
from mon.cmpx import run
from mon.core import Skip, Violation
from mon.props import c19, c20, c21, c26

from meterstick import metrics as M
from meterstick import operations as O
from meterstick import sql as S
from meterstick import utils

RULE = ('one random metric tree (values, operations, jackknife) on a random '
        'table; the same question is asked in memory and in SQL, in every '
        'mode, batch size, output shape and calling form, in random order on '
        'one or several metric objects, and the answers are compared with each '
        'other; generated queries are compared with themselves and used as '
        'tables; distinct = (spec, grouping, forms, table shape)')
ASSUMPTIONS = [
    'the interpreter implements the BigQuery dialect',
    'rows come in the order of the grouping columns, otherwise in any order',
    'the listed findings of C14, C19 and C20 are left out']
LIMITS = {'quick': (2400, 55), 'thorough': (30000, 800)}
MIN_EVENTS = {'answers': 850, 'form_sql': 400, 'form_mixed': 400,
              'melted': 280, 'turned': 180, 'pipelines': 250,
              'raw_series': 10, 'raw_list': 30, 'batched': 60,
              'histories': 150, 'history_answers': 380, 'as_parts': 140,
              'beam_answers': 80, 'refused': 8, 'files': 12,
              'repeats': 150, 'queries_as_tables': 100}

KINDS = ['tree', 'tree', 'op', 'op', 'nested', 'list', 'adj', 'jk', 'jk']


def case(rng, kinds=None, tables=True):
  """(spec, table in the database, split, table argument, rows it selects)."""
  kind = rng.choice(kinds or KINDS)
  where_p = rng.choice([0, .3])
  if kind == 'tree':
    nan = rng.choice([0, 0, .1])
    df = gen.table(rng, n=rng.choice([12, 20, 30]), rich=rng.random() < .5,
                   nan=nan, nan_cols=('x', 'y'), sql=True, index='any',
                   group_vals=rng.choice([2, 3]))
    s = c19.tree(rng, where_p, rng.choice(['robust', 'rich']))
    if nan and gen.kinds_in(s) & c19.PAIRWISE:
      raise Skip('pairs with missing values')
    split = gen.split(rng, sqlx.SPLITS)
  elif kind == 'adj':
    df = c20.adj_table(rng, rng.choice([40, 60]))
    s = c20.adj_spec(rng, where_p)
    split = c20.splits(rng, s, 1)
  elif kind == 'jk':
    df = c21.jk_table(rng)
    child = c21.jk_child(rng, df, where_p)
    s = {'k': 'Jackknife', 'unit': 'u', 'child': child,
         'where': gen.wheres(rng, where_p)}
    if rng.random() < .3:
      s['conf'] = rng.choice([.8, .95])
    gen.user_class(rng, s)
    split = c20.splits(rng, child)
  else:
    df = c20.a_table(rng)
    s = {'op': lambda: c20.op(rng, where_p),
         'nested': lambda: c20.nested_spec(rng, where_p),
         'list': lambda: c20.list_spec(rng, df, where_p)}[kind]()
    split = c20.splits(rng, s, 1 if kind == 'nested' else 2)
  if rng.random() < .2:
    gen.templated(rng, s, .6)
  c20.clean_names(s, split)
  table, mem, _ = (('T', df, 'name') if not tables or rng.random() < .5 else
                   sqlx.source(rng, df))
  settle(rng, kind, s, mem, split)
  return kind, s, df, split, table, mem


def settle(rng, kind, s, mem, split):
  if kind == 'jk':
    data = c21.jk_ready(s, mem, split, rng)
    if all(data.iloc[i]['u'].nunique() < 2
           for i in (gen.cells(data, split).values() if split else
                     [range(len(data))])):
      raise Skip('no standard error at all')
    if any(c21.flat(s, data[data['u'] != v], split) for v in set(data['u'])):
      raise Skip('covariates of a single stratum')
    if any(c19.infinite(s, data[data['u'] != v], split)
           for v in set(data['u'])):
      raise Skip('computed from a division by zero')
  else:
    c20.ready(s, mem, split, rng)
  if sqlx.twice(s):
    raise Skip('one value under two names: a known finding')
  if c19.infinite(s, mem, split):
    raise Skip('computed from a division by zero')


# -------------------------------------------------------------------- shapes


def shape_of(res):
  if isinstance(res, pd.DataFrame):
    return 'table'
  if isinstance(res, pd.Series):
    return 'series'
  if isinstance(res, (list, tuple)):
    return [shape_of(r) for r in res]
  return 'number'


def long_norm(res):
  """{(metric, dims...): values} and the order of the metrics."""
  n = cmpx.norm(res)
  if not n.names or n.names[0] != 'Metric':
    raise Violation('a long table has index %r' % (n.names,))
  return n


def melt(n):
  """The long form of a wide Norm (single level of columns)."""
  rows = []
  for j, c in enumerate(n.cols):
    for k, v in n.rows:
      rows.append(((c,) + tuple(k), [v[j]]))
  return cmpx.Norm(['Metric'] + list(n.names), ['Value'], rows)


def agree(ref, res, what, det, db, loose=False):
  tol = dict(rtol=1e-5, atol=1e-6) if loose else {}
  if isinstance(ref, (list, tuple)):
    for i, (a, b) in enumerate(zip(ref, res)):
      agree(a, b, '%s, item %d' % (what, i), det, db, loose)
    return
  if isinstance(ref, pd.Series) and not ref.index.names[0]:
    pass
  sqlx.check(ref, res, what, det, db, **tol)


ADDS_ROWS = {'Distribution', 'CumulativeDistribution', 'PercentChange',
             'AbsoluteChange', 'MH', 'PrePost', 'CUPED'}


def outer(s):
  """Whether some part puts results with different rows side by side."""
  if isinstance(s, dict):
    if s.get('k') in ('list', 'bin') and any(
        gen.kinds_in(c) & ADDS_ROWS
        for c in s.get('ch') or (s.get('a'), s.get('b'))):
      return True
    return any(outer(v) for v in s.values())
  return isinstance(s, (list, tuple)) and any(outer(v) for v in s)


def sorted_dims(res, split, what, det, melted):
  """Rows come in the order of the grouping columns."""
  if not split or not isinstance(res, (pd.DataFrame, pd.Series)):
    return
  if any(c not in res.index.names for c in split):
    return
  keys = list(zip(*[res.index.get_level_values(c) for c in split]))
  keys = [tuple(gen.plain(k) for k in key) for key in keys]
  if any(k != k or k is None for key in keys for k in key):
    return
  if melted:
    names = list(res.index.get_level_values(0))
    groups = {}
    for n, k in zip(names, keys):
      groups.setdefault(n, []).append(k)
    lists = list(groups.values())
  else:
    lists = [keys]
  for ks in lists:
    if ks != sorted(ks):
      raise Violation('%s: the rows are not ordered by %r: %r' % (
          what, split, ks[:8]), det)


# --------------------------------------------------------------------- forms


def forms(rng, kind, n):
  out = []
  for _ in range(n):
    f = {'mode': rng.choice([None, None, 'mixed', 'mixed']),
         'melted': rng.random() < .35, 'frame': rng.random() < .75,
         'pipe': rng.random() < .3, 'split_str': rng.random() < .3}
    if f['melted']:
      f['frame'] = True
    if kind == 'jk' and f['mode'] == 'mixed':
      f['batch'] = rng.choice([None, 1, 2, 3, 100])
      f['batch_by'] = rng.choice(['call', 'metric'])
      f['opt'] = rng.random() < .5
    out.append(f)
  return out


def make(s, f):
  spec = dict(s)
  if 'opt' in f:
    spec['opt'] = f['opt']
  m = gen.build(spec)
  if f.get('batch') and f.get('batch_by') == 'metric':
    m.sql_batch_size = f['batch']
  return m


def split_arg(f, split):
  if f.get('split_str') and len(split) == 1:
    return split[0]
  if not split and f.get('split_str'):
    return None
  return list(split)


def ask(m, f, table, split, db):
  arg = split_arg(f, split)
  before = copy.copy(arg)
  kw = dict(melted=f['melted'], mode=f['mode'])
  if not f['frame']:
    kw['return_dataframe'] = False
  if f.get('batch') and f.get('batch_by') == 'call':
    kw['batch_size'] = f['batch']
  if f['pipe']:
    res = m | M.compute_on_sql(table, arg, db.execute, **kw)
  else:
    res = m.compute_on_sql(table, arg, db.execute, **kw)
  if arg != before:
    raise Violation('compute_on_sql changed the grouping columns it was given: '
                    '%r to %r' % (before, arg))
  return res


def in_memory(m, f, mem, split):
  kw = dict(melted=f['melted'])
  if not f['frame']:
    kw['return_dataframe'] = False
  arg = split_arg(f, split)
  if f['pipe']:
    return m | M.compute_on(mem, arg, **kw)
  return m.compute_on(mem, arg, **kw)


def named(f):
  return ', '.join('%s=%s' % kv for kv in sorted(f.items()))


def fam_forms(rng, rec):
  """One question in several forms."""
  kind, s, df, split, table, mem = case(rng)
  det = {'spec': s, 'split_by': split, 'source': str(table),
         'table': gen.df_repr(df)}
  base = run(lambda: gen.build(s).compute_on(mem, list(split)), 'compute_on',
             det)
  wide = cmpx.norm(base)
  done = []
  for f in forms(rng, kind, rng.choice([2, 3, 4])):
    if kind == 'jk' and not f['frame']:
      f['frame'] = True
    f.pop('batch_by', 0) if not f.get('batch') else None
    d = dict(det, form=f)
    what = 'the answer to %s by %s with %s' % (gen.build(s).name, split,
                                               named(f))
    ref = run(lambda: in_memory(make(s, f), f, mem, split),
              'in memory: ' + what, d)
    db = sqlx.Run(df, rng.random())
    m = make(s, f)
    res = sqlx.call(lambda: ask(m, f, table, split, db), what, d, db)
    if shape_of(ref) != shape_of(res):
      raise Violation('%s is a %s, in memory a %s' % (
          what, shape_of(res), shape_of(ref)), d)
    agree(ref, res, what, d, db, kind == 'jk')
    if shape_of(ref) == 'series' and ref.name != res.name:
      raise Violation('%s is named %r, in memory %r' % (what, res.name,
                                                        ref.name), d)
    cat = any(isinstance(mem[c].dtype, pd.CategoricalDtype) for c in split)
    if not outer(d['spec']):
      sorted_dims(res, split, what, d, f['melted'])
      if not cat:
        sorted_dims(ref, split, 'in memory: ' + what, d, f['melted'])
    # The long form is the wide one, turned.
    if f['melted']:
      long = cmpx.norm(res)
      if not any(isinstance(c, tuple) for c in wide.cols):
        m1 = melt(wide)
        sqlx.check(cmpx.Norm(m1.names, long.cols, m1.rows), long,
                   'long form, ' + what, d, db, rtol=1e-5, atol=1e-6)
        order = [c for c in dict.fromkeys(k[0] for k, _ in long.rows)]
        exp = [c for c in wide.cols if c in order]
        if order != exp:
          raise Violation('%s lists the metrics as %r instead of %r' % (
              what, order, exp), d)
        rec.add('turned')
    rec.add('answers')
    rec.add('form_%s' % (f['mode'] or 'sql'))
    rec.add('melted', f['melted'])
    rec.add('pipelines', f['pipe'])
    rec.add('raw_%s' % shape_of(res) if isinstance(shape_of(res), str) else
            'raw_list', not f['frame'])
    rec.add('batched', bool(f.get('batch')))
    rec.add('queries', len(db.queries))
    done.append(named(f))
  rec.add('kind_' + kind)
  rec.trivial = not wide.rows
  rec.signature('forms', s, split, tuple(done), len(wide.rows))
  rec.sample = {'spec': s, 'split_by': split, 'forms': done}


def fam_history(rng, rec):
  """One metric object asked many things in a row."""
  kind, s, df, split, table, mem = case(rng, tables=False)
  m = gen.build(s)
  snap = c26.snapshot(m)
  steps = []
  for i in range(rng.choice([3, 4, 6])):
    f = forms(rng, kind, 1)[0]
    f['frame'] = True
    f.pop('opt', None)
    if f.get('batch'):
      f['batch_by'] = 'call'
    sub = split if rng.random() < .5 else split[:rng.choice([0, 1])]
    tab, mm, _ = ('T', df, 0) if rng.random() < .5 else sqlx.source(rng, df)
    s2 = copy.deepcopy(s)
    try:
      settle(rng, kind, s2, mm, sub)
    except Skip:
      continue
    if s2 != s:  # a filter had to go
      continue
    how = rng.choice(['sql', 'sql', 'memory', 'to_sql'])
    det = {'spec': s, 'split_by': sub, 'source': str(tab), 'form': f,
           'steps': list(steps), 'table': gen.df_repr(df)}
    what = 'after %r, the answer (%s) to %s by %s with %s' % (
        steps, how, m.name, sub, named(f))
    ref = run(lambda: in_memory(gen.build(s), f, mm, sub), 'in memory', det)
    db = sqlx.Run(df, rng.random())
    if how == 'sql':
      res = sqlx.call(lambda: ask(m, f, tab, sub, db), what, det, db)
      agree(ref, res, what, det, db, kind == 'jk')
    elif how == 'memory':
      res = run(lambda: in_memory(m, f, mm, sub), what, det)
      cmpx.check(ref, res, what, det)
    else:
      try:
        a = str(m.to_sql(tab, list(sub)))
      except NotImplementedError:
        continue
      b = str(gen.build(s).to_sql(tab, list(sub)))
      if a != b:
        raise Violation('%s: the query of a used metric differs from that of '
                        'a new one' % what, dict(det, a=a, b=b))
    rec.add('history_answers')
    steps.append('%s %s' % (how, f['mode']))
    if c26.snapshot(m) != snap:
      raise Violation('%s changed the metric from %r to %r' % (
          how, snap, c26.snapshot(m)), det)
  if steps:
    whole = rng.choice([lambda x: M.MetricList([x]), lambda x: x * 2,
                        lambda x: M.MetricList([x], name_tmpl='all {}')])
    det = {'spec': s, 'split_by': split, 'steps': steps,
           'table': gen.df_repr(df)}
    mode = rng.choice([None, None, 'mixed'])
    ref = None
    for o in (gen.build(s), m):
      db = sqlx.Run(df, 1)
      res = sqlx.call(lambda: whole(o).compute_on_sql(
          'T', list(split), db.execute, mode=mode),
                      'as a part of another metric, after %r' % steps, det, db)
      if ref is not None:
        sqlx.check(ref, res, 'as a part of another metric, after %r' % steps,
                   det, db)
      ref = res
    rec.add('as_parts')
  rec.trivial = len(steps) < 2
  rec.add('histories')
  rec.signature('history', s, split, tuple(steps))


def fam_query(rng, rec):
  """Making a query: repeatable, without effects, usable as a table."""
  kind, s, df, split, table, mem = case(rng)
  det = {'spec': s, 'split_by': split, 'source': str(table),
         'table': gen.df_repr(df)}
  m = gen.build(s)
  snap = c26.snapshot(m)
  src = str(table)
  arg = list(split)
  try:
    q = m.to_sql(table, arg)
  except NotImplementedError:
    raise Skip('not expressible in one query')
  except Exception as e:  # pylint: disable=broad-except
    raise Violation('to_sql raised %r' % e, det)
  text = str(q)
  det['query'] = text
  if arg != list(split) or str(table) != src:
    raise Violation('to_sql changed its arguments', det)
  if c26.snapshot(m) != snap:
    raise Violation('to_sql changed the metric from %r to %r' % (
        snap, c26.snapshot(m)), det)
  for name, again in (
      ('a second to_sql', lambda: str(m.to_sql(table, list(split)))),
      ('rendering again', lambda: str(q)),
      ('the pipeline form', lambda: str(m | M.to_sql(table, list(split)))),
      ('a new metric', lambda: str(gen.build(s).to_sql(table, list(split)))),
      ('a table given as text', lambda: str(m.to_sql(src, list(split))))):
    if name == 'a table given as text' and isinstance(table, S.Sql):
      continue
    if name == 'a new metric' and 'andom' in text:
      continue
    t2 = run(again, name, det)
    if t2 != text:
      raise Violation('%s gives another query' % name, dict(det, other=t2))
  rec.add('repeats')
  db = sqlx.Run(df, rng.random())
  ref = cmpx.norm(run(lambda: gen.build(s).compute_on(mem, list(split)),
                      'compute_on', det))
  res = sqlx.call(lambda: m.compute_on_sql(table, list(split), db.execute),
                  'compute_on_sql', det, db)
  if len(db.queries) != 1:
    raise Violation('compute_on_sql ran %d queries for what one query gives' %
                    len(db.queries), dict(det, queries=db.queries))
  if str(q) != text or c26.snapshot(m) != snap:
    raise Violation('compute_on_sql changed the query or the metric', det)
  # As a table.
  if kind == 'jk':
    rec.trivial = False
    rec.signature('query', s, split)
    return
  raw = sqlx.call(lambda: db.execute(text), 'the query itself', det, db)
  cols = list(raw.columns)
  want = list(q.groupby.add(q.columns).aliases) if False else None
  nums = [c for c in cols if pd.api.types.is_numeric_dtype(raw[c]) and
          raw[c].notna().all() and raw[c].abs().max() < 1e9]
  dims = [c for c in cols[:len(cols) - len(ref.cols)]]
  nums = [c for c in nums if c not in dims]
  if not nums or len(raw) == 0:
    raise Skip('nothing to aggregate')
  outer_by = [c for c in dims if rng.random() < .5 and raw[c].notna().all()]
  kids = []
  for c in rng.sample(nums, min(len(nums), 2)):
    kids.append(rng.choice([M.Sum, M.Mean, M.Max])(c))
    kids.append(M.Count(c))
  if rng.random() < .4 and not outer_by and raw[nums[0]].max() > 0:
    kids.append(M.Sum(nums[0], where='%s > 0' % nums[0]))
  w = None
  if rng.random() < .4:
    # Filters refer to what the query returns, not to what it reads.
    c = rng.choice(nums)
    v = float(raw[c].median())
    w = [w for w in ('%s >= %r' % (c, v), '%s > %r' % (c, v), '%s < %r' % (c, v))
         if len(raw.query(w)) and set(map(tuple, raw.query(w)[outer_by].values))
         == set(map(tuple, raw[outer_by].values))]
    w = rng.choice(w) if w else None
    if w:
      kids = [k for k in kids if not k.where]
  if w and rng.random() < .3:
    kids = [M.MetricList(kids, where=w)]
  elif w and rng.random() < .3:
    kids = [k * 2 for k in kids]
  outer = M.MetricList(kids, where=w)
  if rng.random() < .3 and len(dims) > len(outer_by):
    over = [d for d in dims if d not in outer_by][0]
    if raw[over].notna().all():
      outer = O.Distribution(over, M.Sum(nums[0]), where=w) if (
          raw[nums[0]].min() > .01) else outer
  as_table = rng.choice([q, text])
  det2 = dict(det, outer=outer.name, outer_by=outer_by)
  ref2 = run(lambda: copy.deepcopy(outer).compute_on(raw, list(outer_by)),
             'compute_on of the rows of the query', det2)
  db2 = sqlx.Run(df, rng.random())
  mode = rng.choice([None, 'mixed'])
  res2 = sqlx.call(lambda: outer.compute_on_sql(
      as_table, list(outer_by), db2.execute, mode=mode),
                   'compute_on_sql on a query', det2, db2)
  sqlx.check(ref2, res2, 'compute_on_sql on a query as %s' % (
      'an object' if as_table is q else 'text'), det2, db2, rtol=1e-6,
             atol=1e-7)
  if str(q) != text:
    raise Violation('using a query as a table changed it', det2)
  rec.add('queries_as_tables')
  rec.add('filtered_queries', w is not None)
  rec.trivial = False
  rec.signature('query', s, split, outer.name, tuple(outer_by), mode)


class Refused(Exception):
  """The executor does not want the query."""


def fam_beam(rng, rec):
  """compute_on_beam on a recording stand-in of Beam."""
  beam.install()
  if rng.random() < .12:
    return files(rng, rec)
  kind, s, df, split, _, mem = case(rng, tables=False)
  f = forms(rng, kind, 1)[0]
  if kind == 'jk':
    f['frame'] = True
  f.pop('batch_by', 0)
  det = {'spec': s, 'split_by': split, 'form': f, 'table': gen.df_repr(df)}
  what = 'compute_on_beam of %s by %s with %s' % (gen.build(s).name, split,
                                                  named(f))
  ref = run(lambda: in_memory(make(s, f), f, mem, split), 'in memory', det)
  db = sqlx.Run(df, rng.random(), name='PCOLLECTION')
  pcol = beam.PCollection()
  extra = rng.choice([None, None, {'dialect': 'zetasql'}])
  refuse = rng.random() < .15
  seen, labels = [], set()

  def execute(job):
    if not isinstance(job, beam.Applied) or job.pcol is not pcol:
      raise Violation(what + ': the executor got %r' % type(job), det)
    t = job.transform
    if t.label in labels or not t.label:
      raise Violation(what + ': a label of the pipeline is used twice or '
                      'missing: %r' % (t.label,), det)
    labels.add(t.label)
    if t.kwargs != (extra or {}):
      raise Violation(what + ': SqlTransform got %r instead of %r' % (
          t.kwargs, extra), det)
    seen.append(t.query)
    if refuse:
      raise Refused('no')
    return db.execute(t.query)

  m = make(s, f)
  kw = dict(melted=f['melted'], mode=f['mode'])
  if not f['frame']:
    kw['return_dataframe'] = False
  if f.get('batch'):
    kw['batch_size'] = f['batch']
  if extra or rng.random() < .3:
    kw['sql_transform_kwargs'] = extra
  arg = split_arg(f, split)
  one = (lambda p: m | M.compute_on_beam(p, arg, execute, **kw)) if (
      f['pipe']) else lambda p: m.compute_on_beam(p, arg, execute, **kw)
  if rng.random() < .1:
    try:
      one(rng.choice(['PCOLLECTION', df, None]))
    except ValueError:
      rec.add('not_a_collection')
    else:
      raise Violation(what + ': something else than a collection is taken',
                      det)
    if seen:
      raise Violation(what + ': queries on something else were run', det)
  try:
    res = sqlx.call(lambda: one(pcol), what, det, db)
  except Violation as v:
    if not refuse or not refused(v.__cause__ or v.__context__):
      raise
    rec.add('refused')
    rec.trivial = False
    rec.signature('beam', s, split, named(f), 'refused')
    return
  if refuse and kind != 'jk' and not whole_list(s):
    raise Violation(what + ': answers although no query succeeded', det)
  if refuse:
    raise Skip('failures are passed over')
  if shape_of(ref) != shape_of(res):
    raise Violation('%s is a %s, in memory a %s' % (
        what, shape_of(res), shape_of(ref)), det)
  if not seen:
    raise Violation(what + ': no query was run', det)
  agree(ref, res, what, det, db, kind == 'jk')
  if rng.random() < .3:
    # Again in the same pipeline, where every step needs a label of its own.
    res = sqlx.call(lambda: one(pcol), what + ' again', det, db)
    agree(ref, res, what + ' again', det, db, kind == 'jk')
    rec.add('beam_again')
  rec.add('beam_answers')
  rec.add('queries', len(seen))
  rec.trivial = not len(seen)
  rec.signature('beam', s, split, named(f))


def whole_list(s):
  return any(o.get('k') == 'list' for o in c20.spots(s))


def refused(e):
  while e is not None:
    if isinstance(e, Refused):
      return True
    e = e.__cause__ or e.__context__
  return False


def files(rng, rec):
  """pcollection_to_df_via_file_io gives all the rows of all the shards."""
  n = rng.choice([0, 1, 2, 7, 20])
  df = pd.DataFrame({'g': [rng.choice(['a', 'b c', 'x,"y"', 'n\nl'])
                           for _ in range(n)],
                     'i': [rng.randrange(-5, 99) for _ in range(n)],
                     'x': [rng.choice([.5, -2.25, 1e-9, 3e18, 0.1])
                           for _ in range(n)]})
  shards = rng.choice([1, 1, 2, 3, 5])
  name = rng.choice(['out', 'a b', 'x[1]', 'q?', '*', '-', 'ü'])
  with tempfile.TemporaryDirectory() as tmp:
    out = os.path.join(tmp, name)
    os.mkdir(out)
    for other in ('keep', 'Meterstick pcollection_to_df_via_file_io at 1-0',
                  'zz.csv'):
      with open(os.path.join(out, other), 'w') as fh:
        fh.write('g,i,x\nno,1,2\n')
    before = {f: open(os.path.join(out, f)).read() for f in os.listdir(out)}
    line = beam.Pipeline(shards)
    clean = rng.choice([True, False, None])
    kw = {} if clean is None else {'cleanup': clean}
    det = {'folder': name, 'shards': shards, 'rows': n, 'cleanup': clean}
    times = rng.choice([1, 1, 2])
    for _ in range(times):
      res = run(lambda: utils.pcollection_to_df_via_file_io(
          beam.Frame(df, line), line, out, **kw), 'reading back', det)
      a = sorted(map(tuple, df.values.tolist()))
      b = sorted(map(tuple, res[['g', 'i', 'x']].values.tolist()))
      if a != b or list(res.columns) != list(df.columns) or (
          list(res.index) != list(range(n))):
        raise Violation('rows read back are not those written: %r vs %r' % (
            a[:5], b[:5]), det)
    if line.runs != times or len(set(line.labels)) != len(line.labels):
      raise Violation('the pipeline ran %d times for %d collections with '
                      'labels %r' % (line.runs, times, line.labels), det)
    now = {f: open(os.path.join(out, f)).read() for f in os.listdir(out)}
    if {f: now.get(f) for f in before} != before:
      raise Violation('a file of somebody else was changed or removed', det)
    if clean and len(now) != len(before):
      raise Violation('files were left: %r' % sorted(now), det)
    if not clean and len(now) == len(before):
      raise Violation('the files were removed', det)
  rec.add('files')
  rec.trivial = not n
  rec.signature('files', n, shards, name, clean, times)


FAMILIES = [('forms', 6, fam_forms), ('history', 3, fam_history),
            ('query', 3, fam_query), ('beam', 2, fam_beam)]
