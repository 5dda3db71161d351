"""Shared parts of the monitors that execute generated SQL."""
import itertools
import re

import pandas as pd

from mon import bq, cmpx, gen
from mon.core import Inconclusive, Skip, Violation

SPLITS = ('g', 'h', 'c', 'b', 'd', 's', 's2')


def to_db(df):
  """The table as stored in the database: no index, no categoricals."""
  df = df.reset_index(drop=True).copy()
  for c in df:
    if isinstance(df[c].dtype, pd.CategoricalDtype):
      df[c] = df[c].astype(object)
  return df


def leaves(s, fs=(), by=()):
  """(leaf spec, filters on its path, columns operations split it by)."""
  if not isinstance(s, dict):
    return
  fs = list(fs) + list(s.get('where') or [])
  by = list(by)
  for k in ('over', 'cond', 'strat', 'gb'):
    v = s.get(k)
    if v is None:
      continue
    by += [c for c in ([v] if isinstance(v, str) else list(v)) if c not in by]
  kids = [s.get(k) for k in ('child', 'a', 'b', 'y')]
  for k in ('ch', 'cov', 'x'):
    if isinstance(s.get(k), (list, tuple)):
      kids += list(s[k])
  kids = [c for c in kids if isinstance(c, dict)]
  if not kids:
    yield s, fs, by
  for c in kids:
    yield from leaves(c, fs, by)


RESAMPLING = ('Jackknife', 'Bootstrap', 'PoissonBootstrap')
MEASURES = ('var', 'var2')


def loo_fed(s, df, split, unit):
  """Whether leaving one unit out never leaves a leaf without data in a cell
  that still has rows."""
  rows = gen.rows_of(df)
  lv = list(leaves(s))
  if not lv:
    return True
  # Filters below a resampling operation select the data of the leaves only.
  common = list(s.get('where') or []) if s['k'] in RESAMPLING else [
      f for f in lv[0][1] if all(f in fs for _, fs, _ in lv)]
  base = [r for r in rows if all(gen.feval(f, r) for f in common)]
  for lf, fs, by in lv:
    on = list(dict.fromkeys(list(split) + by))
    seen = {}
    for r in base:
      d = seen.setdefault(tuple(r[c] for c in on), {})
      d.setdefault(r[unit], 0)
      if all(gen.feval(f, r) for f in fs) and all(
          r.get(lf[m], 0) is not None for m in MEASURES if lf.get(m)):
        d[r[unit]] += 1
    for d in seen.values():
      if len(d) > 1 and sum(v > 0 for v in d.values()) < 2:
        return False
  return True


def fed(s, df, split, need=1, cols=None):
  """Whether every leaf has data in every slice of the rows the query reads."""
  rows = gen.rows_of(df)
  lv = list(leaves(s))
  if not lv:
    return True
  # Filters below a resampling operation select the data of the leaves only.
  common = list(s.get('where') or []) if s['k'] in RESAMPLING else [
      f for f in lv[0][1] if all(f in fs for _, fs, _ in lv)]
  base = [r for r in rows if all(gen.feval(f, r) for f in common)]
  if not base:
    return False
  for lf, fs, by in lv:
    on = list(dict.fromkeys(list(split) + by))
    seen = {}
    for r in base:
      k = tuple(r[c] for c in on)
      seen.setdefault(k, 0)
      if all(gen.feval(f, r) for f in fs) and all(
          r.get(lf[m], 0) is not None for m in MEASURES if lf.get(m)):
        seen[k] += 1
    if any(v < need for v in seen.values()):
      return False
  return True


def columns_of(s, fs=()):
  """What each column of a metric computes, regardless of names."""
  fs = list(fs) + [gen.ftext(f) for f in s.get('where') or []]
  k = s['k']
  rec = lambda c: columns_of(c, fs) if isinstance(c, dict) else [repr(c)]
  if k == 'list':
    return [c for ch in s['ch'] for c in rec(ch)]
  if k == 'neg':
    return ['-(%s)' % c for c in rec(s['a'])]
  if k == 'Ratio':
    s = {'k': 'bin', 'op': '/', 'a': {'k': 'Sum', 'var': s['var']},
         'b': {'k': 'Sum', 'var': s['var2']}}
    k = 'bin'
  if k == 'bin':
    a, b = rec(s['a']), rec(s['b'])
    n = max(len(a), len(b))
    return ['(%s) %s (%s)' % (x, s['op'], y) for x, y in zip(
        a * n if len(a) == 1 else a, b * n if len(b) == 1 else b)]
  if 'child' in s or k == 'Model':
    return ['%s#%s' % (s, c) for c in (rec(s['child']) if 'child' in s else [0])]
  d = {a: b for a, b in s.items() if a not in ('where', 'name')}
  if 'ddof' in d or 'bias' in d:
    if d.get('ddof') is None:
      d['ddof'] = 0 if d.get('bias') else 1
    d.pop('bias', None)
  if k == 'Nth' and d['n'] < 0:
    d.update(n=-d['n'] - 1, ascending=not d['ascending'])
  out = []
  qs = d.get('quantile')
  for q in qs if isinstance(qs, list) else [qs]:
    out.append(repr(sorted(dict(d, quantile=q).items(), key=str)) + repr(
        sorted(set(fs))))
  return out


def twice(s, fs=()):
  """Whether a list computes the same value twice (see known findings)."""
  if not isinstance(s, dict):
    return False
  fs = list(fs) + [gen.ftext(f) for f in s.get('where') or []]
  if s['k'] == 'list':
    cols = [c for ch in s['ch'] for c in columns_of(ch, fs)]
    if len(set(cols)) < len(cols):
      return True
  if s['k'] == 'bin' and any(isinstance(s[c], dict) for c in 'ab'):
    cols = columns_of(dict(s, where=[]), fs)
    if len(set(cols)) < len(cols):
      return True
  kids = [s.get(k) for k in ('child', 'a', 'b', 'y')]
  for k in ('ch', 'cov', 'x'):
    if isinstance(s.get(k), (list, tuple)):
      kids += list(s[k])
  return any(twice(c, fs) for c in kids)


# Names of tables which contain the keywords that queries begin with.
ODD_TABLES = ('selected_rows', 'SELECTION', 'withdrawn', 'T WITH x', 'select all')


class Run:
  """One database with its recorded queries."""

  def __init__(self, df, seed, name='T', log=None, more=None):
    names = [name] + (list(ODD_TABLES) if name == 'T' else [])
    self.db = bq.database(dict({n: to_db(df) for n in names}, **(more or {})),
                          seed=seed, log=log)

  @property
  def queries(self):
    return self.db.queries

  def execute(self, text):
    return self.db.execute(text)


def call(fn, what, det, run=None, mech=None):
  """Calls fn; a query the database rejects is a violation."""
  def d():
    out = dict(det)
    if run is not None:
      out['queries'] = '\n----\n'.join(run.queries[-6:])
    return out
  try:
    return fn()
  except bq.Unsupported as e:
    raise Inconclusive('interpreter: %s' % e)
  except bq.SqlError as e:
    raise Violation('%s: the database rejects the query: %s' % (
        what, str(e)[:250]), d(), mech)
  except (Violation, Skip, Inconclusive):
    raise
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    cause = e
    while cause is not None:
      if isinstance(cause, bq.Unsupported):
        raise Inconclusive('interpreter: %s' % cause)
      if isinstance(cause, (Violation, Skip, Inconclusive)):
        raise cause
      if isinstance(cause, bq.SqlError):
        raise Violation('%s: the database rejects the query: %s' % (
            what, str(cause)[:250]), d(), mech)
      cause = cause.__cause__ or cause.__context__
    out = d()
    root = e
    while root.__cause__ is not None:
      root = root.__cause__
    out['traceback'] = '\n'.join(''.join(traceback.format_exception(
        root)).splitlines()[-14:])
    raise Violation('%s raised %s: %s' % (what, type(e).__name__, str(e)[:200]),
                    out, mech)


def check(mem, res, what, det, run=None, mech=None, **kw):
  kw.setdefault('inf_is_missing', True)
  kw.setdefault('ignore_missing_rows', True)
  d = cmpx.diff(mem, res, **kw)
  if d:
    out = dict(det)
    out.update(in_memory=cmpx.norm(mem).dump(), sql=cmpx.norm(res).dump())
    if run is not None:
      out['queries'] = '\n----\n'.join(run.queries[-6:])
    raise Violation('%s: %s' % (what, d), out, mech)


def unquote(n):
  """A Norm with backquotes removed from the names."""
  n = cmpx.norm(n)
  f = lambda v: v.replace('`', '') if isinstance(v, str) else (
      tuple(map(f, v)) if isinstance(v, tuple) else v)
  return cmpx.Norm([f(v) for v in n.names], [f(v) for v in n.cols], n.rows)


# ------------------------------------------------------------- table sources


def source(rng, df, filters=True):
  """(table argument, in-memory table, kind) with the same content."""
  from meterstick import sql as S  # pylint: disable=g-import-not-at-top
  kind = rng.choice(['name', 'name', 'select', 'with', 'where', 'sql', 'nested',
                     'data', 'bt', 'lower', 'calc', 'odd'])
  f = gen.filt(rng, 1, ['i', 'f', 'w'], sql=True)
  pos = gen.fmask([f], df)
  text = gen.ftext(f).replace('==', '=')
  sub = df.iloc[pos]
  if not pos:
    kind = 'name'
  if kind == 'name':
    return 'T', df, kind
  if kind == 'bt':
    return '`T`', df, kind
  if kind == 'odd':
    t = rng.choice(ODD_TABLES)
    return '`%s`' % t if ' ' in t else t, df, kind
  if kind == 'select':
    return 'SELECT * FROM T', df, kind
  if kind == 'lower':
    return '\n  select * from T\n  where %s' % text, sub, kind
  if kind == 'with':
    return ('WITH A AS (SELECT * FROM T),\nB AS (SELECT * FROM A WHERE %s)\n'
            'SELECT * FROM B' % text), sub, kind
  if kind == 'where':
    return 'SELECT * FROM T WHERE %s' % text, sub, kind
  if kind == 'sql':
    return S.Sql(None, 'T', gen.ftext(f)), sub, kind
  if kind == 'nested':
    return S.Sql(None, S.Sql(None, 'T', gen.ftext(f))), sub, kind
  if kind == 'data':  # uses the names the generator likes to use itself
    return ('WITH Data AS (SELECT * FROM T WHERE %s) SELECT * FROM Data' % text,
            sub, kind)
  return ('SELECT * EXCEPT (x), x + 0 AS x FROM T WHERE %s OR FALSE' % text,
          sub, kind)
