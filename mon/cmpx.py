"""Canonical forms of results and comparisons between them."""
import math

import numpy as np
import pandas as pd

from mon.core import Violation
from mon.gen import plain

RTOL, ATOL = 1e-7, 1e-8


class _Any:
  def __repr__(self):
    return 'ANY'


ANY = _Any()


def keyval(v):
  """Canonical form of an index label."""
  v = plain(v)
  if isinstance(v, bool):
    return v
  if isinstance(v, float) and v == int(v):
    return int(v)
  if isinstance(v, pd.Timestamp):
    return str(v)
  if hasattr(v, 'isoformat'):
    return str(pd.Timestamp(v))
  return v


def val(v):
  v = plain(v)
  if v is None or isinstance(v, (str, bool)):
    return v
  if isinstance(v, pd.Timestamp) or hasattr(v, 'isoformat'):
    return str(pd.Timestamp(v))
  try:
    f = float(v)
  except (TypeError, ValueError):
    return v
  return None if math.isnan(f) else f


class Norm:
  """index names, ordered keys, columns and {key: {col: value}}."""

  def __init__(self, names, cols, rows):
    self.names, self.cols, self.rows = names, cols, rows  # rows: list[(key, [vals])]

  @property
  def d(self):
    return dict(self.rows)

  def keys(self):
    return [k for k, _ in self.rows]

  def dump(self, n=40):
    out = ['index=%r columns=%r' % (self.names, self.cols)]
    out += ['%r: %r' % kv for kv in self.rows[:n]]
    return '\n'.join(out)


def norm(res, drop_unnamed=True):
  """Canonicalises a number / Series / DataFrame result (wide)."""
  if isinstance(res, Norm):
    return res
  if isinstance(res, pd.Series):
    res = res.to_frame()
  if not isinstance(res, pd.DataFrame):
    return Norm([], ['value'], [((), [val(res)])])
  names = list(res.index.names)
  cols = [tuple(map(keyval, c)) if isinstance(c, tuple) else c
          for c in res.columns]
  if len(names) == 1 and names[0] is None and len(res) == 1:
    keys = [()]
    names = []
  elif len(names) == 1:
    keys = [(keyval(k),) for k in res.index]
  else:
    keys = [tuple(map(keyval, k)) for k in res.index]
  rows = [(k, [val(v) for v in r])
          for k, r in zip(keys, res.itertuples(index=False, name=None))]
  return Norm(names, cols, rows)


def close(a, b, rtol=RTOL, atol=ATOL):
  if a is ANY or b is ANY:
    return True
  if a is None or b is None:
    return a is b
  if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
    if isinstance(a, bool) and not isinstance(b, str):
      return float(a) == float(b)
    if isinstance(b, bool) and not isinstance(a, str):
      return float(a) == float(b)
    return a == b
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def fuzzy_missing(a, b):
  """None vs +/-inf vs None all treated as 'no value'."""
  na = a is None or (isinstance(a, float) and math.isinf(a))
  nb = b is None or (isinstance(b, float) and math.isinf(b))
  return na and nb


def diff(a, b, rtol=RTOL, atol=ATOL, cols=True, order=False, names=True,
         inf_is_missing=False, tiny=0.0, ignore_missing_rows=False,
         inf_sign=True):
  """None when equal, else a description. a, b: Norm-able."""
  a, b = norm(a), norm(b)
  if names and a.names != b.names:
    return 'index names differ: %r vs %r' % (a.names, b.names)
  if cols and a.cols != b.cols:
    return 'columns differ: %r vs %r' % (a.cols, b.cols)
  if not cols and len(a.cols) != len(b.cols):
    return 'number of columns differ: %r vs %r' % (a.cols, b.cols)
  ka, kb = a.keys(), b.keys()
  if len(set(ka)) != len(ka) or len(set(kb)) != len(kb):
    if sorted(map(repr, ka)) != sorted(map(repr, kb)):
      return 'duplicated keys: %r vs %r' % (ka, kb)
    if ka != kb:
      return 'duplicated keys in a different order'
  if order and ka != kb:
    return 'row order differs: %r vs %r' % (ka, kb)
  da, db = dict(a.rows), dict(b.rows)
  if ignore_missing_rows:
    nodata = lambda vs: all(v is None or v is ANY for v in vs)
    only = ([k for k in da if k not in db and not nodata(da[k])],
            [k for k in db if k not in da and not nodata(db[k])])
  else:
    only = ([k for k in da if k not in db], [k for k in db if k not in da])
  if only[0] or only[1]:
    return 'slices differ: only left %r, only right %r' % (only[0][:5],
                                                           only[1][:5])
  for k in da:
    if k not in db:
      continue
    for i, (x, y) in enumerate(zip(da[k], db[k])):
      if close(x, y, rtol, atol):
        continue
      if inf_is_missing and fuzzy_missing(x, y):
        continue
      if not inf_sign and isinstance(x, float) and isinstance(
          y, float) and math.isinf(x) and math.isinf(y):
        continue
      if tiny:
        x0 = 0.0 if x is None else x
        y0 = 0.0 if y is None else y
        if (isinstance(x0, float) and isinstance(y0, float) and
            abs(x0) <= tiny and abs(y0) <= tiny):
          continue
      return 'slice %r column %r: %r vs %r' % (k, a.cols[i], x, y)
  return None


def check(a, b, what, detail=None, mech=None, **kw):
  d = diff(a, b, **kw)
  if d:
    det = dict(detail or {})
    det.update(left=norm(a).dump(), right=norm(b).dump())
    raise Violation('%s: %s' % (what, d), det, mech)


def run(fn, what, detail=None, mech=None):
  """Calls fn; an exception on a valid input is a violation."""
  try:
    return fn()
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    tb = traceback.format_exc().splitlines()
    det = dict(detail or {})
    det['traceback'] = '\n'.join(tb[-12:])
    raise Violation('%s raised %s: %s' % (what, type(e).__name__, str(e)[:200]),
                    det, mech)
