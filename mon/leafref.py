"""Textbook definitions of the built-in aggregates, on plain Python rows."""
from fractions import Fraction as Fr
import math

from mon.cmpx import ANY


def fr(v):
  return Fr(v)


def col(rows, c):
  return [r[c] for r in rows if r[c] is not None]


def fl(v):
  return None if v is None or v is ANY else float(v)


def sqrt(v):
  if v is None or v is ANY:
    return v
  if v < 0:
    return None
  return math.sqrt(v)


def var_(xs, ddof):
  n = len(xs)
  if n - ddof <= 0 or n == 0:
    return None
  m = sum(map(Fr, xs)) / n
  return sum((Fr(x) - m) ** 2 for x in xs) / (n - ddof)


def wcov(rows, a, b, ddof, aw=None, fw=None):
  """np.cov's definition over rows where everything is present."""
  need = [c for c in (a, b, aw, fw) if c]
  rs = [r for r in rows if all(r[c] is not None for c in need)]
  if not rs:
    return None
  A = [Fr(r[aw]) if aw else Fr(1) for r in rs]
  F = [Fr(r[fw]) if fw else Fr(1) for r in rs]
  W = [p * q for p, q in zip(A, F)]
  s = sum(W)
  if s == 0:
    return ANY
  ma = sum(w * Fr(r[a]) for w, r in zip(W, rs)) / s
  mb = sum(w * Fr(r[b]) for w, r in zip(W, rs)) / s
  num = sum(w * (Fr(r[a]) - ma) * (Fr(r[b]) - mb) for w, r in zip(W, rs))
  if aw:
    fact = s - ddof * sum(w * p for w, p in zip(W, A)) / s
  else:
    fact = s - ddof
  if fact < 0:
    return None
  if fact == 0:
    return ANY
  return num / fact


def quantile(xs, q, how):
  if not xs:
    return None
  xs = sorted(map(Fr, xs))
  pos = Fr(str(q)) * (len(xs) - 1)
  lo, frac = int(pos), pos - int(pos)
  hi = min(lo + 1, len(xs) - 1)
  eps = Fr(1, 10**9)
  if how == 'linear':
    return xs[lo] + (xs[hi] - xs[lo]) * frac
  if frac < eps or 1 - frac < eps:
    # The position is an integer up to float noise: every rule agrees, except
    # that the noise itself may push it over.
    if frac == 0 and how in ('lower', 'higher', 'midpoint', 'nearest'):
      near = {xs[lo], xs[max(lo - 1, 0)], xs[hi]}
      return xs[lo] if len(near) == 1 or q in (0, .25, .5, .75, 1) else ANY
    return ANY
  if how == 'lower':
    return xs[lo]
  if how == 'higher':
    return xs[hi]
  if how == 'midpoint':
    return (xs[lo] + xs[hi]) / 2
  if abs(frac - Fr(1, 2)) < eps:
    return ANY
  return xs[lo] if frac < Fr(1, 2) else xs[hi]


def wquantile(rows, v, w, q):
  """Weighted percentile, C = 1/2 (Wikipedia), clamped at the ends."""
  agg = {}
  for r in rows:
    if r[v] is None or r[w] is None:
      continue
    agg[Fr(r[v])] = agg.get(Fr(r[v]), 0) + Fr(r[w])
  if not agg:
    return None
  tot = sum(agg.values())
  if tot == 0:
    return ANY
  xs = sorted(agg)
  ps, cum = [], Fr(0)
  for x in xs:
    cum += agg[x]
    ps.append((cum - agg[x] / 2) / tot)
  q = Fr(str(q))
  if q <= ps[0]:
    return xs[0]
  if q >= ps[-1]:
    return xs[-1]
  for i in range(len(xs) - 1):
    if ps[i] <= q <= ps[i + 1]:
      if ps[i] == ps[i + 1]:
        return ANY
      return xs[i] + (xs[i + 1] - xs[i]) * (q - ps[i]) / (ps[i + 1] - ps[i])
  raise AssertionError


def rank(xs):
  order = sorted(range(len(xs)), key=lambda i: xs[i])
  out = [None] * len(xs)
  i = 0
  while i < len(order):
    j = i
    while j + 1 < len(order) and xs[order[j + 1]] == xs[order[i]]:
      j += 1
    for k in range(i, j + 1):
      out[order[k]] = Fr(i + j, 2)
    i = j + 1
  return out


def kendall(a, b):
  n = len(a)
  c = d = ta = tb = 0
  for i in range(n):
    for j in range(i):
      s, t = (a[i] > a[j]) - (a[i] < a[j]), (b[i] > b[j]) - (b[i] < b[j])
      if s * t > 0:
        c += 1
      elif s * t < 0:
        d += 1
      elif s == 0 and t == 0:
        pass
      elif s == 0:
        ta += 1
      else:
        tb += 1
  den = (c + d + ta) * (c + d + tb)
  return ANY if den == 0 else (c - d) / math.sqrt(den)


def corr(rows, a, b, method='pearson', w=None):
  rs = [r for r in rows if r[a] is not None and r[b] is not None and
        (w is None or r[w] is not None)]
  if not rs:
    return None
  if method == 'kendall':
    if len(rs) == 1:
      return ANY
    return kendall([r[a] for r in rs], [r[b] for r in rs])
  if method == 'spearman':
    ra, rb = rank([r[a] for r in rs]), rank([r[b] for r in rs])
    rs = [{a: p, b: q, w: r.get(w)} for p, q, r in zip(ra, rb, rs)]
    if a == b:
      rs = [{a: p} for p in ra]
  va, vb = wcov(rs, a, a, 0, w), wcov(rs, b, b, 0, w)
  if ANY in (va, vb) or not va or not vb:
    return ANY
  return float(wcov(rs, a, b, 0, w)) / math.sqrt(va * vb)


def evaluate(s, rows):
  """List of the values of leaf spec `s` on `rows` (filters already applied)."""
  v = _evaluate(s, rows)
  v = v if isinstance(v, list) else [v]
  return [float(x) if isinstance(x, Fr) else x for x in v]


def _evaluate(s, rows):
  k, x = s['k'], s['var']
  y, w = s.get('var2'), s.get('weight', 'w')
  if k == 'Sum':
    return sum(map(Fr, col(rows, x)))
  if k == 'Count':
    return float(len(col(rows, x)))
  if k == 'CountD':
    return float(len(set(col(rows, x))))
  if k == 'Mean':
    xs = col(rows, x)
    return sum(map(Fr, xs)) / len(xs) if xs else None
  if k in ('Max', 'Min'):
    xs = col(rows, x)
    return (max(xs) if k == 'Max' else min(xs)) if xs else None
  if k in ('Dot', 'DotN'):
    ps = [Fr(r[x]) * Fr(r[y]) for r in rows
          if r[x] is not None and r[y] is not None]
    if k == 'Dot':
      return sum(ps, Fr(0))
    return sum(ps) / len(ps) if ps else None
  if k == 'WMean':
    rs = [r for r in rows if r[x] is not None and r[w] is not None]
    tot = sum(Fr(r[w]) for r in rs)
    if not rs:
      return None
    if tot == 0:
      return ANY
    return sum(Fr(r[w]) * Fr(r[x]) for r in rs) / tot
  if k in ('Variance', 'StandardDeviation', 'CV'):
    xs = col(rows, x)
    v = var_(xs, 1 if s.get('unbiased', True) else 0)
    if k == 'Variance' or v is None:
      return v
    if k == 'StandardDeviation':
      return sqrt(v)
    m = sum(map(Fr, xs)) / len(xs)
    return ANY if m == 0 else sqrt(v) / float(m)
  if k in ('WVariance', 'WSD'):
    # Frequency-like weights: denominator sum(w) - ddof.
    rs = [r for r in rows if r[x] is not None and r[w] is not None]
    ddof = 1 if s.get('unbiased', True) else 0
    tot = sum((Fr(r[w]) for r in rs), Fr(0))
    if not rs:
      return None
    if tot - ddof < 0:
      return None
    if tot - ddof == 0:
      return ANY
    m = sum(Fr(r[w]) * Fr(r[x]) for r in rs) / tot
    v = sum(Fr(r[w]) * (Fr(r[x]) - m) ** 2 for r in rs) / (tot - ddof)
    if k == 'WVariance':
      return v
    return ANY if v == 0 else sqrt(v)
  if k in ('Cov', 'WCov', 'FCov'):
    ddof = s.get('ddof')
    if ddof is None:
      ddof = 0 if s.get('bias') else 1
    aw = w if k == 'WCov' else None
    fw = s.get('fweight', 'f') if k == 'FCov' else s.get('fweight')
    return wcov(rows, x, y, ddof, aw, fw if k != 'Cov' else None)
  if k == 'Correlation':
    return corr(rows, x, y, s.get('method', 'pearson'))
  if k == 'WCorr':
    return corr(rows, x, y, w=w)
  if k == 'Quantile':
    q = s['quantile']
    qs = q if isinstance(q, list) else [q]
    return [quantile(col(rows, x), p, s.get('interpolation', 'linear'))
            for p in qs]
  if k == 'WQuantile':
    q = s['quantile']
    qs = q if isinstance(q, list) else [q]
    return [wquantile(rows, x, w, p) for p in qs]
  if k == 'Nth':
    rs = list(rows)
    if s.get('dropna'):
      rs = [r for r in rs if r[x] is not None]
    n, asc = s['n'], s.get('ascending', True)
    if n < 0:
      n, asc = -n - 1, not asc
    rs.sort(key=lambda r: r[s['sort_by']], reverse=not asc)
    return rs[n][x] if n < len(rs) else None
  raise ValueError(k)


def columns(s):
  """The documented column titles of a leaf (default names)."""
  k, x, y = s['k'], s['var'], s.get('var2')
  w = s.get('weight', 'w')
  if s.get('name'):
    if not (k in ('Quantile', 'WQuantile') and isinstance(s['quantile'], list)
            and len(s['quantile']) > 1):
      return [s['name']]
  if k in ('Sum', 'Count', 'Mean', 'Max', 'Min'):
    return ['%s(%s)' % (k.lower(), x)]
  if k == 'CountD':
    return ['count(distinct %s)' % x]
  if k in ('Dot', 'DotN'):
    return ['%s(%s * %s)' % ('mean' if k == 'DotN' else 'sum', x, y)]
  if k == 'WMean':
    return ['%s-weighted mean(%s)' % (w, x)]
  base = {'Variance': 'var', 'StandardDeviation': 'sd', 'CV': 'cv'}
  if k in base:
    return ['%s(%s)' % (base[k], x)]
  if k in ('WVariance', 'WSD'):
    return ['%s-weighted %s(%s)' % (w, 'var' if k == 'WVariance' else 'sd', x)]
  if k == 'Cov':
    return ['cov(%s, %s)' % (x, y)]
  if k == 'WCov':
    base = '%s-weighted cov(%s, %s)' % (w, x, y)
    return [('%s-fweighted ' % s['fweight'] if s.get('fweight') else '') + base]
  if k == 'FCov':
    return ['%s-fweighted cov(%s, %s)' % (s.get('fweight', 'f'), x, y)]
  if k == 'Correlation':
    return ['corr(%s, %s)' % (x, y)]
  if k == 'WCorr':
    return ['%s-weighted corr(%s, %s)' % (w, x, y)]
  if k in ('Quantile', 'WQuantile'):
    q = s['quantile']
    pre = '%s-weighted ' % w if k == 'WQuantile' else ''
    if not isinstance(q, list):
      return ['%squantile(%s, %s)' % (pre, x, q)]
    if len(q) == 1:
      return None
    if any(isinstance(p, float) for p in q):
      q = [float(p) for p in q]
    return ['%squantile(%s, %s)' % (pre, x, p) for p in q]
  return None
