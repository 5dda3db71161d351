"""Exact reference distribution of bootstrap replicates and statistical checks."""
import itertools
import math

import numpy as np
import pandas as pd

from mon import cmpx, gen
from mon.cmpx import ANY
from mon.core import Skip, Violation

LOG_TERM = math.log(2 / 1e-10)   # false alarm probability 1e-10 per comparison


def multinomial_draws(n):
  """All count vectors of n draws with replacement from n units."""
  for c in itertools.combinations_with_replacement(range(n), n):
    k = [c.count(i) for i in range(n)]
    p = math.factorial(n) / n ** n
    for v in k:
      p /= math.factorial(v)
    yield k, p


def poisson_draws(n, top):
  pm = [math.exp(-1) / math.factorial(k) for k in range(top + 1)]
  for k in itertools.product(range(top + 1), repeat=n):
    p = 1.0
    for v in k:
      p *= pm[v]
    if p > 1e-7:
      yield list(k), p


def n_draws(method, n):
  if method == 'Bootstrap':
    return math.comb(2 * n - 1, n)
  return 8 ** n


def blocks_of(data, split, unit):
  """{slice: [[positions of one unit], ...]}"""
  u = data[unit].tolist() if unit else None
  out = {}
  for sl, pos in gen.cells(data, split).items():
    if unit is None:
      out[sl] = [[i] for i in pos]
    else:
      d = {}
      for i in pos:
        d.setdefault(u[i], []).append(i)
      out[sl] = list(d.values())
  return out


def exact_rows(data, split, unit, method, child_spec, top=7, empty=True):
  """{row key: [per column list of (value, probability)]} over all draws."""
  child = gen.build(child_spec)
  blocks = blocks_of(data, split, unit)
  draws = poisson_draws if method != 'Bootstrap' else (
      lambda n, _: multinomial_draws(n))
  out = {}
  base = data.reset_index(drop=True)
  if not split:
    bl = blocks[()]
    for k, p in draws(len(bl), top):
      pos = [i for c, b in zip(k, bl) for _ in range(c) for i in b]
      if not pos and not empty:
        continue
      try:
        r = cmpx.norm(child.compute_on(base.iloc[pos].reset_index(drop=True)))
      except Exception:  # pylint: disable=broad-except
        continue   # a failing replicate is dropped by contract
      for key, vs in r.rows:
        tgt = out.setdefault(key, [[] for _ in vs])
        for t, v in zip(tgt, vs):
          if v is not None:
            t.append((v, p))
    return out
  frames, probs, rep = [], [], 0
  for sl, bl in blocks.items():
    for k, p in draws(len(bl), top):
      pos = [i for c, b in zip(k, bl) for _ in range(c) for i in b]
      if not pos:
        continue
      f = base.iloc[pos].copy()
      f['_rep'] = rep
      frames.append(f)
      probs.append(p)
      rep += 1
  stack = pd.concat(frames, ignore_index=True)
  try:
    r = cmpx.norm(child.compute_on(stack, ['_rep'] + list(split)))
  except KeyError:
    raise Skip('no baseline')
  for key, vs in r.rows:
    tgt = out.setdefault(key[1:], [[] for _ in vs])
    for t, v in zip(tgt, vs):
      if v is not None:
        t.append((v, probs[key[0]]))
  return out


def check_se(pairs, se, n, what, det):
  """Is se a plausible spread of n draws of the exact distribution pairs?"""
  if any(isinstance(v, float) and math.isinf(v) for v, _ in pairs):
    return None
  tot = sum(p for _, p in pairs)
  m_eff = n * tot
  if m_eff < 60:
    return None
  mu = sum(v * p for v, p in pairs) / tot
  dev = [((v - mu) ** 2, p / tot) for v, p in pairs]
  var = sum(d * p for d, p in dev)
  scale = max(abs(v) for v, _ in pairs)
  if var <= (1e-9 * max(scale, 1e-9)) ** 2 * 100:
    if se is None or not se <= 1e-6 * max(1, scale):
      raise Violation('%s: standard error %r of a statistic that no resample '
                      'changes' % (what, se), det)
    return 'constant'
  m4 = sum(d * d * p for d, p in dev)
  b = max(d for d, _ in dev)
  v4 = max(0.0, m4 - var * var)
  # The number of non-missing replicates is itself random.
  m = max(2.0, m_eff - math.sqrt(2 * LOG_TERM * n * tot * (1 - tot)) - (
      LOG_TERM if tot < 1 else 0))
  lo = LOG_TERM * b / 3
  t = (lo + math.sqrt(lo * lo + 2 * m * LOG_TERM * v4)) / m
  # Replacing the mean by the sample mean costs at most its own deviation^2.
  t += var * (2 * LOG_TERM + 2) / m
  if se is None:
    raise Violation('%s: no standard error although %d%% of the resamples have '
                    'a value' % (what, 100 * tot), det)
  if abs(se * se - var) > t:
    raise Violation('%s: standard error %r, the exact resampling distribution '
                    'has %r (tolerance on the variance %.3g, variance %.6g)' % (
                        what, se, math.sqrt(var), t, var), det)
  return 'tight' if t < var * .6 else 'loose'
