"""Reads the formatted display back and compares it with a reference."""
import math
import re

import pandas as pd

from mon import cmpx
from mon.core import Violation


def texts(html):
  """The visible pieces of a cell, in order."""
  return [t for t in re.split(r'<[^>]*>', str(html)) if t.strip()]


def mark(html):
  good = 'ci-display-good-change' in html
  bad = 'ci-display-bad-change' in html
  return 'both' if good and bad else 'good' if good else 'bad' if bad else ''


def missing(v):
  return v is None or (isinstance(v, float) and math.isnan(v))


FORMS = {'percent': ('{:.2f}', '%'), 'absolute': ('{:.4f}', ''),
         'pp': ('{:.2f}', 'pp')}


def fmt(v, form):
  f, unit = FORMS.get(form, (form, ''))
  return 'N/A' if missing(v) else f.format(v) + unit


def fmt_ci(lo, hi, form):
  f, unit = FORMS.get(form, (form, ''))
  a = ['N/A' if missing(v) else f.format(v) for v in (lo, hi)]
  return '[%s, %s]%s' % (a[0], a[1], ' ' + unit if unit else '')


def expected_cell(cell, formats, flip, hide_null):
  """(visible pieces, mark) of a cell given (value, ratio, lo, hi)."""
  if cell is None:
    return ['N/A'], ''
  value, ratio, lo, hi = cell
  vf = formats.get('Value', 'absolute')
  rf = formats.get('Ratio', 'absolute')
  if vf == 'percent' and not missing(value):
    value = value * 100.0
  vs = fmt(value, vf)
  if missing(ratio):
    return [vs], ''
  out = []
  if missing(value):
    if not hide_null:
      out.append('-')
  else:
    out.append(vs)
  out += [fmt(ratio, rf), fmt_ci(lo, hi, rf)]
  m = ''
  if not missing(lo) and lo > 0:
    m = 'bad' if flip else 'good'
  elif not missing(hi) and hi < 0:
    m = 'good' if flip else 'bad'
  return out, m


def same_text(a, b):
  """Equal pieces, up to the last printed digit of rounding."""
  if a == b:
    return True
  num = r'-?\d+(?:\.\d+)?'
  if len(a) != len(b):
    return False
  for x, y in zip(a, b):
    if x == y:
      continue
    if re.sub(num, '#', x) != re.sub(num, '#', y):
      return False
    for p, q in zip(re.findall(num, x), re.findall(num, y)):
      if len(p.partition('.')[2]) != len(q.partition('.')[2]):
        return False
      if abs(float(p) - float(q)) > 1.01 * 10 ** -len(p.partition('.')[2]):
        return False
  return True
