"""Shared vocabulary of the monitors: verdicts and per-case recorders."""
import collections
import hashlib
import json


class Violation(Exception):
  """The oracle observed a behaviour the property forbids."""

  def __init__(self, what, detail=None, mech=None):
    super().__init__(what)
    self.what = what
    self.detail = detail or {}
    self.mech = mech


class Inconclusive(Exception):
  """The case could not be decided (outside the decidable domain)."""


class Skip(Exception):
  """The generated case falls outside the property's domain; not counted."""


class Rec:
  """Collects what one case actually observed."""

  def __init__(self):
    self.counts = collections.Counter()
    self.sig = None
    self.trivial = False
    self.sample = None

  def add(self, key, n=1):
    self.counts[key] += n

  def signature(self, *parts):
    self.sig = hashlib.md5(
        json.dumps(parts, sort_keys=True, default=str).encode()).hexdigest()[:16]
