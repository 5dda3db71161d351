"""A stand-in for the few names of apache_beam that the library uses.

A PCollection is a named table; SqlTransform applied to it is only recorded;
the executor given by the caller runs the recorded query. Data frame files are
written in shards when the pipeline runs.
"""
import os
import sys
import types


class PCollection:
  def __init__(self, name='PCOLLECTION'):
    self.name = name

  def __or__(self, transform):
    return Applied(self, transform)


class SqlTransform:
  def __init__(self, query, **kwargs):
    self.query, self.kwargs, self.label = query, kwargs, None

  def __rrshift__(self, label):
    self.label = label
    return self


class Applied(PCollection):
  """The result of a transform: nothing is computed yet."""

  def __init__(self, pcol, transform):
    self.pcol, self.transform = pcol, transform


class Pipeline:
  """Writes the frames at run(), each in some shards."""

  def __init__(self, shards):
    self.shards, self.jobs, self.labels, self.runs = shards, [], [], 0

  def run(self):
    self.runs += 1
    for frame, path, kw in self.jobs:
      step = -(-max(len(frame), 1) // self.shards)
      for i in range(self.shards):
        part = frame.iloc[i * step:(i + 1) * step]
        if len(part) or not i:
          part.to_csv('%s-%05d-of-%05d' % (path, i, self.shards), **kw)
    self.jobs = []


class Frame:
  def __init__(self, rows, pipeline):
    self.rows, self.pipeline = rows, pipeline


def install():
  """Makes `import apache_beam` find this module."""
  mod = lambda name, **kw: sys.modules.setdefault(name, types.ModuleType(name))
  if getattr(mod('apache_beam'), 'standin', False):
    return
  beam = mod('apache_beam')
  beam.standin = True
  for path, attrs in (
      ('apache_beam.pvalue', {'PCollection': PCollection}),
      ('apache_beam.transforms', {}),
      ('apache_beam.transforms.sql', {'SqlTransform': SqlTransform}),
      ('apache_beam.dataframe', {}),
      ('apache_beam.dataframe.convert', {'to_dataframe': to_dataframe}),
      ('apache_beam.dataframe.io', {'to_csv': to_csv})):
    m = mod(path)
    parent, _, name = path.rpartition('.')
    setattr(sys.modules[parent], name, m)
    for k, v in attrs.items():
      setattr(m, k, v)


def to_dataframe(pcol, label=None):
  pcol.pipeline.labels.append(label)
  return pcol


def to_csv(pcol, path, label=None, **kw):
  pcol.pipeline.labels.append(label)
  pcol.pipeline.jobs.append((pcol.rows, path, kw))
  return path
