"""C28: looking at a metric shows exactly its tree and leaves it as it is."""
import collections

import pydot

from mon import gen
from mon.cmpx import run
from mon.core import Skip, Violation
from mon.props import c19, c20, c26

from meterstick import metrics as M
from meterstick import utils as U

RULE = ('one random metric (trees of every kind, parts used several times, '
        'constants, several filters, hostile names) is drawn, walked through '
        'and listed; the drawing is parsed back and compared with a walk over '
        'the children done by the monitor; distinct = (shape of the tree, '
        'labels)')
ASSUMPTIONS = [
    'the children attribute of a metric is its tree',
    'backslashes in names are left out (DOT has no unambiguous way to read '
    'them back)']
LIMITS = {'quick': (2500, 40), 'thorough': (40000, 400)}
MIN_EVENTS = {'drawings': 1200, 'nodes': 9000, 'edges': 9000, 'filters': 1500,
              'shared': 200, 'constants': 300, 'walks': 2000,
              'after_use': 250, 'hostile_names': 600}

NAMES = ['a: b', 'say "hi"', 'two\nlines', 'graph', 'node', 'strict', '12',
         '-1.5', 'ä ö', 'x -- y;', '{a}', '[label=1]', "it's", '< b', 'a,b',
         '# no', '// no', '/* no */', 'digraph', 'x->y', ' ', 'a|b']


def tree(rng):
  """(metric object, spec or None)."""
  k = rng.choice(['tree', 'op', 'nested', 'jk', 'plain', 'plain'])
  where_p = rng.choice([0, .3, .6])
  if k == 'tree':
    s = c19.tree(rng, where_p, 'rich')
  elif k == 'op':
    s = c20.op(rng, where_p)
  elif k == 'nested':
    s = c20.nested_spec(rng, where_p)
  elif k == 'jk':
    s = {'k': rng.choice(['Jackknife', 'Bootstrap', 'PoissonBootstrap']),
         'unit': 'u', 'child': c20.op(rng, where_p),
         'where': gen.wheres(rng, where_p)}
  else:
    s = gen.scalar(rng, rng.choice([0, 1, 2]), where_p=where_p)
  return gen.build(s)


def case(rng, rec):
  parts = [tree(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
  for m in parts:
    for c in walk(m):
      if isinstance(c, M.Metric) and rng.random() < .15:
        c.name = rng.choice(NAMES)
        rec.add('hostile_names')
  m = parts[0]
  for o in parts[1:]:
    how = rng.choice(['+', '/', 'list', 'list', 'self'])
    if how == '+':
      m = m + o
    elif how == '/':
      m = m / o
    elif how == 'self':
      m = M.MetricList([m, o, m])
    else:
      m = M.MetricList([m, o], where=rng.choice([None, 'x > 0',
                                                 ['x > 0', 'g == "a"']]))
  r = rng.random()
  if r < .1:
    m = m * m
  elif r < .2:
    m = rng.choice([2, .5, -1]) * m
  elif r < .25:
    m = -m
  return m


def walk(m):
  """All occurrences below m, itself included, by the children."""
  out = [m]
  if isinstance(m, M.Metric):
    for c in m.children:
      out += walk(c)
  return out


def label(m):
  if not isinstance(m, M.Metric):
    return str(getattr(m, 'name', m))
  return m.name + (' where %s' % m.where if m.where else '')


def unquote(v):
  v = str(v)
  if len(v) > 1 and v[0] == v[-1] == '"':
    v = v[1:-1].replace('\\"', '"').replace('\\n', '\n')
  return v


def words(text):
  return str(text).replace('\r', '').strip()


def check_drawing(m, strict, what, det, rec):
  text = run(lambda: m.to_dot(strict), what, det)
  det = dict(det, text=text)
  if not isinstance(text, str):
    raise Violation('%s is a %s' % (what, type(text)), det)
  graphs = pydot.graph_from_dot_data(text)
  if not graphs or len(graphs) != 1:
    raise Violation('%s cannot be read back' % what, det)
  g = graphs[0]
  if bool(g.get_strict()) != bool(strict):
    raise Violation('%s: strict is %r' % (what, g.get_strict()), det)
  occ = walk(m)
  seen = {}
  for n in g.get_nodes():
    lab = n.get('label')
    if lab is None:
      raise Violation('%s: a node without a label' % what, det)
    lab = words(unquote(lab))
    if seen.setdefault(n.get_name(), lab) != lab:
      raise Violation('%s: one node has two labels' % what, det)
  want = {str(id(o)): words(label(o)) for o in occ}
  if seen != want:
    raise Violation('%s: nodes are labelled %r, the metrics are %r' % (
        what, sorted(set(seen.values()) - set(want.values())) or
        sorted(seen.values()),
        sorted(set(want.values()) - set(seen.values())) or
        sorted(want.values())), det)
  edges = collections.Counter((e.get_source(), e.get_destination())
                              for e in g.get_edges())
  exp = collections.Counter((str(id(o)), str(id(c))) for o in occ
                            if isinstance(o, M.Metric) for c in o.children)
  if strict:
    edges, exp = set(edges), set(exp)
  if edges != exp:
    raise Violation('%s: the edges are %r instead of %r' % (what, edges, exp),
                    det)
  rec.add('drawings')
  rec.add('nodes', len(seen))
  rec.add('edges', len(edges))
  return text


def fam_look(rng, rec):
  m = case(rng, rec)
  occ = walk(m)
  metrics = [o for o in occ if isinstance(o, M.Metric)]
  ids = collections.Counter(map(id, occ))
  det = {'metric': c26.snapshot(m)}
  snap = c26.snapshot(m)
  what = 'the drawing of %r' % m.name
  keep = {id(o): o for o in occ}
  if rng.random() < .3:
    # Drawing a metric that was used.
    df = c20.a_table(rng)
    try:
      m.compute_on(df, rng.choice([None, 'g']))
    except Exception:  # pylint: disable=broad-except
      m = m  # names like `two lines` or missing baselines
    else:
      rec.add('after_use')
    if c26.snapshot(m) != snap:
      raise Skip('judged by C06')
    occ = walk(m)
    metrics = [o for o in occ if isinstance(o, M.Metric)]
  strict = rng.choice([True, True, False])
  text = check_drawing(m, strict, what, det, rec)
  # The same through visualize_metric_tree.
  got = []
  if strict and rng.random() < .5:
    ret = run(lambda: m.visualize_metric_tree(got.append), 'visualize', det)
  else:
    ret = run(lambda: m.visualize_metric_tree(got.append, strict), 'visualize',
              det)
  if got != [text] or ret is not None:
    raise Violation('visualize_metric_tree rendered %r instead of what to_dot '
                    'returns' % (got,), dict(det, text=text))
  # Walks.
  for self_too in (True, False):
    for const in (True, False):
      got = [id(o) for o in m.traverse(self_too, const)]
      exp = [id(o) for o in (occ if const else metrics)]
      if not self_too:
        exp.remove(id(m))
      if sorted(got) != sorted(exp):
        raise Violation('traverse(%s, %s) of %r gives %d parts instead of %d' %
                        (self_too, const, m.name, len(got), len(exp)), det)
      rec.add('walks')
  if [id(o) for o in m.traverse()][0] != id(m):
    raise Violation('traverse() does not start with the metric itself', det)
  for const in (True, False):
    got = sorted(id(o) for o in U.get_leaf_metrics(m, const))
    exp = sorted(id(o) for o in occ if (
        const if not isinstance(o, M.Metric) else
        not any(isinstance(c, M.Metric) for c in o.children)))
    if set(got) != set(exp):
      raise Violation('get_leaf_metrics(%r, %s) gives %r instead of %r' % (
          m.name, const, [label(keep.get(i, '?')) for i in got],
          [label(keep.get(i, '?')) for i in exp]), det)
  # Containers.
  for o in metrics:
    if isinstance(o, M.MetricList):
      kids = list(o.children)
      if [id(x) for x in o] != [id(k) for k in kids] or len(o) != len(kids) or (
          kids and o[len(kids) - 1] is not kids[-1]):
        raise Violation('%r as a sequence differs from its children' % o.name,
                        det)
  if c26.snapshot(m) != snap:
    raise Violation('looking at %r changed it' % m.name, det)
  rec.add('filters', sum(bool(o.where) for o in metrics))
  rec.add('shared', any(n > 1 for n in ids.values()))
  rec.add('constants', len(metrics) < len(occ))
  rec.trivial = len(occ) < 2
  rec.signature([label(o) for o in occ], strict)
  rec.sample = {'metric': m.name, 'parts': len(occ)}


FAMILIES = [('look', 1, fam_look)]
FINDINGS = {}
