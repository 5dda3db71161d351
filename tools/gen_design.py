"""Writes the tables of DESIGN.md (between the AUTO markers) from the modules,
known_findings.json and seeded/*/meta.json; the prose is written by hand."""
import importlib, json, os, re, sys
sys.path.insert(0, '/verif')
from mon import env
env.setup()
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
kf = json.load(open(V + '/known_findings.json'))
out = ['## 3. Per property: what is run and what the monitor demands\n',
       'Generated by tools/gen_design.py from the monitor modules (`RULE` is '
       'the unit that is counted, families are the workload generators and '
       'their weights, "floor" the events a quick run must have observed or it '
       'reports itself inconclusive).\n']
notes = json.load(open(V + '/tools/design_notes.json'))
for p in props:
  i = p['id']
  m = importlib.import_module('mon.props.' + i.lower())
  out.append('### %s %s\n' % (i, p['title']))
  out.append('*Case.* %s.' % m.RULE)
  out.append('*Oracle.* %s' % notes[i])
  out.append('*Families (weights).* %s. *Bounds.* quick %d cases or %d s, '
             'thorough %d cases or %d s. *Floor.* %s.' % (
                 ', '.join('%s %s' % (f[0], f[1]) for f in m.FAMILIES),
                 *m.LIMITS['quick'], *m.LIMITS['thorough'],
                 ', '.join('%s ≥ %s' % kv for kv in m.MIN_EVENTS.items())))
  if getattr(m, 'ASSUMPTIONS', None):
    out.append('*Domain.* ' + '; '.join(m.ASSUMPTIONS) + '.')
  op = [f for f in kf['findings'] if f['property'] == i]
  for f in op:
    out.append('*Open finding* `%s`: %s' % (f['mechanism'], f['what']))
  out.append('')
out += ['## 4. Genuine defects\n', 'Repaired (one "fix:" commit each in /repo):\n']
for f in kf['fixed']:
  out.append('- ' + re.sub('^fixed: property=', '', f))
out += ['', 'Recorded, not repaired (known_findings.json; every quick run '
        'executes a directed reproducer and prints KNOWN-FINDING, the random '
        'generators keep out of exactly that region):\n']
for f in kf['findings']:
  out.append('- %s `%s`: %s' % (f['property'], f['mechanism'], f['what']))
out += ['', '## 5. Planted bugs\n',
        '| id | property | needs | caught by quick check |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
  mt = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
  out.append('| %s | %s | %s | %s |' % (d, mt['property'], mt['needs'].replace(
      '|', '/'), notes['caught'].get(d, 'yes')))
txt = open(V + '/DESIGN.md').read()
a, b = '<!-- AUTO -->', '<!-- /AUTO -->'
pre, rest = txt.split(a)
post = rest.split(b)[1]
open(V + '/DESIGN.md', 'w').write(pre + a + '\n' + '\n'.join(out) + '\n' + b + post)
