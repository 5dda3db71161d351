"""kf.py PROP "what failed" [commit]: records a repaired defect."""
import json, subprocess, sys
c = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%h', '-1'], text=True).strip()
p = '/verif/known_findings.json'
d = json.load(open(p))
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], c, sys.argv[2]))
json.dump(d, open(p, 'w'), indent=1)
