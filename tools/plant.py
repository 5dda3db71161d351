"""Makes or re-validates planted bugs.

  plant.py make SPEC.py [ID...]   SPEC.py defines BUGS: id -> dict(prop, edits, demo, needs, breaks)
  plant.py check [ID...]          re-validates /verif/seeded/<id>
For each: demo passes on the unchanged tree and fails with the patch, the
repository's stable tests pass with the patch, and whether the property's quick
check reports it. Everything runs on scratch copies.
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

SEEDED = os.environ.get("SEEDED", "/verif/seeded")
PY = '/opt/venv/bin/python'
BASE = 'fef921c'
HEAD = '''import os, sys, tempfile
_d = tempfile.TemporaryDirectory()
os.symlink(os.getcwd(), os.path.join(_d.name, 'meterstick'))
sys.dont_write_bytecode = True
sys.path.insert(0, _d.name)
import warnings; warnings.simplefilter('ignore')
import numpy as np
import pandas as pd
np.seterr(all='ignore')
from meterstick import metrics, operations, models, diversity, utils, sql
from meterstick.metrics import *
from meterstick.operations import *
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='agg')


def sh(cmd, cwd=None, env=None, timeout=1200):
  r = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True,
                     timeout=timeout)
  return r.returncode, r.stdout + r.stderr


def copy_repo(dst):
  os.makedirs(dst)
  subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s' % dst, shell=True)
  sh(['git', 'init', '-q', dst])
  sh(['git', '-C', dst, 'add', '-A'])
  sh(['git', '-C', dst, '-c', 'user.name=a', '-c', 'user.email=a@b', 'commit', '-qm', 'x'])


def stable(repo, work):
  root = os.path.join(work, 'root')
  os.makedirs(root, exist_ok=True)
  link = os.path.join(root, 'meterstick')
  if not os.path.islink(link):
    os.symlink(repo, link)
  rep = os.path.join(work, 'r.xml')
  env = dict(ENV, PYTHONPATH=root)
  rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-c', '/dev/null',
                '--rootdir=' + root, '-n', '4', '--timeout=300', '--tb=no',
                '-o', 'junit_family=xunit2', '--junitxml=' + rep, link], cwd=root, env=env)
  tail = [l for l in out.strip().splitlines() if 'passed' in l or 'failed' in l][-1:]
  fails = [l for l in out.splitlines() if l.startswith('FAILED')]
  return rc == 0, (tail[0] if tail else out[-300:]) + ' ' + ' '.join(f[:120] for f in fails[:3])


def added_by_us(repo_patch):
  """Lines removed by the patch which our own commits added."""
  ours = set()
  out = subprocess.check_output(['git', '-C', '/repo', 'diff', BASE, 'HEAD'], text=True)
  for l in out.splitlines():
    if l.startswith('+') and not l.startswith('+++'):
      ours.add(l[1:].strip())
  return [l for l in repo_patch.splitlines() if l.startswith('-') and
          not l.startswith('---') and l[1:].strip() and l[1:].strip() in ours]


def validate(bid, check=True):
  d = os.path.join(SEEDED, bid)
  meta = json.load(open(os.path.join(d, 'meta.json')))
  work = tempfile.mkdtemp(prefix='plant_')
  try:
    repo = os.path.join(work, 'repo')
    copy_repo(repo)
    demo = ['bash', os.path.join(d, 'demo.sh')]
    rc0, o0 = sh(demo, cwd=repo, timeout=300)
    rc, o = sh(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
    if rc:
      return bid, 'BAD patch does not apply: ' + o
    rc1, o1 = sh(demo, cwd=repo, timeout=300)
    res = []
    if rc0:
      res.append('BAD demo fails on unchanged: ' + o0[-400:])
    if not rc1:
      res.append('BAD demo passes with the patch')
    ours = added_by_us(open(os.path.join(d, 'patch.diff')).read())
    if ours:
      res.append('BAD changes our lines: %s' % ours)
    ok, msg = stable(repo, work)
    if not ok:
      res.append('BAD tests: ' + msg)
    if res:
      return bid, '; '.join(res)
    if not check:
      return bid, 'ok'
    env = dict(ENV, VERIF_REPO=repo, VERIF_SEED='1')
    rc, o = sh(['bash', '/verif/check.sh', meta['property'], 'quick', '--no-evidence'],
               cwd='/verif', env=env)
    caught = rc == 1 and 'VIOLATION property=%s' % meta['property'] in o
    w = [l for l in o.splitlines() if 'witness' in l]
    return bid, ('caught ' if caught else 'MISSED rc=%d ' % rc) + meta['property'] + ' ' + (
        w[0][:160] if w else o[-200:])
  finally:
    shutil.rmtree(work, ignore_errors=True)


def make(bid, b):
  work = tempfile.mkdtemp(prefix='plant_')
  d = os.path.join(SEEDED, bid)
  try:
    repo = os.path.join(work, 'repo')
    copy_repo(repo)
    for f, old, new in b['edits']:
      p = os.path.join(repo, f)
      s = open(p).read()
      assert s.count(old) == 1, (bid, f, s.count(old), old)
      open(p, 'w').write(s.replace(old, new))
    _, patch = sh(['git', '-C', repo, 'diff'])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    open(os.path.join(d, 'demo.py'), 'w').write(HEAD + b['demo'].strip('\n') + '\n')
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# cwd: /repo\nexec /opt/venv/bin/python -W ignore '
        '"$(dirname "$0")/demo.py"\n')
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
  finally:
    shutil.rmtree(work, ignore_errors=True)


def main():
  mode, args = sys.argv[1], sys.argv[2:]
  check = True
  if '--no-check' in args:
    check = False
    args.remove('--no-check')
  if mode == 'make':
    bugs = runpy.run_path(args[0])['BUGS']
    ids = args[1:] or list(bugs)
    for i in ids:
      try:
        make(i, bugs[i])
      except AssertionError as e:
        print(i, 'BAD edit', str(e)[:200])
    ids = [i for i in ids if os.path.exists(os.path.join(SEEDED, i, 'patch.diff'))]
  else:
    ids = args or sorted(os.listdir(SEEDED))
  # demos and tests two at a time, then the checks one after another.
  with concurrent.futures.ThreadPoolExecutor(2) as ex:
    pre = list(ex.map(lambda i: validate(i, False), ids))
  for i, r in pre:
    if r != 'ok':
      print(i, r, flush=True)
  if check:
    for i, r in pre:
      if r == 'ok':
        print(*validate_check(i), flush=True)


def validate_check(bid):
  d = os.path.join(SEEDED, bid)
  meta = json.load(open(os.path.join(d, 'meta.json')))
  work = tempfile.mkdtemp(prefix='plant_')
  try:
    repo = os.path.join(work, 'repo')
    copy_repo(repo)
    sh(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
    env = dict(ENV, VERIF_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
    rc, o = sh(['bash', '/verif/check.sh', meta['property'], 'quick', '--no-evidence'],
               cwd='/verif', env=env)
    caught = rc == 1 and 'VIOLATION property=%s' % meta['property'] in o
    w = [l for l in o.splitlines() if 'witness' in l]
    return bid, ('caught ' if caught else 'MISSED rc=%d ' % rc) + meta['property'] + ' ' + (
        w[0][:160] if w else o[-200:])
  finally:
    shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
  main()
