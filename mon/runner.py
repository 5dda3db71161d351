"""Runs one property's monitor: workload generation, verdicts, evidence.

python -m mon.runner C01 [--tier quick|thorough] [--seed N] [--replay FILE]
                         [--cases N] [--budget SECONDS] [--procs N]
Exit 0: held on everything observed.  Exit 1: VIOLATION line.  Exit 3:
inconclusive or error of the check itself.
"""
import argparse
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import queue
import random
import signal
import sys
import time
import traceback

from mon import env
from mon.core import Inconclusive, Rec, Skip, Violation

CASE_TIMEOUT = 120


class CaseTimeout(BaseException):
  pass


def _alarm(signum, frame):
  raise CaseTimeout()


def case_seed(prop, seed, idx):
  h = hashlib.sha256(f'{prop}:{seed}:{idx}'.encode()).hexdigest()
  return int(h[:15], 16)


def pick_family(mod, idx):
  """Deterministic weighted round robin over the families."""
  sched = getattr(mod, '_schedule', None)
  if sched is None:
    fams = mod.FAMILIES
    total = sum(f[1] for f in fams)
    credits = [0.0] * len(fams)
    sched = []
    for _ in range(total):
      for i, f in enumerate(fams):
        credits[i] += f[1]
      j = max(range(len(fams)), key=lambda i: credits[i])
      credits[j] -= total
      sched.append(j)
    mod._schedule = sched
  return mod.FAMILIES[sched[idx % len(sched)]]


def run_case(mod, prop, seed, idx, family=None):
  """Returns a dict describing the verdict on one case."""
  cs = case_seed(prop, seed, idx)
  fam = (pick_family(mod, idx) if family is None else
         [f for f in mod.FAMILIES if f[0] == family][0])
  rng = random.Random(cs)
  import numpy as np
  np.random.seed(cs % (2**32))
  rec = Rec()
  out = io.StringIO()
  t0 = time.time()
  res = {'idx': idx, 'family': fam[0], 'verdict': 'held', 'case_seed': cs}
  old = signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(CASE_TIMEOUT)
  try:
    with contextlib.redirect_stdout(out):
      fam[2](rng, rec)
  except Violation as v:
    res.update(verdict='violation', what=v.what, detail=v.detail, mech=v.mech)
  except Skip as s:
    res.update(verdict='skip', what=str(s))
  except Inconclusive as s:
    res.update(verdict='inconclusive', what=str(s))
  except CaseTimeout:
    res.update(verdict='inconclusive', what='case watchdog fired')
  except Exception:  # an error of the harness itself
    res.update(verdict='error', what=traceback.format_exc()[-3000:])
  finally:
    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)
  res['counts'] = dict(rec.counts)
  res['sig'] = rec.sig
  res['trivial'] = rec.trivial
  res['sample'] = rec.sample
  res['wall'] = time.time() - t0
  res['stdout'] = out.getvalue()[-1000:] if res['verdict'] != 'held' else ''
  return res


def worker(modname, prop, seed, counter, limit, stop, q, deadline):
  env.setup()
  signal.signal(signal.SIGINT, signal.SIG_IGN)
  mod = importlib.import_module(modname)
  batch = []
  last = time.time()
  while not stop.is_set() and time.time() < deadline.value:
    with counter.get_lock():
      idx = counter.value
      counter.value += 1
    if idx >= limit:
      break
    r = run_case(mod, prop, seed, idx)
    batch.append(r)
    if r['verdict'] not in ('held', 'skip') or time.time() - last > 1 or len(
        batch) > 50:
      q.put(batch)
      batch = []
      last = time.time()
  q.put(batch)
  q.put(None)


def jsonable(o):
  return json.loads(json.dumps(o, default=str))


def write_replay(prop, tier, seed, r):
  d = os.path.join(env.VERIF, 'replays')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, f'{prop}-{tier}-s{seed}-i{r["idx"]}.json')
  with open(path, 'w') as f:
    json.dump(jsonable({'property': prop, 'seed': seed, 'idx': r['idx'],
                        'family': r['family'], 'what': r.get('what'),
                        'mech': r.get('mech'), 'detail': r.get('detail'),
                        'stdout': r.get('stdout')}), f, indent=1)
  return path


def load_known(prop):
  path = os.path.join(env.VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [k for k in json.load(f)['findings']
            if k['property'] == prop and k.get('status') == 'open']


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1')))
  ap.add_argument('--replay')
  ap.add_argument('--idx', type=int)
  ap.add_argument('--cases', type=int)
  ap.add_argument('--budget', type=float)
  ap.add_argument('--procs', type=int, default=min(8, os.cpu_count() or 1))
  ap.add_argument('--family')
  ap.add_argument('--max-viol', type=int, default=5)
  ap.add_argument('--no-evidence', action='store_true')
  a = ap.parse_args()
  prop, tier, seed = a.prop, a.tier, a.seed
  t0 = time.time()
  try:
    env.setup()
  except Exception:
    # The package cannot be imported at all: nothing can be decided.
    traceback.print_exc()
    print(f'INCONCLUSIVE property={prop} package import failed')
    return 3
  modname = f'mon.props.{prop.lower()}'
  mod = importlib.import_module(modname)

  if a.replay or a.idx is not None:
    if a.replay:
      with open(a.replay) as f:
        rp = json.load(f)
      idx, seed = rp['idx'], rp['seed']
    else:
      idx = a.idx
    r = run_case(mod, prop, seed, idx, a.family)
    print(json.dumps(jsonable(r), indent=1))
    return 1 if r['verdict'] == 'violation' else 0

  limits = mod.LIMITS[tier]  # (cases, seconds)
  limit = a.cases or limits[0]
  budget = a.budget or limits[1]
  if a.family:
    mod.FAMILIES = [f for f in mod.FAMILIES if f[0] == a.family]
  ctx = mp.get_context('fork')
  counter = ctx.Value('q', 0)
  stop = ctx.Event()
  q = ctx.Queue()
  deadline = ctx.Value('d', t0 + budget)
  # On a slow machine the run goes on until it has seen enough.
  cap = t0 + (budget if a.budget or a.family else max(budget, min(
      8 * budget, 600 if tier == 'quick' else 860)))
  wanted = getattr(mod, 'MIN_EVENTS', {})
  known = load_known(prop)
  known_by_mech = {k['mechanism']: k for k in known}

  # Directed reproducers of the listed findings, first.
  known_seen = set()
  finds = getattr(mod, 'FINDINGS', {})
  violations = []
  agg = collections.Counter()
  verdicts = collections.Counter()
  fam_held = collections.Counter()
  sigs = set()
  samples = []
  slow = []
  problems = []
  for mech, fn in finds.items():
    rec = Rec()
    out = io.StringIO()
    try:
      with contextlib.redirect_stdout(out):
        fn(rec)
      got = None
    except Violation as v:
      got = v
    except Exception as e:  # the reproducer itself failed in another way
      got = Violation('reproducer raised %r' % e, mech=mech)
    if got is None:
      continue
    if mech in known_by_mech:
      known_seen.add(mech)
    else:
      violations.append({'idx': -1, 'family': 'finding:' + mech,
                         'what': got.what, 'detail': got.detail, 'mech': mech})

  procs = []
  for _ in range(a.procs):
    p = ctx.Process(target=worker, args=(modname, prop, seed, counter, limit,
                                         stop, q, deadline))
    p.start()
    procs.append(p)
  live = len(procs)
  died = False
  while live:
    now = time.time()
    if deadline.value - 5 < now < cap - 10 and not stop.is_set() and (
        any(agg[k] < v for k, v in wanted.items()) or any(
            not fam_held[f[0]] for f in mod.FAMILIES)):
      deadline.value = now + 10
    hard = deadline.value + CASE_TIMEOUT + 30
    try:
      b = q.get(timeout=1)
    except queue.Empty:
      if time.time() > hard:
        died = True
        break
      if not any(p.is_alive() for p in procs):
        try:
          b = q.get(timeout=1)
        except queue.Empty:
          died = True
          break
      else:
        continue
    if b is None:
      live -= 1
      continue
    for r in b:
      verdicts[r['verdict']] += 1
      agg.update(r['counts'])
      slow.append((r['wall'], r['idx'], r['family']))
      if r['verdict'] == 'held':
        fam_held[r['family']] += 1
        if r['sig'] and not r['trivial']:
          sigs.add(r['sig'])
        if r['sample'] is not None and len(samples) < 40:
          samples.append((r['idx'], r['family'], r['sample']))
      elif r['verdict'] == 'violation':
        if r.get('mech') in known_by_mech:
          known_seen.add(r['mech'])
          verdicts['known'] += 1
        else:
          violations.append(r)
          if len(violations) >= a.max_viol:
            stop.set()
      elif r['verdict'] in ('error', 'inconclusive'):
        problems.append(r)
  for p in procs:
    if p.is_alive():
      p.join(timeout=5)
    if p.is_alive():
      p.kill()
      p.join()
  if any(p.exitcode not in (0, None) for p in procs):
    died = died or any(p.exitcode not in (0, None) for p in procs)

  wall = time.time() - t0
  samples.sort(key=lambda s: s[0])
  bysample, seenf = [], set()
  for s in samples:
    if s[1] not in seenf or len(bysample) < 3:
      seenf.add(s[1])
      bysample.append({'case': s[0], 'family': s[1], 'observed': s[2]})
  evaluated = verdicts['held'] + verdicts['violation']
  ev = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
      'coverage': {
          'evaluations': evaluated,
          'distinct_nontrivial': len(sigs),
          'rule': mod.RULE,
          'samples': jsonable(bysample[:8]),
          'cases_held_per_family': dict(fam_held),
          'observed': dict(agg),
          'skipped_outside_domain': verdicts['skip'],
          'inconclusive_cases': verdicts['inconclusive'] + verdicts['error'],
          'known_finding_hits': verdicts['known'],
      },
      'assumptions': getattr(mod, 'ASSUMPTIONS', []),
      'wall_s': round(wall, 2),
      'violations': len(violations),
  }
  if not a.no_evidence:
    d = os.path.join(env.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{prop}.json'), 'w') as f:
      json.dump(jsonable(ev), f, indent=1)

  for k in known:
    if k['mechanism'] in known_seen:
      print(f'KNOWN-FINDING: property={prop} {k["what"]}')
  print(f'{prop} tier={tier} seed={seed} evaluated={evaluated} '
        f'distinct={len(sigs)} skipped={verdicts["skip"]} '
        f'inconclusive={verdicts["inconclusive"]} errors={verdicts["error"]} '
        f'wall={wall:.1f}s')
  print('  families held:', dict(fam_held))
  print('  observed:', dict(agg))
  slow.sort(reverse=True)
  if os.environ.get('VERIF_VERBOSE'):
    print('  slowest:', slow[:5])
  for r in problems[:3]:
    print('  problem:', r['verdict'], r['idx'], r['family'], r['what'])
  if violations:
    for r in violations[:5]:
      path = write_replay(prop, tier, seed, r)
      print(f'  witness: family={r["family"]} idx={r["idx"]} mech={r.get("mech")} {r["what"]}')
      d = jsonable(r.get('detail') or {})
      for k, v in d.items():
        v = v if isinstance(v, str) else json.dumps(v)
        print('    %s: %s' % (k, v[:1500].replace('\n', '\n      ')))
      print(f'VIOLATION property={prop} replay={path}')
    return 1
  need = getattr(mod, 'MIN_EVENTS', {})
  missing = {k: (agg.get(k, 0), n) for k, n in need.items()
             if agg.get(k, 0) < n * min(1, sum(verdicts[v] for v in (
                 'held', 'skip', 'violation')) / limits[0])}
  empty = [f[0] for f in mod.FAMILIES if not fam_held[f[0]]]
  if died or missing or empty or verdicts['error'] or evaluated == 0 or (
      verdicts['inconclusive'] > 0.02 * max(evaluated, 1) + 2):
    print(f'INCONCLUSIVE property={prop} died={died} missing={missing} '
          f'empty_families={empty} errors={verdicts["error"]}')
    return 3
  print(f'HELD property={prop}')
  return 0


if __name__ == '__main__':
  sys.exit(main())
