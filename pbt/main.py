import argparse
import importlib
import json
import multiprocessing
import os
import shutil
import sys
import time

from pbt import env

def find_module(prop):
  here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props')
  for name in sorted(os.listdir(here)):
    if name.lower().startswith(prop.lower() + '_') and name.endswith('.py'):
      return 'pbt.props.' + name[:-3]
  raise SystemExit("no such property: " + prop)

def work(job):
  module_name, index, n_cases, seed, budget, deadline = job
  scratch = os.path.join(os.environ['TMPDIR'], 'w{}'.format(os.getpid()))
  os.makedirs(scratch, exist_ok=True)
  os.environ['TMPDIR'] = scratch
  import tempfile
  tempfile.tempdir = scratch
  os.chdir(scratch)
  from pbt import core
  module = importlib.import_module(module_name)
  return core.run_law(module.LAWS[index], n_cases, seed, budget, deadline)

def main():
  parser = argparse.ArgumentParser()
  parser.add_argument('property')
  parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  parser.add_argument('--seed', type=int,
                      default=int(os.environ.get('VERIF_SEED', '1') or 1))
  parser.add_argument('--replay')
  parser.add_argument('--law')
  parser.add_argument('--jobs', type=int, default=8)
  parser.add_argument('--scale', type=float, default=1.)
  opts = parser.parse_args()
  start = time.time()
  env.setup()
  from pbt import core
  prop = opts.property.upper()
  module_name = find_module(prop)
  module = importlib.import_module(module_name)
  laws = module.LAWS

  if opts.replay:
    with open(opts.replay) as fid:
      replay = json.load(fid)
    law_ = [l for l in laws if l.name == replay['law']][0]
    ctx, failure = core.run_case(law_, core.decode(replay['case']))
    print("case: " + replay['case'])
    if failure is None:
      print("replay: property holds on this case")
      return 0
    print("replay: " + failure)
    print("VIOLATION property={} replay={}".format(prop, opts.replay))
    return 1

  # Registered findings are reported (and re-checked), never silently skipped
  findings = core.load_findings()
  known = [f for f in findings['known'] if f['property'] == prop]
  for finding in known:
    law_ = [l for l in laws if l.name == finding['law']]
    still = None
    if law_ and 'case' in finding:
      _, still = core.run_case(law_[0], core.decode(finding['case']))
    if still is not None:
      print("KNOWN-FINDING: property={} {}".format(prop, finding['what']))

  # Each law runs as several independently seeded searches, spread over cores
  thorough = opts.tier == 'thorough'
  law_budget = float(os.environ.get('PBT_BUDGET', 1500 if thorough else 240))
  deadline = start + float(os.environ.get('PBT_DEADLINE', 12 * 3600 if thorough else 480))
  jobs = []
  for index, law_ in enumerate(laws):
    if opts.law and law_.name != opts.law:
      continue
    total = law_.thorough if thorough else law_.quick
    if not thorough and law_.chunk >= 50: # slow laws keep their own counts
      total *= getattr(module, 'SCALE', 1)
    total = int(total * opts.scale)
    chunks = max(1, min(8 if thorough or law_.chunk < 50 else 4, total // law_.chunk))
    for chunk in range(chunks):
      n_cases = total // chunks
      seed = (opts.seed * 1000003 + index * 1009 + chunk) % (2**31)
      jobs.append((module_name, index, n_cases, seed, law_budget, deadline))
  jobs.sort(key=lambda job: (laws[job[1]].chunk, -job[2])) # slow ones first
  with multiprocessing.get_context('fork').Pool(min(opts.jobs, len(jobs)),
                                                maxtasksperchild=4) as pool:
    results = pool.map(work, jobs, chunksize=1)

  # Collate
  evaluations = sum(r['evaluations'] for r in results)
  nontrivial = sum(r['digests'] for r in results)
  tags, per_law, samples = {}, {}, []
  for r in results:
    for key, val in r['tags'].items():
      key = r['law'] + ':' + key
      tags[key] = tags.get(key, 0) + val
    entry = per_law.setdefault(r['law'], {'evaluations': 0, 'nontrivial': 0,
                                          'wall_s': 0.})
    entry['evaluations'] += r['evaluations']
    entry['nontrivial'] += r['digests']
    entry['wall_s'] = round(entry['wall_s'] + r['wall_s'], 2)
    if r['cut']:
      entry['cut_by_time'] = True
    if len([s for s in samples if s['law'] == r['law']]) < 2:
      samples.extend(r['samples'])
  errors = [r for r in results if r['error']]
  failures = [r for r in results if r['failure']]
  floors = {law_.name: law_.floor for law_ in laws}
  for name, entry in per_law.items():
    if entry['evaluations'] and not failures and not errors and \
        entry['nontrivial'] < floors[name] * (entry['evaluations'] - \
                                              2. * entry['evaluations'] ** 0.5):
      errors.append({'law': name, 'error':
        "only {} of {} cases of {} non-trivial".format(
          entry['nontrivial'], entry['evaluations'], name)})

  violations = []
  seen_laws = set()
  os.makedirs(core.REPLAYS, exist_ok=True)
  for r in sorted(failures, key=lambda r: len(r['failure']['case'])):
    if r['law'] in seen_laws:
      continue
    seen_laws.add(r['law'])
    path = os.path.join(core.REPLAYS, '{}_{}.json'.format(prop, r['law']))
    with open(path, 'w') as fid:
      json.dump({'property': prop, 'law': r['law'], 'case': r['failure']['case'],
                 'why': r['failure']['why'], 'seed': opts.seed,
                 'rerun': './check {} --replay {}'.format(prop, path)}, fid, indent=1)
    violations.append((path, r))

  evidence = {
    'property': prop, 'tier': 'thorough' if thorough else 'quick',
    'seed': opts.seed, 'level': 'exploration',
    'coverage': {'evaluations': evaluations, 'distinct_nontrivial': nontrivial,
                 'rule': module.RULE, 'samples': samples,
                 'per_law': per_law, 'tags': tags},
    'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
    'wall_s': round(time.time() - start, 2), 'violations': len(violations)}
  if not opts.law:
    os.makedirs(core.EVIDENCE, exist_ok=True)
    with open(os.path.join(core.EVIDENCE, prop + '.json'), 'w') as fid:
      json.dump(evidence, fid, indent=1)
      fid.write('\n')

  for name in sorted({r['law'] for r in errors}):
    error = [r['error'] for r in errors if r['law'] == name][0]
    print("HARNESS-ERROR law={} {}".format(name, error[-1200:]), file=sys.stderr)
  print("{} {}: {} cases, {} distinct non-trivial, {} laws, {:.1f} s".format(
    prop, opts.tier, evaluations, nontrivial, len(per_law), time.time() - start))
  for path, r in violations:
    print("  law {}: {}\n  case: {}".format(r['law'], r['failure']['why'],
                                            r['failure']['case'][:2000]))
    print("VIOLATION property={} replay={}".format(prop, path))
  if violations:
    return 1
  return 2 if errors else 0

if __name__ == '__main__':
  sys.exit(main())
