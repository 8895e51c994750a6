#!/usr/bin/env python3
"""Entry point of the checks: `python3 check.py C01 [quick|thorough]`.

`python3 check.py C01 --replay FILE` re-runs the one case stored in FILE.
"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core  # noqa: E402
import registry  # noqa: E402


def clip(x, n=400):
  s = json.dumps(x)
  return json.loads(s) if len(s) <= n else s[:n] + '...'


def main():
  prop = sys.argv[1]
  tier = os.environ.get('VERIF_TIER', 'quick')
  replay = None
  if len(sys.argv) > 2:
    if sys.argv[2] == '--replay':
      replay = json.load(open(sys.argv[3]))
    else:
      tier = sys.argv[2]
  seed = int(os.environ.get('VERIF_SEED', '1'))
  t0 = time.time()
  spec = registry.CHECKS[prop]
  scratch = tempfile.mkdtemp(prefix=f'verif_{prop}_', dir='/tmp')
  keep = os.environ.get('VERIF_KEEP')
  try:
    return run(prop, spec, tier, seed, scratch, replay, t0)
  except core.MachineryError as e:
    print(f'CHECK ERROR {prop}: {e}')
    return 2
  finally:
    if keep:
      print('scratch kept:', scratch)
    else:
      shutil.rmtree(scratch, ignore_errors=True)


def run(prop, spec, tier, seed, scratch, replay, t0):
  core.build()
  models = spec['models'](tier, seed) if not replay else []
  results = core.model_check(models, scratch)
  t1 = time.time()
  if replay:
    cases = [replay['trace']['case']]
  else:
    cases = []
    for m, r in zip(models, results):
      got = r.printed('CASE')
      if m.get('pick'):
        got = m['pick'](got, tier, seed)
      cases.extend(got)
    n_spec = len(cases)
    cases = core.list_cases(prop, tier, seed, scratch, cases)
  if 'group' in spec:
    for c in cases:
      c['grp'] = spec['group'](c)
  # deadline: quick checks are given 900 s in all
  deadline = 600 if tier == 'quick' else 5400
  traces = core.run_harness(prop, cases, scratch, spec.get('procs', core.NCPU),
                            deadline, spec.get('group_cost', 0))
  t2 = time.time()
  bad, vr = core.validate(spec['trace_module'], spec['trace_cfg'], traces, scratch,
                          heap=spec.get('heap', '8g'), env=dict(PROP=prop))
  t3 = time.time()
  known = [k for k in core.load_known() if k['property'] == prop]
  fresh, hits = [], {}
  for t, failing in bad:
    k = next((k for k in known
              if all(t['case'].get(a) == b for a, b in k['match'].items())
              and set(failing) <= set(k['failing'])), None)
    if k is not None:
      hits.setdefault(k['what'], 0)
      hits[k['what']] += 1
    else:
      fresh.append((t, failing))
  for what in hits:
    print(f'KNOWN-FINDING: property={prop} {what}')
  if replay:
    for t, failing in bad:
      print(json.dumps(dict(failing=failing, outcome=t['outcome'],
                            error=t.get('error'), case=t['case']))[:3000])
    print('replay:', 'violates ' + ','.join(bad[0][1]) if bad else 'conforms')
    return 1 if bad else 0
  coverage = dict(
      states=sum(r.distinct for r in results) + vr.distinct,
      transitions=sum(r.generated for r in results) + vr.generated,
      model_states=sum(r.distinct for r in results),
      models=[dict(module=m['module'], bounds=m.get('bounds', ''),
                   distinct=r.distinct, generated=r.generated,
                   wall_s=round(r.wall, 1)) for m, r in zip(models, results)],
      traces_validated_against_impl=vr.validated,
      cases_from_spec=n_spec, cases_from_seed=len(cases) - n_spec,
      trace_states=vr.distinct,
      samples=[clip(t) for t in (traces[:1] + traces[-1:])],
      phases_s=dict(model=round(t1 - t0, 1), code=round(t2 - t1, 1),
                    validate=round(t3 - t2, 1)),
      known_findings=hits)
  core.write_evidence(prop, tier, seed, spec['level'], coverage,
                      time.time() - t0, len(fresh), spec['assumptions'])
  print(f'{prop} {tier}: {coverage["model_states"]} model states, '
        f'{len(traces)} traces, {len(fresh)} violations, '
        f'{time.time() - t0:.1f}s {coverage["phases_s"]}')
  if fresh:
    t, failing = fresh[0]
    path = core.write_replay(prop, t, failing, getattr(vr, 'malformed', ''))
    for t, failing in fresh[:5]:
      print(f'  {failing} outcome={t["outcome"]} {t.get("error", "")[:200]} '
            f'case={json.dumps(t["case"])[:300]}')
    print(f'VIOLATION property={prop} replay={path}')
    return 1
  return 0


if __name__ == '__main__':
  sys.exit(main())
