"""Runs harness modules: `driver.py list P tier seed in out` / `driver.py run P in out`."""
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback


class CaseTimeout(Exception):
  pass


def main():
  mode, prop = sys.argv[1:3]
  mod = importlib.import_module(f'h_{prop}')
  if mode == 'list':
    # completes the cases emitted by the models, and adds seeded ones
    tier, seed, given, out = sys.argv[3:7]
    with open(given) as f:
      cases = json.load(f)
    for i, c in enumerate(cases):
      if '__complete__' in c:
        cases[i] = getattr(mod, c['__complete__'])(c['case'], c['k'], int(seed))
    with open(out, 'w') as f:
      json.dump([c for c in cases if c is not None] + mod.cases(tier, int(seed)), f)
    return
  with open(sys.argv[3]) as f:
    cases = json.load(f)
  if hasattr(mod, 'setup'):
    try:
      mod.setup()
    except Exception:
      traceback.print_exc()
      sys.exit(3)

  def on_alarm(*_):
    raise CaseTimeout()

  signal.signal(signal.SIGALRM, on_alarm)
  limit = getattr(mod, 'CASE_TIMEOUT', 240)
  with open(sys.argv[4], 'w') as out:
    for case in cases:
      t0 = time.time()
      try:
        signal.alarm(limit)
        trace = mod.run(case)
        trace.setdefault('outcome', 'ok')
      except CaseTimeout:
        trace = dict(outcome='timeout', error='no result in %d s' % limit)
      except Exception as e:  # raised by the code under test
        trace = dict(outcome='raised', error=f'{type(e).__name__}: {e}'[:300])
        traceback.print_exc()
      finally:
        signal.alarm(0)
      trace['case'] = case
      sys.stderr.write(f'{time.time() - t0:.2f}s {json.dumps(case)[:150]}\n')
      out.write(json.dumps(trace) + '\n')
      out.flush()


if __name__ == '__main__':
  main()
