"""Runs the models of a property, one after another: runmodel.py C22 [quick|thorough] [only-index]."""
import os
import re
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from lib import core, registry
core.build()
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
ms = registry.CHECKS[sys.argv[1]]['models'](tier, 1)
with tempfile.TemporaryDirectory() as d:
  for i, m in enumerate(ms):
    if len(sys.argv) > 3 and i != int(sys.argv[3]):
      continue
    r = core.tlc(m['module'], m['cfg'], d, workers=8, heap='12g', timeout=3600)
    print(m['module'], m['bounds'], 'completed' if r.completed else 'FAILED', r.generated, r.distinct,
          f'{r.wall:.1f}s', len(r.printed('CASE')), 'cases')
    if not r.completed:
      print([l for l in r.out.splitlines() if "rror:" in l or "ttempted" in l or "nvariant" in l][:9])
      print(core.gist(r.out)[:1500])
