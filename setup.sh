#!/bin/bash
# Builds the framework: compiles the exact-arithmetic override of TLC and tests it.
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys, tempfile, shutil
sys.path.insert(0, 'lib')
import core
core.build()
d = tempfile.mkdtemp(prefix='verif_setup_')
try:
  r = core.tlc('BigRatTest', 'SPECIFICATION Spec\n', d)
  if not r.completed:
    print(core.gist(r.out))
    sys.exit(1)
finally:
  shutil.rmtree(d)
print('setup ok')
PY
