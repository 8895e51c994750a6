"""Machinery shared by the checks: running TLC, the harness, and reporting.

A check of property P is (see DESIGN.md, "Pipeline"):
  1. model check the specification modules of P with TLC;
  2. make cases: the behaviours TLC printed ("CASE {...}" lines) and seeded
     ones from harness/<P>.py;
  3. drive the real code in /repo through every case, recording what it did
     as a trace (harness/driver.py, several processes);
  4. validate every trace against the specification with TLC; the verdict of a
     trace is the set of names of the clauses of the specification it breaks.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
CLASSES = os.path.join(VERIF, 'build', 'classes')
TLA = '/opt/veriftools/tla'
CP = ':'.join([CLASSES, f'{TLA}/tla2tools.jar', f'{TLA}/CommunityModules-deps.jar'])
PY = '/opt/venv/bin/python'
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
  pass


def build():
  """Compiles the TLC module override (idempotent)."""
  srcs = [os.path.join(VERIF, 'java', f) for f in ('BigRat.java', 'RatValue.java')]
  out = os.path.join(CLASSES, 'BigRat.class')
  if os.path.exists(out) and os.path.getmtime(out) >= max(map(os.path.getmtime, srcs)):
    return
  os.makedirs(CLASSES, exist_ok=True)
  subprocess.run(
      ['javac', '-cp', f'{TLA}/tla2tools.jar', '-d', CLASSES, *srcs], check=True)


class TlcResult:
  def __init__(self, out, rc, wall):
    self.out, self.rc, self.wall = out, rc, wall
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    self.generated, self.distinct = map(int, m[-1]) if m else (0, 0)
    self.completed = 'Model checking completed. No error has been found.' in out

  def printed(self, tag):
    """JSON payloads of the lines printed by the specification as "TAG {...}"."""
    res = []
    for line in self.out.splitlines():
      line = line.strip()
      if line.startswith(f'"{tag} '):
        res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res


def tlc(module, cfg, scratch, env=None, workers=2, heap='3g', timeout=700,
        extra=()):
  """Runs TLC on `spec/<module>.tla` with the configuration text `cfg`."""
  d = tempfile.mkdtemp(dir=scratch, prefix=f'tlc_{module}_')
  cfgfile = os.path.join(d, f'{module}.cfg')
  with open(cfgfile, 'w') as f:
    f.write(cfg)
  cmd = ['java', '-XX:+UseParallelGC', f'-XX:ParallelGCThreads={max(2, workers)}',
         f'-Xmx{heap}', '-Xss64m', '-Djava.io.tmpdir=' + d, '-cp', CP, 'tlc2.TLC',
         '-workers', str(workers), '-metadir', os.path.join(d, 'states'),
         '-noGenerateSpecTE', '-deadlock', '-config', cfgfile, *extra,
         os.path.join(SPEC, module + '.tla')]
  t0 = time.time()
  e = dict(os.environ)
  e.update(env or {})
  try:
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    out, rc = p.stdout, p.returncode
  except subprocess.TimeoutExpired as ex:
    out = (ex.stdout or b'').decode(errors='replace') if isinstance(
        ex.stdout, bytes) else (ex.stdout or '')
    out, rc = out + '\nTIMEOUT', -9
  with open(os.path.join(d, 'out.txt'), 'w') as f:
    f.write(out)
  return TlcResult(out, rc, time.time() - t0)


def gist(out):
  """The part of TLC's output that tells what went wrong."""
  keep = [x for x in out.splitlines()
          if not re.match(r'(Parsing file|Semantic processing|Linting of|Loading|CASE|"CASE)', x)]
  return '\n'.join(keep)[:3000]


def model_check(models, scratch):
  """Runs the given models in parallel; each is a dict of `tlc` arguments.

  A model is a closed description, independent of /repo: if TLC finds an error
  in it then the specification is inconsistent, which is not a verdict about
  the code.
  """
  results = [None] * len(models)

  def run(i, m):
    results[i] = tlc(m['module'], m['cfg'], scratch, workers=m.get('workers', 2),
                     heap=m.get('heap', '2g'), env=m.get('env'),
                     extra=m.get('extra', ()))

  ts = [threading.Thread(target=run, args=(i, m)) for i, m in enumerate(models)]
  for t in ts:
    t.start()
  for t in ts:
    t.join()
  for m, r in zip(models, results):
    if not m.get('simulate') and not (r.completed and r.distinct):
      raise MachineryError(
          f'TLC did not complete model {m["module"]}:\n{gist(r.out)}')
  return results


def harness_env(extra=None):
  e = {k: v for k, v in os.environ.items()
       if k in ('HOME', 'LANG', 'VERIF_SEED', 'VERIF_TIER', 'TMPDIR')}
  e.update(
      PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
      PYTHONPATH=f'{REPO}:{VERIF}/harness', PYTHONDONTWRITEBYTECODE='1',
      PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='',
      TF_CPP_MIN_LOG_LEVEL='3', TFDS_DATA_DIR='/nonexistent',
      NO_GCE_CHECK='true', OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2')
  e.update(extra or {})
  return e


def list_cases(prop, tier, seed, scratch, given):
  with open(os.path.join(scratch, 'given.json'), 'w') as f:
    json.dump(given, f)
  out = os.path.join(scratch, 'cases.json')
  p = subprocess.run(
      [PY, os.path.join(VERIF, 'harness', 'driver.py'), 'list', prop, tier,
       str(seed), os.path.join(scratch, 'given.json'), out], env=harness_env(), cwd=scratch, stdout=subprocess.PIPE,
      stderr=subprocess.STDOUT, text=True, timeout=300)
  if p.returncode != 0:
    raise MachineryError(f'case generation failed:\n{p.stdout[-3000:]}')
  with open(out) as f:
    return json.load(f)


def run_harness(prop, cases, scratch, procs, deadline, group_cost=0):
  """Drives the code through `cases`; returns the recorded traces, in order."""
  groups = {}
  for i, c in enumerate(cases):  # cases of one group share compiled code
    groups.setdefault(c.get('grp', ('', i)), []).append(i)
  procs = max(1, min(procs, len(groups)))
  load, plan = [0] * procs, [[] for _ in range(procs)]
  weight = lambda g: sum(cases[i].get('w', 1) for i in g)
  for g in sorted(groups.values(), key=weight, reverse=True):
    k = load.index(min(load))
    load[k] += weight(g) + group_cost
    plan[k].extend(g)

  def start(idx, k):
    d = tempfile.mkdtemp(dir=scratch, prefix=f'h{k}_')
    with open(f'{d}/in.json', 'w') as f:
      json.dump([cases[i] for i in idx], f)
    log = open(f'{d}/log.txt', 'w')
    p = subprocess.Popen(
        [PY, os.path.join(VERIF, 'harness', 'driver.py'), 'run', prop,
         f'{d}/in.json', f'{d}/out.jsonl'],
        env=harness_env({'TMPDIR': d, 'HOME': d}), cwd=d, stdout=log, stderr=log)
    return p, d, idx

  running = [start(plan[k], k) for k in range(procs)]
  traces = [None] * len(cases)
  t_end = time.time() + deadline
  retries = {}
  while running:
    p, d, idx = running.pop(0)
    why = None
    try:
      p.wait(timeout=max(1, t_end - time.time()))
    except subprocess.TimeoutExpired:
      p.kill()
      p.wait()
      why = 'timeout'
    lines = []
    if os.path.exists(f'{d}/out.jsonl'):
      with open(f'{d}/out.jsonl') as f:
        for line in f:
          if line.endswith('\n'):
            lines.append(json.loads(line))
    for i, t in zip(idx, lines):
      traces[i] = t
    if len(lines) < len(idx):
      with open(f'{d}/log.txt') as f:
        tail = f.read()[-3000:]
      if why is None and (p.returncode in (3, 1) or not lines
                          and p.returncode >= 0):
        raise MachineryError(f'harness failed (rc {p.returncode}):\n{tail}')
      # The code under test crashed the process or did not return: that case
      # has the outcome "crashed"/"timeout"; later ones were not run.
      i = idx[len(lines)]
      if (why is None and 'rendezvous' in tail and retries.get(i, 0) < 2
          and sum(retries.values()) < 4):
        # XLA gives up when the threads of its emulated devices do not all get
        # to run within 40 s, as on an overloaded machine: once more, last.
        retries[i] = retries.get(i, 0) + 1
        for q, _, _ in running:
          try:
            q.wait(timeout=max(1, t_end - time.time()))
          except subprocess.TimeoutExpired:
            pass
        running.append(start(idx[len(lines):], procs + len(retries)))
        continue
      traces[i] = dict(case=cases[i], outcome=why or 'crashed', error=tail[-500:])
  ran = [t for t in traces if t is not None]
  return ran


def plain(x):
  """TLC's JSON reader knows neither null nor floats."""
  if isinstance(x, dict):
    return {k: plain(v) for k, v in x.items()}
  if isinstance(x, list):
    return [plain(v) for v in x]
  if x is None or isinstance(x, float):
    return str(x)
  return x


def validate(module, cfg, traces, scratch, env=None, workers=NCPU, heap='8g',
             shards=1):
  """Checks the traces against the specification with TLC.

  Returns (list of (trace, sorted clause names)), TlcResult).
  """
  f = os.path.join(scratch, f'{module}_traces.json')
  with open(f, 'w') as fp:
    json.dump(plain(traces), fp)
  e = {'TRACE_FILE': f}
  e.update(env or {})
  r = tlc(module, cfg, scratch, env=e, workers=workers, heap=heap)
  bad = {}
  for v in r.printed('VERDICT'):
    bad.setdefault(v['tid'], set()).update(v['failing'])
  done = sum(1 for line in r.out.splitlines() if line.strip().startswith('"DONE '))
  if not r.completed:
    m = re.search(r'(Attempted to|Evaluating|The first argument|In evaluation'
                  r'|was not in the domain|applied to|verflow when computing)', r.out)
    t = re.findall(r'/\\ tid = (\d+)', r.out)
    if m and not ('StackOverflow' in r.out or 'OutOfMemory' in r.out):
      # The specification has no meaning for what the code returned.
      if not t:
        raise MachineryError(f'TLC could not read the traces:\n{gist(r.out)}')
      tid = int(t[-1])
      bad.setdefault(tid, set()).add('malformed_result')
      r.malformed = gist(r.out)
    else:
      raise MachineryError(f'TLC trace validation failed:\n{gist(r.out)}')
  r.validated = len(traces) - len(bad)
  return [(traces[i - 1], sorted(c)) for i, c in sorted(bad.items())], r


def load_known():
  """Known findings: list of dicts {property, match, what} and fixed entries."""
  path = os.path.join(VERIF, 'known_findings.txt')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [json.loads(x) for x in f if x.strip().startswith('{')]


def write_replay(prop, trace, failing, extra=''):
  d = os.path.join(VERIF, 'evidence', 'replay')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, f'{prop}.json')
  with open(path, 'w') as f:
    json.dump(dict(property=prop, failing=failing, trace=trace, note=extra,
                   rerun=f'python3 check.py {prop} --replay {path}'), f, indent=1)
  return path


def write_evidence(prop, tier, seed, level, coverage, wall, violations,
                   assumptions):
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level,
                   coverage=coverage, wall_s=round(wall, 2),
                   violations=violations, assumptions=assumptions), f, indent=1)
