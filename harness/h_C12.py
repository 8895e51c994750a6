"""unit_cube_mesh."""
import hlib
import numpy as np


def setup():
  import swirl_fem.common.premesh_commons


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 12])
  d, n = c['d'], c['n']
  a, b = [(0, 1), (-1, 1), (2, 5), (0.1, 0.7), (0, 6.283185307179586), (3, -4)][int(rng.integers(6))]
  blocks, ids = [], []
  if rng.random() < .6:
    blocks = [int(rng.choice([x for x in range(1, n + 1) if n % x == 0])) for _ in range(d)]
    ids = [int(x) for x in rng.permutation(int(np.prod(blocks)))]
  per = [int(x) for x in rng.permutation(c['per'])]
  return dict(d=d, n=n, per=per, a=hlib.rat(a), b=hlib.rat(b), af=str(a), bf=str(b),
              tol='1p-45', blocks=blocks, ids=ids)


def cases(tier, seed):
  rng = np.random.default_rng([seed, 12])
  out = []
  for k in range(30 if tier == 'quick' else 300):
    d = int(rng.integers(1, 4))
    n = int(rng.integers(1, {1: 13, 2: 7, 3: 5}[d]))
    out.append(complete(dict(d=d, n=n, per=[i + 1 for i in range(d) if rng.random() < .5]),
                        1000 + k, seed))
  # large ones
  for k in range(12 if tier == 'quick' else 60):
    d = 1 + k % 3
    n = int(rng.integers({1: 20, 2: 10, 3: 5}[d], {1: 80, 2: 25, 3: 9}[d]))
    out.append(complete(dict(d=d, n=n, per=[i + 1 for i in range(d) if rng.random() < .5]),
                        2000 + k, seed))
  return out


def run(case):
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  kw = {}
  if case['blocks']:
    kw['partitions'] = np.array(case['ids'], np.int32).reshape(case['blocks'])
  if case['per']:
    kw['periodic_dims'] = tuple(i - 1 for i in case['per'])
  given = dict(ndim=case['d'], a=float(case['af']), b=float(case['bf']))
  if case['n'] % 2:  # defaults may be left out
    given = {k: v for k, v in given.items() if v != dict(ndim=2, a=0, b=1)[k]}
  m = unit_cube_mesh(case['n'], **given, **kw)
  return dict(coords=hlib.rats(m.node_coords), elements=hlib.ints(m.elements),
              groups={k: hlib.ints(v) for k, v in (m.physical_groups or {}).items()},
              links=[] if m.periodic_links is None else hlib.ints(m.periodic_links),
              partitions=[] if m.partitions is None else hlib.ints(m.partitions))
