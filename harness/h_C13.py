"""mesh_reader.read."""
import itertools
import os
import tempfile

import hlib
import meshes
import numpy as np
import refine

CORNER = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)]}
CORNER[3] = [c + (z,) for z in (0, 1) for c in CORNER[2]]
TYPE = {0: 15, 1: 1, 2: 3, 3: 5}


def setup():
  import swirl_fem.common.mesh_reader


def to_gmsh(cell):
  """From lexicographic order to the order of the file format."""
  d = int(np.log2(len(cell)))
  if d == 0:
    return list(cell)
  return [cell[int(sum(b << (d - 1 - i) for i, b in enumerate(c)))] for c in CORNER[d]]


def places(rng, coords):
  """Coordinates, also such as need all digits."""
  return hlib.rats(np.array(coords) / float(rng.choice([1, 3, 7000])))


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 13])
  n = 1 + max(x for e in c['cells'] for x in e)
  p = [int(x) for x in rng.permutation(n)]
  f = lambda s: [p[x] for x in s]
  coords = [[int(v) for v in rng.integers(-99, 100, 2)] for _ in range(n)]
  return dict(ndim=2, coords=places(rng, coords), cells=[f(e) for e in c['cells']],
              facets=[f(e) for e in c['facets']],
              periodic=[[d, [f(q) for q in pairs]] for d, pairs in c['periodic']],
              version=['2.2', '4.1'][k % 2], wrong_ndim=False)


def cases(tier, seed):
  rng = np.random.default_rng([seed, 130])
  out = []
  count = 40 if tier == 'quick' else 400
  while len(out) < count:
    large = len(out) % 5 == 4
    m = meshes.structured(rng, False, max_nodes=400 if large else 60, large=large)
    d = m['ndim']
    if len(m['elements'][0]) != 2**d:
      continue
    if d == 1:
      m['links'] = []
    keep = d == 2 and rng.random() < .2
    elements = [refine.turn(rng, e) for e in m['elements']]
    facets = [refine.turn(rng, f) for f in refine.facets_of(m['elements'])]
    facets = [facets[i] for i in rng.permutation(len(facets))] if d > 1 else []
    # one periodic entity per (connected) side
    sides = {}
    for a, b in m['links']:
      xa, xb = (np.array([m['coords'][i] for i in s]) for s in (a, b))
      axis = next(i for i in range(d) if np.ptp(xa[:, i]) == 0 and xa[0, i] != xb[0, i])
      if xa[0, axis] > xb[0, axis]:
        a, b = b, a
      sides.setdefault(axis, {}).update(zip(a, b))
    # as only facets on a side consist of its nodes
    keep_in = lambda f: not any(set(f) <= set(s.values()) for s in sides.values())
    periodic = []
    for axis, s in sides.items():
      pairs = [[int(x), int(y)] for x, y in s.items()]
      if rng.random() < .5:
        pairs = [[y, x] for x, y in pairs]
      pairs = [pairs[i] for i in rng.permutation(len(pairs))]
      periodic.append([d - 1, pairs])
      if rng.random() < .6:
        periodic.append([0, pairs[:1]])
    periodic = [periodic[i] for i in rng.permutation(len(periodic))]
    z = int(rng.integers(3))
    coords = places(rng, [[x + z * i for i, x in enumerate(q)] for q in m['coords']])
    out.append(dict(ndim=d, coords=coords, cells=[to_gmsh(e) for e in elements],
                    facets=[to_gmsh(f) for f in facets], periodic=periodic,
                    version=['2.2', '4.1'][int(rng.integers(2))],
                    wrong_ndim=bool(d in (2,) and rng.random() < .1)))
  return out


def write(case, path):
  d = case['ndim']
  text = lambda x: repr(float(hlib.fraction(x)))
  pts = [list(map(text, x)) + ['0'] * (3 - len(x)) for x in case['coords']]
  n = len(pts)
  extra = [(0, [i]) for i in range(0, n, 3)]
  facets = [(d - 1, f) for f in case['facets']]
  cells = [(d, e) for e in case['cells']]
  edges = [(1, e[:2]) for e in case['cells'][:2]] if d == 3 else []
  blocks = [b for b in (extra, edges, facets, cells) if b]
  if case['version'] == '2.2':
    t = '$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n' % n
    t += ''.join(f'{i + 1} {" ".join(x)}\n' for i, x in enumerate(pts)) + '$EndNodes\n'
    every = [e for b in blocks for e in b]
    t += '$Elements\n%d\n' % len(every)
    for i, (k, e) in enumerate(every):
      t += f'{i + 1} {TYPE[k]} 2 1 {k + 1} ' + ' '.join(str(x + 1) for x in e) + '\n'
    t += '$EndElements\n'
    if case['periodic']:
      t += '$Periodic\n%d\n' % len(case['periodic'])
      for i, (k, pairs) in enumerate(case['periodic']):
        t += f'{k} {2 * i + 1} {2 * i + 2}\n{len(pairs)}\n'
        t += ''.join(f'{a + 1} {b + 1}\n' for a, b in pairs)
      t += '$EndPeriodic\n'
  else:
    t = '$MeshFormat\n4.1 0 8\n$EndMeshFormat\n'
    half = n // 2
    t += f'$Nodes\n2 {n} 1 {n}\n'
    for lo, hi, dim in ((0, half, d - 1), (half, n, d)):
      t += f'{dim} 1 0 {hi - lo}\n' + ''.join(f'{i + 1}\n' for i in range(lo, hi))
      t += ''.join(' '.join(pts[i]) + '\n' for i in range(lo, hi))
    t += '$EndNodes\n'
    # several entities of one type
    split = []
    for b in blocks:
      h = len(b) // 2
      split += [x for x in (b[:h], b[h:]) if x]
    total = sum(map(len, split))
    t += f'$Elements\n{len(split)} {total} 1 {total}\n'
    i = 0
    for j, b in enumerate(split):
      t += f'{b[0][0]} {j + 1} {TYPE[b[0][0]]} {len(b)}\n'
      for _, e in b:
        i += 1
        t += f'{i} ' + ' '.join(str(x + 1) for x in e) + '\n'
    t += '$EndElements\n'
    if case['periodic']:
      t += '$Periodic\n%d\n' % len(case['periodic'])
      for i, (k, pairs) in enumerate(case['periodic']):
        t += f'{k} {2 * i + 1} {2 * i + 2}\n16 1 0 0 1 0 1 0 0 0 0 1 0 0 0 0 1\n{len(pairs)}\n'
        t += ''.join(f'{a + 1} {b + 1}\n' for a, b in pairs)
      t += '$EndPeriodic\n'
  with open(path, 'w') as f:
    f.write(t)


def run(case):
  from swirl_fem.common import mesh_reader
  path = os.path.join(tempfile.mkdtemp(), 'mesh.msh')
  write(case, path)
  if case['wrong_ndim']:
    try:
      mesh_reader.read(path, ndim=3)
      return dict(refused=False)
    except ValueError:
      return dict(refused=True)
  m = mesh_reader.read(path, ndim=case['ndim'])
  try:
    m.finalize()
    fin = True
  except Exception as e:
    fin = False
  return dict(coords=hlib.rats(m.node_coords), elements=hlib.ints(m.elements), finalizes=fin,
              links=[] if m.periodic_links is None else hlib.ints(m.periodic_links))
