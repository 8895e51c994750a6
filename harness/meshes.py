"""Random meshes, as plain data (see spec/FinalizeTrace.tla)."""
import itertools
import numpy as np


def ints(a):
  return np.asarray(a).tolist()


def from_model(c, k, seed):
  """A one-dimensional mesh emitted by Finalize.tla."""
  n = c['nodes']
  rng = np.random.default_rng([seed, k])
  coords = [[int(3 * x)] for x in rng.permutation(n)]
  used = sorted({x for e in c['elems'] for x in e})
  # partition numbers must be 0, 1, ...
  ids = sorted(set(c['parts']))
  return dict(ndim=1, coords=coords, elements=[list(e) for e in c['elems']],
              links=[[[a], [b]] for a, b in c['links']],
              groups={'g': [[x] for x in c['group']]} if c['group'] else {},
              partitions=[ids.index(p) for p in c['parts']],
              u=[int(x) for x in rng.integers(-50, 50, n)])


def from_model_unpartitioned(c, k, seed):
  return dict(from_model(c, k, seed), partitions=[])


def grid(rng, ndim, shape, order, periodic, blocks, shuffle=True):
  """A structured mesh with shuffled numbering; integer coordinates."""
  npts = [order * s + 1 for s in shape]
  n = int(np.prod(npts))
  number = np.arange(n).reshape(npts)
  relabel = rng.permutation(n) if shuffle else np.arange(n)
  coords = np.zeros((n, ndim), int)
  for idx in itertools.product(*map(range, npts)):
    coords[relabel[number[idx]]] = [3 * i + j for j, i in enumerate(idx)]
  elements, parts = [], []
  for e in itertools.product(*map(range, shape)):
    sl = tuple(slice(order * i, order * i + order + 1) for i in e)
    elements.append(relabel[number[sl].ravel()].tolist())
    p = 0
    for i, s, b in zip(e, shape, blocks):
      p = p * b + (i * b) // s
    parts.append(p)
  links, groups = [], {}
  for d in range(ndim):
    faces = []
    for side in (0, shape[d]):
      fs = []
      for e in itertools.product(*[range(s) for i, s in enumerate(shape) if i != d]):
        sl = [slice(order * i, order * i + order + 1) for i in e]
        sl.insert(d, order * side)
        fs.append(relabel[number[tuple(sl)].ravel()].tolist())
      faces.append(fs)
    if periodic[d]:
      links += [[a, b] if rng.random() < .5 else [b, a] for a, b in zip(*faces)]
    else:
      groups[f'wall{d}'] = faces[0]
      if rng.random() < .7:
        groups[f'end{d}'] = faces[1]
  order_e = rng.permutation(len(elements)) if shuffle else np.arange(len(elements))
  elements = [elements[i] for i in order_e]
  parts = [parts[i] for i in order_e]
  if max(blocks) > 1:
    ids = rng.permutation(max(parts) + 1).tolist()
    parts = [ids[p] for p in parts]
  else:
    parts = []
  return dict(ndim=ndim, coords=coords.tolist(), elements=elements, links=links,
              groups=groups, partitions=parts,
              u=[int(x) for x in rng.integers(-50, 50, n)])


def structured(rng, partitioned, periodic=None, max_nodes=80, large=False):
  while True:
    ndim = int(rng.integers(1, 4))
    order = int(rng.integers(1, 4 if ndim < 3 else 3))
    shape = [int(rng.integers(1, 5 if ndim < 3 else 3)) for _ in range(ndim)]
    if large:
      shape = [int(rng.integers(1, {1: 80, 2: 16, 3: 6}[ndim])) for _ in range(ndim)]
    per = [bool(rng.random() < .5) for _ in range(ndim)]
    if periodic is False:
      per = [False] * ndim
    if periodic and not any(per):
      continue
    blocks = [1] * ndim
    if partitioned:
      blocks = [int(rng.integers(2 if p else 1, 4)) if s > 1 else 1
                for s, p in zip(shape, per)]
      blocks = [min(b, s) for b, s in zip(blocks, shape)]
      if max(blocks) == 1 or int(np.prod(blocks)) > 8:
        continue
    size = np.prod([order * s + 1 for s in shape])
    if size > max_nodes or (large and size < max_nodes / 4):
      continue
    return grid(rng, ndim, shape, order, per, blocks)


def arbitrary(rng, partitioned):
  """Elements, links and groups between arbitrary nodes."""
  ndim = int(rng.integers(1, 3))
  n = int(rng.integers(4 if ndim == 2 else 2, 14))
  K = 2**ndim
  m = int(rng.integers(1, 8))
  elements = []
  while len(elements) < m:
    e = sorted(rng.permutation(n)[:K].tolist())
    if all(sorted(f) != e for f in elements):
      elements.append([int(x) for x in rng.permutation(e)])
    elif len(elements) and rng.random() < .05:
      break
  parts = []
  if partitioned:
    parts = rng.integers(0, int(rng.integers(1, 9)), len(elements)).tolist()
    if rng.random() < .6:   # without empty partitions
      ids = sorted(set(parts))
      parts = [ids.index(p) for p in parts]
  w = 2**(ndim - 1)
  links = [[rng.permutation(n)[:w].tolist(), rng.permutation(n)[:w].tolist()]
           for _ in range(int(rng.integers(0, 3)))] if rng.random() < .5 else []
  groups = {f'g{i}': [rng.permutation(n)[:w].tolist() for _ in range(int(rng.integers(1, 3)))]
            for i in range(int(rng.integers(0, 3)))}
  coords = rng.permutation(n)
  coords = [[int(x), int(x * x % 7)][:ndim] for x in coords]
  return dict(ndim=ndim, coords=coords, elements=elements, links=links, groups=groups,
              partitions=parts, u=[int(x) for x in rng.integers(-50, 50, n)])


def chained(rng, partitioned):
  """Links that form long chains, in any order and direction."""
  ndim = int(rng.integers(1, 3))
  w = 2**(ndim - 1)
  n = int(rng.integers(6, 16))
  m = int(rng.integers(3, 8))
  # facet i of the chain is joined to facet i + 1
  facets = [[int(x) for x in rng.permutation(n)[:w]] for _ in range(m)]
  if ndim == 1:
    facets = [[int(x)] for x in rng.permutation(n)[:m]]
  links = [[a, b] if rng.random() < .5 else [b, a] for a, b in zip(facets, facets[1:])]
  how = rng.random()
  if how < .4:
    links = [links[i] for i in rng.permutation(len(links))]
  elif how < .7:
    links = links[::-1]
  case = dict(arbitrary(rng, False), ndim=ndim)
  K = 2**ndim
  elements = [rng.permutation(n)[:K].tolist() for _ in range(int(rng.integers(2, 7)))]
  elements = [e for i, e in enumerate(elements) if sorted(e) not in [sorted(x) for x in elements[:i]]]
  x = rng.permutation(n)
  # one element per partition mostly avoids images within a partition
  return dict(case, coords=[[int(a), int(a * a % 7)][:ndim] for a in x], elements=elements, links=links,
              groups={'g': [facets[0]], 'h': [facets[-1], facets[m // 2]]},
              partitions=rng.permutation(len(elements)).tolist() if partitioned else [],
              u=[int(a) for a in rng.integers(-50, 50, n)])


def premesh(case, coords=None):
  from swirl_fem.core.premesh import Premesh
  return Premesh.create(
      node_coords=np.array(case['coords'] if coords is None else coords, np.float64),
      elements=np.array(case['elements'], np.int32),
      physical_groups={k: np.array(v, np.int32) for k, v in case['groups'].items()},
      periodic_links=np.array(case['links'], np.int32) if case['links'] else None,
      partitions=np.array(case['partitions'], np.int32) if case['partitions'] else None)
