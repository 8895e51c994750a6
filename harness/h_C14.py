"""mesh_partitioner.partition."""
import hlib
import meshes
import numpy as np
import refine


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  import swirl_fem.common.mesh_partitioner


def box(cells):
  """First order elements at the given positions."""
  d = len(cells[0])
  ids, coords, elements = {}, [], []
  for c in cells:
    e = []
    for v in range(2**d):
      x = tuple(int(c[i]) + (v >> (d - 1 - i) & 1) for i in range(d))
      if x not in ids:
        ids[x] = len(coords)
        coords.append(list(x))
      e.append(ids[x])
    elements.append(e)
  return dict(ndim=d, coords=coords, elements=elements, groups={}, links=[])


def cut_of(cells, p):
  n = len(cells)
  return sum(p[i] != p[j] for i in range(n) for j in range(i)
             if max(abs(a - b) for a, b in zip(cells[i], cells[j])) <= 1)


def final(rng, m, k, slack, bound):
  n = len(m['coords'])
  p = rng.permutation(n)
  coords = [None] * n
  for i, x in enumerate(m['coords']):
    coords[p[i]] = x
  f = lambda s: [int(p[i]) for i in s]
  order = rng.permutation(len(m['elements']))
  facets = refine.facets_of([f(e) for e in m['elements']])
  pick = [facets[int(i)] for i in rng.permutation(len(facets))[:3]]
  groups = {'wall': pick[:2]} if rng.random() < .5 else {}
  links = [[pick[-2], pick[-1]]] if len(pick) > 2 and rng.random() < .5 else []
  return dict(ndim=m['ndim'], coords=coords, elements=[f(m['elements'][i]) for i in order],
              groups=groups, links=links, partitions=[], k=k, slack=slack, bound=bound)


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 14])
  return final(rng, box(c['cells']), c['k'], 2, 2 * c['best'] + 4)


def cases(tier, seed):
  rng = np.random.default_rng([seed, 14])
  out = []
  for _ in range(40 if tier == 'quick' else 300):
    d = int(rng.integers(1, 4))
    k = int(rng.integers(1, 9 if rng.random() < .8 else 25))
    blocks = [1] * d
    blocks[0] = k
    for i in range(d - 1):       # a factorisation of k
      for q in (2, 3):
        if blocks[i] % q == 0 and rng.random() < .7:
          blocks[i] //= q
          blocks[i + 1] *= q
    top = {1: 8, 2: 4, 3: 2}[d] * (1 if k <= 8 else 2)
    size = [b * int(rng.integers(1, top + 1)) for b in blocks]
    # (METIS leaves parts empty when there are many of few elements each)
    if np.prod(size) > 400 or (k > 8 and np.prod(size) < 8 * k):
      continue
    cells = [list(map(int, i)) for i in np.ndindex(*size)]
    ref = [tuple(i * b // s for i, b, s in zip(c, blocks, size)) for c in cells]
    out.append(final(rng, box(cells), k, 3, 2 * cut_of(cells, ref) + 4))
  return out


def run(case):
  from swirl_fem.common import mesh_partitioner
  pm = meshes.premesh(case)
  r = mesh_partitioner.partition(pm, case['k'])
  again = mesh_partitioner.partition(pm, case['k'])
  p = r.partitions
  return dict(partitions=hlib.ints(p), again=hlib.ints(again.partitions),
              integer_array=bool(isinstance(p, np.ndarray) and p.dtype.kind in 'iu'),
              elements=hlib.ints(r.elements), coords=hlib.ints(r.node_coords),
              groups={k: hlib.ints(v) for k, v in (r.physical_groups or {}).items()},
              links=[] if r.periodic_links is None else hlib.ints(r.periodic_links))
