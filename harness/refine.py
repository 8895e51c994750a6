"""Drives refine_premesh (C10, C11)."""
import itertools

import hlib
import meshes
import numpy as np

TYPES = {'nc': 'NEWTON_COTES', 'gll': 'GAUSS_LOBATTO_LEGENDRE', 'gl': 'GAUSS_LEGENDRE'}


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  import swirl_fem.core.mesh_refiner


def syms(d):
  idx = np.arange(2**d).reshape((2,) * d)
  return [np.flip(idx.transpose(p), f).ravel()
          for p in itertools.permutations(range(d))
          for r in range(d + 1) for f in itertools.combinations(range(d), r)]


def turn(rng, facet):
  """The same facet or element in another orientation."""
  facet = np.asarray(facet)
  d = int(np.log2(len(facet)))
  if d == 0:
    return facet.tolist()
  g = syms(d)
  return facet[g[int(rng.integers(len(g)))]].tolist()


def finish(rng, m, order, kind):
  """Warps, reorients and completes a first order mesh."""
  m = dict(m)
  n = len(m['coords'])
  coords = np.array(m['coords']) * 8 + rng.integers(-3, 4, (n, m['ndim']))
  out = dict(ndim=m['ndim'], order=order, nodes=kind, continuous=kind != 'gl',
             coords=coords.tolist(), elements=[turn(rng, e) for e in m['elements']],
             groups={k: [turn(rng, f) for f in v] for k, v in m.get('groups', {}).items()},
             partitions=m.get('partitions', []))
  links = []
  for a, b in m.get('links', []):
    p = turn(rng, list(range(len(a))))
    links.append([[a[i] for i in p], [b[i] for i in p]])
  out['links'] = links
  return out


def from_model(c, k, seed):
  """An emitted configuration, embedded with arbitrary coordinates."""
  rng = np.random.default_rng([seed, k, 10])
  elements = c['elements']
  n = 1 + max(max(e) for e in elements)
  coords = rng.integers(-40, 41, (n, c['ndim']))
  used = sorted({x for e in elements for x in e})
  facets = [f for f in facets_of(elements) ]
  pick = [facets[int(i)] for i in rng.permutation(len(facets))[:3]]
  m = dict(ndim=c['ndim'], coords=coords.tolist(), elements=elements)
  out = dict(ndim=c['ndim'], order=c['order'], nodes=['nc', 'gll'][k % 2], continuous=True,
             coords=coords.tolist(), elements=elements,
             groups={'g': [turn(rng, f) for f in pick]},
             partitions=rng.integers(0, 3, len(elements)).tolist() if k % 3 else [],
             links=[])
  if len(facets) > 3:
    i, j = rng.permutation(len(facets))[:2]
    out['links'] = [[turn(rng, facets[i]), turn(rng, facets[j])]]
  return out


def facets_of(elements):
  seen = {}
  d = int(np.log2(len(elements[0])))
  for e in elements:
    e = np.array(e).reshape((2,) * d)
    for a in range(d):
      for s in (0, 1):
        f = np.take(e, s, axis=a).ravel().tolist()
        seen.setdefault(tuple(sorted(f)), f)
  return list(seen.values())


def ring(rng, ndim, m):
  """m quadrilaterals (times an interval) around a vertex (an edge)."""
  pts = [[0, 0]]
  for i in range(2 * m):
    t = np.pi * i / m
    pts.append([int(round(12 * np.cos(t))), int(round(12 * np.sin(t)))])
  quads = []
  for i in range(m):
    a, b, c = 1 + 2 * i, 1 + (2 * i + 1) % (2 * m), 1 + (2 * i + 2) % (2 * m)
    quads.append([0, a, c, b])
  n = len(pts)
  if ndim == 2:
    return dict(ndim=2, coords=pts, elements=quads)
  layers = int(rng.integers(1, 3))
  coords = [[*p, 9 * z] for z in range(layers + 1) for p in pts]
  elements = [[x + z * n for x in q] + [x + (z + 1) * n for x in q]
              for z in range(layers) for q in quads]
  return dict(ndim=3, coords=coords, elements=elements,
              groups={'base': [list(q) for q in quads]},
              links=[[q, [x + layers * n for x in q]] for q in quads])


def relabel(rng, m):
  n = len(m['coords'])
  extra = int(rng.integers(0, 2))   # a node that no element uses
  p = rng.permutation(n + extra)
  coords = [None] * (n + extra)
  src = m['coords'] + [[1] * m['ndim']] * extra
  for i, x in enumerate(src):
    coords[p[i]] = x
  f = lambda s: [int(p[i]) for i in s]
  return dict(m, coords=coords, elements=[f(e) for e in m['elements']],
              groups={k: [f(s) for s in v] for k, v in m.get('groups', {}).items()},
              links=[[f(a), f(b)] for a, b in m.get('links', [])])


def make(seed, count, thorough, kinds=('nc', 'gll', 'gll', 'gl')):
  rng = np.random.default_rng(seed)
  out = []
  while len(out) < count:
    kind = kinds[int(rng.integers(len(kinds)))]
    if rng.random() < .3:
      ndim = int(rng.integers(2, 4))
      m = relabel(rng, ring(rng, ndim, int(rng.integers(3, 6))))
      m['partitions'] = []
    else:
      m = None
      while m is None or len(m['elements'][0]) != 2**m['ndim']:
        m = meshes.structured(rng, bool(rng.integers(2)), max_nodes=40)
    top = {1: 9, 2: 6, 3: 4}[m['ndim']] + (2 if thorough else 0)
    order = int(rng.integers(0 if kind == 'gl' else 1, top + 1))
    if len(m['elements']) * (order + 1)**m['ndim'] > (1500 if not thorough else 4000):
      continue
    c = finish(rng, m, order, kind)
    if len(set(map(lambda p: tuple(map(tuple, p)), c['links']))) < len(c['links']):
      continue
    out.append(c)
  # many elements, or a high order
  for k in range(12 if not thorough else 60):
    d = 1 + k % 3
    if k % 2:
      n, order = int(rng.integers({1: 20, 2: 5, 3: 3}[d], {1: 60, 2: 9, 3: 4}[d] + 1)), int(rng.integers(1, 3))
    else:
      n, order = int(rng.integers(1, 3)), int(rng.integers({1: 10, 2: 7, 3: 4}[d], {1: 25, 2: 15, 3: 7}[d] + 1))
    m = meshes.grid(rng, d, [n] * d, 1, [bool(rng.random() < .3) for _ in range(d)], [1] * d)
    out.append(finish(rng, m, order, kinds[int(rng.integers(len(kinds)))]))
  return out


def run(case):
  from swirl_fem.core import interpolation as ip
  from swirl_fem.core.mesh_refiner import refine_premesh
  nodes = ip.Nodes1D.create(case['order'] + 1, getattr(ip.NodeType, TYPES[case['nodes']]))
  pm = meshes.premesh(case)
  r = refine_premesh(pm, nodes)
  return dict(order=int(r.order), ndim=int(r.ndim), same_type=bool(r.gridpoints_1d == nodes),
              points=hlib.rats(nodes.node_values), coords=hlib.rats(r.node_coords),
              elements=hlib.ints(r.elements),
              groups={k: hlib.ints(v) for k, v in (r.physical_groups or {}).items()},
              links=[] if r.periodic_links is None else hlib.ints(r.periodic_links),
              partitions=[] if r.partitions is None else hlib.ints(r.partitions))
