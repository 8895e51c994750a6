"""The Poisson solver on small meshes."""
import fe
import hlib
import numpy as np
from fe import setup


def from_model(c, k, seed):
  """Emitted: sides and load on the 2 x 2 mesh."""
  rng = np.random.default_rng([seed, k, 20])
  m = dict(c['mesh'], affine=False)
  order = int(rng.integers(1, 4))
  # facets (by first order nodes) of the four sides
  side = {1: [[0, 1], [1, 2]], 2: [[6, 7], [7, 8]], 3: [[0, 3], [3, 6]], 4: [[2, 5], [5, 8]]}
  return dress(rng, m, order, {str(s): side[s] for s in side}, c['sides'])


def dress(rng, m, order, groups, dirichlet):
  return dict(kind='solve', d=m['d'], coords=m['coords'], elements=m['elements'], order=order,
              node=str(rng.choice(['nc', 'gll'])), affine=m['affine'], groups=groups,
              bend=0. if m['affine'] else float(rng.choice([0, .08])), seed=int(rng.integers(1000)),
              bcs=[[g, 'DIRICHLET' if int(g) in dirichlet else 'NEUMANN'] for g in groups
                   if int(g) in dirichlet or rng.random() < .5],
              rtol=float(rng.choice([1e-2, 1e-5, 1e-9])), atol=float(rng.choice([0, 0, 1e-3])),
              default=bool(rng.random() < .2))


def cases(tier, seed):
  rng = np.random.default_rng([seed, 200])
  out = [dict(kind='refused', which=w) for w in
         ('scalar', 'array', 'function', 'neumann')]
  for k in range(24 if tier == 'quick' else 200):
    d = [1, 2, 3][k % 3]
    n = int(rng.integers(1, {1: 6, 2: 4, 3: 2}[d] + 1))
    shape = [n] + [int(rng.integers(1, 3))] * (d > 1) + [1] * (d > 2)
    pts = np.stack(np.meshgrid(*[np.arange(s + 1.) for s in shape], indexing='ij'), -1).reshape(-1, d)
    a = rng.uniform(-.3, .3, (d, d)) + np.eye(d) * rng.uniform(.6, 2, d)
    if np.linalg.det(a) < 0:
      a[0] *= -1
    affine = bool(rng.random() < .5)
    if not affine:
      pts = pts + rng.uniform(-.15, .15, pts.shape)
    a = np.round(a * 64)
    pts = np.round(pts @ a.T) if not affine else pts @ a.T
    idx = np.arange(len(pts)).reshape([s + 1 for s in shape])
    els = [idx[tuple(slice(i, i + 2) for i in e)].reshape(-1).tolist() for e in np.ndindex(*shape)]
    groups = {}
    for ax in range(d):
      for end in (0, 1):
        f = []
        cells = [s for i, s in enumerate(shape) if i != ax]
        face = np.take(idx, -1 if end else 0, axis=ax)
        for e in np.ndindex(*cells):
          f.append(face[tuple(slice(i, i + 2) for i in e)].reshape(-1).tolist())
        groups[str(2 * ax + end + 1)] = f
    dirichlet = [g for g in range(1, 2 * d + 1) if rng.random() < .6] or [1]
    order = int(rng.integers(1, {1: 6, 2: 4, 3: 3}[d]))
    if d == 3 and n > 1:
      order = 1
    out.append(dress(rng, dict(d=d, coords=pts.astype(int).tolist(), elements=els, affine=affine),
                     order, groups, dirichlet))
  return out


def refusal(case):
  import jax.numpy as jnp
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  from swirl_fem.examples.poisson import BCType, solve_poisson
  mesh = unit_cube_mesh(2, ndim=2).finalize()
  value = dict(scalar=1., array=jnp.zeros(mesh.num_nodes), function=lambda x: 0.,
               neumann=2.)[case['which']]
  kind = BCType.NEUMANN if case['which'] == 'neumann' else BCType.DIRICHLET
  try:
    solve_poisson(mesh, jnp.ones(mesh.num_nodes), {'boundary': (kind, value)})
  except NotImplementedError:
    return dict(refused=True)
  return dict(refused=False)


def run(case):
  if case['kind'] == 'refused':
    return refusal(case)
  import dataclasses
  import jax.numpy as jnp
  from swirl_fem.core import interpolation as ip
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.core.premesh import Premesh
  from swirl_fem.examples.poisson import BCType, solve_poisson
  d, order = case['d'], case['order']
  nodes = ip.Nodes1D.create(num_points=order + 1, node_type=getattr(ip.NodeType, fe.KINDS[case['node']]))
  pm = Premesh.create(node_coords=np.array(case['coords'], float) / 64,
                      elements=np.array(case['elements'], np.int32),
                      physical_groups={g: np.array(f, np.int32) for g, f in case['groups'].items()})
  pm = refine_premesh(pm, nodes)
  rng = np.random.default_rng(case['seed'])
  if case['bend']:
    x = np.asarray(pm.node_coords, float)
    pm = dataclasses.replace(pm, node_coords=x + case['bend'] / order**1.5 * rng.uniform(-1, 1, x.shape))
  mesh = pm.finalize()
  fixed = sorted({int(i) for g, b in case['bcs'] if b == 'DIRICHLET'
                  for i in np.asarray(pm.physical_groups[g]).ravel()})
  # the mesh of the result: nodes are those of the premesh
  assert np.array_equal(np.asarray(mesh.elements), np.asarray(pm.elements))
  forcing = np.round(rng.uniform(-4, 4, mesh.num_nodes) * 16) / 16
  kw = {} if case['default'] else dict(rtol=case['rtol'], atol=case['atol'])
  u = solve_poisson(mesh, jnp.asarray(forcing),
                    {g: (getattr(BCType, b), [0, 0., 0.0][i % 3]) for i, (g, b) in enumerate(case['bcs'])}, **kw)
  points = order + 3 if case['affine'] else order + (d + 1) // 2
  quad = ip.Quadrature1D.create(num_points=points, quadrature_type=ip.NodeType.GAUSS_LEGENDRE)
  case['fixed'] = fixed
  return dict(
      nodes=hlib.rats(nodes.node_values), evals=hlib.rats(quad.nodes.node_values),
      weights=hlib.rats(quad.weights_nd(1)), coords=hlib.rats(pm.node_coords),
      elements=hlib.ints(pm.elements), forcing=hlib.rats(forcing), u=hlib.rats(u),
      rtol=hlib.rat(1e-5 if case['default'] else case['rtol']),
      atol=hlib.rat(0 if case['default'] else case['atol']))
