"""Small Stokes discretisations, for C22 and C23."""
import fe
import hlib
import numpy as np
from fe import setup


def grid_case(rng, d=None, small=False):
  d = d or int(rng.choice([2, 2, 2, 3]))
  n = int(rng.integers(1, 3 if small else 4)) if d == 2 else int(rng.choice([1, 1, 2]))
  order = int(rng.integers(2, {2: 6 if n < 3 else 4, 3: 4 if n < 2 else 3}[d]))
  if small:
    order = min(order, 3)
  if n == 1:     # a pressure that is only a constant may be undetermined
    order = max(order, 3)
  per = [i for i in range(d) if rng.random() < .35]
  closed = rng.random() < .6
  return dict(d=d, n=n, order=order, per=per, over=int(rng.integers(0, 4)),
              stretch=[float(x) for x in rng.choice([1, .5, 2, 3.25], d)],
              shear=float(rng.choice([0, 0, .25])), bend=float(rng.choice([0, .15])) if n > 1 else 0.,
              open=[] if closed else [int(x) for x in rng.permutation(2 * d)[:int(rng.integers(1, 2 * d))]],
              seed=int(rng.integers(10000)))


def large_case(rng):
  """Many elements, or a high order."""
  c = grid_case(rng, d=int(rng.choice([2, 2, 3])))
  if c['d'] == 3:
    return dict(c, n=2, order=2, bend=.15)
  if rng.random() < .5:
    return dict(c, n=int(rng.integers(4, 6)), order=2, bend=.15)
  return dict(c, n=1, order=int(rng.integers(6, 9)), bend=0.)


def premesh(case):
  """A distorted unit cube whose sides are groups of their own."""
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  d, n = case['d'], case['n']
  pm = unit_cube_mesh(n, ndim=d, periodic_dims=tuple(case['per']))
  x = np.asarray(pm.node_coords, float)
  rng = np.random.default_rng(case['seed'])
  inner = np.all((x > .01) & (x < .99), axis=1)
  y = x + case['bend'] / n * rng.uniform(-1, 1, x.shape) * inner[:, None]
  y = y * np.array(case['stretch'])
  y[:, 0] += case['shear'] * y[:, -1]
  groups = {}
  for f in np.asarray((pm.physical_groups or {}).get('boundary', np.zeros((0, 2**(d - 1)), int))):
    for ax in range(d):
      for end in (0, 1):
        if np.all(x[f, ax] == end):
          groups.setdefault(f'side{2 * ax + end}', []).append(f)
  groups = {k: np.array(v, np.int32) for k, v in groups.items()}
  return pm.replace(node_coords=y, physical_groups=groups)


def create(case):
  from swirl_fem.navier_stokes.navier_stokes import BCType, StokesSEM
  pm = premesh(case)
  bcs = {}
  for g in pm.physical_groups:
    bcs[g] = (BCType.NEUMANN if int(g[4:]) in case['open'] else BCType.DIRICHLET, 0.)
  sem = StokesSEM.create(pm, boundary_conditions=bcs, order=case['order'],
                         num_convection_overint_nodes=case['over'])
  return sem, describe(sem, case['d'], case['order'], case['over'],
                       [g for g, (b, _) in bcs.items() if b == BCType.DIRICHLET])


def describe(sem, d, order, over, groups):
  """The grid of a discretisation whose velocity vanishes on some groups."""
  from swirl_fem.core import interpolation as ip
  gll = lambda n: ip.Quadrature1D.create(num_points=n, quadrature_type=ip.NodeType.GAUSS_LOBATTO_LEGENDRE)
  v, o = gll(order + 1), gll(order + 1 + over)
  vm, pmh = sem.velocity.vspace.mesh, sem.pressure.pspace.mesh
  fixed = np.zeros(vm.num_nodes, bool)
  for g in groups:
    fixed |= np.asarray(vm.physical_masks[g]).astype(bool)
  return dict(
      d=d, xs=hlib.rats(v.nodes.node_values), ws=hlib.rats(v.weights_nd(1)),
      os=hlib.rats(o.nodes.node_values), ow=hlib.rats(o.weights_nd(1)),
      ps=hlib.rats(ip.Nodes1D.create(num_points=order - 1, node_type=ip.NodeType.GAUSS_LEGENDRE).node_values),
      low=hlib.rats(ip.Nodes1D.create(num_points=order, node_type=ip.NodeType.GAUSS_LOBATTO_LEGENDRE).node_values),
      vel=hlib.ints(vm.elements), pel=hlib.ints(pmh.elements), vcoords=hlib.rats(vm.node_coords),
      pnodes=int(pmh.num_nodes), vclass=hlib.ints(vm.node_indices), pclass=hlib.ints(pmh.node_indices),
      fixed=hlib.ints(np.flatnonzero(fixed)))


def average(vm, u):
  """Makes a field agree on periodic images."""
  idx = np.asarray(vm.node_indices)
  s, c = np.zeros((idx.max() + 1, u.shape[-1])), np.zeros(idx.max() + 1)
  np.add.at(s, idx, u)
  np.add.at(c, idx, 1)
  return (s / np.maximum(c, 1)[:, None])[idx]


def operators(case):
  import jax.numpy as jnp
  sem, grid = create(case)
  rng = np.random.default_rng(case['seed'] + 1)
  nv, npr, d = sem.velocity.mesh.num_nodes, sem.pressure.pspace.mesh.num_nodes, case['d']
  u = jnp.asarray(rng.integers(-8, 9, (nv, d)) / 4.)
  p = jnp.asarray(rng.integers(-8, 9, npr) / 4.)
  k, dt = case['k'], case['dt']
  out = dict(
      grid=grid, u=hlib.rats(u), p=hlib.rats(p), dt=hlib.rat(dt), alpha=hlib.rat(case['alpha']),
      B=hlib.rats(sem.B(u)), Bi=hlib.rats(sem.Bi(u)), A=hlib.rats(sem.A(u)), C=hlib.rats(sem.C(u)),
      D=hlib.rats(sem.D(u)), Dt=hlib.rats(sem.Dt(p)), PB=hlib.rats(sem.pressure.B(p)),
      Q=hlib.rats(sem.Q(u, dt=dt, time_order=k)), E=hlib.rats(sem.E(p, dt=dt, time_order=k)),
      filter=hlib.rats(sem.filter(u, alpha=case['alpha'])), filter05=hlib.rats(sem.filter(u)),
      diag=hlib.rats(np.broadcast_to(np.asarray(sem.velocity_mass_diag), (nv, d))),
      interior=hlib.ints(np.asarray(sem.velocity.interior_mask)[:, 0].astype(int)))
  if d > 1:
    out['vorticity'] = hlib.rats(sem.vorticity(u))
  return out


def refusal(case):
  from swirl_fem.core import interpolation as ip
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  pm = refine_premesh(premesh(case), ip.Nodes1D.create(num_points=3, node_type=ip.NodeType.NEWTON_COTES))
  try:
    StokesSEM.create(pm, boundary_conditions={}, order=3)
  except ValueError:
    return dict(refused=True)
  return dict(refused=False)
