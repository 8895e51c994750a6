"""Finite element operators, integrals and solves on partitioned meshes."""
import fe
import hlib
import numpy as np


def setup():
  hlib.devices(4, fast_compile=False)
  import jax
  jax.config.update('jax_enable_x64', True)


SHAPES = dict(interval=(1, 3, ()), ring=(1, 3, (0,)), square=(2, 2, ()), cylinder=(2, 2, (1,)), torus=(2, 2, (0, 1)))


def complete(c, k, seed):
  """The model assigns elements to devices."""
  rng = np.random.default_rng([seed, k, 37])
  if c['refused'] and rng.random() < .9:
    return None
  d, n, periodic = SHAPES[c['mesh']]
  return dress(rng, d, n, periodic, [o - 1 for o in c['owner']])


def dress(rng, d, n, periodic, parts):
  order = int(rng.integers(1, {1: 5, 2: 4 if n < 3 else 3, 3: 2}[d]))
  return dict(d=d, n=n, periodic=list(periodic), parts=parts, order=order, node=str(rng.choice(['nc', 'gll'])),
              points=order + 2, bend=0. if periodic else float(rng.choice([0, .1])), side=hlib.rat(float(rng.choice([1, 2]))),
              other=int(rng.integers(1, 4 if d < 3 else 3)), dirichlet=bool(rng.random() < .7), fixed=float(rng.choice([.3, 1])), s=hlib.rat(float(rng.choice([.5, 3]))), via=str(rng.choice(['pmap', 'jit'])),
              seed=int(rng.integers(1000)))


def cases(tier, seed):
  rng = np.random.default_rng([seed, 370])
  out = []
  for i in range(8 if tier == 'quick' else 60):
    d = [2, 1, 2, 3][i % 4]
    n = int(rng.integers(1, {1: 8, 2: 4, 3: 3}[d]))
    periodic = tuple(a for a in range(d) if n > 1 and rng.random() < .3)
    D = int(rng.integers(1, 5))
    if i % 2:  # the device with the most nodes has fewer elements than another
      d, n, D, periodic = (1, 6, 3, ()) if i % 4 == 1 else (2, 3, 3, ())
    for _ in range(1000):
      parts = rng.integers(0, D, n**d)
      if not images(d, n, periodic, parts) and (i % 2 == 0 or sparse(d, n, parts)):
        break
    out.append(dress(rng, d, n, periodic, hlib.ints(parts)))
  return out


def images(d, n, periodic, parts):
  """Whether elements of a partition meet at opposite sides."""
  at = np.array(list(np.ndindex(*[n] * d)))
  corners = (at[:, None] + np.array(list(np.ndindex(*[2] * d)))).reshape(-1, d)
  owner = np.repeat(parts, 2**d)
  seen = {}
  for x, p in zip(corners, owner):
    key = (p,) + tuple(v % n if a in periodic else v for a, v in enumerate(x))
    if seen.setdefault(key, tuple(x)) != tuple(x):
      return True
  return False


def sparse(d, n, parts):
  """Whether a partition with fewer elements has as many nodes as any."""
  count = np.bincount(parts)
  at = np.array(list(np.ndindex(*[n] * d)))
  corners = at[:, None] + np.array(list(np.ndindex(*[2] * d)))
  nodes = [len({tuple(x) for e in corners[parts == p] for x in e}) for p in range(len(count))]
  return any(k == max(nodes) and c < max(count) for k, c in zip(nodes, count))


def run(case):
  import dataclasses
  import jax
  import jax.numpy as jnp
  from jax import lax
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  from swirl_fem.communication.jit_distributed import jit_distributed
  from swirl_fem.core import fespace
  from swirl_fem.core import interpolation as ip
  from swirl_fem.core.fespace import grad
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.linalg.cg import cg
  d, n, side = case['d'], case['n'], float(hlib.fraction(case['side']))
  s = float(hlib.fraction(case['s']))
  rng = np.random.default_rng(case['seed'])
  pm = unit_cube_mesh(n, ndim=d, b=side, periodic_dims=tuple(case['periodic']))
  x = np.asarray(pm.node_coords, float)
  pm = dataclasses.replace(pm, node_coords=x + case['bend'] * side / n * rng.uniform(-1, 1, x.shape))
  if case['dirichlet'] and 'boundary' in pm.physical_groups:  # fixed on a part of the boundary
    sides = np.asarray(pm.physical_groups['boundary'])
    keep = rng.random(len(sides)) < case['fixed']
    pm = dataclasses.replace(pm, physical_groups=dict(boundary=sides[keep]) if keep.any() else {})
  # (partitions without elements at the end do not exist)
  parts = np.array(case['parts'], np.int32)
  nodes = ip.Nodes1D.create(num_points=case['order'] + 1, node_type=getattr(ip.NodeType, fe.KINDS[case['node']]))
  quad = ip.Quadrature1D.create(num_points=case['points'], quadrature_type=ip.NodeType.GAUSS_LEGENDRE)
  whole = refine_premesh(pm, nodes)
  wx = np.asarray(whole.node_coords, float)
  N = len(wx)
  # nodes identified by periodicity
  key = wx.copy()
  for a in case['periodic']:
    key[:, a] = np.where(np.abs(key[:, a] - side) < 1e-9, 0, key[:, a])
  rep = [int(np.abs(key - y).max(axis=-1).argmin()) for y in key]
  other = ip.Nodes1D.create(num_points=case['other'] + 1, node_type=ip.NodeType.GAUSS_LOBATTO_LEGENDRE)
  whole2 = refine_premesh(pm, other)
  wx2 = np.asarray(whole2.node_coords, float)
  try:
    mesh, mesh2 = [refine_premesh(dataclasses.replace(pm, partitions=parts), nodes).finalize(axis_name='p')
                   for nodes in [nodes, other]]
  except NotImplementedError:
    return dict(refused=True, rep=rep, elements=hlib.ints(whole.elements))

  def owners(mesh, wx):  # copies are known by their coordinates
    ids = np.asarray(mesh.node_indices)
    own = np.full(ids.shape, -1)
    for p, k in np.argwhere(ids != -1):
      dist = np.abs(wx - np.asarray(mesh.node_coords[p, k])).max(axis=-1)
      own[p, k] = dist.argmin()
      assert dist.min() < 1e-9
    return own

  own, own2 = owners(mesh, wx), owners(mesh2, wx2)
  fixed = set()
  if case['dirichlet'] and 'boundary' in whole.physical_groups:
    fixed = {int(i) for i in np.asarray(whole.physical_groups['boundary']).ravel()}
    fixed = {i for i in range(N) if any(rep[i] == rep[j] for j in fixed)}
  fields = rng.integers(-8, 9, (2, N)) / 8.
  u, f = fields[:, rep]
  v = rng.integers(-8, 9, len(wx2)) / 8.  # a field on the other mesh, of any order
  case.update(u=hlib.rats(u), f=hlib.rats(f), v=hlib.rats(v))

  spread = lambda v, own=own: jnp.asarray(np.where(own < 0, 0, v[own]))
  form = lambda g, s: lambda u, v: lambda x: g * jnp.dot(grad(u)(x), grad(v)(x)) + s * u(x) * v(x)

  def compute(mesh, mesh2, u, f, v):
    space = fespace.FiniteElementSpace.create(mesh, quad)
    mask = jnp.ones(mesh.num_nodes)
    if case['dirichlet'] and 'boundary' in mesh.physical_masks:
      mask = mask - mesh.physical_masks['boundary']
    local = lambda g, s, u: space.local_covector(
        form(g, s), (space.scalar_function(mesh.gather(u)), space.scalar_function(None)))
    apply = lambda g, s, u: mesh.exchange(mesh.scatter(local(g, s, u)))
    A = lambda u: mask * apply(1., s, mask * u)
    copies = mesh.exchange(jnp.ones(mesh.num_nodes))
    b = mask * apply(0., 1., f)
    dot = lambda a, b: lax.psum((a * b / copies).sum(), 'p')
    x, info = cg(A, b, tol=1e-11, dot_fn=dot)
    w = space.scalar_function(mesh.gather(u))
    return dict(transferred=mesh.interpolate(v, source_mesh=mesh2), applied=A(u), load=b, copies=copies, x=x, iterations=jnp.asarray(info['num_iterations']),
                energy=space.integrate(form(1., s)(w, w)), volume=space.integrate(lambda x: jnp.ones(())))

  args = mesh, mesh2, spread(u), spread(f), spread(v, own2)
  if case['via'] == 'pmap':
    r = jax.pmap(compute, axis_name='p')(*args)
  else:
    devices = jax.sharding.Mesh(np.array(jax.devices()[:len(own)]), 'p')
    r = jit_distributed(compute, devices, 'p')(*args)
  iterations = hlib.ints(r.pop('iterations'))
  return dict(refused=False, nodes=hlib.rats(nodes.node_values), evals=hlib.rats(quad.nodes.node_values),
              weights=hlib.rats(quad.weights_nd(1)), coords=hlib.rats(wx), elements=hlib.ints(whole.elements),
              nodes2=hlib.rats(other.node_values), elements2=hlib.ints(whole2.elements), rep=rep, fixed=sorted(fixed), own=hlib.ints(own), iterations=iterations,
              **{k: hlib.rats(v) for k, v in r.items()})
