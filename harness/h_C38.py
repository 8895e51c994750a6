"""Derivatives of programs of finite element operations, on one device or several."""
import fe
from h_C37 import SHAPES, images, sparse
import hlib
import numpy as np


def setup():
  hlib.devices(4, fast_compile=False)
  import jax
  jax.config.update('jax_enable_x64', True)


def complete(c, k, seed):
  """The model assigns elements to devices and writes the program."""
  rng = np.random.default_rng([seed, k, 38])
  d, n, periodic = SHAPES[c['mesh']]
  parts = [o - 1 for o in c['owner']]
  if c['refused'] or rng.random() < .2:
    parts = []
  return dress(rng, d, n, periodic, parts, c['prog'])


def dress(rng, d, n, periodic, parts, prog, sure=False):
  order = int(rng.integers(1, {1: 5, 2: 3, 3: 2}[d]))
  ops = []
  for op in prog:
    op = dict(op=op)
    if op['op'] == 'apply':
      forms = [[1, 0, 0, 0, 0], [0, 0, 0, 1, 0], [0, 1, 0, 0, 0], [0, 0, 1, 0, 0], [0, 0, 0, 1, 1], [1, -1, 0, 2, 0]]
      op['form'] = forms[int(rng.integers(len(forms)))]
    ops.append(op)
  if sure or rng.random() < .3:
    ops.insert(int(rng.integers(len(ops) + 1)), dict(op='transfer'))
  return dict(d=d, n=n, periodic=list(periodic), parts=parts, prog=ops, order=order, node=str(rng.choice(['nc', 'gll'])),
              other=int(rng.integers(1, 4 if d < 3 else 3)), points=order + 1 + int(rng.integers(2)),
              bend=float(rng.choice([0, .1])), fixed=float(rng.choice([.3, 1])),
              energy=[int(x) for x in rng.integers(-2, 3, 4)], via=str(rng.choice(['pmap', 'jit'])),
              outside=bool(rng.random() < .5), seed=int(rng.integers(1000)))


def cases(tier, seed):
  rng = np.random.default_rng([seed, 380])
  out = []
  for i in range(10 if tier == 'quick' else 80):
    d = [2, 1, 2, 3][i % 4]
    n = int(rng.integers(1, {1: 6, 2: 4, 3: 2 if i % 8 < 4 else 3}[d])) if d < 3 else 1 + i % 8 // 4
    periodic = tuple(a for a in range(d) if n > 1 and rng.random() < .3)
    parts = []
    if i % 5:
      D = int(rng.integers(1, 5))
      if i % 5 == 3:  # the device with the most nodes has fewer elements than another
        d, n, D, periodic = (1, 6, 3, ()) if i % 2 else (2, 3, 3, ())
      for _ in range(1000):
        parts = hlib.ints(rng.integers(0, D, n**d))
        if not images(d, n, periodic, np.array(parts)) and (i % 5 != 3 or sparse(d, n, np.array(parts))):
          break
    prog = [str(o) for o in rng.choice(['square', 'mask', 'apply', 'exchange', 'apply'], int(rng.integers(1, 4)))]
    if d == 3:  # (large)
      prog = prog[:1] + ['exchange']
    out.append(dress(rng, d, n, periodic, parts, prog, sure=i % 5 == 3))
  return out


def run(case):
  import dataclasses
  import jax
  import jax.numpy as jnp
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  from swirl_fem.communication.jit_distributed import jit_distributed
  from swirl_fem.core import fespace
  from swirl_fem.core import interpolation as ip
  from swirl_fem.core.fespace import grad
  from swirl_fem.core.mesh_refiner import refine_premesh
  d, n = case['d'], case['n']
  rng = np.random.default_rng(case['seed'])
  pm = unit_cube_mesh(n, ndim=d, b=float(n), periodic_dims=tuple(case['periodic']))
  x = np.asarray(pm.node_coords, float)
  pm = dataclasses.replace(pm, node_coords=x + case['bend'] * rng.integers(-8, 9, x.shape) / 8.)
  if 'boundary' in pm.physical_groups:
    sides = np.asarray(pm.physical_groups['boundary'])
    keep = rng.random(len(sides)) < case['fixed']
    pm = dataclasses.replace(pm, physical_groups=dict(boundary=sides[keep]) if keep.any() else {})
  nodes = ip.Nodes1D.create(num_points=case['order'] + 1, node_type=getattr(ip.NodeType, fe.KINDS[case['node']]))
  other = ip.Nodes1D.create(num_points=case['other'] + 1, node_type=ip.NodeType.GAUSS_LOBATTO_LEGENDRE)
  quad = ip.Quadrature1D.create(num_points=case['points'], quadrature_type=ip.NodeType.GAUSS_LEGENDRE)
  straight = refine_premesh(unit_cube_mesh(n, ndim=d, b=float(n), periodic_dims=tuple(case['periodic'])), nodes)
  whole = refine_premesh(pm, nodes)
  wx = np.asarray(whole.node_coords, float)
  N = len(wx)
  assert np.array_equal(straight.elements, whole.elements)
  key = np.array(straight.node_coords, float)
  for a in case['periodic']:
    key[:, a] = np.where(np.abs(key[:, a] - n) < 1e-9, 0, key[:, a])
  rep = [int(np.abs(key - y).max(axis=-1).argmin()) for y in key]
  parts = np.array(case['parts'], np.int32) if case['parts'] else None
  fixed = set()
  if 'boundary' in whole.physical_groups:
    fixed = {int(i) for i in np.asarray(whole.physical_groups['boundary']).ravel()}
    fixed = {i for i in range(N) if any(rep[i] == rep[j] for j in fixed)}
  name = None if parts is None else 'p'
  try:
    mesh, mesh2 = [refine_premesh(dataclasses.replace(pm, partitions=parts), nodes).finalize(axis_name=name)
                   for nodes in [nodes, other]]
  except NotImplementedError:
    return dict(refused=True, rep=rep, elements=hlib.ints(whole.elements))
  if parts is None:
    own = np.arange(N)[None]
  else:
    ids = np.asarray(mesh.node_indices)
    own = np.full(ids.shape, -1)
    for p, k in np.argwhere(ids != -1):
      dist = np.abs(wx - np.asarray(mesh.node_coords[p, k])).max(axis=-1)
      own[p, k] = dist.argmin()
      assert dist.min() < 1e-9
  draw = lambda *s: rng.integers(-8, 9, s) / 8.
  u, du, dx = draw(N), draw(N), draw(N, d)
  w = draw(*own.shape) * (own >= 0)
  om = draw(len(own))
  case.update(u=hlib.rats(u), du=hlib.rats(du), dx=hlib.rats(dx), w=hlib.rats(w), om=hlib.rats(om))
  spread = lambda v: jnp.asarray(np.where((own < 0).reshape(own.shape + (1,) * (v.ndim - 1)), 0, v[own]))

  def compute(mesh, mesh2, u, x):
    mesh = dataclasses.replace(mesh, node_coords=x)
    space = fespace.FiniteElementSpace.create(mesh, quad)
    for op in case['prog']:
      if op['op'] == 'square':
        u = u * u
      elif op['op'] == 'mask':
        u = jnp.where(mesh.physical_masks['boundary'], 0., u) if 'boundary' in mesh.physical_masks else u
      elif op['op'] == 'exchange':
        u = mesh.exchange(u)
      elif op['op'] == 'transfer':
        u = mesh.interpolate(mesh2.interpolate(u, source_mesh=mesh), source_mesh=mesh2)
      else:
        a, b, c, g, h = op['form']
        form = lambda u, v: lambda x: ((a + b * jnp.dot(x, x) + c * u(x)**2) * u(x) * v(x)
                                       + (g + h * u(x)**2) * jnp.dot(grad(u)(x), grad(v)(x)))
        u = mesh.scatter(space.local_covector(form, (space.scalar_function(mesh.gather(u)),
                                                     space.scalar_function(None))))
    a, b, c, e = case['energy']
    f = space.scalar_function(mesh.gather(u))
    energy = space.integrate(lambda x: a * f(x)**2 + b * jnp.dot(x, x) * f(x) + c * jnp.dot(grad(f)(x), grad(f)(x))
                             + e * f(x)**3)
    return u, energy

  def each(fn):  # on each device
    if parts is None:
      lead = lambda t: jax.tree.map(lambda a: a[None], t)
      one = lambda t: jax.tree.map(lambda a: a[0], t)
      return lambda mesh, mesh2, *a: lead(jax.jit(fn)(mesh, mesh2, *one(a)))
    if case['via'] == 'pmap':
      return jax.pmap(fn, axis_name='p')
    return jit_distributed(fn, jax.sharding.Mesh(np.array(jax.devices()[:len(own)]), 'p'), 'p')

  args, tangents, cotangents = (spread(u), spread(wx)), (spread(du), spread(dx)), (jnp.asarray(w), jnp.asarray(om))
  if case['outside']:
    fn = lambda *a: each(compute)(mesh, mesh2, *a)
    out, dout = jax.jvp(fn, args, tangents)
    gu, gx = jax.vjp(fn, *args)[1](cotangents)
  else:
    fn = lambda mesh, mesh2: lambda *a: compute(mesh, mesh2, *a)
    out, dout = each(lambda mesh, mesh2, a, da: jax.jvp(fn(mesh, mesh2), a, da))(mesh, mesh2, args, tangents)
    gu, gx = each(lambda mesh, mesh2, a, ct: jax.vjp(fn(mesh, mesh2), *a)[1](ct))(mesh, mesh2, args, cotangents)
  return dict(refused=False, partitioned=parts is not None, nodes=hlib.rats(nodes.node_values),
              nodes2=hlib.rats(other.node_values), evals=hlib.rats(quad.nodes.node_values),
              weights=hlib.rats(quad.weights_nd(1)), coords=hlib.rats(wx), elements=hlib.ints(whole.elements),
              rep=rep, fixed=sorted(fixed), own=hlib.ints(own), out=hlib.rats(out[0]), energy=hlib.rats(out[1]),
              dout=hlib.rats(dout[0]), denergy=hlib.rats(dout[1]), gu=hlib.rats(gu),
              gx=[hlib.rats(np.asarray(gx)[..., a]) for a in range(d)])
