"""Energies of niles.train.get_tke, the error of the spectra, Mesh.interpolate."""
import types

import hlib
import numpy as np

CASE_TIMEOUT = 400
TYPES = ['NEWTON_COTES', 'GAUSS_LOBATTO_LEGENDRE', 'GAUSS_LEGENDRE']


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  from swirl_fem.niles import train


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 36])
  return dict(c, kind='waves', where=hlib.ints(rng.permutation(16)))


def smallest(start):
  """From `start`, a size of which every shell has wave numbers, also (exactly) none on a bound."""
  n = start
  while True:
    m = n // 2
    a, b = np.meshgrid(*[np.arange(n) - m] * 2)
    shells = np.floor(np.sqrt((a * a + b * b) * 361 / (2. * m * m)) + 1e-12).astype(int)
    if m % 19 and set(range(18)) <= set(shells.ravel()):
      return n
    n += 1


def cases(tier, seed):
  rng = np.random.default_rng([seed, 360])
  quick = tier == 'quick'
  out = []
  for i in range(3 if quick else 10):
    order = int(rng.integers(2, 5))
    poly = lambda: hlib.rats(rng.integers(-8, 9, (order + 1, order + 1)) / 8.)
    out.append(dict(kind='mesh', elements=int(rng.integers(1, 4 if order < 4 else 3)), order=order,
                    periodic=bool(rng.random() < .7), u=poly(), v=poly()))
  for i in range(12 if quick else 80):
    d = [2, 2, 3, 1][i % 4]
    order = int(rng.integers(1, 5 if d < 3 else 4))
    c = rng.integers(-8, 9, (order + 1,) * d) / 8.
    out.append(dict(kind='interpolate', ndim=d, elements=int(rng.integers(1, 4 if d < 3 else 3)), order=order,
                    nodes=str(rng.choice(TYPES if order > 1 else TYPES[:2])), onto=str(rng.choice(TYPES)),
                    target=int(rng.integers(1, 6 if d < 3 else 4)),
                    a=hlib.rat(float(rng.integers(-4, 2)) / 4), side=hlib.rat(float(rng.integers(1, 5)) / 2),
                    periodic=bool(d < 3 and rng.random() < .4), traced=bool(rng.random() < .5), u=hlib.rats(c), top='1000'))
  for i in range(2 if quick else 8):
    n = smallest(27 + i % 2 + int(rng.integers(0, 2)))
    steps, order, batch = [2, 5, 3, 4, 1, 6, 2, 7][i], 2, 1 + i % 2
    base = rng.integers(-16, 17, (n * n, 2))
    w = [[base + rng.integers(-16, 17, (n * n, 2)) for _ in range(order + steps + 1)] for _ in range(batch)]
    out.append(dict(kind='error', n=n, steps=steps, order=order, weights=hlib.rats([.75, .5]),
                    where=hlib.ints(rng.permutation(n * n)), batch=hlib.rats(np.array(w) / 8.)))
  return out


f = lambda s: float(hlib.fraction(s))
def flt(x):
  return np.vectorize(f, otypes=[float])(np.array(x, dtype=object))


def run(case):
  import jax
  import jax.numpy as jnp
  import ml_collections
  from swirl_fem.common import premesh_commons
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.navier_stokes import navier_stokes
  from swirl_fem.niles import train
  nodes = lambda n, kind: Nodes1D.create(num_points=n, node_type=getattr(NodeType, kind))
  poly = {1: np.polynomial.polynomial.polyval, 2: np.polynomial.polynomial.polyval2d,
          3: np.polynomial.polynomial.polyval3d}
  value = lambda c, x: poly[x.shape[1]](*x.T, flt(c))
  same = types.SimpleNamespace(interpolate=lambda u, source_mesh: u)
  stub = types.SimpleNamespace(mesh=None)

  if case['kind'] == 'waves':
    where = np.array(case['where'])
    u = np.zeros((16, 2))
    u[where] = np.stack([np.ravel(case['u']), np.ravel(case['v'])], axis=-1)
    config = ml_collections.ConfigDict(dict(num_nodes=16))
    e = train.get_tke(jnp.asarray(u), types.SimpleNamespace(velocity=stub), same, where, config)
    return dict(tke=hlib.rats(e))

  if case['kind'] == 'mesh':         # the meshes of train_and_evaluate
    k, p = case['elements'], case['order']
    dims = (0, 1) if case['periodic'] else ()
    pre = premesh_commons.unit_cube_mesh(k, ndim=2, periodic_dims=dims)
    sem = navier_stokes.StokesSEM.create(pre, boundary_conditions={}, order=p)
    uniform = refine_premesh(pre, gridpoints_1d=nodes(p + 1, 'NEWTON_COTES')).finalize()
    perm = train.transfer_perm(uniform, premesh_commons.unit_cube_mesh(k * p, ndim=2).finalize())
    x = np.asarray(sem.velocity.mesh.node_coords, dtype=float)
    u = jnp.asarray(np.stack([value(case['u'], x), value(case['v'], x)], axis=-1))
    config = ml_collections.ConfigDict(dict(num_nodes=(k * p + 1)**2))
    fn = jax.jit(lambda u: train.get_tke(u, sem, uniform, perm, config))
    return dict(tke=hlib.rats(fn(u)))

  if case['kind'] == 'interpolate':
    d, a, b = case['ndim'], f(case['a']), f(case['a']) + f(case['side'])
    dims = tuple(range(d)) if case['periodic'] else ()
    pre = premesh_commons.unit_cube_mesh(case['elements'], ndim=d, periodic_dims=dims, a=a, b=b)
    source, target = [refine_premesh(pre, gridpoints_1d=nodes(n + 1, kind)).finalize()
                      for n, kind in [(case['order'], case['nodes']), (case['target'], case['onto'])]]
    u = jnp.asarray(value(case['u'], np.asarray(source.node_coords, dtype=float)))
    fn = lambda u: target.interpolate(u, source_mesh=source)
    return dict(coords=hlib.rats(target.node_coords), values=hlib.rats((jax.jit(fn) if case['traced'] else fn)(u)))

  data = jnp.asarray(flt(case['batch']))
  w = flt(case['weights'])
  n = data.shape[2]
  velocity = types.SimpleNamespace(
      mesh=types.SimpleNamespace(node_coords=jnp.zeros((n, 2)), num_nodes=n, num_elements=n,
                                 num_nodes_per_element=1, ndim=2),
      gather=lambda u: u[:, None], scatter=lambda v: v[:, 0])
  sem = types.SimpleNamespace(
      velocity=velocity, C=lambda u: u, B=lambda u: u,
      stokes_one_step=lambda us, ps, *a, **k: (w[0] * us[-1] + w[1] * us[-2], ps[-1], {}))
  model = lambda variables, x, **k: (0 * x, {k: jnp.zeros(len(x), jnp.float32) for k in [
      'kl_q0', 'kl_path', 'z0_means', 'z1_means', 'z1_stds']})
  config = ml_collections.FrozenConfigDict(dict(
      time_order=case['order'], num_steps=1, eval_num_steps=case['steps'], num_pushforward_steps=0,
      permute_elements=False, num_elements=n, num_channels=2, num_nodes=n, drag_coeff=0., dt=.1,
      reynolds_number=1., alpha=0.))
  batch = dict(u=data, p=jnp.zeros(data.shape[:3]))
  fn = jax.jit(lambda batch: train.compute_mse_loss(
      batch, {}, model_apply_fn=model, step_rng=jax.random.PRNGKey(0), kl_penalty=0., sem=sem, uniform_mesh=same,
      first_order_perm=np.array(case['where']), config=config, train=False)[1]['tke_err'])
  return dict(err=hlib.rat(float(fn(batch))))
