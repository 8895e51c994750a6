import hlib
import numpy as np
import stokes
from stokes import setup


def dress(rng, c, k=None, steps=None):
  c = dict(c)
  if all(s // 2 in c['per'] for s in c['open']):   # opening a periodic side opens nothing
    c['open'] = []
  closed = not c['open']
  c.update(kind='steps', k=k or int(rng.integers(1, 4)),
           steps=steps or int(rng.choice([1, 1, 2, 3])),
           dt=float(rng.choice([.01, .125, .5])), mu=float(rng.choice([.02, .3, 1])),
           alpha=float(rng.choice([0, .05, .05, .25])),
           tol=float(rng.choice([1e-8, 1e-10])), lift=bool(closed and rng.random() < .4),
           default=bool(rng.random() < .3), jit=bool(rng.random() < .3),
           atol=0.,
           # a closed flow has pressures up to a constant
           project=closed, pseed=int(rng.integers(1 << 30)))
  if c['lift']:
    c['per'] = []
  return c


def complete(c, k, seed):
  """A scenario of the model: order of the scheme, number of steps, boundary."""
  rng = np.random.default_rng([seed, k, 23])
  g = stokes.grid_case(rng, d=2, small=True)
  g['open'] = [] if c['closed'] else [int(rng.integers(4))]
  return dress(rng, g, c['order'], c['steps'])


def cases(tier, seed):
  rng = np.random.default_rng([seed, 230])
  out = []
  for i in range(16 if tier == 'quick' else 120):
    out.append(dress(rng, stokes.grid_case(rng, small=True)))
  for i in range(4 if tier == 'quick' else 30):
    out.append(dress(rng, stokes.large_case(rng), steps=1))
  for i in range(3 if tier == 'quick' else 20):    # an absolute tolerance (only)
    c = dress(rng, stokes.grid_case(rng, d=2, small=True))
    c.update(atol=float(rng.choice([1e-4, 1e-3])), tol=[0., 1e-9][i % 3 == 2])
    out.append(c)
  for i in range(2 if tier == 'quick' else 12):    # corners with four images, nearly exact
    c = dict(stokes.grid_case(rng, d=2), per=[0, 1], n=int(rng.integers(2, 5)), order=3, open=[])
    out.append(dict(dress(rng, c, steps=1), tol=1e-13, default=False))
  for i in range(4 if tier == 'quick' else 30):
    out.append(dict(dress(rng, stokes.grid_case(rng, d=2, small=True), steps=1), kind='derivative'))
  return out


def solenoidal(rng, x):
  """A linear field without divergence (and so without net flux)."""
  d = x.shape[1]
  a = rng.integers(-3, 4, (d, d)).astype(float)
  a[np.diag_indices(d)] = 0
  t = rng.integers(-2, 3, d - 1).astype(float) if d > 1 else np.zeros(0)
  for i, v in enumerate(t):
    a[i, i] += v
    a[i + 1, i + 1] -= v
  return x @ a.T + rng.integers(-2, 3, d)


def problem(case):
  import jax.numpy as jnp
  sem, grid = stokes.create(case)
  rng = np.random.default_rng(case['pseed'])
  nv, npr, d = sem.velocity.mesh.num_nodes, sem.pressure.pspace.mesh.num_nodes, case['d']
  mask = np.broadcast_to(np.asarray(sem.velocity.interior_mask), (nv, d))
  field = lambda: rng.integers(-8, 9, (nv, d)) / 4.
  k = case['k']
  us = [jnp.asarray(stokes.average(sem.velocity.mesh, field())) for _ in range(k)]
  ps = [jnp.asarray(rng.integers(-8, 9, npr) / 4.) for _ in range(max(k, 2))]
  ub = None
  if case['lift']:
    lift = solenoidal(rng, np.asarray(sem.velocity.mesh.node_coords))
    ub = jnp.asarray((1 - mask) * lift) if case['pseed'] % 2 else jnp.asarray(lift)
  force = lambda: jnp.asarray(mask * field())
  kw = dict(mu=case['mu'], dt=case['dt'], time_order=k, u_boundary=ub, tol=case['tol'])
  if case.get('atol'):
    kw['atol'] = case['atol']
  if case['alpha'] != .05 or not case['default']:
    kw['alpha'] = case['alpha']
  if case['default'] and case['tol'] == 1e-8:
    del kw['tol']
  if not case['default'] or not case['project']:
    kw['project_out_nullspace'] = case['project']
  return sem, grid, us, ps, ub, force, kw


def run(case):
  if case['kind'] == 'derivative':
    return derivative(case)
  import jax
  sem, grid, us, ps, ub, force, kw = problem(case)
  out = dict(grid=grid, u0=[hlib.rats(u) for u in us], p0=[hlib.rats(p) for p in ps],
             dt=hlib.rat(case['dt']), mu=hlib.rat(case['mu']), tol=hlib.rat(case['tol']),
             atol=hlib.rat(case.get('atol', 0.)), alpha=hlib.rat(case['alpha']), steps=[])
  if ub is not None:
    out['ub'] = hlib.rats(ub)
  # (all arrays are arguments of the step, because XLA 0.6.2 folds some constants
  # into the wrong layout)
  step = lambda us, ps, f, ub: sem.stokes_one_step(us, ps, f, **dict(kw, u_boundary=ub))
  if case['jit']:
    step = jax.jit(step)
  for _ in range(case['steps']):
    f = force()
    u, p, aux = step(us, ps, f, ub)
    out['steps'].append(dict(
        u=hlib.rats(u), p=hlib.rats(p), f=hlib.rats(f),
        iterations=[int(aux['u_star_info']['num_iterations']), int(aux['dp_info']['num_iterations'])],
        ustar_residual=hlib.rat(float(aux['u_star_info']['residual'])),
        dp_residual=hlib.rat(float(aux['dp_info']['residual']))))
    us, ps = [*us[1:], u], [*ps[1:], p]
  return out


def derivative(case):
  """The step is affine: its derivative both ways, and its differences."""
  import jax
  sem, grid, us, ps, ub, force, kw = problem(dict(case, tol=1e-13))
  rng = np.random.default_rng(case['pseed'] + 1)
  kw['tol'] = 1e-13
  fn = lambda us, ps, f: sem.stokes_one_step(us, ps, f, **kw)[:2]
  like = lambda x: jax.numpy.asarray(rng.integers(-4, 5, x.shape) / 2.)
  x = (us, ps, force())
  v = ([jax.numpy.asarray(stokes.average(sem.velocity.mesh, np.asarray(like(u)))) for u in us],
       [like(p) for p in ps], force())
  y, jv = jax.jvp(fn, x, v)
  y2 = fn(*jax.tree_util.tree_map(lambda a, b: a + b, x, v))
  w = [like(y[0]), like(y[1])]
  if case['project']:    # the pressure of a closed flow is known up to a constant
    w[1] = w[1] - w[1].mean()
  w = tuple(w)
  _, pull = jax.vjp(fn, *x)
  wj = pull(w)
  flat = lambda t: hlib.rats(np.concatenate([np.asarray(a).ravel() for a in jax.tree_util.tree_leaves(t)]))
  return dict(y=flat(y), y2=flat(y2), jv=flat(jv), v=flat(v), w=flat(w), wj=flat(wj))
