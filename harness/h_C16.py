"""Interpolation and differentiation."""
import hlib
import numpy as np
from h_C15 import NAMES, setup


def from_model(c, k, seed):
  rng = np.random.default_rng([seed, k, 16])
  return make(rng, c['n'], 1, ['nc', 'gl', 'gll'][k % 3])


def make(rng, n, d, kind, points=0):
  ekind = str(rng.choice(list(NAMES) + ['single', 'single', 'same']))
  if ekind == 'same':
    ekind, m = kind, n
  elif ekind == 'single':
    m = 1
  else:
    m = int(rng.integers(2, 7 if d < 3 else 4))
  if points:
    ekind, m = str(rng.choice(['gl', 'gll'])), points
  dtype = 'float32' if rng.random() < .2 else 'float64'
  lebesgue = 2.0**n / 4 if kind == 'nc' else n
  ulp = 2.0**-52 * 4**d * n**2 * max(1, lebesgue)**d * 16
  uulp = ulp * 100 * (2.0**29 if dtype == 'float32' else 1)
  deriv = 4.0 * n * n
  return dict(d=d, kind=kind, num=n, ekind=ekind, enum=m,
              x=str(rng.choice([-1, 1, 0.3, -0.77, 1.25, 1 / 3])), dtype=dtype,
              # or close to a node
              near=int(rng.integers(0, 2 * n)), delta=float(rng.choice([-1, 1])) * 2.0**-int(rng.integers(4, 40)),
              u=[int(v) for v in rng.integers(-20, 21, n**d)],
              tol=hlib.rat(ulp), dtol=hlib.rat(ulp * deriv), utol=hlib.rat(uulp),
              udtol=hlib.rat(uulp * deriv))


def cases(tier, seed):
  rng = np.random.default_rng([seed, 160])
  out = []
  for k in range(60 if tier == 'quick' else 500):
    d = int(rng.integers(1, 4))
    n = int(rng.integers(2, {1: 11, 2: 6, 3: 5}[d] + (tier != 'quick')))
    out.append(make(rng, n, d, str(rng.choice(list(NAMES)))))
  # many points
  for k in range(8 if tier == 'quick' else 40):
    d = 1 + k % 2
    many = lambda: int(rng.integers(11, 31)) if d == 1 else int(rng.integers(7, 11))
    out.append(make(rng, many(), d, str(rng.choice(['gl', 'gll'])), many() if k % 4 > 1 else 0))
  return out


def run(case):
  import jax.numpy as jnp
  from swirl_fem.core import interpolation as ip
  grid = ip.Nodes1D.create(num_points=case['num'], node_type=getattr(ip.NodeType, NAMES[case['kind']]))
  if case['ekind'] == 'single':
    x = float(case['x'])
    if case['near'] < case['num']:
      x = float(grid.node_values[case['near']]) + case['delta']
    ev = ip.Nodes1D.create_single_point(np.array(x))
  else:
    ev = ip.Nodes1D.create(num_points=case['enum'], node_type=getattr(ip.NodeType, NAMES[case['ekind']]))
  b = ip.BarycentricInterpolator(ndim=case['d'], gridpoints_1d=grid, evalpoints_1d=ev)
  u = jnp.asarray(case['u'], case['dtype'])
  v = b.interpolate(u)
  g = b.interpolate_grad(u)
  dt = {str(v.dtype), str(g.dtype)}
  if case['dtype'] == 'float32':   # the matrices are float64
    dt = {'float32'} if dt <= {'float32', 'float64'} else dt
  return dict(nodes=hlib.rats(grid.node_values), evals=hlib.rats(ev.node_values),
              matrix=hlib.rats(b.interpolation_matrix()),
              gradient=hlib.rats(b.interpolation_matrix_grad()),
              values=hlib.rats(v), grads=hlib.rats(g), dtype=','.join(sorted(dt)))
