"""Conjugate gradients on small systems."""
import hlib
import numpy as np


def setup():
  hlib.devices(1)
  import jax
  jax.config.update('jax_enable_x64', True)


def from_model(c, k, seed):
  rng = np.random.default_rng([seed, k, 19])
  n = len(c['b'])
  ident = all(c['M'][i][i] == 1 for i in range(n))
  return dress(rng, dict(A=c['A'], b=c['b'], x0=c['x0'], wts=[1] * n,
                         pre='none' if ident else 'jacobi'), c['steps'])


def dress(rng, c, steps):
  n = len(c['b'])
  single = rng.random() < .2
  c.update(tol=float(rng.choice([1e-1, 1e-2, 1e-3] if single else [1e-1, 1e-3, 1e-5, 1e-6])),
           atol=float(rng.choice([0., 0., 1e-2, .5])),
           maxiter=int(rng.choice([0, 1, 2, steps, 10 * n])), dtype='float32' if single else 'float64',
           split=str(rng.choice(['flat', 'dict', 'nested'])) if n > 1 else 'flat',
           default=[str(d) for d in rng.choice(['tol', 'atol', 'maxiter', 'x0', 'M'], 2)])
  for d in c['default']:
    if d == 'tol':
      c['tol'] = 1e-5
    if d == 'atol':
      c['atol'] = 0.
    if d == 'maxiter':
      c['maxiter'] = 10 * n
    if d == 'x0':
      c['x0'] = [0] * n
    if d == 'M' and c['pre'] != 'none':
      c['default'] = [x for x in c['default'] if x != 'M']
  if single and c['tol'] < 1e-3:
    c['dtype'] = 'float64'
  c['eps'] = '1p-9' if c['dtype'] == 'float32' else '1p-24'
  return c


def cases(tier, seed):
  rng = np.random.default_rng([seed, 190])
  out = []
  for k in range(60 if tier == 'quick' else 500):
    n = int(rng.integers(1, 8))
    l = rng.integers(-2, 3, (n, n))
    a = l @ l.T + np.diag(rng.integers(1, 9, n)) * int(rng.integers(1, 4))
    w = rng.choice([1, 2, 4, .5], n).tolist() if rng.random() < .3 else [1] * n
    b = rng.integers(-9, 10, n).tolist() if rng.random() < .9 else [0] * n
    c = dict(A=a.tolist(), b=b, wts=w,
             x0=rng.integers(-5, 6, n).tolist() if rng.random() < .5 else [0] * n,
             pre=str(rng.choice(['none', 'jacobi', 'dense'])) if w == [1] * n else 'none')
    c = dress(rng, c, n)
    if not any(b) and any(c['x0']):
      c['x0'] = [0] * n
    out.append(c)
  return out


def run(case):
  import jax
  import jax.numpy as jnp
  from swirl_fem.linalg.cg import cg
  n = len(case['b'])
  dt = np.dtype(case['dtype'])
  A = np.array(case['A'], dt)
  w = np.array(case['wts'], dt)
  if case['pre'] == 'none':
    M = np.eye(n, dtype=dt)
  elif case['pre'] == 'jacobi':
    M = np.diag(1 / np.diag(A)).astype(dt)
  else:
    q = np.random.default_rng(n).integers(-1, 2, (n, n))
    M = (q @ q.T / 8 + np.eye(n)).astype(dt)

  if case['split'] == 'flat':
    pack = lambda v: v
    unpack = lambda t: t
  elif case['split'] == 'dict':
    pack = lambda v: dict(u=v[:1], v=v[1:])
    unpack = lambda t: jnp.concatenate([t['u'], t['v']])
  else:
    pack = lambda v: (v[:n // 2].reshape(-1, 1), [v[n // 2:].reshape(1, -1)])
    unpack = lambda t: jnp.concatenate([t[0].ravel(), t[1][0].ravel()])
  op = lambda t: pack(jnp.matmul(A, unpack(t), precision='highest') / w)
  kw = dict(tol=case['tol'], atol=case['atol'], maxiter=case['maxiter'],
            x0=pack(jnp.asarray(case['x0'], dt)))
  if case['pre'] != 'none':
    kw['M'] = lambda t: pack(jnp.matmul(M, unpack(t), precision='highest'))
  for d in case['default']:
    kw.pop(d, None)
  if any(x != 1 for x in case['wts']):
    if case['split'] == 'flat':
      kw['dot_fn'] = lambda a, b: jnp.sum(jnp.asarray(w) * a * b)
    else:
      # uniform weight per call is not possible for several leaves
      w = np.ones_like(w)
      op = lambda t: pack(jnp.matmul(A, unpack(t), precision='highest'))
  b = pack(jnp.asarray(case['b'], dt))
  x, info = cg(op, b, **kw)
  same = (jax.tree_util.tree_structure(x) == jax.tree_util.tree_structure(b)
          and [(l.shape, l.dtype) for l in jax.tree_util.tree_leaves(x)]
          == [(l.shape, l.dtype) for l in jax.tree_util.tree_leaves(b)])
  return dict(A=hlib.rats(A), M=hlib.rats(M), w=hlib.rats(w), b=hlib.rats(unpack(b)),
              x0=hlib.rats(np.asarray(case['x0'], dt)), tol=hlib.rat(case['tol']),
              atol=hlib.rat(case['atol']), x=hlib.rats(unpack(x)),
              residual=hlib.rat(info['residual']), iterations=int(info['num_iterations']),
              same_structure=bool(same))
