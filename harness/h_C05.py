"""Exchange of shared and periodic degrees of freedom."""
import hlib
hlib.devices(8)
import numpy as np

DTYPES = ['float32', 'float64', 'int32', 'int64', 'complex64', 'complex128', 'int16']


def values(rng, ids, dtype):
  """One component (two for complex) of small integers, as large as the dtype is exact."""
  hi = {'float32': 2**20, 'float64': 2**40, 'int32': 2**24, 'int64': 2**50,
        'complex64': 2**20, 'complex128': 2**40, 'int16': 900}[dtype]
  one = lambda: [[hlib.rat(int(rng.integers(-hi, hi))) for _ in row] for row in ids]
  return [one(), one()] if dtype.startswith('complex') else [one()]


def complete(c, k, seed):
  """Gives a case of the model its values."""
  rng = np.random.default_rng([seed, k])
  dtype = DTYPES[k % len(DTYPES)]
  ids = c['ids']
  return dict(partitioned=c['partitioned'], ids=ids, dtype=dtype, links=[],
              nodes=1 + max(0, max(max(r) for r in ids)), jit=bool(k % 2),
              u=values(rng, ids, dtype))


def cases(tier, seed):
  rng = np.random.default_rng(seed)
  out = []
  for k in range(70 if tier == 'quick' else 900):
    partitioned = bool(k % 2)
    P = int(rng.integers(1, 9)) if partitioned else 1
    n = int(rng.integers(2, 20))
    if partitioned:
      width = int(rng.integers(1, 7))
      ids = []
      for _ in range(P):
        m = int(rng.integers(0 if P > 1 else 1, min(width, n) + 1))
        row = sorted(int(x) for x in rng.permutation(n)[:m])
        if rng.random() < .3:
          row = [int(x) for x in rng.permutation(row)]
        ids.append(row + [-1] * (width - m))
    else:
      ids = [list(range(n))]
    links = []
    if k % 4 >= 2:
      for _ in range(int(rng.integers(1, 5))):
        w = int(rng.integers(1, 3))
        links.append([[int(x) for x in rng.integers(0, n, w)],
                      [int(x) for x in rng.integers(0, n, w)]])
      w = min(len(f) for l in links for f in l)
      links = [[f[:w] for f in l] for l in links]
    dtype = DTYPES[int(rng.integers(len(DTYPES)))]
    out.append(dict(partitioned=partitioned, ids=ids, dtype=dtype, links=links, nodes=n,
                    jit=bool(rng.integers(2)), u=values(rng, ids, dtype)))
  return out


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  import swirl_fem.core.gather_scatter


def run(case):
  import jax
  import jax.numpy as jnp
  from swirl_fem.core import gather_scatter as gs
  ids = np.array(case['ids'], np.int32)
  if not case['partitioned']:
    ids = ids[0]
  links = np.array(case['links'], np.int32) if case['links'] else None
  unrat = lambda r: [[int(x) for x in row] for row in r]
  u = np.array(unrat(case['u'][0]), dtype=case['dtype'] if len(case['u']) == 1 else 'float64')
  if len(case['u']) == 2:
    u = (u + 1j * np.array(unrat(case['u'][1]))).astype(case['dtype'])
  try:
    unique = gs.get_unique_node_indices(ids, links)
    gather_indices, unique_indices = gs.get_exchange_indices(unique)
  except NotImplementedError:
    return dict(refused=True)
  if case['partitioned']:
    f = lambda u, g: gs.exchange(u, g, unique_indices, axis_name='p')
    out = jax.pmap(f, axis_name='p')(jnp.asarray(u), jnp.asarray(gather_indices))
  else:
    f = lambda u: gs.exchange(u, jnp.asarray(gather_indices), unique_indices)
    out = (jax.jit(f) if case['jit'] else f)(jnp.asarray(u[0]))[None]
  out = np.asarray(out)
  parts = [out.real, out.imag] if np.iscomplexobj(out) else [out]
  enc = lambda a: [[hlib.rat(x) if a.dtype.kind == 'f' else hlib.rat(int(x)) for x in row]
                   for row in a]
  return dict(refused=False, dtype=str(out.dtype), out=[enc(a) for a in parts],
              unique=hlib.ints(unique if case['partitioned'] else unique[None]))
