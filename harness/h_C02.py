"""pscan and preduce over one or two mesh axes."""
import hlib
hlib.devices(16)
import numpy as np

OPS = ['add', 'multiply', 'maximum', 'minimum', 'bitwise_and', 'bitwise_or',
       'bitwise_xor']
INTS = dict(bool=(1, False), int8=(8, True), uint8=(8, False), int16=(16, True),
            uint16=(16, False))
BIG = ['int32', 'int64', 'uint32', 'float32', 'float64', 'bfloat16']


def leaf(rng, op, dtype, P, shape):
  k = int(np.prod(shape))
  if dtype in INTS:
    w, signed = INTS[dtype]
    lo, hi = (-2**(w - 1), 2**(w - 1)) if signed else (0, 2**w)
    v = rng.integers(lo, hi, (P, k))
    v[rng.random((P, k)) < .15] = lo
    v[rng.random((P, k)) < .15] = hi - 1
    return dict(dtype=dtype, mode='int', w=w, signed=signed, shape=list(shape),
                vals=[[int(x) for x in r] for r in v])
  if dtype.startswith('float') or dtype == 'bfloat16':
    if op == 'multiply':
      v = np.where(rng.random((P, k)) < .6, 1, 2.0) * rng.choice([-1, 1], (P, k))
      v[rng.random((P, k)) < .2] = 0.5
    else:
      v = rng.integers(-8, 9, (P, k)) / 2.0
      if op in ('maximum', 'minimum'):
        v[rng.random((P, k)) < .5] = np.inf if op == 'minimum' else -np.inf
        v[rng.random((P, k)) < .1] = -np.inf if op == 'minimum' else np.inf
  else:
    info = np.iinfo(dtype)
    if op == 'multiply':
      v = rng.integers(0 if dtype[0] == 'u' else -3, 4, (P, k))
    elif op == 'add':
      v = rng.integers(0 if dtype[0] == 'u' else -10**7, 10**7, (P, k))
    else:
      v = rng.integers(info.min, info.max, (P, k), dtype=dtype)
      v[rng.random((P, k)) < .2] = info.min
      v[rng.random((P, k)) < .2] = info.max
  f = hlib.num if 'float' in dtype else lambda x: hlib.rat(int(x))
  return dict(dtype=dtype, mode='real', w=0, signed=dtype[0] != 'u', shape=list(shape),
              vals=[[str(f(x)) for x in r] for r in v])


def cases(tier, seed):
  rng = np.random.default_rng(seed)
  out = []
  sizes = list(range(1, 10)) + [11, 12, 16]
  reps = 3 if tier == 'quick' else 20
  for rep in range(reps):
    for op in OPS:
      for i, P in enumerate(sizes):
        small = [d for d in INTS if not (d == 'bool' and op in ('add', 'multiply'))
                 and not (d == 'uint16' and op == 'multiply')]
        big = [] if op.startswith('bit') else BIG
        if op in ('maximum', 'minimum'):  # limits of machine integers as exact numbers
          big = [d for d in BIG if 'float' in d]
        kinds = [small[(i + rep + seed) % len(small)]]
        if big:
          kinds.append(big[(i + rep + seed) % len(big)])
        shapes = [(), (2,), (2, 3), (0,)]
        out.append(dict(
            P=P, op=op, mesh=0,
            leaves=[leaf(rng, op, d, P, shapes[int(rng.integers(0, 3))])
                    for d in kinds]))
      a, b = [(2, 3), (4, 3), (3, 2)][(OPS.index(op) + seed) % 3]
      out.append(dict(P=a if op != 'add' else b, op=op, mesh=[a, b],
                      axis='i' if op != 'add' else 'j',
                      leaves=[leaf(rng, op, 'uint8', a if op != 'add' else b, (2,))]))
      out.append(dict(P=a * b, op=op, mesh=[a, b], axis='ij',
                      leaves=[leaf(rng, op, 'int16', a * b, (2,))]))
  return out


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  import swirl_fem.communication.pscan


def unrat(s):
  if s in ('inf', '-inf'):
    return float(s)
  if 'p' in s:
    m, e = s.split('p')
    return int(m) * 2.0**int(e) if int(e) < 0 else int(m) * 2**int(e)
  return int(s)


def run(case):
  import jax
  import jax.numpy as jnp
  from jax.sharding import Mesh
  from swirl_fem.communication.jit_distributed import jit_distributed
  from swirl_fem.communication.pscan import preduce, pscan
  P, op = case['P'], getattr(jnp, case['op'])
  dev = np.array(jax.devices())
  if case['mesh']:
    a, b = case['mesh']
    mesh = Mesh(dev[:a * b].reshape(a, b), ('i', 'j'))
    axis = ('i', 'j') if case['axis'] == 'ij' else case['axis']
  else:
    mesh, axis = Mesh(dev[:P], ('i',)), 'i'
  x = {}
  for k, l in enumerate(case['leaves']):
    vals = [[unrat(v) if isinstance(v, str) else v for v in r] for r in l['vals']]
    x[f'leaf{k}'] = jnp.asarray(
        np.array(vals, dtype=jnp.dtype(l['dtype'])).reshape([P] + l['shape']))

  def rec(y):
    out = []
    for k, l in enumerate(case['leaves']):
      v = np.asarray(y[f'leaf{k}'])
      flat = v.reshape(P, -1)
      enc = ((lambda e: int(e)) if l['mode'] == 'int' else
             (lambda e: str(hlib.num(e)) if 'float' in l['dtype'] else hlib.rat(int(e))))
      out.append(dict(dtype=str(v.dtype), shape=list(v.shape[1:]),
                      vals=[[enc(e) for e in r] for r in flat]))
    return out

  f = jit_distributed(
      lambda x: (pscan(x, op, axis), pscan(x, op, axis, reduction=True),
                 preduce(x, op, axis)), mesh, axis)
  scan, (scan2, red2), red = f(x)
  return dict(scan=rec(scan), scan2=rec(scan2), red2=rec(red2), red=rec(red))
