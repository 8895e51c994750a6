"""Crystal router: drives crystal_router_setup on message patterns."""
import hlib
hlib.devices(16)
import numpy as np


def cases(tier, seed):
  rng = np.random.default_rng(seed)
  out = []
  n = 6 if tier == 'quick' else 40
  for P in (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16):
    L = int(rng.integers(7, 40) if P in (3, 7, 11) else rng.integers(1, 7))
    for k in range(n if P < 7 or tier != 'quick' else 3 if P < 9 else 2):
      style = (k + P) % 6
      targets = []
      for d in range(P):
        m = L if style in (1, 3) else int(rng.integers(0, L + 1))
        if style == 1:    # everything to one device
          t = [(seed + k) % P] * m
        elif style == 2:  # everything to two neighbours
          t = [int(x) for x in (rng.integers(0, 2, m) + seed) % P]
        elif style == 3:  # a permutation of the devices
          t = [(d * (P - 1) + k) % P] * m
        elif style == 4 and d % 2:  # half of the devices are silent
          t = []
        else:
          t = [int(x) for x in rng.integers(0, P, m)]
        targets.append(t)
      out.append(dict(P=P, L=L, targets=targets, axes=1))
  for shape in ((2, 3), (4, 2), (3, 4)):  # along a pair of mesh axes, and one of two
    L = 3
    for which in ('both', 'first', 'second'):
      P = {'both': shape[0] * shape[1], 'first': shape[0], 'second': shape[1]}[which]
      for k in range(2 if tier == 'quick' else 10):
        out.append(dict(
            P=P, L=L, axes=2, shape=list(shape), which=which,
            targets=[[int(x) for x in rng.integers(0, P, int(rng.integers(0, L + 1)))]
                     for _ in range(P)]))
  return out


_routers = {}


def setup():
  import jax
  from swirl_fem.communication.crystal_router import crystal_router_setup
  assert jax.device_count() == 16


def router(case):
  import jax
  from jax.sharding import Mesh
  from swirl_fem.communication.crystal_router import crystal_router_setup
  key = (case['P'], tuple(case.get('shape', ())), case.get('which'))
  if key not in _routers:
    dev = np.array(jax.devices())
    if case.get('axes', 1) == 1:
      _routers[key] = crystal_router_setup(Mesh(dev[:case['P']], ('i',)), 'i')
    else:
      a, b = case['shape']
      mesh = Mesh(dev[:a * b].reshape(a, b), ('i', 'j'))
      _routers[key] = crystal_router_setup(
          mesh, {'both': ('i', 'j'), 'first': 'i', 'second': 'j'}[case['which']])
  return _routers[key]


def leaves(ids):
  ids = np.asarray(ids)
  return dict(
      ids=ids.astype(np.int32),
      pair=np.stack([ids, 3 * ids + 1], -1).astype(np.float32) / 2,
      small=((ids % 100) - 0).astype(np.int8), flag=ids % 3 == 0)


def record(n, data, source=None):
  n = np.asarray(n)
  cut = lambda a: [np.asarray(a)[q][:n[q]] for q in range(len(n))]
  r = dict(n=[int(x) for x in n],
           ids=[hlib.ints(x) for x in cut(data['ids'])],
           pair=[hlib.ints(np.round(x * 2)) for x in cut(data['pair'])],
           small=[hlib.ints(x) for x in cut(data['small'])],
           flag=[[bool(y) for y in x] for x in cut(data['flag'])])
  if source is not None:
    r['source'] = [hlib.ints(x) for x in cut(source)]
  return r


def run(case):
  P, L = case['P'], case['L']
  crystal = router(case)
  n = np.array([len(t) for t in case['targets']], np.int32)
  # unused slots hold ids and targets that must never be seen again
  ids = 10000 + np.arange(P * L).reshape(P, L)
  target = np.zeros((P, L), np.int32)
  for d, t in enumerate(case['targets']):
    ids[d, :len(t)] = d * L + np.arange(len(t))
    target[d, :len(t)] = t
    target[d, len(t):] = (d + 1) % P
  data = leaves(ids)
  n1, d1, s1 = crystal(n, data, target)
  n2, d2 = crystal(n, data, target, return_source=False)
  # to limit the number of compilations, return from arrays of length 2^k
  m = s1.shape[1]
  pad = (1 << max(0, m - 1).bit_length()) - m
  widen = lambda a: np.concatenate(
      [np.asarray(a), np.zeros((P, pad) + a.shape[2:], a.dtype)], 1)
  n3, d3, s3 = crystal(n1, {k: widen(v) for k, v in d1.items()}, widen(s1))
  dt = lambda d: {k: str(np.asarray(v).dtype) for k, v in d.items()}
  return dict(out=record(n1, d1, s1), nosource=record(n2, d2),
              back=record(n3, d3, s3), dtypes=dt(d1), dtypes_in=dt(data))
