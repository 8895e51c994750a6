"""Element order, node transfer and energy spectrum of niles.train."""
import math
import types

import hlib
import numpy as np


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  from swirl_fem.niles import train


def complete(c, k, seed):
  return c


def cases(tier, seed):
  rng = np.random.default_rng([seed, 29])
  out = [dict(kind='perm', first=2, patches=[2, 3], size=12, default=True)]
  for _ in range(20 if tier == 'quick' else 150):
    d = int(rng.integers(1, 4))
    grid = np.array(list(np.ndindex(*[int(x) for x in rng.integers(2, 9 - 2 * d, size=d)])))
    src = 8 * grid + (rng.integers(-3, 4, size=grid.shape) if rng.random() < .5 else 0)
    tgt = src if rng.random() < .5 else src + rng.integers(-2, 3, size=src.shape)
    tgt = tgt[rng.permutation(len(tgt))[:int(rng.integers(1, len(tgt) + 1))]]
    src = src[rng.permutation(len(src))]
    out.append(dict(kind='transfer', source=hlib.ints(src), target=hlib.ints(tgt)))
  for _ in range(6 if tier == 'quick' else 30):
    first, patches = int(rng.integers(1, 5)), [int(x) for x in rng.integers(2, 4, int(rng.integers(1, 5)))]
    if first * np.prod(patches) < 50:
      out.append(dict(kind='perm', first=first, patches=patches, size=int(first * np.prod(patches))))
  for d, side in ((1, 200), (2, 20), (3, 7)):
    src = 8 * np.array(list(np.ndindex(*[side] * d)))
    out.append(dict(kind='transfer', source=hlib.ints(src[rng.permutation(len(src))]), target=hlib.ints(src)))
  for n in [2, 3, 4, 5, 7, 8, 13, 24, 49] + ([] if tier == 'quick' else list(range(9, 33))):
    out.append(dict(kind='spectrum', n=n, energy=hlib.ints(rng.integers(1, 1000, size=(n, n)))))
  return out


def run(case):
  from swirl_fem.niles import train
  if case['kind'] == 'perm':
    if case.get('default'):
      p = train.make_multiscale_perm()
    else:
      sides = np.cumprod([case['first']] + case['patches'])
      p = train.make_multiscale_perm(size=case['size'], patch_sizes=tuple(case['patches']),
                                     factors=tuple(int(s) for s in sides[:-1]))
    return dict(perm=hlib.ints(p))
  if case['kind'] == 'transfer':
    mesh = lambda x: types.SimpleNamespace(node_coords=np.array(x, dtype=float) / 8,
                                           num_nodes=len(x))
    return dict(perm=hlib.ints(train.transfer_perm(mesh(case['source']), mesh(case['target']))))
  n = case['n']
  bounds, spectrum = train.get_energy_spectrum(
      np.array(case['energy'], dtype=float), types.SimpleNamespace(num_nodes=n * n))
  want = np.arange(1, 19) / 19 * math.sqrt(2) * (n // 2)
  return dict(spectrum=hlib.ints(np.rint(np.asarray(spectrum))),
              bounds_ok=bool(np.shape(bounds) == (18,) and np.allclose(bounds, want)))
