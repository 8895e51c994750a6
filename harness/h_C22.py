import numpy as np
import stokes
from stokes import setup


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 22])
  return dress(rng, stokes.grid_case(rng), c['order'])


def dress(rng, c, k):
  return dict(c, kind='operators', k=k, dt=float(rng.choice([1e-3, .01, .5])),
              alpha=float(rng.choice([0, .05, .3, 1])))


def cases(tier, seed):
  rng = np.random.default_rng([seed, 220])
  out = [dict(stokes.grid_case(rng, d=2), kind='refused')]
  for _ in range(24 if tier == 'quick' else 200):
    out.append(dress(rng, stokes.grid_case(rng), int(rng.integers(1, 4))))
  for _ in range(6 if tier == 'quick' else 40):
    out.append(dress(rng, stokes.large_case(rng), int(rng.integers(1, 4))))
  return out


def run(case):
  return stokes.refusal(case) if case['kind'] == 'refused' else stokes.operators(case)
