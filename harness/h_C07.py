"""Periodic identification and masks."""
import hlib
hlib.devices(8)
import meshes
from meshes import from_model, from_model_unpartitioned
import finalize
from finalize import run, setup
import numpy as np


def cases(tier, seed):
  rng = np.random.default_rng([seed, int('C07'[1:])])
  out = []
  for k in range(48 if tier == 'quick' else 500):
    out.append(meshes.structured(rng, k % 2 == 0, True) if k % 3
               else meshes.arbitrary(rng, k % 2 == 0))
  for k in range(24 if tier == 'quick' else 250):
    out.append(meshes.chained(rng, k % 3 == 0))
  for k in range(8 if tier == 'quick' else 80):
    out.append(meshes.structured(rng, k % 2 == 0, True, max_nodes=500, large=True))
  return out
