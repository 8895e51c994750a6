"""Refined meshes; see refine.py."""
import refine
from refine import from_model, run, setup


def cases(tier, seed):
  return refine.make([seed, 10], 60 if tier == 'quick' else 600, tier != 'quick')
