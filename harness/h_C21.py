"""Coefficients of the time stepping schemes."""
import hlib
from fe import setup


def cases(tier, seed):
  return []


def run(case):
  import numpy as np
  from swirl_fem.navier_stokes import navier_stokes as ns
  return dict(bdf=hlib.rats(np.asarray(ns.bdfk_coeffs(case['k']))),
              ext=hlib.rats(np.asarray(ns.extk_coeffs(case['k']))))
