"""Encoding of recorded values for the specification (see spec/BigRat.tla)."""
from fractions import Fraction
import math
import os

import numpy as np


def devices(n, fast_compile=True):
  """Must be called before jax is first used."""
  os.environ['XLA_FLAGS'] = f'--xla_force_host_platform_device_count={n}' + (
      ' --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true'
      if fast_compile else '')


def num(x):
  """Exact encoding of a scalar: an int, or a BigRat string."""
  if isinstance(x, (bool, np.bool_)):
    return bool(x)
  if isinstance(x, (int, np.integer)):
    x = int(x)
    return x if abs(x) < 2**31 else str(x)
  x = float(x)
  if math.isnan(x):
    return 'nan'
  if math.isinf(x):
    return 'inf' if x > 0 else '-inf'
  return rat(x)


def rat(x):
  """Exact BigRat string of a float (or int)."""
  x = float(x) if not isinstance(x, (int, np.integer)) else int(x)
  if isinstance(x, float) and not math.isfinite(x):
    return 'nan'
  n, d = x.as_integer_ratio()
  if d == 1:
    if abs(n) < 2**63:
      return str(n)
    k = (n & -n).bit_length() - 1
    return f'{n >> k}p{k}'
  return f'{n}p-{d.bit_length() - 1}'


def fraction(s):
  """The number a BigRat string stands for."""
  s = str(s)
  if 'p' in s:
    m, e = s.split('p')
    return Fraction(m) * Fraction(2)**int(e)
  return Fraction(s)


def arr(a):
  """Nested lists of `num`."""
  a = np.asarray(a)
  if a.ndim == 0:
    return num(a[()])
  return [arr(x) for x in a]


def rats(a):
  """Nested lists of `rat` (for values the specification treats as reals)."""
  a = np.asarray(a)
  if a.ndim == 0:
    return rat(a[()])
  return [rats(x) for x in a]


def ints(a):
  a = np.asarray(a)
  if a.ndim == 0:
    return int(a)
  return [ints(x) for x in a]


def shape(a):
  return [int(s) for s in np.shape(a)]
