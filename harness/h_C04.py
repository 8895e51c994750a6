"""SemiTracedScalar: stack programs, local against global view."""
import hlib
hlib.devices(12)
from fractions import Fraction
import operator
import numpy as np

OPS = ['add', 'sub', 'mul', 'floordiv', 'mod', 'pow', 'lshift', 'rshift', 'and',
       'xor', 'or', 'lt', 'le', 'eq', 'ne', 'gt', 'ge']


REAL = ['add', 'sub', 'mul', 'truediv', 'lt', 'le', 'eq', 'ne', 'gt', 'ge']


def execute_real(prog, i, n):
  """Whether the program is exact in floating point."""
  st = []
  for ins in prog:
    op = ins['op']
    if op in ('index', 'size', 'const'):
      st.append(dict(index=Fraction(i), size=Fraction(n)).get(op) if op != 'const' else hlib.fraction(ins['c']))
      continue
    if op == 'where':
      z, y, x = st.pop(), st.pop(), st.pop()
      st.append(y if x else z)
      continue
    f = ins.get('f', op)
    if op == 'right':
      a, b = st.pop(), hlib.fraction(ins['c'])
    elif op == 'left':
      a, b = hlib.fraction(ins['c']), st.pop()
    else:
      b, a = st.pop(), st.pop()
    if f == 'truediv' and b == 0:
      return None
    v = Fraction(getattr(operator, f'__{f}__')(a, b))
    d = v.denominator
    if abs(v.numerator) > 10**6 or d > 10**6 or d & (d - 1):
      return None
    st.append(v)
  return st


def execute(prog, i, n):
  """Whether the program is defined and small for index i (as in SemiTraced.tla)."""
  st = []
  def ok(f, a, b):
    if f in ('floordiv', 'mod'):
      return b > 0
    if f == 'pow':
      return 0 <= b <= 4 and -9 <= a <= 9
    if f in ('lshift', 'rshift'):
      return 0 <= b <= 8
    if f in ('and', 'xor', 'or'):
      return a >= 0 and b >= 0
    return True
  for ins in prog:
    op = ins['op']
    if op in ('index', 'size', 'const'):
      st.append(dict(index=i, size=n).get(op, ins.get('c')))
      continue
    if op == 'where':
      if len(st) < 3:
        return None
      z, y, x = st.pop(), st.pop(), st.pop()
      st.append(y if x else z)
      continue
    f = ins.get('f', op)
    if op == 'right':
      a, b = (st.pop() if st else None), ins['c']
    elif op == 'left':
      a, b = ins['c'], (st.pop() if st else None)
    else:
      if len(st) < 2:
        return None
      b, a = st.pop(), st.pop()
    if a is None or b is None or not ok(f, a, b):
      return None
    v = int(getattr(operator, f'__{f}__')(a, b))
    if abs(v) > 10**6:
      return None
    st.append(v)
  return st


def cases(tier, seed):
  rng = np.random.default_rng(seed)
  out = []
  want = 160 if tier == 'quick' else 2000
  while len(out) < want:
    n = int(rng.integers(1, 13))
    fractions = len(out) % 3 == 0
    ops = REAL if fractions else OPS
    const = lambda m: (hlib.rat(int(rng.integers(-4 * m, 4 * m)) / 4) if fractions
                       else int(rng.integers(0, m)))
    prog, depth = [], 0
    for _ in range(int(rng.integers(3, 10))):
      r = rng.random()
      f = ops[int(rng.integers(len(ops)))]
      if depth == 0 or (depth < 4 and r < .35):
        k = ['index', 'size', 'const', 'index'][int(rng.integers(4))]
        prog.append(dict(op=k, **(dict(c=const(6)) if k == 'const' else {})))
        depth += 1
      elif depth >= 3 and r < .5:
        prog.append(dict(op='where'))
        depth -= 2
      elif depth >= 2 and r < .8:
        prog.append(dict(op=f))
        depth -= 1
      else:
        prog.append(dict(op='right' if r < .9 else 'left', f=f,
                         c=const(5)))
    while depth > 1:
      prog.append(dict(op=ops[int(rng.integers(3))]))
      depth -= 1
    st = [(execute_real if fractions else execute)(prog, i, n) for i in range(n)]
    if all(s is not None and len(s) == 1 for s in st):
      out.append(dict(n=n, prog=prog, real=fractions))
  return out


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  import swirl_fem.communication.semi_traced_scalar


def run(case):
  import jax
  from jax.sharding import Mesh
  from swirl_fem.communication.jit_distributed import jit_distributed
  from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar as S
  n = case['n']
  seen = {}
  number = (lambda c: float(hlib.fraction(c))) if case.get('real') else (lambda c: c)

  def arg(x, op):  # comparisons give booleans: used as integers 0 and 1
    return x * 1 if x.global_.dtype == bool and op not in ('and', 'or', 'xor') else x

  def f():
    st = []
    for ins in case['prog']:
      op = ins['op']
      if op == 'index':
        st.append(S.axis_index('i'))
      elif op == 'size':
        st.append(S.axis_size('i'))
      elif op == 'const':
        st.append(S.constant(number(ins['c']), 'i'))
      elif op == 'where':
        z, y, x = st.pop(), st.pop(), st.pop()
        st.append(S.where(x != 0, y, z))
      elif op == 'right':
        st.append(getattr(operator, f"__{ins['f']}__")(arg(st.pop(), ins['f']), number(ins['c'])))
      elif op == 'left':
        st.append(getattr(operator, f"__{ins['f']}__")(number(ins['c']), arg(st.pop(), ins['f'])))
      else:
        y, x = st.pop(), st.pop()
        st.append(getattr(operator, f'__{op}__')(arg(x, op), arg(y, op)))
    seen['global'] = st[-1].global_
    return st[-1].local

  local = jit_distributed(f, Mesh(np.array(jax.devices()[:n]), ('i',)), 'i')()
  g = seen['global']
  values = hlib.rats if case.get('real') else hlib.ints
  return dict(local=values(local), concrete=isinstance(g, np.ndarray), **{'global': values(g)})
