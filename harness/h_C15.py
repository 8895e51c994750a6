"""Nodes and quadrature rules."""
import hlib
import numpy as np

NAMES = {'nc': 'NEWTON_COTES', 'gll': 'GAUSS_LOBATTO_LEGENDRE', 'gl': 'GAUSS_LEGENDRE'}


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  import swirl_fem.core.interpolation


def gauss(c, k, seed):
  return dict(kind='rule', type='gl', num=c['n'], poly=c['p'])


def lobatto(c, k, seed):
  return dict(kind='rule', type='gll', num=c['n'] + 1, poly=c['dp'])


def cases(tier, seed):
  rng = np.random.default_rng([seed, 15])
  out = [dict(kind='rule', type='nc', num=n, poly=[]) for n in range(2, 20)]
  for k in range(60):
    def one():
      if rng.random() < .3:
        return dict(type='single', value=str(rng.choice([-1, -.5, 0.25, 1, 1.5])), num=1)
      return dict(type=str(rng.choice(list(NAMES))), num=int(rng.integers(2, 6)), value='')
    a = one()
    if k % 4 == 0:   # two points close to each other
      v = float(rng.choice([-1, -.5, 0.25, 1, 1.5]))
      d = float(rng.choice([-1, 1])) * 2.0**-int(rng.integers(8, 46))
      out.append(dict(kind='eq', left=dict(type='single', value=repr(v), num=1),
                      right=dict(type='single', value=repr(v + d), num=1)))
      continue
    out.append(dict(kind='eq', left=a, right=a if rng.random() < .3 else one()))
  return out


def run(case):
  from swirl_fem.core import interpolation as ip
  if case['kind'] == 'eq':
    def make(s):
      if s['type'] == 'single':
        return ip.Nodes1D.create_single_point(np.array(float(s['value'])))
      return ip.Nodes1D.create(num_points=s['num'], node_type=getattr(ip.NodeType, NAMES[s['type']]))
    a, b = make(case['left']), make(case['right'])
    ok = all(list(x.node_values) == [float(s['value'])] for x, s in
             ((a, case['left']), (b, case['right'])) if s['type'] == 'single')
    return dict(eq=bool(a == b), qe=bool(b == a), single_value=ok)
  t = getattr(ip.NodeType, NAMES[case['type']])
  n = case['num']
  nodes = ip.Nodes1D.create(num_points=n, node_type=t)
  rule = ip.Quadrature1D.create(num_points=n, quadrature_type=t)
  return dict(nodes=hlib.rats(nodes.node_values), weights=hlib.rats(rule.weights),
              rule_nodes=hlib.rats(rule.nodes.node_values), rule_points=int(rule.num_points),
              continuous=bool(nodes.is_continuous()),
              weights_nd=[hlib.rats(rule.weights_nd(d)) for d in (1, 2, 3) if n**d <= 130])
