"""Finite element spaces on small (curved) meshes, for C17 and C18."""
import hlib
import meshes
import numpy as np

KINDS = dict(nc='NEWTON_COTES', gl='GAUSS_LEGENDRE', gll='GAUSS_LOBATTO_LEGENDRE')
FORMS = dict(one='', value='s', mass='ss', stiffness='ss', vmass='vv', vstiffness='vv',
             strain='vv', div='vs', convection='vss', vconvection='vvv', weighted='sss',
             derivative='ss', curl='vs')


def setup():
  hlib.devices(1)
  import jax
  jax.config.update('jax_enable_x64', True)


def complete(c, k, seed, prop):
  """c: mesh of straight elements {d, coords, elements}; adds the rest."""
  rng = np.random.default_rng([seed, k, 17])
  d = c['d']
  ne = len(c['elements'])
  order = int(rng.integers(1, {1: 6, 2: 4 if ne < 5 else 3, 3: 3 if ne < 3 else 2}[d]))
  order = c.get('order', order)
  qn = int(rng.integers(1, order + 3 if d < 3 else order + 2))
  qkind = 'gl' if qn < 2 else str(rng.choice(['gl', 'gl', 'gll']))
  kind = str(rng.choice(['nc', 'gll', 'gl'])) if order > 1 else str(rng.choice(['nc', 'gll']))
  K = (order + 1)**d
  val = lambda *s: rng.integers(-6, 7, s).tolist()
  funs = [dict(kind='scalar', u=val(ne, K)), dict(kind='vector', u=val(ne, K, d)),
          dict(kind='scalar', u=val(ne, K)), dict(kind='vector', u=val(ne, K, d)),
          dict(kind='poly', terms=[[int(rng.integers(-3, 4)), rng.integers(0, 3, d).tolist()]
                                   for _ in range(3)])]
  scalars, vectors = [1, 3, 5], [2, 4]
  jobs = []
  forms = [f for f in FORMS if f != 'curl' or d >= 2]
  for f in (forms if prop == 'C17' else rng.choice(forms[1:], 4, replace=False)):
    f = str(f)
    args = [int(rng.choice(scalars if a == 's' else vectors)) for a in FORMS[f]]
    hole = 'none'
    if prop == 'C18':
      i = int(rng.integers(len(args)))
      hole = dict(s='scalar', v='vector')[FORMS[f][i]]
      args[i] = 0
    jobs.append(dict(form=f, args=args, hole=hole))
  return dict(d=d, coords=c['coords'], elements=c['elements'], order=order, kind=kind,
              qn=qn, qkind=qkind, bend=float(rng.choice([0, .05, .1])), seed=int(rng.integers(1000)),
              funs=funs, jobs=jobs)


def cases(tier, seed, prop):
  rng = np.random.default_rng([seed, 170])
  out = []
  for k in range(30 if tier == 'quick' else 250):
    d = [1, 2, 3][k % 3]
    out.append(complete(straight(rng, d), 1000 + k, seed, prop))
  # many elements, or a high order
  for k in range(6 if tier == 'quick' else 30):
    d = 1 + k % 3
    if k % 6 < 3:
      m = straight(rng, d, int(rng.integers({1: 12, 2: 8, 3: 4}[d], {1: 30, 2: 16, 3: 10}[d])))
      m['order'] = int(rng.integers(1, 3)) if d < 3 else 1
    else:
      m = straight(rng, d, 1)
      m['order'] = int(rng.integers({1: 6, 2: 4, 3: 3}[d], {1: 11, 2: 7, 3: 4}[d]))
    out.append(complete(m, 2000 + k, seed, prop))
  return out


def straight(rng, d, n=None):
  """A row of distorted cubes in random orientation (positively oriented)."""
  n = n or int(rng.integers(1, {1: 5, 2: 4, 3: 3}[d]))
  shape = [n] + [1] * (d - 1)
  pts = np.stack(np.meshgrid(*[np.arange(s + 1.) for s in shape], indexing='ij'), -1)
  pts = pts.reshape(-1, d) + rng.uniform(-.2, .2, (np.prod([s + 1 for s in shape]), d))
  a = rng.uniform(-.4, .4, (d, d)) + np.eye(d) * rng.uniform(.6, 2, d)
  if np.linalg.det(a) < 0:
    a[0] *= -1
  pts = pts @ a.T + rng.uniform(-2, 2, d)
  idx = np.arange(len(pts)).reshape([s + 1 for s in shape])
  els = []
  for e in range(n):
    block = idx[e:e + 2]
    els.append(block.reshape(-1).tolist())
  return dict(d=d, coords=np.round(pts * 64).astype(int).tolist(), elements=els)


def build(case):
  from swirl_fem.core import interpolation as ip
  from swirl_fem.core.mesh import Mesh
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.core.premesh import Premesh
  nodes = ip.Nodes1D.create(num_points=case['order'] + 1,
                            node_type=getattr(ip.NodeType, KINDS[case['kind']]))
  pm = Premesh.create(node_coords=np.array(case['coords'], float) / 64,
                      elements=np.array(case['elements'], np.int32))
  pm = refine_premesh(pm, nodes)
  rng = np.random.default_rng(case['seed'])
  x = np.asarray(pm.node_coords, float)
  x = x + case['bend'] / case['order']**1.5 * rng.uniform(-1, 1, x.shape)
  return Mesh.create(node_coords=x, elements=np.asarray(pm.elements), gridpoints_1d=nodes), nodes


def symbolic(terms, d):
  import jax.numpy as jnp

  def f(x):
    return sum((float(c) * jnp.prod(jnp.stack([x[i]**e for i, e in enumerate(exps)]))
                for c, exps in terms), jnp.zeros((), x.dtype))
  return f


def form(name):
  import jax.numpy as jnp
  from swirl_fem.core.fespace import div, grad
  g = grad
  return dict(
      one=lambda: lambda x: jnp.ones((), x.dtype),
      value=lambda u: u,
      mass=lambda u, v: lambda x: u(x) * v(x),
      stiffness=lambda u, v: lambda x: jnp.dot(g(u)(x), g(v)(x)),
      vmass=lambda u, v: lambda x: jnp.dot(u(x), v(x)),
      vstiffness=lambda u, v: lambda x: jnp.einsum('ij,ij->', g(u)(x), g(v)(x)),
      strain=lambda u, v: lambda x: jnp.einsum('ij,ji->', g(u)(x), g(v)(x)),
      div=lambda u, p: lambda x: div(u)(x) * p(x),
      convection=lambda w, u, v: lambda x: jnp.dot(w(x), g(u)(x)) * v(x),
      vconvection=lambda w, u, v: lambda x: jnp.einsum('i,ij,j->', w(x), g(u)(x), v(x)),
      weighted=lambda p, u, v: lambda x: p(x) * u(x) * v(x),
      derivative=lambda u, v: lambda x: g(u)(x)[0] * v(x),
      curl=lambda u, p: lambda x: (g(u)(x)[0, 1] - g(u)(x)[1, 0]) * p(x),
  )[name]


def refused(f):
  try:
    f()
    return False
  except ValueError:
    return True


def run(case):
  import jax.numpy as jnp
  from swirl_fem.core import fespace, interpolation as ip
  mesh, nodes = build(case)
  quad = ip.Quadrature1D.create(num_points=case['qn'],
                                quadrature_type=getattr(ip.NodeType, KINDS[case['qkind']]))
  fe = fespace.FiniteElementSpace.create(mesh, quad)
  funs = [None]
  for f in case['funs']:
    if f['kind'] == 'scalar':
      funs.append(fe.scalar_function(jnp.asarray(f['u'], float)))
    elif f['kind'] == 'vector':
      funs.append(fe.vector_function(jnp.asarray(f['u'], float)))
    else:
      funs.append(symbolic(f['terms'], case['d']))
  results = []
  for j in case['jobs']:
    if j['hole'] == 'none':
      results.append(hlib.rat(fe.integrate(form(j['form'])(*[funs[i] for i in j['args']]))))
    else:
      hole = fe.scalar_function(None) if j['hole'] == 'scalar' else fe.vector_function(None)
      results.append(hlib.rats(fe.local_covector(
          form(j['form']), tuple(funs[i] if i else hole for i in j['args']))))
  u, v = funs[1], funs[2]
  return dict(
      nodes=hlib.rats(nodes.node_values), evals=hlib.rats(quad.nodes.node_values),
      weights=hlib.rats(quad.weights_nd(1)), coords=hlib.rats(mesh.node_coords),
      elements=hlib.ints(mesh.elements), quad_coords=hlib.rats(fe.quad_coords),
      jacdets=hlib.rats(fe.jacdets), invjacs=hlib.rats(fe.invjacs),
      num_elements=int(fe.num_elements), num_points=int(fe.num_quadrature_points_per_element),
      results=results,
      refused_none=refused(lambda: fe.local_covector(form('mass'), (u, u))),
      refused_two=refused(lambda: fe.local_covector(
          form('mass'), (fe.scalar_function(None), fe.scalar_function(None)))),
      refused_shape=refused(lambda: fe.scalar_function(u.u_local[:, :-1]))
      and refused(lambda: fe.vector_function(v.u_local[..., :1] if case['d'] > 1 else u.u_local)))
