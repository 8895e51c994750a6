"""jit_distributed: histories of calls of functions of every kind of signature."""
import hlib
hlib.devices(6)
import numpy as np


def cases(tier, seed):
  return []


def setup():
  import swirl_fem.communication.jit_distributed


def build(case, log):
  ps = case['params']
  names = [f'a{i + 1}' for i in range(len(ps))]
  sig, star = [], False
  for n, p in zip(names, ps):
    if p['kwonly'] and not star:
      sig.append('*')
      star = True
    sig.append(n + ('=' + ('7' if p['static'] else 'None') if p['dflt'] else ''))
  src = f'def f({", ".join(sig)}):\n  return body({", ".join(names)})\n'

  def body(*args):
    import jax.numpy as jnp
    from jax import lax
    idx = lax.axis_index(case['axis'])
    lin, stat, vec = 1000 * idx, [], []
    for i, (a, p) in enumerate(zip(args, ps)):
      if p['static']:
        for _ in range(a):   # needs a concrete value
          lin = lin + 100 * (i + 1)
        stat.append(jnp.int32(a))
      elif a is not None:
        lin = lin + (i + 1) * a['x']
        vec.append(a['v'] + idx)
    return dict(lin=lin, stat=tuple(stat), vec=vec)

  scope = dict(body=body)
  exec(src, scope)
  return scope['f'], names


def run(case):
  import jax
  from jax.sharding import Mesh
  from swirl_fem.communication.jit_distributed import jit_distributed
  P = case['P']
  dev = np.array(jax.devices()[:P])
  if case['mesh2d']:
    mesh, axis = Mesh(dev.reshape(2, P // 2), ('a', 'b')), ('a', 'b')
  else:
    mesh, axis = Mesh(dev, ('a',)), 'a'
  f, names = build(dict(case, axis=axis), [])
  kw = {}
  if case['explicit']:
    kw['static_argnames'] = tuple(
        n for n, p in zip(names, case['params']) if p['static'])
  g = jit_distributed(f, mesh, axis, **kw)
  outs = []
  for call in case['calls']:
    args, kwargs = [], {}
    for i, (n, p, v) in enumerate(zip(names, case['params'], call['values'])):
      if not p['static']:
        x = np.array(v, np.int32)
        v = dict(x=x, v=x[:, None] + np.array([10, 20, 30], np.int32))
      if i < call['npos']:
        args.append(v)
      elif not call['omitted'][i]:
        kwargs[n] = v
    try:
      y = g(*args, **kwargs)
      outs.append(dict(lin=hlib.ints(y['lin']), stat=[hlib.ints(s) for s in y['stat']],
                       vec=[hlib.ints(v) for v in y['vec']]))
    except Exception as e:
      outs.append(dict(error=f'{type(e).__name__}: {e}'[:200]))
  return dict(calls=outs)
