"""Drives sdeint (C24, C25)."""
import hlib
import numpy as np


def setup():
  hlib.devices(1, False)
  import jax
  jax.config.update('jax_enable_x64', True)
  import swirl_fem.sde.sdeint


def dress(rng, c):
  d = len(c['y0'])
  c = dict(c, kind='sde')
  c['mode'] = str(rng.choice(['plain', 'jit', 'vmap', 'grad_closure', 'args', 'integers', 'flax', 'flax']))
  c['struct'] = 'flat' if d == 1 or c['mode'] in ('flax',) else str(rng.choice(['flat', 'dict', 'nested']))
  single = rng.random() < .2
  c['dtype'] = 'float32' if single else 'float64'
  c['eps'] = '1p-13' if single else '1p-36'
  c['seed'] = int(rng.integers(1 << 30))
  return c


def frac(s):
  return float(hlib.fraction(s))


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 24])
  s = c['segs']
  out = {k: c[k] for k in ('D', 'G', 'y0', 'th', 'dw')}
  if s not in (1, 2, 4):
    return None
  out['ts'] = [hlib.rat(x) for x in np.linspace(0, 1, s + 1)]
  out['dw'] = [[hlib.rat(frac(x)) for x in w] for w in c['dw']]
  return dress(rng, out)


def random_case(rng, big, large=False):
  d = int(rng.integers(4, 9) if large else rng.integers(1, 4))
  p = int(rng.integers(4, 8) if large else rng.integers(1, 4))
  m = int(rng.integers(3, 6) if large else rng.integers(1, 3))
  segs = int(rng.choice([1, 5, 8, 12] if large else [1, 1, 2, 3, 4]))
  per = int(rng.integers(1, 9 if not big else 24))
  n = segs * per
  def terms(noise):
    out = []
    for _ in range(int(rng.integers(0 if noise else 1, 5))):
      out.append(dict(o=int(rng.integers(1, d + 1)), c=hlib.rat(int(rng.integers(-4, 5)) / 4.),
                      th=int(rng.integers(0, p + 1)), ta=int(rng.choice([0, 0, 1, 2])),
                      ys=[int(x) for x in rng.choice([0, 0, 1, 1, 2], d)],
                      w=int(rng.integers(1, m + 1)) if noise else 0))
    return out
  grid = np.arange(0, 1025)
  if rng.random() < .5:     # uniform
    t = np.linspace(0, 512, segs + 1).astype(int) + int(rng.integers(0, 400))
  else:                     # the segments need not be equally long
    t = np.sort(rng.choice(grid, segs + 1, replace=False))
  return dict(D=terms(False), G=terms(True),
              y0=[hlib.rat(int(x) / 8) for x in rng.integers(-8, 9, d)],
              th=[hlib.rat(int(x) / 8) for x in rng.integers(-8, 9, p)],
              dw=[[hlib.rat(round(float(x) * 256 / np.sqrt(n)) / 512) for x in rng.normal(size=m)]
                  for _ in range(n)],
              ts=[hlib.rat(int(x) / 1024) for x in t])


def pack(v, struct, jnp):
  if struct == 'flat':
    return v
  if struct == 'dict':
    return {'b': v[:1], 'a': v[1:]}
  return [(v[1:],), {'x': v[0]}]


def unpack(s, struct, jnp):
  if struct == 'flat':
    return s
  if struct == 'dict':
    return jnp.concatenate([s['b'], s['a']], axis=-1)
  return jnp.concatenate([s[1]['x'][..., None], s[0][0]], axis=-1)


def sum_terms(terms, y, t, dw, th, jnp):
  out = jnp.zeros_like(y)
  for m in terms:
    v = frac(m['c']) * t**m['ta']
    for j, e in enumerate(m['ys']):
      v = v * y[j]**e
    if m['w']:
      v = v * dw[m['w'] - 1]
    if m['th']:
      v = v * th[m['th'] - 1]
    out = out.at[m['o'] - 1].add(v)
  return out


def run(case, gradient):
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import brownian_path, sdeint
  if case['kind'] == 'path':
    k1, k2 = jax.random.PRNGKey(case['seed']), jax.random.PRNGKey(case['seed'] + 1)
    kw = {} if case['default'] else dict(dtype=getattr(jnp, case['dtype']))
    a, b, c = (brownian_path(k, case['n'], **kw) for k in (k1, k1, k2))
    return dict(dw=hlib.rats(a), shape=hlib.shape(a), dtype=str(a.dtype),
                same=bool((a == b).all()), differs=bool((a != c).any()))
  if case['kind'] == 'long':
    dt = case['dtype']
    dw = jnp.asarray(np.random.default_rng(case['seed']).integers(1, 5, case['n']) / 1024., dt)
    f = lambda y, t, dw, a: (a * jnp.ones_like(y), dw * jnp.ones_like(y))
    ts = jnp.asarray([frac(t) for t in case['ts']], dt)
    y = jax.jit(lambda y0, a: sdeint(f, y0, ts, dw, a))(jnp.zeros(1, dt), jnp.asarray(case['a'], dt))
    return dict(ys=hlib.rats(y), dw=[int(w) for w in np.asarray(dw) * 1024])
  D, G, st, mode = case['D'], case['G'], case['struct'], case['mode']
  dt = case['dtype']
  conv = lambda v: jnp.asarray(np.array([frac(x) for x in v]), dt)
  y0, th, ts = conv(case['y0']), conv(case['th']), conv(case['ts'])
  dw = jnp.asarray(np.array([[frac(x) for x in w] for w in case['dw']]), dt)

  def f(y, t, dw, th):
    y = unpack(y, st, jnp)
    return (pack(sum_terms(D, y, t, dw, th, jnp), st, jnp),
            pack(sum_terms(G, y, t, dw, th, jnp), st, jnp))

  if mode == 'flax':
    call = flax_call(D, G, jnp, case['seed'] % 2)
  elif mode == 'grad_closure':
    call = lambda y0, th: sdeint(lambda y, t, dw: f(y, t, dw, th), pack(y0, st, jnp), ts, dw)
  elif mode == 'args':
    def call(y0, th):
      g = lambda y, t, dw, a, b: f(y, t, dw, jnp.concatenate([a, b['x']]))
      return sdeint(g, pack(y0, st, jnp), ts, dw, th[:1], {'x': th[1:]})
  elif mode == 'integers':     # among the arguments there are an integer and a random key
    key = jax.random.PRNGKey(case['seed'])
    def call(y0, th):
      g = lambda y, t, dw, a, i, b: f(
          y, t, dw, jnp.where(b['key'][1] == key[1], jnp.roll(a, i), b['zero']))
      return sdeint(g, pack(y0, st, jnp), ts, dw, jnp.roll(th, -1), jnp.asarray(1),
                    dict(key=key, zero=jnp.zeros_like(th)))
  else:
    call = lambda y0, th: sdeint(f, pack(y0, st, jnp), ts, dw, th)
  if mode == 'flax':
    flat = lambda y0, th: call(y0, ts, dw, th)
  else:
    flat = lambda y0, th: unpack(call(y0, th), st, jnp)
  fn = flat
  if mode == 'jit':
    fn = jax.jit(flat)
  if mode == 'vmap':
    fn = lambda y0, th: jax.vmap(flat)(jnp.stack([y0 / 2, y0]), jnp.stack([th / 2, th]))[1]
  if not gradient:
    return dict(ys=hlib.rats(fn(y0, th)))
  rng = np.random.default_rng(case['seed'])
  cot = jnp.asarray(rng.integers(-4, 5, (len(ts) - 1, len(y0))) / 2., dt)
  ys, pull = jax.vjp(fn, y0, th)
  ybar, thbar = pull(cot)
  return dict(ys=hlib.rats(ys), cot=hlib.rats(cot), ybar=hlib.rats(ybar), thbar=hlib.rats(thbar))


def flax_call(D, G, jnp, rngs):
  """The same system as a flax module with parameters th."""
  import flax.linen as nn
  from swirl_fem.sde.flax_nn_sde import nn_sdeint

  class System(nn.Module):
    size: int

    @nn.compact
    def __call__(self, y, t, dw):
      th = self.param('th', nn.initializers.ones, (self.size,))
      return sum_terms(D, y, t, dw, th, jnp), sum_terms(G, y, t, dw, th, jnp)

  class Outer(nn.Module):
    size: int

    def setup(self):
      self.inner = nn_sdeint(System)(self.size)

    def __call__(self, y, ts, dw):
      return self.inner(y, ts, dw)

  def call(y0, ts, dw, th):
    import jax
    model = Outer(len(th))
    params = model.init(jax.random.PRNGKey(0), y0, ts, dw)
    leaves, tree = jax.tree_util.tree_flatten(params)
    assert len(leaves) == 1 and leaves[0].shape == th.shape
    return model.apply(jax.tree_util.tree_unflatten(tree, [th]), y0, ts, dw,
                       **(dict(rngs={'dropout': jax.random.PRNGKey(1)}) if rngs else {}))
  return call


def cases(tier, seed, gradient):
  rng = np.random.default_rng([seed, 241 if gradient else 240])
  deep = tier != 'quick'
  out = [dress(rng, random_case(rng, deep)) for _ in range(400 if deep else 50)]
  out += [dress(rng, random_case(rng, deep, True)) for _ in range(40 if deep else 8)]
  if not gradient:
    for i in range(6 if not deep else 30):
      # increments 1..4 / 1024, so that sums are exact and none can go missing
      t0, t1 = ((0, 1), (0, 1), (0, .5), (.5, 1), (.25, .75))[int(rng.integers(5))]
      segs = int(rng.choice([1, 1, 2]))
      out.append(dict(kind='long', n=int(rng.integers(4000, 30000 if not deep else 100000)) // segs * segs,
                      seed=int(rng.integers(1000)), a=int(i % 3 == 0),
                      ts=[hlib.rat(x) for x in np.linspace(t0, t1, segs + 1)],
                      dtype='float32' if i % 3 else 'float64'))
    for i in range(4 if not deep else 20):
      n = int(rng.choice([1024, 2048, 4096]))
      default = bool(i % 2)
      out.append(dict(kind='path', n=n, root=int(np.sqrt(n)), seed=int(rng.integers(1000)), default=default,
                      dtype='float32' if default else str(rng.choice(['float32', 'float64']))))
  return out
