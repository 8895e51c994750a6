"""The closure network of niles.transformer."""
import hlib
import numpy as np

CASE_TIMEOUT = 300
AUX = ['kl_path', 'kl_q0', 'z0_means', 'z1_means', 'z1_stds']


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  from swirl_fem.niles import transformer


def dress(rng, c):
  c = dict(c, kernel=int(rng.choice([3, 5, 2])), everylayer=bool(rng.random() < .6),
           residuals=bool(rng.random() < .8), bias=bool(rng.random() < .5),
           channels=int(rng.integers(1, 4)), seed=int(rng.integers(1000)))
  if c['stride'] == 1 and c['kvstride'] == 1 and rng.random() < .3:
    c['kernel'] = 1
  c['reps'] = c['stride']
  b = int(rng.integers(1, 3))
  return dict(c, kind='forward', x=hlib.rats(rng.integers(-16, 17, (b, c['tokens'], c['channels'])) / 16.))


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 33])
  return dress(rng, dict(depth=c['depth'], pooling=sorted(c['pools']), tokens=c['tokens'], width=c['width'],
                         heads=c['heads'], stride=c['stride'], kvstride=c['kv']))


def cases(tier, seed):
  rng = np.random.default_rng([seed, 33])
  out = []
  for _ in range(3 if tier == 'quick' else 40):
    depth = int(rng.integers(1, 4 if tier == 'quick' else 6))
    pools = [i for i in range(1, depth) if rng.random() < .6][:2]
    stride = int(rng.integers(1, 4))
    width = int(rng.choice([2, 4, 6]))
    out.append(dress(rng, dict(
        depth=depth, pooling=pools, tokens=stride**len(pools) * int(rng.integers(1, 4)), width=width,
        heads=int(rng.choice([1, 2])), stride=stride, kvstride=int(rng.integers(1, 5)))))
  for _ in range(2 if tier == 'quick' else 8):
    out.append(dict(dress(rng, dict(depth=3, pooling=[1], tokens=8, width=4, heads=1, stride=2, kvstride=2)),
                    kind='fresh'))
  return out


def flt(x):
  return np.vectorize(lambda s: float(hlib.fraction(s)), otypes=[float])(np.array(x, dtype=object))


def model_of(case, dtype, samples=0, **kw):
  import ml_collections
  from swirl_fem.niles import transformer
  processor = ml_collections.FrozenConfigDict(dict(num_samples=samples, **kw))
  return transformer.Model(
      num_layers=1, num_heads=1, depth=case['depth'], width=case['width'],
      pooling_layers=tuple(case['pooling']), pooling_kernel=(1, case['kernel']),
      pooling_strides_q=(1, case['stride']), initial_kv_pooling_strides=(1, case['kvstride']),
      qkv_tile_reps=(case['reps'], 1), num_initial_heads=case['heads'], use_residuals=case['residuals'],
      use_bias=case['bias'], pool_q_every_layer=case['everylayer'], dtype=dtype,
      processor_config=processor, mean_after_decoder=case.get('late', False))


def scramble(rng, params, dtype):
  """Random parameters in place of the initial ones."""
  import jax
  import jax.numpy as jnp
  def new(x):
    fan = int(np.prod(x.shape[:-1])) or 1
    scale = 1 if x.ndim == 1 else 1.5 / np.sqrt(fan)
    v = np.round(rng.normal(size=x.shape) * scale * 64) / 64
    return jnp.asarray(v + (x.ndim == 1), dtype)
  return jax.tree_util.tree_map(new, params)


def dump(params):
  import collections.abc
  if isinstance(params, collections.abc.Mapping):
    return {k: dump(v) for k, v in params.items()}
  return hlib.rats(params)


def run(case):
  import jax
  import jax.numpy as jnp
  model = model_of(case, jnp.float64)
  x = jnp.asarray(flt(case['x']))
  key = jax.random.PRNGKey(case['seed'])
  init = lambda k: model.init({'params': k}, x[:1], jax.random.PRNGKey(1))['params']
  params = init(key)
  show = lambda aux: {k: hlib.rats(v) for k, v in aux.items()}
  if case['kind'] == 'fresh':
    other = init(jax.random.PRNGKey(case['seed'] + 1))
    y, aux = model.apply({'params': params}, x, jax.random.PRNGKey(2))
    same = jax.tree_util.tree_map(lambda a, b: bool((a == b).all()) and np.ndim(a) > 1 and bool((a != 0).any()),
                                  params, other)
    return dict(y=hlib.rats(y), aux=show(aux), differ=not any(jax.tree_util.tree_leaves(same)))
  params = scramble(np.random.default_rng(case['seed']), params, jnp.float64)
  fn = lambda p, x: model.apply({'params': p}, x, jax.random.PRNGKey(2))
  if case['seed'] % 2:
    fn = jax.jit(fn)
  y, aux = fn(params, x)
  return dict(y=hlib.rats(y), aux=show(aux), params=dump(params))
