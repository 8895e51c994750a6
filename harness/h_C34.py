"""The stochastic processor of the closure network."""
import hlib
import numpy as np

CASE_TIMEOUT = 300


def setup():
  from swirl_fem.niles import transformer


def dress(rng, c, kind='flow'):
  npools = len(c['pooling'])
  c = dict(c, kind=kind, kernel=int(rng.choice([3, 5])), everylayer=bool(rng.random() < .6),
           residuals=bool(rng.random() < .8), bias=bool(rng.random() < .5), heads=1, kvstride=int(rng.integers(1, 3)),
           channels=int(rng.integers(1, 4)), seed=int(rng.integers(1000)), layers=int(rng.integers(1, 3)),
           scale=hlib.rats(1 / 64 if c['batch'] > 1 and rng.random() < .7 else float(rng.choice([.25, 1., 1.]))),
           late=bool(rng.random() < .5),
           double=bool(rng.random() < .5))
  c['reps'] = c['stride']
  c['latent'] = c['width'] * 2**npools
  if kind == 'noise':
    c.update(layers=1, batch=1, scale=hlib.rats(float(rng.choice([.25, 1.]))))
  return dict(c, x=hlib.rats(rng.integers(-16, 17, (c['batch'], c['tokens'], c['channels'])) / 16.))


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 34])
  depth = int(rng.integers(1, 3))
  pools = [1] if depth == 2 and rng.random() < .6 else []
  stride = int(rng.integers(1, 3))
  if c['batch'] * c['samples'] * c['steps'] > 8:
    pools = []
  return dress(rng, dict(batch=c['batch'], samples=c['samples'], steps=c['steps'], still=c['still'], depth=depth,
                         pooling=pools, stride=stride, width=4, tokens=stride**len(pools) * int(rng.integers(1, 3))))


def cases(tier, seed):
  rng = np.random.default_rng([seed, 34])
  out = []
  for kind in ['noise', 'fresh'] * (1 if tier == 'quick' else 4):
    out.append(dress(rng, dict(batch=2, samples=80 if kind == 'noise' else 3, steps=2, still=False, depth=1,
                               pooling=[], stride=1, width=4, tokens=1 if kind == 'noise' else 2), kind))
  return out


def flt(x):
  return np.vectorize(lambda s: float(hlib.fraction(s)), otypes=[float])(np.array(x, dtype=object))


def run(case):
  import flax.linen as nn
  import jax
  import jax.numpy as jnp
  from h_C33 import dump, model_of, scramble
  from swirl_fem.niles import transformer
  jax.config.update('jax_enable_x64', case['double'])     # (as in niles.main)
  model = model_of(case, jnp.float32, case['samples'], use_transformer=True, num_gridpoints=case['steps'],
                   latent_size=case['latent'], context_size=case['latent'],
                   data_size=case['latent'] * case['tokens'], prior_scale=float(hlib.fraction(case['scale'])),
                   num_layers=1, hidden_size=8, num_sde_layers=case['layers'])
  x = jnp.asarray(flt(case['x']), jnp.float32)
  params = model.init({'params': jax.random.PRNGKey(case['seed'])}, x, jax.random.PRNGKey(1))['params']
  show = lambda aux: {k: hlib.rats(v) for k, v in aux.items()}
  z_key = jax.random.PRNGKey(case['seed'] + 7)
  if case['kind'] == 'fresh':
    y, aux = model.apply({'params': params}, x, z_key)
    return dict(y=hlib.rats(y), aux=show(aux))

  params = scramble(np.random.default_rng(case['seed']), params, jnp.float32)
  params = dict(params)
  [latent] = [k for k in params if 'diffusion_mlp' in str(jax.tree_util.tree_structure(params[k]))]
  outer = params[latent]
  [sde] = [k for k in outer if 'diffusion_mlp' in outer[k]]
  mlp = outer[sde]['diffusion_mlp']
  last = mlp[f'Dense_{len(mlp) - 1}']
  last['bias'] = last['bias'] * 0 + (-30 if case['still'] else -1)

  evals, ends = [], []
  keep = lambda log: (lambda *a: log.append([np.array(v) for v in a]))
  def record(call, args, kwargs, context):
    out = call(*args, **kwargs)
    if context.method_name == '__call__':
      if isinstance(context.module, transformer.Dynamics):
        jax.debug.callback(keep(evals), *args, *kwargs.values(), *out)
      elif isinstance(context.module, transformer.LatentSDE):
        jax.debug.callback(keep(ends), args[0], out[0])
    return out
  def apply(p, x, key):
    with nn.intercept_methods(record):
      return model.apply({'params': p}, x, key)
  fn = jax.jit(apply) if case['seed'] % 2 else apply
  def go(key):
    evals.clear(), ends.clear()
    out = jax.block_until_ready(fn(params, x, key))
    jax.effects_barrier()
    paths = {}
    for e in evals:
      assert [v.ndim for v in e] == [1, 0, 1, 1, 1, 1], [v.shape for v in e]
      paths.setdefault(e[3].tobytes(), []).append(e)
    return out, list(paths.values()), list(ends)

  (y, aux), paths, [[zin, zout]] = go(z_key)
  if case['kind'] == 'noise':
    starts = [p[0][3] for p in paths]
    def increments(p):
      seen = {}
      for e in sorted(p, key=lambda e: float(e[1])):
        seen.setdefault(e[2].tobytes(), e[2])
      return list(seen.values())
    incs = [hlib.rats(increments(p)) for p in paths]
    _, _, [[_, z2]] = go(z_key)
    _, _, [[_, z3]] = go(jax.random.PRNGKey(case['seed'] + 8))
    return dict(zin=hlib.rats(zin), starts=hlib.rats(starts), incs=incs, same=bool((zout == z2).all()),
                other=bool((zout != z3).all()))
  names = ['y', 't', 'dw', 'ctx', 'drift', 'diff']
  return dict(y=hlib.rats(y), aux=show(aux), params=dump({k: v for k, v in params.items() if k != latent}),
              latent=dump(outer[sde]), zin=hlib.rats(zin), zout=hlib.rats(zout),
              paths=[[{n: hlib.rats(v) for n, v in zip(names, e)} for e in p] for p in paths])
