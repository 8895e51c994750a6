"""The optimizer of niles.train.create_train_state, with and without restarts."""
import tempfile
import types

import hlib
import numpy as np

CASE_TIMEOUT = 300


def setup():
  hlib.devices(2)
  import jax
  jax.config.update('jax_enable_x64', True)
  from absl import flags
  from swirl_fem.niles import train
  flags.FLAGS(['check'])


def dress(rng, c, n):
  return dict(c, x0=c.get('x0') or hlib.rats(rng.integers(-16, 17, n) / 8.),
              base=f'{int(rng.integers(1, 17))}p-5', slope=f'{int(rng.integers(-2, 9))}p-6',
              elements=int(rng.integers(1, 9)), channels=int(rng.integers(1, 9)),
              dtype=str(rng.choice(['float32', 'float64'])), split=int(rng.integers(0, n + 1)),
              seed=int(rng.integers(1000)))


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 32])
  return dress(rng, dict(c, x0=['1', '-1/2']), 2)


def cases(tier, seed):
  rng = np.random.default_rng([seed, 32])
  out = []
  for _ in range(12 if tier == 'quick' else 150):
    n, steps = int(rng.integers(1, 6)), int(rng.integers(1, 12 if tier == 'quick' else 40))
    scale = 2.**rng.integers(-6, 7, (steps, 1))      # some beyond the limit, some not
    grads = rng.integers(-8, 9, (steps, n)) / 8. * scale
    if rng.random() < .3:
      grads[:, 0] = 0
    limit = 'none' if rng.random() < .3 else hlib.rat(float(2.**rng.integers(-7, 4)))
    stops = [bool(x) for x in rng.random(steps) < .3]
    if rng.random() < .5:
      stops = [False] * steps
    out.append(dress(rng, dict(limit=limit, decay=hlib.rat(float(rng.choice([0, .05, .25, 1]))),
                               grads=hlib.rats(grads), stops=stops), n))
  return out


def run(case):
  import jax
  import jax.numpy as jnp
  import ml_collections
  from flax import jax_utils
  from swirl_fem.niles import train
  f = lambda s: float(hlib.fraction(s))
  x0 = np.array([f(x) for x in case['x0']])
  split = case['split']
  def tree(x):
    if split in (0, len(x0)):
      return dict(b=x[:, None])
    return dict(a=dict(w=x[:split]), b=x[split:, None])
  flat = lambda p: np.concatenate([np.ravel(x) for x in (p['a']['w'] if 'a' in p else [], p['b'])])
  seen = []

  class Model:
    dtype = getattr(jnp, case['dtype'])

    def init(self, rngs, inputs, *args, **kw):
      keys = [rngs['params']] if isinstance(rngs, dict) else [rngs]
      keys += [a for a in args] + list(kw.values())
      # what it is given shows in an extra parameter that is never updated
      probe = [jnp.asarray(k).astype(jnp.uint32).astype(jnp.float64) for k in keys]
      seen.append(dict(shape=inputs.shape, dtype=str(inputs.dtype)))
      return dict(params=dict(tree(jnp.asarray(x0)), probe=dict(ones=inputs.astype(jnp.float64), keys={str(i): k for i, k in enumerate(probe)})))

    def apply(self, *a, **k):
      return 'applied'

  model = Model()
  rate = lambda n: f(case['base']) + f(case['slope']) * n
  config = ml_collections.FrozenConfigDict(dict(
      num_elements=case['elements'], num_channels=case['channels'], weight_decay=f(case['decay']),
      grad_clip_norm=None if case['limit'] == 'none' else f(case['limit'])))

  def create(seed):
    return train.create_train_state(
        rng=jax.random.PRNGKey(seed), model=model, learning_rate_fn=rate,
        updown_learning_rate_fn=lambda n: 1e6 + n, config=config)
  state = create(case['seed'])
  probe = jax.device_get(state.params['probe'])
  keys = lambda s: [tuple(np.ravel(k)) for k in s.params['probe']['keys'].values()]
  init = dict(elements=int(seen[-1]['shape'][1]), channels=int(seen[-1]['shape'][2]),
              dtype=seen[-1]['dtype'],
              ones=bool(np.all(probe['ones'] == 1)) and seen[-1]['shape'][0] == 1,
              keys_differ=len(set(keys(state))) == len(keys(state)),
              repeatable=keys(create(case['seed'])) == keys(state),
              key_matters=not set(keys(create(case['seed'] + 1))) & set(keys(state)))
  apply = state.apply_fn() == 'applied'
  # the probe does not belong to the problem: keep it out of the decay and the norm
  clean = lambda s: s.replace(params={k: v for k, v in s.params.items() if k != 'probe'})
  def fresh():
    s = clean(create(case['seed']))
    return s.replace(opt_state=s.tx.init(s.params))
  state = fresh()
  xs, steps = [hlib.rats(flat(state.params))], [int(state.step)]
  update = jax.jit(lambda s, g: s.apply_gradients(grads=g))
  with tempfile.TemporaryDirectory(prefix='verif_optimizer_') as work:
    for g, stop in zip(case['grads'], case['stops']):
      state = update(state, tree(jnp.asarray([f(x) for x in g])))
      xs.append(hlib.rats(flat(state.params)))
      steps.append(int(state.step))
      if stop:      # goes on from a checkpoint
        train.save_checkpoint(jax_utils.replicate(state), work)
        state = train.restore_checkpoint(fresh(), work)
  return dict(init=init, apply=apply, xs=xs, steps=steps)
