"""Schedules of niles.train."""
import hlib
import numpy as np


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  from swirl_fem.niles import train


def complete(c, k, seed):
  return c


def cases(tier, seed):
  rng = np.random.default_rng([seed, 28])
  out = []
  q = lambda lo, hi: f'{int(rng.integers(lo * 4, hi * 4 + 1))}p-2'
  for _ in range(30 if tier == 'quick' else 300):
    out.append(dict(epochs=q(1, 20), warmup=q(0, 6) if rng.random() < .8 else '0',
                    zero=q(0, 4), transition=f'{int(rng.integers(1, 25))}p-2',
                    spe=int(rng.choice([1, 3, 10, 97, 1200, 51000])),
                    base=f'{int(rng.integers(1, 64))}p-6', penalty=f'{int(rng.integers(1, 64))}p-5'))
  return out


def run(case):
  import jax
  import jax.numpy as jnp
  import ml_collections
  from swirl_fem.niles import train
  f = lambda k: float(hlib.fraction(case[k]))
  whole = lambda x: int(x) if x == int(x) else x
  spe = case['spe']
  config = ml_collections.FrozenConfigDict(dict(
      num_epochs=f('epochs'), warmup_epochs=whole(f('warmup')), kl_penalty=f('penalty'),
      kl_transition_epochs=f('transition'), kl_zero_epochs=whole(f('zero'))))
  fns = dict(lr=train.create_learning_rate_fn(config, f('base'), spe),
             updown=train.create_updown_learning_rate_fn(config, f('base'), spe),
             kl=train.create_kl_penalty_fn(config, spe))
  end = int(spe * (f('epochs') + 2 * f('warmup') + f('zero') + f('transition') + 2))
  marks = [spe * x for x in (f('warmup'), 2 * f('warmup'), f('zero'), f('zero') + f('transition'),
                             f('epochs'), f('warmup') + 1, 2 * f('warmup') + 1)]
  steps = set(range(min(end, 12)))
  for m in marks:
    steps |= {int(m) + i for i in (-1, 0, 1, 2)}
  steps |= {int(x) for x in np.linspace(0, end, 60)}
  steps = sorted(s for s in steps if s >= 0)
  out = dict(steps=steps)
  for k, fn in fns.items():
    traced = jax.jit(lambda s: jnp.asarray(fn(s)))     # called in the compiled step
    out[k] = [hlib.rat(float(traced(jnp.asarray(s, dtype=jnp.int32)))) for s in steps]
    out[k][0] = hlib.rat(float(fn(steps[0])))
  return out
