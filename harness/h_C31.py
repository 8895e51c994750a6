"""Losses and training steps of niles.train with a stand-in model and solver."""
import types

import hlib
hlib.devices(4)
import numpy as np

CASE_TIMEOUT = 400
TIMES = [8, 16, 32, 64, 128]


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  from swirl_fem.niles import train


def numbers(rng, order, elements, npe, nodes, windows, length):
  q = lambda *s: hlib.rats(rng.integers(-8, 9, s) / 8.)
  if npe == 1:
    el = rng.permutation(nodes)[:, None]
  else:
    el = np.array([rng.choice(nodes, npe, replace=False) for _ in range(elements)])
    el[0, :] = rng.permutation(nodes)[:npe]
  occ = [[[int(e) + 1, int(k) + 1] for e, k in np.argwhere(el == i)] for i in range(nodes)]
  return dict(
      el=hlib.ints(el), occ=occ, conv=hlib.rats(rng.integers(-4, 5, nodes) / 16.),
      mass=hlib.rats(rng.integers(1, 9, nodes) / 8.), past=hlib.rats(rng.integers(-3, 4, order) / 16.),
      coords=hlib.rats(rng.integers(0, 65, (nodes, 2)) / 64.), drag=hlib.rat(float(rng.choice([0, .125, .5]))),
      dt=hlib.rat(float(rng.choice([.01, .25]))), reynolds=str(rng.choice([100, 1024])),
      alpha=hlib.rat(float(rng.choice([0, .05, .5]))), theta=hlib.rats(rng.integers(-7, 8, 4) / 8.),
      noise=[], perm=[]), [dict(u=q(length, nodes, 2), p=q(length, nodes)) for _ in range(windows)]


def complete(c, k, seed):
  """A scenario of the model: orders, number of steps, ..."""
  rng = np.random.default_rng([seed, k, 31])
  nodes = int(rng.integers(3, 6))
  c2, batch = numbers(rng, c['order'], int(rng.integers(2, 5)), 2, nodes, int(rng.integers(1, 4)),
                      c['order'] + c['steps'] + c['spare'])
  return dict(c2, kind='loss', order=c['order'], steps=c['steps'], push=c['push'], permute=False,
              train=True, gradient=True, batch=batch, penalty=hlib.rat(float(rng.choice([0, .25, 2]))),
              seed=int(rng.integers(1000)))


def cases(tier, seed):
  rng = np.random.default_rng([seed, 310])
  out = []
  quick = tier == 'quick'
  for i in range(3 if quick else 12):     # the elements rearranged
    c, batch = numbers(rng, 2 + i % 2, 144, 1, 144, 1 + i % 2, 6)
    out.append(dict(c, kind='loss', order=2 + i % 2, steps=2, push=i % 2, permute=True, train=i != 1,
                    gradient=False, batch=batch, penalty='1/4', seed=i))
  for i in range(2 if quick else 12):     # evaluation of a loss
    n = [4, 9][i % 2]
    order = int(rng.integers(2, 4))
    steps = int(rng.integers(1, 6))
    c, batch = numbers(rng, order, int(rng.integers(2, 5)), 2, n, 2, order + steps + int(rng.integers(0, 3)))
    out.append(dict(c, kind='loss', order=order, steps=steps, push=0, permute=False, train=False,
                    gradient=False, batch=batch, penalty='1/4', seed=i))
  for i in range(4 if quick else 24):     # training steps
    order = int(rng.integers(2, 4))
    steps = int(rng.integers(1, 4))
    at = int(rng.integers(0, 50))
    D = [2, 3, 2, 1][i % 4]
    B = int(rng.integers(1, 3))
    c, batch = numbers(rng, order, int(rng.integers(2, 5)), 2, int(rng.integers(3, 6)), D * B, order + steps)
    out.append(dict(c, kind='step', order=order, steps=steps, push=int(rng.integers(0, 2)), permute=False,
                    train=True, batches=[batch[d * B:(d + 1) * B] for d in range(D)], at=at,
                    penalty=hlib.rat(at / 16 + .125), rate=hlib.rat(at / 8 + .25), seed=i))
  for i, steps in enumerate([130, 9] if quick else [130, 9, 17, 40, 65, 128, 8]):   # evaluation steps
    c, batch = numbers(rng, 2 + i % 2, 2, 2, 4, [2, 4][i % 2], 3 + steps)
    c['theta'][2] = '0'
    half = len(batch) // 2
    at = int(rng.integers(0, 50))
    out.append(dict(c, kind='step', order=2 + i % 2, steps=steps, push=0, permute=False, train=False,
                    batches=[batch[:half], batch[half:]], at=at, times=TIMES,
                    penalty=hlib.rat(at / 16 + .125), rate='0', seed=i))
  for i in range(2 if quick else 6):      # the keys of consecutive steps
    steps = int(rng.integers(2, 5))
    c, batch = numbers(rng, 2, 2, 2, 4, 1, 2 + steps)
    out.append(dict(c, kind='keys', order=2, steps=steps, push=0, permute=False, train=i % 2 == 0,
                    batches=[batch], at=int(rng.integers(0, 50)), seed=i))
  return out


def flt(x):
  return np.vectorize(lambda s: float(hlib.fraction(s)), otypes=[float])(np.array(x, dtype=object))


class Stub:
  """Simple maps in place of the discretisation; records how it is called."""

  def __init__(self, case):
    import jax.numpy as jnp
    self.conv, self.mass, self.past = flt(case['conv'])[:, None], flt(case['mass'])[:, None], flt(case['past'])
    el = np.array(case['el'])
    x = jnp.asarray(flt(case['coords']))
    mesh = types.SimpleNamespace(node_coords=x, num_nodes=len(x), num_elements=el.shape[0],
                                 num_nodes_per_element=el.shape[1], ndim=2)
    self.velocity = types.SimpleNamespace(
        mesh=mesh, vspace=types.SimpleNamespace(mesh=mesh), gather=lambda u: u[el],
        scatter=lambda v: jnp.zeros(x.shape, v.dtype).at[el].add(v))
    self.calls = []

  def C(self, u):
    import jax.numpy as jnp
    return self.conv * u[:, ::-1] * jnp.roll(u, -1, axis=0)

  def B(self, f):
    return self.mass * f

  def stokes_one_step(self, us, ps, f, *, mu, dt, time_order, alpha=.05, **_):
    import jax.numpy as jnp
    self.calls.append(dict(mu=hlib.rat(float(mu)), dt=hlib.rat(float(dt)), alpha=hlib.rat(float(alpha)),
                           order=int(time_order)))
    grad = jnp.stack([ps[-1] - ps[-2], ps[-1] - 2 * ps[-2]], axis=-1)
    u = sum(a * x for a, x in zip(self.past, us)) + f / 4 + grad / 16
    p = ps[-1] / 2 - ps[-2] / 4 + (u[:, 0] - u[:, 1]) / 8
    return u, p, {}


class Model:
  """Stand-in for the network; notes the keys and the mode it is given."""

  def __init__(self, elements, noisy):
    self.weights = np.array([(7 * e % 5 - 2) / 4 for e in range(1, elements + 1)])
    self.noisy, self.record, self.keys, self.noise, self.modes = noisy, False, [], [], []

  def __call__(self, variables, inputs, rngs=None, *, z_rng, train):
    import jax
    import jax.numpy as jnp
    th = variables['params']['theta']
    self.modes.append(bool(train))
    assert inputs.dtype == jnp.float32
    data = jnp.asarray(jax.random.key_data(z_rng) if jnp.issubdtype(z_rng.dtype, jax.dtypes.prng_key)
                       else z_rng).astype(jnp.uint32)
    z = ((data[-1] >> 7) % 64) / 64. if self.noisy else jnp.zeros(())
    if self.record == 'keys':
      show = lambda d: '-'.join(str(int(x)) for x in np.ravel(d))
      jax.debug.callback(lambda d: self.keys.append('z' + show(d)), data)
      if rngs:
        drop = jnp.asarray(rngs['dropout'])
        jax.debug.callback(lambda d: self.keys.append('d' + show(d)), drop)
    elif self.record:
      def note(d, v):
        self.keys.append('-'.join(str(int(x)) for x in np.ravel(d)))
        self.noise.append(hlib.rat(float(v)))
      jax.debug.callback(note, data, z, ordered=True)
    x = inputs.astype(jnp.float64)
    w = self.weights[:, None]
    out = th[0] * x + th[1] * w * jnp.roll(x, -1, axis=1) + th[2] * z
    f32 = lambda v: v.astype(jnp.float32)
    aux = dict(kl_q0=f32(th[3] * x[:, 0, 0]**2 + th[0]**2), kl_path=f32(th[1] * th[3] * x[:, -1, 0] + .5),
               z0_means=f32(x[:, 0, 0] - th[0]), z1_means=f32(x[:, 0, 1]), z1_stds=f32(x[:, -1, 0] * th[3]))
    return out, aux


def run(case):
  import flax.training.train_state as ts
  import jax
  import jax.numpy as jnp
  import ml_collections
  import optax
  from swirl_fem.niles import train
  el = np.array(case['el'])
  sem, model = Stub(case), Model(len(el), case['kind'] == 'loss')
  config = ml_collections.FrozenConfigDict(dict(
      time_order=case['order'], num_steps=case['steps'] if case['train'] else 1,
      eval_num_steps=1 if case['train'] else case['steps'], num_pushforward_steps=case['push'],
      permute_elements=case['permute'], num_elements=len(el), num_channels=2 * el.shape[1],
      num_nodes=len(case['coords']), drag_coeff=float(flt(case['drag'])), dt=float(flt(case['dt'])),
      reynolds_number=float(flt(case['reynolds'])), alpha=float(flt(case['alpha']))))
  theta = jnp.asarray(flt(case['theta']))
  pack = lambda b: dict(u=jnp.asarray(flt([w['u'] for w in b])), p=jnp.asarray(flt([w['p'] for w in b])))
  uniform = types.SimpleNamespace(interpolate=lambda u, source_mesh: u, num_nodes=len(case['coords']))
  order = np.arange(len(case['coords']))
  perm = hlib.ints(train.make_multiscale_perm())
  if case['kind'] == 'loss':
    def fn(theta, batch):
      return train.compute_mse_loss(
          batch, {'theta': theta}, model_apply_fn=model, step_rng=jax.random.PRNGKey(case['seed']),
          kl_penalty=float(flt(case['penalty'])), sem=sem, uniform_mesh=uniform, first_order_perm=order,
          config=config, train=case['train'])
    batch = pack(case['batch'])
    model.record = True
    loss, aux = jax.jit(fn)(theta, batch)
    jax.effects_barrier()
    model.record = False
    out = dict(loss=hlib.rat(float(loss)), **numbers_of(aux), mse=hlib.rats(aux['mse']), keys=model.keys,
               noise=model.noise or ['0'] * case['steps'], calls=sem.calls, modes=model.modes, perm=perm)
    if case['gradient']:
      (again, _), grad = jax.jit(jax.value_and_grad(fn, has_aux=True))(theta, batch)
      out.update(grad=hlib.rats(grad), again=hlib.rat(float(again)))
    return out
  D = len(case['batches'])
  batch = jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[pack(b) for b in case['batches']])
  state = ts.TrainState.create(apply_fn=model, params={'theta': theta}, tx=optax.sgd(1.))
  state = state.replace(step=case['at'])
  rep = lambda x: jnp.broadcast_to(jnp.asarray(x), (D,) + jnp.shape(x))
  state = jax.tree_util.tree_map(rep, state)
  penalty, rate = lambda s: s / 16 + .125, lambda s: s / 8 + .25
  key = jax.random.PRNGKey(case['seed'])
  if case['kind'] == 'keys':
    model.record = 'keys'
  if case['train']:
    fn = lambda state, batch: train.train_step(
        state, batch, learning_rate_fn=rate, kl_penalty_fn=penalty, sem=sem, train_rng=key, config=config)
    step = jax.pmap(fn, axis_name='batch', devices=jax.devices()[:D])
    if case['kind'] == 'keys':
      return keys_of(lambda s: step(s, batch), state, model)
    state, m = step(state, batch)
  else:
    fn = lambda state, batch: train.eval_step(
        state, batch, kl_penalty_fn=penalty, sem=sem, uniform_mesh=uniform, first_order_perm=order,
        eval_rng=key, config=config)
    step = jax.pmap(fn, axis_name='batch', devices=jax.devices()[:D])
    if case['kind'] == 'keys':
      return keys_of(lambda s: step(s, batch), state, model)
    m = step(state, batch)
  metrics = []
  for d in range(D):
    e = jax.tree_util.tree_map(lambda x: np.asarray(x)[d], m)
    r = dict(loss=hlib.rat(float(e['loss'])), **numbers_of(e), mse=hlib.rat(float(e['mse'])))
    if case['train']:
      r.update(rate=hlib.rat(float(e['learning_rate'])), penalty=hlib.rat(float(e['kl_penalty'])))
    else:
      r.update(at=[hlib.rat(float(e[f'mse@{k}'])) for k in TIMES], first=hlib.rat(float(e['mse@1to8'])))
    metrics.append(r)
  return dict(metrics=metrics, calls=sem.calls, modes=model.modes, noise=['0'] * case['steps'], perm=perm,
              params=[hlib.rats(np.asarray(state.params['theta'])[d]) for d in range(D)],
              steps=[int(np.asarray(state.step)[d]) for d in range(D)])


def keys_of(step, state, model):
  """The different keys of the steps from three consecutive states."""
  import jax
  out = []
  for _ in range(3):
    model.keys.clear()
    jax.block_until_ready(step(state))
    jax.effects_barrier()
    out.append(sorted(set(model.keys)))
    state = state.replace(step=state.step + 1)
  return dict(key_sets=out)


def numbers_of(aux):
  f = lambda k: hlib.rat(float(aux[k]))
  return dict(kl_q0=f('kl_q0'), kl_path=f('kl_path'), kl=f('kl'),
              z=[f('z0_means'), f('z1_means'), f('z1_stds')])
