"""niles.train.train_and_evaluate as it is, on data sets of shear flows."""
import os
import shutil
import tempfile
from unittest import mock

import hlib
import numpy as np

CASE_TIMEOUT = 600


def setup():
  hlib.devices(2)
  import jax
  jax.config.update('jax_enable_x64', True)      # (as in niles.main)
  from absl import flags
  from swirl_fem.niles import train
  flags.FLAGS(['check'])


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 35])
  steps, evalsteps, step = int(rng.integers(2, 4)), int(rng.integers(8, 10)), int(rng.integers(1, 3))
  order = c['order']
  samples = 2 if k % 2 else 0
  descent = bool(k % 2 == 0)
  length = (order + evalsteps) * step + 2
  base = [float(hlib.fraction(x if x != 'steady' else '1/2')) for x in c['s']]
  data = np.array([base] * length) + np.cumsum(rng.integers(-3, 4, (length, 4)) / 128. * [1, .25, 1, 1], axis=0)
  return dict(kind='run', order=order, dt=c['dt'], reynolds=str(1 / hlib.fraction(c['nu'])), drag=c['drag'],
              steps=steps, evalsteps=evalsteps, step=step, batch=2, data=hlib.rats(data), samples=samples,
              scale='1/8', features=16, tokens=9, permute=bool(rng.random() < .7), push=0 if descent else steps - 1,
              descent=descent, runs=[3] if descent else [2] if k < 2 else [1, 2],
              evalevery=100 if descent else 2,
              penalty=hlib.rat(float(rng.integers(1, 9)) / 64))


def cases(tier, seed):
  out = [dict(kind='default', batch=1, elements=144, channels=50, samples=4, features=192, tokens=9, scale='1/10')]
  return out


f = lambda s: float(hlib.fraction(s))


def metrics(m, prefix):
  get = lambda k: hlib.rat(float(m[prefix + k]))
  return {k: get(k) for k in ['loss', 'mse', 'kl', 'kl_q0', 'kl_path']}


def run(case):
  import jax
  import jax.numpy as jnp
  import ml_collections
  from swirl_fem.niles import train
  from swirl_fem.niles.config import niles
  config = niles.get_config()
  if case['kind'] == 'default':
    config = ml_collections.FrozenConfigDict(config)
    model = train.create_model(config.model_name, config.model)
    state = train.create_train_state(rng=jax.random.PRNGKey(0), model=model, learning_rate_fn=lambda n: .1,
                                     updown_learning_rate_fn=lambda n: .1, config=config)
    x = jax.random.normal(jax.random.PRNGKey(1), (case['batch'], case['elements'], case['channels']), jnp.float32)
    fn = jax.jit(lambda p, x: state.apply_fn({'params': p}, x, z_rng=jax.random.PRNGKey(2), train=False))
    y, aux = fn(state.params, x)
    return dict(shape=list(y.shape), force=hlib.rat(float(jnp.abs(y).max())), kl_q0=hlib.rats(aux['kl_q0']),
                kl_path=hlib.rats(aux['kl_path']))

  import h5py
  import tensorflow_datasets as tfds
  from absl import flags
  from clu import metric_writers
  from clu import periodic_actions
  from flax import jax_utils
  from swirl_fem.common import premesh_commons
  from swirl_fem.navier_stokes import navier_stokes
  from swirl_fem.niles import input_pipeline

  # a small network, otherwise as configured
  m, p = config.model, config.model.processor_config
  m.width, m.depth, m.pooling_layers = 4, 3, (1, 2)
  p.num_samples, p.latent_size, p.num_gridpoints, p.num_sde_layers = case['samples'], 16, 3, 1
  p.prior_scale = f(case['scale'])
  m.mean_after_decoder = case['samples'] > 0
  config.batch_size, config.debug = case['batch'], True
  config.num_steps, config.eval_num_steps = case['steps'], case['evalsteps']
  config.num_pushforward_steps = case['push']
  config.permute_elements = case['permute']
  config.time_order, config.dt, config.drag_coeff = case['order'], f(case['dt']), f(case['drag'])
  config.reynolds_number = int(case['reynolds'])
  config.window_step = case['step']
  config.train_window_size = (case['steps'] + case['order']) * case['step']
  config.eval_window_size = (case['evalsteps'] + case['order']) * case['step']
  config.train_window_stride = config.eval_window_stride = 1
  config.learning_rate, config.warmup_epochs, config.num_epochs = 256. / case['batch'] * 2e-3 * case['descent'], 1, 20.
  config.kl_penalty, config.kl_transition_epochs = f(case['penalty']), 4.
  config.log_every_steps, config.steps_per_eval = 1, 1
  config.eval_every_epochs, config.checkpoint_epochs = float(case['evalevery']), 2

  sem = navier_stokes.StokesSEM.create(
      premesh_commons.unit_cube_mesh(config.element_grid_size, periodic_dims=(0, 1)),
      boundary_conditions={}, order=config.order)
  x = np.asarray(sem.velocity.mesh.node_coords, dtype=float)
  num_p = sem.pressure.pspace.mesh.num_nodes
  w = 8 * np.pi * x[:, 1]
  flow = lambda U, V, a, b: np.stack([U + a * np.sin(w) + b * np.cos(w), V + 0 * w], axis=-1)
  data = [[f(v) for v in row] for row in case['data']]
  logs, evals = [], []

  def write_scalars(step, values):
    if 'train_loss' in values:
      logs.append(dict(step=int(step), penalty=hlib.rat(float(values['train_kl_penalty'])), **metrics(values, 'train_')))
    else:
      evals.append(dict(step=int(step), first=hlib.rat(float(values['eval_mse@1to8'])),
                        at8=hlib.rat(float(values['eval_mse@8'])), **metrics(values, 'eval_')))

  writer = mock.MagicMock()
  writer.write_scalars.side_effect = write_scalars
  work = tempfile.mkdtemp(prefix='verif_kolmogorov_')
  try:
    sizes = {}
    # one shard each; the windows fill one batch
    for shard, split, count, window in [(0, tfds.Split.TRAIN, 24, config.train_window_size),
                                        (24, tfds.Split.VALIDATION, 4, config.eval_window_size)]:
      length = window + case['batch'] - 1
      sizes[split] = length * count
      with h5py.File(f'{work}/filtered_dns_shard_{shard:02}.hdf5', 'w') as file:
        file['u'] = np.stack([flow(*row) for row in data[:length]])
        file['p'] = np.zeros((length, num_p))
        file['t'] = np.arange(length, dtype=float)
    saved = flags.FLAGS.dataset_dir
    flags.FLAGS.dataset_dir = work
    try:
      with mock.patch.dict(input_pipeline.NUM_SPLIT_EXAMPLES, sizes), \
           mock.patch.object(metric_writers, 'create_default_writer', lambda *a, **k: writer), \
           mock.patch.object(periodic_actions, 'Profile', lambda *a, **k: lambda step: None):
        for end in case['runs']:
          config.num_train_steps = end
          state = train.train_and_evaluate(ml_collections.FrozenConfigDict(config), os.path.join(work, 'run'))
    finally:
      flags.FLAGS.dataset_dir = saved
  finally:
    shutil.rmtree(work)
  state = jax_utils.unreplicate(state)
  return dict(logs=logs, evals=evals, final=int(state.step), coords=hlib.rats(x),
              finite=all(bool(jnp.isfinite(v).all()) for v in jax.tree_util.tree_leaves(state.params)))
