"""niles.train.train_and_evaluate with recording steps, real checkpoints and injected crashes."""
import os
import re
import shutil
import tempfile
from unittest import mock

import hlib
import numpy as np

DEVICES = 2
LENGTH = 256


class Crash(Exception):
  pass


def setup():
  hlib.devices(DEVICES)
  import jax
  jax.config.update('jax_enable_x64', True)
  from absl import flags
  from swirl_fem.niles import train
  flags.FLAGS(['check'])


def final(rng, cf, runs, spe=16):
  debug = bool(rng.random() < .6)
  shards, vshards = (1, 1) if debug else (24, 4)
  batch = 4 if debug else int(rng.choice([4, 12]))
  # as many windows as make `spe` batches, and some more
  def shape(num, shards):
    per = -(-num * batch // shards)
    if rng.random() < .5 and (per + 1) * shards // batch == num:
      per += 1
    size, stride = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    return size + (per - 1) * stride + int(rng.integers(0, stride)), size, stride, per * shards // batch
  n, size, stride, spe = shape(spe, shards)
  whole = bool(rng.random() < .4)
  vn, vsize, vstride, vsteps = shape(cf['batches'], vshards)
  q = lambda a, b=16: f'{a}/{b}' if b != 1 else str(a)
  frac = int(rng.integers(0, 4)) if spe == 16 else 0       # a fraction of a step, dropped
  case = dict(
      kind='runs', debug=debug, batch=batch, len=n, size=size, stride=stride,
      vlen=vn, vsize=vsize, vstride=vstride,
      eval_batches=-1 if whole else cf['batches'],
      log=cf['log'], save_epochs=f"{4 * cf['save'] + frac}/{4 * spe}",
      eval_epochs=f"{4 * cf['eval'] + frac}/{4 * spe}",
      learning_rate=q(int(rng.integers(1, 16))), penalty=q(int(rng.integers(1, 16))),
      warmup=q(int(rng.integers(0, 8)), 8), zero=q(int(rng.integers(0, 4)), 8),
      transition=q(int(rng.integers(1, 8)), 8), runs=[])
  for r in runs:
    by_epochs = bool(rng.random() < .5)
    case['runs'].append(dict(
        crash=r['crash'], at=r['at'], num_train_steps=-1 if by_epochs else r['end'],
        epochs=f"{r['end']}/{spe}" if by_epochs else f"{int(rng.integers(1, 9))}/4",
        where=int(rng.integers(0, cf['batches'] + 1))))
  if spe & (spe - 1):        # only dyadic numbers of epochs are exact
    return None
  return case


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 27])
  return final(rng, c['cf'], c['runs'])


def cases(tier, seed):
  rng = np.random.default_rng([seed, 27])
  none = lambda end: dict(end=end, crash='none', at=0)
  out = [dict(kind='refused', batch=3), dict(kind='refused', batch=5)]
  # numbers of one to three digits
  out.append(final(rng, dict(log=8, eval=10, save=3, batches=1), [none(11), none(13), none(14)]))
  out.append(final(rng, dict(log=0, eval=4, save=5, batches=3), [none(12), none(6), none(12), none(17)]))
  out.append(final(rng, dict(log=40, eval=50, save=32, batches=1),
                   [none(99), none(103), dict(end=140, crash='ready', at=30), none(140)], spe=64))
  if tier != 'quick':
    for _ in range(30):
      cf = dict(log=int(rng.integers(0, 7)), eval=int(rng.integers(1, 9)),
                save=int(rng.integers(1, 9)), batches=int(rng.integers(1, 4)))
      out.append(final(rng, cf, [none(int(rng.integers(1, 40))) for _ in range(3)]))
  return [c for c in out if c is not None]


def checkpoints_on(disk):
  from flax.training import checkpoints
  out = []
  for name in os.listdir(disk):
    m = re.fullmatch(r'checkpoint_(\d+)', name)
    if m:
      state = checkpoints.restore_checkpoint(os.path.join(disk, name), None)
      out.append(dict(label=int(m[1]), step=int(state['step']),
                      lineage=lineage(int(state['step']), state['params']['log'])))
  out.sort(key=lambda x: x['label'])
  return out


def lineage(step, log):
  # everything that was written, even beyond `step`
  log = np.asarray(log)
  n = max([step] + [i + 1 for i in np.flatnonzero(log)])
  return hlib.ints(log[:n])


def run(case):
  import flax
  import jax
  import jax.numpy as jnp
  from jax import lax
  import ml_collections
  import optax
  from flax.training import train_state
  import tensorflow_datasets as tfds
  from swirl_fem.niles import input_pipeline
  from swirl_fem.niles import train
  from clu import metric_writers
  from clu import periodic_actions

  f = lambda s: float(hlib.fraction(s))
  refused = case['kind'] == 'refused'
  if refused:
    case = dict(case, debug=True, len=40, size=2, stride=1, vlen=40, vsize=2, vstride=1,
                eval_batches=1, log=2, save_epochs='1', eval_epochs='1', learning_rate='1',
                penalty='1', warmup='1', zero='1', transition='1',
                runs=[dict(crash='none', at=0, num_train_steps=2, epochs='1', where=0)])
  sizes = {tfds.Split.TRAIN: 24 * case['len'], tfds.Split.VALIDATION: 4 * case['vlen']}
  work = tempfile.mkdtemp(prefix='verif_trainer_')
  runs = []
  try:
    before = 0
    windows = (case['len'] - case['size']) // case['stride'] + 1
    per_epoch = (1 if case['debug'] else 24) * windows // case['batch']
    eval_every = int(f(case['eval_epochs']) * per_epoch)
    for n, r in enumerate(case['runs'], 1):
      config = ml_collections.FrozenConfigDict(dict(
          batch_size=case['batch'], element_grid_size=2, order=2, debug=case['debug'],
          train_window_size=case['size'], train_window_stride=case['stride'],
          eval_window_size=case['vsize'], eval_window_stride=case['vstride'],
          num_train_steps=r['num_train_steps'], num_epochs=f(r['epochs']),
          steps_per_eval=case['eval_batches'], checkpoint_epochs=f(case['save_epochs']),
          eval_every_epochs=f(case['eval_epochs']), learning_rate=f(case['learning_rate']),
          warmup_epochs=f(case['warmup']), kl_transition_epochs=f(case['transition']),
          kl_zero_epochs=f(case['zero']), kl_penalty=f(case['penalty']),
          log_every_steps=case['log'], model_name='recorder', model=dict(width=1),
          num_elements=4, num_channels=18))
      rec = dict(batches=[], logs=[], evals=[], error='')
      crash_step = before + r['at']

      def create_input_iter(batch_size, train, config):
        assert batch_size == case['batch']
        i = 0
        while True:
          if train:
            if r['crash'] == 'ready' and i == r['at']:
              raise Crash()
            rec['batches'].append(i)
          elif (r['crash'] == 'logged' and i % evals() == r['where']
                and (before // eval_every + 1 + i // evals()) * eval_every == crash_step):
            raise Crash()
          yield dict(x=np.full((DEVICES, batch_size // DEVICES), i))
          i += 1

      def evals():
        if case['eval_batches'] >= 0:
          return case['eval_batches']
        per = (case['vlen'] - case['vsize']) // case['vstride'] + 1
        return (1 if case['debug'] else 4) * per // case['batch']

      def create_train_state(**kw):
        return train_state.TrainState.create(
            apply_fn=lambda *a: 0, params=dict(log=jnp.zeros(LENGTH, jnp.int32)), tx=optax.sgd(1.))

      def rng_metrics(key):
        number = key[-1] % 65521
        return dict(key=number * 1.,
                    distinct=(lax.pmax(number, 'batch') != lax.pmin(number, 'batch')) * 1.)

      def train_step(state, batch, learning_rate_fn, kl_penalty_fn, train_rng, **kw):
        code = 1000 * n + lax.pmax(batch['x'].max(), 'batch') + 1
        log = state.params['log']
        # a step that is done twice shows up
        log = log.at[state.step].add(code.astype(log.dtype))
        metrics = dict(loss=state.step * 1., lr=learning_rate_fn(state.step) * 1.,
                       kl=kl_penalty_fn(state.step) * 1., **rng_metrics(train_rng))
        return state.replace(step=state.step + 1, params=dict(log=log)), metrics

      def eval_step(state, batch, kl_penalty_fn, eval_rng, **kw):
        return dict(loss=state.step + 100. * batch['x'].max(), kl=kl_penalty_fn(state.step) * 1.,
                    **rng_metrics(eval_rng))

      def write_scalars(step, scalars):
        kind = 'logs' if 'train_loss' in scalars else 'evals'
        p = 'train_' if kind == 'logs' else 'eval_'
        if step == crash_step and r['crash'] == ('stepped' if kind == 'logs' else 'logged'):
          raise Crash()
        entry = dict(step=int(step), loss=hlib.rat(float(scalars[p + 'loss'])),
                     kl=hlib.rat(float(scalars[p + 'kl'])), key=int(scalars[p + 'key']),
                     distinct=bool(scalars[p + 'distinct'] == 1))
        if kind == 'logs':
          entry['lr'] = hlib.rat(float(scalars['train_lr']))
        rec[kind].append(entry)

      rename = os.rename

      def failing_rename(a, b, *args, **kw):
        m = re.search(r'checkpoint_(\d+)$', str(b))
        if r['crash'] == 'evaluated' and m and int(m[1]) == crash_step:
          raise Crash()
        return rename(a, b, *args, **kw)

      writer = mock.MagicMock()
      writer.write_scalars.side_effect = write_scalars
      state = None
      with mock.patch.dict(input_pipeline.NUM_SPLIT_EXAMPLES, sizes), \
           mock.patch.multiple(train, create_input_iter=create_input_iter,
                               create_model=lambda *a, **k: None,
                               create_train_state=create_train_state,
                               train_step=train_step, eval_step=eval_step), \
           mock.patch.object(metric_writers, 'create_default_writer', lambda *a, **k: writer), \
           mock.patch.object(periodic_actions, 'Profile', lambda *a, **k: lambda step: None), \
           mock.patch.object(os, 'rename', failing_rename):
        try:
          state = train.train_and_evaluate(config, work)
        except Crash:
          pass
        except Exception as e:
          if refused:
            raise
          rec['error'] = f'{type(e).__name__}: {e}'[:300]
      rec['crashed'] = state is None
      if state is not None:
        state = flax.jax_utils.unreplicate(state)
        rec['final'] = dict(step=int(state.step), lineage=lineage(int(state.step), state.params['log']))
      rec['disk'] = checkpoints_on(work)
      before = max([d['label'] for d in rec['disk']], default=0)
      runs.append(rec)
  finally:
    shutil.rmtree(work)
  keys = [l['key'] for r in runs for l in r['logs']] or [0]
  eval_keys = [l['key'] for r in runs for l in r['evals']] or [1]
  return dict(runs=runs, key=keys[0], eval_key=eval_keys[0])
