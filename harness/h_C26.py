"""niles.input_pipeline and the input iterator of the trainer."""
import os
import shutil
import tempfile
from unittest import mock

import hlib
import numpy as np

DEVICES = 2


def setup():
  hlib.devices(DEVICES)
  import jax
  jax.config.update('jax_enable_x64', True)
  import tensorflow
  tensorflow.config.set_visible_devices([], 'GPU')
  from absl import flags
  from swirl_fem.niles import train
  flags.FLAGS(['check'])


def final(rng, len_, size, stride, step, procs, batch, split=None, debug=None, cache=None):
  split = split or str(rng.choice(['train', 'validation']))
  debug = bool(rng.random() < .4) if debug is None else debug
  shards = list(range(24)) if split == 'train' else list(range(24, 28))
  if debug:
    shards = shards[:1]
  return dict(len=len_, size=size, stride=stride, step=step, procs=procs,
              batch=2 * batch, devices=DEVICES, split=split, debug=debug,
              cache=bool(rng.random() < .5) if cache is None else cache, shards=shards)


def complete(c, k, seed):
  rng = np.random.default_rng([seed, k, 26])
  return final(rng, c['len'], c['size'], c['stride'], c['step'], c['procs'], c['batch'])


def cases(tier, seed):
  rng = np.random.default_rng([seed, 26])
  out = []
  for i in range(24 if tier == 'quick' else 150):
    size = int(rng.integers(1, 8))
    out.append(final(rng, size + int(rng.integers(0, 12)), size, int(rng.integers(1, 6)),
                     int(rng.integers(1, 4)), int(rng.choice([1, 1, 2, 3, 4])),
                     int(rng.integers(1, 5)),
                     split=['train', 'validation', None, None][i % 4],
                     debug=[False, False, None, True, None][i % 5]))
  return out


def snapshots(shard, n):
  u = ((shard * 50 + np.arange(n)[:, None, None]) * 4 + np.arange(4)[:, None]) * 2 + np.arange(2)
  p = 1000000 + (shard * 50 + np.arange(n)[:, None]) * 4 + np.arange(4)
  return dict(u=u.astype(float), p=p.astype(float), t=shard * 50. + np.arange(n))


def run(case):
  import h5py
  import jax
  from absl import flags
  import ml_collections
  import tensorflow_datasets as tfds
  from swirl_fem.niles import input_pipeline
  from swirl_fem.niles import train

  other = dict(window_size=case['size'] + 1, window_stride=case['stride'] + 1)
  this = dict(window_size=case['size'], window_stride=case['stride'])
  training = case['split'] == 'train'
  config = dict(debug=case['debug'], cache=case['cache'], window_step=case['step'],
                batch_size=case['batch'])
  for name, values in (('train', this if training else other),
                       ('eval', other if training else this)):
    for k, v in values.items():
      config[f'{name}_{k}'] = v
  config = ml_collections.FrozenConfigDict(config)
  split = tfds.Split.TRAIN if training else tfds.Split.VALIDATION
  sizes = {tfds.Split.TRAIN: 24 * case['len'], tfds.Split.VALIDATION: 4 * case['len']}
  work = tempfile.mkdtemp(prefix='verif_input_')
  try:
    for shard in range(28):
      with h5py.File(os.path.join(work, 'filtered_dns_shard_%02d.hdf5' % shard), 'w') as f:
        for k, v in snapshots(shard, case['len']).items():
          f[k] = v
    flags.FLAGS.dataset_dir = work
    with mock.patch.dict(input_pipeline.NUM_SPLIT_EXAMPLES, sizes):
      num = int(input_pipeline.get_num_examples(split, debug=case['debug'], **this))
      per = num // case['procs'] // case['batch']
      runs = []
      for p in range(case['procs']):
        def iterator():
          with mock.patch.object(jax, 'process_index', lambda *a: p), \
               mock.patch.object(jax, 'process_count', lambda *a: case['procs']):
            return train.create_input_iter(case['batch'], training, config)
        epochs, layout, again = [[], []], None, []
        if per:
          it = iterator()
          for e in range(2):
            for _ in range(per):
              b = next(it)
              layout = layout or dict(devices=int(b['t'].shape[0]), each=int(b['t'].shape[1]))
              flat = {k: np.asarray(v).reshape((-1,) + v.shape[2:]) for k, v in b.items()}
              epochs[e].append([dict(shard=int(t[0]) // 50, at=[int(x) - 50 * (int(t[0]) // 50) for x in t],
                                     u=hlib.ints(u), p=hlib.ints(q))
                                for t, u, q in zip(flat['t'], flat['u'], flat['p'])])
          it.close()
          it = iterator()
          for _ in range(per):
            t = np.asarray(next(it)['t'])
            again.append([dict(shard=int(x[0]) // 50, first=int(x[0]) % 50)
                          for x in t.reshape((-1,) + t.shape[2:])])
          it.close()
        else:
          # too few windows for one batch: nothing can be delivered
          with mock.patch.object(jax, 'process_index', lambda *a: p), \
               mock.patch.object(jax, 'process_count', lambda *a: case['procs']):
            input_pipeline.create_split(case['batch'], training, config)
          layout = dict(devices=case['devices'], each=case['batch'] // case['devices'])
        runs.append(dict(epochs=epochs, layout=layout, again=again))
  finally:
    shutil.rmtree(work)
  return dict(num=num, runs=runs)
