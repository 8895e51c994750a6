"""The data generator on a stand-in discretisation, and on a real one."""
import glob
import os
import tempfile
import types

import hlib
import numpy as np

CASE_TIMEOUT = 400


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  from swirl_fem.niles.datagen import datagen


def complete(c, k, seed):
  """A plan of cycles: numbers for the stand-in."""
  rng = np.random.default_rng([seed, k, 30])
  n = int(rng.integers(2, 5))
  order = c['order']
  q = lambda *s: hlib.rats(rng.integers(-8, 9, s) / 8.)
  return dict(kind='stub', order=order, cycles=c['cycles'], nodes=n, start=int(rng.choice([0, 40, 500])),
              conv=hlib.rats(rng.integers(-4, 5, n) / 16.), mass=hlib.rats(rng.integers(1, 9, n) / 8.),
              past=hlib.rats(rng.integers(-3, 4, order) / 16.),
              coords=hlib.rats(rng.integers(0, 65, (n, 2)) / 64.), us=q(order, n, 2), ps=q(order, n))


def cases(tier, seed):
  out = [dict(kind='run', order=3, resolution=2, degree=2, length=10, count=2)]
  rng = np.random.default_rng([seed, 300])
  for _ in range(1 if tier == 'quick' else 8):
    out.append(dict(kind='run', order=int(rng.integers(2, 4)), resolution=int(rng.integers(2, 4)),
                    degree=int(rng.integers(2, 4)), length=int(rng.integers(4, 14)),
                    count=int(rng.integers(1, 4))))
  for _ in range(2 if tier == 'quick' else 20):     # a long run
    order = int(rng.integers(2, 4))
    out.append(complete(dict(order=order, cycles=[int(x) for x in rng.integers(0, 60, 3)]),
                        int(rng.integers(1000)), seed))
  return out


def flt(x):
  return np.vectorize(lambda s: float(hlib.fraction(s)), otypes=[float])(np.array(x, dtype=object))


class Stub:
  """Simple maps in place of the operators; records how it is called."""

  def __init__(self, case):
    import jax.numpy as jnp
    self.conv = jnp.asarray(flt(case['conv']))[:, None]
    self.mass = jnp.asarray(flt(case['mass']))[:, None]
    self.past = flt(case['past'])
    mesh = types.SimpleNamespace(node_coords=jnp.asarray(flt(case['coords'])))
    self.velocity = types.SimpleNamespace(mesh=mesh, vspace=types.SimpleNamespace(mesh=mesh))
    self.calls = []

  def C(self, u):
    import jax.numpy as jnp
    return self.conv * u[:, ::-1] * jnp.roll(u, -1, axis=0)

  def B(self, f):
    return self.mass * f

  def stokes_one_step(self, us, ps, f, *, mu, dt, time_order, **_):
    import jax.numpy as jnp
    self.calls.append(dict(mu=hlib.rat(float(mu)), dt=hlib.rat(float(dt)), order=int(time_order)))
    grad = jnp.stack([ps[-1] - ps[-2], ps[-1] - 2 * ps[-2]], axis=-1)
    u = sum(a * x for a, x in zip(self.past, us)) + f / 4 + grad / 16
    p = ps[-1] / 2 - ps[-2] / 4 + (u[:, 0] - u[:, 1]) / 8
    return u, p, {}


class Recorder:
  """The discretisation, recording its Stokes steps."""

  def __init__(self, sem):
    self.sem, self.calls = sem, []

  def __getattr__(self, name):
    return getattr(self.sem, name)

  def stokes_one_step(self, us, ps, f, *args, mu, dt, time_order, **kw):
    import jax
    u, p, aux = self.sem.stokes_one_step(us, ps, f, *args, mu=mu, dt=dt, time_order=time_order, **kw)
    def record(us, ps, f, u, p):
      self.calls.append(dict(
          us=[hlib.rats(x) for x in us], ps=[hlib.rats(x) for x in ps], f=hlib.rats(f),
          u=hlib.rats(u), p=hlib.rats(p), mu=hlib.rat(float(mu)), dt=hlib.rat(float(dt)),
          order=int(time_order)))
    jax.debug.callback(record, us, ps, f, u, p, ordered=True)
    return u, p, aux


def constants(datagen):
  return dict(resolution=int(datagen.RESOLUTION), degree=int(datagen.ORDER),
              dt=hlib.rat(float(datagen.DT)), drag=hlib.rat(float(datagen.DRAG_COEFF)),
              reynolds=hlib.rat(float(datagen.REYNOLDS_NUMBER)))


def files(d):
  import h5py
  out = []
  for path in sorted(glob.glob(os.path.join(d, '*'))):
    with h5py.File(path, 'r') as f:
      out.append(dict(name=os.path.basename(path), t=hlib.rats(f['t'][()]),
                      u=hlib.rats(f['u'][()]), p=hlib.rats(f['p'][()])))
  return out


def run(case):
  import jax
  import jax.numpy as jnp
  from absl import flags
  from swirl_fem.niles.datagen import datagen
  saved = {k: getattr(datagen, k) for k in
           ('TIME_ORDER', 'RESOLUTION', 'ORDER', 'NUM_CYCLES', 'NUM_STEPS_PER_CYCLE')}
  with tempfile.TemporaryDirectory() as d:
    if not flags.FLAGS.is_parsed():
      flags.FLAGS(['check', '--workdir=' + d])
    flags.FLAGS.workdir = d
    try:
      datagen.TIME_ORDER = case['order']
      if case['kind'] == 'stub':
        sem = Stub(case)
        us, ps = tuple(jnp.asarray(flt(case['us']))), tuple(jnp.asarray(flt(case['ps'])))
        out = dict(us=case['us'], ps=case['ps'], coords=case['coords'])
        at = case['start']
        for n in case['cycles']:
          us, ps = datagen.one_cycle(sem=sem, start_step=at, num_steps=n, us=us, ps=ps)
          at += n
        out.update(us_end=[hlib.rats(u) for u in us], ps_end=[hlib.rats(p) for p in ps],
                   calls=sem.calls, files=files(d), **constants(datagen))
        return out
      from swirl_fem.navier_stokes import navier_stokes as ns
      import stokes
      make = ns.StokesSEM.create
      made = []
      def create(*a, **kw):
        made.append(Recorder(make(*a, **kw)))
        return made[-1]
      datagen.RESOLUTION, datagen.ORDER = case['resolution'], case['degree']
      datagen.NUM_CYCLES, datagen.NUM_STEPS_PER_CYCLE = case['count'], case['length']
      ns.StokesSEM.create = create
      try:
        datagen.run_simulation()
        jax.effects_barrier()
      finally:
        ns.StokesSEM.create = make
      return dict(grid=stokes.describe(made[0].sem, 2, case['degree'], 2, []), calls=made[0].calls,
                  files=files(d), **constants(datagen))
    finally:
      for k, v in saved.items():
        setattr(datagen, k, v)
