"""Histories of calls that lead from the description of a mesh to integrals."""
import dataclasses
import enum
import os
import tempfile

import fe
import hlib
import numpy as np

KINDS = dict(fe.KINDS, single='SINGLE')


def setup():
  hlib.devices(8)
  import jax
  jax.config.update('jax_enable_x64', True)


def complete(c, k, seed):
  return dict(calls=c['calls'], more=0, seed=k)


def cases(tier, seed):
  rng = np.random.default_rng([seed, 390])
  return [dict(calls=[start(rng)], more=int(rng.integers(4, 14)), seed=int(rng.integers(10**6)))
          for _ in range(60 if tier == 'quick' else 700)]


def start(rng):
  if rng.random() < .6:
    d = int(rng.integers(1, 4))
    n = int(rng.integers(1, {1: 9, 2: 5, 3: 3}[d]))
    per = [a + 1 for a in range(d) if rng.random() < .3]
    blocks = [int(rng.choice([1, 1, 2, 3, n])) for _ in range(d)] if rng.random() < .5 else []
    while np.prod(blocks) > 8:
      blocks[int(np.argmax(blocks))] = 1
    return dict(op='cube', d=d, n=n, per=per, blocks=blocks)
  if rng.random() < .8:
    d = int(rng.integers(1, 4))
    m = int(rng.integers(2, 5))
    given = int(rng.choice([0, 0, m, m, m - 1, m + 1]))
    K = m**d if rng.random() < .7 else int(rng.integers(2, 30))
    return dict(op='raw', what=str(rng.choice(['premesh', 'mesh'])), d=d, K=K,
                pts=given if given != 1 else 0, type=str(rng.choice(['nc', 'gll', 'gl'])))
  return dict(op='read', n=int(rng.integers(1, 4)), d=int(rng.choice([2, 2, 2, -1, 0, 1, 3, 4])))


def around(rng, s):
  s = list(s)
  if rng.random() < .6:
    return s
  how = int(rng.integers(6))
  if how == 0 and len(s) > 1:
    s[0], s[1] = s[1], s[0]
  elif how == 1:
    s = s[:-1]
  elif how == 2:
    s = s + [1]
  elif how == 3:
    s = [1] + s
  else:
    a = int(rng.integers(len(s)))
    s[a] = max(1, s[a] + int(rng.choice([-1, 1])))
  return [int(x) for x in s]


def further(rng, objs):
  """A call on some object, right or wrong."""
  i = int(rng.integers(len(objs))) if rng.random() < .4 else len(objs) - 1
  o = objs[i]
  kind = o['kind']
  on = dict(i=i + 1)
  types = ['nc', 'gl', 'gll']
  pick = lambda q: q[int(rng.integers(len(q)))]
  if kind == 'premesh':
    op = pick(['refine', 'refine', 'finalize', 'finalize', 'empty', 'assign', 'partition', 'renumber', 'renumber'])
    pm = o['obj']
    ne = len(pm.elements)
    if op == 'refine':
      top = 5 if pm.ndim < 3 else 4
      return dict(on, op=op, pts=int(rng.integers(2, top)), type=pick(types * 3 + ['single']))
    if op == 'partition' and ne >= 4:
      return dict(on, op=op, k=2)
    if op == 'assign':
      D = int(rng.integers(1, min(ne, 4) + 1))
      parts = np.concatenate([np.arange(D), rng.integers(0, D, ne - D)])
      return dict(on, op=op, parts=hlib.ints(np.sort(parts) if rng.random() < .5 else rng.permutation(parts)))
    if op == 'empty':
      return dict(on, op=op)
    if op == 'renumber':
      return dict(on, op=op, by=int(rng.integers(10**6)))
    return dict(on, op='finalize', axis=bool(rng.random() < .7))
  if kind == 'mesh':
    op = pick(['space', 'space', 'gather', 'scatter'])
    m = o['obj']
    if op == 'space':
      return dict(on, op=op, q=int(rng.integers(2, 5)), type=pick(types * 3 + ['single']))
    return dict(on, op=op, shape=around(rng, [m.num_nodes] if op == 'gather' else [m.num_elements, m.num_nodes_per_element]))
  if kind == 'space':
    value = pick(['scalar', 'vector'])
    if rng.random() < .3:
      return dict(on, op='covector', value=value, open=int(rng.choice([1, 1, 0, 2])))
    if rng.random() < .2:
      return dict(on, op='function', value=value, open=True, shape=[])
    m = o['mesh']
    shape = [m.num_elements, m.num_nodes_per_element] + ([m.ndim] if value == 'vector' else [])
    return dict(on, op='function', value=value, open=False, shape=around(rng, shape))
  if kind == 'function':
    return dict(on, op='integrate', form=pick(['square', 'square', 'gradient']))
  return further(rng, objs[:i]) if i else start(rng)


def run(case):
  from swirl_fem.core import fespace
  rng = np.random.default_rng(case['seed'])
  objs, inputs, results, done = [], [], [], []
  # (the directory of the files; removed afterwards)
  with tempfile.TemporaryDirectory() as folder:
    world = World(folder, inputs)
    calls = list(case['calls'])
    k = 0
    while k < len(calls) + case['more']:
      if k < len(calls):
        c = calls[k]
      else:
        c = dict(start(rng) if not objs or (objs[-1]['kind'] == 'numbers' and rng.random() < .2) else further(rng, objs))
      k += 1
      before = len(inputs)
      try:
        o = world.call(objs, c)
        o['print'] = prints(o['obj'])
        results.append(dict(ok=True, **o['seen']))
        objs.append(o)
        done.append((c, o))
      except Exception as e:
        results.append(dict(ok=False, error=f'{type(e).__name__}: {e}'[:120]))
      case.setdefault('made', []).append(c)
      del before
    kept = [o['print'] == prints(o['obj']) for o in objs]
    spared = all(a.tobytes() == b for a, b in inputs)
    again = []
    for c, o in done:
      again.append(c['op'] == 'partition' or prints(world.call(objs, c)['obj']) == o['print'])
    rebuilt = [o['kind'] not in ('mesh', 'space', 'function') or through(o['obj']) for o in objs]
  case['made'] = case['made'][:len(results)]
  del fespace
  return dict(results=results, kept=kept, spared=spared, again=again, rebuilt=rebuilt)


def through(obj):
  """The object after being taken apart and put together, as jax does."""
  import jax
  leaves, tree = jax.tree_util.tree_flatten(obj)
  return prints(jax.tree_util.tree_unflatten(tree, leaves)) == prints(obj)


def prints(x):
  """What an object consists of."""
  if isinstance(x, enum.Enum):
    return str(x)
  if dataclasses.is_dataclass(x) and not isinstance(x, type):
    return [type(x).__name__] + [(f.name, prints(getattr(x, f.name))) for f in dataclasses.fields(x)]
  if isinstance(x, dict) or hasattr(x, 'items'):
    return sorted((str(k), prints(v)) for k, v in x.items())
  if isinstance(x, (list, tuple)):
    return [prints(y) for y in x]
  if hasattr(x, 'shape'):
    y = np.asarray(x)
    return (str(y.dtype), y.shape, y.tobytes())
  if hasattr(x, '__dict__') and not callable(x):
    return [type(x).__name__] + sorted((k, prints(v)) for k, v in vars(x).items())
  return repr(x)


class World:

  def __init__(self, folder, inputs):
    self.folder = folder
    self.inputs = inputs

  def mine(self, a):
    a = np.array(a)
    self.inputs.append((a, a.tobytes()))
    return a

  def nodes(self, pts, type):
    from swirl_fem.core import interpolation as ip
    return ip.Nodes1D.create(num_points=pts, node_type=getattr(ip.NodeType, KINDS[type]))

  def premesh(self, pm):
    kinds = {v.lower(): k for k, v in KINDS.items()}
    parts = pm.partitions
    return dict(kind='premesh', obj=pm, type=kinds[pm.gridpoints_1d.node_type.value], seen=dict(
        kind='premesh', d=int(pm.ndim), order=int(pm.order), pts=int(pm.gridpoints_1d.num_points),
        type=kinds[pm.gridpoints_1d.node_type.value], nodes=int(pm.num_nodes), els=int(pm.num_elements),
        npe=int(pm.num_nodes_per_element), groups=sorted(pm.physical_groups),
        parted=bool(pm.is_partitioned()), parts=[] if parts is None else hlib.ints(parts)))

  def mesh(self, m):
    ids = np.asarray(m.node_indices)
    kinds = {v.lower(): k for k, v in KINDS.items()}
    return dict(kind='mesh', obj=m, seen=dict(
        kind='mesh', d=int(m.ndim), order=int(m.order), pts=int(m.gridpoints_1d.num_points),
        type=kinds[m.gridpoints_1d.node_type.value], slots=int(m.num_nodes), rows=int(m.num_elements),
        npe=int(m.num_nodes_per_element), dofs=len(set(ids.ravel().tolist()) - {-1}),
        lead=[int(s) for s in np.shape(m.elements)[:-2]],
        used=[int((row >= 0).sum()) for row in ids.reshape(-1, ids.shape[-1])],
        groups=sorted(m.physical_masks),
        masked=[int((np.asarray(m.physical_masks[g]) & (ids >= 0)).sum()) for g in sorted(m.physical_masks)],
        axis=str(m.axis_name)))

  def devices(self, m):
    """The meshes of the devices."""
    import jax
    if m.axis_name is None:
      return [m]
    return [jax.tree.map(lambda x: x[p], m) for p in range(len(m.elements))]

  def call(self, objs, c):
    import jax.numpy as jnp
    from swirl_fem.common import mesh_partitioner
    from swirl_fem.common import mesh_reader
    from swirl_fem.common import premesh_commons
    from swirl_fem.core import fespace
    from swirl_fem.core import interpolation as ip
    from swirl_fem.core.mesh import Mesh
    from swirl_fem.core.mesh_refiner import refine_premesh
    from swirl_fem.core.premesh import Premesh
    op = c['op']
    if op == 'cube':
      kw = {}
      if c['blocks']:
        kw = dict(partitions=self.mine(np.arange(int(np.prod(c['blocks'])), dtype=np.int32).reshape(c['blocks'])))
      return self.premesh(premesh_commons.unit_cube_mesh(
          c['n'], ndim=c['d'], b=float(c['n']), periodic_dims=tuple(a - 1 for a in c['per']), **kw))
    if op == 'raw':
      K, d = c['K'], c['d']
      m = max(2, int(round(K**(1 / d))))
      x = np.linspace(0, 1, m)
      kw = {}
      if c['pts']:
        kw = dict(gridpoints_1d=self.nodes(c['pts'], c['type']))
        if c['pts'] == m:
          x = (np.asarray(kw['gridpoints_1d'].node_values) + 1) / 2
      grid = np.stack(np.meshgrid(*[x] * d, indexing='ij'), -1).reshape(-1, d)
      coords = np.zeros((K, d))
      coords[:min(K, len(grid))] = grid[:K]
      cls = Premesh if c['what'] == 'premesh' else Mesh
      made = cls.create(node_coords=self.mine(coords), elements=self.mine(np.arange(K, dtype=np.int32)[None]), **kw)
      return (self.premesh if c['what'] == 'premesh' else self.mesh)(made)
    if op == 'read':
      return self.premesh(mesh_reader.read(self.file(c['n']), ndim=c['d']))
    o = objs[c['i'] - 1]
    obj = o['obj']
    if op == 'refine':
      return self.premesh(refine_premesh(obj, self.nodes(c['pts'], c['type'])))
    if op == 'assign':
      return self.premesh(obj.replace(partitions=self.mine(np.array(c['parts'], np.int32))))
    if op == 'partition':
      new = mesh_partitioner.partition(obj, c['k'])
      c['parts'] = hlib.ints(new.partitions)
      return self.premesh(new)
    if op == 'empty':
      shape = (0, o['seen']['pts']**(o['seen']['d'] - 1))
      return self.premesh(obj.replace(physical_groups=dict(obj.physical_groups, empty=np.zeros(shape, np.int32))))
    if op == 'renumber':
      new = np.random.default_rng(c['by']).permutation(obj.num_nodes).astype(np.int32)
      back = np.argsort(new)
      links = obj.periodic_links
      return self.premesh(obj.replace(
          node_coords=self.mine(np.asarray(obj.node_coords)[back]), elements=self.mine(new[np.asarray(obj.elements)]),
          physical_groups={g: self.mine(new[np.asarray(f)]) for g, f in obj.physical_groups.items()},
          periodic_links=None if links is None else self.mine(new[np.asarray(links)])))
    if op == 'finalize':
      return self.mesh(obj.finalize(axis_name='p') if c['axis'] else obj.finalize())
    if op == 'space':
      quad = ip.Quadrature1D.create(num_points=c['q'], quadrature_type=getattr(ip.NodeType, KINDS[c['type']]))
      spaces = [fespace.FiniteElementSpace.create(m, quad) for m in self.devices(obj)]
      return dict(kind='space', obj=spaces, mesh=obj, seen=dict(
          kind='space', els=[int(s.num_elements) for s in spaces],
          points=[int(s.num_quadrature_points_per_element) for s in spaces],
          coords=[hlib.shape(s.quad_coords) for s in spaces], jacdets=[hlib.shape(s.jacdets) for s in spaces]))
    if op == 'function':
      u = None if c['open'] else self.mine(np.ones(c['shape']))
      funs = [(s.scalar_function if c['value'] == 'scalar' else s.vector_function)(u) for s in obj]
      return dict(kind='function', obj=funs, value=c['value'], open=c['open'], seen=dict(
          kind='function', value=[list(f.value_shape) for f in funs]))
    if op in ('gather', 'scatter'):
      u = jnp.asarray(self.mine(np.ones(c['shape'])))
      out = [np.asarray(getattr(m, op)(u)) for m in self.devices(obj)]
      return self.numbers(out, [y.sum() for y in out])
    dot = (lambda u, v: lambda x: u(x) * v(x)) if (c if op == 'covector' else o)['value'] == 'scalar' else (
        lambda u, v: lambda x: jnp.dot(u(x), v(x)))
    if op == 'integrate':
      form = dot(obj[0], obj[0])
      out = []
      for f in obj:
        form = dot(f, f) if c['form'] == 'square' else (lambda x, f=f: fespace.grad(f)(x))
        out.append(np.asarray(f.fespace.integrate(form)))
      return self.numbers(out, out)
    assert op == 'covector'
    out = []
    for s in obj:
      make = s.scalar_function if c['value'] == 'scalar' else s.vector_function
      m = s.mesh
      ones = np.ones((m.num_elements, m.num_nodes_per_element) + ((m.ndim,) if c['value'] == 'vector' else ()))
      out.append(np.asarray(s.local_covector(dot, tuple(
          make(None if j < c['open'] else jnp.asarray(ones)) for j in [1, 0]))))
    return self.numbers(out, [y.sum() for y in out])

  def numbers(self, out, totals):
    return dict(kind='numbers', obj=[np.asarray(y) for y in out], seen=dict(
        kind='numbers', shape=[hlib.shape(y) for y in out], total=[hlib.rat(np.asarray(y, float)[()]) for y in totals]))

  def file(self, n):
    """n by n quadrilaterals."""
    path = os.path.join(self.folder, f'{n}.msh')
    at = lambda i, j: i * (n + 1) + j + 1
    lines = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat', '$Nodes', str((n + 1)**2)]
    lines += [f'{at(i, j)} {i} {j} 0' for i in range(n + 1) for j in range(n + 1)]
    lines += ['$EndNodes', '$Elements', str(n * n)]
    lines += [f'{1 + i * n + j} 3 2 1 1 {at(i, j)} {at(i + 1, j)} {at(i + 1, j + 1)} {at(i, j + 1)}'
              for i in range(n) for j in range(n)]
    with open(path, 'w') as f:
      f.write('\n'.join(lines + ['$EndElements', '']))
    return path
