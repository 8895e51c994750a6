"""Drives Premesh.finalize and the operations of Mesh (C06, C07, C08)."""
import hlib
import meshes
import numpy as np


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)
  import swirl_fem.core.premesh


def run(case):
  import jax
  import jax.numpy as jnp
  # far away, where single precision does not tell the nodes apart
  away = 2.**40 * (len(case['coords']) % 2)
  pm = meshes.premesh(case, np.array(case['coords']) + away)
  part = bool(case['partitions'])
  try:
    mesh = pm.finalize(axis_name='p') if part else pm.finalize()
  except NotImplementedError:
    return dict(refused=True)
  if part:
    pmap = lambda f: jax.pmap(f, axis_name='p')
  else:
    pmap = lambda f: (lambda *a: jax.tree.map(
        lambda x: np.asarray(x)[None], f(mesh, *jax.tree.map(lambda x: jnp.asarray(x)[0], a[1:]))))
  ids = np.asarray(mesh.node_indices).reshape((-1 if part else 1, mesh.num_nodes))
  coords = np.asarray(mesh.node_coords).reshape(ids.shape + (case['ndim'],))
  coords = coords - away
  elements = np.asarray(mesh.elements).reshape((ids.shape[0],) + np.shape(mesh.elements)[-2:])
  # nodal values: by the coordinates of the node; absurd ones in padding slots
  table = {tuple(x): u for x, u in zip(case['coords'], case['u'])}
  u = np.array([[table.get(tuple(int(v) for v in x), 10**7) if i != -1 else 10**6
                 for x, i in zip(cs, row)] for cs, row in zip(coords, ids)], np.float64)
  K = elements.shape[-1]
  local = (7.0 * (1 + np.arange(elements.shape[1]))[:, None]
           + (1 + np.arange(K))) + np.zeros((ids.shape[0], 1, 1))
  weight = 1.0 + jnp.arange(K)

  def ops(mesh, u, local):
    g = mesh.gather(u)
    return (g, mesh.scatter(local), mesh.exchange(mesh.scatter(g * weight)),
            mesh.exchange(u), mesh.element_coords())

  gathered, scattered, assembled, exchanged, ec = pmap(ops)(mesh, u, local)
  # the same for complex and integer values
  typed = lambda mesh, g, s: (
      mesh.scatter((s * (1 - 2j)).astype(jnp.complex64)), mesh.gather(g * (2 + 1j)),
      mesh.scatter(s.astype(jnp.int32)), mesh.gather(g.astype(jnp.int32)))
  cs, cg, ns, ng = pmap(typed)(mesh, u, local)
  types = [str(x.dtype) for x in (cs, cg, ns, ng)]
  one = jax.tree.map(lambda x: x[0], mesh) if part else mesh
  rejects = True
  for bad in (jnp.zeros(one.num_nodes + 1), jnp.zeros((one.num_nodes, 1))):
    try:
      one.gather(bad)
      rejects = False
    except ValueError:
      pass
  i = lambda a: hlib.arr(np.asarray(a))
  masks = {k: np.asarray(v).reshape(ids.shape) for k, v in mesh.physical_masks.items()}
  return dict(refused=False, node_indices=hlib.ints(ids), coords=i(coords_int(coords)),
              elements=hlib.ints(elements),
              masks={k: [[bool(x) for x in r] for r in v] for k, v in masks.items()},
              gathered=i(gathered), scattered=i(scattered), assembled=i(assembled),
              exchanged=i(exchanged), elem_coords=i(np.asarray(ec) - away), rejects=rejects,
              typed=dict(types=types, scatter=[i(cs.real), i(cs.imag), i(ns)],
                         gather=[i(cg.real), i(cg.imag), i(ng)]))


def coords_int(x):
  r = np.round(x)
  return r.astype(np.int64) if np.array_equal(r, x) else np.full(x.shape, -10**6)
