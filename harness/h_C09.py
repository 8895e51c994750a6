"""Facets and orientations of elements."""
import numpy as np


def setup():
  import swirl_fem.common.facet_util


def cases(tier, seed):
  out = []
  dims = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
  for d in dims:
    for n in range(0, {1: 40, 2: 16, 3: 8, 4: 4}[d]):
      out.append(dict(kind='table', d=d, n=n))
      if n >= 2:
        out.append(dict(kind='facets', d=d, n=n))
  return out


def run(case):
  from swirl_fem.common import facet_util as fu
  T = fu.FacetDimType
  sign = {T.FIRST: -1, T.INNER: 0, T.LAST: 1}
  d, n = case['d'], case['n']
  ints = lambda a: [int(x) for x in np.asarray(a).ravel()]
  if case['kind'] == 'lookup':
    m = fu.get_orderings_mapping(ndim=d, num_points_1d=n)
    v = m.get(tuple(case['key']))
    return dict(found=v is not None, value=[] if v is None else ints(v))
  if case['kind'] == 'table':
    m = fu.get_orderings_mapping(ndim=d, num_points_1d=n)
    return dict(entries=[[ints(k), ints(v)] for k, v in m.items()])
  e = np.arange(n**d).reshape((n,) * d)
  facets = [dict(type=[sign[x] for x in f],
                 closed=ints(e[fu.slice_from_facet_type(f, interior_nodes_only=False)]),
                 inner=ints(e[fu.slice_from_facet_type(f, interior_nodes_only=True)]))
            for f in fu.get_facet_types(d)]
  by_dim = [[[sign[x] for x in f] for f in fu.get_facet_types(d, facet_ndim=k)]
            for k in range(d + 1)]
  return dict(facets=facets, by_dim=by_dim)
