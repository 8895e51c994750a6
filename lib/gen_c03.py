"""Completes the call forms of JitDistributed.tla to histories of calls."""
import random


def extend(c, k, seed):
  """Adds values and further calls to a signature and call form of the model."""
  rng = random.Random(f'{seed}-{k}')
  P = rng.randint(1, 6)
  ps = c['params']
  def values():
    return [rng.randint(0, 4) if p['static'] else
            [rng.randint(-9, 8) for _ in range(P)] for p in ps]
  v = values()
  calls = [dict(npos=c['npos'], omitted=c['omitted'], values=v)]
  # the same statics, other data, everything by keyword
  w = values()
  w = [a if p['static'] else b for p, a, b in zip(ps, v, w)]
  calls.append(dict(npos=0, omitted=c['omitted'], values=w))
  # other statics, the same data
  w = [b if p['static'] else a for p, a, b in zip(ps, v, values())]
  calls.append(dict(npos=c['npos'], omitted=[False] * len(ps), values=w))
  calls.append(calls[0])
  return dict(params=ps, explicit=c['explicit'], P=P, calls=calls,
              mesh2d=bool(P in (4, 6) and k % 2))
