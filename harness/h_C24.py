import sde
from sde import complete, setup


def cases(tier, seed):
  return sde.cases(tier, seed, False)


def run(case):
  return sde.run(case, False)
