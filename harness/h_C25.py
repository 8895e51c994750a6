import sde
from sde import complete, setup


def cases(tier, seed):
  return sde.cases(tier, seed, True)


def run(case):
  return sde.run(case, True)
