import fe
from fe import run, setup


def from_model(c, k, seed):
  return fe.complete(c, k, seed, 'C18')


def cases(tier, seed):
  return fe.cases(tier, seed, 'C18')
