import fe
from fe import run, setup


def from_model(c, k, seed):
  return fe.complete(c, k, seed, 'C17')


def cases(tier, seed):
  return fe.cases(tier, seed, 'C17')
