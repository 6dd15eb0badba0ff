"""P14: number of computations and of kept results, over histories, against a first-in-first-out model."""
from .. import cachelab

SIZES = {'quick': (8, 1500), 'thorough': (8, 15000)}
RULE = ('as P13, with more repetitions; the number of computations of every call is judged against a first-in-first-out model, the number of kept results by weak references; '
        'non-trivial: a kept call is repeated while none of its arguments changed')
ASSUMPTIONS = ['repeating a call means with the same argument objects (equal but distinct numbers or texts may be computed again)', 'limits of at least one']


def strategy(tier):
    return cachelab.strategy(tier, True)


def run(case, rec):
    cachelab.run(case, rec, True)
