"""P13: every call through a cacher against a fresh computation, over histories."""
from .. import cachelab

SIZES = {'quick': (8, 1500), 'thorough': (8, 15000)}
RULE = ('a history of up to 25 operations on one or two cached functions (plain, bound, decorated, decorated method of a node) and a pool of arrays, views of them, '
        'parameters inside and outside of a hierarchy, numbers, text and uncachable objects: calls with every mixture of positional and keyword arguments, repetitions, '
        'changes in place through every handle, temporaries, errors, resets and switches, changes while updates are off, observers which ask for a result while they are told of a change; non-trivial: a kept call is repeated after one of its arguments changed, or asked for by an observer')
ASSUMPTIONS = ['returned objects are not modified by the caller', 'changes bypass neither the parameter nor array interface (no writing through plain views)',
               'updates are on when calls are made', 'an observer asks for results of what has been told already (not of the ancestors of what it observes)']


def strategy(tier):
    return cachelab.strategy(tier, False)


def run(case, rec):
    cachelab.run(case, rec, False)
