"""Loads a pickled object in a process of its own and prints what it found (see P16)."""
import json, sys
from . import core


def describe(o, ref):
    import numpy as np
    d = dict(name=o.name, size=int(o.size), type=type(o).__name__, values=[float(x) for x in np.asarray(o.param_array).ravel()],
             con=sorted([str(ref.key_of(c)), sorted(int(i) for i in np.asarray(k).ravel())] for c, k in o.constraints.items()))
    if d['type'] != 'Param':
        d['kids'] = [describe(p, ref) for p in o.parameters]
    else:
        d['shape'] = list(o.shape)
    return d


def main():
    core.bootstrap()
    import numpy as np, paramz, pickle
    from . import ref, world
    with open(sys.argv[1], 'rb') as f:
        o = pickle.load(f)
    out = dict(first=describe(o, ref))
    x = np.array(o.optimizer_array)
    out['free'] = [float(k) for k in x]
    del world.LOG[:]
    o.optimizer_array = x.copy()
    out['told'] = [k.name for k, _ in world.LOG]
    # constraints made here are the ones which were loaded
    for key in json.loads(sys.argv[2]):
        o.unconstrain(ref.make(key))
    out['left'] = describe(o, ref)['con']
    print(json.dumps(out))


if __name__ == '__main__':
    main()
