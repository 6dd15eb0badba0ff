"""A stand-in for h5py (which is not installed): what Parameterizable.save uses of it, with its rules and with planned failures.

What was written is on the disk when the file is closed, as with h5py; the format is a pickle of our own."""
import pickle, sys, types
import numpy as np

OPEN = []           # files which are not closed
PLAN = {}           # number of a call -> exception it raises
CALLS = [0]


def step():
    CALLS[0] += 1
    e = PLAN.pop(CALLS[0] - 1, None)
    if e is not None:
        raise e


class Dataset(object):
    def __init__(self, shape, dtype):
        self.a = np.full(shape, -77, dtype) # what is not written shows
        self.shape, self.dtype = self.a.shape, self.a.dtype

    def __setitem__(self, s, v):
        step()
        self.a[s] = v

    def __getitem__(self, s):
        return self.a[s].copy() if np.ndim(self.a[s]) else self.a[s]


class File(object):
    def __init__(self, name, mode='r'):
        step()
        if mode not in ('w', 'r', 'a', 'w-', 'x', 'r+'):
            raise ValueError('Invalid mode; must be one of r, r+, w, w-, x, a')
        self.name, self.mode, self.sets = name, mode, {}
        if mode in ('r', 'r+'):
            with open(name, 'rb') as f:
                self.sets = pickle.load(f)
        elif mode in ('w-', 'x'):
            open(name, 'xb').close()
        else:
            if mode == 'a':
                try:
                    with open(name, 'rb') as f:
                        self.sets = pickle.load(f)
                except IOError:
                    pass
            open(name, 'wb').close()
        OPEN.append(self)

    def create_dataset(self, name, shape=None, dtype=None, data=None):
        step()
        self.writable()
        if name in self.sets:
            raise ValueError('Unable to create dataset (name already exists)')
        if shape is None:
            shape = np.shape(data)
        self.sets[name] = Dataset(shape, dtype if dtype is not None else np.asarray(data).dtype if data is not None else 'f4')
        if data is not None:
            self.sets[name].a[...] = data
        return self.sets[name]

    def writable(self):
        if not any(f is self for f in OPEN):
            raise ValueError('Not a location (invalid object ID)')
        if self.mode == 'r':
            raise OSError('file is read-only')

    def __setitem__(self, name, data):
        self.create_dataset(name, data=data)

    def __getitem__(self, name):
        if name not in self.sets:
            raise KeyError("Unable to open object (object '%s' doesn't exist)" % name)
        return self.sets[name]

    def __contains__(self, name):
        return name in self.sets

    def __iter__(self):
        return iter(list(self.sets))

    def __len__(self):
        return len(self.sets)

    def keys(self):
        return list(self.sets)

    def flush(self):
        if self.mode != 'r':
            with open(self.name, 'wb') as f:
                pickle.dump(self.sets, f)

    def close(self):
        if any(f is self for f in OPEN):
            OPEN[:] = [f for f in OPEN if f is not self]
            self.flush()
            step()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install():
    m = types.ModuleType('h5py')
    m.File, m.Dataset = File, Dataset
    sys.modules['h5py'] = m
    reset()


def reset(plan=None):
    del OPEN[:]
    PLAN.clear()
    PLAN.update(plan or {})
    CALLS[0] = 0
