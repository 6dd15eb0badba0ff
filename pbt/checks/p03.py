"""P03: a pool of live constraint objects; creation, dropping, copying, pickling; initialization."""
import copy, gc, pickle
import numpy as np
from .. import ref
from ..core import check, Violation

SIZES = {'quick': (8, 1200), 'thorough': (8, 30000)}
RULE = ('a history of creating (built-in and user-defined ones), refusing bounds in the wrong order, dropping, copying and pickling constraints in a pool, and initializing arrays with them; '
        'non-trivial: a constraint equal to a live one is asked for, copied or unpickled, or an array partly outside of a domain is initialized')
ASSUMPTIONS = ['pickle protocols 2 and up', 'zero counts as inside of the positive and negative domains (initialization leaves it unchanged)']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import gen
    few = st.sampled_from(['logexp', 'exp', 'neglogexp', 'negexp', 'square', ['logistic', 0., 1.], ['logistic', 0., 2.], ['logistic', -1., 1.], ['logistic', 1., 2.],
                           ['logistic', 0, 1], ['logistic', 1e-6, 1.], ['logistic', 0., 1.000001], ['logistic', -2., -1.],
                           'shift', 'sublogexp', ['sublogistic', 0., 1.], ['sublogistic', 0., 2.]])
    key = st.one_of(few, few, gen.constraint())
    vals = st.lists(gen.spread(-9, 9), min_size=1, max_size=6)
    op = st.one_of(
        st.tuples(st.just('make'), key),
        st.tuples(st.just('make'), key),
        st.tuples(st.just('drop'), st.integers(0, 9)),
        st.tuples(st.just('copy'), st.integers(0, 9), st.sampled_from(['copy', 'deepcopy', 'in_list', 'pickle2', 'pickle3', 'pickle4', 'pickle5', 'pickle_list'])),
        st.tuples(st.just('lost'), st.integers(0, 9), st.integers(2, 5)),
        st.tuples(st.just('refuse'), st.sampled_from(['logistic', 'sublogistic']), st.integers(0, 3), st.booleans()),
        st.tuples(st.just('init'), key, vals, st.sampled_from(['flat', 'col'])),
    ).map(list)
    return st.lists(op, min_size=1, max_size=12)


def attrs(c, key):
    if isinstance(key, tuple):
        check(type(c).__name__.lower() == key[0], 'asked for a {}, got a {}', key[0], type(c).__name__)
        check(c.lower == key[1] and c.upper == key[2] and c.difference == key[2] - key[1],
              'constraint with bounds {} {} has bounds {} {} and width {}', key[1], key[2], c.lower, c.upper, c.difference)
    else:
        check(ref.key_of(c) == key, 'asked for {}, got {}', key, type(c).__name__)


def run(case, rec):
    held = []
    try:
        history(case, rec, held)
    finally:
        held.clear()


def history(case, rec, held):
    pool = []  # (key, object)

    def invariant():
        for i, (k, c) in enumerate(pool):
            attrs(c, k)
            for k2, c2 in pool[:i]:
                if k == k2:
                    check(c is c2, 'two objects for the constraint {}', k)
                else:
                    check(c is not c2, 'one object for {} and {}', k, k2)
    for op in case:
        if op[0] == 'make':
            key = ref.norm(op[1])
            if any(k == key for k, _ in pool):
                rec.mark('same again')
            c = ref.make(op[1])
            attrs(c, key)
            pool.append((key, c))
        elif op[0] == 'drop' and pool:
            del pool[op[1] % len(pool)]
            c = None
            gc.collect(0)
            rec.label('drop')
        elif op[0] == 'copy' and pool:
            key, c = pool[op[1] % len(pool)]
            how = op[2]
            if how == 'copy':
                d = copy.copy(c)
            elif how == 'deepcopy':
                d = copy.deepcopy(c)
            elif how == 'in_list':
                d = copy.deepcopy({'a': [c, c]})['a'][1]
            elif how == 'pickle_list':
                d = pickle.loads(pickle.dumps({c: [c]}, 2))
                d = list(d)[0]
            else:
                d = pickle.loads(pickle.dumps(c, int(how[-1])))
            rec.mark(how)
            check(d is c, '{} of constraint {} is another object', how, key)
            attrs(c, key)
        elif op[0] == 'lost' and pool:
            # the object is only alive inside the pickle
            key, c = pool[op[1] % len(pool)]
            s = pickle.dumps(c, op[2])
            pool[:] = [p for p in pool if p[0] != key]
            c = None
            gc.collect(0)
            d = pickle.loads(s)
            attrs(d, key)
            pool.append((key, d))
            again = ref.make(list(key) if isinstance(key, tuple) else key)
            check(again is d, 'after unpickling, asking for {} gives another object', key)
            rec.mark('unpickled after all others are gone')
        elif op[0] == 'refuse':
            lo, up = [(2., 1.), (1., 1.), (0., -0.), (0., float('nan'))][op[2]]
            try:
                ref.make([op[1], lo, up])
            except AssertionError as e:
                if op[3]:
                    held.append(e)      # as an interactive session does
                    rec.mark('refused bounds')
            else:
                raise Violation('the bounds %s and %s are not refused' % (lo, up))
        elif op[0] == 'init':
            key = ref.norm(op[1])
            c = ref.make(op[1])
            v = np.array(op[2], float)
            if op[3] == 'col':
                v = v[:, None]
            keep = v.copy()
            r = c.initialize(v)
            try:
                r = np.array(r, float)
            except Exception:
                raise Violation('initialize returned %r' % (r,))
            check(np.array_equal(v, keep), 'initialize of {} changed its argument in place', key)
            check(r.shape == v.shape, 'initialize of {}: shape {} for {}', key, r.shape, v.shape)
            inside = ref.inside(key, keep, strictly=True)
            strict = inside if not isinstance(key, tuple) else (keep >= key[1]) & (keep <= key[2])
            check(np.isfinite(r).all() and ref.inside(key, r).all(), 'initialize of {} maps {} to {}, outside of the domain', key, keep.tolist(), r.tolist())
            check((r == keep)[strict].all(), 'initialize of {} changes legitimate values: {} to {}', key, keep.tolist(), r.tolist())
            if key != 'shift' and not strict.all():
                out = r[~strict]
                edge = (out != 0) if not isinstance(key, tuple) else (out > key[1]) & (out < key[2])
                check(edge.all(), 'initialize of {} maps {} to {}: onto the end of the domain instead of inside', key, keep.tolist(), r.tolist())
            # element by element
            for i in range(v.size):
                e = np.array(c.initialize(keep.ravel()[i:i + 1].copy()), float)
                check(e.size == 1 and e[0] == r.ravel()[i], 'initialize of {} is not elementwise: {} -> {}, but {} alone -> {}', key, keep.tolist(), r.tolist(), keep.ravel()[i], e)
            if inside.any() and not inside.all():
                rec.mark('partly outside')
            attrs(c, key)
        invariant()
