"""P09: the free parameter array is an image of the current state, at every node and at any time."""
import numpy as np
from ..core import check, arr

SIZES = {'quick': (8, 480), 'thorough': (8, 8000)}
RULE = ('one or two generated hierarchies and a history of assignments, raw writes, constraints, fixes, structural changes, switching updates off and on, and assigning or re-assigning the free parameters of any node or leaf; '
        'after each step the free parameters (and the unfixed values) of every object are compared with an independent computation; non-trivial: free parameters were assigned to an object with a fixed and a constrained element, '
        'or were read after a change made while updates were off')
ASSUMPTIONS = ['structure is changed while updates are on', 'values respect their constraints']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import con_ops, struct_ops, setup_ops
    h = st.integers(0, 30)
    vals = st.lists(st.integers(-40, 40).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    c, s = con_ops(st, w), struct_ops(st, w)
    v = [
        st.tuples(st.just('set'), h, st.one_of(st.none(), w.index_expr(st)), vals),
        st.tuples(st.just('write'), h, vals),
        st.tuples(st.just('free'), h, vals, st.sampled_from([1., 1., 5.])),
        st.tuples(st.just('free'), h, vals, st.sampled_from([1., 1., 5.])),
        st.tuples(st.just('reassign'), h),
        st.tuples(st.just('updates'), h, st.booleans()),
    ]
    oc = st.integers(0, len(c) - 1).flatmap(lambda i: c[i]).map(list)
    os_ = st.integers(0, len(s) - 1).flatmap(lambda i: s[i]).map(list)
    ov = st.integers(0, len(v) - 1).flatmap(lambda i: v[i]).map(list)
    op = st.one_of(oc, os_, ov, ov)
    return st.fixed_dictionaries(dict(trees=st.lists(w.node_spec(st, dc=True, max_leaves=5), min_size=1, max_size=2), setup=st.one_of(st.just([]), setup_ops(st, w), setup_ops(st, w)), ops=st.lists(op, min_size=3, max_size=14), look=st.integers(0, 3)))


def run(case, rec):
    from ..world import World, root, fit, set_flat
    from .p05 import structural
    from .p06 import constraining
    w = World()
    for t in case['trees']:
        w.build(t, gradients=False)
    everything(w)
    w.turn, w.sparse = len(case['ops']) + case['look'], case['look'] > 1
    for op in case['setup']:
        constraining(w, op)
    off = False       # all of the world is switched together, so that parts can move between hierarchies
    for step, op in enumerate(case['ops']):
        label = None
        if not off:
            label = structural(w, op)
        if label is None:
            label = constraining(w, op)
        if label is None and op[0] == 'set':
            m = w.pick(op[1])
            if w.assign(m, op[2] if m.kind == 'leaf' else None, op[3]):
                label = 'assign to a ' + m.kind
        elif op[0] == 'write':
            m = w.pick(op[1])
            x = np.array([fit(op[2][i % len(op[2])], c) for i, c in enumerate(m.con)], float)
            if m.kind == 'leaf':
                m.real.values[...] = x.reshape(m.shape)
            else:
                m.real.param_array[:] = x
            set_flat(m, x)
            label = 'raw write to a ' + m.kind
        elif op[0] == 'free':
            m = w.pick(op[1])
            mixed = any(m.fix) and any(c is not None and not f for c, f in zip(m.con, m.fix))
            x = w.set_free(m, op[2], op[3])
            label = 'free assignment to a ' + m.kind
            if mixed:
                rec.mark('free assignment with fixed and constrained elements')
        elif op[0] == 'reassign':
            m = w.pick(op[1])
            before = m.v.copy()
            x = np.array(m.real.optimizer_array, float).copy()
            m.real.optimizer_array = x
            got = arr(m.real.param_array, m.size, 'values of ' + m.name)
            check(np.allclose(got, before, rtol=1e-9, atol=1e-9), 'reassigning the free parameters of {} changed its values from {} to {}', m.name, before.tolist(), got.tolist())
            fixed = np.array(m.fix, bool)
            check(np.array_equal(got[fixed], before[fixed]), 'reassigning the free parameters of {} moved fixed values', m.name)
            set_flat(m, got)
            label = 'reassigned to a ' + m.kind
        elif op[0] == 'updates':
            off = not op[2]
            for r in w.roots():
                r.real.update_model(bool(op[2]))
            label = 'updates ' + ('on' if op[2] else 'off')
        if label:
            rec.label(label)
            if off and not label.startswith('updates'):
                rec.mark('while updates are off')
        # sometimes nothing is read in between, so that changes accumulate
        last = step == len(case['ops']) - 1
        if case['look'] in (0, 3) or (step + case['look']) % 2 or last:
            everything(w, last)


def everything(w, last=True):
    w.observe([w.check_free, w.check_values, lambda: unfixed(w), lambda: counted(w)], last)


def unfixed(w):
    for m in w.seen():
        want = m.v[~np.array(m.fix, bool)] if m.size else np.zeros(0)
        got = arr(m.real.unfixed_param_array, want.size, 'unfixed values of ' + m.name)
        check(np.array_equal(got, want), 'unfixed values of {}: {} instead of {}', m.name, got.tolist(), want.tolist())


def counted(w):
    for m in w.seen():
        want = m.size - sum(1 for f in m.fix if f)
        n = m.real._size_transformed()
        check(n == want, '{}: reports {} free parameters instead of {}', m.name, n, want)
