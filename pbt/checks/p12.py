"""P12: observers of arrays, parameters and nodes against an ordered list of registrations."""
import gc
import weakref
import numpy as np
from ..core import check

SIZES = {'quick': (8, 2000), 'thorough': (8, 30000)}
RULE = ('a history of registering, removing, re-prioritizing, dropping observers (plain ones, ones which compare equal, arrays, the parent of the observed), of unlinking and linking the observed parameter and of notifications (explicit with and without minimum '
        'priority, by in-place changes of arrays, views and parameters) on an array, a free parameter, a parameter in a node and the node; '
        'non-trivial: a notification reaches at least two registrations after a removal, drop or priority change')
ASSUMPTIONS = ['a callback which removes itself affects later notifications only']

TARGETS = ['array', 'param', 'leaf', 'node']
INPLACE = ['item', 'slice', 'view', 'mask', 'iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow', 'imatmul', 'fancy']
CALLBACKS = ['cb0', 'cb1', 'f', 'g', 'once']


def strategy(tier):
    from hypothesis import strategies as st
    t, o = st.integers(0, 9), st.integers(0, 7)
    c = st.integers(0, 4)
    prio = st.sampled_from([0, 0, 1, -1, 2.5, 100, -99, -101, -1000, 1e6, True])
    add = st.tuples(st.just('add'), t, o, c, prio)
    w = [add] * 4 + [
        st.tuples(st.just('remove'), t, o, st.one_of(st.none(), c)),
        st.tuples(st.just('removein'), t, st.integers(0, 9), st.booleans()),
        st.tuples(st.just('prio'), t, st.integers(0, 9), prio),
        st.tuples(st.just('drop'), o),
        st.tuples(st.just('relink'), st.integers(0, 1)),
        st.tuples(st.just('updates'), t, st.sampled_from([False, True, True, True])),
    ] + [st.tuples(st.just('notify'), t, st.sampled_from([None, 'self', 'text', 'obj']), st.one_of(st.none(), prio))] * 2 + [
        st.tuples(st.just('change'), st.integers(0, 7), st.sampled_from(INPLACE))] * 2
    ops = st.lists(st.integers(0, len(w) - 1).flatmap(lambda i: w[i]).map(list), min_size=4, max_size=20)
    return st.fixed_dictionaries(dict(focus=st.integers(0, 3), adds=st.lists(add.map(list), min_size=2, max_size=6), ops=ops))


def run(case, rec):
    from paramz import ObsAr, Param, Parameterized
    log = []
    box = {}

    class O(object):
        def __init__(self, k):
            self.k = k

        def cb0(self, me, which=None):
            log.append((self.k, 'cb0', me, which))

        def cb1(self, me, which=None):
            log.append((self.k, 'cb1', me, which))

        def once(self, me, which=None):
            log.append((self.k, 'once', me, which))
            box['owner'](me).remove_observer(self, self.once)

    class Eq(O):
        def __eq__(self, other):
            return isinstance(other, Eq)

        def __hash__(self):
            return 1

    def f(me, which=None):
        log.append((None, 'f', me, which))

    def g(me, which=None):
        log.append((None, 'g', me, which))

    obs = {0: O(0), 1: O(1), 2: O(2), 3: Eq(3), 4: Eq(4), 5: ObsAr(np.array([1., 2., 3.])), 6: ObsAr(np.array([1., 2., 3.]))}
    leaf, node = Param('leaf', np.array([[2., 3.], [4., 5.]])), Parameterized('node')
    node.link_parameters(Param('first', 1.), leaf)
    linked = [True]
    obs[7] = node   # the node as an observer of others (and of what it contains)
    T = {'array': ObsAr(np.array([[2., 3.], [4., 5.]])), 'param': Param('param', np.array([[2., 3.], [4., 5.]])), 'leaf': leaf, 'node': node}
    regs = {t: [] for t in TARGETS}   # (priority, observer key, callback) in order
    on = {t: True for t in TARGETS}
    box['owner'] = lambda me: T[box['current'](me)]
    box['current'] = lambda me: 'node' if me is node else box['target']
    disturbed = False

    def callback(o, c):
        return {'f': f, 'g': g}.get(c) or getattr(obs[o], c)

    def entry(o, c):
        return (None if c in ('f', 'g') else o, c)

    def expected(t, me, which, minp):
        """Registered calls of one notification, and forget those which remove themselves."""
        if not on[t]:
            return []
        l = [r for r in regs[t] if minp is None or r[0] > minp]
        out = [entry(r[1], r[2]) + (me, which) for r in l]
        gone = [r for r in l if r[2] == 'once']
        regs[t] = [r for r in regs[t] if r not in gone]
        if minp is None and t == 'leaf' and linked[0]:
            out += expected('node', node, which, None)
        return out

    def compare(want, what):
        got = list(log)
        del log[:]
        show = lambda l: [(a, b) for a, b, _, _ in l]
        check(show(got) == show(want), '{}: observers called {} instead of {}', what, show(got), show(want))
        for x, y in zip(got, want):
            check(x[2] is y[2], '{}: callback {} of {} was passed {!r} as the changed object', what, x[1], x[0], type(x[2]))
            check(x[3] is y[3], '{}: callback {} of {} was passed another `which`: {!r}', what, x[1], x[0], type(x[3]))
        if len(want) >= 2 and disturbed:
            rec.nontrivial = True

    # most operations address one target
    for op in case['adds'] + case['ops']:
        t = None if op[0] in ('drop', 'relink') else TARGETS[op[1]] if op[1] < (3 if op[0] == 'change' else 4) else TARGETS[min(case['focus'], 2) if op[0] == 'change' else case['focus']]
        if op[0] == 'add':
            o, c, p = op[2], CALLBACKS[op[3]], op[4]
            if o not in obs:
                continue
            if o >= 5 and c not in ('f', 'g'):
                c = 'f'
            if c == 'once' and any(r[1:] == (o, c) for r in regs[t]):
                continue
            if p == 0:
                T[t].add_observer(obs[o], callback(o, c))
            else:
                T[t].add_observer(obs[o], callback(o, c), p)
            k = len([r for r in regs[t] if r[0] >= p])
            regs[t].insert(k, (p, o, c))
        elif op[0] in ('remove', 'removein'):
            if op[0] == 'removein':
                if not regs[t]:
                    continue
                _, o, c = regs[t][op[2] % len(regs[t])]
                c = c if op[3] or o == 7 else None
            else:
                o, c = op[2], None if op[3] is None else CALLBACKS[op[3]]
                if o == 7 and c not in ('f', 'g'):
                    c = 'f'   # (not the callbacks it registers itself)
                if o not in obs or (o >= 5 and c not in (None, 'f', 'g')):
                    continue
            if c is None:
                T[t].remove_observer(obs[o])
            else:
                T[t].remove_observer(obs[o], callback(o, c))
            n = len(regs[t])
            regs[t] = [r for r in regs[t] if not (r[1] == o and (c is None or r[2] == c))]
            disturbed |= len(regs[t]) < n
            rec.label('removed %d' % min(2, n - len(regs[t])))
        elif op[0] == 'prio':
            if not regs[t]:
                continue
            _, o, c = regs[t][op[2] % len(regs[t])]
            p = op[3]
            T[t].change_priority(obs[o], callback(o, c), p)
            regs[t] = [r for r in regs[t] if r[1:] != (o, c)]
            regs[t].insert(len([r for r in regs[t] if r[0] >= p]), (p, o, c))
            disturbed = True
            rec.label('re-prioritized')
        elif op[0] == 'drop':
            o = op[1]
            if o == 7 or o not in obs:
                continue
            own = any(r[1] == o and r[2] not in ('f', 'g') for l in regs.values() for r in l)
            ref = weakref.ref(obs[o])
            del obs[o]
            if ref() is not None:
                gc.collect()
            check(ref() is None, 'a registration keeps observer {} alive', o)
            if own:
                rec.label('dropped while its methods are registered')
            had = sum(len(l) for l in regs.values())
            regs = {k: [r for r in l if r[1] != o] for k, l in regs.items()}
            if sum(len(l) for l in regs.values()) < had:
                disturbed = True
                rec.label('dropped while registered')
        elif op[0] == 'relink':
            if linked[0]:
                node.unlink_parameter(leaf)
            else:
                node.link_parameter(leaf, op[1])
                on['leaf'] = on['node']
            linked[0] = not linked[0]
            del log[:]   # (whether this notifies is not specified here)
            if regs['leaf']:
                rec.label('observed leaf unlinked or linked')
                disturbed = True
        elif op[0] == 'updates':
            T[t].set_updates(op[2])
            on[t] = op[2]
        elif op[0] == 'notify':
            which = {None: None, 'self': T[t], 'text': 'text', 'obj': obs.get(0)}[op[2]]
            box['target'] = t
            want = expected(t, T[t], T[t] if which is None else which, op[3])
            if which is None and op[3] is None:
                T[t].notify_observers()
            elif op[3] is None:
                T[t].notify_observers(which)
            else:
                T[t].notify_observers(which=which, min_priority=op[3])
            compare(want, 'notify_observers on %s with minimum priority %s' % (t, op[3]))
            which = want = None
            rec.label('notify' + ('' if op[3] is None else ' with minimum'))
        elif op[0] == 'change':
            x = T[t]
            how = op[2]
            box['target'] = t
            view = x
            values = np.array(x, float)
            if how == 'view':
                view = x[1:]
            want = expected(t, view, view, None)
            if how == 'item':
                x[0, 1] = 3.5
                values[0, 1] = 3.5
            elif how == 'slice':
                x[:, 1] = [2.25, 5.]
                values[:, 1] = [2.25, 5.]
            elif how == 'view':
                view[...] = 1.5
                values[1:] = 1.5
            elif how == 'mask':
                x[values > 2] = 2.5
                values[values > 2] = 2.5
            elif how == 'fancy':
                x[[0, 1], [1, 0]] = 1.75
                values[[0, 1], [1, 0]] = 1.75
            elif how == 'imatmul':
                m = np.array([[0., 1.], [1., 0.]])
                x.__imatmul__(m)
                values = values @ m
            else:
                v = {'iadd': 1.5, 'isub': 0.25, 'imul': 1.25, 'itruediv': 1.5, 'ifloordiv': 0.5, 'imod': 7., 'ipow': 1.}[how]
                # (the name is rebound to a plain view by this, as documented)
                import operator
                result = getattr(operator, how)(x, v)
                values = getattr(operator, how)(values, v)
                check(isinstance(result, np.ndarray) and result.shape == values.shape and np.array_equal(np.array(result, float), values), 'in-place {} binds {!r} to the name', how, result)
                result = None
            check(np.array_equal(np.array(T[t], float), values), 'in-place {} gives {} instead of {}', how, np.array(T[t]).tolist(), values.tolist())
            compare(want, 'in-place %s on %s' % (how, t))
            rec.label('change ' + how)
