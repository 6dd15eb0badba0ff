"""P31: a failure in the middle of an operation leaves everything consistent."""
import contextlib, io
import numpy as np
from ..core import check

SIZES = {'quick': (8, 330), 'thorough': (8, 6000)}
RULE = ('two equal generated hierarchies (plain or a model, with constraints and fixes, observers at several objects) and one history of assigning, constraining, fixing, free values, switching updates, randomizing, gradient checks, copying, '
        'in-place arithmetic and structural changes; in one of them a user function (the update of an object, an observer, an objective, a random number generator) raises at a planned call; the exception must reach the caller, and then, after '
        'the failure is over and an update is triggered, everything (values, constraints, fixes, structure, names, free values, state of updates, observers, gradients, computed results) is as in the hierarchy where the operation succeeded, '
        'or the operation has left no trace and succeeds when it is repeated; operations which are refused for their arguments leave no trace; non-trivial: an exception was raised inside of an operation and operations followed')
ASSUMPTIONS = ['fixing to a value is an assignment followed by fixing: the first can be complete without the second', 'optimization with failures is judged by P17 to P19 and P30', 'structure is changed while updates are on', 'constraining a selection of several parameters is constraining them one by one',
               'the tolerated failures (documented) of an objective are no exceptions']


class Planned(Exception):
    pass


class PlannedStop(BaseException):
    pass


PLAN = [0, None, False]      # which call from now raises, with what, after its work is done


def strike(late):
    if PLAN[0] and late == PLAN[2]:
        PLAN[0] -= 1
        if not PLAN[0]:
            raise PLAN[1]('planned')


def classes():
    from ..world import Node, RModel

    class FNode(Node):
        computed = None

        def parameters_changed(self):
            strike(False)
            self.computed = float(np.sum(np.array(self.param_array, float) * np.arange(1, self.size + 1)))
            strike(True)

    class FModel(RModel):
        computed = None

        def parameters_changed(self):
            strike(False)
            RModel.parameters_changed(self)
            self.computed = self.value
            strike(True)

        def objective_function(self):
            strike(True)
            return self.value
    return FNode, FModel


FNode = FModel = None


class Ear(object):
    def __init__(self):
        self.n = 0

    def hear(self, me, which=None):
        strike(False)
        self.n += 1


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import con_ops, struct_ops, setup_ops
    h = st.integers(0, 30)
    vals = st.lists(st.integers(-12, 12).map(lambda k: k / 4.), min_size=1, max_size=4)
    c, s = con_ops(st, w), struct_ops(st, w)
    v = [
        st.tuples(st.just('set'), h, st.one_of(st.none(), w.index_expr(st)), vals),
        st.tuples(st.just('set'), h, st.one_of(st.none(), w.index_expr(st)), vals),
        st.tuples(st.just('named'), h, vals),
        st.tuples(st.just('inplace'), h, st.integers(0, 3)),
        st.tuples(st.just('free'), h, vals),
        st.tuples(st.just('updates'), h, st.booleans()),
        st.tuples(st.just('updates'), h, st.just(True)),
        st.tuples(st.just('randomize'), h, st.integers(0, 9), st.integers(0, 2)),
        st.tuples(st.just('check'), h, st.booleans()),
        st.tuples(st.just('copy'), h),
        st.tuples(st.just('trigger'), h),
        st.tuples(st.just('init'), h),
        st.tuples(st.just('many'), h, vals, st.integers(0, 3)),
        st.tuples(st.just('fixto'), h, vals),
    ]
    refused = st.tuples(st.just('refused'), h, st.integers(0, 60), h).map(list)
    oc = st.integers(0, len(c) - 1).flatmap(lambda i: c[i]).map(list)
    os_ = st.integers(0, len(s) - 1).flatmap(lambda i: s[i]).map(list)
    ov = st.integers(0, len(v) - 1).flatmap(lambda i: v[i]).map(list)
    fault = st.one_of(st.none(), st.tuples(st.one_of(st.integers(1, 4), st.integers(1, 12)), st.booleans(), st.booleans()).map(list))
    op_ = st.tuples(st.one_of(oc, ov, ov, ov, os_, refused), fault).map(list)
    drawn = st.tuples(st.tuples(st.just('randomize'), h, st.integers(0, 9), st.just(2)).map(list), st.tuples(st.just(1), st.booleans(), st.just(False)).map(list)).map(list)
    op = st.integers(0, 15).flatmap(lambda i: drawn if i == 0 else op_)
    return st.fixed_dictionaries(dict(tree=w.model_spec(st, dc=True, max_leaves=5), other=w.node_spec(st, dc=True, max_leaves=3), model=st.booleans(), kind=st.sampled_from(['quad', 'coupled', 'waves']), setup=st.one_of(setup_ops(st, w), st.just([])),
                                      ears=st.lists(st.tuples(h, st.sampled_from([0, 5, -50, -200])).map(list), max_size=3), ops=st.lists(op, min_size=2, max_size=12)))


class Side(object):
    def __init__(self, case):
        from .p06 import constraining
        from ..world import World
        global FNode, FModel
        if FNode is None:
            FNode, FModel = classes()
        w = self.w = World()
        w.make_node = FNode
        if case['model']:
            w.build(case['tree'], gradients=False, top=lambda name, kids: FModel(name, kids, case['kind']))
        else:
            w.build(case['tree'], gradients=False)
        w.build(case['other'], gradients=False)
        for op in case['setup']:
            constraining(w, op)
        self.ears = []
        for k, prio in case['ears']:
            e = Ear()
            w.all[k % len(w.all)].real.add_observer(e, e.hear, prio)
            self.ears.append(e)

    def restore(self, other):
        """Take over the reference of the other side."""
        a, b = other.w.all, self.w.all
        check(len(a) == len(b), 'the hierarchies have {} and {} objects', len(a), len(b))
        at = {id(m): k for k, m in enumerate(a)}
        for m, t in zip(a, b):
            t.parent = None if m.parent is None else b[at[id(m.parent)]]
            t.name = m.name
            if m.kind == 'leaf':
                t.v, t.g, t.con, t.fix = m.v.copy(), m.g.copy(), list(m.con), list(m.fix)
            else:
                t.kids = [b[at[id(k)]] for k in m.kids]

    def state(self, results):
        """Everything which can be seen."""
        from ..world import ref
        w = self.w
        ident = {id(m.real): 'object %d' % k for k, m in enumerate(w.all)}
        ident.update({id(e): 'ear %d' % k for k, e in enumerate(self.ears)})
        out = {}
        for k, m in enumerate(w.all):
            r = m.real
            s = dict(values=np.array(r.param_array, float).ravel().tolist(), size=r.size, name=r.name, updates=r.update_model(), parent=ident.get(id(r._parent_)) if r.has_parent() else None, at=r._parent_index_,
                     constraints=sorted((str(ref.key_of(c)), sorted(int(i) for i in np.asarray(x).ravel())) for c, x in r.constraints.items()), fixed=bool(r.is_fixed),
                     free=np.array(r.optimizer_array, float).ravel().tolist(), children=[ident.get(id(c)) for c in r.parameters],
                     observers=[(p, ident.get(id(o), type(o).__name__), f.__name__) for p, o, f in r.observers])
            if results:
                s['computed'] = getattr(r, 'computed', None)
                if isinstance(r, FModel):
                    s['gradient'] = np.array(r.gradient, float).tolist()
            for key, v in s.items():
                out[(m.name, key)] = v
        return out


def differs(a, b):
    for k in a:
        x, y = a[k], b.get(k)
        if x != y:
            if k[1] in ('values', 'free', 'gradient', 'computed') and x is not None and y is not None and np.shape(x) == np.shape(y) and np.array_equal(np.asarray(x, float), np.asarray(y, float), equal_nan=True):
                continue
            return '%s of %s is %r instead of %r' % (k[1], k[0], y, x)
    return None


def act(s, op, off):
    """Do the operation; None if it does not apply."""
    from ..world import ref, set_flat, fit, edgy, arr
    from .p05 import structural
    from .p06 import constraining
    w = s.w
    what = op[0]
    m = w.pick(op[1]) if len(op) > 1 and isinstance(op[1], int) else None
    if what in ('con', 'fix', 'unfix', 'uncon', 'uncon there'):
        return constraining(w, op) or None
    if what == 'set':
        return 'assign' if w.assign(m, op[2] if m.kind == 'leaf' else None, op[3]) else None
    if what == 'named':
        m = w.pick(op[1], cond=lambda m: m.parent is not None and m.kind == 'leaf')
        if m is None:
            return None
        x = np.array([fit(op[2][i % len(op[2])], c) for i, c in enumerate(m.con)]).reshape(m.shape)
        setattr(m.parent.real, m.name, x)
        m.v = x.ravel().copy()
        return 'assign by name'
    if what == 'inplace':
        m = w.pick(op[1], 'leaf', cond=lambda m: all(c is None for c in m.con))
        if m is None or np.abs(m.v).max() > 1e4:
            return None
        r = m.real
        if op[2] == 0:
            r += 0.5
            m.v = m.v + 0.5
        elif op[2] == 1:
            r -= 0.25
            m.v = m.v - 0.25
        elif op[2] == 2:
            r *= 2.
            m.v = m.v * 2.
        else:
            r /= 2.
            m.v = m.v / 2.
        return 'in-place arithmetic'
    if what == 'free':
        if edgy(m) or not m.size:
            return None
        w.set_free(m, op[2])
        return 'free values'
    if what == 'updates':
        m.real.update_model(op[2])
        return 'updates'
    if what == 'randomize':
        if edgy(m) or all(m.fix):
            return None
        np.random.seed(op[2])
        if op[3] == 0:
            m.real.randomize()
        elif op[3] == 1:
            m.real.randomize(np.random.uniform, -1., 1.)
        else:
            def draw(size):
                strike(False)
                return np.random.uniform(-1., 1., size)
            m.real.randomize(draw)
        set_flat(m, arr(m.real.param_array, m.size))
        return 'randomize'
    if what == 'check':
        m = w.all and [x for x in w.all if isinstance(x.real, FModel)]
        if not m or off:
            return None
        m = m[0]
        if all(m.fix) or edgy(m) or not m.size or m.parent is not None:
            return None
        np.random.seed(3)
        m.real._fail_count = 0
        with contextlib.redirect_stdout(io.StringIO()):
            m.real.checkgrad(verbose=op[2])
        # equal up to rounding
        set_flat(m, arr(m.real.param_array, m.size))
        return 'gradient check'
    if what == 'copy':
        m.real.copy()
        return 'copy'
    if what == 'trigger':
        m.real.trigger_update()
        return 'trigger'
    if what == 'init':
        if off:
            return None
        m.real.initialize_parameter()
        return 'initialize again'
    if what == 'many':
        if m.kind != 'node' or m.parent is not None:
            return None
        l = [x for x in m.leaves()]
        if len(l) < 2:
            return None
        sel = m.real['.*']
        n = sum(x.size for x in l)
        if op[3] == 0:
            flat = [fit(op[2][i % len(op[2])], c) for i, c in enumerate(m.con)]
            sel[:] = np.array(flat)
            set_flat(m, np.array(flat))
        elif op[3] == 1:
            sel.constrain_bounded(-5., 5., warning=False)
            w._constrained(m, range(m.size), ['logistic', -5., 5.])
        else:
            return None
        return 'selection of several'
    if what == 'fixto':
        x = [fit(op[2][i % len(op[2])], c) for i, c in enumerate(m.con)]
        if m.kind != 'leaf':
            return None
        m.real.constrain_fixed(np.array(x).reshape(m.shape), warning=False)
        m.v = np.array(x)
        m.fix = [True] * m.size
        return 'fix to a value'
    if off:
        return None
    return structural(w, op) or None


def refuse(s, op):
    """An operation which must raise; what it is, or None if it does not apply."""
    from paramz import Param, Parameterized
    w = s.w
    m, k = w.pick(op[1]), op[2]
    r = m.real
    other = w.pick(op[3])
    root = m
    while root.parent is not None:
        root = root.parent

    class Odd(object):
        pass
    n = sum(1 for f in m.fix if not f)
    bad = ['7x', 'a$', '', 'x#y', '~']
    more = [('bounds in the wrong order', lambda: r.constrain_bounded(2., 1.)), ('equal bounds', lambda: r.constrain_bounded(1., 1.)), ('an unknown constraint', lambda: r.constrain('nothing')), ('None as constraint', lambda: r.constrain(None)),
            ('a number as state of updates', lambda: r.update_model(1)), ('a number as name', lambda: setattr(r, 'name', 7)), ('bounds which are no numbers', lambda: r.constrain_bounded(float('nan'), 1.)),
            ('randomizing without a generator', (lambda: r.randomize('nonsense')) if n else None),
            ('a name which is none', (lambda: setattr(r, 'name', bad[op[3] % 5])) if m.parent is not None else None)]
    if m.kind == 'leaf':
        more += [('a wrong shape', lambda: r.__setitem__(slice(None), np.zeros(m.shape + (7,)))), ('a word as value', lambda: r.__setitem__(slice(None), 'nonsense')), ('an index out of range', lambda: r.__setitem__(m.shape[0] + 2, 1.)),
                 ('fixing to a wrong shape', lambda: r.constrain_fixed(np.zeros(m.shape + (5,)))), ('a word to add', lambda: r.__iadd__('nonsense')), ('constraining elements out of range', lambda: r[[m.shape[0] + 2]].constrain_positive()),
                 ('a gradient of a wrong shape', lambda: setattr(r, 'gradient', np.zeros(m.shape + (7,)))), ('constraining elements to wrong bounds', lambda: r[[0]].constrain_bounded(2., 1.)),
                 ('a wrong shape below', (lambda: setattr(m.parent.real, m.name, np.zeros(m.shape + (7,)))) if m.parent is not None and m.name.isidentifier() and getattr(m.parent.real, m.name, None) is r else None)]
    else:
        kids = m.kids
        more += [('an unknown name', lambda: r['nothing is called like this']), ('assigning to an unknown name', lambda: r.__setitem__('nothing is called like this', 1.)), ('linking something else', lambda: r.link_parameter(Odd())),
                 ('unlinking something else', lambda: r.unlink_parameter(Odd())), ('a wrong size', (lambda: r.__setitem__(slice(None), np.zeros(m.size + 3))) if m.size else None),
                 ('linking a child again', (lambda: r.link_parameter(kids[0].real)) if kids else None), ('linking itself', lambda: r.link_parameter(r)), ('an index out of range', lambda: r.__setitem__(m.size + 5, 1.)),
                 ('linking the root below', lambda: r.link_parameter(root.real)), ('linking the root at a place below', lambda: r.link_parameter(root.real, 0)),
                 ('linking with a name which is none', lambda: r.link_parameter(Param(bad[op[3] % 5] or '1', np.ones(2)))), ('linking at a place with a name which is none', lambda: r.link_parameter(Parameterized(bad[op[3] % 5] or '1'), 0)),
                 ('unlinking another\'s', (lambda: r.unlink_parameter(other.real)) if all(other is not o for o in kids) else None), ('fixing to a wrong size', (lambda: r.constrain_fixed(np.zeros(m.size + 3))) if m.size else None),
                 ('a wrong shape for several', (lambda: r['.*'].__setitem__(slice(None), np.zeros(m.size + 3))) if m.parent is None and len(kids) > 1 and m.size else None),
                 ('too few for several', (lambda: r['.*'].__setitem__(slice(None), np.arange(m.size - 1.))) if m.parent is None and len(kids) > 1 and m.size > 3 else None),
                 ('too few', (lambda: r.__setitem__(slice(None), np.arange(m.size - 1.))) if m.size > 3 else None),
                 ('a word for several', (lambda: r['.*'].__setitem__(slice(None), 'nonsense')) if m.parent is None and len(kids) > 1 and m.size else None),
                 ('wrong bounds for several', (lambda: r['.*'].constrain_bounded(2., 1.)) if m.parent is None and len(kids) > 1 and m.size else None)]
        if isinstance(r, FModel) and m.parent is None and n and r.update_model():
            more += [('an unknown optimizer', lambda: r.optimize('nothing')), ('an unknown optimizer to restart', lambda: r.optimize_restarts(2, optimizer='nothing', verbose=False))]
    t = more[k % len(more)]
    return t if t[1] is not None else None


def settle(sides):
    for s in sides:
        for m in s.w.all:
            if m.parent is None:
                m.real.trigger_update()


def run(case, rec):
    import warnings
    from ..core import Violation
    warnings.simplefilter('ignore')
    PLAN[:] = [0, None, False]
    a, b = Side(case), Side(case)
    hit = False
    off = False
    for step, (op, fault) in enumerate(case['ops']):
        if hit:
            rec.mark('operations after a failure')
        if op[0] == 'refused':
            for s in (a, b):
                t = refuse(s, op)
                if t is None:
                    continue
                before = s.state(True)
                try:
                    t[1]()
                except Exception:
                    pass
                else:
                    raise Violation('%s is not refused' % t[0])
                d = differs(before, s.state(True))
                check(d is None, 'after {} was refused, {}', t[0], d)
                rec.label('refused: ' + t[0])
            continue
        if op[0] == 'updates':
            # all of both worlds together, so that parts can move between hierarchies
            roots = [m for m in a.w.roots()]
        before = b.state(False)
        try:
            what = act(a, op, off)
        except Violation as e:
            raise
        if op[0] == 'updates':
            for m in a.w.roots():
                m.real.update_model(op[2])
        if what is None:
            PLAN[:] = [0, None, False]
            n = len(a.w.all)
            continue
        raised = False
        if op[0] in ('new', 'replace') or op[0] == 'many' and op[3] == 1:
            fault = None      # building a new object updates it, a selection is constrained one by one
        PLAN[:] = [fault[0], PlannedStop if fault[1] else Planned, fault[2]] if fault else [0, None, False]
        try:
            try:
                act(b, op, off)
            finally:
                armed, PLAN[:] = PLAN[0], [0, None, False]
        except (Planned, PlannedStop) as e:
            raised = True
        check(raised or not fault or armed, '{}: an exception which was raised inside did not reach the caller', what)
        if op[0] == 'updates':
            off = not op[2]
            for m in b.w.roots():
                m.real.update_model(op[2])
        if raised:
            rec.label('failed: ' + what.split(' (')[0])
            hit = True
            after = a.state(False)
            now = b.state(False)
            d, e = differs(after, now), differs(before, now)
            if op[0] == 'fixto' and d is not None and e is not None:
                # the assignment is complete
                x = w_only(after, before)
                e = differs(x, now)
            if op[0] == 'check':
                d = d and loosely(after, now)
                e = e and loosely(before, now)
            check(d is None or e is None, '{} failed inside: compared with one which succeeded, {}; compared with the state before, {}', what, d, e)
            if d is not None:
                b_redo(b, op, off)
            else:
                b.restore(a)
        settle((a, b))
        d = (loosely if op[0] == 'check' else differs)(a.state(True), b.state(True))
        check(d is None, 'after {}{}, {}', what, ' which failed' if raised else '', d)
        if op[0] == 'check':
            # the two sides may differ by rounding now
            for m, t in zip(a.w.all, b.w.all):
                if m.kind == 'leaf':
                    t.real[...] = np.array(m.real)
                    t.v = m.v.copy()
        a.w.check_values()


def w_only(after, before):
    return {k: (after if k[1] == 'values' else before)[k] for k in after if k[1] != 'free'}


def loosely(x, y):
    for k in x:
        p, q = x[k], y.get(k)
        if k[1] in ('values', 'free', 'gradient', 'computed') and p is not None and q is not None:
            if np.shape(p) != np.shape(q) or not np.allclose(p, q, rtol=1e-9, atol=1e-9, equal_nan=True):
                return '%s of %s is %r instead of %r' % (k[1], k[0], q, p)
        elif p != q:
            return '%s of %s is %r instead of %r' % (k[1], k[0], q, p)
    return None


def b_redo(b, op, off):
    act(b, op, off)
