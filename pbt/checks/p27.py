"""P27: deferred initialization, and restoring saved parameters."""
import numpy as np
from ..core import check, arr, raises, Violation
from ..twins import results, Told
from .. import world as W
from ..world import RModel, Node, LOG, World, root, set_flat, edgy

SIZES = {'quick': (8, 400), 'thorough': (8, 8000)}
RULE = ('a generated hierarchy whose top and some of whose inner nodes are built without initialization, and a history which runs partly inside of the constructor and partly before initialization: linking (below inner nodes, too), constraining, fixing, assigning leaves, '
        'refused assignments; then initialization from the top or from an inner node or by linking into an initialized model, and more changes; then a second model is built the same way from other values, and the saved values of the first are loaded '
        'by the documented procedure; everything is compared with a reference after each step; non-trivial: a constraint, fix or linked part from before initialization, and several leaves')
ASSUMPTIONS = ['nodes are not read as arrays and no leaf is unlinked before initialization', 'a node made without initialization is not assigned to before']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import con_ops
    h = st.integers(0, 20)
    e = st.one_of(st.none(), w.index_expr(st))
    vals = st.lists(st.integers(-40, 40).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    before = con_ops(st, w) + [
        st.tuples(st.just('new'), h, w.tree_spec(st, dc=True, max_leaves=3), st.one_of(st.none(), st.integers(-3, 3))),
        st.tuples(st.just('set'), h, e, vals),
        st.tuples(st.just('refuse'), h, vals, st.integers(0, 2)),
        st.tuples(st.just('rename'), h),
        st.tuples(st.just('trigger'), h, st.integers(0, 2)),
    ]
    after = con_ops(st, w) + [st.tuples(st.just('set'), h, e, vals)] * 4 + [st.tuples(st.just('free'), h, vals), st.tuples(st.just('init'), h)]
    b = st.integers(0, len(before) - 1).flatmap(lambda i: before[i]).map(list)
    a = st.integers(0, len(after) - 1).flatmap(lambda i: after[i]).map(list)
    return st.fixed_dictionaries(dict(tree=w.model_spec(st, dc=True), deferred=st.lists(st.booleans(), min_size=1, max_size=4), inside=st.lists(b, max_size=4), outside=st.lists(b, max_size=4),
                                      how=st.tuples(st.sampled_from(['top', 'top', 'any', 'link', 'normal']), st.integers(0, 5)), after=st.lists(a, max_size=4), shift=st.integers(0, 40),
                                      load=st.tuples(st.integers(0, 5), st.integers(0, 2), st.integers(0, 3)), rest=st.lists(a, max_size=3)))


class Late(RModel):
    """A model whose constructor runs a part of the history."""
    def __init__(self, name, kids, program):
        super(Late, self).__init__(name, kids, 'coupled')
        program(self)


def run(case, rec):
    saved = first(case, rec)
    second(case, rec, saved)


def construct(case, rec, tree):
    """The world and its top after construction and the history before initialization."""
    w = World()
    count = [0]

    def node(name, parameters=()):
        count[0] += 1
        d = case['deferred'][count[0] % len(case['deferred'])]
        return Node(name, parameters=parameters, initialize=False) if d else Node(name, parameters=parameters)
    w.make_node = node
    state = dict(label=set())

    def inside(real):
        # the constructor of the top: its model is made here
        m = W.N(real.name)
        m.real = real
        m.kids = [k for k in state['kids']]
        for k in m.kids:
            k.parent = m
        w.all.append(m)
        state['top'] = m
        history(w, m, case['inside'], rec, 'inside', state)
    name = w.fresh('m')
    state['kids'] = [w.build(s, gradients=False) for s in tree[1]]
    kids = [k.real for k in state['kids']]
    normal = case['how'][0] == 'normal'
    before = len(LOG)
    real = Late(name, kids, inside) if normal else Late(name, kids, inside, initialize=False)
    m = state['top']
    check(m.real is real, 'harness: the constructor made another object')
    if normal:
        current(m, before, 'normal construction', {id(o) for o in m.objects() if o.kind == 'node'})
    history(w, m, case['outside'], rec, 'normal' if normal else 'outside', state)
    return w, m, state


def history(w, m, ops, rec, where, state):
    from .p06 import constraining
    for op in ops:
        label = before_init(w, m, op, where)
        if label:
            rec.label('%s: %s' % (where, label))
            if label.startswith(('constrain', 'fix', 'link')):
                state['label'].add(label)
        w.check_structure()
        w.check_constraints()
        for l in w.all:
            if l.kind == 'leaf':
                w.check_values(only=[l])


def before_init(w, m, op, where):
    from .p06 import constraining
    if op[0] == 'new':
        p = w.pick(op[1], 'node', cond=lambda o: root(o) is m)
        c = w.build(op[2], gradients=False)
        w.link(p, c, op[3] if op[3] is None else max(-len(p.kids) - 1, min(len(p.kids) + 1, op[3])))
        return 'link a new %s' % c.kind
    if op[0] == 'set':
        l = w.pick(op[1], 'leaf')
        if l is None:
            return ''
        w.assign(l, op[2], op[3])
        return 'assign a leaf'
    if op[0] == 'rename':
        o = w.pick(op[1])
        o.name = w.fresh('renamed')
        o.real.name = o.name
        return 'rename'
    if op[0] == 'trigger':
        if where != 'inside':
            return ''
        n = len(LOG)
        if op[2] == 0:
            m.real.trigger_update()
        else:
            (m if op[2] == 1 else w.pick(op[1], cond=lambda o: root(o) is m)).real.update_model(True)
        check(not any(o is m.real for o, _ in LOG[n:]), 'an update of a model which is asked for in its constructor runs before the constructor has ended')
        return 'ask for an update'
    if op[0] == 'refuse':
        if where == 'normal':
            return ''
        if op[3] == 0:
            raises(AttributeError, lambda: m.real.__setitem__(slice(None), op[2][0]), 'assigning all of a model which is not initialized')
        elif op[3] == 1:
            raises(AttributeError, lambda: m.real.__setitem__(slice(None), np.array([op[2][i % len(op[2])] for i in range(m.size)])), 'assigning all of a model which is not initialized')
        else:
            check(m.real.checkgrad() is False, 'the gradient check of a model which is not initialized is {}', m.real.checkgrad())
            return 'refused gradient check'
        return 'refused assignment'
    return constraining(w, op) or ''


def current(m, before, what, need):
    """Every object among need has been told since, the last time with its present values; inner objects before outer ones at the last time."""
    last = {}
    for k in range(before, len(LOG)):
        last[id(LOG[k][0])] = k
    for o in m.objects():
        if o.kind != 'node' or id(o) not in need:
            continue
        k = last.get(id(o.real))
        check(k is not None, '{}: {} was not told to update', what, o.name)
        check(np.array_equal(LOG[k][1].ravel(), o.v), '{}: {} was told with the values {}, it has {}', what, o.name, LOG[k][1].tolist(), o.v.tolist())
        for c in o.kids:
            if c.kind == 'node' and id(c) in need:
                check(last[id(c.real)] < k, '{}: {} was told before the inner {}', what, o.name, c.name)


def everything(w, m):
    w.check_structure()
    w.check_constraints()
    w.check_fixed()
    w.check_values()
    if not edgy(m):
        w.check_free()
    for o in m.objects():
        for k in o.kids:
            check(getattr(o.real, k.name, None) is k.real, '{} is not the child of that name of {}', k.name, o.name)


def initialize(case, w, m, rec):
    how, k = case['how']
    before = len(LOG)
    nodes = [o for o in m.objects() if o.kind == 'node']
    if how == 'normal':
        return m
    if how == 'link':
        host = W.N(w.fresh('host'))
        inner = w.build(['n', [['p', [2], k, None]], 0], gradients=False)
        host.real = RModel(host.name, [inner.real], 'coupled')
        host.kids = [inner]
        inner.parent = host
        w.all.append(host)
        w.link(host if k % 2 else inner, m)
        rec.label('initialized by linking')
        return host
    at = m if how == 'top' else nodes[k % len(nodes)]
    at.real.initialize_parameter()
    if at is m:
        current(m, before, 'initialization', {id(o) for o in nodes})
    else:
        need = {id(o) for o in [at] + W.ancestors(at)}
        current(m, before, 'initialization from %s' % at.name, need)
    rec.label('initialized from ' + ('the top' if at is m else 'an inner node'))
    return m


def later(w, m, ops, rec):
    from .p06 import constraining
    for op in ops:
        if op[0] == 'set':
            o = w.pick(op[1], nonempty=True)
            w.assign(o, op[2] if o.kind == 'leaf' else None, op[3])
        elif op[0] == 'free':
            o = w.pick(op[1])
            if edgy(root(o)) or all(root(o).fix):
                continue
            w.set_free(o, op[2])
        elif op[0] == 'init':
            # once more: nothing changes
            o = w.pick(op[1], 'node')
            if o is None:
                continue
            o.real.initialize_parameter()
            rec.label('initialized again')
        else:
            constraining(w, op)
        rec.label('later: ' + op[0])
        everything(w, m)


def told_once(m, before, what):
    ids = [id(o) for o, v in LOG[before:]]
    for o in m.objects():
        if o.kind == 'node':
            check(ids.count(id(o.real)) == 1, '{}: {} was told {} times', what, o.name, ids.count(id(o.real)))


def first(case, rec):
    del LOG[:]
    w, m, state = construct(case, rec, case['tree'])
    top = initialize(case, w, m, rec)
    everything(w, top)
    if case['how'][0] == 'top':
        results(m, 'after initialization')
    later(w, top, case['after'], rec)
    if state['label'] and len(m.leaves()) > 1 and case['how'][0] != 'normal':
        rec.mark('history before initialization')
    top.real.update_model(True)
    results(top, 'before saving')
    save(m)
    return dict(v=np.array(m.real.param_array, float).copy(), want=m.v.copy(), con=list(m.con), fix=list(m.fix), obj=float(m.real.objective_function()), kinds=[c for c in case['after'] if c[0] not in ('set', 'free', 'init')])


def save(m):
    """Model.save writes the values of every leaf under its name, and the parameter array which the documented load procedure assigns."""
    import os, sys, tempfile
    from .. import h5py_stub
    before = sys.modules.get('h5py')
    h5py_stub.install() # (the library is not installed)
    folder = tempfile.mkdtemp(prefix='p27_')
    name = os.path.join(folder, 'saved.h5')
    try:
        m.real.save(name)
        check(not h5py_stub.OPEN, 'the saved file was not closed')
        f = h5py_stub.File(name, 'r')
        sets = {k: np.asarray(f[k][...]) for k in f.keys()}
        f.close()
    finally:
        if os.path.exists(name):
            os.remove(name)
        os.rmdir(folder)
        if before is None:
            del sys.modules['h5py']
        else:
            sys.modules['h5py'] = before
    check('param_array' in sets, 'the parameter array is not saved; the file has {}', sorted(sets))
    got = sets.pop('param_array')
    check(got.shape == (m.size,) and np.array_equal(got, m.v), 'the saved parameter array is {} instead of {}', got.tolist(), m.v.tolist())
    leaves = m.leaves()
    check(len(sets) == len(leaves), '{} leaves were saved instead of {}', len(sets), len(leaves))
    for l, path in zip(leaves, m.real.parameter_names(adjust_for_printing=True)):
        d = sets.get(path.replace('.', '_'))
        check(d is not None, 'the leaf {} is not saved; the file has {}', path, sorted(sets))
        check(d.shape == tuple(l.shape) and np.array_equal(d.ravel(), l.v), 'the leaf {} is saved as {} instead of {}', path, d.tolist(), l.v.tolist())


def shifted(spec, k):
    if spec[0] == 'p':
        return [spec[0], spec[1], spec[2] + k] + list(spec[3:])
    return [spec[0], [shifted(s, k) for s in spec[1]]] + list(spec[2:])


def second(case, rec, saved):
    """The documented procedure on a model which is built the same way from other values."""
    case = dict(case, how=['load', 0])
    w, m, state = construct(case, rec, shifted(case['tree'], case['shift']))
    nodes = [o for o in m.objects() if o.kind == 'node']
    off, by, on = case['load']
    if saved['con'] != m.con:
        # constraints which were changed after initialization are not part of what was saved: values have to fit the constructor's
        saved = dict(saved, v=np.array([W.fit(x, c) for x, c in zip(saved['v'], m.con)]), obj=None)
        rec.label('loaded other values')
    before = len(LOG)
    nodes[off % len(nodes)].real.update_model(False)
    check(not any(o.real.update_model() for o in m.objects()), 'updates are not off everywhere')
    raises(AttributeError, lambda: m.real.__setitem__(slice(None), saved['v']), 'assigning all of a model which is not initialized, with updates off')
    nodes[off % len(nodes)].real.initialize_parameter()
    if by == 0:
        m.real[:] = saved['v']
    elif by == 1:
        m.real.param_array[:] = saved['v']
    else:
        m.real.param_array[...] = saved['v'].tolist()
    set_flat(m, saved['v'])
    w.check_values()
    check(len(LOG) == before, 'while updates were off, {} updates were run', len(LOG) - before)
    m.objects()[on % len(m.objects())].real.update_model(True)
    check(all(o.real.update_model() for o in m.objects()), 'updates are not on everywhere')
    told_once(m, before, 'loading')
    current(m, before, 'loading', {id(o) for o in nodes})
    everything(w, m)
    results(m, 'after loading')
    if saved['obj'] is not None:
        got = float(m.real.objective_function())
        check(abs(got - saved['obj']) <= 1e-9 * max(1., abs(got)), 'the objective after loading is {}, it was {}', got, saved['obj'])
        rec.label('loaded the same state')
    later(w, m, case['rest'], rec)
