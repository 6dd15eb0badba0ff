"""P34: what nobody refers to any more is released, and nothing which is still in use is."""
import contextlib, copy, gc, io, pickle, re, weakref
import numpy as np
from ..core import check, arr
from ..world import RModel, Node, LOG
from paramz import Param, ObsAr

SIZES = {'quick': (8, 450), 'thorough': (8, 5000)}
RULE = ('two generated hierarchies (plain or models with an objective, caches and runs; a shared observable array whose cached results they use) with a history of constraints (bounded ones too), fixes, structure, values, names, optimization (with messages, with '
        'restarts, by instances), copies, pickles, printing, gradient checks, selections, observers of each other and failing updates, in which hierarchies are given up, or all of their objects but one; after each of them nothing of what was given up may be alive '
        '(after a garbage collection), no observer of it registered with what is kept, and everything kept is compared with its reference; in the end the rest; '
        'non-trivial: at least two objects were released after a history of at least two operations on the hierarchies')
ASSUMPTIONS = ['a cache refers to the arguments of the results it holds', 'the record of a run refers to its model', 'names of siblings are distinct when printed']


class Planned(Exception):
    pass


class Fails(RModel):
    """A model whose next update can be planned to fail."""
    def parameters_changed(self):
        if self.__dict__.pop('planned', None):
            raise Planned('planned')
        super(Fails, self).parameters_changed()


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w, twins
    from .p06 import setup_ops
    h = st.integers(0, 40)
    from .p06 import struct_ops
    moves = struct_ops(st, w)
    o = st.one_of(twins.ops(st, w), st.integers(0, len(moves) - 1).flatmap(lambda i: moves[i]).map(list))
    use = st.one_of(
        st.tuples(st.just('copy'), h, st.sampled_from(['copy', 'deepcopy', 'pickle'])),
        st.tuples(st.just('use'), h, st.sampled_from(['messages', 'restarts', 'instance', 'check', 'simplex'])),
        st.tuples(st.just('show'), h, st.sampled_from(['str', 'html', 'names', 'match', 'select', 'one', 'traverse'])),
        st.tuples(st.just('watch'), h, h, st.sampled_from(['shared', 'other', 'both'])),
        st.tuples(st.just('cached'), h, h, st.booleans()),
        st.tuples(st.just('fail'), h, st.sampled_from(['set', 'link', 'con', 'optimize', 'refused'])),
        st.tuples(st.just('bound'), h, st.integers(1, 200))).map(list)
    end = st.one_of(st.tuples(st.just('drop'), h), st.tuples(st.just('drop'), h), st.tuples(st.just('drop'), h), st.tuples(st.just('hold'), h)).map(list)
    return st.fixed_dictionaries(dict(trees=st.lists(twins.tree(st, w), min_size=1, max_size=2), model=st.tuples(st.booleans(), st.booleans()).map(list), setup=st.one_of(setup_ops(st, w), st.just([])),
                                      ops=st.lists(st.one_of(o, o, use, use, use, end), min_size=3, max_size=10)))


frozen = []


def run(case, rec):
    from .. import twins, world as W
    from .p06 import constraining
    if not frozen:
        gc.collect()
        gc.freeze()     # (of what there was before, so that collections are fast)
        frozen.append(1)
    del LOG[:]
    w = W.World()
    w.make_model = Fails
    for t, model in zip(case['trees'], case['model']):
        twins.build(w, t, model)
    for m in w.all:
        if hasattr(m.real, 'handle'):
            m.real.planned = None
    X = ObsAr(np.arange(5.) + 1.)
    box = dict(X=X, registered=[], bounds=[])
    for op in case['setup']:
        constraining(w, op)
    done = len(case['setup'])
    for op in case['ops']:
        if not w.all:
            break
        if op[0] in ('drop', 'hold'):
            n = give_up(w, op, box, rec)
            if n >= 2 and done >= 2:
                rec.mark('released after a history')
        else:
            label = USE[op[0]](w, op, box) if op[0] in USE else twins.apply(w, op)
            if label:
                done += 1
                rec.label(label)
        twins.drop_foreign(w)
        twins.everything(w, rec, op[0])
        del LOG[:]
    while w.all:
        n = give_up(w, ['drop', 0], box, rec)
        if n >= 2 and done >= 2:
            rec.mark('released after a history')
        twins.everything(w, rec, 'giving up the others')
    check(len(list(X.observers)) == 0, 'a shared array still has {} observers when all of them are gone', len(list(X.observers)))
    X[0] = 7.
    check(not LOG, 'a change of the shared array updates {}', [o.name for o, _ in LOG])


# ---------------------------------------------------------------------------- giving up
def give_up(w, op, box, rec):
    """Refer no longer to the objects of one hierarchy (or to all of them but one)."""
    from .. import world as W, twins
    roots = w.roots()
    if not roots:
        return 0
    twins.drop_foreign(w)
    top = roots[op[1] % len(roots)]
    ms = top.objects()
    for m in w.all:
        c = getattr(m.real, 'kept', None)
        if c is not None and any(x is m for x in ms):
            m.real.kept = None
    if op[0] == 'hold':
        return hold(w, op, top, ms, rec)
    keys = set(k for m in w.all if not any(m is x for x in ms) for k in m.con)
    # the caches of others can refer to results for these
    for m in w.all:
        if not any(m is x for x in ms) and isinstance(m.real, RModel):
            m.real.cache.reset() if hasattr(m.real, 'cache') else None
    refs = [(m.name, type(m.real).__name__, weakref.ref(m.real)) for m in ms]
    refs += [('the buffer of ' + m.name, 'array', weakref.ref(m.real._param_array_)) for m in ms if m.kind == 'node' and isinstance(m.real._param_array_, np.ndarray)]
    cons = [(k, r) for k, r in box['bounds'] if k not in keys]
    box['bounds'] = [(k, r) for k, r in box['bounds'] if k in keys]
    w.all = [m for m in w.all if not any(m is x for x in ms)]
    for m in ms:
        m.real = None
    ms = top = m = None
    del LOG[:]
    gc.collect()
    alive = ['%s %s' % (t, n) for n, t, r in refs if r() is not None]
    check(not alive, 'still alive although nobody refers to them: {}', alive)
    check(all(o is not None for _, o, _ in box['X'].observers), 'a shared array has observers which are gone')
    for k, r in cons:
        check(r() is None, 'the constraint with bounds {} is still alive although nothing is constrained by it', k[1:])
    if cons:
        rec.label('bounded constraints released')
    # nobody who is gone is told
    for t in w.all:
        t.real.trigger_update() if t.parent is None else None
    box['X'][1] += 1.
    rec.label('released %s' % ('a hierarchy' if len(refs) > 1 else 'one object'))
    return len(refs)


def hold(w, op, top, ms, rec):
    """One object keeps all of its hierarchy alive."""
    from .. import world as W
    k = (op[1] // 3) % len(ms)
    refs = [weakref.ref(m.real) for m in ms]
    one = ms[k].real
    for m in ms:
        m.real = None
    gc.collect()
    real = one
    while real.has_parent():
        real = real._parent_
    for m, r in zip(ms, refs):
        check(r() is not None, '{} is gone although {}, which is of the same hierarchy, is in use', m.name, ms[k].name)

    def again(m, real):
        m.real = real
        if m.kind == 'node':
            check(len(real.parameters) == len(m.kids), '{} has lost children', m.name)
            for c, p in zip(m.kids, real.parameters):
                again(c, p)
    again(top, real)
    check(all(m.real is r() for m, r in zip(ms, refs)), 'the objects of {} are others', top.name)
    if ms[k].size:
        del LOG[:]
        one.param_array.flat[:] = arr(one.param_array, one.size)
        one.notify_observers() if ms[k].kind == 'leaf' else one.trigger_update()
        # every object on the way up is updated
        up = [a for a in W.ancestors(ms[k])] if ms[k].kind == 'leaf' else []
        for a in up:
            check(any(o is a.real for o, _ in LOG), 'a change of {} does not update {} any more', ms[k].name, a.name)
    rec.label('held by one ' + ms[k].kind)
    return 0


# ---------------------------------------------------------------------------- ways to use hierarchies
def copied(w, op, box):
    from .. import twins
    if len(w.all) > 40:
        return ''
    twins.drop_foreign(w)
    m = w.pick(op[1]) if op[2] == 'copy' else w.pick(op[1], cond=lambda m: m.parent is None)
    if m is None:
        return ''
    kept = m.real.__dict__.pop('kept', None) # (a handle on another hierarchy is copied with it)
    c = m.real.copy() if op[2] == 'copy' else copy.deepcopy(m.real) if op[2] == 'deepcopy' else pickle.loads(pickle.dumps(m.real, -1))
    if kept is not None:
        m.real.kept = kept
    twins.twin(w, m, c, 'a copy of %s' % m.name)
    return 'a ' + op[2]


def used(w, op, box):
    """Optimization and gradient checks; values are taken over from the object."""
    from .. import world as W
    ms = [m for m in w.all if m.parent is None and isinstance(m.real, RModel)]
    if not ms:
        return ''
    m = ms[op[1] % len(ms)]
    if W.edgy(m) or np.abs(W.free_of(m)).max(initial=0.) > 20 or not m.size or all(m.fix):
        return ''
    n = sum(1 for f in m.fix if not f)
    out = io.StringIO()
    if op[2] == 'check':
        v = np.array(m.v)
        with contextlib.redirect_stdout(out):
            m.real.checkgrad(verbose=op[1] % 2 == 1)
        got = arr(m.real.param_array, m.size)
        check(np.allclose(got, v, rtol=1e-9, atol=1e-9), 'checking the gradient changed values')
        W.set_flat(m, got)
        return 'gradients checked'
    with contextlib.redirect_stdout(out):
        if op[2] == 'restarts':
            state = np.random.get_state()
            m.real.optimize_restarts(2, verbose=False, max_iters=2)
            np.random.set_state(state)
            x = arr(m.real.optimizer_array, n)
        else:
            if op[2] == 'instance':
                from paramz.optimization.optimization import opt_SCG
                o = m.real.optimize(opt_SCG(max_iters=3))
            elif op[2] == 'messages':
                o = m.real.optimize('lbfgsb', max_iters=3, messages=True, ipython_notebook=False)
            else:
                o = m.real.optimize('simplex', max_iters=3)
            o = None
            x = arr(m.real.optimizer_array, n)
    got = arr(m.real.param_array, m.size)
    for k, f in enumerate(m.fix):
        check(not f or got[k] == m.v[k], 'a fixed element moved')
    W.set_flat(m, got)
    return 'optimized: ' + op[2]


def shown(w, op, box):
    from .. import world as W
    m = w.pick(op[1])
    how = op[2]
    if how == 'str':
        str(m.real), repr(m.real), '{}'.format(m.real)
    elif how == 'html':
        m.real._repr_html_()
    elif how == 'names':
        m.real.parameter_names(), m.real.parameter_names_flat() if hasattr(m.real, 'parameter_names_flat') else None, m.real.hierarchy_name()
    elif how == 'match':
        if m.kind != 'node' or not m.size:
            return ''
        sel = m.real['.*']
        str(sel)
        np.array(sel.values() if callable(getattr(sel, 'values', None)) else sel)
    elif how == 'select':
        if m.kind != 'leaf':
            return ''
        part = m.real[:1]
        str(part), part.copy(), part.is_fixed
    elif how == 'one':
        str(m.real.grep_param_names('.*')) if m.kind == 'node' else None
    else:
        seen = []
        m.real.traverse(seen.append)
        m.real.traverse_parents(seen.append)
    return 'looked at: ' + how


def watched(w, op, box):
    """An object observes the shared array, or another hierarchy."""
    a, b = w.pick(op[1]), w.pick(op[2])
    from .. import world as W
    top = W.root(a)
    note = a.real._pass_through_notify_observers if a.kind == 'node' and op[2] % 3 else nothing
    if a.kind == 'node' and not a.size:
        return ''
    if op[3] in ('shared', 'both'):
        box['X'].add_observer(a.real, note)
    if op[3] in ('other', 'both') and W.root(b) is not top:
        b.real.add_observer(a.real, note)
    return 'observers'


def nothing(me, which=None):
    pass


def cached(w, op, box):
    """A cached result for the shared array, a parameter, or an array which is then given up."""
    ms = [m for m in w.all if isinstance(m.real, RModel)]
    if not ms:
        return ''
    m = ms[op[1] % len(ms)]
    if op[3]:
        got = m.real.squares(box['X'])
        check(abs(got - float(np.sum(np.asarray(box['X']) ** 2))) <= 1e-9 * got, 'a cached result for a shared array is {}', got)
        return 'cached results of a shared array'
    if op[2] % 2:
        # more arguments than are kept
        refs = []
        for k in range(5):
            y = ObsAr(np.array([float(k), 1.]))
            m.real.squares(y)
            refs.append(weakref.ref(y))
        y = None
        gc.collect()
        alive = [k for k, r in enumerate(refs) if r() is not None]
        check(all(k >= 3 for k in alive), 'a cache of two results keeps the arguments of calls {} of 5', [k + 1 for k in alive])
        m.real.cache.reset()
        gc.collect()
        alive = [k for k, r in enumerate(refs) if r() is not None]
        check(not alive, 'a cache which was reset keeps the arguments of calls {} of 5', [k + 1 for k in alive])
        return 'arguments of cached results released'
    l = w.pick(op[2], 'leaf')
    if l is None:
        return ''
    got = m.real.squares(l.real)
    check(abs(got - float(np.sum(l.v ** 2))) <= 1e-9 * max(1., got), 'a cached result for {} is {}', l.name, got)
    return 'cached results of a parameter'


def failing(w, op, box):
    """An update which raises; what was assigned stays."""
    from .. import world as W
    from paramz.core import HierarchyError
    how = op[2]
    if how == 'refused':
        m = w.pick(op[1], 'node', cond=lambda m: m.kids)
        if m is None:
            return ''
        for f in (lambda: m.real.link_parameter(m.kids[0].real), lambda: m.real.link_parameter(m.real), lambda: m.real.unlink_parameter(Param('foreign', 1.))):
            try:
                f()
            except Exception:
                pass
        return 'refused'
    ms = [m for m in w.all if isinstance(m.real, Fails) and m.parent is None and m.size]
    if not ms:
        return ''
    m = ms[op[1] % len(ms)]
    real = m.real
    real.planned = True
    try:
        if how == 'set' or how == 'link':
            leaf = m.leaves()[0].real
            leaf[:] = np.array(leaf)
        elif how == 'con':
            real.trigger_update()
        else:
            if any(m.fix) or W.edgy(m) or np.abs(W.free_of(m)).max(initial=0.) > 20:
                return ''
            real.optimize('lbfgsb', max_iters=2)
    except Planned:
        pass
    finally:
        real.__dict__.pop('planned', None)
    got = arr(real.param_array, m.size)
    check(np.allclose(got, m.v, rtol=1e-9, atol=1e-9), 'values of {} changed to {} from {}', m.name, got.tolist(), m.v.tolist())
    W.set_flat(m, got)
    real.trigger_update()
    return 'a failing update'


def bounded(w, op, box):
    """Bounds of one's own."""
    m = w.pick(op[1], nonempty=True)
    if m is None:
        return ''
    key = ('logistic', -1000. - op[2], 1000. + op[2])
    if np.abs(m.v).max() > 900:
        return ''
    w.constrain(m, None, list(key))
    from .. import ref
    c = ref.make(list(key))
    if not any(r() is c for _, r in box['bounds']):
        box['bounds'].append((key, weakref.ref(c)))
    return 'bounds'


USE = dict(copy=copied, use=used, show=shown, watch=watched, cached=cached, fail=failing, bound=bounded)
