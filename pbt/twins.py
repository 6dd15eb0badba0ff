"""Histories on hierarchies and their copies: operations on either side must not show on the other."""
import numpy as np
from .core import check, arr
from . import world as W
from .world import L, N, LOG, RModel, Node, objective, edgy, free_of, set_flat, ref


def ops(st, w, optimize=True):
    from .checks.p06 import con_ops, struct_ops
    h = st.integers(0, 40)
    e = st.one_of(st.none(), w.index_expr(st))
    vals = st.lists(st.integers(-40, 40).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    value = [
        st.tuples(st.just('set'), h, e, vals), st.tuples(st.just('set'), h, e, vals),
        st.tuples(st.just('arith'), h, st.integers(1, 8).map(lambda k: k / 4. + 1.0625)),
        st.tuples(st.just('free'), h, vals),
        st.tuples(st.just('rename'), h),
        st.tuples(st.just('attr'), h, vals),
        st.tuples(st.just('toggle'), h),
    ]
    if optimize:
        value.append(st.tuples(st.just('optimize'), h, st.sampled_from(['scg', 'lbfgsb', 'simplex'])))
    groups = [con_ops(st, w), struct_ops(st, w), value, value]
    return st.integers(0, len(groups) - 1).flatmap(lambda g: st.integers(0, len(groups[g]) - 1).flatmap(lambda i: groups[g][i])).map(list)


def tree(st, w):
    return w.node_spec(st, dc=True, max_leaves=5)


def build(w, spec, model):
    """A root for a history: a node or a model with an objective."""
    if not model:
        return w.build(spec, gradients=False)
    top = w.build(spec, top=lambda name, kids: w.make_model(name, kids, 'coupled'), gradients=False)
    # what users keep on their models: a handle on a part, and data
    leaves = top.leaves()
    top.real.handle = leaves[len(leaves) // 2].real if leaves else None
    top.real.X = W.ObsAr(np.arange(4.))
    return top


def drop_foreign(w):
    """A handle on an object which left its model is given up (copying it would copy another hierarchy with it)."""
    for m in w.all:
        h = getattr(m.real, 'handle', None)
        if h is not None and not any(o.real is h for o in m.objects()):
            m.real.handle = None


def apply(w, op):
    """One operation on model and reality; a label."""
    from .checks.p05 import structural
    from .checks.p06 import constraining
    from .checks.p11 import values_for, legit
    label = structural(w, op)
    if label is not None:
        return label
    label = constraining(w, op)
    if label is not None:
        return label
    if op[0] == 'set':
        m = w.pick(op[1])
        w.assign(m, op[2] if m.kind == 'leaf' else None, op[3])
        return 'set a ' + m.kind
    if op[0] == 'arith':
        m = w.pick(op[1], 'leaf')
        if m is None or not legit(m.con, m.v * op[2]):
            return ''
        m.real.__imul__(op[2])
        m.v = m.v * op[2]
        return 'in-place arithmetic'
    if op[0] == 'attr':
        m = w.pick(op[1], cond=lambda m: m.parent is not None)
        if m is None:
            return ''
        x = values_for(m, op[2])
        setattr(m.parent.real, m.name, x.reshape(m.shape) if m.kind == 'leaf' else x)
        set_flat(m, x)
        return 'set by attribute'
    if op[0] == 'free':
        m = w.pick(op[1])
        w.set_free(m, op[2])
        return 'set free parameters of a ' + m.kind
    if op[0] == 'rename':
        m = w.pick(op[1])
        m.name = w.fresh('renamed')
        m.real.name = m.name
        return 'rename'
    if op[0] == 'toggle':
        m = w.pick(op[1])
        r = W.root(m)
        m.real.update_model(False)
        for o in w.all:
            check(bool(o.real.update_model()) == (W.root(o) is not r), 'after switching updates off at {}, {} reports {}', m.name, o.name, o.real.update_model())
        m.real.update_model(True)
        return 'switch updates off and on'
    if op[0] == 'optimize':
        ms = [m for m in w.all if m.parent is None and isinstance(m.real, RModel)]
        if not ms:
            return ''
        m = ms[op[1] % len(ms)]
        if edgy(m) or np.abs(free_of(m)).max(initial=0.) > 20 or all(m.fix):
            return ''
        n = len(m.real.optimization_runs)
        counts = [(o, len(o.real.optimization_runs)) for o in ms if o is not m]
        o = m.real.optimize(op[2], max_iters=4)
        check(len(m.real.optimization_runs) == n + 1 and m.real.optimization_runs[-1] is o, 'a run was not recorded')
        for other, k in counts:
            check(len(other.real.optimization_runs) == k, 'a run of one model was recorded at another one')
        x = arr(o.x_opt, sum(1 for f in m.fix if not f))
        w.adopt_free(m, x)
        return 'optimize'
    raise ValueError(op)


def twin(w, m, real, what):
    """A model of a copy of the object of m; compares structure, names, shapes; registered in the world."""
    check(type(real) is type(m.real), '{}: a {} became a {}', what, type(m.real).__name__, type(real).__name__)
    check(real is not m.real, '{}: {} is the same object', what, m.name)
    check(real.name == m.name, '{}: {} is called {}', what, m.name, real.name)
    check(real.size == m.size, '{}: {} has the size {} instead of {}', what, m.name, real.size, m.size)
    if m.kind == 'leaf':
        check(tuple(real.shape) == m.shape, '{}: {} has the shape {} instead of {}', what, m.name, real.shape, m.shape)
        check(not np.may_share_memory(np.asarray(real), np.asarray(m.real)), '{}: {} shares its values with the original', what, m.name)
        t = L(m.name, m.shape, m.v)
        t.con, t.fix, t.tags = list(m.con), list(m.fix), list(m.tags)
    else:
        ps = list(real.parameters)
        check(len(ps) == len(m.kids), '{}: {} has {} children instead of {}', what, m.name, len(ps), len(m.kids))
        t = N(m.name)
        for k, p in zip(m.kids, ps):
            c = twin(w, k, p, what)
            c.parent = t
            t.kids.append(c)
    t.real = real
    w.all.append(t)
    if hasattr(m.real, 'handle'):
        check(type(real.X) is type(m.real.X) and np.array_equal(real.X, m.real.X), '{}: the data is {!r}', what, real.X)
        check(not np.may_share_memory(np.asarray(real.X), np.asarray(m.real.X)), '{}: the data is shared', what)
        for a, b in zip(m.objects(), t.objects()):
            if a.real is m.real.handle:
                check(real.handle is b.real, '{}: a handle on {} is no longer one on the child of the copy', what, a.name)
    return t


def everything(w, rec, what):
    w.observe([w.check_structure, w.check_values, w.check_constraints, w.check_fixed, w.check_free])
    for m in w.all:
        if hasattr(m.real, 'handle') and m.parent is None:
            for l in m.leaves()[:3]:
                got = m.real.squares(l.real)
                check(abs(got - np.sum(l.v ** 2)) <= 1e-9 * max(1., abs(got)), '{}: a cached result for {} is {} instead of {}', what, l.name, got, np.sum(l.v ** 2))
        for k in m.kids:
            check(getattr(m.real, k.name, None) is k.real, '{}: {} is not the child of that name of {}', what, k.name, m.name)


def results(m, what):
    """Computed state of a model after a change which was told."""
    if m.parent is None and isinstance(m.real, RModel) and m.size:
        f, g = objective(m.real.kind, m.real.target, m.v)
        check(np.allclose(m.real.objective_function(), f, rtol=1e-9, atol=1e-9), '{}: the objective is {} instead of {}', what, m.real.objective_function(), f)
        check(np.allclose(arr(m.real.gradient, m.size), g, rtol=1e-9, atol=1e-9), '{}: the gradient is {} instead of {}', what, arr(m.real.gradient).tolist(), g.tolist())


class Told(object):
    """Counts what an observer is told."""
    def __init__(self):
        self.n = 0

    def told(self, me, which=None):
        self.n += 1


class Turn(object):
    """Notes when it is told."""
    def __init__(self, kind, real):
        self.kind, self.real = kind, real

    def told(self, me, which=None):
        LOG.append((self.kind, self.real))


def in_order(w, m, k, rec, what):
    """A change of one leaf is told to each object on the way up to the root once: first to its observers, then the object itself, observers of low priority, its parent."""
    leaves = m.leaves()
    if not leaves:
        return
    leaf = leaves[k % len(leaves)]
    names, probes, want = {}, [], []
    o = leaf
    while o is not None:
        names[id(o.real)] = o.name
        for kind, priority in (('early', 0), ('late', -500)):
            t = Turn(kind, o.real)
            o.real.add_observer(t, t.told, priority)
            probes.append((o, t))
        want += [('early', o.name)] + ([('update', o.name)] if o.kind == 'node' else []) + [('late', o.name)]
        o = o.parent
    del LOG[:]
    leaf.real[...] = leaf.v.reshape(leaf.shape)
    got = [(kind if isinstance(kind, str) else 'update', names.get(id(kind if not isinstance(kind, str) else second), 'another object')) for kind, second in LOG]
    del LOG[:]
    for o, t in probes:
        o.real.remove_observer(t)
    check(got == want, '{}: a change of {} is told in the order {} instead of {}', what, leaf.name, got, want)
    rec.label('order of what is told of a change')
