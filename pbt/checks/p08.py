"""P08: fixed elements never move and constrained ones stay in their domain, at every evaluation."""
import numpy as np
from ..core import check, arr, Violation

SIZES = {'quick': (8, 600), 'thorough': (8, 4500)}
RULE = ('a generated model (tree of parameters, four kinds of objective) with generated partial constraints and fixes and a history of free-space assignments, randomizing (default, normal, uniform and own generators), '
        'optimizing with every available optimizer, restarts, and further constraining and fixing, invoked on the model, inner nodes and leaves; the values are examined at every single evaluation of the objective and after each '
        'operation; non-trivial: an optimizer or restarts ran on a model with a fixed and a free constrained element, or an operation on a sub-object with both')
ASSUMPTIONS = ['values respect their constraints when the operation starts', 'optimization starts at finite free numbers', 'climin is not installed, its three optimizers are not run']

OPT = ['scg', 'fmin_tnc', 'simplex', 'lbfgsb', 'org-bfgs', None]


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import con_ops, setup_ops
    h = st.integers(0, 30)
    vals = st.lists(st.integers(-40, 40).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    gen = st.one_of(st.just(['default']), st.tuples(st.just('default'), st.integers(-8, 8), st.integers(1, 12)).map(list), st.tuples(st.just('uniform'), st.integers(-60, 0), st.integers(1, 60)).map(list),
                    st.tuples(st.just('normal'), st.integers(-3, 3), st.integers(0, 40)).map(list), st.tuples(st.just('own'), vals, st.sampled_from([1., 1., 50., 2000.])).map(list))
    iters = st.sampled_from([3, 10, 25])
    c = con_ops(st, w)
    main = [
        st.tuples(st.just('free'), h, vals, st.sampled_from([1., 5., 40., 800.])),
        st.tuples(st.just('rand'), h, gen),
        st.tuples(st.just('rand'), h, gen),
        st.tuples(st.just('opt'), st.sampled_from(OPT), iters),
        st.tuples(st.just('opt'), st.sampled_from(OPT), iters),
        st.tuples(st.just('start'), st.sampled_from(OPT), iters, vals),
        st.tuples(st.just('restarts'), st.sampled_from(OPT), st.sampled_from([2, 5]), st.integers(1, 3)),
        st.tuples(st.just('set'), h, st.one_of(st.none(), w.index_expr(st)), vals),
    ]
    oc = st.integers(0, len(c) - 1).flatmap(lambda i: c[i]).map(list)
    om = st.integers(0, len(main) - 1).flatmap(lambda i: main[i]).map(list)
    return st.fixed_dictionaries(dict(tree=w.node_spec(st, dc=True, max_leaves=5), kind=st.sampled_from(['quad', 'coupled', 'cosh', 'waves']),
                                      setup=st.one_of(setup_ops(st, w), setup_ops(st, w), st.just([])), ops=st.lists(st.one_of(om, om, om, oc), min_size=1, max_size=6)))


def run(case, rec):
    from ..world import World, RModel, LOG, set_flat, ref, edgy
    from .p06 import constraining
    w = World()
    top = w.build(case['tree'], top=lambda name, kids: RModel(name, kids, case['kind']), gradients=False)
    for op in case['setup']:
        constraining(w, op)
    model = top.real
    for op in case['ops']:
        label = constraining(w, op)
        if label is not None:
            if label:
                rec.label(label)
            continue
        del LOG[:]
        fixed, before = np.array(top.fix, bool), top.v.copy()
        cons = top.con
        mixed = fixed.any() and any(c is not None and not f for c, f in zip(cons, fixed))
        target = top
        what = op[0]
        if what in ('opt', 'start', 'restarts') and edgy(top):
            rec.label('skipped: a value at the edge of its domain')
            continue
        if what == 'set':
            m = w.pick(op[1])
            w.assign(m, op[2] if m.kind == 'leaf' else None, op[3])
            continue
        if what == 'free':
            target = m = w.pick(op[1])
            x = w.set_free(m, op[2], op[3])
            label = 'free assignment to a ' + m.kind
        elif what == 'rand':
            target = m = w.pick(op[1])
            drawn = []
            n = sum(1 for f in m.fix if not f)
            if len(op[2]) == 1:
                np.random.seed(7)
                x = np.random.normal(size=n)
                np.random.seed(7)
                m.real.randomize()
            elif op[2][0] == 'default':
                np.random.seed(7)
                x = np.random.normal(op[2][1] / 2., op[2][2] / 4., size=n)
                np.random.seed(7)
                m.real.randomize(loc=op[2][1] / 2., scale=op[2][2] / 4.)
            elif op[2][0] == 'uniform':
                np.random.seed(7)
                x = np.random.uniform(op[2][1], op[2][2], size=n)
                np.random.seed(7)
                m.real.randomize(np.random.uniform, op[2][1], op[2][2])
            elif op[2][0] == 'normal':
                np.random.seed(7)
                x = np.random.normal(op[2][1], op[2][2], size=n)
                np.random.seed(7)
                m.real.randomize(np.random.normal, op[2][1], scale=op[2][2])
            else:
                x = np.array([op[2][1][i % len(op[2][1])] + 0.25 * i for i in range(n)], float) * (op[2][2] if len(op[2]) > 2 else 1.)
                m.real.randomize(lambda size: x[:size].copy())
            w.adopt_free(m, x)
            label = 'randomize a ' + m.kind
        elif what in ('opt', 'start'):
            kw = {}
            if what == 'start':
                n = int((~fixed).sum())
                kw['start'] = np.array([op[3][i % len(op[3])] / 4. for i in range(n)], float)
            model.optimize(op[1], max_iters=op[2], **kw)
            label = 'optimize with %s' % op[1] if (~fixed).any() else 'nothing to optimize'
        elif what == 'restarts':
            model.optimize_restarts(op[3], verbose=False, optimizer=op[1], max_iters=op[2])
            label = 'restarts with %s' % op[1]
        rec.label(label)
        if mixed and (what in ('opt', 'start', 'restarts')):
            rec.mark('optimization with fixed and free constrained elements')
        if target is not top and any(target.fix) and any(c is not None and not f for c, f in zip(target.con, target.fix)):
            rec.mark('sub-object with fixed and free constrained elements')
        # every evaluation
        seen = 0
        for o, v in LOG:
            if o is model:
                seen += 1
                examine(v, before, fixed, cons, 'during ' + label)
        got = arr(model.param_array, top.size, 'values of the model')
        examine(got, before, fixed, cons, 'after ' + label)
        if what in ('opt', 'start', 'restarts') and (~fixed).any():
            check(seen > 0, '{}: the model was never evaluated', label)
        if what in ('free', 'rand'):
            # nothing outside of the object moved
            w.check_values()
        else:
            set_flat(top, got)
            w.check_values()
        w.check_constraints([top])


def examine(v, before, fixed, cons, when):
    from ..world import ref
    if v.size != before.size:
        raise Violation('%s: %d values instead of %d' % (when, v.size, before.size))
    moved = fixed & ~((v == before) | (np.isnan(v) & np.isnan(before)))
    check(not moved.any(), '{}: fixed elements {} moved from {} to {}', when, np.nonzero(moved)[0].tolist(), before[moved].tolist(), v[moved].tolist())
    for i, c in enumerate(cons):
        if c is not None and not fixed[i]:
            check(bool(ref.inside(c, v[i])), '{}: element {} under {} has the value {}', when, i, c, v[i])
