"""P07: constraining, fixing and releasing selections of elements."""
import numpy as np
from ..core import check

SIZES = {'quick': (8, 750), 'thorough': (8, 9000)}
RULE = ('a generated hierarchy and a history of constraining (positive, negative, bounded, any transformation), fixing (with and without a value), unfixing and releasing (all or named) of nodes, leaves and '
        'selections by integers, slices with steps, lists, masks and ellipses, interleaved with assignments; after each step the value, constraint and fix of every element are compared with a reference; '
        'non-trivial: a selection of some but not all elements of a leaf which changes a constraint, fix or value')
ASSUMPTIONS = ['a single element of a one-dimensional parameter is selected by a slice (an integer gives a plain number)', 'parameters are indexed once']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    h = st.integers(0, 30)
    e = w.index_expr(st)
    sel = st.one_of(st.none(), e, e, e)
    leaf = st.booleans()
    how = st.sampled_from(['constrain', 'named'])
    vals = st.lists(st.integers(-40, 40).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    # bounds which contain each other or overlap
    nested = st.sampled_from([['logistic', 0., 1.], ['logistic', 0., 2.], ['logistic', 0.25, 0.75], ['logistic', -1., 1.]])
    ops = [
        st.tuples(st.just('con'), h, sel, w.keys(st), how, leaf),
        st.tuples(st.just('con'), h, sel, w.keys(st), how, leaf),
        st.tuples(st.just('con'), h, sel, w.keys(st), how, leaf),
        st.tuples(st.just('fix'), h, sel, st.booleans(), leaf),
        st.tuples(st.just('fix'), h, sel, st.booleans(), leaf),
        st.tuples(st.just('fix by constrain'), h, sel, st.booleans(), leaf),
        st.tuples(st.just('fixto'), h, sel, st.booleans(), leaf, st.integers(-40, 40)),
        st.tuples(st.just('unfix'), h, sel, st.booleans(), leaf),
        st.tuples(st.just('uncon'), h, sel, st.one_of(st.none(), st.lists(w.keys(st), min_size=1, max_size=3)), how, leaf),
        st.tuples(st.just('con'), h, sel, nested, how, leaf),
        st.tuples(st.just('uncon'), h, sel, nested.map(lambda k: [k]), st.just('named'), leaf),
        st.tuples(st.just('there'), h, sel, st.lists(st.integers(0, 5), min_size=1, max_size=2), how, leaf),
        st.tuples(st.just('set'), h, sel, vals),
        st.tuples(st.just('raw'), h, vals),
    ]
    op = st.integers(0, len(ops) - 1).flatmap(lambda i: ops[i]).map(list)
    return st.fixed_dictionaries(dict(tree=st.one_of(w.node_spec(st, dc=True, max_leaves=5), w.leaf_spec(st, dc=True)), ops=st.lists(op, min_size=1, max_size=10), look=st.integers(0, 7)))


def run(case, rec):
    from ..world import World, decode, kind_of_index, set_flat, locate, ref
    w = World()
    w.build(case['tree'], gradients=False)
    everything(w)
    w.turn, w.sparse = case.get('look', 0), case.get('look', 0) > 4
    for step, op in enumerate(case['ops']):
        what, els = op[0], []
        m = w.pick(op[1], 'leaf' if what in ('con', 'fix', 'fix by constrain', 'fixto', 'unfix', 'uncon', 'there') and op[-1] is True else None)
        if m is None:
            continue
        before = snapshot(m)
        sel = op[2] if m.kind == 'leaf' and what != 'raw' else None
        if what == 'con':
            els = w.constrain(m, sel, op[3], op[4])
        elif what == 'fix':
            els = w.fix(m, sel, alias=op[3])
        elif what == 'fix by constrain':
            # the name of the fixing constraint given to constrain
            from paramz.transformations import __fixed__
            hnd, els = w.target(m, sel)
            hnd.constrain(__fixed__, warning=False)
            for k in els:
                l, e = locate(m, k)
                l.fix[e] = True
        elif what == 'fixto':
            if len({m.con[k] for k in range(m.size)}) > 1:
                continue
            key = m.con[0] if m.size else None
            v = (op[-1] / 4. + 0.0625) if key is None else ref_fit(op[-1] / 4. + 0.0625, key)
            els = w.fix(m, sel, value=v, alias=op[3])
        elif what == 'unfix':
            els = w.unfix(m, sel, alias=op[3])
        elif what == 'uncon':
            els = w.unconstrain(m, sel, op[3], op[4])
        elif what == 'there':
            there = sorted({c for c in m.con if c is not None}, key=str)
            if not there:
                continue
            ks = [there[i % len(there)] for i in op[3]]
            els = w.unconstrain(m, sel, [list(k) if isinstance(k, tuple) else k for k in dict.fromkeys(ks)], op[4])
        elif what == 'set':
            els = w.assign(m, sel, op[3])
        elif what == 'raw':
            # values written without regard to constraints: only for unconstrained elements
            if m.size == 0 or any(c is not None for c in m.con):
                continue
            x = np.array([op[2][i % len(op[2])] for i in range(m.size)])
            m.real[:] = x.reshape(m.shape) if m.kind == 'leaf' else x
            set_flat(m, x)
        if m.kind == 'leaf' and sel is not None and what != 'set':
            hnd, at = w.target(m, sel)
            if at:
                check(bool(hnd.is_fixed) == all(m.fix[k] for k in at), 'is_fixed of the elements {} of {} is {}, fixed are {}', at, m.name, hnd.is_fixed, [k for k in range(m.size) if m.fix[k]])
        if m.kind == 'leaf' and m.size > 1:
            number = np.arange(m.size).reshape(m.shape)
            for s in (slice(None), slice(1, None), slice(None, -1), slice(None, None, 2)):
                at = [int(k) for k in number[s].ravel()]
                if at:
                    check(bool(m.real[s].is_fixed) == all(m.fix[k] for k in at), 'is_fixed of {}[{}] is {}, fixed are {}', m.name, s, m.real[s].is_fixed, [k for k in range(m.size) if m.fix[k]])
        rec.label(what + ' ' + (m.kind if len(els) == m.size else 'part' if els else 'nothing'))
        if what not in ('set', 'raw') and m.kind == 'leaf' and 0 < len(set(els)) < m.size and snapshot(m) != before:
            rec.mark('part of a leaf changed')
            rec.label(*['by ' + k for k in kind_of_index(decode(sel, m.shape, keep_array=True))])
        everything(w, step == len(case['ops']) - 1)


def ref_fit(raw, key):
    from ..world import fit
    return fit(raw, list(key) if isinstance(key, tuple) else key)


def snapshot(m):
    return [list(m.v), list(m.con), list(m.fix)]


def everything(w, last=True):
    w.observe([w.check_values, w.check_constraints, w.check_fixed, w.check_free], last)
