"""P06: constraints and fixes stay with their elements through histories of structural changes."""
from ..core import check

SIZES = {'quick': (8, 450), 'thorough': (8, 8000)}
RULE = ('one or two generated hierarchies (depth up to 4, leaves of every shape up to 3 dimensions, some with default constraints) and a history interleaving constraints and fixes of selections, leaves and nodes '
        'with linking, inserting, moving, unlinking and re-linking; after each step the constraint and fix of every element as seen from every object are compared with a reference; '
        'non-trivial: a structural change while some but not all elements of the changed hierarchy are constrained or fixed')
ASSUMPTIONS = ['an object is not linked below itself']


def con_ops(st, w):
    h = st.integers(0, 30)
    sel = st.one_of(st.none(), w.index_expr(st), w.index_expr(st))
    how = st.sampled_from(['constrain', 'named'])
    return [
        st.tuples(st.just('con'), h, sel, w.keys(st), how),
        st.tuples(st.just('con'), h, sel, w.keys(st), how),
        st.tuples(st.just('fix'), h, sel, st.booleans()),
        st.tuples(st.just('fix'), h, sel, st.booleans()),
        st.tuples(st.just('unfix'), h, sel, st.booleans()),
        st.tuples(st.just('uncon'), h, sel, st.one_of(st.none(), st.lists(w.keys(st), min_size=1, max_size=2)), how),
        st.tuples(st.just('uncon there'), h, sel, st.integers(0, 5), how),
    ]


def struct_ops(st, w, dc=True):
    h = st.integers(0, 30)
    at = st.one_of(st.none(), st.integers(-5, 5))
    return [
        st.tuples(st.just('new'), h, w.tree_spec(st, dc=dc, max_leaves=3), at),
        st.tuples(st.just('link'), h, h, at),
        st.tuples(st.just('relink'), h, h, at),
        st.tuples(st.just('relink'), h, h, at),
        st.tuples(st.just('move'), h, h, st.integers(-5, 5)),
        st.tuples(st.just('unlink'), h),
        st.tuples(st.just('replace'), h, st.integers(0, 5), h),
        st.tuples(st.just('wrong unlink'), h, h),
    ]


def setup_ops(st, w, min_size=2):
    """A first layer of partial constraints and fixes, so that most histories start from a mixed state."""
    h = st.integers(0, 30)
    e = w.index_expr(st)
    how = st.sampled_from(['constrain', 'named'])
    return st.tuples(
        st.lists(st.tuples(st.just('con'), h, st.one_of(st.none(), e), w.keys(st), how).map(list), min_size=min_size, max_size=3),
        st.lists(st.tuples(st.just('fix'), h, e, st.booleans()).map(list), min_size=1, max_size=2)).map(lambda t: t[0] + t[1])


def switch_op(st):
    return st.tuples(st.just('switch'), st.integers(0, 30), st.booleans())


def constraining(w, op):
    """Apply a constraint operation to the world; a label if it was one."""
    if op[0] == 'con':
        m = w.pick(op[1])
        els = w.constrain(m, op[2], op[3], op[4])
        return 'constrain a %s' % kind(m, els)
    if op[0] == 'fix':
        m = w.pick(op[1])
        els = w.fix(m, op[2], alias=op[3])
        return 'fix a %s' % kind(m, els)
    if op[0] == 'unfix':
        m = w.pick(op[1])
        els = w.unfix(m, op[2], alias=op[3])
        return 'unfix a %s' % kind(m, els)
    if op[0] == 'uncon':
        m = w.pick(op[1])
        els = w.unconstrain(m, op[2], op[3], op[4])
        return 'unconstrain a %s' % kind(m, els)
    if op[0] == 'uncon there':
        m = w.pick(op[1])
        there = sorted({c for c in m.con if c is not None}, key=str)
        if not there:
            return ''
        k = there[op[3] % len(there)]
        els = w.unconstrain(m, op[2], [list(k) if isinstance(k, tuple) else k], op[4])
        return 'unconstrain a %s by name' % kind(m, els)
    return None


def kind(m, els):
    return 'part of a leaf' if m.kind == 'leaf' and len(els) < m.size else m.kind


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    c, s = con_ops(st, w), struct_ops(st, w) + [switch_op(st)]
    oc = st.integers(0, len(c) - 1).flatmap(lambda i: c[i]).map(list)
    os_ = st.integers(0, len(s) - 1).flatmap(lambda i: s[i]).map(list)
    op = st.one_of(oc, os_)
    return st.fixed_dictionaries(dict(trees=st.lists(w.node_spec(st, dc=True), min_size=1, max_size=2), ops=st.lists(op, min_size=2, max_size=14), look=st.integers(0, 7)))


def run(case, rec):
    from ..world import World, root
    from .p05 import structural
    w = World()
    for t in case['trees']:
        w.build(t, gradients=False)
    everything(w)
    w.turn, w.sparse = case.get('look', 0), case.get('look', 0) > 4
    for step, op in enumerate(case['ops']):
        mixed = {id(r): partial(r) for r in w.roots()}
        label = structural(w, op)
        if label is None:
            label = constraining(w, op)
        elif label and not label.startswith('refused') and any(mixed.values()):
            rec.mark('structural change with constrained elements')
        if label:
            rec.label(label)
        everything(w, step == len(case['ops']) - 1)


def partial(m):
    marks = [c is not None or f for c, f in zip(m.con, m.fix)]
    return any(marks) and not all(marks)


def everything(w, last=True):
    w.observe([w.check_structure, w.check_constraints, w.check_fixed], last)
