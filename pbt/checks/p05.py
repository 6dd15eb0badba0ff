"""P05: shared memory of values and gradients over histories of building, linking, unlinking and assigning."""
import numpy as np
from ..core import check

SIZES = {'quick': (8, 500), 'thorough': (8, 9000)}
RULE = ('one or two generated hierarchies (depth up to 4, leaves of every shape up to 3 dimensions) and a history of linking new, detached and foreign objects at any position, moving, unlinking, refused '
        'operations and writes of values and gradients through nodes and leaves, compared after each step at every object; non-trivial: a write after a structural change')
ASSUMPTIONS = ['an object is not linked below itself', 'leaves have at least one element']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    h = st.integers(0, 30)
    at = st.one_of(st.none(), st.integers(-5, 5))
    vals = st.lists(st.integers(-40, 40).map(lambda k: k / 4.), min_size=1, max_size=4)
    ops = [
        st.tuples(st.just('new'), h, w.tree_spec(st, max_leaves=3), at),
        st.tuples(st.just('link'), h, h, at),
        st.tuples(st.just('relink'), h, h, at),
        st.tuples(st.just('move'), h, h, st.integers(-5, 5)),
        st.tuples(st.just('unlink'), h),
        st.tuples(st.just('replace'), h, st.integers(0, 5), st.integers(0, 30)),
        st.tuples(st.just('wrong unlink'), h, h),
        st.tuples(st.just('switch'), h, st.booleans()),
        st.tuples(st.just('set'), h, w.index_expr(st), vals),
        st.tuples(st.just('set'), h, st.none(), vals),
        st.tuples(st.just('inplace'), h, vals),
        st.tuples(st.just('grad'), h, vals, st.integers(0, 2)),
    ]
    op = st.integers(0, len(ops) - 1).flatmap(lambda i: ops[i]).map(list)
    return st.fixed_dictionaries(dict(trees=st.lists(w.node_spec(st), min_size=1, max_size=2), ops=st.lists(op, min_size=2, max_size=14), look=st.integers(0, 7)))


def run(case, rec):
    from ..world import World, locate, root
    w = World()
    for t in case['trees']:
        w.build(t)
    if case.get('look', 0) not in (5, 6):
        everything(w)
    w.turn, w.sparse = case.get('look', 0), case.get('look', 0) > 4
    changed = False
    for step, op in enumerate(case['ops']):
        label = structural(w, op)
        if label is not None:
            rec.label(label)
            if label and not label.startswith('refused'):
                changed = True
        elif op[0] == 'set':
            m = w.pick(op[1])
            if w.assign(m, op[2] if m.kind == 'leaf' else None, op[3]):
                if changed:
                    rec.mark('write after a structural change')
        elif op[0] == 'inplace':
            m = w.pick(op[1], nonempty=True)
            if m is None:
                continue
            x = np.array([op[2][i % len(op[2])] for i in range(m.size)])
            if m.kind == 'leaf':
                m.real.values[...] = x.reshape(m.shape)
            else:
                m.real.param_array[:] = x
            from ..world import set_flat
            set_flat(m, x)
            rec.label('write to the values of a ' + m.kind)
            if changed:
                rec.nontrivial = True
        elif op[0] == 'grad':
            m = w.pick(op[1], nonempty=True)
            if m is None:
                continue
            x = np.array([op[2][i % len(op[2])] + i for i in range(m.size)])
            if m.kind == 'leaf':
                x = x.reshape(m.shape)
            if op[3] == 0:
                m.real.gradient = x
            elif op[3] == 1:
                m.real.gradient[...] = x
            else:
                m.real.gradient_full[...] = x
            i = 0
            for l in m.leaves():
                l.g = x.ravel()[i:i + l.size].copy()
                i += l.size
            rec.label('write to the gradient of a ' + m.kind)
        everything(w, step == len(case['ops']) - 1)


def structural(w, op):
    from ..world import ancestors, root
    """Apply a structural operation; a label if it was one ('' if it did not apply)."""
    if op[0] == 'new':
        p = w.pick(op[1], 'node')
        c = w.build(op[2])
        return (w.link(p, c, clip(op[3], p)) or '') + ' (new %s)' % c.kind
    if op[0] in ('link', 'relink', 'move'):
        p = w.pick(op[1], 'node')
        if op[0] == 'move':
            c = p.kids[op[2] % len(p.kids)] if p.kids else None
        elif op[0] == 'relink':
            # something detached or of another hierarchy
            from .. import world
            c = w.pick(op[2], cond=lambda m: m is not world.root(p) and world.root(m) is not world.root(p))
        else:
            c = w.pick(op[2])
        if c is None:
            return ''
        return w.link(p, c, clip(op[3], p)) or ''
    if op[0] == 'unlink':
        c = w.pick(op[1], cond=lambda m: m.parent is not None)
        return w.unlink(c.parent, c) if c is not None else ''
    if op[0] == 'replace':
        # another object takes the place of a child, nothing looks in between
        c = w.pick(op[1], cond=lambda m: m.parent is not None)
        if c is None:
            return ''
        p, at = c.parent, c.parent.kids.index(c)
        w.unlink(p, c)
        if op[2] == 0:
            return w.link(p, c, at) or ''
        if op[2] == 1:
            r = w.pick(op[3], cond=lambda m: m.parent is None and m is not c and m.size == c.size and m not in ancestors(p) and m is not p)
        elif op[2] == 2:
            r = w.pick(op[3], 'node', cond=lambda m: m is not p and root(m) is not root(c))
            if r is not None:
                w.link(p, w.build(['p', list(c.shape) if c.kind == 'leaf' else [c.size], 1, None] if c.size else ['n', [], 0], gradients=True), at)
                return w.link(r, c, None) or ''
        else:
            r = None
        if r is None:
            r = w.build(['p', list(c.shape) if c.kind == 'leaf' else [max(c.size, 1)], op[3], None], gradients=True)
        w.link(p, r, at)
        if op[2] == 5 and c.kind == 'leaf':
            # and back
            w.unlink(p, r)
            w.link(p, c, at)
        return 'replace'
    if op[0] == 'switch':
        w.pick(op[1]).real.update_model(op[2])
        return ''
    if op[0] == 'wrong unlink':
        p, c = w.pick(op[1], 'node'), w.pick(op[2])
        if c is p or c.parent is p:
            return ''
        return w.unlink(p, c)
    return None


def clip(index, parent):
    """Positions as for list.insert, up to one beyond either end."""
    if index is None:
        return None
    n = len(parent.kids)
    return max(-n - 1, min(n + 1, index))


def everything(w, last=True):
    w.observe([w.check_structure, lambda: w.check_values(gradients=True)], last)
