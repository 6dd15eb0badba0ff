"""P23: reading and assigning by index, attribute and name against plain numpy arrays."""
import re
import numpy as np
from ..core import check, arr

SIZES = {'quick': (8, 600), 'thorough': (8, 12000)}
RULE = ('a generated hierarchy (depth up to 4, leaves of every shape up to 3 dimensions, names which are prefixes of each other or need adjusting; a plain one or a model) with partial constraints and fixes, and a history of reads and '
        'assignments on leaves and nodes by integers, slices with any step, ellipses, lists, index arrays of two dimensions, masks of one or all dimensions and their mixtures, by attribute, by name and by regular expression; values are numbers, '
        'lists, arrays and parameters which are broadcast, of any sign, zero, very large, infinite and nan; refused assignments (too many values or none); after each step every element of every object, its constraint and fix; '
        'non-trivial: an assignment which writes some but not all elements of a hierarchy which has constrained or fixed elements')
ASSUMPTIONS = ['nodes are indexed by integers, slices, tuples and arrays', 'an attribute or name which is no child of a node is not assigned']
NAMES = ['a', 'a1', 'ab', 'a 2', 'b', 'b.a', 'ba', 'kern', 'c-d', 'variance', 'a_1', 'x']
VALUES = [0., 1., -1., 2.5, -3.25, 1e-300, -1e300, 7., 0.125, float('inf'), float('nan'), 12., -0.75]


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import setup_ops
    h = st.integers(0, 40)
    e = st.one_of(w.index_expr(st), w.index_expr(st), w.index_expr(st), w.index_expr(st), st.none(),
                  st.tuples(st.just('f'), st.lists(st.integers(-4, 3), min_size=4, max_size=4)).map(list),
                  st.tuples(st.just('mm'), st.lists(st.booleans(), min_size=1, max_size=6)).map(list))
    lim = st.one_of(st.none(), st.integers(-9, 9))
    flat = st.one_of(
        st.tuples(st.just('s'), lim, lim, st.sampled_from([None, None, 1, 2, 3, -1, -2])).map(list),
        st.tuples(st.just('i'), st.integers(-20, 20)).map(list),
        st.tuples(st.just('a'), st.lists(st.integers(-20, 20), min_size=1, max_size=5)).map(list),
        st.tuples(st.just('t'), lim, lim).map(list),
        st.tuples(st.just('m'), st.lists(st.booleans(), min_size=1, max_size=7)).map(list))
    val = st.tuples(st.integers(0, 7), st.lists(st.integers(0, len(VALUES) - 1), min_size=1, max_size=5)).map(list)
    rx = st.one_of(st.sampled_from(['a', 'b', 'a1', 'a.*', '.*a', 'k', 'kern', 'variance', '.*', '.*b_a', r'.*\.a', 'x$', '(a|b)$', 'c_m_d', 'a_']), h.map(lambda k: k))
    ops = [
        st.tuples(st.just('set'), h, e, val), st.tuples(st.just('set'), h, e, val), st.tuples(st.just('set'), h, e, val),
        st.tuples(st.just('get'), h, e), st.tuples(st.just('get'), h, e),
        st.tuples(st.just('set node'), h, flat, val), st.tuples(st.just('set node'), h, flat, val),
        st.tuples(st.just('get node'), h, flat),
        st.tuples(st.just('attr'), h, val), st.tuples(st.just('attr'), h, val),
        st.tuples(st.just('name'), h, rx, val), st.tuples(st.just('name'), h, rx, val),
        st.tuples(st.just('refused'), h, st.integers(0, 3)),
        st.tuples(st.just('fix'), h, st.one_of(st.none(), w.index_expr(st))),
    ]
    op = st.integers(0, len(ops) - 1).flatmap(lambda i: ops[i]).map(list)
    return st.fixed_dictionaries(dict(tree=st.one_of(w.node_spec(st, dc=True, max_leaves=6), w.node_spec(st, dc=True, max_leaves=6), w.leaf_spec(st, True)), model=st.booleans(),
                                      setup=st.one_of(setup_ops(st, w), setup_ops(st, w), st.just([])), ops=st.lists(op, min_size=2, max_size=12)))


def decode(e, shape):
    from ..world import decode as base
    if e is None:
        return slice(None)
    if e[0] == 'f':
        return np.array([k % shape[0] if k >= 0 else -((-k - 1) % shape[0]) - 1 for k in e[1]]).reshape(2, 2)
    if e[0] == 'mm':
        # a mask over the first dimensions
        s = shape[:2]
        return np.array([e[1][k % len(e[1])] for k in range(int(np.prod(s)))], bool).reshape(s)
    ix = base(e, shape)
    return slice(None) if ix is None else ix


def flat_index(e, n):
    if e[0] == 's':
        return slice(e[1], e[2], e[3])
    if e[0] == 't':
        return (slice(e[1], e[2]),)
    if e[0] == 'i':
        return e[1] % n if e[1] >= 0 else -((-e[1] - 1) % n) - 1
    if e[0] == 'a':
        return np.array([k % n if k >= 0 else -((-k - 1) % n) - 1 for k in e[1]])
    return np.array([e[1][k % len(e[1])] for k in range(n)], bool)


def value(v, shape):
    """Something which can be broadcast to a shape."""
    from paramz import Param
    kind, raw = v
    n = int(np.prod(shape))
    x = [VALUES[raw[i % len(raw)]] + (0. if not np.isfinite(VALUES[raw[i % len(raw)]]) else i * 0.5 * (len(raw) > 1)) for i in range(max(n, 1))]
    if kind == 0 or shape == ():
        return x[0], 'a number'
    if kind == 1:
        return (3 if not np.isfinite(x[0]) or abs(x[0]) > 1e6 else int(x[0])), 'an integer'
    if kind == 2:
        return np.array([x[0]]), 'one element'
    full = np.array(x[:n], float).reshape(shape)
    if kind == 3 and len(shape) > 1 and shape[0]:
        return full[0], 'a row'
    if kind == 4 and len(shape) > 1 and shape[-1]:
        return full[..., :1], 'a column'
    if kind == 5 and n:
        return full.tolist(), 'a list'
    if kind == 6 and n:
        return Param('other', full.copy()), 'a parameter'
    return full, 'an array'


def path(m):
    from .p20 import printable
    out = []
    while m.parent is not None:
        out.append(printable(m.name))
        m = m.parent
    return '.'.join(reversed(out))


def run(case, rec):
    from ..world import World, RModel, root, set_flat
    from .p06 import constraining, partial
    from .p20 import printable
    w = World()
    made = [0]

    def fresh(prefix):
        # distinct names; all of them differ in their printable form
        made[0] += 1
        k, c = divmod(made[0] - 1, len(NAMES))
        return NAMES[c] + ('' if k == 0 else 'q%d' % k)
    w.fresh = fresh
    if case['tree'][0] == 'n' and case['model']:
        top = w.build(case['tree'], top=lambda name, kids: RModel(name, kids, 'quad'), gradients=False)
    else:
        top = w.build(case['tree'])
    for op in case['setup']:
        constraining(w, op)
    everything(w, 'building')
    for op in case['ops']:
        what = op[0]
        if what in ('set', 'get'):
            m = w.pick(op[1], 'leaf')
            if m is None:
                continue
            ix = decode(op[2], m.shape)
            a = m.v.reshape(m.shape)
            sel = a[ix]
            if what == 'get':
                got = m.real[ix]
                check(np.shape(got) == np.shape(sel), '{}[{}] has the shape {} instead of {}', m.name, ix, np.shape(got), np.shape(sel))
                check(np.array_equal(arr(got), np.ravel(sel), equal_nan=True), '{}[{}] is {} instead of {}', m.name, ix, arr(got).tolist(), np.ravel(sel).tolist())
                if not case['model'] and hasattr(got, 'gradient') and got.ndim:
                    check(np.array_equal(arr(got.gradient), m.g.reshape(m.shape)[ix].ravel()), 'the gradient of {}[{}] is {}', m.name, ix, arr(got.gradient).tolist())
                rec.label('read from a leaf')
                continue
            val, how = value(op[3], np.shape(sel))
            b = a.copy()
            b[ix] = np.asarray(val) if how == 'a parameter' else val
            m.real[ix] = val
            mixed = partial(root(m))
            n = np.size(np.unique(np.arange(m.size).reshape(m.shape)[ix]))
            m.v = b.ravel()
            rec.label('assign %s' % how, *['by ' + k for k in kinds(op[2], ix)])
            if mixed and 0 < n < root(m).size:
                rec.mark('part of a constrained hierarchy')
        elif what in ('set node', 'get node'):
            m = w.pick(op[1], 'node', nonempty=True)
            if m is None:
                continue
            v = m.v
            ix = flat_index(op[2], m.size)
            if what == 'get node':
                got = m.real[ix]
                check(np.array_equal(arr(got), np.ravel(v[ix]), equal_nan=True) and np.shape(got) == np.shape(v[ix]), '{}[{}] is {} instead of {}', m.name, ix, got, v[ix])
                rec.label('read from a node')
                continue
            val, how = value(op[3], np.shape(v[ix]))
            mixed = partial(root(m))
            v = v.copy()
            v[ix] = np.asarray(val) if how == 'a parameter' else val
            m.real[ix] = val
            set_flat(m, v)
            rec.label('assign %s to a node by %s' % (how, op[2][0]))
            if mixed and 0 < np.size(np.arange(m.size)[ix]) < root(m).size:
                rec.mark('part of a constrained hierarchy')
        elif what == 'attr':
            m = w.pick(op[1], cond=lambda m: m.parent is not None and m.size)
            if m is None:
                continue
            shape = m.shape if m.kind == 'leaf' else (m.size,)
            val, how = value(op[2], shape)
            b = m.v.reshape(shape).copy()
            b[:] = np.asarray(val) if how == 'a parameter' else val
            setattr(m.parent.real, printable(m.name), val)
            check(getattr(m.parent.real, printable(m.name)) is m.real, 'assigning to the attribute {} replaced the child', m.name)
            mixed = partial(root(m))
            set_flat(m, b.ravel())
            rec.label('assign %s by attribute to a %s' % (how, m.kind))
            if mixed and m.size < root(m).size:
                rec.mark('part of a constrained hierarchy')
        elif what == 'name':
            r = w.pick(op[1], 'node', cond=lambda m: m.parent is None)
            if r is None:
                continue
            if isinstance(op[2], int):
                below = r.objects()[1:]
                if not below:
                    continue
                rx = '^' + re.escape(path(below[op[2] % len(below)])) + '$'
            else:
                rx = op[2]
            found = [m for m in r.objects()[1:] if re.match(rx, path(m))]
            if not found:
                before = r.v
                for f in (lambda: r.real[rx], lambda: r.real.__setitem__(rx, 1.)):
                    try:
                        f()
                    except AttributeError:
                        continue
                    check(False, 'the name {!r}, which fits nothing, was accepted', rx)
                rec.label('a name which fits nothing')
                continue
            leaves = []
            for m in found:
                for l in m.leaves():
                    if not any(l is x for x in leaves):
                        leaves.append(l)
            n = sum(l.size for l in leaves)
            if not n:
                continue
            if len(found) == 1 and found[0].kind == 'leaf':
                shape = found[0].shape
            else:
                shape = (n,)
            val, how = value(op[3], shape)
            if isinstance(val, list):
                val = np.array(val)
            b = np.concatenate([l.v for l in leaves]).reshape(shape)
            b[:] = np.asarray(val) if how == 'a parameter' else val
            mixed = partial(r)
            r.real[rx] = val
            b, i = b.ravel(), 0
            for l in leaves:
                l.v = b[i:i + l.size].copy()
                i += l.size
            rec.label('assign %s by a name which fits %s' % (how, 'one ' + found[0].kind if len(found) == 1 else 'several'))
            if mixed and n < r.size:
                rec.mark('part of a constrained hierarchy')
        elif what == 'refused':
            m = w.pick(op[1], nonempty=True)
            if m is None:
                continue
            bad = np.arange(float(m.size + 1 + op[2])) if m.size > 1 else np.arange(2.)
            if op[2] == 3:
                # no values at all
                bad = np.array([])
            if m.kind == 'leaf':
                bad = bad.reshape((1,) * (len(m.shape) - 1) + (-1,)) if len(m.shape) > 1 else bad
                try:
                    m.v.reshape(m.shape).copy()[:] = bad
                    continue
                except ValueError:
                    pass
            try:
                m.real[:] = bad
            except ValueError:
                pass
            else:
                check(False, 'assigning {} values to the {} elements of {} was accepted', bad.size, m.size, m.name)
            rec.label('refused assignment')
        elif what == 'fix':
            m = w.pick(op[1])
            w.fix(m, op[2])
        everything(w, what)


def kinds(e, ix):
    from ..world import kind_of_index
    return ['2-d index array'] if e is not None and e[0] == 'f' else ['mask over first dimensions'] if e is not None and e[0] == 'mm' else kind_of_index(ix)


def everything(w, what):
    w.check_values()
    w.check_constraints()
    w.check_fixed()
