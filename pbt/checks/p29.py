"""P29: parameters and observable arrays are made from anything like an array and compute like plain arrays."""
import numpy as np
from ..core import check, arr

SIZES = {'quick': (8, 700), 'thorough': (8, 14000)}
RULE = ('parameters and observable arrays made from generated sources (numbers, lists, tuples, arrays of integers, booleans and of other float types and byte orders, in C and Fortran order, strided, reversed, read-only; other parameters, '
        'parts of them and observable arrays) and a history of linking, constraining, observing, assigning (also through the source), wrapping again, and computing: operators with the parameter on either side, comparisons, universal '
        'functions, reductions, products, joining, of whole ones and parts of them with numbers, arrays and each other; results against numpy on plain arrays; after each step values, names, places, constraints, observers told and updates of '
        'everything; non-trivial: a computation with something linked or observed, or something made of another parameter or observable array')
ASSUMPTIONS = ['functions which only rearrange elements (transpose, reshape, sort, diagonal, repeat, ...) are left out: numpy gives views or copies of the same type there',
               'an array of floats in C order which can be written is used as it is until the parameter is linked (documented), all other sources are copied; arrays which look at the memory of a parameter are not used after it is linked', 'sources are numbers which a float can hold']
FORMS = ['array', 'list', 'tuple', 'int', 'bool', 'float32', 'fortran', 'strided', 'reversed', 'readonly', 'bigendian', 'longdouble', 'object', 'matrix', 'number', 'zero-d', 'int8', 'rows']
SHAPES = [[3], [2, 2], [1], [2, 3], [4], [3, 3], [2, 1, 2], [5], [3, 1]]
BINARY = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b, '**': lambda a, b: a ** b,
    '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
    'divmod': divmod, 'maximum': np.maximum, 'fmin': np.fmin, 'hypot': np.hypot, 'arctan2': np.arctan2, 'logaddexp': np.logaddexp, 'isclose': np.isclose, 'logical_and': np.logical_and, 'copysign': np.copysign,
    'where': lambda a, b: np.where(np.asarray(a) > 0, a, b), 'where of': lambda a, b: np.where(a > b, a, b), 'multiply.outer': np.multiply.outer, 'np.add': lambda a, b: np.add(a, b), 'np.power': lambda a, b: np.power(a, b),
    'allclose': lambda a, b: np.allclose(a, b), 'array_equal': lambda a, b: np.array_equal(a, b), 'np.outer': np.outer, 'np.inner': np.inner, 'np.dot': lambda a, b: np.dot(a, b), '@': lambda a, b: a @ b, 'vdot': np.vdot,
    'tensordot': lambda a, b: np.tensordot(a, b, 1), 'kron': np.kron, 'concatenate': lambda a, b: np.concatenate([a, b]), 'hstack': lambda a, b: np.hstack([a, b]), 'vstack': lambda a, b: np.vstack([a, b]), 'stack': lambda a, b: np.stack([a, b]),
    'append': np.append, 'einsum': lambda a, b: np.einsum('...i,...i->...', a, b), 'matmul': np.matmul, 'interp': lambda a, b: np.interp(0.3, np.arange(np.size(a)), np.ravel(np.asarray(a))),
}
UNARY = {
    'neg': lambda a: -a, 'pos': lambda a: +a, 'abs': abs, 'exp': np.exp, 'log': np.log, 'sqrt': np.sqrt, 'sin': np.sin, 'tanh': np.tanh, 'square': np.square, 'floor': np.floor, 'sign': np.sign, 'isnan': np.isnan, 'isfinite': np.isfinite,
    'modf': np.modf, 'sum': lambda a: a.sum(), 'sum 0': lambda a: a.sum(0), 'sum -1': lambda a: a.sum(-1), 'np.sum': np.sum, 'np.sum keep': lambda a: np.sum(a, axis=0, keepdims=True), 'mean': lambda a: a.mean(), 'mean 0': lambda a: a.mean(axis=0),
    'std': lambda a: a.std(), 'std 0': lambda a: np.std(a, 0), 'var': lambda a: np.var(a), 'min': lambda a: a.min(), 'max 0': lambda a: a.max(0), 'np.max': lambda a: np.max(a), 'prod': lambda a: a.prod(), 'np.prod 0': lambda a: np.prod(a, 0),
    'all': lambda a: a.all(), 'any 0': lambda a: np.any(a, 0), 'cumsum': lambda a: np.cumsum(a), 'cumprod 0': lambda a: np.cumprod(a, 0), 'argmax': lambda a: int(a.argmax()), 'argmin': lambda a: int(np.argmin(a)), 'nonzero': lambda a: [x.tolist() for x in a.nonzero()],
    'ptp': lambda a: np.ptp(a), 'norm': lambda a: np.linalg.norm(a), 'median': lambda a: np.median(a), 'percentile': lambda a: np.percentile(a, 30), 'add.reduce': lambda a: np.add.reduce(a), 'add.accumulate': lambda a: np.add.accumulate(a),
    'clip': lambda a: a.clip(-1., 1.), 'np.clip': lambda a: np.clip(a, -1., 1.), 'round': lambda a: a.round(1), 'np.round': lambda a: np.round(a, 1), 'diff': lambda a: np.diff(a, axis=0), 'average': lambda a: np.average(a, 0), 'trace': lambda a: np.trace(a),
    'nansum': lambda a: np.nansum(a, 0), 'a.dot(a)': lambda a: a.dot(a), 'gram': lambda a: np.dot(a, np.asarray(a).T), 'logsumexp': lambda a: np.log(np.exp(a - a.max()).sum()), 'expression': lambda a: (2. * a - 1.) ** 2 / (1. + np.exp(-a)),
    'complex': lambda a: a * 1j, 'np.array': lambda a: np.array(a), 'tolist': lambda a: a.tolist(), 'len': len, 'item': lambda a: a.item(0), 'contains': lambda a: 0.5 in a, 'onto': None, 'minus from': None, 'sorted': lambda a: sorted(np.ravel(np.asarray(a)).tolist()),
    'cov': lambda a: np.cov(a), 'fft': lambda a: np.fft.fft(a), 'softplus': lambda a: np.logaddexp(0., a),
}


def strategy(tier):
    from hypothesis import strategies as st
    h = st.integers(0, 9)
    vals = st.lists(st.integers(-20, 20).map(lambda k: k / 4.), min_size=1, max_size=4)
    part = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(['s', 'i', 'l', 'm', 'c']), st.integers(-5, 5), st.integers(-5, 5)).map(list))
    source = st.one_of(st.tuples(st.sampled_from(FORMS), st.sampled_from(SHAPES), vals).map(list), st.tuples(st.just('array'), st.sampled_from(SHAPES), vals).map(list),
                       st.tuples(st.just('item'), h, part).map(list))
    make = st.tuples(st.just('make'), st.sampled_from(['param', 'param', 'obsar']), source).map(list)
    other = st.one_of(st.tuples(st.just('number'), st.integers(-8, 8).map(lambda k: k / 2.)), st.tuples(st.just('array'), vals), st.tuples(st.just('item'), h, part), st.tuples(st.just('row'), vals), st.tuples(st.just('int'), st.integers(-3, 3))).map(list)
    ops = [
        make,
        st.tuples(st.just('binary'), h, part, st.sampled_from(sorted(BINARY)), other, st.booleans()).map(list),
        st.tuples(st.just('binary'), h, part, st.sampled_from(sorted(BINARY)), other, st.booleans()).map(list),
        st.tuples(st.just('binary'), h, part, st.sampled_from(sorted(BINARY)[:7]), other, st.booleans()).map(list),
        st.tuples(st.just('unary'), h, part, st.sampled_from(sorted(UNARY))).map(list),
        st.tuples(st.just('unary'), h, part, st.sampled_from(sorted(UNARY))).map(list),
        st.tuples(st.just('set'), h, part, vals).map(list),
        st.tuples(st.just('source'), h, vals).map(list),
        st.tuples(st.just('link'), h, st.integers(0, 2)).map(list),
        st.tuples(st.just('con'), h, part, st.booleans()).map(list),
        st.tuples(st.just('observe'), h).map(list),
        st.tuples(st.just('wrap'), h).map(list),
    ]
    op = st.integers(0, len(ops) - 1).flatmap(lambda i: ops[i])
    return st.fixed_dictionaries(dict(first=st.lists(make, min_size=1, max_size=3), ops=st.lists(op, min_size=2, max_size=14)))


def source_of(form, shape, vals):
    """(the source, its values, whether a parameter may use its memory)"""
    n = int(np.prod(shape))
    v = np.array([vals[i % len(vals)] + i / 8. for i in range(n)], float).reshape(shape)
    if form == 'array':
        return v, v.copy(), True
    if form in ('list', 'rows'):
        return ([row for row in v.copy()] if form == 'rows' else v.tolist()), v, False
    if form == 'tuple':
        return tuple(v.tolist()), v, False
    if form in ('int', 'int8', 'bool', 'float32', 'longdouble', 'object'):
        t = {'int': int, 'int8': np.int8, 'bool': bool, 'float32': np.float32, 'longdouble': np.longdouble, 'object': object}[form]
        x = v.astype(t)
        return x, np.array([float(y) for y in x.ravel()], float).reshape(shape), False
    if form == 'fortran':
        return np.asfortranarray(v), v.copy(), v.flags.f_contiguous
    if form == 'strided':
        x = np.zeros((shape[0] * 2,) + tuple(shape[1:]))
        x[::2] = v
        y = x[::2]
        return y, v.copy(), y.flags.c_contiguous
    if form == 'reversed':
        y = v[::-1].copy()[::-1]
        return y, v.copy(), y.flags.c_contiguous
    if form == 'readonly':
        v.flags.writeable = False
        return v, v.copy(), False
    if form == 'bigendian':
        return v.astype('>f8'), v, False
    if form == 'matrix':
        x = np.matrix(v if v.ndim == 2 else v.reshape(1, -1))
        return x, np.array(x), None
    x = float(v.ravel()[0])
    return (x if form == 'number' else np.array(x)), np.array([x]), (False if form == 'number' else None)


class Item(object):
    def __init__(self, kind, real, v, name=None):
        self.kind, self.real, self.v, self.name, self.source = kind, real, v, name, None
        self.parent, self.con, self.told, self.want, self.watch = None, [None] * v.size, 0, 0, False

    def hear(self, me, which=None):
        self.told += 1


def decode(part, shape):
    if part is None:
        return Ellipsis
    k, a, b = part
    n = shape[0]
    if k == 's':
        lo, up = sorted([a % n, b % n])
        return slice(lo, up + 1)
    if k == 'i' and len(shape) > 1:
        return a % n
    if k == 'l':
        return [a % n, b % n]
    if k == 'm':
        return np.array([(i * a + b) % 3 != 0 or i == a % n for i in range(n)])
    if k == 'c' and len(shape) > 1:
        return (slice(None), b % shape[1])
    return slice(a % n, None)


def part_of(it, part):
    """(the part of the real thing, of its values); the whole one for None"""
    if part is None:
        return it.real, it.v
    ix = decode(part, it.v.shape)
    return it.real[ix], it.v[ix]


LOOSE = ['a.dot(a)', 'np.dot', 'np.inner', 'tensordot', 'gram', 'kron']   # numpy itself makes an array like its arguments of these


def equal(got, want, what, loose=False):
    from paramz.core.observable_array import ObsAr
    if isinstance(want, (list, tuple)):
        check(type(got) is type(want) and len(got) == len(want), '{}: {!r} instead of {!r}', what, got, want)
        for a, b in zip(got, want):
            equal(a, b, what, loose)
        return
    check(loose or not isinstance(got, ObsAr), '{} gives a {} instead of a plain array', what, type(got).__name__)
    check(np.shape(got) == np.shape(want), '{} has the shape {} instead of {}', what, np.shape(got), np.shape(want))
    g, w = np.asarray(got), np.asarray(want)
    check(g.dtype == w.dtype, '{} has the type {} instead of {}', what, g.dtype, w.dtype)
    ok = np.allclose(g, w, rtol=1e-12, atol=1e-12, equal_nan=True) if w.dtype.kind in 'fc' else np.array_equal(g, w)
    check(ok, '{} gives {} instead of {}', what, g.tolist(), w.tolist())


def run(case, rec):
    from paramz import Param
    from paramz.core.observable_array import ObsAr
    from ..world import Node, LOG, ref
    items, nodes = [], [Node('n0'), Node('n1'), Node('n2')]
    kids = [[], [], []]
    del LOG[:]

    def make(kind, source):
        base = None
        if source[0] == 'item':
            if not items:
                return
            base = items[source[1] % len(items)]
            x, xv = part_of(base, source[2])
            if not isinstance(x, np.ndarray) or xv.size == 0:
                return
            if kind == 'obsar' and base.kind == 'param':
                return     # a parameter is an observable array
            if kind == 'obsar' and source[2] is not None:
                return     # a part of an observable array is one
            if kind == 'obsar':
                rewrap(base)
                return
            v = xv.copy()
            rec.mark('made of another')
        else:
            src, v, use = source_of(*source)
        name = 'p%d' % len(items)
        if base is not None:
            src = x
        real = Param(name, src) if kind == 'param' else ObsAr(src)
        check(type(real) is (Param if kind == 'param' else ObsAr), 'making a {} gives a {}', kind, type(real).__name__)
        it = Item(kind, real, v, name if kind == 'param' else None)
        check(base is None or real is not base.real, 'making a {} of another gives the other', kind)
        check(real.dtype == np.dtype(float) and real.flags.c_contiguous and real.flags.writeable and real.ndim >= 1, 'made of {!r}: type {}, C order {}, writable {}, {} dimensions', src, real.dtype, real.flags.c_contiguous,
              real.flags.writeable, real.ndim)
        check(real.shape == v.shape, 'made of {!r}: the shape {} instead of {}', src, real.shape, v.shape)
        check(np.array_equal(np.asarray(real), v), 'made of {!r}: {} instead of {}', src, np.asarray(real).tolist(), v.tolist())
        if base is None and isinstance(src, np.ndarray):
            mem = bool(np.shares_memory(src, np.asarray(real)))
            check(use is None or mem == use, 'made of a {}: {} the memory of the given array', source[0], 'uses' if mem else 'does not use')
            if mem and source[0] == 'array':
                it.source = src
        items.append(it)
        rec.label(source[0] if base is None else 'of another')

    def rewrap(it):
        again = ObsAr(it.real)
        check(again is it.real, 'wrapping an observable array again gives another one')
        rec.mark('wrapped again')

    def link(it, k):
        if it.parent is not None or it.kind != 'param' :
            return
        n = nodes[k]
        n.link_parameter(it.real)
        it.parent = n
        kids[k].append(it)
        it.source = None     # its memory is that of the node from now on

    for op in case['first'] + case['ops']:
        del LOG[:]
        what = op[0]
        want_updates = []
        if what == 'make':
            if len(items) < 10:
                make(op[1], op[2])
                want_updates = None
        elif not items:
            continue
        else:
            it = items[op[1] % len(items)]
            if what == 'set':
                ix = decode(op[2], it.v.shape)
                n = int(np.size(it.v[ix]))
                x = np.array([op[3][i % len(op[3])] for i in range(n)], float).reshape(np.shape(it.v[ix]))
                it.v[ix] = x
                it.real[ix] = x
                if it.watch:
                    it.want += 1
                if it.parent is not None:
                    want_updates = [it.parent]
            elif what == 'source':
                if it.source is None:
                    continue
                it.source.flat = op[2]
                it.v.flat = op[2]
                check(np.array_equal(np.asarray(it.real), it.source), 'the parameter is {} after its source became {}', np.asarray(it.real).tolist(), it.source.tolist())
            elif what == 'link':
                link(it, op[2] % 3)
                want_updates = None
            elif what == 'con':
                if it.kind != 'param':
                    continue
                ix = decode(op[2], it.v.shape)
                at = np.arange(it.v.size).reshape(it.v.shape)[ix].ravel()
                hnd = it.real if op[2] is None else it.real[ix]
                if not isinstance(hnd, Param):
                    continue
                if op[3]:
                    hnd.constrain_bounded(-1000., 1000., warning=False)
                else:
                    hnd.unconstrain()
                for k in at:
                    it.con[int(k)] = ('logistic', -1000., 1000.) if op[3] else None
                now = np.array(it.real, float)
                check(np.allclose(now, it.v, rtol=1e-9, atol=1e-9), 'constraining moved {} to {}', it.v.tolist(), now.tolist())
                it.v[...] = now
                want_updates = None
                if it.watch:
                    it.want = it.told
            elif what == 'observe':
                if not it.watch:
                    it.real.add_observer(it, it.hear)
                    it.watch = True
            elif what == 'wrap':
                if it.kind == 'obsar':
                    rewrap(it)
            else:
                compute(items, it, op, rec)
                if it.parent is not None or it.watch:
                    rec.mark('computed with something in use')
        if want_updates is not None:
            mine = [o for o, _ in LOG]
            check(len(mine) == len(want_updates) and all(a is b for a, b in zip(mine, want_updates)), '{} updated {} instead of {}', op, [o.name for o in mine], [o.name for o in want_updates])
        for i, it in enumerate(items):
            check(np.asarray(it.real).shape == it.v.shape and np.array_equal(np.asarray(it.real), it.v), 'after {}: number {} is {} instead of {}', op, i, np.asarray(it.real).tolist(), it.v.tolist())
            check(it.told == it.want, 'after {}: the observer of number {} was told {} times instead of {}', op, i, it.told, it.want)
            if it.kind == 'param':
                check(it.real.name == it.name and it.real._parent_ is it.parent, 'after {}: number {} is called {} below {}', op, i, it.real.name, it.real._parent_)
                got = [None] * it.v.size
                for c, ind in it.real.constraints.items():
                    for k in np.atleast_1d(ind):
                        got[int(k)] = ref.key_of(c)
                check(got == it.con, 'after {}: the constraints of number {} are {} instead of {}', op, i, got, it.con)
            if it.watch:
                n = sum(1 for _, o, _ in it.real.observers if o is it)
                check(n == 1, 'after {}: number {} has {} observers instead of one', op, i, n)
        for n, mine in zip(nodes, kids):
            check(len(n.parameters) == len(mine) and all(a is b.real for a, b in zip(n.parameters, mine)), 'after {}: {} has the parameters {}', op, n.name, n.parameter_names())


def compute(items, it, op, rec):
    a, va = part_of(it, op[2])
    va = np.array(va)       # what is expected is computed of plain arrays
    if op[0] == 'unary':
        name = op[3]
        if va.size == 0:
            return
        if name in ('onto', 'minus from'):
            out, want = np.ones(va.shape), np.ones(va.shape)
            if name == 'onto':
                out += a
                want += va
            else:
                out -= a
                want -= va
            equal(out, want, name)
            check(type(out) is np.ndarray, 'a plain array became a {}', type(out).__name__)
            return
        f = UNARY[name]
        args, plain = (a,), (va,)
    else:
        name, o = op[3], op[4]
        f = BINARY[name]
        if o[0] in ('number', 'int'):
            b = vb = o[1]
        elif o[0] == 'array':
            b = np.array([o[1][i % len(o[1])] for i in range(va.size)], float).reshape(va.shape)
            vb = b.copy()
        elif o[0] == 'row':
            n = va.shape[-1] if va.ndim else 1
            b = np.array([o[1][i % len(o[1])] for i in range(n)], float)
            vb = b.copy()
        else:
            j = items[o[1] % len(items)]
            b, vb = part_of(j, o[2])
            vb = np.array(vb)
        args, plain = ((b, a), (vb, va)) if op[5] else ((a, b), (va, vb))
    try:
        want = f(*plain)
    except Exception as e:
        try:
            f(*args)
        except Exception:
            return
        check(False, '{} of {} is possible, of plain arrays it raises {}', name, [type(x).__name__ for x in args], e)
    got = f(*args)
    equal(got, want, '%s of %s' % (name, ' and '.join(type(x).__name__ for x in args)), name in LOOSE)
    # the result is nobody else's memory
    if isinstance(got, np.ndarray) and got.size:
        check(not any(np.shares_memory(got, np.asarray(x.real)) for x in items), 'the result of {} shares memory with a parameter', name)
    rec.label('computed')
