"""P22: selections of several parameters by regular expression against their flat concatenation."""
import re
import numpy as np
from ..core import check, arr

SIZES = {'quick': (8, 600), 'thorough': (8, 12000)}
RULE = ('a generated hierarchy (depth up to 4; a plain one or a model with an objective) with partial constraints and fixes, selections of leaves and inner nodes by a regular expression, and a history on the same selection '
        'objects: reading and assigning (scalars, arrays, other selections) by integers, slices with any step, lists naming elements in any order or twice, masks; in-place arithmetic; comparisons; constraining, releasing, fixing and '
        'unfixing the selection or its elements at an index (also an index of that); interleaved with changes by other handles; after each step values, constraints and fixes of every object, the values of each selection, the updates of every containing object and the objective; '
        'non-trivial: a partial assignment, partial constraint or in-place arithmetic on a selection of at least two leaves')
ASSUMPTIONS = ['the structure does not change while a selection is held', 'a read names at least one element']
OPS = ['+', '-', '*', '/', '**', '//', '%']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import setup_ops
    h = st.integers(0, 40)
    lim = st.one_of(st.none(), st.integers(-9, 9))
    index = st.one_of(
        st.tuples(st.just('s'), lim, lim, st.sampled_from([None, None, 1, 2, 3, -1, -2])).map(list),
        st.tuples(st.just('i'), st.integers(-20, 20)).map(list),
        st.tuples(st.just('l'), st.lists(st.integers(-20, 20), min_size=1, max_size=5)).map(list),
        st.tuples(st.just('m'), st.lists(st.booleans(), min_size=1, max_size=7)).map(list),
        st.just(['e']), st.just(['s', None, None, None]))
    vals = st.lists(st.integers(-20, 20).map(lambda k: k / 4.), min_size=1, max_size=5)
    how = st.sampled_from(['constrain', 'named'])
    s = st.integers(0, 3)
    ops = [
        st.tuples(st.just('set'), s, index, vals),
        st.tuples(st.just('set'), s, index, vals),
        st.tuples(st.just('set'), s, index, vals),
        st.tuples(st.just('get'), s, index),
        st.tuples(st.just('get'), s, index),
        st.tuples(st.just('arith'), s, st.sampled_from(OPS), vals, st.booleans()),
        st.tuples(st.just('arith'), s, st.sampled_from(OPS), vals, st.booleans()),
        st.tuples(st.just('from'), s, s),
        st.tuples(st.just('by name'), s, vals),
        st.tuples(st.just('compare'), s, vals),
        st.tuples(st.just('con'), s, w.keys(st), how),
        st.tuples(st.just('con'), s, w.keys(st), how),
        st.tuples(st.just('fix'), s, st.booleans()),
        st.tuples(st.just('fixto'), s, st.booleans(), st.integers(-20, 20)),
        st.tuples(st.just('unfix'), s, st.booleans()),
        st.tuples(st.just('uncon'), s, st.one_of(st.none(), st.lists(w.keys(st), min_size=1, max_size=2)), how),
        st.tuples(st.just('uncon there'), s, st.integers(0, 5), how),
        st.tuples(st.just('part'), s, index, st.sampled_from(['con', 'con', 'fix', 'fixto', 'unfix', 'uncon', 'get']), w.keys(st), st.integers(-20, 20), st.one_of(st.none(), index)),
        st.tuples(st.just('part'), s, index, st.sampled_from(['con', 'con', 'fix', 'fixto', 'unfix', 'uncon', 'get']), w.keys(st), st.integers(-20, 20), st.one_of(st.none(), index)),
        st.tuples(st.just('other set'), h, st.one_of(st.none(), w.index_expr(st)), vals),
        st.tuples(st.just('other free'), h, vals),
        st.tuples(st.just('other con'), h, st.one_of(st.none(), w.index_expr(st)), w.keys(st)),
        st.tuples(st.just('select'), st.lists(h, min_size=2, max_size=4)),
    ]
    op = st.integers(0, len(ops) - 1).flatmap(lambda i: ops[i]).map(list)
    return st.fixed_dictionaries(dict(tree=w.node_spec(st, dc=True, max_leaves=6, min_kids=2), model=st.booleans(), setup=st.one_of(setup_ops(st, w), st.just([]), st.just([])),
                                      select=st.lists(st.lists(h, min_size=2, max_size=4), min_size=1, max_size=2), ops=st.lists(op, min_size=2, max_size=12)))


def decode(e, n):
    if e[0] == 's':
        return slice(e[1], e[2], e[3])
    if e[0] == 'i':
        return e[1] % n if e[1] >= 0 else -((-e[1] - 1) % n) - 1
    if e[0] == 'l':
        return [k % n if k >= 0 else -((-k - 1) % n) - 1 for k in e[1]]
    if e[0] == 'm':
        return np.array([e[1][k % len(e[1])] for k in range(n)], bool)
    return Ellipsis


class Selection(object):
    def __init__(self, real, leaves, regex, world):
        self.real, self.leaves, self.regex, self.world = real, leaves, regex, world

    size = property(lambda self: sum(l.size for l in self.leaves))
    v = property(lambda self: np.concatenate([l.v for l in self.leaves]))
    con = property(lambda self: [c for l in self.leaves for c in l.con])

    def put(self, v):
        i = 0
        for l in self.leaves:
            l.v = np.array(v[i:i + l.size], float)
            i += l.size


def path(m):
    out = []
    while m.parent is not None:
        out.append(m.name)
        m = m.parent
    return '.'.join(reversed(out))


def select(w, top, picks):
    ms = [m for m in top.objects()[1:]]
    if not ms:
        return None
    chosen = {id(ms[k % len(ms)]) for k in picks}
    ms = [m for m in ms if id(m) in chosen]
    leaves = []
    for m in ms:
        for l in m.leaves():
            if not any(l is x for x in leaves):
                leaves.append(l)
    if len(ms) < 2 or not leaves:
        return None
    regex = '^(' + '|'.join(re.escape(path(m)) for m in reversed(ms)) + ')$'
    real = top.real[regex]
    check(type(real).__name__ == 'ParamConcatenation', 'a selection of {} objects is a {}', len(ms), type(real).__name__)
    return Selection(real, leaves, regex, w)


def arith(op, a, b):
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b, '**': lambda: a ** b, '//': lambda: a // b, '%': lambda: a % b}[op]()


def inplace(h, op, k):
    if op == '+':
        h += k
    elif op == '-':
        h -= k
    elif op == '*':
        h *= k
    elif op == '/':
        h /= k
    elif op == '**':
        h **= k
    elif op == '//':
        h //= k
    else:
        h %= k
    return h


def run(case, rec):
    from ..world import World, RModel, LOG, ref, fit, ancestors, objective
    from .p06 import constraining
    from .p11 import legit
    w = World()
    if case['model']:
        top = w.build(case['tree'], top=lambda name, kids: RModel(name, kids, 'coupled'), gradients=False)
    else:
        top = w.build(case['tree'], gradients=False)
    for op in case['setup']:
        constraining(w, op)
    sels = [s for s in (select(w, top, p) for p in case['select']) if s is not None]
    everything(w, sels, 'selecting')
    for op in case['ops']:
        if op[0] == 'select':
            s = select(w, top, op[1])
            if s is not None:
                sels.append(s)
            continue
        if op[0].startswith('other'):
            m = w.pick(op[1])
            if op[0] == 'other set':
                w.assign(m, op[2] if m.kind == 'leaf' else None, op[3])
            elif op[0] == 'other free':
                w.set_free(m, op[2])
            else:
                w.constrain(m, op[2], op[3])
            rec.label('a change by another handle')
            everything(w, sels, op[0])
            continue
        if not sels:
            continue
        s = sels[op[1] % len(sels)]
        n, con = s.size, s.con
        told = None             # leaves which changed
        del LOG[:]
        what = op[0]
        if what == 'get':
            ix = decode(op[2], n)
            want = np.atleast_1d(s.v[ix])
            if not want.size:
                continue
            got = s.real[ix]
            got = arr(got.values() if hasattr(got, 'values') and callable(got.values) else got)
            check(np.array_equal(got, want), 'element {} of the selection {} is {} instead of {}', ix, s.v.tolist(), got.tolist(), want.tolist())
            rec.label('read by ' + op[2][0])
        elif what in ('set', 'by name', 'from'):
            ix = decode(op[2], n) if what == 'set' else slice(None)
            at = np.atleast_1d(np.arange(n)[ix])
            if what == 'from':
                o = sels[op[2] % len(sels)]
                if o.size != n or not legit(con, o.v):
                    continue
                val, x = o.real, o.v.copy()
            else:
                raw = op[3] if what == 'set' else op[2]
                x = np.array([fit(raw[i % len(raw)], con[k]) for i, k in enumerate(at)], float)
                val = x
                if len(raw) == 1 and len({con[k] for k in at}) == 1:
                    val = float(x[0])
                    x = np.array([val] * at.size)
                elif isinstance(ix, int):
                    val = float(x[0])
            v = s.v.copy()
            v[at] = x
            if what == 'by name':
                top.real[s.regex] = val
            else:
                s.real[ix] = val
            s.put(v)
            told = s.leaves
            rec.label('assignment by name' if what == 'by name' else 'assignment of a selection' if what == 'from' else 'assignment by %s%s' % (op[2][0], ' of a number' if np.ndim(val) == 0 else ''))
            if len(s.leaves) > 1 and 0 < len(set(at.tolist())) < n:
                rec.mark('part of a selection assigned')
            if (x == 0).any():
                rec.label('zero assigned')
        elif what == 'arith':
            k = np.array([op[3][i % len(op[3])] for i in range(n)], float) if op[4] else float(op[3][0])
            v = arith(op[2], s.v.copy(), k)
            if not np.isfinite(v).all() or np.abs(v).max(initial=0.) > 1e6 or not legit(con, v):
                continue
            h = inplace(s.real, op[2], k)
            check(h is s.real, 'in-place {} on a selection gives {!r}', op[2], type(h))
            s.put(v)
            told = s.leaves
            rec.label('in-place ' + op[2])
            if len(s.leaves) > 1:
                rec.mark('arithmetic on a selection')
        elif what == 'compare':
            k = float(op[2][0])
            if len(op[2]) == 2:
                k = float(s.v[int(abs(op[2][1]) * 4) % n])           # equal to an element
            elif len(op[2]) > 2:
                k = np.array([s.v[i] if i % 3 == 0 else op[2][i % len(op[2])] for i in range(n)], float)
            for name, got, want in (('<', s.real < k, s.v < k), ('<=', s.real <= k, s.v <= k), ('==', s.real == k, s.v == k), ('!=', s.real != k, s.v != k), ('>', s.real > k, s.v > k), ('>=', s.real >= k, s.v >= k)):
                check(np.array_equal(np.asarray(got), want), '{} of a selection {} with {} is {}', name, s.v.tolist(), k, got)
            rec.label('comparison')
        elif what == 'con':
            k = ref.norm(op[2])
            old = s.v.copy()
            if op[3] == 'named' and k == 'logexp':
                s.real.constrain_positive(warning=False)
            elif op[3] == 'named' and k == 'neglogexp':
                s.real.constrain_negative(warning=False)
            elif op[3] == 'named' and isinstance(k, tuple):
                s.real.constrain_bounded(k[1], k[2], warning=False)
            else:
                s.real.constrain(ref.make(op[2]), warning=False)
            for l in s.leaves:
                w._constrained(l, range(l.size), op[2])
            if not np.array_equal(old, s.v):
                told = s.leaves
            rec.label('constrain')
        elif what == 'part':
            told = part(s, op, n, con, rec)
        elif what in ('fix', 'fixto'):
            f = s.real.fix if op[2] else s.real.constrain_fixed
            if what == 'fixto':
                if len(set(con)) > 1:
                    continue
                val = fit(op[3] / 4., list(con[0]) if isinstance(con[0], tuple) else con[0])
                f(val, warning=False)
                for l in s.leaves:
                    l.v = np.full(l.size, val)
                told = s.leaves
            else:
                f(warning=False)
            for l in s.leaves:
                l.fix = [True] * l.size
            rec.label(what)
        elif what == 'unfix':
            (s.real.unfix if op[2] else s.real.unconstrain_fixed)()
            for l in s.leaves:
                l.fix = [False] * l.size
            rec.label('unfix')
        elif what in ('uncon', 'uncon there'):
            if what == 'uncon there':
                there = sorted({c for c in con if c is not None}, key=str)
                if not there:
                    continue
                c = there[op[2] % len(there)]
                keys = [list(c) if isinstance(c, tuple) else c]
            else:
                keys = op[2]
            ks = None if keys is None else [ref.norm(k) for k in keys]
            if keys is None:
                s.real.unconstrain()
            elif op[3] == 'named' and ks == ['logexp']:
                s.real.unconstrain_positive()
            elif op[3] == 'named' and ks == ['neglogexp']:
                s.real.unconstrain_negative()
            elif op[3] == 'named' and len(ks) == 1 and isinstance(ks[0], tuple):
                s.real.unconstrain_bounded(ks[0][1], ks[0][2])
            else:
                s.real.unconstrain(*[ref.make(k) for k in keys])
            for l in s.leaves:
                l.con = [None if ks is None or c in ks else c for c in l.con]
                if ks is None:
                    l.fix = [False] * l.size
            rec.label('unconstrain' if what == 'uncon' else 'unconstrain by name')
        everything(w, sels, what)
        if told is not None:
            for m in w.all:
                if m.kind == 'node' and any(m in ancestors(l) for l in told):
                    mine = [v for o, v in LOG if o is m.real]
                    check(mine, 'after {} of a selection {}, which contains a part of it, was not updated', what, m.name)
                    check(np.array_equal(mine[-1], m.v), 'after {} of a selection the last update of {} saw {} instead of {}', what, m.name, mine[-1].tolist(), m.v.tolist())
        if case['model'] and what not in ('get', 'compare'):
            f, g = objective(top.real.kind, top.real.target, top.v)
            check(np.allclose(top.real.objective_function(), f, rtol=1e-9, atol=1e-9), 'after {} of a selection the objective is {} instead of {}', what, top.real.objective_function(), f)


def part(s, op, n, con, rec):
    """An operation on some of the elements of a selection; the leaves whose values changed."""
    from ..world import ref, fit
    _, _, e, what, key, val, e2 = op
    at = np.atleast_1d(np.arange(n)[decode(e, n)])
    if not at.size:
        return None
    h = s.real[decode(e, n)]
    if e2 is not None and type(h).__name__ == 'ParamConcatenation':
        # some of these again
        ix = decode(e2, at.size)
        again = np.atleast_1d(at[ix])
        if again.size:
            h, at = h[ix], again
            rec.label('a part of a part of a selection')
    got = arr(h.values() if type(h).__name__ == 'ParamConcatenation' else h.values)
    check(np.array_equal(got, s.v[at]), 'the elements {} of the selection {} are {}', at.tolist(), s.v.tolist(), got.tolist())
    places = [(l, i) for l in s.leaves for i in range(l.size)]
    els = {}
    for k in at:
        l, i = places[k]
        els.setdefault(id(l), (l, []))[1].append(i)
    norm = ref.norm(key)
    old = s.v.copy()
    if what == 'con':
        h.constrain(ref.make(key), warning=False)
        for l, es in els.values():
            s.world._constrained(l, es, key)
    elif what in ('fix', 'fixto'):
        if what == 'fixto':
            if len({con[k] for k in at}) > 1:
                return None
            c = con[at[0]]
            x = fit(val / 4., list(c) if isinstance(c, tuple) else c)
            h.fix(x, warning=False)
            for l, es in els.values():
                v = l.v.copy()
                v[es] = x
                l.v = v
        else:
            h.fix(warning=False)
        for l, es in els.values():
            for i in es:
                l.fix[i] = True
    elif what == 'unfix':
        h.unfix()
        for l, es in els.values():
            for i in es:
                l.fix[i] = False
    elif what == 'uncon':
        h.unconstrain(*([ref.make(key)] if val % 2 else []))
        for l, es in els.values():
            for i in es:
                if not val % 2:
                    l.con[i], l.fix[i] = None, False
                elif l.con[i] == norm:
                    l.con[i] = None
    rec.label('part: ' + what)
    if what != 'get' and len(els) > 1 and 0 < len(set(at.tolist())) < n:
        rec.mark('part of a selection constrained or fixed')
    return None if np.array_equal(old, s.v) else s.leaves and [l for l, _ in els.values()]


def everything(w, sels, what):
    w.check_values()
    w.check_constraints()
    w.check_fixed()
    for s in sels:
        got = arr(s.real.values(), s.size, 'the values of a selection')
        check(np.array_equal(got, s.v), 'after {}: the values of the selection {} are {} instead of {}', what, s.regex, got.tolist(), s.v.tolist())
