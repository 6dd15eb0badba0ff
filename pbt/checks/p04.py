"""P04: index bookkeeping against a map from property to a set of indices."""
import numpy as np
from ..core import check, Violation

SIZES = {'quick': (8, 1000), 'thorough': (8, 30000)}
RULE = ('a history of operations on a global bookkeeping and a tree of views of it (each with an offset and a size), '
        'compared after every step; non-trivial: an operation which changes something goes through a view with a non-zero offset, or a shift moves or drops an index')
ASSUMPTIONS = ['views are given local indices within their window']


def strategy(tier):
    from hypothesis import strategies as st
    prop = st.integers(0, 3)
    at = st.integers(0, 15)
    idx = st.lists(st.integers(0, 19), min_size=1, max_size=6)
    h = st.integers(0, 6)
    op = st.one_of(
        st.tuples(st.just('add'), h, prop, idx),
        st.tuples(st.just('add'), h, prop, idx),
        st.tuples(st.just('remove'), h, prop, idx),
        st.tuples(st.just('removein'), h, prop, st.lists(st.integers(0, 9), min_size=1, max_size=4)),
        st.tuples(st.just('del'), h, prop),
        st.tuples(st.just('right'), h, at, st.integers(1, 5)),
        st.tuples(st.just('left'), h, at, st.integers(1, 5)),
        st.tuples(st.just('clear'), h),
        st.tuples(st.just('update'), h, h, st.integers(0, 6)),
        st.tuples(st.just('copy'), h),
        st.tuples(st.just('pickle'), h),
    ).map(list)
    views = st.lists(st.tuples(st.integers(0, 4), st.integers(0, 6), st.sampled_from([8, 0, 1, 3, 5, 12, 20])).map(list), min_size=1, max_size=5)
    return st.fixed_dictionaries(dict(views=views, ops=st.lists(op, min_size=3, max_size=14), lists=st.booleans()))


PROPS = ['alpha', 'beta', ('logistic', 1), 'fixed']


class M(object):
    """Global model: dict of sets; view: window of it."""
    def __init__(self, base=None, off=0, size=None):
        self.base, self.off, self.size = base, off, size
        self.d = {} if base is None else None

    def root(self):
        m, off = self, 0
        while m.base is not None:
            off += m.off
            m = m.base
        return m, off

    def window(self):
        """[lo, hi) in global indices: the part of the window inside all enclosing ones."""
        if self.base is None:
            return 0, 10**9
        lo, hi = self.base.window()
        _, off = self.root()
        return max(lo, off), min(hi, off + self.size)

    def content(self):
        r, off = self.root()
        lo, hi = self.window()
        return {p: sorted(i - off for i in s if lo <= i < hi) for p, s in r.d.items() if any(lo <= i < hi for i in s)}

    def add(self, p, idx):
        r, off = self.root()
        if len(idx):
            r.d.setdefault(p, set()).update(i + off for i in idx)

    def remove(self, p, idx):
        r, off = self.root()
        gone = r.d.get(p, set()) & {i + off for i in idx}
        r.d[p] = r.d.get(p, set()) - gone
        return sorted(i - off for i in gone)

    def right(self, start, n):
        r, off = self.root()
        r.d = {p: {i + n if i >= start + off else i for i in s} for p, s in r.d.items()}

    def left(self, start, n):
        r, off = self.root()
        a = start + off
        r.d = {p: {i - n if i >= a + n else i for i in s if not a <= i < a + n} for p, s in r.d.items()}


def ints(x, what):
    try:
        return [int(i) for i in np.asarray(x).ravel()] if np.asarray(x).dtype.kind in 'iu' or np.size(x) == 0 else [float(i) for i in np.asarray(x).ravel()]
    except Exception:
        raise Violation('%s is %r' % (what, x))


def observe(real, model, name, deep):
    want = model.content()
    items = list(real.items())
    got = {}
    for p, ind in items:
        check(p not in got, '{}: property {} is listed twice', name, p)
        got[p] = ints(ind, name)
    check(got == want, '{}: reports {} instead of {}', name, got, want)
    check(sorted(map(str, real.properties())) == sorted(map(str, want)), '{}.properties() = {} instead of {}', name, real.properties(), list(want))
    check(sorted(ints(i, name) for i in real.indices()) == sorted(want.values()), '{}.indices() is {} instead of {}', name, real.indices(), list(want.values()))
    n = real.size
    check(n == sum(len(v) for v in want.values()), '{}.size is {} instead of {}', name, n, sum(len(v) for v in want.values()))
    if deep:
        for p in PROPS:
            check(ints(real[p], name) == want.get(p, []), '{}[{}] is {} instead of {}', name, p, real[p], want.get(p, []))
        top = max([max(v) for v in want.values() if v] or [0]) + 2
        index = list(range(top))[::-1]
        pf = list(real.properties_for(index))
        for i, ps in zip(index, pf):
            check(sorted(map(str, ps)) == sorted(str(p) for p in want if i in want[p]), '{}.properties_for: {} at {}', name, ps, i)
        pd = real.properties_dict_for(np.array(index))
        check({p: ints(i, name) for p, i in pd.items()} == {p: sorted(want[p], reverse=True) for p in want}, '{}.properties_dict_for({}) = {}', name, index, pd)
        # asking must not change anything
        check(sorted(map(str, real.properties())) == sorted(map(str, want)), '{}: asking for a property changed the bookkeeping', name)


def run(case, rec):
    from paramz.core.index_operations import ParameterIndexOperations, ParameterIndexOperationsView
    import pickle
    g = ParameterIndexOperations()
    handles = [(g, M(), 'global')]
    for b, off, size in case['views']:
        br, bm, bn = handles[b % len(handles)]
        if bm.size is not None:
            # windows lie inside of the one they look through
            off = min(off, bm.size)
            size = min(size, bm.size - off)
        handles.append((ParameterIndexOperationsView(br, off, size), M(bm, off, size), '%s[%d:+%d]' % (bn, off, size)))
    copies = []
    for step, op in enumerate(case['ops']):
        r, m, name = handles[op[1] % len(handles)]
        inside = m.base is not None
        before = {k: {p: sorted(s) for p, s in mm.root()[0].d.items() if s} for k, (_, mm, _) in enumerate(handles[:1])}
        lim = m.size
        if op[0] == 'removein':
            # indices which are there, chosen by rank, in any order
            here = m.content()
            if not here:
                continue
            p = sorted(here, key=str)[op[2] % len(here)]
            idx = [here[p][k % len(here[p])] for k in op[3]]
            op = ['remove', op[1], PROPS.index(p), idx]
        if op[0] in ('add', 'remove'):
            p = PROPS[op[2]]
            idx = op[3] if lim is None else [i % lim for i in op[3] if lim]
            if op[0] == 'remove':
                a = np.array(idx, dtype=int)
                got = ints(r.remove(p, list(idx) if case['lists'] else a), 'the removed indices')
                want = m.remove(p, idx)
                check(got == want, '{}.remove({}, {}) returns {} instead of {}', name, p, idx, got, want)
            else:
                a = np.array(idx, dtype=int)
                r.add(p, a)
                m.add(p, idx)
            check(a.tolist() == idx, '{}.{} changed the given index array', name, op[0])
        elif op[0] == 'del':
            p = PROPS[op[2]]
            if p in m.content():
                del r[p]
                m.remove(p, m.content()[p])
                rec.label('del')
        elif op[0] == 'right':
            r.shift_right(op[2], op[3]); m.right(op[2], op[3])
        elif op[0] == 'left':
            r.shift_left(op[2], op[3]); m.left(op[2], op[3])
        elif op[0] == 'clear':
            r.clear()
            for p, idx in list(m.content().items()):
                m.remove(p, idx)
        elif op[0] == 'update':
            r2, m2, _ = handles[op[2] % len(handles)]
            if m2.root()[0] is m.root()[0]:
                # from a snapshot, so that source and target are separate
                r2 = r2.copy()
            c = m2.content()
            off = op[3]
            if lim is not None and any(i + off >= lim for v in c.values() for i in v):
                continue
            r.update(r2, off) if off else r.update(r2)
            for p, idx in c.items():
                m.add(p, [i + off for i in idx])
            if c:
                rec.label('update')
        elif op[0] in ('copy', 'pickle'):
            if op[0] == 'pickle':
                import copy
                c = pickle.loads(pickle.dumps(r, 2))
            else:
                c = r.copy()
            cm = M()
            cm.d = {p: set(v) for p, v in m.content().items()}
            if op[0] == 'copy':
                if len(handles) < 12:
                    handles.append((c, cm, 'copy of ' + name))
                    rec.label('copy')
            else:
                observe(c, cm, 'pickled ' + name, True)
                continue
        after = {p: sorted(s) for p, s in handles[0][1].d.items() if s}
        if after != before[0]:
            if inside and m.root()[1]:
                rec.mark('change through a view:' + op[0])
            if op[0] in ('left', 'right'):
                rec.mark('effective shift')
        for k, (rr, mm, nn) in enumerate(handles):
            observe(rr, mm, nn, k == step % len(handles) or step == len(case['ops']) - 1)
