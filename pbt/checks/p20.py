"""P20: names of siblings are distinct and find their parameters, over histories of linking, renaming and unlinking."""
import re
import numpy as np
from ..core import check

SIZES = {'quick': (8, 320), 'thorough': (8, 8000)}
NAMES = ['a', 'a', 'a_1', 'a_2', 'b', 'b', 'a b', 'a_b', 'a.b', 'var.x', 'a-b', 'gp*', 'checkgrad', 'X', 'a_1_1', 'kern', 'kern_9', 'a_10', 'b_1', 'x1', 'fix']
RULE = ('generated hierarchies (depth up to 4) whose objects have names from a small pool of equal, similar, adjusted and taken ones, and a history of linking new objects (also up to 13 of one name) and existing ones at any position, moving, unlinking, renaming, '
        'copying, fixing and setting attributes; after each step distinctness, attributes, regular expressions, name lists, flat names and hierarchy names of every object; non-trivial: a link or rename met a taken name')
ASSUMPTIONS = ['names are accepted by adjust_name_for_printing; of names which are printed alike, any one has the attribute', 'regular expressions at inner nodes ask for the last name of a path']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    h = st.integers(0, 30)
    at = st.one_of(st.none(), st.none(), st.integers(-3, 3))
    name = st.sampled_from(NAMES)
    leaf = st.tuples(st.just('p'), st.sampled_from([[1], [2], [2, 2], [1, 1], [3], [2, 1, 2], [1, 3], [3, 1], [2, 3]]), st.integers(0, 40), st.none()).map(list)
    tree = st.recursive(leaf, lambda c: st.tuples(st.just('n'), st.lists(c, max_size=3), st.integers(0, 2)).map(list), max_leaves=4)
    node = st.tuples(st.just('n'), st.lists(tree, min_size=1, max_size=4), st.integers(0, 2)).map(list)
    names = st.lists(name, min_size=3, max_size=8)
    ops = [
        st.tuples(st.just('new'), h, st.one_of(leaf, leaf, tree), at, names),
        st.tuples(st.just('new'), h, leaf, at, names),
        st.tuples(st.just('link'), h, h, at),
        st.tuples(st.just('relink'), h, h, at),
        st.tuples(st.just('move'), h, h, st.integers(-3, 3)),
        st.tuples(st.just('unlink'), h),
        st.tuples(st.just('rename'), h, name),
        st.tuples(st.just('rename'), h, name),
        st.tuples(st.just('attribute'), h),
        st.tuples(st.just('fix'), h, w.index_expr(st)),
        st.tuples(st.just('unfix'), h),
        st.tuples(st.just('copy'), h),
        st.tuples(st.just('many'), h, st.integers(3, 13), name, at),
    ]
    op = st.integers(0, len(ops) - 1).flatmap(lambda i: ops[i]).map(list)
    rx = st.lists(st.sampled_from(['a', 'b', '.', '.*', '_1', '$', '_', '(a|b)', 'kern', r'\.', 'n', r'\d', '[ab]+', '^', 'var_x', 'a_b']), min_size=1, max_size=4).map(''.join)
    return st.fixed_dictionaries(dict(tree=node, names=names, ops=st.lists(op, min_size=2, max_size=12), regex=st.lists(rx, min_size=1, max_size=3)))


def printable(name):
    for a, b in ((' ', '_'), ('.', '_'), ('-', '_m_'), ('+', '_p_'), ('!', '_I_'), ('**', '_xx_'), ('*', '_x_'), ('/', '_l_'), ('@', '_at_'), ('(', '_of_'), (')', '')):
        name = name.replace(a, b)
    return name


def stem(name):
    while re.search(r'_\d+$', name):
        name = re.sub(r'_\d+$', '', name)
    return name


def run(case, rec):
    from ..world import World, Node
    from .p05 import structural
    w = World(unique_names=False)
    used = {}            # id of a node's model -> printable names its children ever had
    user = {}            # id of a node's model -> user attributes
    feed = Names(w, case['names'])
    w.fresh = feed
    before = {}
    top = w.build(case['tree'], gradients=False)
    step(w, rec, before, used, user, 'building')
    for op in case['ops']:
        before = {id(m): m.name for m in w.all}
        touched = None
        if op[0] == 'new':
            feed.names = op[4]
            feed.k = 0
        if op[0] in ('new', 'link', 'relink', 'move', 'unlink'):
            what = structural(w, op)
        elif op[0] == 'many':
            # several parameters of one name
            p = w.pick(op[1], 'node')
            if len(w.all) > 40:
                continue
            feed.names, feed.k = [op[3]], 0
            kids = [w.build(['p', [1], k, None]) for k in range(op[2])]
            from .p05 import clip
            for c in kids:
                w.link(p, c, clip(op[4], p))
            what = 'link many of one name'
        elif op[0] == 'rename':
            m = w.pick(op[1])
            touched = m
            m.name = op[2]
            m.real.name = op[2]
            what = 'rename a %s' % ('root' if m.parent is None else m.kind)
        elif op[0] == 'attribute':
            m = w.pick(op[1], 'node', cond=lambda m: 'X' not in [printable(k.name) for k in m.kids])
            if m is None:
                continue
            x = np.arange(3.)
            m.real.X = x
            user.setdefault(id(m), {})['X'] = x
            what = 'set an attribute'
        elif op[0] == 'fix':
            m = w.pick(op[1])
            w.fix(m, op[2])
            what = 'fix'
        elif op[0] == 'unfix':
            m = w.pick(op[1])
            w.unfix(m, None)
            what = 'unfix'
        elif op[0] == 'copy':
            if len(w.all) > 40:
                continue
            m = w.pick(op[1])
            n = len(w.all)
            from .. import twins
            t = twins.twin(w, m, m.real.copy(), 'a copy of %s' % m.name)
            for a, b in zip(m.objects(), t.objects()):
                if id(a) in user:
                    user[id(b)] = {'X': b.real.X}
                    check(np.array_equal(b.real.X, a.real.X), 'the attribute X of a copy is {!r}', b.real.X)
                if id(a) in used:
                    used[id(b)] = set(used[id(a)])
            what = 'copy'
        if what:
            rec.label(what)
        step(w, rec, before, used, user, what, touched)
    for m in w.all:
        # inner nodes find what is below them; their expressions start with .* as the paths are those from the root
        if m.kind == 'node' and m.parent is not None:
            for n in sorted({printable(o.name) for o in m.objects()[1:]} | {printable(o.name) for o in (m.kids + m.parent.kids)}):
                want = [o for o in m.objects()[1:] if printable(o.name) == n]
                e = r'(.*\.)?' + re.escape(n) + '$'
                got = m.real.grep_param_names(e)
                check(len(got) == len(want) and all(a is b.real for a, b in zip(got, want)), 'at {}, the expression {!r} finds {} instead of {}', m.name, e, [g.hierarchy_name() for g in got], [path_of(o) for o in want])
                if len(want) == 1:
                    check(m.real[e] is want[0].real, 'at {}, the expression {!r} gives another object', m.name, e)
                rec.label('expression at an inner node')
    for r in w.roots():
        if r.kind == 'node':
            for x in case['regex']:
                try:
                    c = re.compile(x)
                except re.error:
                    continue
                paths = [(o, path_of(o)) for o in r.objects()[1:]]
                want = [o for o, p in paths if c.match(p)]
                for e in (x, c):
                    got = r.real.grep_param_names(e)
                    check(len(got) == len(want) and all(a is b.real for a, b in zip(got, want)), 'the expression {!r} finds {} instead of {}', x, [g.hierarchy_name() for g in got], [path_of(o) for o in want])
                if len(want) == 1:
                    check(r.real[x] is want[0].real, 'the expression {!r} gives another object than the only one it finds', x)
                if want:
                    rec.label('expression which finds something')


class Names(object):
    def __init__(self, w, names):
        self.names, self.k, self.w = names, 0, w

    def __call__(self, prefix):
        self.w.count += 1
        self.k += 1
        return self.names[(self.k - 1) % len(self.names)]


def path_of(m):
    out = []
    while m.parent is not None:
        out.append(printable(m.name))
        m = m.parent
    return '.'.join(reversed(out))


def step(w, rec, before, used, user, what, touched=None):
    """Adopt names where a collision allows others, check everything."""
    for m in w.all:
        if m.parent is not None:
            continue
        # a root keeps its name
        check(m.real.name == m.name, 'after {}: the root {} is called {}', what, m.name, m.real.name)
    for m in w.all:
        if m.kind != 'node':
            continue
        old = [k.name for k in m.kids]
        new = [k.real.name for k in m.kids]
        collided = {stem(n) for n in old if old.count(n) > 1}
        for k, o, n in zip(m.kids, old, new):
            check(isinstance(n, str) and stem(n) == stem(o), 'after {}: {} is called {}', what, o, n)
            if stem(o) not in collided:
                check(n == o, 'after {}: {} below {} is called {}, though no sibling of it had the same name', what, o, m.name, n)
        for c in collided:
            rec.mark('a name was taken')
        check(len(set(new)) == len(new), 'after {}: children of {} are called {}', what, m.name, new)
        for k, n in zip(m.kids, new):
            k.name = n
    w.check_structure()
    for m in w.all:
        full = '.'.join([printable(x.name) for x in chain(m)])
        check(m.real.hierarchy_name() == full, 'after {}: the hierarchy name is {} instead of {}', what, m.real.hierarchy_name(), full)
        raw = '.'.join([x.name for x in chain(m)])
        check(m.real.hierarchy_name(adjust_for_printing=False) == raw, 'after {}: the unadjusted hierarchy name is {} instead of {}', what, m.real.hierarchy_name(False), raw)
        flat_names(m, what, rec)
        if m.kind != 'node':
            continue
        names = [k.name for k in m.kids]
        now = {printable(n) for n in names}
        used.setdefault(id(m), set()).update(now)
        own = user.get(id(m), {})
        for k in m.kids:
            p = printable(k.name)
            if p in own:
                check(getattr(m.real, p, None) is own[p], 'after {}: the attribute {} of {} which was there before is lost', what, p, m.name)
                rec.label('name taken by an attribute')
            elif hasattr(type(m.real), p):
                check(getattr(m.real, p) is not k.real, 'after {}: the method {} of {} is hidden by a child', what, p, m.name)
                rec.label('name taken by a method')
            else:
                # names which are printed alike share the attribute
                check(any(getattr(m.real, p, None) is o.real for o in m.kids if printable(o.name) == p), 'after {}: the attribute {} of {} is {!r}', what, p, m.name, type(getattr(m.real, p, None)))
        for p in used[id(m)] - now:
            if p in own:
                check(getattr(m.real, p, None) is own[p], 'after {}: the attribute {} of {} is lost', what, p, m.name)
            elif not hasattr(type(m.real), p):
                check(not hasattr(m.real, p), 'after {}: {} of {} still resolves, though no child is called so (they are {})', what, p, m.name, names)
                rec.label('name no longer in use')
        check(m.real.num_params == len(m.kids), 'after {}: {} has {} parameters instead of {}', what, m.name, m.real.num_params, len(m.kids))
        for adjust in (False, True):
            f = printable if adjust else (lambda x: x)
            check(list(m.real.parameter_names(adjust_for_printing=adjust, recursive=False)) == [f(n) for n in names], 'after {}: names of the children of {} are {}', what, m.name, m.real.parameter_names(recursive=False))
            leaves = ['.'.join(f(x.name) for x in chain(l, m)) for l in m.leaves()]
            check(list(m.real.parameter_names(adjust_for_printing=adjust)) == leaves, 'after {}: parameter names of {} are {} instead of {}', what, m.name, m.real.parameter_names(adjust_for_printing=adjust), leaves)
            # nodes are named before what is below them, and nothing twice
            both = ['.'.join(f(x.name) for x in chain(o, m)) for o in m.objects()[1:]]
            check(list(m.real.parameter_names(adjust_for_printing=adjust, intermediate=True)) == both, 'after {}: names of everything below {} are {} instead of {}', what, m.name, m.real.parameter_names(adjust_for_printing=adjust, intermediate=True), both)
            mine = [f(m.name) + '.' + x for x in both]
            check(list(m.real.parameter_names(add_self=True, adjust_for_printing=adjust, intermediate=True)) == mine, 'after {}: names of everything in {} are {} instead of {}', what, m.name, m.real.parameter_names(add_self=True, adjust_for_printing=adjust, intermediate=True), mine)
            check(len(m.real.parameter_names(add_self=True, adjust_for_printing=adjust)) == len(leaves), 'after {}: the parameter names of {} with its own are too many or too few', what, m.name)
            check(list(m.real.parameter_names(add_self=True, adjust_for_printing=adjust)) == [f(m.name) + '.' + x for x in leaves], 'after {}: parameter names of {} with its own are {}', what, m.name, m.real.parameter_names(add_self=True, adjust_for_printing=adjust))
    for r in w.roots():
        if r.kind != 'node':
            continue
        for o in r.objects()[1:]:
            got = r.real.grep_param_names('^' + re.escape(path_of(o)) + '$')
            want = [x for x in r.objects()[1:] if path_of(x) == path_of(o)]
            if len(want) > 1:
                rec.label('names which are printed alike')
            check(len(got) == len(want) and all(a is b.real for a, b in zip(got, want)), 'after {}: the path {} finds {}', what, path_of(o), [g.hierarchy_name() for g in got])


def chain(m, below=None):
    """From the root (or from below a node) down to m."""
    out = []
    while m is not None and m is not below:
        out.append(m)
        m = m.parent
    return out[::-1]


def flat_names(m, what, rec):
    want = []
    for l in m.leaves():
        name = '.'.join(printable(x.name) for x in chain(l))
        for k in range(l.size):
            want.append((name, None if l.size == 1 else tuple(int(i) for i in np.unravel_index(k, l.shape)), l.fix[k]))
    for include in (True, False):
        got = [str(x) for x in np.asarray(m.real.parameter_names_flat(include_fixed=include)).ravel()]
        exp = [(n, i) for n, i, f in want if include or not f]
        check(len(got) == len(exp), 'after {}: {} flat names of {} instead of {} ({} fixed ones)', what, len(got), m.name, len(exp), 'with' if include else 'without')
        for g, (n, i) in zip(got, exp):
            name, _, index = g.partition('[')
            numbers = tuple(int(x) for x in re.findall(r'\d+', index))
            check(name == n and (numbers == i if i is not None else not index), 'after {}: the flat name {} should be {} with index {}', what, g, n, i)
        if not include and len(exp) < len(want):
            rec.label('flat names without fixed ones')
