"""P25: traversals visit every object once, parents first, whatever visitors did before."""
from ..core import check

SIZES = {'quick': (8, 600), 'thorough': (8, 15000)}
RULE = ('one or two generated hierarchies (depth up to 4) and a history of linking, moving, unlinking, copying, and traversals down or over parents from any object (also down from parts of leaves) with extra arguments, whose visitor may raise at any object '
        '(also exceptions which are no Exception), and may start traversals of an object of another hierarchy, or of what is below the visited object, which may raise as well; every sequence of visits is compared with a recursive reference; '
        'non-trivial: a traversal of several objects after a visitor raised or inside of a visitor')
ASSUMPTIONS = ['a visitor does not change the hierarchy it is called from, and traverses only what is below the object it visits, going down']


class Stop(BaseException):
    pass


class Failure(Exception):
    pass


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import struct_ops, switch_op
    h = st.integers(0, 40)
    s = struct_ops(st, w, dc=False) + [switch_op(st)]
    at = st.one_of(st.none(), st.none(), st.integers(0, 12))
    one = st.tuples(st.sampled_from(['down', 'down', 'parents', 'parents']), h, at, st.sampled_from(['failure', 'stop', 'key']), st.integers(0, 2)).map(list)
    nested = st.tuples(one, st.integers(0, 8), one).map(lambda t: ['nested'] + list(t))
    within = st.tuples(st.just('within'), h, st.integers(1, 3), st.one_of(st.none(), st.integers(0, 6))).map(list)
    trav = st.one_of(one, one, nested, within)
    part = st.tuples(st.just('part'), h, w.index_expr(st), st.sampled_from([None, None, 'failure', 'stop', 'key']), st.booleans()).map(list)
    so = st.integers(0, len(s) - 1).flatmap(lambda i: s[i]).map(list)
    return st.fixed_dictionaries(dict(trees=st.lists(w.node_spec(st, max_leaves=8), min_size=1, max_size=2),
                                      ops=st.lists(st.one_of(trav, trav, trav, part, so, h.map(lambda k: ['copy', k])), min_size=3, max_size=12)))


def below(m):
    return m.objects()


def over_parents(m):
    """Each ancestor and each object below an ancestor, without the starting object and what is below it."""
    out = []
    if m.parent is not None:
        top = m
        while top.parent is not None:
            top = top.parent
        mine = {id(o) for o in m.objects()}
        out = [o for o in top.objects() if id(o) not in mine]
    return out


def traverse(w, op, rec, inner=None, others=None):
    """Run a traversal; compare."""
    what, h, at, how, extra = op
    ms = [o for o in w.all if others is None or others(o)]
    if not ms:
        return
    m = ms[h % len(ms)]
    want = below(m) if what == 'down' else over_parents(m)
    seen = []
    args = ['first', 'second'][:extra]
    kw = {'third': 3} if extra == 2 else {}
    error = {'failure': Failure, 'stop': Stop, 'key': KeyError}[how]

    def visit(o, *a, **k):
        check(list(a) == args and k == kw, 'a visitor was given {} {} instead of {} {}', a, k, args, kw)
        seen.append(o)
        if inner is not None and len(seen) == inner[0] + 1:
            inner[1](m)
        if at is not None and len(seen) == at + 1:
            raise error(o.name)
    f = m.real.traverse if what == 'down' else m.real.traverse_parents
    raised = False
    try:
        f(visit, *args, **kw)
    except error:
        raised = True
    n = len(want) if at is None else min(at + 1, len(want))
    check(raised == (at is not None and at < len(want)), 'a visitor which {} at visit {} of {}: the exception {}', 'raises' if at is not None else 'does not raise', at, len(want), 'came out' if raised else 'did not come out')
    kind = 'traversing from' if what == 'down' else 'traversing parents of'
    real = {id(o.real): o for o in w.all}
    names = [real[id(o)].name if id(o) in real else '?' for o in seen]
    if what == 'down':
        check(len(seen) == n and all(a is b.real for a, b in zip(seen, want)), '{} {} visited {} instead of {}', kind, m.name, names, [o.name for o in want[:n]])
    else:
        got = [id(o) for o in seen]
        check(len(set(got)) == len(got), '{} {} visited {}: some more than once', kind, m.name, names)
        check(set(got) <= {id(o.real) for o in want}, '{} {} visited {}, which is more than {}', kind, m.name, names, [o.name for o in want])
        check(len(got) == n, '{} {} visited {} instead of {}', kind, m.name, names, [o.name for o in want])
        # parents come before their children and siblings in order
        pos = {k: i for i, k in enumerate(got)}
        for o in want:
            if id(o.real) in pos and o.parent is not None:
                check(id(o.parent.real) in pos and pos[id(o.parent.real)] < pos[id(o.real)], '{} {} visited {} before its parent: {}', kind, m.name, o.name, names)
    rec.label(('down' if what == 'down' else 'over parents') + (' raising' if raised else ''))
    return len(seen) > 1, raised


def within(w, op, rec):
    """The visit of an object traverses what is below it, and may raise there."""
    m = w.pick(op[1])
    of = {id(o.real): o for o in m.objects()}
    outer = []

    def visit(o):
        outer.append(o)
        check(id(o) in of, 'traversing from {} visited an object which is not below it', m.name)
        mine = of[id(o)]
        want = mine.objects()
        if len(outer) % op[2]:
            return
        seen = []

        def inside(x):
            seen.append(x)
            if op[3] is not None and len(seen) == op[3] + 1:
                raise Failure(x.name)
        try:
            o.traverse(inside)
        except Failure:
            pass
        want = want if op[3] is None else want[:op[3] + 1]
        check(len(seen) == len(want) and all(a is b.real for a, b in zip(seen, want)), 'the visit of {} traversed what is below it and visited {} of {} objects', mine.name, len(seen), len(want))
        if len(seen) > 1:
            rec.mark('inside of its own visit')
    m.real.traverse(visit)
    want = m.objects()
    check(len(outer) == len(want) and all(a is b.real for a, b in zip(outer, want)), 'traversing from {} with visits which traverse visited {} of {} objects', m.name, len(outer), len(want))
    rec.label('visits which traverse')


def part(w, op, rec):
    """A part of a leaf has nothing below it."""
    from ..world import decode
    m = w.pick(op[1], 'leaf')
    if m is None:
        return
    idx = decode(op[2], m.shape)
    handle = m.real if idx is None else m.real[idx]
    if not hasattr(handle, 'traverse'):
        return # a number
    for how in [op[3]] + [None] * 2:
        seen = []

        def visit(o):
            seen.append(o)
            if how is not None:
                raise {'failure': Failure, 'stop': Stop, 'key': KeyError}[how]('x')
        try:
            handle.traverse(visit)
            check(how is None, 'the exception of a visitor of a part of {} did not come out', m.name)
        except (Failure, Stop, KeyError):
            if how is None:
                raise
        check(len(seen) == 1 and seen[0] is handle, 'traversing a part of {} visited {} objects', m.name, len(seen))
        if op[4]:
            handle = m.real if idx is None else m.real[idx]
    rec.label('a part of a leaf')


def run(case, rec):
    from ..world import World, root
    from .p05 import structural
    from .. import twins
    w = World()
    for t in case['trees']:
        w.build(t, gradients=False)
    raised = False
    for op in case['ops']:
        if op[0] in ('down', 'parents'):
            r = traverse(w, op, rec)
            if r and r[0] and raised:
                rec.mark('after a visitor raised')
            raised = raised or bool(r and r[1])
        elif op[0] == 'within':
            within(w, op, rec)
        elif op[0] == 'nested':
            def start(m):
                r = traverse(w, op[3], rec, others=lambda o: root(o) is not root(m))
                if r and r[0]:
                    rec.mark('inside of a visitor')
            r = traverse(w, op[1], rec, inner=(op[2], start))
            raised = raised or bool(r and r[1])
        elif op[0] == 'part':
            part(w, op, rec)
        elif op[0] == 'copy':
            if len(w.all) < 40:
                m = w.pick(op[1])
                twins.twin(w, m, m.real.copy(), 'a copy of %s' % m.name)
                rec.label('copy')
        else:
            label = structural(w, op)
            if label:
                rec.label(label)
    # nothing was left behind: every object finds all of its own
    for k in range(len(w.all)):
        traverse(w, ['down', k, None, 'failure', 0], rec)
        traverse(w, ['parents', k, None, 'failure', 0], rec)
    w.check_structure()
