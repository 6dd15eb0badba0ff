"""P15: copies are equal, detached and independent."""
import copy as copymodule
import numpy as np
from ..core import check

SIZES = {'quick': (8, 400), 'thorough': (8, 6000)}
RULE = ('a generated hierarchy (plain or a model with an objective, depth up to 4) with a history of constraints, fixes, structure, values, names and optimization, copies of any of its objects or of copies (copy(); copy.deepcopy '
        'of roots; also while updates are off), and histories on originals and copies afterwards, linking between them included; after each step every object of both sides is compared with its reference; '
        'non-trivial: a copy of an object with a constrained or fixed element was followed by operations')
ASSUMPTIONS = ['names of siblings are distinct', 'gradients of a copied hierarchy without a model are not specified, nor gradients of copied parameters']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w, twins
    from .p06 import setup_ops
    o = twins.ops(st, w)
    cp = st.tuples(st.just('copy'), st.integers(0, 40), st.sampled_from(['copy', 'copy', 'deepcopy']), st.integers(0, 5).map(lambda k: k == 5)).map(list)
    return st.fixed_dictionaries(dict(tree=twins.tree(st, w), model=st.booleans(), setup=st.one_of(setup_ops(st, w), setup_ops(st, w), st.just([])),
                                      ops=st.tuples(st.lists(o, max_size=3), cp, st.lists(st.one_of(o, o, o, o, cp), min_size=1, max_size=6)).map(lambda t: t[0] + [t[1]] + t[2])))


def run(case, rec):
    from .. import twins, world as W
    from ..world import World, LOG, RModel
    from .p06 import constraining
    w = World()
    twins.build(w, case['tree'], case['model'])
    for op in case['setup']:
        constraining(w, op)
    told = []          # (root of the observed, counter)
    marked = False
    for op in case['ops']:
        if op[0] == 'copy':
            if len(w.all) > 60:
                continue
            m = w.pick(op[1]) if op[2] == 'copy' else w.pick(op[1], cond=lambda m: m.parent is None)
            roots = {id(W.root(o)): W.root(o) for o in w.all}
            watch = []
            for o in W.root(m).objects():
                t = twins.Told()
                o.real.add_observer(t, t.told)
                watch.append((o, t))
            off = op[3]
            root = W.root(m)
            twins.drop_foreign(w)
            old = (root.real.value, np.array(root.real.gradient)) if isinstance(root.real, RModel) else None
            if off:
                m.real.update_model(False)
            del LOG[:]
            for o, t in watch:
                t.n = 0
            c = m.real.copy() if op[2] == 'copy' else copymodule.deepcopy(m.real)
            check(all(any(x is o for o in _objects(c)) for x, _ in LOG), 'copying {} updated {}', m.name, [x.name for x, _ in LOG if not any(x is o for o in _objects(c))])
            check(all(t.n == 0 for _, t in watch), 'copying {} told observers of the original', m.name)
            if old is not None:
                check(root.real.value == old[0] and np.array_equal(root.real.gradient, old[1], equal_nan=True), 'copying {} changed the objective or gradients of the original', m.name)
            check(not c.has_parent(), 'a copy of {} has a parent', m.name)
            what = 'a copy of %s' % m.name
            t = twins.twin(w, m, c, what)
            if off:
                m.real.update_model(True)
                c.update_model(True)
                rec.label('copied while updates are off')
            for o, x in watch:
                x.n = 0
            # the copy has its own observers only
            c.trigger_update()
            check(all(x.n == 0 for _, x in watch), 'updating a copy of {} told observers of the original', m.name)
            for o, x in watch:
                o.real.remove_observer(x)
            twins.results(t, what)
            rec.label('copy of a ' + ('root' if m.parent is None else 'inner ' + m.kind) + (' by deepcopy' if op[2] != 'copy' else ''))
            if any(m.fix) or any(k is not None for k in m.con):
                marked = True
            if op[1] % 3 == 0:
                twins.in_order(w, t, op[1], rec, what)
            twins.everything(w, rec, what)
            continue
        del LOG[:]
        label = twins.apply(w, op)
        if label:
            rec.label(label)
            if marked:
                rec.mark('operations after copying a constrained object')
        twins.everything(w, rec, label)
        if op[0] in ('set', 'free', 'arith', 'optimize', 'attr') and label:
            # only one hierarchy was told
            hit = {id(_top(o)) for o, _ in LOG}
            check(len(hit) <= 1, 'a change of one hierarchy ({}) updated objects of {} hierarchies', label, len(hit))

    for m in w.all:
        if m.parent is None:
            twins.in_order(w, m, len(case['ops']), rec, 'in the end')


def _objects(real):
    out = [real]
    for p in getattr(real, 'parameters', []):
        out += _objects(p)
    return out


def _top(real):
    while real._parent_ is not None:
        real = real._parent_
    return real
