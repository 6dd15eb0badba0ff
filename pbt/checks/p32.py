"""P32: index operations which a user adds stay with their elements like constraints do."""
import copy as copymodule
import pickle
import numpy as np
from ..core import check

SIZES = {'quick': (8, 500), 'thorough': (8, 5000)}
RULE = ('a generated hierarchy of objects with an index operation of their own (tags, any number per element; plain or a model, depth up to 4) and a history interleaving tagging and untagging of selections, leaves and nodes and replacing the tags of a root '
        'with constraints, fixes, values, linking, moving, unlinking, copying, pickling and optimization; after each step the tags of every element as seen from every object are compared with a reference, with everything else; '
        'and with what is printed; non-trivial: structure was changed, copied or pickled while some but not all elements have tags')
ASSUMPTIONS = ['every object of a hierarchy has the index operation from its construction', 'names of siblings are distinct']
TAGS = ['a', 'b', 'c', 3, ('x', 1)]


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w, twins
    from .p06 import setup_ops, struct_ops, switch_op
    o = twins.ops(st, w)
    sops = struct_ops(st, w) + [switch_op(st)]
    structure = st.integers(0, len(sops) - 1).flatmap(lambda i: sops[i]).map(list)
    h = st.integers(0, 40)
    sel = st.one_of(st.none(), w.index_expr(st), w.index_expr(st))
    t = st.integers(0, len(TAGS) - 1)
    tag = st.tuples(st.just('tag'), h, sel, t).map(list)
    tags = st.one_of(tag, tag, tag, st.tuples(st.just('untag'), h, sel, st.one_of(st.none(), st.lists(t, min_size=1, max_size=2))).map(list),
                     st.tuples(st.just('untag there'), h, sel, st.integers(0, 5)).map(list),
                     st.tuples(st.just('refused'), h, st.sampled_from(['tags', 'constraints', 'fixed', 'priors', '']), st.booleans()).map(list),
                     st.tuples(st.just('replace tags'), h, st.lists(st.tuples(t, st.lists(st.integers(0, 30), max_size=5)).map(list), max_size=3)).map(list))
    twin = st.tuples(st.sampled_from(['copy', 'copy', 'deepcopy', 'pickle']), h).map(list)
    show = st.tuples(st.just('show'), h, st.booleans()).map(list)
    return st.fixed_dictionaries(dict(tree=twins.tree(st, w), model=st.booleans(), setup=st.one_of(setup_ops(st, w, 1), st.just([])), tags=st.lists(tag, min_size=1, max_size=4),
                                      ops=st.lists(st.one_of(o, o, structure, structure, tags, tags, twin, show), min_size=2, max_size=9), look=st.integers(0, 7)))


def run(case, rec):
    from .. import twins, world as W
    from ..world import World
    from ..tagged import TParam, TNode, TModel
    from .p06 import constraining
    w = World()
    w.make_leaf, w.make_node, w.make_model = TParam, TNode, TModel
    twins.build(w, case['tree'], case['model'])
    for op in case['tags']:
        tagging(w, op)
    for op in case['setup']:
        constraining(w, op)
    everything(w, rec, 'at first')
    w.turn, w.sparse = case.get('look', 0), case.get('look', 0) > 4
    for step, op in enumerate(case['ops']):
        last = step == len(case['ops']) - 1
        mixed = any(any(m.tags) and not all(m.tags) for m in w.roots())
        if op[0] == 'show':
            m = w.pick(op[1], nonempty=True)
            if m is not None:
                shown(m, op[2])
                rec.label('shown')
            continue
        if op[0] in ('copy', 'deepcopy', 'pickle'):
            if len(w.all) > 60:
                continue
            m = w.pick(op[1]) if op[0] == 'copy' else w.pick(op[1], cond=lambda m: m.parent is None)
            twins.drop_foreign(w)
            if op[0] == 'pickle':
                real = pickle.loads(pickle.dumps(m.real))
            else:
                real = m.real.copy() if op[0] == 'copy' else copymodule.deepcopy(m.real)
            t = twins.twin(w, m, real, 'a %s of %s' % (op[0], m.name))
            label = op[0]
            if mixed:
                rec.mark('copied with tags')
        else:
            label = tagging(w, op)
            if label is None:
                label = twins.apply(w, op)
                if mixed and label and (label.startswith(('link', 'unlink', 'move')) and 'refused' not in label):
                    rec.mark('structural change with tags')
        if label:
            rec.label(label)
        everything(w, rec, label, last)


def tagging(w, op):
    from ..world import locate
    from paramz.core.index_operations import ParameterIndexOperations
    if op[0] == 'tag':
        m = w.pick(op[1])
        h, els = w.target(m, op[2])
        h.tag(TAGS[op[3]])
        for k in els:
            l, e = locate(m, k)
            l.tags[e] |= {TAGS[op[3]]}
        return 'tag a ' + m.kind
    if op[0] in ('untag', 'untag there'):
        m = w.pick(op[1])
        h, els = w.target(m, op[2])
        if op[0] == 'untag':
            what = [] if op[3] is None else [TAGS[k] for k in op[3]]
        else:
            there = sorted({t for ts in m.tags for t in ts}, key=repr)
            if not there:
                return ''
            what = [there[op[3] % len(there)]]
        got = h.untag(*what)
        gone = []
        for k in els:
            l, e = locate(m, k)
            left = l.tags[e] - set(what) if what else frozenset()
            if left != l.tags[e]:
                gone.append(k)
            l.tags[e] = left
        check(sorted(int(i) for i in np.asarray(got).ravel()) == sorted(set(gone)), 'removing tags {} of {} reports the elements {} instead of {}', what, m.name, np.asarray(got).tolist(), sorted(set(gone)))
        return 'untag a ' + m.kind
    if op[0] == 'refused':
        # a name is taken once, and only what is there can be removed
        m = w.pick(op[1])
        there = op[2] in ('tags', 'constraints')
        if op[3] == there:
            try:
                m.real.add_index_operation(op[2], ParameterIndexOperations()) if there else m.real.remove_index_operation(op[2])
            except AttributeError:
                return 'a name refused'
            check(False, '{} an index operation called {!r} of {} is not refused', 'adding' if there else 'removing', op[2], m.name)
        return ''
    if op[0] == 'replace tags':
        m = w.pick(op[1], cond=lambda m: m.parent is None and m.size)
        if m is None:
            return ''
        new = {}
        for t, els in op[2]:
            if els:
                new.setdefault(TAGS[t], set()).update(k % m.size for k in els)
        io = ParameterIndexOperations({t: np.array(sorted(els)) for t, els in new.items()})
        m.real.tags = io
        for k in range(m.size):
            l, e = locate(m, k)
            l.tags[e] = frozenset(t for t in new if k in new[t])
        return 'replace the tags of a ' + m.kind
    return None


def check_tags(w):
    for m in w.seen():
        want = {}
        for k, ts in enumerate(m.tags):
            for t in ts:
                want.setdefault(t, []).append(k)
        got = {t: sorted(int(i) for i in np.asarray(ind).ravel()) for t, ind in m.real.tags.items()}
        check(got == want, 'tags of {}: {} instead of {}', m.name, got, want)
        if m.size:
            per = m.real.tags.properties_for(np.arange(m.size))
            check([set(p) for p in per] == [set(t) for t in m.tags], 'tags per element of {}: {} instead of {}', m.name, list(per), m.tags)


def shown(m, html):
    """The tags are printed next to the constraints."""
    text = m.real._repr_html_() if html else str(m.real)
    check('tags' in text and 'constraints' in text, 'printing {} shows no tags: {!r}', m.name, text)
    got = m.real.get_property_string('tags')
    want = []
    for l in m.leaves():
        n = {}
        for ts in l.tags:
            for t in ts:
                n[t] = n.get(t, 0) + 1
        want.append(sorted(('%s' if k == l.size else '{%s}') % ('#' if t == ('x', 1) else t,) for t, k in n.items()))
    check([sorted(words(g)) for g in got] == want, 'the tags of {} are described as {} instead of {}', m.name, got, want)
    for l in m.leaves():
        if m.kind == 'node':
            line = [x for x in text.splitlines() if l.name in x]
            i = m.leaves().index(l)
            check(any(got[i] in x for x in line), 'printing {} shows the tags of {} as {!r} instead of {!r}', m.name, l.name, line, got[i])


def words(s):
    return s.replace("('x', 1)", '#').split() if '#' not in s else s.split()


def everything(w, rec, what, last=True):
    from .. import twins
    w.observe([w.check_structure, w.check_values, w.check_constraints, w.check_fixed, lambda: check_tags(w)], last)
