"""P16: what is loaded from a pickle is equal, independent and works."""
import gc, io, json, os, pickle, shutil, subprocess, sys, tempfile
import numpy as np
from ..core import check, REPO

SIZES = {'quick': (8, 240), 'thorough': (8, 6000)}
RULE = ('a generated hierarchy (plain or a model with an objective and data, depth up to 4) or single parameter with a history of constraints, fixes, structure, values, names and optimization; pickled by pickle.dumps, by its own '
        'pickle() to a path or an open file and loaded by pickle or paramz.load, with protocols 2 to 5, alone or together with a handle on a part, with the original kept or thrown away, loaded once or twice; histories on '
        'everything alive afterwards; after each step every object is compared with its reference; pinned cases load in a fresh process; non-trivial: something with a constrained or fixed element was loaded and operated on')
ASSUMPTIONS = ['names of siblings are distinct', 'only roots are pickled (an object with a parent: known finding)', 'gradients of a hierarchy without a model are not specified']
INNER = {'tree': ['n', [['n', [['p', [3], 1, None], ['p', [2], 2, None]], 0]], 0], 'model': False, 'setup': [], 'ops': [], 'inner': True}
PINNED = [
    {'tree': ['n', [['p', [3], 1, ['logistic', -1., 1.]], ['n', [['p', [2, 2], 2, None], ['p', [1], 5, 'logexp']], 0]], 0], 'model': model,
     'setup': [['fix', 1, None, False]], 'ops': [['pickle', 0, 'fresh', 2, False, False, False]]} for model in (False, True)] + [
    {'tree': ['p', [2, 3], 7, ['logistic', 0., 2.]], 'model': False, 'setup': [['fix', 0, ['t', [['i', 0]]], False]], 'ops': [['pickle', 0, 'fresh', 4, False, False, False]]}]


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w, twins
    from .p06 import setup_ops
    o = twins.ops(st, w)
    hows = ['dumps', 'dumps', 'path', 'file', 'tuple', 'load from file', 'twice']
    cp = st.tuples(st.just('pickle'), st.integers(0, 40), st.sampled_from(hows), st.sampled_from([2, 3, 4, 5, -1]), st.booleans(), st.integers(0, 3).map(lambda k: k == 3), st.integers(0, 5).map(lambda k: k == 5)).map(list)
    one = st.fixed_dictionaries(dict(obsar=st.sampled_from(w.SHAPES), seed=st.integers(0, 40), protocol=st.sampled_from([2, 3, 4, 5, -1]), how=st.sampled_from(['dumps', 'path', 'file'])))
    main = st.fixed_dictionaries(dict(tree=st.one_of(twins.tree(st, w), twins.tree(st, w), twins.tree(st, w), w.leaf_spec(st, True)), model=st.booleans(), setup=st.one_of(setup_ops(st, w), setup_ops(st, w), st.just([])),
                                      ops=st.tuples(st.lists(o, max_size=3), cp, st.lists(st.one_of(o, o, o, o, cp), min_size=1, max_size=6)).map(lambda t: t[0] + [t[1]] + t[2])))
    return st.integers(0, 19).flatmap(lambda k: one if k == 19 else main)


def through(obj, how, protocol):
    """Write and read; a list of loaded objects."""
    import paramz
    if how in ('dumps', 'tuple'):
        return [pickle.loads(pickle.dumps(obj, protocol))]
    if how == 'twice':
        s = pickle.dumps(obj, protocol)
        return [pickle.loads(s), pickle.loads(s)]
    d = tempfile.mkdtemp(prefix='pbt_p16_')
    try:
        path = os.path.join(d, 'it.pickle')
        if how == 'path':
            # over an older, longer file
            with open(path, 'wb') as f:
                f.write(b'junk' * 50000)
            obj.pickle(path, protocol)
            return [paramz.load(path)]
        with open(path, 'wb') as f:
            obj.pickle(f, protocol)
            f.write(b'')
        if how == 'load from file':
            with open(path, 'rb') as f:
                return [paramz.load(f)]
        with open(path, 'rb') as f:
            return [pickle.load(f)]
    finally:
        shutil.rmtree(d)


def observable(case, rec):
    from paramz.core.observable_array import ObsAr
    from .. import world as W, twins
    a = np.array(W.values_of(case['seed'], int(np.prod(case['obsar']))), float).reshape(case['obsar'])
    x = ObsAr(a.copy())
    t = twins.Told()
    x.add_observer(t, t.told)
    y, = through(x, case['how'], case['protocol'])
    check(type(y) is ObsAr and y.shape == a.shape and np.array_equal(y, a), 'an observable array was loaded as {!r}', y)
    check(t.n == 0, 'pickling an observable array told its observers')
    check(not np.may_share_memory(np.asarray(x), np.asarray(y)), 'a loaded array shares its values with the original')
    u = twins.Told()
    y.add_observer(u, u.told)
    y[0] = 7.
    check(t.n == 0 and u.n == 1 and np.array_equal(x, a), 'a change of a loaded array: observers of the original were told {} times, its own {} times, the original is {}', t.n, u.n, np.asarray(x).tolist())
    x += 1
    check(t.n == 1 and u.n == 1, 'a change of the original: its observers were told {} times, the ones of the loaded array {} times', t.n, u.n - 1)
    rec.mark('observable array')


def fresh(m, protocol, rec):
    """Load in a process of its own."""
    from .. import ref
    from ..world import RModel
    d = tempfile.mkdtemp(prefix='pbt_p16_')
    try:
        path = os.path.join(d, 'it.pickle')
        m.real.pickle(path, protocol)
        keys = sorted({c for c in m.con if c is not None}, key=str)
        p = subprocess.run([sys.executable, '-B', '-m', 'pbt.reload', path, json.dumps([list(k) if isinstance(k, tuple) else k for k in keys])],
                           cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    finally:
        shutil.rmtree(d)
    check(p.returncode == 0, 'loading {} in a fresh process failed: {}', m.name, p.stderr.decode()[-1500:])
    out = json.loads(p.stdout)

    def compare(m, d):
        check(d['name'] == m.name and d['size'] == m.size and d['type'] == type(m.real).__name__ and d['values'] == [float(x) for x in m.v], 'in a fresh process {} is {}', m.name, d)
        want = {}
        for k, (c, f) in enumerate(zip(m.con, m.fix)):
            if c is not None:
                want.setdefault(str(c), []).append(k)
            if f:
                want.setdefault('fixed', []).append(k)
        check(d['con'] == sorted([k, v] for k, v in want.items()), 'in a fresh process the constraints of {} are {} instead of {}', m.name, d['con'], want)
        if m.kind == 'leaf':
            check(tuple(d['shape']) == m.shape, 'in a fresh process {} has the shape {}', m.name, d['shape'])
        else:
            check(len(d['kids']) == len(m.kids), 'in a fresh process {} has {} children', m.name, len(d['kids']))
            for k, e in zip(m.kids, d['kids']):
                compare(k, e)
    compare(m, out['first'])
    from .. import world as W
    want = W.free_of(m)
    check(len(out['free']) == want.size and np.allclose(out['free'], want, rtol=1e-7, atol=1e-9), 'in a fresh process the free parameters of {} are {} instead of {}', m.name, out['free'], want.tolist())
    nodes = sorted(o.name for o in m.objects() if o.kind == 'node')
    check(not want.size or sorted(set(out['told'])) == nodes, 'in a fresh process setting the free parameters of {} updated {} instead of {}', m.name, out['told'], nodes)
    fixed = sorted(i for i, f in enumerate(m.fix) if f)
    check(out['left'] == ([['fixed', fixed]] if fixed else []), 'in a fresh process constraints of {} were removed by naming them, {} is left', m.name, out['left'])
    rec.mark('loaded in a fresh process')


def run(case, rec):
    from .. import twins, world as W
    from ..world import World, LOG, RModel
    from .p06 import constraining
    if 'obsar' in case:
        return observable(case, rec)
    w = World()
    if case['tree'][0] == 'p':
        w.build(case['tree'], gradients=False)
        w.build(['n', [], 0])
    else:
        twins.build(w, case['tree'], case['model'])
    if case.get('inner'):
        for m in w.all:
            if m.parent is not None:
                try:
                    pickle.loads(pickle.dumps(m.real))
                except Exception as e:
                    check(False, 'an object with a parent cannot be loaded from its pickle: {!r}', e)
        return
    for op in case['setup']:
        constraining(w, op)
    marked = False
    for op in case['ops']:
        if op[0] == 'pickle':
            if len(w.all) > 60:
                continue
            m = w.pick(op[1], cond=lambda m: m.parent is None)
            how, protocol, forget, off = op[2], op[3], op[4], op[6]
            twins.drop_foreign(w)
            if how == 'fresh':
                fresh(m, protocol, rec)
                continue
            if off:
                m.real.update_model(False)
            watch = []
            for o in m.objects():
                t = twins.Told()
                o.real.add_observer(t, t.told)
                watch.append((o, t))
            old = (m.real.value, np.array(m.real.gradient)) if isinstance(m.real, RModel) else None
            del LOG[:]
            h = None
            if how == 'tuple':
                h = m.objects()[op[1] % len(m.objects())]
                (real, part), = through((m.real, h.real), how, protocol)
                loaded = [real]
            else:
                loaded = through(m.real, how, protocol)
            mine = [o for o in m.objects()]
            check(not any(x is o.real for x, _ in LOG for o in mine), 'pickling {} updated it', m.name)
            check(all(t.n == 0 for _, t in watch), 'pickling {} told observers of the original', m.name)
            if old is not None:
                check(m.real.value == old[0] and np.array_equal(m.real.gradient, old[1], equal_nan=True), 'pickling {} changed the objective or gradients of the original', m.name)
            what = '%s loaded from a pickle' % m.name
            ts = [twins.twin(w, m, real, what) for real in loaded]
            if h is not None:
                check(part is ts[0].objects()[mine.index(h)].real, '{}: a handle on {} which was pickled with it is no longer one on the part', what, h.name)
            if off:
                m.real.update_model(True)
                for real in loaded:
                    check(not bool(real.update_model()), '{}: updates were off and are on now', what)
                    real.update_model(True)
                rec.label('pickled while updates are off')
            for o, x in watch:
                x.n = 0
            for real in loaded:
                real.trigger_update()
            check(all(x.n == 0 for _, x in watch), 'updating {} told observers of the original', what)
            for o, x in watch:
                o.real.remove_observer(x)
            for t in ts:
                twins.results(t, what)
            rec.label('pickled a %s by %s' % ('model' if isinstance(m.real, RModel) else m.kind, how))
            if any(m.fix) or any(k is not None for k in m.con):
                marked = True
            if op[1] % 3 == 0:
                twins.in_order(w, ts[-1], op[1], rec, what)
            twins.everything(w, rec, what)
            if forget:
                # the original is gone
                gone = {id(o) for o in m.objects()}
                w.all = [o for o in w.all if id(o) not in gone]
                del m, mine, watch, o, h
                LOG[:] = []
                gc.collect()
                rec.label('the original is gone')
                twins.everything(w, rec, 'after the original is gone')
            continue
        del LOG[:]
        label = twins.apply(w, op)
        if label:
            rec.label(label)
            if marked:
                rec.mark('operations after loading')
        twins.everything(w, rec, label)
        if op[0] in ('set', 'free', 'arith', 'optimize', 'attr') and label:
            hit = {id(_top(o)) for o, _ in LOG}
            check(len(hit) <= 1, 'a change of one hierarchy ({}) updated objects of {} hierarchies', label, len(hit))

    for m in w.all:
        if m.parent is None:
            twins.in_order(w, m, len(case['ops']), rec, 'in the end')


def _top(real):
    while real._parent_ is not None:
        real = real._parent_
    return real
