"""P33: what is saved to a file is everything, and can be told apart and loaded again."""
import os, pickle, shutil, tempfile
import numpy as np
from ..core import check, arr

SIZES = {'quick': (8, 400), 'thorough': (8, 6000)}
RULE = ('a generated hierarchy (plain or a model with an objective, depth up to 4) with a history of constraints, fixes, structure, values and names (also names which are alike when they are put into one word, and names the file uses itself); roots, inner '
        'nodes, leaves and parts of leaves are saved with save(), to new files and over older ones, with updates on or off, with planned failures of the file at any call and with formats which there are not; after each step everything is compared with a '
        'reference; the file must hold every leaf and the whole array, exactly, and a changed copy must get all of its values back by the documented procedure; '
        'non-trivial: several leaves were saved after a history with constraints or structure')
ASSUMPTIONS = ['h5py is not installed: a stand-in with the rules of h5py writes the file (pbt/h5py_stub.py)', 'names of siblings are distinct when printed']
NAMES = ['a', 'b', 'c', 'a_b', 'b_c', 'a_b_c', 'a b', 'param_array', 'a_1', 'a_b_1']

ALIKE = ['n', [['n', [['n', [['p', [2], 1, None]], 0], ['p', [2], 2, None]], 0], ['n', [['p', [1], 3, None], ['p', [2], 9, None]], 0], ['p', [2], 4, None]], 0]


class Odd(Exception):
    pass


EXC = {'os': OSError, 'value': ValueError, 'own': Odd, 'stop': KeyboardInterrupt, 'type': TypeError}


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w, twins
    from .p06 import setup_ops
    o = twins.ops(st, w, optimize=False)
    h = st.integers(0, 40)
    part = st.one_of(st.none(), st.none(), w.index_expr(st))
    fault = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 12), st.sampled_from(sorted(EXC))).map(list))
    save = st.tuples(st.just('save'), h, part, st.booleans(), fault).map(list)
    other = st.tuples(st.just('format'), h, st.sampled_from(['csv', 'hdf5', 'txt', '', 'HDF4'])).map(list)
    call = st.tuples(st.just('call'), h, st.integers(0, len(NAMES) - 1)).map(list)
    return st.fixed_dictionaries(dict(alike=st.integers(0, 7).map(lambda k: k == 7), tree=st.one_of(twins.tree(st, w), twins.tree(st, w), twins.tree(st, w), w.leaf_spec(st, True)), model=st.booleans(), setup=st.one_of(setup_ops(st, w), st.just([])),
                                      calls=st.lists(call, max_size=5), ops=st.lists(st.one_of(o, o, call, save, save, save, other), min_size=1, max_size=8), last=save))


def run(case, rec):
    from .. import h5py_stub, twins
    from ..world import World
    from .p06 import constraining
    h5py_stub.install()
    w = World()
    top = twins.build(w, ALIKE if case.get('alike') else case['tree'], case['model'])
    if case.get('alike'):
        # four paths which are one word
        a, ab, abc = top.kids
        for m, name in ((a, 'a'), (a.kids[0], 'b'), (a.kids[0].kids[0], 'c'), (a.kids[1], 'b_c'), (ab, 'a_b'), (ab.kids[0], 'c'), (abc, 'a_b_c')):
            m.real.name = m.name = name
        rec.label('four names alike')
    if case['tree'][0] == 'p' and not case.get('alike'):
        w.build(['n', [['p', [2], 3, None]], 0], gradients=False) # somewhere to link it to
    for op in case['calls']:
        rename(w, op)
    for op in case['setup']:
        constraining(w, op)
    looks = [w.check_structure, w.check_values, w.check_constraints, w.check_fixed]
    d = tempfile.mkdtemp(prefix='pbt_p33_')
    changed = bool(case['setup'])
    try:
        for op in case['ops'] + [case['last']]:
            if op[0] == 'save':
                saving(w, op, d, rec, changed)
            elif op[0] == 'format':
                m = w.pick(op[1])
                path = os.path.join(d, 'other')
                h5py_stub.reset()
                try:
                    m.real.save(path, ftype=op[2])
                except Exception:
                    rec.label('a format refused')
                else:
                    check(os.path.exists(path) and os.path.getsize(path), 'saving as {!r} says nothing and writes nothing', op[2])
            elif op[0] == 'call':
                rec.label('a name given') if rename(w, op) else None
            else:
                if op[0] == 'attr' and not (w.pick(op[1], cond=lambda m: m.parent is not None) or w.all[0]).name.isidentifier():
                    continue
                label = twins.apply(w, op)
                changed = changed or bool(label)
                if label:
                    rec.label(label)
            w.observe(looks)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        h5py_stub.reset()


def rename(w, op):
    from .p20 import printable
    m = w.pick(op[1])
    name = NAMES[op[2]]
    if m is None or m.parent is None or any(printable(k.name) == printable(name) for k in m.parent.kids if k is not m):
        return False
    m.real.name = m.name = name
    return True


def saving(w, op, d, rec, changed):
    from .. import h5py_stub, twins
    from ..world import LOG, decode, selected
    m = w.pick(op[1])
    handle, want, shape, part = m.real, np.array(m.v, float), m.shape if m.kind == 'leaf' else (m.size,), False
    if m.kind == 'leaf':
        want = want.reshape(shape)
        if op[2] is not None:
            idx = decode(op[2], m.shape)
            if idx is not None and not np.ndim(want[idx]):
                idx = None
            if idx is not None:
                handle, want, part = m.real[idx], want[idx], True
                shape = want.shape
    path = os.path.join(d, 'old' if op[3] else 'f%d' % len(os.listdir(d)))
    h5py_stub.reset({op[4][0]: EXC[op[4][1]]('planned')} if op[4] else None)
    del LOG[:]
    watch = [(o, o.update_model()) for o in [x.real for x in w.all]]
    try:
        r = handle.save(path)
        failed = None
    except BaseException as e:
        failed = e
    check(not LOG, 'saving {} updates {}', m.name, [o.name for o, _ in LOG])
    check(all(o.update_model() == u for o, u in watch), 'saving {} switches updates', m.name)
    if op[4] and not h5py_stub.PLAN:
        check(failed is not None, 'saving {} says nothing of a {} of the file', m.name, op[4][1])
        check(type(failed) is EXC[op[4][1]] or (isinstance(failed, Exception) and op[4][1] != 'stop' and str(failed) and 'planned' in str(failed) + str(failed.__cause__)),
              'a {} of the file becomes {!r} when {} is saved', op[4][1], failed, m.name)
        check(not h5py_stub.OPEN, 'the file stays open after a {} when {} is saved', op[4][1], m.name)
        w.observe([w.check_values])
        rec.label('a failure of the file')
        h5py_stub.reset()
        handle.save(path)
    elif failed is not None:
        raise failed
    check(not h5py_stub.OPEN, 'the file stays open when {} was saved', m.name)
    h5py_stub.reset()
    f = h5py_stub.File(path, 'r')
    sets = {k: f[k].a for k in f.keys()}
    f.close()
    leaves = m.leaves()
    check('param_array' in sets, 'the file of {} has no param_array, only {}', m.name, sorted(sets))
    whole = sets.pop('param_array')
    check(whole.dtype == float and whole.shape == shape and same(whole, want), 'the param_array of {} is saved as {} instead of {}', m.name, whole.tolist(), want.tolist())
    check(len(sets) == len(leaves), 'the file of {} with {} leaves has {}', m.name, len(leaves), sorted(sets))
    base = [flat_name(m, l) for l in leaves]
    vals = [want if part else np.array(l.v, float).reshape(l.shape) for l in leaves]
    if len(set(base)) == len(base) and 'param_array' not in base:
        for b, v in zip(base, vals):
            check(b in sets, 'the file of {} has no {}, only {}', m.name, b, sorted(sets))
            check(sets[b].dtype == float and sets[b].shape == v.shape and same(sets[b], v), '{} of {} is saved as {} instead of {}', b, m.name, sets[b].tolist(), v.tolist())
    else:
        rec.label('names alike')
        match = {}
        fits = [[k for k in sorted(sets) if k.startswith(b) and sets[k].shape == v.shape and same(sets[k], v)] for b, v in zip(base, vals)]

        def place(i, seen):
            for k in fits[i]:
                if k not in seen:
                    seen.add(k)
                    if k not in match or place(match[k], seen):
                        match[k] = i
                        return True
            return False
        for i in range(len(leaves)):
            check(place(i, set()), '{} of {} is not in the file, only {}', base[i], m.name, {k: v.tolist() for k, v in sets.items()})
    rec.label('saved ' + ('a part of a leaf' if part else 'a ' + m.kind if m.parent is None else 'an inner ' + m.kind))
    if not part and m.size and (m.kind == 'leaf' or m.real._model_initialized_):
        # the documented way back
        twins.drop_foreign(w)
        c = m.real.copy()
        c.param_array.flat[:] = arr(c.param_array, m.size) * 0.5 # stays in every domain in use
        c[:] = whole
        check(same(arr(c.param_array, m.size), np.array(m.v, float)), 'a copy of {} got {} instead of {} back', m.name, arr(c.param_array, m.size).tolist(), list(m.v))
        w.observe([w.check_values])
        rec.label('loaded again')
    if len(leaves) > 1 and changed:
        rec.mark('several leaves after a history')


def same(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def flat_name(m, l):
    from .p20 import printable
    if l is m:
        return printable(l.name)
    parts = []
    while l is not m:
        parts.append(printable(l.name))
        l = l.parent
    return '_'.join(reversed(parts))
