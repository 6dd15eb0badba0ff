"""P11: who is told of a change, with which values and in which order; nobody while updates are off."""
import numpy as np
from ..core import check, arr

SIZES = {'quick': (8, 600), 'thorough': (8, 9000)}
RULE = ('a generated hierarchy (depth up to 4; root a plain node or a model) in which every object carries an observer and nodes note their updates, partial constraints and fixes, and a history of changes '
        '(assignment by index, slice, attribute, name, regular expression; in-place arithmetic on leaves, selections (also ones kept from earlier) and concatenations; node assignment, free-space assignment, randomizing, constraining, fixing to a value) '
        'interleaved with linking new objects, unlinking and re-linking (also while updates are off) and switching updates off and on at any object; after each step the sequence of updates is examined; non-trivial: a change below an inner node was told to several objects, or a change was made while updates were off')
ASSUMPTIONS = ['parts of a parameter are not kept across a change of the structure']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import con_ops, setup_ops
    h = st.integers(0, 30)
    vals = st.lists(st.integers(-40, 40).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    e = st.one_of(st.none(), w.index_expr(st))
    arith = st.tuples(st.sampled_from(['+', '-', '*', '/']), st.integers(1, 8).map(lambda k: k / 4. + 1.0625)).map(list)
    c = con_ops(st, w)
    main = [
        st.tuples(st.just('set'), h, e, vals),
        st.tuples(st.just('set'), h, e, vals),
        st.tuples(st.just('set node'), h, vals),
        st.tuples(st.just('set slice of node'), h, st.integers(0, 6), st.integers(1, 6), vals),
        st.tuples(st.just('attr'), h, vals),
        st.tuples(st.just('name'), h, h, vals),
        st.tuples(st.just('regex'), st.lists(h, min_size=1, max_size=3), vals),
        st.tuples(st.just('regex arith'), st.lists(h, min_size=1, max_size=3), arith),
        st.tuples(st.just('arith'), h, arith),
        st.tuples(st.just('attr arith'), h, arith),
        st.tuples(st.just('view'), h, w.index_expr(st), vals),
        st.tuples(st.just('view arith'), h, w.index_expr(st), arith),
        st.tuples(st.just('hold'), h, w.index_expr(st)),
        st.tuples(st.just('held'), h, vals),
        st.tuples(st.just('held arith'), h, arith),
        st.tuples(st.just('free'), h, vals),
        st.tuples(st.just('rand'), h, vals),
        st.tuples(st.just('fixto'), h, e, st.integers(-40, 40)),
        st.tuples(st.just('updates'), h, st.sampled_from(['on', 'off', 'off', 'toggle'])),
        st.tuples(st.just('updates'), h, st.sampled_from(['on', 'off', 'on', 'toggle'])),
        st.tuples(st.just('new'), h, w.tree_spec(st, max_leaves=2), st.one_of(st.none(), st.integers(-3, 3))),
        st.tuples(st.just('unlink'), h, st.integers(0, 2)),
        st.tuples(st.just('back'), h, h, st.one_of(st.none(), st.integers(-3, 3))),
        st.tuples(st.just('back'), h, h, st.one_of(st.none(), st.integers(-3, 3))),
    ]
    oc = st.integers(0, len(c) - 1).flatmap(lambda i: c[i]).map(list)
    om = st.integers(0, len(main) - 1).flatmap(lambda i: main[i]).map(list)
    return st.fixed_dictionaries(dict(tree=w.node_spec(st, dc=True, max_leaves=6), top=st.booleans(),
                                      setup=st.one_of(setup_ops(st, w), st.just([]), st.just([])), ops=st.lists(st.one_of(om, om, om, om, om, oc), min_size=2, max_size=12)))


class Watch(object):
    """An observer of one object; it notes the values of the object whenever it is told."""
    def __init__(self, real, log):
        self.real, self.log = real, log

    def told(self, me, which=None):
        self.log.append((self.real, np.array(self.real.param_array, float).ravel().copy()))


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}


def inplace(h, op, k):
    if op == '+':
        h += k
    elif op == '-':
        h -= k
    elif op == '*':
        h *= k
    else:
        h /= k
    return h


def run(case, rec):
    from ..world import World, RModel, LOG, set_flat, ref, decode, selected, fit, objective, locate, ancestors
    from .p06 import constraining
    from .p05 import clip
    w = World()
    if case['top']:
        top = w.build(case['tree'], top=lambda name, kids: RModel(name, kids, 'coupled'), gradients=False)
    else:
        top = w.build(case['tree'], gradients=False)
    for op in case['setup']:
        constraining(w, op)
    seen = []            # what the observers saw
    watched = []

    def watch_all():
        for m in w.all:
            if not any(m is x for x, _ in watched):
                o = Watch(m.real, seen)
                m.real.add_observer(o, o.told, 5)
                watched.append((m, o))
    watch_all()
    on = True
    held = []            # parts of parameters kept by the user
    away = []            # unlinked objects
    for op in case['ops']:
        del LOG[:]
        del seen[:]
        linked = False
        changed, what = None, op[0]      # changed: flat elements of the root
        state = 'silent'
        old = {id(l): l.v.copy() for l in top.leaves()}
        if what == 'set':
            m = w.pick(op[1], 'leaf')
            if m is None:
                continue
            els = w.assign(m, op[2], op[3])
            if els == [] and decode(op[2], m.shape) is not None:
                state = 'free'
            changed = [(m, els)]
        elif what == 'set node':
            m = w.pick(op[1], 'node')
            changed = [(m, w.assign(m, None, op[2]))]
        elif what == 'set slice of node':
            m = w.pick(op[1], 'node')
            sl = slice(op[2], op[2] + op[3])
            els = list(range(m.size))[sl]
            x = np.array([fit(op[4][i % len(op[4])], m.con[k]) for i, k in enumerate(els)], float)
            m.real[sl] = x
            for k, a in zip(els, x):
                l, e = locate(m, k)
                l.v[e] = a
            changed = [(m, els)]
        elif what in ('attr', 'attr arith'):
            m = w.pick(op[1], cond=lambda m: m.parent is not None)
            if m is None:
                continue
            if what == 'attr':
                x = values_for(m, op[2])
                setattr(m.parent.real, m.name, x.reshape(m.shape) if m.kind == 'leaf' else x)
                set_flat(m, x)
            else:
                if m.kind == 'node' or not legit(m.con, OPS[op[2][0]](m.v, op[2][1])):
                    continue
                setattr(m.parent.real, m.name, inplace(getattr(m.parent.real, m.name), *op[2]))
                m.v = OPS[op[2][0]](m.v, op[2][1])
            changed = [(m, list(range(m.size)))]
        elif what == 'name':
            n = w.pick(op[1], 'node')
            below = [o for o in n.objects() if o is not n]
            if not below:
                continue
            m = below[op[2] % len(below)]
            x = values_for(m, op[3])
            n.real['.*%s$' % m.name] = x.reshape(m.shape) if m.kind == 'leaf' else x
            set_flat(m, x)
            changed = [(m, list(range(m.size)))]
        elif what in ('regex', 'regex arith'):
            ls = list(dict.fromkeys(w.pick(i, 'leaf') for i in op[1]))
            if ls[0] is None or len(ls) < 2:
                continue
            ls = [l for l in top.leaves() if l in ls]
            c = top.real['|'.join('.*%s$' % l.name for l in ls)]
            if what == 'regex':
                xs = [values_for(l, op[2]) for l in ls]
                c[:] = np.concatenate(xs)
            else:
                xs = [OPS[op[2][0]](l.v, op[2][1]) for l in ls]
                if not all(legit(l.con, x) for l, x in zip(ls, xs)):
                    continue
                inplace(c, *op[2])
            for l, x in zip(ls, xs):
                l.v = x
            changed = [(l, list(range(l.size))) for l in ls]
        elif what == 'arith':
            m = w.pick(op[1], 'leaf')
            if m is None or not legit(m.con, OPS[op[2][0]](m.v, op[2][1])):
                continue
            inplace(m.real, *op[2])
            m.v = OPS[op[2][0]](m.v, op[2][1])
            changed = [(m, list(range(m.size)))]
        elif what in ('held', 'held arith'):
            if not held:
                continue
            m, h, sel, then = held[op[1] % len(held)]
            fl = sel.ravel()
            if what == 'held':
                x = np.array([fit(op[2][i % len(op[2])], m.con[int(k)]) for i, k in enumerate(fl)], float)
                h[...] = x.reshape(sel.shape)
            else:
                x = OPS[op[2][0]](m.v[fl], op[2][1])
                if not legit([m.con[int(k)] for k in fl], x):
                    continue
                inplace(h, *op[2])
            m.v[fl] = x
            changed = [(m, [int(k) for k in fl])]
            if then != on:
                rec.label('part kept across switching updates')
        elif what in ('view', 'view arith', 'hold'):
            m = w.pick(op[1], 'leaf')
            if m is None:
                continue
            idx = decode(op[2], m.shape, keep_array=True)
            if idx is None:
                continue
            sel = np.asarray(selected(idx, m.shape))
            h = m.real[idx]
            if sel.size == 0 or not np.may_share_memory(np.asarray(h), np.asarray(m.real)):
                continue           # only views write through
            fl = sel.ravel()
            if what == 'hold':
                held.append((m, h, sel, on))
                continue
            if what == 'view':
                x = np.array([fit(op[3][i % len(op[3])], m.con[int(k)]) for i, k in enumerate(fl)], float)
                h[...] = x.reshape(sel.shape)
            else:
                x = OPS[op[3][0]](m.v[fl], op[3][1])
                if not legit([m.con[int(k)] for k in fl], x):
                    continue
                inplace(h, *op[3])
            m.v[fl] = x
            changed = [(m, [int(k) for k in fl])]
        elif what in ('free', 'rand'):
            m = w.pick(op[1])
            n = sum(1 for f in m.fix if not f)
            x = np.array([op[2][i % len(op[2])] / 4. + 0.25 * i for i in range(n)], float)
            if what == 'free':
                m.real.optimizer_array = x.copy()
            else:
                m.real.randomize(lambda size: x[:size].copy())
            w.adopt_free(m, x)
            changed = [(m, [k for k, f in enumerate(m.fix) if not f])]
            if what == 'rand' and on:
                state = 'everything once'
        elif what == 'fixto':
            m = w.pick(op[1], 'leaf')
            if m is None or len(set(m.con)) > 1:
                continue
            c = m.con[0]
            v = fit(op[3] / 4. + 0.0625, list(c) if isinstance(c, tuple) else c)
            els = w.fix(m, op[2], value=v)
            changed = [(m, els)]
            state = 'free' if not els else 'silent'
        elif what == 'updates':
            m = w.pick(op[1])
            new = {'on': True, 'off': False, 'toggle': not on}[op[2]]
            if op[2] == 'toggle':
                m.real.update_toggle()
            else:
                m.real.update_model(new)
            on = new
            for o in w.all:
                check(bool(o.real.update_model()) == on, 'after switching updates {} at {}, {} reports {}', 'on' if on else 'off', m.name, o.name, o.real.update_model())
            state = 'everything once' if on else 'silent'
            rec.label('updates ' + op[2] + ' at a ' + ('root' if m is top else m.kind))
        elif what == 'new':
            held = []            # memory is laid out anew
            p = w.pick(op[1], 'node')
            c = w.build(op[2], gradients=False)
            del LOG[:]           # a new object updates itself once
            w.link(p, c, clip(op[3], p))
            watch_all()
            linked = True
        elif what == 'unlink':
            c = w.pick(op[1], cond=lambda m: m.parent is not None)
            if c is None:
                continue
            held = []
            w.unlink(c.parent, c)
            w.all = [m for m in w.all if not any(m is o for o in c.objects())]
            away.append(c)
            if op[2]:            # it can be switched by itself
                c.real.update_model(op[2] == 1)
                del LOG[:], seen[:]
            linked = True
        elif what == 'back':
            if not away:
                continue
            held = []
            c = away.pop(op[2] % len(away))
            p = w.pick(op[1], 'node')
            w.link(p, c, clip(op[3], p))
            w.all.extend(c.objects())
            linked = True
        else:
            before = top.v.copy()
            label = constraining(w, op)
            ch = [k for k in range(top.size) if top.v[k] != before[k]]
            changed = [(top, ch)]
            if not ch:
                state = 'free'
        if linked:
            for o in w.all:
                check(bool(o.real.update_model()) == on, 'after {} while updates are {}, {} reports {}', what, 'on' if on else 'off', o.name, o.real.update_model())
            rec.label('%s while updates are %s' % (what, 'on' if on else 'off'))
            state = 'free'
            if on:
                top.real.trigger_update()      # linking alone does not update
        # ---- what was told
        if not on:
            check(not LOG and not seen, 'updates are off, but {} was told of {}', [o.name for o, _ in LOG] + [getattr(o, 'name', '?') for o, _ in seen], what)
            if changed and any(els for _, els in changed):
                rec.mark('change while updates are off')
        elif state == 'everything once':
            for log, objs, who in ((LOG, [m for m in w.all if m.kind == 'node'], 'updated'), (seen, w.all, 'told')):
                count = [id(o) for o, _ in log]
                for m in objs:
                    check(count.count(id(m.real)) == 1, '{}: {} was {} {} times instead of once', what, m.name, who, count.count(id(m.real)))
                order = {id(o): i for i, (o, _) in enumerate(log)}
                for m in objs:
                    for k in m.kids:
                        if id(k.real) in order and id(m.real) in order:
                            check(order[id(k.real)] < order[id(m.real)], '{}: {} was {} before its child {}', what, m.name, who, k.name)
            current(LOG, w, what)
            current(seen, w, what)
            rec.label('everything told once')
        elif changed is not None:
            affected = []
            for m, els in changed:
                if not els:
                    continue
                leaves = {id(locate(m, k)[0]): locate(m, k)[0] for k in els}.values()
                for l in leaves:
                    for a in [l] + ancestors(l):
                        if not any(a is x for x in affected):
                            affected.append(a)
            for log, objs, who in ((LOG, [m for m in affected if m.kind == 'node'], 'updated'), (seen, affected, 'told')):
                last = {id(o): i for i, (o, _) in enumerate(log)}
                for m in objs:
                    check(id(m.real) in last, '{}: {} contains changed elements but was not {}', what, m.name, who)
                for m in objs:
                    for k in m.kids:
                        if any(k is x for x in objs):
                            check(last[id(k.real)] < last[id(m.real)], '{}: {} was {} before its child {}', what, m.name, who, k.name)
            current(LOG, w, what)
            current(seen, w, what)
            if len([m for m in affected if m.kind == 'node']) >= 2:
                rec.mark('told to several nodes')
            if affected:
                rec.label(what)
        if on and top.kind == 'node' and case['top'] and not linked:
            f, g = objective('coupled', top.real.target, top.v)
            check(np.allclose(top.real.value, f, rtol=1e-9, atol=1e-9), '{}: the objective of the model is {} instead of {}', what, top.real.value, f)
            check(np.allclose(arr(top.real.gradient), g, rtol=1e-9, atol=1e-9), '{}: the gradient of the model is not current', what)
        w.check_values()


def current(log, w, what):
    """Whoever was told last has seen the final values."""
    last = {id(o): v for o, v in log}
    for m in w.all:
        if id(m.real) in last:
            check(np.array_equal(last[id(m.real)], m.v), '{}: when last told, {} had the values {} instead of {}', what, m.name, last[id(m.real)].tolist(), m.v.tolist())


def values_for(m, raw):
    from ..world import fit
    return np.array([fit(raw[i % len(raw)], c) for i, c in enumerate(m.con)], float)


def legit(con, x):
    from ..world import ref
    return bool(np.isfinite(x).all()) and np.abs(x).max(initial=0.) < 1e6 and all(c is None or (ref.inside(c, v) and v != 0) for c, v in zip(con, x))
