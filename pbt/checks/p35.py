"""P35: a model within another object works as it does alone."""
import contextlib, io, re
import numpy as np
from ..core import check, arr
from ..world import RModel, Node, N, L, LOG
from paramz import Param, Model

SIZES = {'quick': (8, 600), 'thorough': (8, 5000)}
RULE = ('one or two generated models (trees with partial constraints and fixes, six kinds of objectives) twice: alone, and below a model of models (next to a parameter of its own, directly and inside of a node), with one history of constraints and fixes (also through the model around), '
        'values, free parameters, randomizing, optimization (all optimizers, by name and by instance, limits, given starts, messages, restarts with and without tolerance, planned failures of evaluations, updates off), gradient checks, copies, unlinking and linking, optimization of the model around; '
        'after each step values, gradients, free parameters, runs, objectives, exceptions and printed checks are those of the model alone, what is around has not moved and is up to date; '
        'non-trivial: a model with a fixed or constrained element was optimized below another one')
ASSUMPTIONS = ['updates of the model around only combine the objectives of the inner ones', 'the names of the objects differ, as they are in one hierarchy']
KINDS = ['quad', 'coupled', 'cosh', 'waves', 'kink', 'valley']
OPT = ['scg', 'lbfgsb', 'lbfgsb', 'tnc', 'org-bfgs', 'simplex', None]


class Inner(RModel):
    """A model whose evaluations can be planned to fail."""
    def parameters_changed(self):
        plan = self.__dict__.get('plan')
        if plan is not None:
            plan[0] += 1
            if plan[0] in plan[1]:
                raise np.linalg.LinAlgError('evaluation %d' % plan[0])
        super(Inner, self).parameters_changed()


class Outer(Model):
    """A model of models, with a parameter of its own."""
    def __init__(self, name, inner, own, *kids):
        super(Outer, self).__init__(name)
        self.inner, self.own, self.value = inner, own, None
        self.link_parameters(*kids)

    def parameters_changed(self):
        LOG.append((self, None))
        self.own.gradient[...] = 2. * np.asarray(self.own)
        self.value = sum(m.value for m in self.inner) + float(np.sum(np.asarray(self.own) ** 2))

    def objective_function(self):
        return self.value


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import con_ops, setup_ops
    h = st.integers(0, 40)
    k = st.integers(0, 1)
    vals = st.lists(st.integers(-12, 12).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    c = con_ops(st, w)
    con = st.integers(0, len(c) - 1).flatmap(lambda i: c[i]).map(list)
    run_ = st.fixed_dictionaries(dict(name=st.sampled_from(OPT), inst=st.booleans(), iters=st.sampled_from([0, 1, 5, 20, 60]), start=st.one_of(st.none(), st.none(), vals), messages=st.integers(0, 3).map(lambda i: i == 3), off=st.sampled_from([None, None, None, 'inner', 'outer']),
                                      fail=st.one_of(st.none(), st.none(), st.lists(st.integers(1, 14), min_size=1, max_size=4))))
    opt = st.tuples(st.just('opt'), k, run_).map(list)
    rest = st.tuples(st.just('restarts'), k, st.integers(1, 3), st.booleans(), run_, st.integers(0, 50)).map(list)
    other = st.one_of(
        st.tuples(st.just('set'), h, st.one_of(st.none(), w.index_expr(st)), vals), st.tuples(st.just('free'), h, vals), st.tuples(st.just('rand'), h, st.integers(0, 50)),
        st.tuples(st.just('check'), k, st.integers(0, 4)), st.tuples(st.just('copy'), k), st.tuples(st.just('away'), k, st.booleans()), st.tuples(st.just('around'), st.sampled_from(['scg', 'lbfgsb', 'simplex']), st.integers(0, 8)),
        st.tuples(st.just('all'), w.keys(st)), st.tuples(st.just('own'), vals)).map(list)
    return st.fixed_dictionaries(dict(trees=st.lists(w.model_spec(st, max_leaves=3), min_size=1, max_size=2), kinds=st.tuples(st.sampled_from(KINDS), st.sampled_from(KINDS)).map(list), vals=vals, order=st.integers(0, 5), inside=st.booleans(),
                                      setup=st.one_of(setup_ops(st, w), setup_ops(st, w), st.just([])), ops=st.lists(st.one_of(opt, opt, opt, rest, con, other, other), min_size=1, max_size=6)))


class Pair(object):
    """The models alone (world a) and below another one (world b)."""
    def __init__(self, case):
        from .. import world as W
        self.a, self.b = W.World(), W.World()
        self.tops = []
        for w in (self.a, self.b):
            self.tops.append([w.build(t, top=lambda name, kids, kind=kind: Inner(name, kids, kind), gradients=False) for t, kind in zip(case['trees'], case['kinds'])])
            for m in self.tops[-1]:
                w.assign(m, None, case['vals'])
        self.alone, self.below = self.tops
        # what is around
        own = Param('own', np.array([0.5, -1.5]))
        self.own = L('own', (2,), [0.5, -1.5])
        self.own.real = own
        kids = list(self.below)
        if case['inside']:
            node = N('node')
            node.real = Node('node')
            node.real.link_parameter(kids[-1].real)
            node.kids = [kids[-1]]
            kids[-1].parent = node
            kids[-1] = node
        kids.insert(case['order'] % (len(kids) + 1), self.own)
        if case['order'] >= 3:
            kids.reverse()
        self.top = N('around')
        self.top.kids = kids
        for m in kids:
            m.parent = self.top
        self.top.real = Outer('around', [m.real for m in self.below], own, *[m.real for m in kids])

    def both(self, f):
        """The same done to both; what comes back, is raised and is printed."""
        out = []
        for w, tops in ((self.a, self.alone), (self.b, self.below)):
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                try:
                    r = f(w, tops)
                except Exception as e:
                    if type(e).__name__ in ('Violation', 'HarnessError', 'Discard'):
                        raise
                    r = (type(e), str(e))
            out.append((r, text.getvalue()))
        return out


def alike(a, b, what):
    check(a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True), '{}: {} alone, {} below another model', what, a.tolist(), b.tolist())


def compare(p, what):
    from .. import world as W
    for a, b in zip(p.alone, p.below):
        alike(arr(a.real.param_array, a.size), arr(b.real.param_array, a.size), what + ': values')
        alike(arr(a.real.gradient, a.size), arr(b.real.gradient, a.size), what + ': gradients')
        check(abs(a.real.objective_function() - b.real.objective_function()) <= 1e-8 * max(1., abs(a.real.objective_function())), '{}: the objective is {} alone, {} below another model', what, a.real.objective_function(), b.real.objective_function())
        n = sum(1 for f in a.fix if not f)
        for x, y in zip(a.objects(), b.objects()):
            k = sum(1 for f in x.fix if not f)
            if not W.edgy(x):
                alike(arr(x.real.optimizer_array, k), arr(y.real.optimizer_array, k), '%s: free parameters of %s' % (what, x.name))
        if n:
            alike(arr(a.real._transform_gradients(a.real.gradient.copy()), n), arr(b.real._transform_gradients(b.real.gradient.copy()), n), what + ': free gradients')
        check(len(a.real.optimization_runs) == len(b.real.optimization_runs), '{}: {} runs alone, {} below another model', what, len(a.real.optimization_runs), len(b.real.optimization_runs))
        check(bool(b.real.update_model()), '{}: updates are off', what)
        W.set_flat(a, arr(a.real.param_array, a.size))
        W.set_flat(b, arr(b.real.param_array, a.size))
    for w in (p.a, p.b):
        w.check_values()
        w.check_constraints()
        w.check_fixed()
    if p.below[0].parent is not None and p.below[-1].parent is not None:
        alike(arr(p.own.real.param_array, 2), p.own.v, what + ': the parameter next to it')
        whole = p.top.v
        alike(arr(p.top.real.param_array, p.top.size), whole, what + ': the values of the model around')
        want = sum(m.real.value for m in p.alone) + float(np.sum(p.own.v ** 2))
        check(abs(p.top.real.objective_function() - want) <= 1e-7 * max(1., abs(want)), '{}: the model around has the objective {} instead of {}', what, p.top.real.objective_function(), want)
        g = np.concatenate([arr(x.real.gradient, x.size) for x in p.top.kids])
        alike(arr(p.top.real.gradient, p.top.size), g, what + ': the gradient of the model around')
        check(bool(p.top.real.update_model()), '{}: updates of the model around are off', what)


def usable(p):
    from .. import world as W
    return not any(W.edgy(m) or np.abs(W.free_of(m)).max(initial=0.) > 20 for m in p.alone + [p.own])


def run(case, rec):
    from .p06 import constraining
    from .. import twins
    p = Pair(case)
    for op in case['setup']:
        p.both(lambda w, tops: constraining(w, op))
    compare(p, 'in the beginning')
    for op in case['ops']:
        what = op[0]
        if what in ('opt', 'restarts', 'check', 'rand', 'around') and not usable(p):
            continue
        if what in DO:
            label = DO[what](p, op, rec)
        elif what in ('set', 'free'):
            p.both(lambda w, tops: twins.apply(w, op))
            label = what
        else:
            (label, _), _ = p.both(lambda w, tops: constraining(w, op))
        if label:
            rec.label(str(label))
            compare(p, label)


def picked(p, k):
    return k % len(p.alone)


def same_runs(p, k, what, since=0):
    a, b = [list(t[k].real.optimization_runs)[since:] for t in (p.alone, p.below)]
    check(len(a) == len(b), '{}: {} runs alone, {} below another model', what, len(a), len(b))
    for x, y in zip(a, b):
        alike(np.asarray(x.x_opt, float), np.asarray(y.x_opt, float), what + ': x_opt')
        check(abs(x.f_opt - y.f_opt) <= 1e-8 * max(1., abs(x.f_opt)) or not np.isfinite(x.f_opt), '{}: f_opt {} alone, {} below another model', what, x.f_opt, y.f_opt)
        check((x.status, x.funct_eval) == (y.status, y.funct_eval), '{}: ended with {} after {} evaluations alone, with {} after {} below another model', what, x.status, x.funct_eval, y.status, y.funct_eval)


def arguments(p, k, r):
    n = sum(1 for f in p.alone[k].fix if not f)
    args = dict(max_iters=r['iters'], messages=r['messages'], ipython_notebook=False)
    if r['start'] is not None:
        args['start'] = np.array([r['start'][i % len(r['start'])] for i in range(n)], float)
    return args


def optimized(p, op, rec):
    from paramz import optimization
    k, r = picked(p, op[1]), op[2]
    since = len(p.alone[k].real.optimization_runs)

    def go(w, tops):
        m = tops[k].real
        args = arguments(p, k, r)
        if r['inst']:
            args['optimizer'] = optimization.get_optimizer(r['name'] or m.preferred_optimizer)(max_iters=r['iters'])
        elif r['name']:
            args['optimizer'] = r['name']
        if r['off'] == 'inner':
            m.update_model(False)
        elif r['off'] == 'outer':
            (p.top.real if w is p.b and tops[k].parent is not None else m).update_model(False)
        if r['fail']:
            m.plan = [0, r['fail']]
        try:
            o = m.optimize(**args)
        finally:
            m.__dict__.pop('plan', None)
        return o if o is None else 'run'
    (x, tx), (y, ty) = p.both(go)
    check(x == y, 'optimizing gave {} alone, {} below another model', x, y)
    n = sum(1 for f in p.alone[k].fix if not f)
    if isinstance(x, tuple) or x is None:
        # an error; the values of the last evaluation stay, updated again
        for t in p.tops:
            t[k].real.update_model(True)
            t[k].real.trigger_update()
        p.top.real.update_model(True)
        return 'an optimization which raises' if x else 'nothing to optimize'
    same_runs(p, k, 'optimizing', since)
    check(bool(tx.strip()) == bool(ty.strip()), 'optimizing printed {!r} alone, {!r} below another model', tx, ty)
    f = p.alone[k]
    if any(f.fix) or any(c is not None for c in f.con):
        rec.mark('optimized below another model, with constraints')
    return 'optimize' + (' with failures' if r['fail'] else '') + (' while updates are off' if r['off'] else '')


def restarted(p, op, rec):
    k, r = picked(p, op[1]), op[4]
    since = len(p.alone[k].real.optimization_runs)

    def go(w, tops):
        m = tops[k].real
        args = arguments(p, k, dict(r, start=None))
        if r['name']:
            args['optimizer'] = r['name']
        args['max_iters'] = min(r['iters'], 20)
        if r['fail']:
            m.plan = [0, [5 * x for x in r['fail']] + [5 * x + 1 for x in r['fail']]]
        state = np.random.get_state()
        np.random.seed(op[5])
        try:
            runs = m.optimize_restarts(op[2], robust=op[3], verbose=True, **args)
            return len(runs)
        finally:
            np.random.set_state(state)
            m.__dict__.pop('plan', None)
    (x, tx), (y, ty) = p.both(go)
    check(x == y, 'restarts gave {} alone, {} below another model', x, y)
    for t in p.tops:
        t[k].real.update_model(True)
        t[k].real.trigger_update()
    same_runs(p, k, 'restarts', since)
    return 'restarts' + (' which raise' if isinstance(x, tuple) else '')


def randomized(p, op, rec):
    def go(w, tops):
        m = w.pick(op[1])
        state = np.random.get_state()
        np.random.seed(op[2])
        try:
            m.real.randomize()
        finally:
            np.random.set_state(state)
    p.both(go)
    return 'randomize'


def checked(p, op, rec):
    k = picked(p, op[1])

    def go(w, tops):
        m = tops[k]
        if op[2] >= 3 and m.size:
            m.real.wrong = np.arange(m.size) * 0.75 + (op[2] == 4)
            m.real.trigger_update()
        state = np.random.get_state()
        np.random.seed(op[2])       # (the direction of the check is random)
        try:
            target = m.objects()[op[2] % len(m.objects())].real if op[2] in (1, 2) else None
            return bool(m.real.checkgrad(verbose=op[2] % 2 == 1) if target is None else target.checkgrad(verbose=op[2] % 2 == 1) if not isinstance(target, Model) else target.checkgrad())
        finally:
            np.random.set_state(state)
            m.real.wrong = None
            m.real.trigger_update()
    (x, tx), (y, ty) = p.both(go)
    # a check goes through the free parameters of all of it (of the hierarchy): the values are the same but for rounding
    for t in p.alone + [p.top]:
        alike(arr(t.real.param_array, t.size), t.v, 'values of %s after a gradient check' % t.name)
        t.real.update_model(False)
        for l in t.leaves():
            if l.size:
                l.real[...] = l.v.reshape(l.shape)
        t.real.update_model(True)
    if op[2] in (1, 2) and p.alone[k].objects()[op[2] % len(p.alone[k].objects())].kind != 'node':
        return 'check gradients of a parameter'       # (it is checked in the model at its root)
    check(x == y, 'the gradient check says {} alone, {} below another model', x, y)
    check(len(tx.splitlines()) == len(ty.splitlines()), 'the gradient check prints {!r} alone, {!r} below another model', tx, ty)
    return 'check gradients'


def copied(p, op, rec):
    k = picked(p, op[1])
    from ..core import arr as A
    a, b = p.alone[k], p.below[k]
    c = b.real.copy()
    check(not c.has_parent(), 'the copy of an inner model has a parent')
    alike(A(c.param_array, a.size), a.v, 'values of a copy of an inner model')
    check(abs(c.objective_function() - a.real.objective_function()) <= 1e-8 * max(1., abs(c.objective_function())), 'a copy has the objective {} instead of {}', c.objective_function(), a.real.objective_function())
    if usable(p) and a.size and not all(a.fix):
        d = a.real.copy()
        x, y = d.optimize('scg', max_iters=5), c.optimize('scg', max_iters=5)
        alike(np.asarray(x.x_opt), np.asarray(y.x_opt), 'optimizing copies')
    return 'copy'


def away(p, op, rec):
    """Unlinked, it is alone; linked again it is not."""
    k = picked(p, op[1])
    b = p.below[k]
    parent, at = b.parent, [i for i, m in enumerate(b.parent.kids) if m is b][0]
    parent.real.unlink_parameter(b.real)
    alike(arr(b.real.param_array, b.size), p.alone[k].v, 'values of an unlinked model')
    b.real.trigger_update()
    if op[2] and usable(p) and not all(p.alone[k].fix):
        x, y = p.alone[k].real.optimize('lbfgsb', max_iters=3), b.real.optimize('lbfgsb', max_iters=3)
        alike(np.asarray(x.x_opt), np.asarray(y.x_opt), 'optimizing an unlinked model')
    parent.real.link_parameter(b.real, at)
    b.real.trigger_update()
    return 'unlink and link'


def around(p, op, rec):
    """The model around is optimized: all of it moves together."""
    from .. import world as W
    n = sum(1 for f in p.top.fix if not f)
    real = p.top.real
    f0 = real.objective_function()
    o = real.optimize(op[1], max_iters=op[2])
    if not n:
        check(o is None, 'there was nothing to optimize')
        return 'nothing to optimize around'
    check(o.f_opt <= f0 + 1e-9 * max(1., abs(f0)), 'the model around ended at {}, it started at {}', o.f_opt, f0)
    got = arr(real.param_array, p.top.size)
    x = arr(o.x_opt, n)
    fixed, con = np.array(p.top.fix, bool), p.top.con
    want = p.top.v.copy()
    want[~fixed] = [float(W.ref.f(c, v)) for c, v in zip([c for c, f in zip(con, fixed) if not f], x)]
    alike(got, want, 'the model around is at x_opt')
    W.set_flat(p.top, got)
    for a, b in zip(p.alone, p.below):
        if a.size:
            a.real.update_model(False)
            for l, m in zip(a.leaves(), b.leaves()):
                l.real[...] = m.v.reshape(l.shape)
            W.set_flat(a, b.v)
            a.real.update_model(True)
    return 'optimize the model around'


def everywhere(p, op, rec):
    """The model around is constrained, which is all that is below it."""
    from .. import ref
    from ..world import fit
    key = op[1]
    c = ref.make(key)
    if p.top.size == 0:
        return ''
    p.top.real.constrain(c, warning=False)
    p.b._constrained(p.top, range(p.top.size), key)
    for a in p.alone:
        p.a.constrain(a, None, key, 'constrain')
    return 'constrain the model around'


def own(p, op, rec):
    from .p11 import values_for
    x = values_for(p.own, op[1])
    p.own.real[:] = x
    p.own.v = np.array(x, float)
    return 'the parameter next to it'


DO = dict(opt=optimized, restarts=restarted, rand=randomized, check=checked, copy=copied, away=away, around=around, all=everywhere, own=own)
