"""P19: numerical failures of the objective are tolerated, ten in a row."""
import numpy as np
from numpy.linalg import LinAlgError
from ..core import check, arr, Violation

SIZES = {'quick': (8, 700), 'thorough': (8, 12000)}
RULE = ('a generated model (tree with constraints and fixes) optimized by an optimizer which asks for objective, gradient or both at a generated sequence of points (up to 60), each evaluation failing or not as planned: '
        'where (refreshing the model, objective, gradient), with which exception; several optimizations follow each other, some with progress messages; the reference counts failures in a row; '
        'non-trivial: more than ten failures in a row occurred, or a success restarted a count of at least five and further failures followed')
ASSUMPTIONS = ['only the count is compared after an exception which is not tolerated, once an evaluation succeeded again']


class Odd(Exception):
    pass


TOLERATED = {'linalg': LinAlgError, 'zero': ZeroDivisionError, 'value': ValueError}
OTHER = {'type': TypeError, 'runtime': RuntimeError, 'own': Odd, 'key': KeyError, 'index': IndexError, 'overflow': OverflowError, 'notimpl': NotImplementedError}
EXC = dict(TOLERATED, **OTHER)


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import setup_ops
    vals = st.lists(st.integers(-12, 12).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    which = st.sampled_from(['f', 'g', 'fg', 'fg'])
    x = st.integers(-8, 8)
    where = st.sampled_from(['changed', 'changed', 'f', 'g'])
    tol = st.sampled_from(sorted(TOLERATED))
    ok = st.tuples(which, x, st.none()).map(list)
    fail = st.tuples(which, x, st.tuples(where, tol).map(list)).map(list)
    hard = st.tuples(which, x, st.tuples(where, st.sampled_from(sorted(OTHER))).map(list)).map(list)
    streak = st.lists(fail, min_size=5, max_size=13)
    piece = st.one_of(st.lists(ok, min_size=1, max_size=2), streak, streak, st.lists(fail, min_size=1, max_size=4), st.lists(hard, min_size=1, max_size=1))
    run_ = st.lists(piece, min_size=1, max_size=5).map(lambda l: [e for p in l for e in p])
    return st.fixed_dictionaries(dict(tree=w.model_spec(st, dc=True, max_leaves=3), kind=st.sampled_from(['quad', 'coupled', 'cosh']), vals=vals,
                                      setup=st.one_of(setup_ops(st, w), st.just([]), st.just([])), runs=st.lists(run_, min_size=1, max_size=3), messages=st.sampled_from([False, False, True])))


def make_model():
    from ..world import RModel

    class FModel(RModel):
        fault = None

        def fail(self, where):
            if self.fault is not None and self.fault[0] == where:
                raise self.fault[1]

        def parameters_changed(self):
            self.fail('changed')
            super(FModel, self).parameters_changed()

        def objective_function(self):
            self.fail('f')
            return super(FModel, self).objective_function()

        def objective_function_gradients(self):
            self.fail('g')
            return super(FModel, self).objective_function_gradients()
    return FModel


def run(case, rec):
    from paramz.optimization import Optimizer
    from ..world import World, ref, objective, edgy, free_of
    from .p06 import constraining
    w = World()
    top = w.build(case['tree'], top=lambda name, kids: make_model()(name, kids, case['kind']), gradients=False)
    for op in case['setup']:
        constraining(w, op)
    w.assign(top, None, case['vals'])
    con, fix = top.con, np.array(top.fix, bool)
    n = int((~fix).sum())
    if n == 0 or edgy(top) or np.abs(free_of(top)).max(initial=0.) > 20:
        rec.label('skipped: nothing to optimize or an extreme start')
        return
    model = top.real
    free_con = [c for c, f in zip(con, fix) if not f]
    base = top.v.copy()
    messages = case.get('messages', False)
    state = dict(count=0, streak=0, high=0, known=True)

    def point(k):
        x = np.array([(k + 3 * i) % 17 / 4. - 2. for i in range(n)])
        return np.array([abs(a) + 0.25 if c == 'square' else a for a, c in zip(x, free_con)])   # squaring has no inverse for negative numbers

    def expected(x):
        v = base.copy()
        v[~fix] = [float(ref.f(c, a)) for c, a in zip(free_con, x)]
        f, g = objective(case['kind'], model.target, v)
        d = np.array([float(ref.deriv_at(c, a)) for c, a in zip(free_con, x)])
        return f, g[~fix] * d

    class Script(Optimizer):
        def opt(self, x_init, f_fp=None, f=None, fp=None):
            try:
                for which, k, plan in self.script:
                    one(which, k, plan, f_fp, f, fp)
            finally:
                model.fault = None
            self.x_opt = point(0)
            self.f_opt, self.status, self.funct_eval = 0., 'done', 0

    def one(which, k, plan, f_fp, f, fp):
        x = point(k)
        call = dict(f=f, g=fp, fg=f_fp)[which]
        if messages and plan is not None and plan[0] == 'f' and which == 'g':
            plan = None # the display asks for the objective itself
        fails = plan is not None and (plan[0] == 'changed' or plan[0] in which)
        error = EXC[plan[1]]('planned') if plan is not None else None
        model.fault = (plan[0], error) if plan is not None else None
        x_given = x.copy()
        try:
            out = call(x_given)
            raised = None
        except Exception as e:
            raised = e
        finally:
            model.fault = None
        check(np.array_equal(x, x_given), 'an evaluation changed the point from {} to {}', x.tolist(), x_given.tolist())
        tolerated = fails and plan[1] in TOLERATED
        if not fails:
            check(raised is None, 'an evaluation ({}) without a failure raised {!r}', which, raised)
            wf, wg = expected(x)
            if which != 'g':
                got = out[0] if which == 'fg' else out
                check(abs(float(got) - wf) <= 1e-9 * max(1., abs(wf)), 'after {} failures the objective is {} instead of {}', state['count'], got, wf)
            if which != 'f':
                got = arr(out[1] if which == 'fg' else out, n, 'the gradient')
                check(np.allclose(got, wg, rtol=1e-7, atol=1e-9), 'after {} failures the gradient is {} instead of {}', state['count'], got.tolist(), wg.tolist())
            if state['count'] >= 5:
                state['high'] += 1
            state['count'], state['known'] = 0, True
            return
        if not tolerated:
            check(raised is error, '{!r} raised by the model ({}) in an evaluation ({}) reached the caller as {!r}', error, plan[0], which, raised)
            state['known'] = False
            rec.label('not tolerated: %s' % plan[1])
            raise raised
        if not state['known']:
            if raised is not None:
                raise raised
            return
        if state['count'] >= 10:
            check(raised is error, 'failure {} in a row (a {} raised by {}, evaluation of {}) was not raised', state['count'] + 1, plan[1], plan[0], which)
            rec.mark('too many failures in a row')
            raise raised
        check(raised is None, 'failure {} in a row (a {} raised by {}, evaluation of {}) was raised to the caller', state['count'] + 1, plan[1], plan[0], which)
        state['count'] += 1
        if state['high'] and state['count'] >= 5:
            rec.mark('a second long series of failures')
        if which != 'g':
            got = out[0] if which == 'fg' else out
            check(float(got) == np.inf, 'the objective of a failed evaluation is {}', got)
        if which != 'f':
            got = arr(out[1] if which == 'fg' else out, n, 'the gradient of a failed evaluation')
            check(np.isfinite(got).all(), 'the gradient of a failed evaluation is {}', got.tolist())
        rec.label('tolerated: %s in %s, evaluation of %s' % (plan[1], plan[0], which))

    for script in case['runs']:
        o = Script()
        o.script = script
        before = len(model.optimization_runs)
        told = len(list(model.observers))
        try:
            model.optimize(optimizer=o, messages=messages)
            ended = True
        except tuple(EXC.values()) as e:
            if str(e).strip("'") != 'planned':
                raise
            ended = False
        check(len(list(model.observers)) == told, 'the run left {} observers instead of {}', len(list(model.observers)), told)
        check(len(model.optimization_runs) == before + ended, 'a run was recorded {} times', len(model.optimization_runs) - before)
        if ended:
            f, g = objective(case['kind'], model.target, np.array(model.param_array))
            check(abs(model.objective_function() - f) < 1e-9 * max(1, abs(f)), 'the objective after the run is {} instead of {}', model.objective_function(), f)
