"""P18: random restarts end at the best run of the call; failing runs are handled as asked."""
import numpy as np
from .. import climin_stub
from numpy.linalg import LinAlgError
from ..core import check, arr, Violation

SIZES = {'quick': (8, 220), 'thorough': (8, 4000)}
RULE = ('a generated model (tree with constraints and fixes, objectives with several local optima) with earlier recorded runs of another quality, and calls of optimize_restarts with generated plans: which runs raise which exception '
        'at which evaluation (or end at a NaN or infinite objective, or are interrupted by the user, which always reaches the caller), robust or not, with progress messages or not, number of restarts 0 to 6, any optimizer; non-trivial: at least two runs succeeded, ending at different objectives, or some failed')
ASSUMPTIONS = ['runs of separate processes (parallel) are used without failures only', 'starts lie where the free numbers are finite and moderate']


class Odd(Exception):
    pass


class Stop(KeyboardInterrupt):
    """The user interrupts a run."""


EXC = {'stop': Stop, 'linalg': LinAlgError, 'zero': ZeroDivisionError, 'value': ValueError, 'type': TypeError, 'runtime': RuntimeError, 'own': Odd, 'key': KeyError, 'assert': AssertionError}


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import setup_ops
    vals = st.lists(st.integers(-12, 12).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    ok = st.just(['ok'])
    fail = st.tuples(st.just('fail'), st.sampled_from(sorted(EXC)), st.integers(0, 6)).map(list)
    call = st.fixed_dictionaries(dict(
        n=st.sampled_from([2, 3, 1, 4, 6, 3, 0]), robust=st.booleans(), verbose=st.booleans(), messages=st.sampled_from([False, False, False, True]), name=st.sampled_from(['lbfgsb', 'scg', 'org-bfgs', 'fmin_tnc', 'org-bfgs', 'simplex', 'rprop', None]),
        plan=st.one_of(st.lists(ok, min_size=6, max_size=6), st.lists(fail, min_size=6, max_size=6), st.lists(st.one_of(ok, fail), min_size=6, max_size=6), st.lists(st.one_of(st.sampled_from([['nan'], ['nan'], ['inf'], ['-inf']]), ok, fail), min_size=6, max_size=6)),
        iters=st.sampled_from([50, 5, 1, 300]), earlier=st.sampled_from([None, None, -1000., 1000.]), parallel=st.integers(0, 40).map(lambda k: k == 40), seed=st.integers(0, 10**6)))
    return st.fixed_dictionaries(dict(tree=w.model_spec(st, dc=True, max_leaves=3), kind=st.sampled_from(['waves', 'waves', 'waves', 'quad', 'coupled']), vals=vals,
                                      setup=st.one_of(setup_ops(st, w), st.just([]), st.just([])), calls=st.lists(call, min_size=1, max_size=3)))


def make_class():
    from ..world import RModel

    class FModel(RModel):
        """Runs fail as planned."""
        plan, at, bomb, evals, raised, starts = (), 0, None, 0, None, ()

        def optimize(self, **kw):
            what = self.plan[self.at] if self.at < len(self.plan) else ['ok']
            self.at += 1
            self.bomb, self.evals = what, 0
            self.starts.append(np.array(self.optimizer_array))
            try:
                return super(FModel, self).optimize(**kw)
            finally:
                self.bomb = None

        def objective_function(self):
            f = super(FModel, self).objective_function()
            if self.bomb is not None and self.bomb[0] in ('nan', 'inf', '-inf'):
                return float(self.bomb[0])
            return f

        def parameters_changed(self):
            if self.bomb is not None and self.bomb[0] == 'fail':
                self.evals += 1
                if self.evals > self.bomb[2]:
                    self.raised = EXC[self.bomb[1]]('planned')
                    raise self.raised
            super(FModel, self).parameters_changed()
    return FModel


def run(case, rec):
    from ..world import World, RModel, ref, objective, edgy, free_of, set_flat
    from .p06 import constraining
    F = make_class()
    climin_stub.install()
    w = World()
    par = any(c['parallel'] for c in case['calls'])
    top = w.build(case['tree'], top=lambda name, kids: (RModel if par else F)(name, kids, case['kind']), gradients=False)
    for op in case['setup']:
        constraining(w, op)
    w.assign(top, None, case['vals'])
    model = top.real
    for c in case['calls']:
        con, fix = top.con, np.array(top.fix, bool)
        n = int((~fix).sum())
        if edgy(top) or np.abs(free_of(top)).max(initial=0.) > 20:
            rec.label('skipped: extreme start')
            return
        np.random.seed(c['seed'])
        if c['earlier'] is not None and n:
            model.plan, model.offset, model.starts = [], c['earlier'], []
            model.trigger_update()
            model.optimize(max_iters=5)
            set_flat(top, arr(model.param_array, top.size))
            model.offset = 0.
            model.trigger_update()
            if edgy(top) or np.abs(free_of(top)).max(initial=0.) > 20:
                return
        if not par:
            model.plan, model.at, model.raised, model.starts = c['plan'], 0, None, []
        old = list(model.optimization_runs)
        before = top.v.copy()
        f_start = objective(case['kind'], model.target, before)[0]
        kw = dict(optimizer=c['name']) if c['name'] else {}
        if c.get('messages'):
            kw.update(messages=True)
        told = len(list(model.observers))
        once = None
        if par and n and c['n']:
            once = model.copy()
            once.optimize(max_iters=min(c['iters'], 50) if c['name'] == 'rprop' else c['iters'], **kw)
            once = float(once.optimization_runs[-1].f_opt)
        if par:
            kw.update(parallel=True, num_processes=2)
        error = None
        try:
            out = model.optimize_restarts(num_restarts=c['n'], robust=c['robust'], verbose=c['verbose'], max_iters=min(c['iters'], 50) if c['name'] == 'rprop' else c['iters'], **kw)
        except (Exception, Stop) as e:
            if par or model.raised is None:
                raise
            error = e
        model.plan = []
        check(len(list(model.observers)) == told, 'restarting left {} observers instead of {}', len(list(model.observers)), told)
        new = [o for o in model.optimization_runs if not any(o is p for p in old)]
        kept = [o for o in model.optimization_runs if any(o is p for p in old)]
        check(len(kept) == len(old) and all(a is b for a, b in zip(kept, old)), 'earlier recorded runs were dropped or reordered')
        if error is not None:
            check(error is model.raised, 'the caller got {!r} instead of {!r}', error, model.raised)
            check(not c['robust'] or isinstance(error, Stop), 'with robust handling, {!r} was raised to the caller', error)
            check(model.at == len(new) + 1 or c['robust'], 'the first failure was not raised: {} runs were started, {} recorded', model.at, len(new))
            check(bool(model.update_model()), 'updates are off after a failure')
            rec.mark('a failure is raised')
            return
        check(out is model.optimization_runs, 'optimize_restarts returned {!r}', type(out))
        if not par and n:
            # the first run starts where the model is, the others anywhere else
            first = free_of(top)
            check(not model.starts or np.allclose(model.starts[0], first, rtol=1e-9, atol=1e-9), 'the first run started at {} instead of {}', model.starts[:1], first.tolist())
            for i, a in enumerate(model.starts):
                check(not any(np.array_equal(a, b) for b in model.starts[:i]), 'run {} started at {} as one before it', i, a.tolist())
        got = arr(model.param_array, top.size)
        check(np.array_equal(got[fix], before[fix]), 'restarting moved fixed elements from {} to {}', before[fix].tolist(), got[fix].tolist())
        check(bool(model.update_model()), 'updates are off after restarting')
        if n == 0:
            check(not new, 'runs were recorded without free parameters')
        elif not par:
            check(model.at == c['n'], '{} runs were started instead of {}', model.at, c['n'])
            check(model.raised is None or (c['robust'] and not isinstance(model.raised, Stop)), 'a run failed with {!r}, the caller was not told', model.raised)
            # a planned failure can lie beyond the last evaluation of a run
            sure = sum(1 for p in c['plan'][:c['n']] if p[0] != 'fail')
            check(sure <= len(new) <= c['n'], '{} runs were recorded, {} of {} cannot fail', len(new), sure, c['n'])
        else:
            check(len(new) == c['n'], '{} runs were recorded instead of {}', len(new), c['n'])
        fs = [float(o.f_opt) for o in new]
        finite = [i for i, f in enumerate(fs) if not np.isnan(f) and f != np.inf]   # (among runs which ended infinitely bad none is the best)
        if not new:
            check(np.allclose(got, before, rtol=1e-9, atol=1e-12), 'no run succeeded, but the values are {} instead of {}', got.tolist(), before.tolist())
            rec.label('no run succeeded')
        elif finite:
            b = min(finite, key=lambda i: fs[i])
            ties = [i for i in finite if fs[i] == fs[b]]
            free_con = [k for k, f in zip(con, fix) if not f]
            fine = False
            for i in ties:
                x = arr(new[i].x_opt, n, 'x_opt')
                want = before.copy()
                want[~fix] = [float(ref.f(k, a)) for k, a in zip(free_con, x)]
                fine = fine or np.allclose(got, want, rtol=1e-9, atol=1e-12)
            check(fine, 'runs ended at the objectives {}, but the values are {} instead of {}', fs, got.tolist(), want.tolist())
            f = objective(case['kind'], model.target, got)[0]
            check(np.isinf(fs[b]) or abs(f - fs[b]) <= 1e-8 * max(1., abs(f)), 'the objective is {}, the best run ended at {}', f, fs[b])
            if 0 in finite and not np.isinf(fs[b]) and (par or (c['plan'][0][0] == 'ok')) and c['name'] != 'rprop' and not (par and c['n'] == 1):
                check(f <= f_start + 1e-8 * max(1., abs(f_start)) or par, 'ended at {}, started at {}', f, f_start)
            if once is not None:
                check(not fs[b] > once + 1e-6 * max(1., abs(once)), 'the best of {} parallel runs ended at {}, optimizing once from the initial state ends at {}', c['n'], fs[b], once)
            if len({round(a, 6) for a in fs}) > 1:
                rec.mark('runs of different quality')
        if finite and np.isinf(fs[b]):
            rec.mark('a run which ended infinitely well')
            return   # (where it ended, anything can have overflown)
        set_flat(top, got)
        f, g = objective(case['kind'], model.target, got)
        check(abs(model.objective_function() - f) <= 1e-9 * max(1., abs(f)), 'the objective of the model is {} instead of {}', model.objective_function(), f)
        check(np.allclose(arr(model.gradient, top.size), g, rtol=1e-9, atol=1e-9), 'the gradient of the model is not current')
        if not par and c['robust'] and model.raised is not None:
            rec.mark('failed runs are skipped' if new else 'all runs failed')
        rec.label('parallel' if par else 'sequential', '%d runs' % len(new))
        w.check_values()
        w.check_constraints()
