"""P17: optimizing ends consistently, not worse than it started, and leaves the model at its result."""
import contextlib, inspect
import numpy as np
from .. import climin_stub
from ..core import check, arr

SIZES = {'quick': (8, 500), 'thorough': (8, 4000)}
RULE = ('a generated model (tree of parameters with partial constraints and fixes, four kinds of smooth objective) and a history of optimizations (all installed optimizers by name, by part of a name or as an instance, the ones of climin (a stand-in takes its place where it is not installed) with some of their settings, an optimizer written by the user, unknown names, '
        'iteration limits from 0 to 1000, from the current state or from a given start, with and without progress messages, updates on or off, tolerances) interleaved with value changes, constraints and fixes; '
        'non-trivial: an optimization of a model with a constrained or a fixed element lowered the objective')
ASSUMPTIONS = ['starts lie where the free numbers are finite and moderate', 'the optimum itself is demanded for convex objectives, default tolerances and 1000 iterations only']
NAMES = {'scg': 'opt_SCG', 'fmin_tnc': 'opt_tnc', 'tnc': 'opt_tnc', 'simplex': 'opt_simplex', 'lbfgsb': 'opt_lbfgsb', 'org-bfgs': 'opt_bfgs', 'SCG': 'opt_SCG', 'own': 'Steps', 'adadelta': 'Opt_Adadelta', 'rprop': 'RProp', 'adam': 'Adam'}
# the tolerances of each optimizer, with the evaluations allowed to one which stops at its first chance
LOOSE = {'opt_simplex': [(('ftol', 'xtol'), 12)], 'opt_lbfgsb': [(('gtol',), 12), (('bfgs_factor',), 30)], 'opt_bfgs': [(('gtol',), 12)],
         'opt_tnc': [(('ftol',), 60), (('gtol',), 12), (('xtol',), 60)], 'opt_SCG': [(('ftol',), 40), (('xtol',), 40), (('gtol',), 40)]}
# settings of the optimizers of climin
SETTINGS = {'Opt_Adadelta': [dict(step_rate=0.5), dict(decay=0.5, momentum=0.25), dict(step_rate=0.25, momentum=0.5)],
            'RProp': [dict(step_shrink=0.25, step_grow=1.5), dict(min_step=1e-3, max_step=0.5), dict(changes_max=0.01, step_grow=2.)],
            'Adam': [dict(step_rate=0.01, decay=0.5), dict(decay_mom1=0.2, decay_mom2=0.01), dict(momentum=0.25, offset=1e-4, decay=0.75)]}
CLIMIN = ('adadelta', 'rprop', 'adam') # these need not descend


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import con_ops, setup_ops
    h = st.integers(0, 30)
    vals = st.lists(st.integers(-12, 12).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    run_ = st.fixed_dictionaries(dict(
        name=st.sampled_from(['scg', 'scg', 'lbfgsb', 'lbfgsb', 'fmin_tnc', 'tnc', 'org-bfgs', 'simplex', 'SCG', 'own', 'adadelta', 'rprop', 'adam', None]), inst=st.booleans(), iters=st.sampled_from([0, 1, 2, 5, 30, 1000, 1000]),
        start=st.one_of(st.none(), vals), messages=st.sampled_from([False, False, True]), tol=st.sampled_from([None, None, None, 1e-2, 1e-9, ['loose', 0], ['loose', 1], ['loose', 2]]), off=st.booleans(), clear=st.booleans(), evals=st.sampled_from([None, None, None, None, 1, 4, 20, 5000.]), flag=st.sampled_from([None, None, 0, 1, 2, 3, 4, 5, 6, 7])))
    c = con_ops(st, w)
    oc = st.integers(0, len(c) - 1).flatmap(lambda i: c[i]).map(list)
    op = st.one_of(st.tuples(st.just('opt'), run_).map(list), st.tuples(st.just('unknown'), st.sampled_from(['nothing', 'newton', 'lbfgsbb'])).map(list), st.tuples(st.just('opt'), run_).map(list), st.tuples(st.just('again'), st.integers(0, 3), st.one_of(st.none(), vals)).map(list),
                   st.tuples(st.just('set'), h, st.one_of(st.none(), w.index_expr(st)), vals).map(list), oc)
    plain = st.fixed_dictionaries(dict(name=st.sampled_from(['scg', 'lbfgsb', 'fmin_tnc', 'org-bfgs']), inst=st.booleans(), iters=st.just(1000), start=st.one_of(st.none(), vals),
                                       messages=st.booleans(), tol=st.none(), off=st.booleans(), clear=st.booleans()))
    convex = st.fixed_dictionaries(dict(tree=w.model_spec(st, max_leaves=4), kind=st.sampled_from(['quad', 'coupled']), vals=vals, setup=st.lists(
        st.tuples(st.just('fix'), h, w.index_expr(st), st.booleans()).map(list), max_size=1), first=plain, ops=st.lists(st.tuples(st.just('opt'), plain).map(list), max_size=1)))
    some = st.fixed_dictionaries(dict(
        tree=st.one_of(w.model_spec(st, dc=True, max_leaves=4), w.model_spec(st, max_leaves=4)), kind=st.sampled_from(['quad', 'coupled', 'cosh', 'waves', 'waves', 'kink', 'trough', 'valley']), vals=vals,
        setup=st.one_of(setup_ops(st, w), st.just([]), st.just([])), first=run_, ops=st.lists(op, min_size=0, max_size=4)))
    # limits which are reached
    short = st.fixed_dictionaries(dict(
        tree=w.model_spec(st, max_leaves=4), kind=st.sampled_from(['quad', 'coupled', 'cosh', 'waves', 'kink', 'valley']), vals=vals, setup=st.just([]),
        first=run_.map(lambda r: dict(r, name='simplex', iters=[5, 12, 30, 60][r['iters'] % 4], tol=None)), ops=st.lists(op, max_size=1)))
    long = st.fixed_dictionaries(dict(
        tree=w.model_spec(st, max_leaves=4), kind=st.just('valley'), vals=vals, setup=st.just([]),
        first=st.tuples(run_, st.sampled_from(['scg', 'lbfgsb', 'fmin_tnc', 'org-bfgs', 'simplex']), st.integers(0, 2)).map(lambda t: dict(t[0], name=t[1], tol=['loose', t[2]])), ops=st.lists(op, max_size=1)))
    return st.integers(0, 8).flatmap(lambda i: convex if i < 2 else short if i == 2 else long if i == 3 else some)


def run(case, rec):
    from ..world import World, RModel
    from .p06 import constraining
    climin_stub.install()
    w = World()
    top = w.build(case['tree'], top=lambda name, kids: RModel(name, kids, case['kind']), gradients=False)
    for op in case['setup']:
        constraining(w, op)
    w.assign(top, None, case['vals'])
    runs = []
    for op in [['opt', case['first']]] + case['ops']:
        if op[0] == 'opt':
            optimize(w, top, case['kind'], op[1], runs, rec)
        elif op[0] == 'again':
            # an instance can be used more than once
            used = [(o, r) for o, r in w.__dict__.get('given', ())]
            if used:
                o, r = used[op[1] % len(used)]
                optimize(w, top, case['kind'], dict(r, start=op[2], off=False, flag=None), runs, rec, o)
                rec.label('an instance again')
        elif op[0] == 'unknown':
            try:
                top.real.optimize(op[1])
                check(top.real.is_fixed or not top.size, 'an optimizer {!r} was found', op[1])
            except KeyError:
                rec.label('unknown optimizer refused')
            top.real.update_model(True)
        elif op[0] == 'set':
            m = w.pick(op[1], 'leaf')
            if m is not None:
                w.assign(m, op[2], op[3])
        else:
            constraining(w, op)
        w.check_constraints()
        w.check_values()
        for o, x, f, status in runs:
            check(np.array_equal(np.asarray(o.x_opt), x) and o.f_opt == f and o.status == status, 'a recorded run changed later: x_opt {} was {}, f_opt {} was {}', np.asarray(o.x_opt).tolist(), x.tolist(), o.f_opt, f)
        mine = list(top.real.optimization_runs)
        check(len(mine) == len(runs) and all(a is b[0] for a, b in zip(mine, runs)), 'recorded runs: {} instead of {}', len(mine), len(runs))


# the functions of scipy, and what they call the tolerances
SCIPY = {'opt_tnc': ('fmin_tnc', dict(xtol='xtol', ftol='ftol', gtol='pgtol')), 'opt_lbfgsb': ('fmin_l_bfgs_b', dict(gtol='pgtol', bfgs_factor='factr')),
         'opt_bfgs': ('fmin_bfgs', dict(gtol='gtol')), 'opt_simplex': ('fmin', dict(xtol='xtol', ftol='ftol'))}


# how scipy says that it ended, and what the status must tell of that
FLAGS = {'opt_tnc': ['minimum', 'converged', 'converged', 'maximum', 'failed', 'constant', 'unable', 'user'], 'opt_lbfgsb': ['converged', 'maximum', 'error'],
         'opt_bfgs': ['', 'maximum', 'not changing', 'nan'], 'opt_simplex': ['converged', 'evaluations', 'iterations']}


def flagged(cls, result, flag):
    """The result of scipy, ended in another way (and how it ended)."""
    if cls == 'opt_lbfgsb':
        if flag is not None:
            result[2]['warnflag'] = flag % 3
        return result, result[2]['warnflag']
    at = {'opt_tnc': 2, 'opt_bfgs': 6, 'opt_simplex': 4}[cls]
    if flag is not None:
        result = result[:at] + (flag % len(FLAGS[cls]),) + result[at + 1:]
    return result, result[at]


@contextlib.contextmanager
def asked(cls, flag=None):
    """The arguments of the calls of scipy (nothing is demanded where another function of scipy does the work)."""
    import scipy.optimize
    calls = []
    name = SCIPY.get(cls, (None,))[0]
    real = getattr(scipy.optimize, name) if name else None

    def recording(*args, **kw):
        call = dict(inspect.signature(real).bind(*args, **kw).arguments)
        calls.append(call)
        out, call['its flag'] = flagged(cls, real(*args, **kw), flag)
        return out
    if real is not None:
        setattr(scipy.optimize, name, recording)
    try:
        yield calls
    finally:
        if real is not None:
            setattr(scipy.optimize, name, real)


class Quiet(object):
    def told(self, me, which=None):
        pass


def optimize(w, top, kind, r, runs, rec, again=None):
    from paramz import optimization
    from ..world import LOG, ref, objective, edgy, free_of
    model = top.real
    con, fix = top.con, np.array(top.fix, bool)
    n = int((~fix).sum())
    if edgy(top) or np.abs(free_of(top)).max(initial=0.) > 25:
        rec.label('skipped: extreme start')
        return
    free_con = [c for c, f in zip(con, fix) if not f]
    name = r['name'] or model.preferred_optimizer
    asked_for = dict(r)
    kw = {}
    loose = settings = None
    if isinstance(r['tol'], list) and NAMES[name] in SETTINGS:
        settings = kw = dict(SETTINGS[NAMES[name]][r['tol'][1] % 3])
    elif isinstance(r['tol'], list):
        # any step is good enough for this tolerance
        known = LOOSE.get(NAMES[name], [((), None)])
        loose, most_loose = known[r['tol'][1] % len(known)]
        kw = {t: 1e30 for t in loose}
        r = dict(r, iters=1000)
    elif r['tol'] is not None:
        kw = {'simplex': dict(ftol=r['tol'], xtol=r['tol']), 'lbfgsb': dict(gtol=r['tol'], bfgs_factor=r['tol'] / 1e-15), 'org-bfgs': dict(gtol=r['tol'])}.get(
            name, dict(ftol=r['tol'], xtol=r['tol'], gtol=r['tol']))
    before = top.v.copy()
    start, x0 = None, free_of(top)
    if r['start'] is not None:
        start = np.array([r['start'][i % len(r['start'])] for i in range(n)], float)
        x0 = start.copy()
    if r['off']:
        model.update_model(False)
    r = dict(r, iters=min(r['iters'], 40)) if name in CLIMIN else r
    # the evaluations which are allowed are limited by both
    evals = r.get('evals') if loose is None and NAMES[name] in ('opt_tnc', 'opt_lbfgsb', 'opt_simplex') else None
    most_evals = r['iters'] if evals is None else int(min(evals, r['iters']))
    if evals is not None:
        kw = dict(kw, max_f_eval=evals)
        rec.label('limited evaluations')
    args = dict(max_iters=r['iters'], messages=r['messages'], clear_after_finish=r['clear'])
    cls = steps(optimization) if name == 'own' else optimization.get_optimizer(name)
    check(cls.__name__ == NAMES[name], 'the optimizer found for {!r} is {}', name, cls.__name__)
    given = None
    if r['inst'] or name == 'own':
        given = again or cls(max_iters=r['iters'], **kw)
        args['optimizer'] = given
        if again is None:
            w.__dict__.setdefault('given', []).append((given, asked_for))
    else:
        args.update(kw)
        if r['name']:
            args['optimizer'] = r['name']
    if start is not None:
        args['start'] = start
    obs = Quiet()
    model.add_observer(obs, obs.told, 3)
    count = len(list(model.observers))
    del LOG[:]
    del climin_stub.MADE[:]
    with asked(cls.__name__, r.get('flag')) as calls:
        opt = model.optimize(**args)
    for call in calls:
        for ours, theirs in SCIPY[cls.__name__][1].items():
            if kw.get(ours) is not None:
                check(call.get(theirs) == kw[ours], '{} was asked for {} = {}, scipy is given {} = {}', name, ours, kw[ours], theirs, call.get(theirs))
                rec.label('tolerances reach scipy')
    limits = [(call[k], k) for call in calls for k in ('maxiter', 'maxfun') if call.get(k) is not None]
    if calls:
        check(limits and all(v == (most_evals if k == 'maxfun' else r['iters']) for v, k in limits), '{} was limited to {} iterations and {} evaluations, scipy is given {}', name, r['iters'], most_evals, limits or 'no limit')
    if len(calls) == 1 and calls[0].get('its flag') in range(len(FLAGS[cls.__name__])):
        want = FLAGS[cls.__name__][calls[0]['its flag']]
        check(want in opt.status.lower() and bool(want) == bool(opt.status), '{} ended with the flag {}, the status is {!r}', name, calls[0]['its flag'], opt.status)
        if r.get('flag') is not None:
            rec.label('another way to end')
    if settings and climin_stub.MADE:
        made = climin_stub.MADE[-1]
        check(all(made[k] == v for k, v in settings.items()), 'the optimizer {} was asked for {} and works with {}', name, settings, made)
        rec.label('settings of an optimizer')
    check(len(list(model.observers)) == count, 'optimizing changed the number of observers from {} to {}', count, len(list(model.observers)))
    model.remove_observer(obs)
    evals = sum(1 for o, _ in LOG if o is model)
    if n == 0:
        check(opt is None, 'optimizing without free parameters returned {!r}', opt)
        check(not LOG, 'optimizing without free parameters updated {}', [o.name for o, _ in LOG])
        check(bool(model.update_model()) == (not r['off']), 'optimizing without free parameters switched updates')
        model.update_model(True)
        rec.label('nothing to optimize')
        return
    check(given is None or opt is given, 'optimizing with an instance returned {!r}', opt)
    check(type(opt) is cls, 'the run is a {} instead of {}', type(opt), cls)
    if start is not None:
        check(np.array_equal(start, x0), 'the given start was changed from {} to {}', x0.tolist(), start.tolist())
    x = arr(opt.x_opt, n, 'x_opt')
    check(np.isfinite(x).all(), 'x_opt is {}', x.tolist())
    check(bool(model.update_model()), 'updates are off after optimizing')
    got = arr(model.param_array, top.size)
    check(np.array_equal(got[fix], before[fix]), 'optimizing moved fixed elements from {} to {}', before[fix].tolist(), got[fix].tolist())
    want = np.array([float(ref.f(c, a)) for c, a in zip(free_con, x)])
    check(np.allclose(got[~fix], want, rtol=1e-9, atol=1e-12), 'the model is at {} instead of {}, which is x_opt', got[~fix].tolist(), want.tolist())
    from ..world import set_flat
    set_flat(top, got)
    f, g = objective(kind, model.target, got)
    v0 = before.copy()
    v0[~fix] = [float(ref.f(c, a)) for c, a in zip(free_con, x0)]
    f0, _ = objective(kind, model.target, v0)
    eps = 1e-9 * max(1., abs(f), abs(f0))
    check(abs(opt.f_opt - f) <= eps, '{} reports the objective {}, at its x_opt it is {}', name, opt.f_opt, f)
    check(abs(model.objective_function() - f) <= eps, 'the objective of the model is {} instead of {}', model.objective_function(), f)
    check(np.allclose(arr(model.gradient, top.size), g, rtol=1e-9, atol=1e-9), 'the gradient of the model is not current: {} instead of {}', arr(model.gradient).tolist(), g.tolist())
    check(opt.f_opt <= f0 + eps or name in CLIMIN, '{} (at most {} iterations) ended at {}, it started at {}', name, r['iters'], opt.f_opt, f0)
    last = {id(o): v for o, v in LOG}
    for m in w.all:
        if m.kind == 'node' and not all(m.fix):
            check(id(m.real) in last and np.allclose(last[id(m.real)], m.v, rtol=1e-12, atol=0), 'after optimizing, {} was last updated with {} instead of {}', m.name, last.get(id(m.real)), m.v.tolist())
    # objective and gradient may be evaluated separately, and the end point once more
    most = {'opt_simplex': most_evals + n + 6, 'opt_tnc': 3 * most_evals + 30, 'opt_lbfgsb': 3 * most_evals + 80, 'opt_SCG': 6 * r['iters'] + 12, 'Opt_Adadelta': r['iters'] + 6, 'RProp': r['iters'] + 6, 'Adam': r['iters'] + 6}.get(cls.__name__)
    check(most is None or evals <= most, '{} evaluated the model {} times, at most {} iterations or evaluations were allowed', name, evals, most_evals)
    # SCG only stops at a success; the rounding near a minimum keeps TNC busy for a while
    if loose and (cls.__name__ != 'opt_SCG' or opt.f_opt < f0 - eps) and (cls.__name__ != 'opt_tnc' or kind == 'valley' or 'gtol' in loose):
        most = most_loose + (n if name == 'simplex' else 0)
        check(evals <= most, '{} with {} evaluated the model {} times', name, kw, evals)
        rec.label('loose %s' % ', '.join(loose))
    check(isinstance(opt.status, str), 'the status is {!r}', opt.status)
    check(isinstance(str(opt), str), 'printing the run fails')
    check(int(opt.funct_eval) >= 0, 'evaluations: {}', opt.funct_eval)
    if cls.__name__ not in ('opt_bfgs', 'Steps'):
        # (these two ask for objective and gradient separately; the model is also updated before and after the run)
        check(int(opt.funct_eval) - 3 <= evals <= int(opt.funct_eval) + 6, '{} reports {} evaluations, the model was evaluated {} times', name, opt.funct_eval, evals)
    if r['iters'] == most_evals == 1000 and r['tol'] is None and kind in ('quad', 'coupled') and name not in ('simplex', 'own') and all(c is None for c in free_con) and n <= 8:
        d = np.array(fix, float)
        t = best(kind, model.target, got, fix)
        check(f - t <= 1e-4 * (f0 - t) + 2e-5, '{} stopped ({}) at {}, the minimum is {}, start {}', name, opt.status, f, t, f0)
        rec.label('minimum demanded')
    runs[:] = [(opt, np.array(opt.x_opt, float), opt.f_opt, opt.status) if o is opt else (o,) + tuple(rest) for o, *rest in runs] if any(o[0] is opt for o in runs) else runs
    runs.append((opt, np.array(opt.x_opt, float), opt.f_opt, opt.status))
    rec.label(name, '%d iterations' % r['iters'])
    if f < f0 - eps and (fix.any() or any(c is not None for c in free_con)):
        rec.mark('improved under constraints or fixes')


OWN = []


def steps(optimization):
    """An optimizer as a user would write it: short steps along the gradient."""
    if not OWN:
        class Steps(optimization.Optimizer):
            def __init__(self, *args, **kwargs):
                super(Steps, self).__init__(*args, **kwargs)
                self.opt_name = 'steps of a user'

            def opt(self, x_init, f_fp=None, f=None, fp=None):
                x, best, n = np.array(x_init, float), f(x_init), 1
                length = 0.1
                self.status = 'limit'
                for i in range(min(self.max_iters, 20)):
                    g = np.array(fp(x))
                    both = f_fp(x)
                    n += 1
                    check(both[0] == best or abs(both[0] - best) <= 1e-12 * abs(best), 'the objective at one point is {} and {}', best, both[0])
                    check(np.array_equal(g, np.asarray(both[1])), 'the gradient at one point is {} and {}', g.tolist(), np.asarray(both[1]).tolist())
                    check(g.shape == x.shape, 'the gradient has the shape {}, the point {}', g.shape, x.shape)
                    y = x - length * g / max(1., np.abs(g).max())
                    new = f(y)
                    n += 1
                    if new < best:
                        x, best = y, new
                    else:
                        length /= 4.
                self.x_opt, self.f_opt, self.funct_eval = x, best, n
        OWN.append(Steps)
    return OWN[0]


def best(kind, target, v, fix):
    """The minimum over the free elements of a convex quadratic objective, by solving for it."""
    from ..world import objective
    free = np.nonzero(~fix)[0]
    base = v.copy()
    base[free] = 0.
    g0 = objective(kind, target, base)[1][free]
    H = np.zeros((free.size, free.size))
    for j, k in enumerate(free):
        e = base.copy()
        e[k] += 1.
        H[:, j] = objective(kind, target, e)[1][free] - g0
    base[free] = -np.linalg.solve(H, g0)
    return objective(kind, target, base)[0]
