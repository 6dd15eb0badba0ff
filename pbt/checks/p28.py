"""P28: scaled conjugate gradients on generated smooth functions."""
import numpy as np
from ..core import check, arr

SIZES = {'quick': (8, 1200), 'thorough': (8, 15000)}
RULE = ('a smooth function (convex quadratic, sum of non-convex terms, Rosenbrock-like, log-cosh) in 1 to 6 dimensions, start, iteration limit and tolerances; '
        'non-trivial: at least two iterations, of which at least one lowers the objective')
ASSUMPTIONS = ['the minimum is demanded of convex quadratics with condition number up to 100 and curvature of at least 1, 500 iterations and tolerances of 1e-14 or less']


def strategy(tier):
    from hypothesis import strategies as st
    num = st.integers(-40, 40).map(lambda k: k / 8.)
    n = st.integers(1, 6)

    def spec(n):
        vec = st.lists(num, min_size=n, max_size=n)
        quad = st.tuples(st.just('quad'), st.lists(st.floats(0., 1.), min_size=n, max_size=n), vec, st.lists(st.floats(-3.2, 3.2), min_size=3, max_size=3), st.sampled_from([1., 1e-3, 1e3]))
        sines = st.tuples(st.just('sines'), vec, st.lists(st.integers(1, 12).map(lambda k: k / 4.), min_size=n, max_size=n), num)
        rosen = st.tuples(st.just('rosen'), st.integers(1, 100))
        cosh = st.tuples(st.just('logcosh'), vec, st.integers(1, 8))
        return st.fixed_dictionaries(dict(f=st.one_of(quad, sines, rosen, cosh).map(list), x=vec, maxiters=st.sampled_from([0, 1, 2, 3, 5, 10, 50, 500]),
                                          tol=st.sampled_from([None, 1e-3, 1e-14, 1e-300]), args=st.booleans()))
    return n.flatmap(spec)


def build(fs, n):
    if fs[0] == 'quad':
        # eigenvalues in [1, 100] * scale, rotated by Givens rotations
        lam = 10. ** (2 * np.array(fs[1])) * fs[4]
        Q = np.eye(n)
        for k, a in enumerate(fs[3]):
            if n > 1:
                i, j = k % n, (k + 1) % n
                G = np.eye(n); G[i, i] = G[j, j] = np.cos(a); G[i, j] = -np.sin(a); G[j, i] = np.sin(a)
                Q = Q.dot(G)
        A = Q.dot(np.diag(lam)).dot(Q.T)
        c = np.array(fs[2])
        return (lambda x: 0.5 * float((x - c).dot(A).dot(x - c)), lambda x: A.dot(x - c), c)
    if fs[0] == 'sines':
        a, w, b = np.array(fs[1]), np.array(fs[2]), fs[3]
        return (lambda x: float(0.05 * np.sum((x - b)**2) + np.sum(a * np.sin(w * x))), lambda x: 0.1 * (x - b) + a * w * np.cos(w * x), None)
    if fs[0] == 'rosen':
        k = float(fs[1])

        def f(x):
            return float(np.sum((1 - x)**2) + k * np.sum((x[1:] - x[:-1]**2)**2))

        def g(x):
            r = -2 * (1 - x)
            d = x[1:] - x[:-1]**2
            r[1:] += 2 * k * d
            r[:-1] += -4 * k * d * x[:-1]
            return r
        return f, g, None
    a, k = np.array(fs[1]), float(fs[2])
    return (lambda x: float(np.sum(np.logaddexp(k * (x - a), -k * (x - a)))), lambda x: k * np.tanh(k * (x - a)), None)


def run(case, rec):
    from paramz.optimization.scg import SCG
    n = len(case['x'])
    f0, g0, xmin = build(case['f'], n)
    rec.label(case['f'][0])
    count = [0, 0]
    finite = [True]

    def f(x, *a):
        check(a == ((7, 'arg') if case['args'] else ()), 'optargs are passed as {}', a)
        count[0] += 1
        finite[0] &= bool(np.isfinite(x).all())
        return f0(np.array(x, float))

    def g(x, *a):
        check(a == ((7, 'arg') if case['args'] else ()), 'optargs are passed as {}', a)
        count[1] += 1
        finite[0] &= bool(np.isfinite(x).all())
        return g0(np.array(x, float))
    x0 = np.array(case['x'], float)
    keep = x0.copy()
    kw = dict(optargs=(7, 'arg')) if case['args'] else {}
    t = case['tol']
    if t is not None:
        kw.update(xtol=t, ftol=t, gtol=t)
    x, flog, evals, status = SCG(f, g, x0, maxiters=case['maxiters'], **kw)
    check(np.array_equal(x0, keep), 'the start array was changed from {} to {}', keep.tolist(), x0.tolist())
    x = arr(x, n, 'the result')
    flog = arr(flog, what='the log')
    start, end = f0(keep), f0(x)
    check(finite[0], 'the function was evaluated at a point which is not finite')
    check(flog.size >= 1 and flog[0] == start, 'the log starts with {} instead of {}', flog[:1].tolist(), start)
    check(flog[-1] == end, 'the log ends with {}, the function at the result is {}', flog[-1], end)
    up = np.diff(flog) > 0
    check(not up.any(), 'the log increases: {}', flog.tolist()[:40])
    check(flog.size - 1 <= case['maxiters'], '{} iterations with a limit of {}', flog.size - 1, case['maxiters'])
    check(evals == sum(count), 'reports {} evaluations, made {} of the function and {} of the gradient', evals, count[0], count[1])
    check(isinstance(status, str), 'status is {!r}', status)
    if (status.strip() == 'maxiter exceeded'):
        check(flog.size - 1 == case['maxiters'], 'iteration limit reported after {} of {}', flog.size - 1, case['maxiters'])
        rec.label('limit reached')
    else:
        rec.label('converged')
    if flog.size > 2 and (np.diff(flog) < 0).any():
        rec.nontrivial = True
    if xmin is not None and case['maxiters'] >= 500 and t is not None and t <= 1e-14 and case['f'][4] >= 1:
        rec.label('minimum demanded')
        f1 = max(start, 0)
        check(end <= 1e-6 * f1 + 1e-9 * case['f'][4], 'stopped ({}) at {} after {} iterations; start {}, minimum 0', status, end, flog.size - 1, start)
