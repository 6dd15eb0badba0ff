"""P26: the regression examples against numpy and the closed form."""
import contextlib
import copy
import io
import numpy as np
from ..core import check, arr, close

SIZES = {'quick': (8, 450), 'thorough': (8, 5000)}
RULE = ('a generated data set (1 to 8 points, 1 to 3 columns), degree 0 to 4, polynomials or a user-defined basis (cosines, bumps with a setting, a derived polynomial), regularization by ridge, lasso or a user-defined penalty of any strength, and a history of weight assignments through any handle, free-space assignments, changes of data and strength, '
        'constraints, fixes, copies, other models of the same observable data, predictions at new and changed points and optimization on originals and copies; after each step objective, gradient, predictions and design matrix of every model against numpy; '
        'optimization of unconstrained ridge regression against the closed form; non-trivial: several changes of weights or data, with at least degree 1')
ASSUMPTIONS = ['after a change of data or of the strength an update is triggered', 'one output column', 'the examples refuse to be pickled (documented)', 'with all weights fixed free parameters are not set (nothing which is fixed is updated then)']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    h = st.integers(0, 5)
    e = st.one_of(st.none(), w.index_expr(st))
    vals = st.lists(st.integers(-12, 12).map(lambda k: k / 4.), min_size=1, max_size=6)
    ops = [
        st.tuples(st.just('set'), h, e, vals, st.integers(0, 4)), st.tuples(st.just('set'), h, e, vals, st.integers(0, 4)),
        st.tuples(st.just('free'), h, vals),
        st.tuples(st.just('data'), h, st.sampled_from(['X', 'Y']), st.integers(0, 30), st.integers(-8, 8).map(lambda k: k / 4.), st.integers(0, 2)),
        st.tuples(st.just('strength'), h, st.sampled_from([0.125, 1., 2., 8.])),
        st.tuples(st.just('con'), h, e, w.keys(st)),
        st.tuples(st.just('fix'), h, e),
        st.tuples(st.just('release'), h),
        st.tuples(st.just('copy'), h, st.sampled_from(['copy', 'deepcopy'])),
        st.tuples(st.just('predict'), h, st.integers(1, 4), st.integers(0, 40), st.booleans()),
        st.tuples(st.just('optimize'), h, st.sampled_from(['lbfgsb', 'bfgs', 'tnc', 'scg', 'lbfgsb'])),
        st.tuples(st.just('off'), h, vals),
        st.tuples(st.just('check'), h, st.booleans()),
        st.tuples(st.just('another'), h, st.integers(0, 3), st.booleans(), vals),
    ]
    op = st.integers(0, len(ops) - 1).flatmap(lambda i: ops[i]).map(list)
    return st.fixed_dictionaries(dict(n=st.integers(1, 8), d=st.integers(1, 3), degree=st.integers(0, 4), kind=st.sampled_from(['ridge', 'ridge', 'lasso', 'default', 'both']), strength=st.sampled_from([0.25, 1., 3., 10.]),
                                      basis=st.sampled_from(['poly', 'poly', 'poly', 'cos', 'bump', 'shifted']), seed=st.integers(0, 1000), ops=st.lists(op, min_size=1, max_size=9)))


BASES = {
    'poly': lambda X, i: X ** i,
    'cos': lambda X, i: np.cos(i * X),
    'bump': lambda X, i: np.exp(-(X - 0.25 * i) ** 2),
    'shifted': lambda X, i: (X - 0.5) ** i,
}
PENALTY = {'ridge': lambda w: w ** 2, 'lasso': lambda w: np.abs(w), 'both': lambda w: np.abs(w) + w ** 2}
SLOPE = {'ridge': lambda w: 2. * w, 'lasso': lambda w: np.sign(w), 'both': lambda w: np.sign(w) + 2. * w}


def make_basis(rr, kind, degree):
    """The polynomial, or a basis as a user would write it."""
    if kind == 'poly':
        return rr.Polynomial(degree)
    if kind == 'cos':
        class Cosine(rr.Basis):
            def basis(self, X, i):
                return np.cos(i * X)
        return Cosine(degree)
    if kind == 'bump':
        class Bump(rr.Basis):
            def __init__(self, degree, step):
                super(Bump, self).__init__(degree, name='bump')
                self.step = step

            def basis(self, X, i):
                return np.exp(-(X - self.step * i) ** 2)
        return Bump(degree, 0.25)

    class Shifted(rr.Polynomial):
        def __init__(self, degree):
            super(Shifted, self).__init__(degree, name='shifted')
            self.by = 0.5

        def basis(self, X, i):
            return super(Shifted, self).basis(X - self.by, i)
    return Shifted(degree)


def make_regularizer(rr, kind, lam):
    if kind != 'both':
        return {'ridge': rr.Ridge, 'lasso': rr.Lasso}[kind](lam)

    class Both(rr.Regularizer):
        def update_error(self):
            self.error = self.lambda_ * np.sum(np.abs(self.weights) + self.weights ** 2, 1)
            self.weights.gradient[:] = self.lambda_ * (np.sign(self.weights) + 2 * self.weights)
    return Both(lam)


class M(object):
    """A model and what it should be."""
    def __init__(self, real, X, Y, W, lam, reg, basis):
        self.real, self.X, self.Y, self.W, self.lam, self.reg, self.basis = real, X, Y, W, lam, reg, basis
        self.con = [None] * W.size
        self.fix = [False] * W.size

    def phis(self, X):
        return [BASES[self.basis](X, i) for i in range(len(self.W))]

    def predict(self, X):
        return sum(p.dot(w[:, None]) for p, w in zip(self.phis(X), self.W))

    def objective(self):
        r = self.Y - self.predict(self.X)
        return float((r ** 2).sum() + self.lam * PENALTY[self.reg](self.W).sum())

    def gradient(self):
        r = self.Y - self.predict(self.X)
        g = np.array([-2. * (r * p).sum(0) for p in self.phis(self.X)])
        return g + self.lam * SLOPE[self.reg](self.W)

    def best(self):
        A = np.hstack(self.phis(self.X))
        w = np.linalg.solve(A.T.dot(A) + self.lam * np.eye(A.shape[1]), A.T.dot(self.Y))
        return w.reshape(self.W.shape)


def data(seed, n, d):
    r = np.random.RandomState(seed)
    return np.round(r.uniform(-1.5, 1.5, (n, d)), 3), np.round(r.uniform(-2, 2, (n, 1)), 3)


def run(case, rec):
    from paramz.examples import ridge_regression as rr
    from .. import ref
    from ..world import decode, selected, fit
    X, Y = data(case['seed'], case['n'], case['d'])
    kind, basis = case['kind'], case.get('basis', 'poly')
    degree = case['degree']
    lam = case['strength']
    if kind == 'default':
        kind, basis = 'ridge', 'poly'
        real, degree, lam = rr.RidgeRegression(X.copy(), Y.copy()), 1, 1.
    else:
        real = rr.RidgeRegression(X.copy(), Y.copy(), make_regularizer(rr, kind, lam), make_basis(rr, basis, degree))
    W = np.array(real.weights, float).copy()
    check(W.shape == (degree + 1, case['d']), 'the weights have the shape {}', W.shape)
    ms = [M(real, X, Y, W, lam, kind, basis)]
    everything(ms, 'building')
    changes = 0
    for op in case['ops']:
        m = ms[op[1] % len(ms)]
        what = op[0]
        if what == 'set':
            ix = decode(op[2], m.W.shape)
            at = np.asarray(selected(ix, m.W.shape))
            x = np.array([fit(op[3][i % len(op[3])], m.con[int(k)]) for i, k in enumerate(at.ravel())], float).reshape(at.shape)
            b = m.W.ravel()
            if ix is None:
                b[at.ravel()] = x.ravel()
                if op[4] == 0:
                    m.real[:] = x.ravel()
                elif op[4] == 1:
                    m.real['.*weights'] = x
                elif op[4] == 2:
                    m.real.regularizer.weights = x
                elif op[4] == 3:
                    m.real.weights[:] = x
                else:
                    m.real.param_array[:] = x.ravel()
                    m.real.trigger_update()
            else:
                for k, v in zip(at.ravel(), x.ravel()):
                    b[k] = v
                m.real.weights[ix] = x if x.ndim else float(x)
            changes += 1
        elif what == 'free':
            n = sum(1 for f in m.fix if not f)
            if not n:
                continue
            x = np.array([op[2][i % len(op[2])] / 2. + 0.0625 for i in range(n)], float)
            m.real.optimizer_array = x
            b, i = m.W.ravel(), 0
            for k in range(b.size):
                if not m.fix[k]:
                    b[k] = float(ref.f(m.con[k], x[i]))
                    i += 1
            close(arr(m.real.weights), m.W.ravel(), 'weights after setting the free parameters', rtol=1e-9, atol=1e-12)
            m.W = arr(m.real.weights).reshape(m.W.shape).copy()
            changes += 1
        elif what == 'data':
            a = m.X if op[2] == 'X' else m.Y
            i, j = op[3] % a.shape[0], op[3] % a.shape[1]
            r = getattr(m.real, op[2])
            if op[5] == 0:
                a[i, j] = op[4]
                r[i, j] = op[4]
            elif op[5] == 1:
                a += op[4]
                r += op[4]
            else:
                a[:, j] = op[4]
                r[:, j] = op[4]
            if np.abs(m.X).max() > 8:
                return
            for t in ms:
                if t.X is m.X or t is m:
                    t.real.trigger_update()
            changes += 1
        elif what == 'strength':
            m.lam = op[2]
            m.real.regularizer.lambda_ = op[2]
            m.real.trigger_update()
        elif what == 'con':
            ix = decode(op[2], m.W.shape, keep_array=True)
            at = np.asarray(selected(ix, m.W.shape)).ravel()
            h = m.real.weights if ix is None else m.real.weights[ix]
            h.constrain(ref.make(op[3]), warning=False)
            for k in at:
                m.con[int(k)] = ref.norm(op[3])
                m.fix[int(k)] = False
            m.W = arr(m.real.weights).reshape(m.W.shape).copy()
        elif what == 'fix':
            ix = decode(op[2], m.W.shape, keep_array=True)
            at = np.asarray(selected(ix, m.W.shape)).ravel()
            (m.real.weights if ix is None else m.real.weights[ix]).fix(warning=False)
            for k in at:
                m.fix[int(k)] = True
        elif what == 'release':
            m.real.unconstrain()
            m.con = [None] * m.W.size
            m.fix = [False] * m.W.size
        elif what == 'copy':
            if len(ms) > 4:
                continue
            c = m.real.copy() if op[2] == 'copy' else copy.deepcopy(m.real)
            t = M(c, m.X.copy(), m.Y.copy(), m.W.copy(), m.lam, m.reg, m.basis)
            t.con, t.fix = list(m.con), list(m.fix)
            ms.append(t)
        elif what == 'another':
            # another model of the same data
            if len(ms) > 4:
                continue
            t = rr.RidgeRegression(m.real.X, m.real.Y, make_regularizer(rr, 'lasso' if op[3] else 'ridge', m.lam), make_basis(rr, m.basis, op[2]))
            check(t.X is m.real.X and t.Y is m.real.Y, 'a model of observable data holds other data')
            W = np.array(t.weights, float).copy()
            x = np.array([op[4][i % len(op[4])] for i in range(W.size)], float)
            t.weights[:] = x.reshape(W.shape)
            ms.append(M(t, m.X, m.Y, x.reshape(W.shape), m.lam, 'lasso' if op[3] else 'ridge', m.basis))
            rec.label('models share data')
        elif what == 'predict':
            Xn, _ = data(op[3], op[2], m.X.shape[1])
            got = m.real.predict(Xn)
            close(got, m.predict(Xn).ravel(), 'the prediction')
            check(np.shape(got) == (op[2], 1), 'the prediction has the shape {}', np.shape(got))
            if op[4]:
                Xn[0] += 0.5
                close(m.real.predict(Xn), m.predict(Xn).ravel(), 'the prediction at points which were changed in place')
            k = op[3] % len(m.W)
            for degrees in (None, [k], np.arange(k + 1)):
                want = np.array([BASES[m.basis](Xn, i) * m.W[[i]] for i in (range(len(m.W)) if degrees is None else degrees)])
                got = m.real.phi(Xn) if degrees is None else m.real.phi(Xn, degrees)
                check(np.shape(got) == want.shape and np.allclose(got, want), 'the design matrix for the degrees {} is {} instead of {}', degrees, np.asarray(got).tolist(), want.tolist())
        elif what == 'optimize':
            if all(m.fix):
                continue
            f0 = m.objective()
            closed = m.reg == 'ridge' and not any(m.fix) and all(c is None for c in m.con)
            if any(c is not None and (v == 0 or (isinstance(c, tuple) and min(v - c[1], c[2] - v) < 1e-6)) for c, v in zip(m.con, m.W.ravel())):
                continue
            m.real.optimize(op[2], max_iters=2000 if closed else 30, bfgs_factor=10.) if op[2] == 'lbfgsb' and closed else m.real.optimize(op[2], max_iters=2000 if closed else 30)
            old = m.W.ravel()
            m.W = arr(m.real.weights).reshape(m.W.shape).copy()
            check(all(a == b for a, b, f in zip(old, m.W.ravel(), m.fix) if f), 'optimizing moved fixed weights')
            f1 = m.objective()
            check(f1 <= f0 + 1e-9 * max(1., abs(f0)), 'optimizing went from {} to {}', f0, f1)
            if closed and op[2] in ('lbfgsb', 'bfgs'):
                t = M(None, m.X, m.Y, m.best(), m.lam, 'ridge', m.basis)
                best = t.objective()
                check(f1 - best <= 1e-4 * max(1., best) , 'optimizing reached {}, the optimum is {}', f1, best)
                rec.label('closed form')
        elif what == 'check':
            # "the gradients will still check": for every basis, where the penalty is smooth
            if (m.reg != 'ridge' and np.abs(m.W).min() < 1e-3) or np.abs(m.gradient()).max() > 1e4 or any(c is not None for c in m.con):
                continue
            f, g = m.objective(), np.where(m.fix, 0., m.gradient().ravel())
            if f > 1e4 * max(1., np.abs(g).max()):
                continue
            with contextlib.redirect_stdout(io.StringIO()):
                ok = m.real.checkgrad(verbose=op[2], tolerance=1e-2)
            check(ok, 'the gradients do not check')
            close(arr(m.real.weights), m.W.ravel(), 'the weights after a gradient check')
            m.real.weights[:] = m.W
        elif what == 'off':
            # several changes of which the model hears at once
            m.real.update_model(False)
            for v in op[2][:3]:
                v = np.array([fit(v, c) for c in m.con]).reshape(m.W.shape)
                m.real.weights[:] = v
                m.W = v
            m.real.update_model(True)
            changes += 1
        rec.label(what)
        if changes > 1 and degree:
            rec.mark('several changes')
        everything(ms, what)


def everything(ms, what):
    for i, m in enumerate(ms):
        w = 'after %s: ' % what + ('' if not i else 'copy %d: ' % i)
        check(np.array_equal(np.asarray(m.real.weights), m.W), '{}the weights are {} instead of {}', w, np.asarray(m.real.weights).tolist(), m.W.tolist())
        f = m.objective()
        check(abs(m.real.objective_function() - f) <= 1e-9 * max(1., abs(f)), '{}the objective is {} instead of {}', w, m.real.objective_function(), f)
        g = m.gradient().ravel()
        scale = max(1., np.abs(g).max())
        close(m.real.gradient, g, w + 'the gradient', rtol=1e-8, atol=1e-9 * scale)
        close(m.real.predict(m.X.copy()), m.predict(m.X).ravel(), w + 'the prediction at the data', rtol=1e-8, atol=1e-8)
        close(m.real.predict(m.real.X), m.predict(m.X).ravel(), w + 'the prediction at its own data', rtol=1e-8, atol=1e-8)
        check(m.real.degree == len(m.W) - 1, '{}the degree is {}', w, m.real.degree)
        check(np.array_equal(np.asarray(m.real.X), m.X) and np.array_equal(np.asarray(m.real.Y), m.Y), '{}the data is another', w)
