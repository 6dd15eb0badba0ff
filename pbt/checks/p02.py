"""P02: gradient factors and log-Jacobians against analytic derivatives and finite differences of the real map."""
import numpy as np
from .. import ref
from ..core import check, arr

SIZES = {'quick': (8, 1500), 'thorough': (8, 40000)}
RULE = ('one constraint (all six kinds) with values inside of its domain and an incoming gradient of any sign and magnitude; '
        'non-trivial: a value whose derivative differs from one by more than 1% and a non-zero gradient')
ASSUMPTIONS = ['values where the exponential constraints saturate (beyond exp(+-36)) are outside of the domain',
               'log-Jacobians are required of the three kinds which provide one (softplus, exponential, negative exponential) '
               'and judged for any other kind which overrides them']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import gen
    free = st.one_of(st.integers(-40, 40).map(lambda k: k / 4.), st.floats(-35, 35), gen.spread(-6, 1))
    return st.fixed_dictionaries(dict(c=gen.constraint(), xg=st.lists(st.tuples(free, gen.spread(-6, 6)), min_size=1, max_size=6).map(
        lambda l: [list(t) for t in l])))


def run(case, rec):
    from paramz.transformations import Transformation
    key = ref.norm(case['c'])
    c = ref.make(case['c'])
    name = str(case['c'])
    rec.label('kind:' + (key if isinstance(key, str) else 'logistic'))
    x = np.array([t[0] for t in case['xg']], float)
    g = np.array([t[1] for t in case['xg']], float)
    if key == 'square':
        x = np.clip(np.abs(x), 1e-12, 1e150)
    if key in ('exp', 'negexp'):
        x = np.clip(x, -35.9, 35.9)
    tol = 1e-8 * np.ones(x.size)
    if isinstance(key, tuple):
        x = np.clip(x, -15, 15)
        v = ref.f(key, x)
        d = np.minimum(v - key[1], key[2] - v)
        ok = d > 1e-8
        # cancellation of values near a bound
        tol = 1e-8 + 64 * 2.3e-16 * max(abs(key[1]), abs(key[2])) / np.maximum(d, 1e-300)
        ok &= tol < 1e-3
        x, g, v, tol = x[ok], g[ok], v[ok], tol[ok]
    else:
        v = ref.f(key, x)
    if x.size == 0:
        return
    want = ref.deriv_at(key, x)
    if (np.abs(want - 1) > 0.01).any() and g.any():
        rec.nontrivial = True
    for how in ('gradfactor', 'gradfactor_non_natural'):
        kv, kg = v.copy(), g.copy()
        got = arr(getattr(c, how)(kv, kg), v.size, name + '.' + how)
        check(np.array_equal(kv, v) and np.array_equal(kg, g), '{}.{} changed its arguments', name, how)
        check((np.abs(got - want * g) <= tol * np.abs(want * g)).all(), '{}.{}({}, {}) = {} instead of {}', name, how, v.tolist(), g.tolist(), got.tolist(), (want * g).tolist())
    # the real maps: central difference of f at finv(value)
    xr = arr(c.finv(v.copy()), v.size, name + '.finv')
    h = 1e-5 * np.maximum(1., np.abs(xr))
    sel = np.abs(xr) > 2e-4 if key == 'square' else np.ones(xr.size, bool)
    up, dn = arr(c.f(xr + h), v.size), arr(c.f(xr - h), v.size)
    fd = (up - dn) / (2 * h)
    noise = 1e-15 * np.maximum(np.abs(v), 0 if not isinstance(key, tuple) else max(abs(key[1]), abs(key[2]))) / h
    got = arr(c.gradfactor(v.copy(), np.ones(v.size)), v.size)
    near = (np.abs(np.abs(v) - 36) < 1) if key in ('logexp', 'neglogexp') else (np.abs(xr) > 35 if key in ('exp', 'negexp') else np.zeros(v.size, bool))
    bad = np.abs(got - fd) > 1e-4 * np.abs(fd) + 20 * noise
    check(not (bad & sel & ~near & (tol < 1e-6)).any(), '{}: gradfactor {} but the forward map has slope {} at {}', name, got.tolist(), fd.tolist(), v.tolist())
    # log-Jacobian
    T = type(c)
    if key in ('logexp', 'exp', 'negexp') or T.log_jacobian is not Transformation.log_jacobian:
        rec.label('log-Jacobian')
        lj = np.log(np.abs(want))
        got = arr(c.log_jacobian(v.copy()), v.size, name + '.log_jacobian')
        # (softplus: log(expm1(v)) - v cancels)
        check((np.abs(got - lj) <= 1e-8 * np.maximum(1., np.abs(lj)) + 1e-13 * np.abs(v) + tol - 1e-8).all(), '{}.log_jacobian({}) = {} instead of {}', name, v.tolist(), got.tolist(), lj.tolist())
    if key in ('logexp', 'exp', 'negexp') or T.log_jacobian_grad is not Transformation.log_jacobian_grad:
        if key in ('logexp', 'neglogexp'):
            a = np.abs(v)
            wg = np.exp(-a) / -np.expm1(-a) * np.sign(v)
        elif key in ('exp', 'negexp'):
            wg = 1. / v
        elif key == 'square':
            wg = 0.5 / v
        else:
            wg = 1. / (v - key[1]) - 1. / (key[2] - v)
        got = arr(c.log_jacobian_grad(v.copy()), v.size, name + '.log_jacobian_grad')
        check((np.abs(got - wg) <= (1e-8 + tol) * np.maximum(1e-12, np.abs(wg))).all(), '{}.log_jacobian_grad({}) = {} instead of {}', name, v.tolist(), got.tolist(), wg.tolist())
