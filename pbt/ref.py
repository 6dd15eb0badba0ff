"""Independent reference definitions of the built-in constraints (written from the documentation)."""
import numpy as np

KINDS = ['logexp', 'exp', 'neglogexp', 'negexp', 'square']


def make(key):
    """The constraint of the code under test for a key ('logexp' | ... | ['logistic', lower, upper])."""
    from paramz import transformations as t
    if isinstance(key, (list, tuple)) and key[0] == 'logistic':
        return t.Logistic(key[1], key[2])
    if key == 'shift' or 'sub' in key[:3] or key[0] == 'sublogistic':
        from . import userdefined as u
        return u.SubLogistic(key[1], key[2]) if isinstance(key, (list, tuple)) else {'shift': u.Shift, 'sublogexp': u.SubLogexp}[key]()
    return {'logexp': t.Logexp, 'exp': t.Exponent, 'neglogexp': t.NegativeLogexp, 'negexp': t.NegativeExponent,
            'square': t.Square}[key]()


NAMES = {'Logexp': 'logexp', 'Exponent': 'exp', 'NegativeLogexp': 'neglogexp', 'NegativeExponent': 'negexp',
         'Square': 'square', 'Shift': 'shift', 'SubLogexp': 'sublogexp'}


def key_of(c):
    """Key of a constraint object of the code under test ('fixed' for fixes)."""
    if isinstance(c, str):
        return c
    n = type(c).__name__
    if n in ('Logistic', 'SubLogistic'):
        return (n.lower(), float(c.lower), float(c.upper))
    return NAMES.get(n, n)


def norm(key):
    if key is None or isinstance(key, str):
        return key
    return (key[0], float(key[1]), float(key[2]))


def f(key, x):
    key = norm(key)
    x = np.asarray(x, dtype=float)
    if key is None:
        return x.copy()
    if key in ('logexp', 'neglogexp'):
        y = np.logaddexp(0., x)
        return y if key == 'logexp' else -y
    if key in ('exp', 'negexp'):
        y = np.exp(np.clip(x, -36., 36.))
        return y if key == 'exp' else -y
    if key == 'square':
        return x * x
    if key == 'shift':
        return 1. - 2. * x
    _, lo, up = key
    return lo + (up - lo) * sigmoid(x)


def sigmoid(x):
    x = np.asarray(x, dtype=float)
    e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1. / (1. + e), e / (1. + e))


def finv(key, v):
    key = norm(key)
    v = np.asarray(v, dtype=float)
    if key is None:
        return v.copy()
    if key in ('logexp', 'neglogexp'):
        a = np.abs(v)
        # log(exp(a)-1) = a + log(1-exp(-a))
        return a + np.log(-np.expm1(-a))
    if key in ('exp', 'negexp'):
        return np.log(np.abs(v))
    if key == 'square':
        return np.sqrt(v)
    if key == 'shift':
        return (1. - v) / 2.
    _, lo, up = key
    return np.log(v - lo) - np.log(up - v)


def deriv_at(key, x):
    """d f / d x at free number x."""
    key = norm(key)
    x = np.asarray(x, dtype=float)
    if key is None:
        return np.ones_like(x)
    if key == 'logexp':
        return sigmoid(x)
    if key == 'neglogexp':
        return -sigmoid(x)
    if key == 'exp':
        return np.exp(x)
    if key == 'negexp':
        return -np.exp(x)
    if key == 'square':
        return 2. * x
    if key == 'shift':
        return np.full_like(x, -2.)
    _, lo, up = key
    s = sigmoid(np.abs(x))
    return (up - lo) * s * sigmoid(-np.abs(x))


def inside(key, v, strictly=False):
    """Elementwise: value is in the (closed) domain of the constraint."""
    key = norm(key)
    v = np.asarray(v, dtype=float)
    if key is None or key == 'shift':
        return np.ones(v.shape, dtype=bool)
    if key in ('logexp', 'exp', 'square', 'sublogexp'):
        return v >= 0
    if key in ('neglogexp', 'negexp'):
        return v <= 0
    _, lo, up = key
    slack = 0. if strictly else 4 * np.finfo(float).eps * max(abs(lo), abs(up))
    return (v >= lo - slack) & (v <= up + slack)
