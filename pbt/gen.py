"""Generators shared by the checks (imported inside strategy() only)."""
from hypothesis import strategies as st


def spread(lo_exp=-6, hi_exp=6):
    """Floats of very different magnitudes, both signs, with plain small ones being likely and minimal."""
    plain = st.integers(-80, 80).map(lambda k: k / 8.)
    mag = st.tuples(st.sampled_from([-1., 1.]), st.floats(1., 9.999), st.integers(lo_exp, hi_exp)).map(lambda t: t[0] * t[1] * 10.**t[2])
    return st.one_of(plain, mag)


def bounds():
    """(lower, upper) of bounded constraints: plain ones and ones of very different scale."""
    plain = st.tuples(st.integers(-20, 20), st.integers(1, 40)).map(lambda t: [t[0] / 2., (t[0] + t[1]) / 2.])
    wild = st.tuples(spread(-6, 6), st.floats(0.01, 1000.), st.integers(-4, 4)).map(
        lambda t: [t[0], t[0] + t[1] * 10.**t[2]]).filter(lambda b: (b[1] - b[0]) > 1e-7 * max(abs(b[0]), abs(b[1]), 1e-3))
    return st.one_of(plain, wild, st.sampled_from([[1e-6, 1 - 1e-6], [0., 1.], [-1., 1.], [0.1, 0.3], [1e-10, 1e10]]))


def constraint(b=None):
    b = bounds() if b is None else b
    return st.tuples(st.sampled_from(['logexp', 'exp', 'neglogexp', 'negexp', 'square', 'logistic', 'logistic']), b).map(
        lambda t: ['logistic', t[1][0], t[1][1]] if t[0] == 'logistic' else t[0])
