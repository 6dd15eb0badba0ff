"""P01: the constraint maps against an independent reference, forward, backward and elementwise."""
import numpy as np
from .. import ref
from ..core import check, Violation, close

SIZES = {'quick': (8, 1500), 'thorough': (8, 40000)}
RULE = ('one constraint (all six built-in kinds, bounds of any scale) and an array of free numbers of any magnitude; '
        'non-trivial: the array has numbers of both signs or an extreme magnitude (>30)')
ASSUMPTIONS = ['squaring is exercised for |x| in [1e-150, 1e150] or 0 (outside, double precision over- or underflows)',
               'bounds are kept up to 4 units in the last place of the larger bound']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import gen
    num = st.one_of(gen.spread(-12, 2), gen.spread(-150, 149), st.sampled_from([36., -36., 300., -300., -300.5, 709., -709., 745., -745., 1e5, -1e5, 0.]),
                    st.floats(-40, 40))
    frac = st.floats(1e-6, 1 - 1e-6)
    return st.fixed_dictionaries(dict(c=gen.constraint(), x=st.lists(num, min_size=1, max_size=6), u=st.lists(frac, min_size=1, max_size=4), plot=st.integers(0, 79),
                                      shape=st.sampled_from(['flat', 'col', 'row'])))


def shaped(a, how):
    a = np.array(a, dtype=float)
    return {'flat': a, 'col': a[:, None], 'row': a[None, :]}[how]


def call(fun, a, what):
    keep = a.copy()
    y = fun(a)
    check(np.array_equal(a, keep, equal_nan=True), '{}: its argument was changed in place: {} -> {}', what, keep.tolist(), a.tolist())
    try:
        y = np.array(y, dtype=float)
    except Exception:
        raise Violation('%s returned %r' % (what, y))
    check(y.shape == a.shape, '{}: shape {} for an argument of shape {}', what, y.shape, a.shape)
    return y


def run(case, rec):
    key = ref.norm(case['c'])
    c = ref.make(case['c'])
    name = str(case['c'])
    rec.label('kind:' + (key if isinstance(key, str) else 'logistic'))
    x = shaped(case['x'], case['shape'])
    flat = x.ravel()
    if flat.min() < 0 < flat.max() or np.abs(flat).max() > 30:
        rec.nontrivial = True
    v = call(c.f, x, name + '.f')
    # range
    check(np.isfinite(v).all(), '{}.f({}) = {} is not finite', name, x.tolist(), v.tolist())
    vf = v.ravel()
    if key in ('logexp', 'exp'):
        # beyond -745 the smallest positive double would underflow in exact arithmetic, the map is still documented to stay positive
        check((vf > 0).all(), '{}.f({}) = {} is not positive', name, x.tolist(), v.tolist())
    elif key in ('neglogexp', 'negexp'):
        check((vf < 0).all(), '{}.f({}) = {} is not negative', name, x.tolist(), v.tolist())
    else:
        check(ref.inside(key, vf).all(), '{}.f({}) = {} leaves the domain', name, x.tolist(), v.tolist())
    # elementwise
    for i in range(flat.size):
        one = call(c.f, flat[i:i + 1].copy(), name + '.f')
        check(one[0] == vf[i], '{}.f is not elementwise: {} at {} alone but {} within {}', name, one[0], flat[i], vf[i], x.tolist())
    # a number is mapped as it is in an array
    for i, number in enumerate((float(flat[0]), np.float64(flat[-1]))):
        for fun, a, many in (('f', number, vf[-i]), ('finv', type(number)(vf[-i]), np.asarray(call(c.finv, v, name + '.finv')).ravel()[-i])):
            try:
                one = np.asarray(getattr(c, fun)(a), float)
            except (TypeError, AttributeError, IndexError) as e:
                raise Violation('%s.%s(%r) of a %s raises %r' % (name, fun, a, type(a).__name__, e))
            check(one.size == 1 and (one.ravel()[0] == many or abs(one.ravel()[0] - many) <= 1e-9 * abs(many) + 1e-13 or (np.isnan(many) and np.isnan(one).all())), '{}.{}({!r}) = {} but {} within an array', name, fun, a, one, many)
    # against the definition, where it does not saturate
    ok = _unsaturated(key, flat)
    if ok.any():
        rec.label('unsaturated')
        scale = np.abs(ref.f(key, flat[ok]))
        err = np.abs(vf[ok] - ref.f(key, flat[ok]))
        if isinstance(key, tuple):
            scale = max(abs(key[1]), abs(key[2])) + 0 * scale
        check((err <= 1e-9 * scale).all(), '{}.f({}) = {} instead of {}', name, flat[ok].tolist(), vf[ok].tolist(), ref.f(key, flat[ok]).tolist())
        # and back
        back = call(c.finv, v, name + '.finv').ravel()[ok]
        want = np.abs(flat[ok]) if key == 'square' else flat[ok]
        err = np.abs(back - want)
        if isinstance(key, tuple):
            s = ref.sigmoid(flat[ok]); s1 = ref.sigmoid(-flat[ok])
            tol = 1e-9 * (1 + np.abs(want)) + 32 * 2.3e-16 * max(abs(key[1]), abs(key[2])) / ((key[2] - key[1]) * s * s1)
            sel = tol < 1e-3
        else:
            tol = 1e-9 * (1 + np.abs(want)) if key != 'square' else 1e-9 * np.abs(want)
            sel = np.ones(err.shape, bool)
        check((err <= tol)[sel].all(), '{}.finv({}.f({})) = {}', name, name, flat[ok].tolist(), back.tolist())
    if case.get('plot', 9) < 2:
        drawn(c, name, case['plot'])
        rec.label('drawn')
    # legitimate values
    if isinstance(key, tuple):
        lo, up = key[1], key[2]
        vals = lo + (up - lo) * np.array(case['u'])
        d = np.minimum(vals - lo, up - vals)
        ok = (d > 2e-10) & (d > 1e-6 * (up - lo))     # distances to a bound below 1e-10 saturate
        vals = vals[ok]
        scale = d[ok] + 4e-6 * max(abs(lo), abs(up))
    else:
        m = np.abs(flat[np.abs(flat) > 0])
        m = m[(m > 1e-14) & (m < 1e14)]
        vals = -m if key in ('neglogexp', 'negexp') else m
        scale = np.abs(vals)
    if vals.size:
        fr = call(c.finv, vals, name + '.finv')
        check(np.isfinite(fr).all(), '{}.finv({}) = {} is not finite', name, vals.tolist(), fr.tolist())
        again = call(c.f, fr, name + '.f')
        check((np.abs(again - vals) <= 1e-9 * scale).all(), '{}.f({}.finv({})) = {}', name, name, vals.tolist(), again.tolist())


def _unsaturated(key, x):
    if key == 'logexp' or key == 'neglogexp':
        return x > -700
    if key in ('exp', 'negexp'):
        return np.abs(x) < 36
    if key == 'square':
        return (x == 0) | (np.abs(x) > 1e-150)
    lo, up = key[1], key[2]
    s = np.minimum(ref.sigmoid(x), ref.sigmoid(-x))
    return ((up - lo) * s > 2e-10) & (s > 1e-7)


def drawn(c, name, given):
    """plot() draws the map over free numbers around zero (into the given axes, or the current ones)."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    fig, (ax, other) = plt.subplots(1, 2)
    try:
        plt.sca(other if given else ax)
        c.plot(*(['free', 'mapped'] if given else []), **(dict(axes=ax, color='red') if given else {}))
        check(len(ax.lines) == 1 and not other.lines, '{}.plot draws {} lines into {} axes and {} into others', name, len(ax.lines), 'the given' if given else 'the current', len(other.lines))
        x, y = [np.asarray(a, float) for a in ax.lines[0].get_data()]
        check(x.size >= 10 and x.min() <= -5 and x.max() >= 5 and (np.diff(x) > 0).all(), '{}.plot draws over {}', name, x.tolist())
        want = call(c.f, x.copy(), name + '.f')
        check(y.shape == want.shape and (np.abs(y - want) <= 1e-12 * (1 + np.abs(want))).all(), '{}.plot draws {} over {} instead of {}', name, y.tolist(), x.tolist(), want.tolist())
        check(not given or (ax.get_xlabel(), ax.get_ylabel(), ax.lines[0].get_color()) == ('free', 'mapped', 'red'), '{}.plot labels the axes {!r}, {!r}, color {!r}', name, ax.get_xlabel(), ax.get_ylabel(), ax.lines[0].get_color())
    finally:
        plt.close(fig)
