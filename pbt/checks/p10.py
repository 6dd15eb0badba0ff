"""P10: verdicts of gradient checks on right and wrong gradients."""
import contextlib
import io
import re
import numpy as np
from ..core import check, arr

SIZES = {'quick': (8, 650), 'thorough': (8, 8000)}
RULE = ('a generated model (tree of parameters, six kinds of smooth objective) with generated partial constraints and fixes, an optional wrong gradient in one element (zero instead of the right one, negated, scaled, '
        'shifted, infinite, not a number; clearly wrong in free space or in a fixed element), and gradient checks of the model, nodes, leaves, selections of elements and regular-expression selections, summary and verbose, several step sizes and tolerances; the verdict '
        'must be failure exactly if a wrong free element was chosen whose error exceeds the tolerance; non-trivial: a wrong gradient is present and at least one check has to pass and one has to fail')
ASSUMPTIONS = ['values lie inside of their domains, away from the edge, where free numbers are finite and moderate', 'a selection names each element once', 'gradients are wrong by at least 5% of the norm of the chosen gradient, or right']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import setup_ops
    h = st.integers(0, 30)
    target = st.one_of(
        st.just(['model']), st.tuples(st.just('obj'), h).map(list), st.tuples(st.just('obj'), h).map(list),
        st.tuples(st.just('sel'), h, w.index_expr(st)).map(list), st.tuples(st.just('sel'), h, w.index_expr(st)).map(list),
        st.tuples(st.just('re'), st.lists(h, min_size=1, max_size=3)).map(list), st.just(['all']))
    wrong = st.one_of(st.none(), st.tuples(st.sampled_from(['zero', 'negate', 'scale', 'shift', 'shift']), st.integers(0, 40)).map(list),
                      st.tuples(st.sampled_from(['zero', 'negate', 'scale', 'shift', 'shift', 'nan', 'inf']), st.integers(0, 40)).map(list))
    vals = st.lists(st.integers(-12, 12).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    return st.fixed_dictionaries(dict(
        tree=w.node_spec(st, dc=True, max_leaves=5), kind=st.sampled_from(['quad', 'coupled', 'cosh', 'waves', 'valley', 'hinge']), vals=vals, edges=st.lists(st.sampled_from([0., 0., 0., -1., 0.5]), min_size=1, max_size=4),
        setup=st.one_of(setup_ops(st, w), st.just([])), wrong=wrong, scale=st.sampled_from([1., 1., 1., 30., 1e7]), mute=st.one_of(st.just([]), st.just([]), st.lists(h, min_size=1, max_size=2)), offset=st.sampled_from([0., 0., 0., 50., -50.]), read=st.sampled_from([None, None, 5, -200]),
        checks=st.lists(st.tuples(target, st.booleans(), st.sampled_from([1e-6, 1e-6, 1e-5]), st.sampled_from([None, None, 0.02, 0.1, 0.5]), st.sampled_from([None, None, 0., 2.]), st.lists(st.integers(0, 40), max_size=4)).map(list), min_size=2, max_size=5)))


class Reader(object):
    """An observer which looks at the model on each change."""

    def __init__(self, w):
        self.w = w

    def told(self, me, which=None):
        for m in self.w.all[:4]:
            np.asarray(m.real.optimizer_array), np.asarray(m.real.gradient)


def run(case, rec):
    from ..world import World, RModel, ref, decode, selected, edgy, set_flat
    from paramz.core import HierarchyError
    from .p06 import constraining
    w = World()
    top = w.build(case['tree'], top=lambda name, kids: RModel(name, kids, case['kind']), gradients=False)
    if top.size == 0:
        rec.label('empty model')
    for op in case['setup']:
        constraining(w, op)
    w.assign(top, None, case['vals'])
    if edgy(top):
        rec.label('skipped: a value at the edge of its domain')
        return
    model = top.real
    v, con, fix = top.v, top.con, np.array(top.fix, bool)
    if top.size:
        # elements the objective does not depend on; often the one whose gradient is wrong
        model.mute = [(case['wrong'][1] if case['wrong'] is not None and i == 0 else k) % top.size for i, k in enumerate(case.get('mute', []))]
        model.offset = case.get('offset', 0.)
        if case['kind'] == 'hinge':
            # the targets of some elements are at their values, so that the objective vanishes on one side
            edges = case.get('edges', [0.])
            model.target = v + np.array([edges[i % len(edges)] for i in range(top.size)])
        model.trigger_update()
    reader = Reader(w)
    if case.get('read'):
        model.add_observer(reader, reader.told, case['read'])
    f, g = model.compute(v)
    hinge = case['kind'] == 'hinge'
    scale = case.get('scale', 1.) if not hinge else 1. # the slope of the gradient jumps at the targets, so that differences are less exact
    if scale != 1.:
        f, g = f * scale, g * scale
        model.scale = scale
        model.trigger_update()
    x = np.array([float(ref.finv(c, a)) for c, a in zip(con, v)])
    d = np.array([float(ref.deriv_at(c, a)) for c, a in zip(con, x)])
    gf = g * d
    if np.abs(x).max(initial=0.) > 30 or np.abs(gf).max(initial=0.) > 1e5 * scale:
        rec.label('skipped: ill-conditioned')
        return
    bad, err = None, 0.
    if case['wrong'] is not None and top.size:
        how, k = case['wrong']
        k = k % top.size
        total = np.abs(gf[~fix]).sum() + np.abs(gf[k])
        if how == 'zero':
            delta = -g[k]
        elif how == 'negate':
            delta = -2. * g[k]
        elif how == 'scale':
            delta = g[k]
        elif how in ('nan', 'inf'):
            delta = float(how)
        else:
            delta = (0.1 * total + 0.1) / d[k] if abs(d[k]) > 1e-3 else 0.
        err = delta * d[k] if np.isfinite(delta) else np.inf
        if abs(err) >= 0.05 * total + 0.02 or fix[k]:
            bad = k
            wr = np.zeros(top.size)
            wr[k] = delta
            model.wrong = wr
            model.trigger_update()
            rec.label('wrong: ' + how + (' (fixed element)' if fix[k] else ''))
    passed = failed = False
    from .p20 import printable, chain
    flat = [('.'.join(printable(x.name) for x in chain(l)), () if l.size == 1 else tuple(int(i) for i in np.unravel_index(k, l.shape))) for l in top.leaves() for k in range(l.size)]
    for (target, verbose, step, tol, dftol, at) in [(c + [None, None, []])[:6] if len(c) < 6 else c for c in case['checks']]:
        if target[0] == 'model':
            handle, els, what = model, list(range(top.size)), 'the model'
        elif target[0] == 'obj':
            m = w.pick(target[1])
            handle, els, what = m.real, elements(top, m), 'a ' + m.kind
        elif target[0] == 'sel':
            m = w.pick(target[1], 'leaf')
            if m is None:
                continue
            idx = decode(target[2], m.shape, keep_array=True)
            sel = np.arange(m.size) if idx is None else np.asarray(selected(idx, m.shape)).ravel()
            if len(set(sel.tolist())) < sel.size:
                continue
            handle = m.real if idx is None else m.real[idx]
            base = elements(top, m)
            els, what = [base[i] for i in sel], 'a selection'
        else:
            if target[0] == 'all':
                chosen = [m for m in w.all if m.kind == 'leaf']
                pattern = ''
            else:
                names = [w.pick(i, cond=lambda m: m is not top) for i in target[1]]
                if not names or names[0] is None:
                    continue
                pattern = '|'.join('.*%s$' % n.name for n in dict.fromkeys(names))
                chosen = [l for m in dict.fromkeys(names) for l in m.leaves()]
            els = [k for m in dict.fromkeys(chosen) for k in elements(top, m)]
            if not [m for m in w.all if m is not top and re.match(pattern, relative(top, m))]:
                continue
            handle, what = model[pattern], 'a regular expression'
            if not els:
                continue
            if at and type(handle).__name__ == 'ParamConcatenation':
                # some of its elements
                els, at = sorted(els), list(dict.fromkeys(k % len(els) for k in at))
                handle, els, what = handle[at], [els[k] for k in at], 'elements of a regular expression'
        judged = [k for k in els if not fix[k]]
        expect = not (bad is not None and bad in judged)
        if scale > 1e3 and ((len(judged) != 1 and not verbose) or any(abs(gf[k]) < max(1., 1e-4 * abs(f)) for k in judged)):
            rec.label('skipped: rounding of a large objective decides')
            continue
        if scale > 1e3 and judged:
            rec.label('a large objective')
        if hinge:
            step = 1e-6
        given = dict(step=step)
        if tol is not None and scale == 1.:
            if not expect:
                # the error has to be clearly more or less than what is tolerated
                others = np.abs(gf[judged]).sum() + abs(err)
                a = abs(gf[bad] + err)
                ratio = (1. if not np.isfinite(a) else abs(err) / a if a else 1.) if verbose else abs(err) / others if others else 0.
                wide = abs(err) < 0.8 * tol or (verbose and ratio < 0.8 * tol)
                if not wide and not (abs(err) > 1.2 * tol and ratio > 1.2 * tol):
                    continue
                expect = wide
                rec.label('a wrong gradient within the tolerance' if wide else 'a tolerance which is exceeded')
            given['tolerance'] = tol
        if not expect and not np.isfinite(err):
            rec.label('a gradient which is not a number')
        if dftol is not None and type(handle).__name__ != 'ParamConcatenation':
            given['df_tolerance'] = dftol
        tolerated = expect and bad in judged
        printed = io.StringIO()
        with contextlib.redirect_stdout(printed):
            ok = handle.checkgrad(verbose=verbose, **given)
        check(bool(ok) == expect, 'gradient check ({}) of {} with elements {} says {} instead of {}; gradient {}, in free space {}, error {} at {}, fixed {}',
              'verbose' if verbose else 'summary', what, els, ok, expect, g.tolist(), gf.tolist(), err, bad, np.nonzero(fix)[0].tolist())
        passed, failed = passed or (ok and judged), failed or not ok
        if verbose:
            report(printed.getvalue(), [flat[k] for k in judged], [gf[k] + (err if k == bad else 0.) for k in judged], [k == bad and not tolerated for k in judged], what, scale, given.get('df_tolerance'))
        rec.label('%s %s, verdict %s' % ('verbose' if verbose else 'summary', what, bool(ok)))
        # the model is left as it was
        got = arr(model.param_array, top.size)
        check(np.allclose(got, v, rtol=1e-7, atol=1e-9), 'the gradient check of {} changed the values from {} to {}', what, v.tolist(), got.tolist())
        check(np.array_equal(got[fix], v[fix]), 'the gradient check of {} moved fixed elements', what)
        want = g.copy()
        if bad is not None:
            want[bad] += delta
        if judged:
            gg = arr(model.gradient, top.size)
            check(np.allclose(gg, want, rtol=1e-4, atol=1e-4 * scale, equal_nan=True), 'the gradient check of {} left the gradients {} instead of {}', what, gg.tolist(), want.tolist())
            check(np.allclose(model.objective_function(), f + model.offset, rtol=1e-6, atol=1e-6 * scale), 'the gradient check of {} left the objective at {} instead of {}', what, model.objective_function(), f + model.offset)
        w.check_constraints()
        set_flat(top, got)
    for l in top.leaves()[:3]:
        # outside of a model there is nothing to compare with
        alone = l.real.copy()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                alone.checkgrad()
        except HierarchyError:
            continue
        check(False, 'checking the gradient of {} outside of any model gives a verdict', l.name)
    if bad is not None and passed and failed:
        rec.mark('one check passes and one fails')
    elif bad is not None and passed and fix[bad]:
        rec.mark('a wrong fixed element is not judged')


def report(text, names, analytical, wrong, what, scale, dftol=None):
    """The verbose report has one line for each judged element, with its name and gradient, marked as wrong or not."""
    rows = {}
    for line in text.splitlines():
        m = re.match(r'^\s*\x1b\[(\d+)m (.*?) \x1b\[0m\s*\|(.*)$', line)
        if m is None:
            continue
        name, _, index = m.group(2).partition('[')
        key = (name, tuple(int(x) for x in re.findall(r'\d+', index)))
        check(key not in rows, 'the report of {} lists {} twice', what, m.group(2))
        cols = [c.strip() for c in m.group(3).split('|')]
        rows[key] = (m.group(1), float(cols[2]), float(cols[3]))
    check(sorted(rows) == sorted(names), 'the report of {} lists {} instead of {}', what, sorted(rows), sorted(names))
    for n, a, bad in zip(names, analytical, wrong):
        colour, shown, numerical = rows[n]
        check(not np.isfinite(a) or abs(shown - a) <= 1e-4 * abs(a) + 1e-4 * scale, 'the report of {} shows the gradient {} for {} instead of {}', what, shown, n, a)
        check(dftol is None or (colour == '94') == (dftol > 1), 'with df_tolerance {}, the report of {} shows {} in colour {}', dftol, what, n, colour)
        check(colour != ('92' if bad else '91'), 'the report of {} marks {} as {}', what, n, 'right' if bad else 'wrong')


def elements(top, m):
    """Flat numbers of the elements of m in the whole hierarchy."""
    i = 0
    out = []
    mine = [id(l) for l in m.leaves()]
    for l in top.leaves():
        if id(l) in mine:
            out += list(range(i, i + l.size))
        i += l.size
    return out


def relative(top, m):
    parts = []
    while m is not top:
        parts.append(m.name)
        m = m.parent
    return '.'.join(reversed(parts))
