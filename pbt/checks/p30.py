"""P30: progress messages report what happens and change nothing."""
import contextlib, io, re, time
import numpy as np
from .. import climin_stub
from numpy.linalg import LinAlgError
from ..core import check, arr

SIZES = {'quick': (8, 220), 'thorough': (8, 4000)}
RULE = ('two equal models (tree with constraints and fixes, any test objective) run through the same history, one with progress messages: optimizations by every installed optimizer, from a given start, with updates off, restarts; refreshing the '
        'model, the objective or the gradient fails at planned evaluations with tolerated and other exceptions, for as long as the model is not refreshed; changes of values between the runs; a clock which moves by a planned time in the middle of a run; '
        'compared: every point visited, results, recorded runs, exceptions, observers, random numbers, later updates; the text is parsed: optimizer, rows, restarts, time and status; '
        'non-trivial: a run with messages made several evaluations, and either failed somewhere, was a restart or had constraints or fixes')
ASSUMPTIONS = ['the objective in a row is one the model has had (the report can be one evaluation late)', 'in the notebook variant, the shell is a stand-in (IPython and ipywidgets are the real ones); what the widgets hold is judged, not how a browser draws them', 'an objective which raises something which is not tolerated does so where the optimizer asks for it']


class Odd(Exception):
    pass


EXC = {'linalg': LinAlgError, 'zero': ZeroDivisionError, 'value': ValueError, 'type': TypeError, 'own': Odd, 'stop': KeyboardInterrupt}
OTHER = ('type', 'own')
TOLERATED = (LinAlgError, ZeroDivisionError, ValueError)
TIMES = [0., 0.01, 0.5, 3.21, 9.999, 42.42, 59.99, 60., 61.5, 100., 119.99, 600.25, 3599.9, 3600., 3661., 7384.5, 36000., 86399., 86400., 90061., 200000., 1e6, 8640000.]


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import setup_ops
    vals = st.lists(st.integers(-12, 12).map(lambda k: k / 4. + 0.0625), min_size=1, max_size=4)
    fault = st.tuples(st.integers(0, 12), st.sampled_from(['changed', 'f', 'f', 'g']), st.sampled_from(['linalg', 'linalg', 'zero', 'value', 'value', 'type', 'own', 'stop'])).map(list)
    run_ = st.fixed_dictionaries(dict(
        name=st.sampled_from(['scg', 'lbfgsb', 'lbfgsb', 'fmin_tnc', 'org-bfgs', 'simplex', 'adadelta', 'rprop']), iters=st.sampled_from([0, 1, 3, 10, 50, 1000]), start=st.one_of(st.none(), vals), off=st.booleans(),
        faults=st.one_of(st.just([]), st.lists(fault, min_size=1, max_size=4), st.integers(0, 8).flatmap(lambda k: st.sampled_from(['changed', 'f', 'g']).map(lambda wh: [[k + i, wh, 'linalg'] for i in range(12)]))),
        restarts=st.sampled_from([0, 0, 0, 1, 2, 3]), robust=st.booleans(), seed=st.integers(0, 10**6), elapsed=st.sampled_from(TIMES), notebook=st.sampled_from([False, False, True]), clear=st.booleans(), bad_start=st.sampled_from([False, False, False, False, True, True, 'type', 'own'])))
    op = st.one_of(st.tuples(st.just('opt'), run_), st.tuples(st.just('opt'), run_), st.tuples(st.just('set'), vals)).map(list)
    return st.fixed_dictionaries(dict(tree=w.model_spec(st, dc=True, max_leaves=3), kind=st.sampled_from(['quad', 'coupled', 'cosh', 'waves', 'kink', 'trough']), vals=vals,
                                      setup=st.one_of(setup_ops(st, w), st.just([])), first=run_, ops=st.lists(op, max_size=3)))


def make_class():
    from ..world import RModel

    class FModel(RModel):
        """Updates with planned numbers give a state which fails."""
        count, faults, bad, jump, clock, told, raised = 0, {}, None, None, 0., 0, None

        def parameters_changed(self):
            self.count += 1
            self.bad = self.faults.get(self.count)
            if self.jump is not None and self.count >= self.jump[0]:
                self.clock += self.jump[1]
                self.jump = None
            self.fail('changed')
            super(FModel, self).parameters_changed()

        def fail(self, where):
            if self.bad is not None and self.bad[0] == where:
                self.raised = EXC[self.bad[1]]('planned')
                raise self.raised

        def objective_function(self):
            self.fail('f')
            return super(FModel, self).objective_function()

        def objective_function_gradients(self):
            self.fail('g')
            return super(FModel, self).objective_function_gradients()

        def tell(self, me, which=None):
            self.told += 1
    return FModel


class Twin(object):
    def __init__(self, case):
        from ..world import World
        from .p06 import constraining
        self.w = World()
        F = make_class()
        self.top = self.w.build(case['tree'], top=lambda name, kids: F(name, kids, case['kind']), gradients=False)
        for op in case['setup']:
            constraining(self.w, op)
        self.w.assign(self.top, None, case['vals'])
        self.model = self.top.real
        self.watcher = Watcher()
        self.model.add_observer(self.watcher, self.watcher.tell, 5)


class Watcher(object):
    n = 0

    def tell(self, me, which=None):
        self.n += 1


@contextlib.contextmanager
def clock(model):
    """The time is what the model says it is."""
    real = {k: getattr(time, k) for k in ('time', 'perf_counter', 'monotonic')}
    asked = [0]

    def now():
        asked[0] += 1
        return 1.6e9 + model.clock
    for k in real:
        setattr(time, k, now)
    try:
        yield asked
    finally:
        for k, f in real.items():
            setattr(time, k, f)


def kw_iters(r):
    return min(r['iters'], 50) if r['name'] in ('adadelta', 'rprop') else r['iters']


def seconds(s):
    """(what a runtime denotes, its resolution)"""
    s = s.strip()
    for pattern, units in ((r'^(\d\d+)s(\d\d)$', (1., 0.01)), (r'^(\d\d)m(\d\d)s(\d\d)$', (60., 1., 0.01)), (r'^(\d\d)h(\d\d)m(\d\d)$', (3600., 60., 1.)), (r'^(\d\d+)d(\d\d)h(\d\d)$', (86400., 3600., 60.))):
        m = re.match(pattern, s)
        if m:
            if any(int(a) >= most for a, most in zip(m.groups()[1:], {86400.: (24, 60), 3600.: (60, 60), 60.: (60, 100), 1.: (100,)}[units[0]])) or int(m.group(1)) >= {86400.: 10**9, 3600.: 24, 60.: 60, 1.: 60}[units[0]]:
                return None, None   # such as 60m00s00
            return sum(int(a) * u for a, u in zip(m.groups(), units)), units[-1]
    return None, None


class Notebook(object):
    """Plays the notebook: keeps what is displayed and everything which is shown in it."""
    def __init__(self, model):
        self.model, self.shown = model, []

    def __enter__(self):
        import builtins
        import IPython.display as d
        self.old = d.display
        d.display = self.display
        builtins.get_ipython = lambda: None
        return self

    def __exit__(self, *a):
        import builtins
        import IPython.display as d
        d.display = self.old
        del builtins.get_ipython

    def display(self, box):
        from ipywidgets import IntProgress
        found = []

        def walk(x):
            found.append(x)
            for c in getattr(x, 'children', ()):
                walk(c)
        walk(box)
        bars = [x for x in found if isinstance(x, IntProgress)]
        check(len(bars) == 1, 'the notebook shows {} bars', len(bars))
        show = dict(box=box, bar=bars[0], frames=[], html=[], closed=[], max=bars[0].max)
        self.shown.append(show)
        closing = box.close

        def close():
            show['closed'].append(1)
            closing()
        box.close = close

        def told(change):
            rows = re.findall(r"<td class='tg-left'>(.*?)</td><td class='tg-right'>(.*?)</td>", change['new'])
            if rows:
                show['frames'].append({k: v.strip() for k, v in rows})
                show['names'] = [k for k, v in rows]
            else:
                v = np.array(self.model.param_array, float)
                show['html'].append((change['new'], v))
        for x in found:
            if type(x).__name__ == 'HTML':
                x.observe(told, 'value')


def one(t, r, messages):
    """Run once; everything which can be observed."""
    from ..world import LOG
    m = t.model
    fix = np.array(t.top.fix, bool)
    n = int((~fix).sum())
    m.raised, m.bad = None, None
    m.faults = {}
    broken = r['bad_start'] if r['bad_start'] in OTHER else None
    if r['bad_start']:
        m.faults = {m.count + 1: ('f', broken or 'linalg')}
        try:
            m.trigger_update()
        finally:
            m.faults = {}
    m.faults.update({m.count + 1 + f[0]: (f[1], f[2]) for f in reversed(r['faults'])})
    if broken:
        m.faults = {m.count + 1 + k: ('f', broken) for k in range(20)}
    count, told = m.count, t.watcher.n
    m.jump, m.clock = (m.count + 2, r['elapsed']), 0.
    if r['off']:
        m.update_model(False)
    kw = dict(optimizer=r['name'], max_iters=kw_iters(r), messages=messages)
    if r['start'] is not None and not r['restarts']:
        kw['start'] = np.array([r['start'][i % len(r['start'])] for i in range(n)], float)
    runs = len(m.optimization_runs)
    m._fail_count = 0
    np.random.seed(r['seed'])
    del LOG[:]
    text = io.StringIO()
    error = None
    observers = [(p, id(o) == id(m), id(o) == id(t.watcher)) for p, o, _ in m.observers]
    book = Notebook(m) if r.get('notebook') and messages else None
    if book is not None:
        kw['clear_after_finish'] = r['clear']
    with contextlib.redirect_stdout(text), clock(m) as asked, book or contextlib.ExitStack():
        try:
            if r['restarts']:
                m.optimize_restarts(r['restarts'], robust=r['robust'], verbose=messages, **kw)
            else:
                m.optimize(**kw)
        except tuple(EXC.values()) as e:
            if m.raised is None or str(e) != 'planned':
                raise
            error = e
    after = [(p, id(o) == id(m), id(o) == id(t.watcher)) for p, o, _ in m.observers]
    check(after == observers, 'the observers were {} before and are {} after the run (messages: {})', observers, after, messages)
    m.faults, m.bad = {}, None
    return dict(points=[v for o, v in LOG if o is m], error=type(error).__name__, runs=m.optimization_runs[runs:], asked=asked[0], text=text.getvalue(), random=float(np.random.rand()),
                values=np.array(m.param_array, float), told=t.watcher.n - told, count=m.count - count, fails=m._fail_count, updates=bool(m.update_model()), jumped=m.jump is None, before=runs, shown=book.shown if book is not None else None)


def run(case, rec):
    from ..world import edgy, free_of, set_flat
    from .p06 import constraining
    climin_stub.install()
    quiet, loud = Twin(case), Twin(case)
    had = {'f': set(), 'g': set(), 'failed': False}
    for op in [['opt', case['first']]] + case['ops']:
        if op[0] == 'set':
            told = [quiet.watcher.n, loud.watcher.n]
            for t in (quiet, loud):
                t.w.assign(t.top, None, op[1])
                t.w.check_values()
            n = [t.watcher.n - x for t, x in zip((quiet, loud), told)]
            check(n[0] == n[1], 'after an assignment the observers of the models were told {} and {} times', *n)
            continue
        r = op[1]
        if r['name'] not in ('lbfgsb', 'fmin_tnc') or r['off'] or r['restarts']:
            # the others ask for the gradient only at some points; the report asks for the objective there
            r = dict(r, faults=[[k, 'changed' if EXC[e] not in TOLERATED else where, e] for k, where, e in r['faults']])
        if r['bad_start'] in OTHER and r['name'] in ('adadelta', 'rprop'):
            r = dict(r, bad_start=False) # these never ask for the objective
        if r['bad_start'] in OTHER:
            # an objective which raises all the time
            r = dict(r, restarts=0, start=None)
        if all(quiet.top.fix) or edgy(quiet.top) or np.abs(free_of(quiet.top)).max(initial=0.) > 20:
            rec.label('skipped: nothing to optimize or an extreme start')
            return
        start = quiet.top.v.copy()
        a, b = one(quiet, r, False), one(loud, r, True)
        if r['bad_start'] in OTHER:
            check(a['error'] == b['error'] != 'NoneType', '{}: an objective which raises ends in {} without and {} with messages', r['name'], a['error'], b['error'])
            for t in (quiet, loud):
                t.model.update_model(True)
                t.model.trigger_update()
                for z in range(2):
                    set_flat(t.top, arr(t.model.param_array, t.top.size))
                    t.w.check_values()
                    t.model.param_array[:] = start
                    t.model.trigger_update()
            rec.mark('the objective raises before the first evaluation')
            continue
        same(a, b, r)
        if not np.isfinite(a['values']).all():
            rec.label('ended at nan')
            return
        check(a['text'].count('Running') == 0, 'without messages: {!r}', a['text'])
        for t in (quiet, loud):
            set_flat(t.top, a['values'])
        read(loud, b, r, case['kind'], start, had, rec)
        if len(b['points']) > 2 and (a['error'] != 'NoneType' or b['fails'] or r['restarts'] or any(quiet.top.fix) or any(c is not None for c in quiet.top.con)):
            rec.mark('several evaluations')
        rec.label(r['name'], 'ended by %s' % a['error'])
        if a['error'] != 'NoneType':
            # the model works again once the failure is over
            for t in (quiet, loud):
                t.model.update_model(True)
                t.model.trigger_update()
                t.w.check_values()
        f = [t.model.objective_function() for t in (quiet, loud)]
        check(f[0] == f[1] and np.array_equal(quiet.model.gradient, loud.model.gradient, equal_nan=True), 'after the run the objectives are {}', f)


def same(a, b, r):
    for k, what in (('error', 'the exception'), ('count', 'the number of updates'), ('told', 'the number of calls of an observer'), ('updates', 'the state of updates'), ('fails', 'the count of failures'), ('random', 'the next random number')):
        check(a[k] == b[k], '{}: {} is {} without and {} with messages', r['name'], what, a[k], b[k])
    check(len(a['points']) == len(b['points']) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a['points'], b['points'])), '{}: with messages other points are visited', r['name'])
    check(np.array_equal(a['values'], b['values'], equal_nan=True), '{}: ends at {} without and at {} with messages', r['name'], a['values'].tolist(), b['values'].tolist())
    check(len(a['runs']) == len(b['runs']), '{} runs without and {} with messages', len(a['runs']), len(b['runs']))
    for o, p in zip(a['runs'], b['runs']):
        check(np.array_equal(o.x_opt, p.x_opt, equal_nan=True) and (o.f_opt == p.f_opt or np.isnan(o.f_opt)) and o.status == p.status and o.funct_eval == p.funct_eval, 'the run without messages ended as {} at {}, with messages as {} at {}',
              o.status, o.f_opt, p.status, p.f_opt)


def read(t, b, r, kind, start, had, rec):
    """Judge the text."""
    from ..world import objective, ref
    m, text = t.model, b['text']
    con, free = t.top.con, ~np.array(t.top.fix, bool)
    for v in [start] + b['points']:
        f, g = objective(kind, m.target, v)
        had['f'].add(f)
        x = [float(ref.finv(c, a)) for c, a in zip(con, v)]
        d = np.array([float(ref.deriv_at(c, a)) for c, a in zip(con, x)])
        had['g'].add(float(np.sum((g * d)[free] ** 2)))
    from paramz.optimization import get_optimizer
    failures = bool(r['faults']) or r['bad_start']
    had['failed'] |= failures
    if b['shown'] is not None:
        return look(t, b, r, had, get_optimizer(r['name'])().opt_name, kw_iters(r), rec)
    blocks = re.split(r'Running (.*) Code:\n', text)
    titles = blocks[1::2]
    # a run can fail before its first message: where updates are switched on or the parameters randomized
    least = len(b['runs']) + (b['error'] != 'NoneType' and not r['off'] and not r['restarts'])
    check(least <= len(titles) <= max(r['restarts'], 1), 'the messages tell of {} runs, {} were recorded: {!r}', len(titles), len(b['runs']), text)
    name = get_optimizer(r['name'])().opt_name
    for title, body in zip(titles, blocks[2::2]):
        check(title == name, 'the messages name the optimizer {!r} instead of {!r}', title, name)
        head = body.split('\n')[0].split()
        check(head == ['runtime', 'i', 'f', '|g|'], 'the columns are {}', head)
        rows = [x for part in body.split('\n')[1:] for x in part.split('\r') if re.match(r'^\s*\d+[dhms]', x)]
        check(rows, 'there are no rows: {!r}', body)
        last = -1
        for row in rows:
            c = row.split()
            check(len(c) == 4, 'a row is {!r}', row)
            s, res = seconds(c[0])
            check(s is not None, 'a runtime is {!r}', c[0])
            check(s <= r['elapsed'] + 1e-6 or not b['asked'], 'a runtime is {!r}, {} seconds passed', c[0], r['elapsed'])
            i, f, g = int(float(c[1])), float(c[2]), float(c[3])
            check(i >= last, 'the count goes from {} to {}', last, i)
            last = i
            near = (not np.isfinite(f) and failures) or any(abs(f - y) <= 1e-6 * abs(y) + 1e-300 for y in had['f'])
            check(near, 'a row shows the objective {}, which the model never had: {}', f, sorted(had['f'])[:20])
            if not had['failed'] and np.isfinite(g):
                near = any(abs(g - y) <= 1e-5 * abs(y) + 1e-12 for y in had['g'])
                check(near, 'a row shows the squared gradient {}, which the model never had: {}', g, sorted(had['g'])[:20])
        check(last <= len(b['points']) + failures * (b['count'] + 1), 'the last row counts {} evaluations, there were {}', last, len(b['points']))
        check(failures or r['restarts'] or b['error'] != 'NoneType' or last >= len(b['points']) - 4, 'the last row counts {} evaluations, there were {}', last, len(b['points']))
        tail = re.search(r'\nRuntime:\s+(\S+)\nOptimization status: (.*)\n', body)
        check(tail, 'the end of the messages is missing: {!r}', body[-200:])
        if not r['restarts'] and b['error'] == 'NoneType':
            check(tail.group(2) == str(b['runs'][-1].status), 'the messages end with the status {!r}, the run with {!r}', tail.group(2), b['runs'][-1].status)
            s, res = seconds(tail.group(1))
            T = r['elapsed']
            if b['asked'] and b['jumped'] and len(b['points']) > 2:
                check(s is not None and s <= T + 1e-6 and T - s < res + 1e-5, 'after {} seconds the runtime is given as {!r}', T, tail.group(1))
                rec.label('runtime')
    if r['restarts'] and b['error'] == 'NoneType':
        lines = re.findall(r'Optimization restart (\d+)/(\d+), f = (\S+)', text)
        lost = re.findall(r'Warning - optimization restart (\d+)/(\d+) failed', text)
        check(len(lines) == len(b['runs']) and len(lines) + len(lost) == r['restarts'], 'the messages tell of {} finished and {} failed restarts, {} of {} were recorded', len(lines), len(lost), len(b['runs']), r['restarts'])
        check([int(x[0]) for x in lines + lost] == sorted(int(x[0]) for x in lines) + sorted(int(x[0]) for x in lost) and {int(x[0]) for x in lines + lost} == set(range(1, r['restarts'] + 1)), 'restarts are numbered {}', lines + lost)
        for (i, n, f), o in zip(lines, b['runs']):
            check(int(n) == r['restarts'] and (float(f) == float(o.f_opt) or np.isnan(float(o.f_opt))), 'restart {} of {} is told to end at {}, its run ended at {}', i, n, f, o.f_opt)
        rec.label('restarts')


def look(t, b, r, had, name, iters, rec):
    """Judge what a notebook has shown."""
    shown = b['shown']
    failures = bool(r['faults']) or r['bad_start']
    check('Running' not in b['text'] and 'Runtime' not in b['text'], 'in a notebook the text is {!r}', b['text'])
    least = len(b['runs']) + (b['error'] != 'NoneType' and not r['off'] and not r['restarts'])
    check(least <= len(shown) <= max(r['restarts'], 1), 'the notebook shows {} runs, {} were recorded', len(shown), len(b['runs']))
    for k, s in enumerate(shown):
        check(s['frames'], 'the notebook shows nothing of the run')
        check(s['max'] == iters, 'the bar goes up to {} instead of {}', s['max'], iters)
        last = -1
        for f in s['frames']:
            check(set(f) == {'optimizer', 'runtime', 'evaluation', 'objective', '||gradient||', 'status'}, 'the notebook shows {}', sorted(f))
            check(f['optimizer'] == name, 'the notebook names the optimizer {!r} instead of {!r}', f['optimizer'], name)
            time_, res = seconds(f['runtime'])
            check(time_ is not None and (time_ <= r['elapsed'] + 1e-6 or not b['asked']), 'a runtime is {!r}, {} seconds passed', f['runtime'], r['elapsed'])
            i, v, g = int(f['evaluation']), float(f['objective']), float(f['||gradient||'])
            check(i >= last, 'the count goes from {} to {}', last, i)
            last = i
            check((not np.isfinite(v) and failures) or any(abs(v - y) <= 6e-4 * abs(y) + 1e-300 for y in had['f']), 'the notebook shows the objective {}, which the model never had: {}', v, sorted(had['f'])[:20])
            if not had['failed'] and np.isfinite(g):
                check(any(abs(g - y) <= 6e-4 * abs(y) + 1e-12 for y in had['g']), 'the notebook shows the squared gradient {}, which the model never had: {}', g, sorted(had['g'])[:20])
        for f in s['frames'][:-1]:
            check(f['status'] == 'running', 'the status of a run is {!r} before its end', f['status'])
        check(last <= len(b['points']) + failures * (b['count'] + 1), 'the last count is {}, there were {} evaluations', last, len(b['points']))
        check(failures or r['restarts'] or b['error'] != 'NoneType' or last >= len(b['points']) - 4, 'the last count is {}, there were {} evaluations', last, len(b['points']))
        check(s['bar'].value == min(last + 1, max(s['max'], 0)), 'the bar is at {} after {} evaluations of {}', s['bar'].value, last, s['max'])
        # an objective which still raises at the end of the run raises again, where the model is shown
        check(b['error'] != 'NoneType' or bool(s['closed']) == bool(r['clear']), 'the display is {} (clear after finish: {})', 'closed' if s['closed'] else 'open', r['clear'])
        if not r['restarts'] and b['error'] == 'NoneType':
            status = str(b['runs'][-1].status)
            check(s['frames'][-1]['status'] == status.strip(), 'the notebook ends with the status {!r}, the run with {!r}', s['frames'][-1]['status'], status)
            time_, res = seconds(s['frames'][-1]['runtime'])
            if b['asked'] and b['jumped'] and len(b['points']) > 2:
                check(time_ <= r['elapsed'] + 1e-6 and r['elapsed'] - time_ < res + 1e-5, 'after {} seconds the runtime is given as {!r}', r['elapsed'], s['frames'][-1]['runtime'])
            if not r['clear']:
                check((s['bar'].bar_style == 'success') == ('conv' in status.lower()), 'a run which ended {!r} after {} evaluations is shown as {!r}', status, last, s['bar'].bar_style)
            rec.label('in a notebook')
        for html, v in s['html']:
            check('<b>Model</b>: %s<br>' % t.model.name in html, 'the notebook does not show the model: {!r}', html[:300])
            f = float(re.search(r'<b>Objective</b>: (\S+)<br>', html).group(1))
            check(not np.isfinite(f) or any(abs(f - y) <= 1e-9 * abs(y) + 1e-300 for y in had['f']), 'the notebook shows the objective {!r}', f)
