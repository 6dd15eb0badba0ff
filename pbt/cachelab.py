"""Histories over cached functions, shared by P13 (always fresh) and P14 (economical, bounded, switchable)."""
import gc, weakref
import numpy as np
from .core import check, Violation

POOL = ['a', 'a[1:]', 'b', 'b[0]', 'p', 'p[1:]', 'q', 'r', 'n', 'top', 'None', 'one', 'half', 'text', 'plain', 'list']
# objects which share memory, directly or through the hierarchy: changing the first may change the others
AFFECTS = {'a': ['a', 'a[1:]'], 'a[1:]': ['a', 'a[1:]'], 'b': ['b', 'b[0]'], 'b[0]': ['b', 'b[0]'], 'p': ['p', 'p[1:]'], 'p[1:]': ['p', 'p[1:]'],
           'q': ['q', 'n', 'top'], 'r': ['r', 'n', 'top'], 'n': ['q', 'r', 'n', 'top'], 'top': ['q', 'r', 'n', 'top']}
UNCACHABLE = ('plain', 'list')
ARRAYS = ['a', 'a[1:]', 'b', 'b[0]', 'p', 'p[1:]', 'q', 'r']


class Boom(ValueError):
    pass


class Out(object):
    """What the cached functions return (weak references to it tell how many are kept)."""
    def __init__(self, content):
        self.content = content


class State(object):
    """Counters and switches the cached functions use; reset for every case."""
    def __init__(self):
        self.calls = {}
        self.fail = False
        self.outs = {}


def content(o):
    from paramz.core.parameter_core import Parameterizable
    from paramz import Param
    if isinstance(o, np.ndarray):
        return ['array', list(o.shape)] + [float(v) for v in np.asarray(o).ravel()]
    if isinstance(o, Parameterizable):
        return ['node'] + [float(v) for v in np.asarray(o.param_array).ravel()]
    return [repr(o)]


def compute(st, tag, named):
    """The work of every cached function: named is an ordered list of (name, object)."""
    return [tag] + [[k, content(v)] for k, v in named]


def work(st, tag, named):
    st.calls[tag] = st.calls.get(tag, 0) + 1
    if st.fail:
        st.raised = Boom('asked to fail')
        raise st.raised
    o = Out(compute(st, tag, named))
    st.outs.setdefault(tag, []).append(weakref.ref(o))
    return o


def quiet(st, tag, named):
    o = Out(compute(st, tag, named))
    st.outs.setdefault(tag, []).append(weakref.ref(o))
    return o


def nested(st, tag, method, *args):
    """A cached method which is called by another one of the same object."""
    o = method(*args)
    want = [tag] + [[k, content(v)] for k, v in zip('xyz', args)]
    check(isinstance(o, Out) and o.content == want, 'a cached method, called by another cached method of the object, returned {} but a fresh computation gives {}', o.content if isinstance(o, Out) else o, want)


def alive(st, tag):
    l = [r for r in st.outs.get(tag, []) if r() is not None]
    st.outs[tag] = l
    return len(l)


def build_pool():
    import paramz
    from paramz import Param, Parameterized, ObsAr
    d = {}
    d['a'] = ObsAr(np.array([1., 2., 3.]))
    d['a[1:]'] = d['a'][1:]
    d['b'] = ObsAr(np.array([[1., -2.], [3., 4.]]))
    d['b[0]'] = d['b'][0]
    d['p'] = Param('p', np.array([0.5, -1.5, 2.5]))
    d['p[1:]'] = d['p'][1:]
    d['q'] = Param('q', np.array([[1.5, -0.5], [2.5, 0.25]]))
    d['r'] = Param('r', np.array([-3.5, 0.75]))
    d['n'] = Parameterized('n')
    d['top'] = Parameterized('top')
    d['n'].link_parameters(d['q'], d['r'])
    d['top'].link_parameter(d['n'])
    d['other'] = Param('other', np.array([9.5]))
    d['top'].link_parameter(d['other'])
    d['None'] = None
    d['one'] = 1
    d['half'] = 0.5
    d['text'] = 'text'
    d['plain'] = np.array([1., 2.])
    d['list'] = [1, 2]
    return d


def below(pool, deep):
    """Where the nodes with cached methods are linked: directly below the top or further down."""
    from paramz import Parameterized
    if not deep:
        return pool['top']
    if 'mid' not in pool:
        pool['mid'] = Parameterized('mid')
        pool['top'].link_parameter(pool['mid'])
    return pool['mid']


class Cached(object):
    """One cached function under test, with its model."""
    def __init__(self, spec, tag, pool, st):
        from paramz.caching import Cacher, Cache_this
        self.kind, self.limit, self.ignore, self.force = spec['kind'], spec['limit'], spec['ignore'], spec['force']
        self.tag, self.st, self.pool = tag, st, pool
        fk = ('force',) if self.force else ()
        start = spec.get('start', 'on')
        nest = int(spec.get('nest', 0))
        self.simple = bool(spec.get('simple')) and self.kind == 'deco'
        if self.simple:
            self.ignore = self.force = False
        off = dict(cacher_enabled=False) if start == 'off_arg' else {}
        if self.kind == 'plain':
            if self.ignore:
                def op(ign, x, y=None, z=None, force=None):
                    return work(st, tag, [('x', x), ('y', y), ('z', z)])
            else:
                def op(x, y=None, z=None, force=None):
                    return work(st, tag, [('x', x), ('y', y), ('z', z)])
            self.cacher = Cacher(op, self.limit, ignore_args=(0,) if self.ignore else (), force_kwargs=fk, **off)
            self.host = None
        elif self.kind == 'bound':
            class O(object):
                if self.ignore:
                    def op(self, ign, x, y=None, z=None, force=None):
                        if nest:
                            nested(st, self.tag + 'second', self.cacher2, x, y)
                        return work(st, self.tag, [('x', x), ('y', y), ('z', z)])
                else:
                    def op(self, x, y=None, z=None, force=None):
                        if nest:
                            nested(st, self.tag + 'second', self.cacher2, x, y)
                        return work(st, self.tag, [('x', x), ('y', y), ('z', z)])

                def second(self, x, y):
                    return quiet(st, self.tag + 'second', [('x', x), ('y', y)])
            self.host = O()
            self.host.tag = tag
            if start == 'off':
                from paramz.caching import FunctionCache
                self.host.cache = FunctionCache()
                self.host.cache.disable_caching()
            if nest == 1:
                self.host.cacher2 = Cacher(self.host.second, 2)
            self.host.cacher = Cacher(self.host.op, self.limit, ignore_args=(0,) if self.ignore else (), force_kwargs=fk, **off)
            if nest == 2:
                self.host.cacher2 = Cacher(self.host.second, 2)
        elif self.kind == 'attr':
            # a node which makes a cacher of one of its methods
            from paramz import Parameterized, Param

            class N(Parameterized):
                if self.ignore:
                    def op(self, ign, x, y=None, z=None, force=None):
                        if nest:
                            nested(st, self.tag + 'second', self.cacher2, x, y)
                        return work(st, self.tag, [('x', x), ('y', y), ('z', z)])
                else:
                    def op(self, x, y=None, z=None, force=None):
                        if nest:
                            nested(st, self.tag + 'second', self.cacher2, x, y)
                        return work(st, self.tag, [('x', x), ('y', y), ('z', z)])

                def second(self, x, y):
                    return quiet(st, self.tag + 'second', [('x', x), ('y', y)])
            self.host = N('host' + tag)
            self.host.tag = tag
            self.host.link_parameter(Param('s', np.array([1.25, -2.25])))
            if start == 'off':
                self.host.disable_caching()
            if nest == 1:
                self.host.cacher2 = Cacher(self.host.second, 2)
            self.host.cacher = Cacher(self.host.op, self.limit, ignore_args=(0,) if self.ignore else (), force_kwargs=fk, **off)
            if nest == 2:
                self.host.cacher2 = Cacher(self.host.second, 2)
            below(pool, spec.get('deep')).link_parameter(self.host)
        elif self.kind == 'deco':
            class Base(object):
                @Cache_this(limit=2, ignore_args=(0,))
                def op(self, x, y, z=None):
                    return quiet(st, self.tag + 'base', [('x', x), ('y', y)])

                @Cache_this(limit=2, ignore_args=(0,))
                def second(self, x, y):
                    return quiet(st, self.tag + 'second', [('x', x), ('y', y)])

                def others(self, x, y):
                    if nest:
                        nested(st, self.tag + 'second', self.second, x, y)
                        nested(st, self.tag + 'base', super(O, self).op, x, y)

            class O(Base):
                if self.simple:
                    @Cache_this(self.limit, (0,))
                    def op(self, x):
                        self.others(x, None)
                        return work(st, self.tag, [('x', x), ('y', None), ('z', None)])
                elif self.ignore:
                    # (the default of the forcing argument does not force)
                    @Cache_this(limit=self.limit, ignore_args=(0, 1), force_kwargs=fk)
                    def op(self, ign, x, y=None, z=None, force=False):
                        self.others(x, y)
                        return work(st, self.tag, [('x', x), ('y', y), ('z', z)])
                else:
                    @Cache_this(limit=self.limit, ignore_args=(0,), force_kwargs=fk)
                    def op(self, x, y=None, z=None, force=None):
                        self.others(x, y)
                        return work(st, self.tag, [('x', x), ('y', y), ('z', z)])
            self.host = O()
            self.host.tag = tag
            if start != 'on':
                from paramz.caching import FunctionCache
                self.host.cache = FunctionCache()
                self.host.cache.disable_caching()
        else:
            # a decorated method of a node whose own parameters matter: the node itself is part of the call
            from paramz import Parameterized, Param

            class Base(Parameterized):
                @Cache_this(limit=2)
                def op(self, x, y):
                    return quiet(st, self.tag + 'base', [('x', x), ('y', y)])

                @Cache_this(limit=2)
                def second(self, x, y):
                    return quiet(st, self.tag + 'second', [('x', x), ('y', y)])

                def others(self, x, y):
                    if nest:
                        nested(st, self.tag + 'second', self.second, x, y)
                        nested(st, self.tag + 'base', super(N, self).op, x, y)

            class N(Base):
                if self.ignore:
                    @Cache_this(limit=self.limit, ignore_args=(1,), force_kwargs=fk)
                    def op(self, ign, x, y=None, z=None, force=None):
                        self.others(x, y)
                        return work(st, self.tag, [('self', self), ('x', x), ('y', y), ('z', z)])
                else:
                    @Cache_this(limit=self.limit, force_kwargs=fk)
                    def op(self, x, y=None, z=None, force=None):
                        self.others(x, y)
                        return work(st, self.tag, [('self', self), ('x', x), ('y', y), ('z', z)])
            self.host = N('host' + tag)
            self.host.tag = tag
            self.host.link_parameter(Param('s', np.array([1.25, -2.25])))
            if start != 'on':
                self.host.disable_caching()
            below(pool, spec.get('deep')).link_parameter(self.host)
        self.enabled = start == 'on' or (start == 'off' and self.kind == 'plain')
        self.linked = self.kind in ('attr', 'self')  # below the top of the pool
        self.bind()
        self.forget()

    def bind(self):
        if self.kind in ('bound', 'attr'):
            self.cacher = self.host.cacher
        self.call = self.cacher if self.kind in ('plain', 'bound', 'attr') else self.host.op

    def copied(self, tag):
        """A copy of the object whose method is cached, with a cache of its own."""
        import copy
        c = copy.copy(self)
        c.tag, c.linked = tag, False
        c.host = self.host.copy() if self.kind in ('attr', 'self') else copy.deepcopy(self.host)
        check(c.host is not self.host and c.host.tag == self.tag, 'a copy of the host of a cached method is {!r}', c.host)
        c.host.tag = tag
        c.bind()
        # (whether the copy of an object whose caching is off starts with it off is not specified)
        if not self.enabled:
            if self.kind in ('attr', 'self'):
                c.host.enable_caching()
            elif hasattr(c.host, 'cache'):
                c.host.cache.enable_caching()
        c.enabled = True
        c.forget()
        return c

    def key(self, x, y, z, form):
        """What makes two calls the same (pool names; the ignored argument and the order of keywords do not count)."""
        if self.kind in ('deco', 'self'):
            return (x, 'None' if y is None else y, 'None' if z is None else z)
        pos, kw = split(x, y, z, form)
        return (tuple(pos), tuple(sorted(kw)))

    def objects(self, x, y, z):
        s = {o for o in (x, y, z) if o is not None}
        if self.kind == 'self':
            s.add('host' + self.tag)
        return s

    def changed(self, names):
        for k in self.order:
            if self.keep[k] & names:
                self.stale.add(k)

    def forget(self):
        self.order, self.stale, self.keep = [], set(), {}


def split(x, y, z, form):
    """(positional names, keyword pairs) of a call; forms: all by position; y, z by keyword; z, y by keyword; y by position, z by keyword; all by keyword."""
    pos, kw = [x], []
    if form == 4:
        return [], [(k, o) for k, o in (('x', x), ('y', y), ('z', z)) if o is not None]
    if form == 0 and not (y is None and z is not None):
        pos += [o for o in (y, z) if o is not None]
    elif form == 3 and y is not None:
        pos.append(y)
        if z is not None:
            kw.append(('z', z))
    else:
        kw = [(k, o) for k, o in (('y', y), ('z', z)) if o is not None]
        if form == 2:
            kw.reverse()
    return pos, kw


def strategy(tier, economy):
    from hypothesis import strategies as st
    cach = st.fixed_dictionaries(dict(kind=st.sampled_from(['plain', 'bound', 'deco', 'self', 'attr']), limit=st.integers(1, 4), ignore=st.booleans(), force=st.booleans(), nest=st.sampled_from([0, 0, 1, 2]), start=st.sampled_from(['on'] * 6 + ['off', 'off_arg']), simple=st.sampled_from([False, False, True]), deep=st.booleans()))
    arg = st.one_of(st.sampled_from(['a', 'b', 'q', 'a[1:]', 'p', 'n']), st.sampled_from(POOL[:-2] if economy else POOL), st.sampled_from(POOL))
    opt = st.one_of(st.none(), arg)
    val = st.integers(-20, 20).map(lambda k: k / 4. + 0.125)
    call = st.fixed_dictionaries(dict(op=st.just('call'), c=st.integers(0, 3), x=arg, y=opt, z=opt, form=st.integers(0, 4), ign=st.integers(0, 3),
                                      force=st.sampled_from([None, None, None, None, None, 'yes', 'None', 'False']), fail=st.sampled_from([False] * 19 + [True])))
    again = st.fixed_dictionaries(dict(op=st.just('again'), back=st.integers(0, 5), form=st.integers(0, 3), ign=st.integers(0, 3)))
    swap = st.fixed_dictionaries(dict(op=st.just('swap'), form=st.sampled_from([0, 1, 4])))
    change = st.fixed_dictionaries(dict(op=st.just('change'), what=st.one_of(st.sampled_from(ARRAYS), st.integers(0, 9)), how=st.sampled_from(['item', 'all', 'iadd', 'imul', 'isub', 'mask']), v=val))
    deep = st.fixed_dictionaries(dict(op=st.just('deep'), what=st.one_of(st.sampled_from(['n', 'top', 'q', 'r', 'p']), st.integers(0, 9)),
                                      how=st.sampled_from(['all', 'optimizer_array', 'randomize', 'positive', 'unconstrain', 'negative', 'fixvalue', 'bounded', 'item']), v=val))
    switch = st.fixed_dictionaries(dict(op=st.just('switch'), c=st.integers(0, 3), how=st.sampled_from(['disable', 'enable', 'enable', 'reset', 'enable', 'host_disable', 'host_enable', 'host_enable', 'host_reset'])))
    temp = st.fixed_dictionaries(dict(op=st.just('temp'), c=st.integers(0, 3), v=val, n=st.integers(1, 6), x=arg, num=st.booleans()))
    change_again = st.tuples(change, again.map(lambda d: dict(d, back=0, form=0))).map(list)
    deep_again = st.tuples(deep, again.map(lambda d: dict(d, back=0, form=0))).map(list)
    fill = st.fixed_dictionaries(dict(op=st.just('fill'), c=st.integers(0, 3), turn=st.integers(0, 6), more=st.integers(0, 2), hit=st.one_of(st.none(), st.integers(0, 4)), order=st.lists(st.integers(0, 6), min_size=1, max_size=6), v=val, form=st.sampled_from([0, 1])))
    last = again.map(lambda d: dict(d, back=0, form=0))
    failed_again = st.tuples(st.one_of(change, deep), last.map(lambda d: dict(d, fail=True)), last).map(list)
    copied = st.fixed_dictionaries(dict(op=st.just('copy'), c=st.integers(0, 4), last=st.integers(0, 2)))
    w = [call] * 4 + [again] * 3 + [copied, switch, temp, failed_again, swap] + ([fill, fill] if economy else [fill])
    listen = st.fixed_dictionaries(dict(op=st.just('listen'), what=st.one_of(st.sampled_from(['a', 'b', 'p', 'q', 'n', 'top']), st.integers(0, 9)), prio=st.sampled_from([0, 0, 3, 1000, 1e12, -5, -100, -200]), c=st.integers(0, 3), x=arg, y=opt))
    listened = st.tuples(call, listen, change, last).map(lambda t: [t[0], dict(t[1], last=True), dict(t[2], what=t[2]['what'] if t[2]['v'] > 2 else 0), t[3]])
    held = st.fixed_dictionaries(dict(op=st.just('held'), ops=st.lists(st.one_of(change, deep), min_size=1, max_size=3)))
    w += ([] if economy else [listened])
    w += [held, st.tuples(held, last).map(list)]
    w += ([change, deep, again, again] if economy else [change, deep, change_again, deep_again, change_again, deep_again])
    one = st.integers(0, len(w) - 1).flatmap(lambda i: w[i])
    flat = lambda l: [o for x in l for o in (x if isinstance(x, list) else [x])]
    return st.fixed_dictionaries(dict(cachers=st.lists(cach, min_size=1, max_size=2), ops=st.lists(one, min_size=6, max_size=22).map(flat)))


def run(case, rec, economy):
    from paramz import ObsAr
    st = State()
    pool = build_pool()
    cs = [Cached(s, 'c%d' % i, pool, st) for i, s in enumerate(case['cachers'])]
    watched = {k: len(list(o.observers)) for k, o in pool.items() if hasattr(o, 'observers')}
    ign = [pool['a'], np.array([3.]), 'other', {}]
    history = []
    ntemp = 0
    changed_since = False

    def affected(name):
        s = set(AFFECTS.get(name, [name]))
        if name == 'top':
            s |= {'host' + c.tag for c in cs if c.linked}
        return s

    def call(c, x, y, z, form, ig, force, fail, objs=None):
        if c.simple:
            y = z = None
            form = 0
        get = lambda k: objs[k] if objs and k in objs else pool[k]
        pos, kw = split(x, y, z, form)
        args = [get(k) for k in pos]
        kws = dict((k, get(v)) for k, v in kw)
        if c.ignore:
            args.insert(0, ign[ig])
        # (False is the default of some)
        forced = c.force and (force == 'yes' or (force == 'False' and not (c.kind == 'deco' and c.ignore)))
        if c.force and force is not None:
            kws['force'] = {'yes': 'yes', 'False': False}.get(force)
        key = c.key(x, y, z, form)
        if c.force and force == 'None' and (c.kind in ('plain', 'bound', 'attr') or (c.kind == 'deco' and c.ignore)):
            key = key + ('force',)
        names = c.objects(x, y, z)
        uncachable = bool(names & set(UNCACHABLE))
        stored = key in c.order
        must_hit = c.enabled and not forced and not uncachable and stored and key not in c.stale
        must_compute = not c.enabled or forced or uncachable
        before = st.calls.get(c.tag, 0)
        what = '%s(%s)' % (c.kind, ', '.join([str(k) for k in pos] + ['%s=%s' % k for k in kw] + (['force=%s' % force] if c.force and force else [])))
        st.fail = fail
        st.raised = None
        out = None
        try:
            out = c.call(*args, **kws)
        except Boom as e:
            check(fail and e is st.raised, '{}: another error than that of the function was raised: {!r}', what, e)
        finally:
            st.fail = False
        ran = st.calls.get(c.tag, 0) - before
        if fail and ran:
            check(out is None, '{}: the error of the function was not passed on', what)
            rec.label('error passed on')
        if out is not None:
            check(isinstance(out, Out), '{}: returned {!r}', what, out)
            want = compute(st, c.tag, ([('self', c.host)] if c.kind == 'self' else []) + [('x', get(x)), ('y', None if y is None else get(y)), ('z', None if z is None else get(z))])
            check(out.content == want, '{}: returned {} but a fresh computation gives {}', what, out.content, want)
            if stored and key in c.stale:
                rec.mark('repeated after a change')
        if economy:
            if must_hit:
                check(ran == 0, '{}: recomputed although none of its arguments changed since and only {} calls are kept of {}', what, len(c.order), c.limit)
                rec.mark('reused')
            check(ran <= 1, '{}: computed {} times in one call', what, ran)
            if must_compute:
                check(ran == 1, '{}: not computed, although {}', what, 'forced' if forced else 'switched off' if not c.enabled else 'not cachable')
                rec.label('forced' if forced else 'switched off' if not c.enabled else 'not cachable')
        # model
        if not must_compute and not must_hit:
            if fail and ran:
                c.forget()
            elif stored:
                c.stale.discard(key)
            else:
                if len(c.order) >= c.limit:
                    old = c.order.pop(0)
                    c.stale.discard(old)
                    del c.keep[old]
                    rec.label('evicted')
                c.order.append(key)
                c.keep[key] = names
        del out, args, kws
        if economy:
            k = alive(st, c.tag)
            if k > c.limit:
                gc.collect()
                k = alive(st, c.tag)
            check(k <= c.limit, '{}: {} results are kept, the limit is {}', what, k, c.limit)
            for other in ('second', 'base'):
                k = alive(st, c.tag + other)
                if k > 2:
                    gc.collect()
                    k = alive(st, c.tag + other)
                check(k <= 2, '{}: {} results of the {} method are kept, the limit is 2', what, k, other)

    def change(name):
        for c in cs:
            c.changed(affected(name))

    def recent(k, among):
        # an object which makes an argument of a recent call change (k-th possibility)
        used = {o for h in history[-4:] for o in h[0].objects(*h[1:4])}
        l = [a for a in among if affected(a) & used]
        return l[k % len(l)] if l else among[k % len(among)]

    def perform(op):
        t = op['op']
        if isinstance(op.get('what'), int):
            op = dict(op, what=recent(op['what'], ARRAYS if t == 'change' else ['n', 'top', 'q', 'r', 'p']))
        if t == 'change':
            x = pool[op['what']]
            how = op['how']
            if how == 'item':
                x[0] = op['v']
            elif how == 'all':
                x[...] = op['v']
            elif how == 'iadd':
                x += op['v']
            elif how == 'isub':
                x -= op['v']
            elif how == 'imul':
                x *= 1.5
            else:
                x[np.asarray(x) > 0] = op['v']
            change(op['what'])
        elif t == 'deep':
            x = pool[op['what']]
            how, v = op['how'], op['v']
            if how == 'all':
                x[:] = v
            elif how == 'optimizer_array':
                x.optimizer_array = np.zeros(len(np.asarray(x.optimizer_array))) + v
            elif how == 'randomize':
                x.randomize()
            elif how == 'positive':
                x.constrain_positive(warning=False)
            elif how == 'negative':
                x.constrain_negative(warning=False)
            elif how == 'bounded':
                x.constrain_bounded(-1., 1., warning=False)
            elif how == 'unconstrain':
                x.unconstrain()
            elif how == 'fixvalue':
                x.constrain_fixed(v, warning=False)
            elif how == 'item':
                if op['what'] == 'n':
                    pool['n'].q[0] = v
                elif op['what'] == 'top':
                    pool['top']['.*q'][:] = v
                else:
                    x[0] = v
            rec.label('deep ' + how)
            # randomizing switches updates off and on again, which refreshes the whole tree
            change('top' if how == 'randomize' and op['what'] != 'p' else op['what'])

    class Listener(object):
        pass

    listeners, heard, holding = [], [], []

    def listen(what, prio, c, x, y):
        # an observer which asks for the cached result as soon as it is told
        o = Listener()

        def told(me, which=None):
            if holding:
                return # no calls while updates are off
            args = [pool[k] for k in (x, y) if k is not None]
            out = c.call(*(([ign[0]] if c.ignore else []) + args))
            want = compute(st, c.tag, ([('self', c.host)] if c.kind == 'self' else []) + [('x', pool[x]), ('y', None if y is None else pool[y]), ('z', None)])
            heard.append((what, prio, c, x, y, out.content, want))
        o.told = told
        pool[what].add_observer(o, o.told, prio)
        return o

    def answers():
        for what, prio, c, x, y, got, want in heard:
            rec.mark('asked by an observer')
            check(got == want, '{}({}, {}), called by an observer of {} (priority {}) which is told of a change, returned {} but a fresh computation gives {}', c.kind, x, y, what, prio, got, want)
        del heard[:]

    for op in case['ops']:
        t = op['op']
        answers()
        if t == 'call':
            c = cs[op['c'] % len(cs)]
            history.append((c, op['x'], op['y'], op['z'], op['form']))
            call(c, op['x'], op['y'], op['z'], op['form'], op['ign'], op['force'], op['fail'])
        elif t == 'again' and history:
            c, x, y, z, form = history[-1 - op['back'] % len(history)]
            if op['form'] in (1, 2) and form in (1, 2):
                form = op['form']  # another order of the same keywords
            if c.ignore and op['ign']:
                rec.label('other ignored argument')
            call(c, x, y, z, form, op['ign'], None, bool(op.get('fail')))
        elif t == 'swap' and history:
            c, x, y, z, form = history[-1]
            if y is not None and z is not None and op['form'] != 4:
                y, z = z, y
            elif y is not None:
                x, y = y, x
            history.append((c, x, y, z, op['form']))
            rec.label('arguments exchanged')
            call(c, x, y, z, op['form'], 0, None, False)
        elif t == 'temp':
            c = cs[op['c'] % len(cs)]
            for i in range(op['n']):
                ntemp += 1
                k = 'temp%d' % ntemp
                if op.get('num') and not c.simple:
                    # a number which lives only as long as the call (or the cache keeps it)
                    rec.label('temporary number')
                    call(c, op['x'], k, None, op['n'] % 2, 0, None, False, {k: float(str(op['v'] + i))})
                    continue
                call(c, k, None, None, 0, 0, None, False, {k: ObsAr(np.array([op['v'] + i]))})
        elif t == 'fill':
            # as many different calls as are kept, a change of an argument of one of them, more calls, and earlier ones again
            c = cs[op['c'] % len(cs)]
            args = ['a', 'b', 'q', 'p', 'half', 'one', 'text']
            args = args[op['turn']:] + args[:op['turn']]
            for k in args[:c.limit]:
                call(c, k, None, None, 0, 0, None, False)
            if op['hit'] is not None:
                k = args[op['hit'] % c.limit]
                if k in ARRAYS:
                    pool[k][:] = op['v']
                    change(k)
            for k in args[c.limit:c.limit + op['more']]:
                call(c, k, None, None, 0, 0, None, False)
            for k in op['order']:
                call(c, args[k], None, None, 0, 0, None, False)
            rec.label('filled')
        elif t in ('change', 'deep'):
            perform(op)
        elif t == 'held':
            # no calls while the updates are off; everything is told when they are switched on again
            pool['top'].update_model(False)
            holding.append(True)
            for o in op['ops']:
                perform(o)
            del holding[:]
            pool['top'].update_model(True)
            change('top')
            rec.label('changed while updates are off')
        elif t == 'listen':
            what = op['what'] if not isinstance(op['what'], int) else recent(op['what'], ['a', 'b', 'p', 'q', 'n', 'top'])
            c = cs[op['c'] % len(cs)]
            x, y = op['x'], op['y']
            if op.get('last') and history:
                c, x, y = history[-1][:3]
            names = c.objects(x, y, None)
            family = affected('top')
            # those which have been told of a change by the time the observers of `what` are
            told = {'q': ['q'], 'r': ['r'], 'n': ['q', 'r', 'n'], 'top': family}.get(what, [])
            if len(listeners) < 3 and (what not in family or all(o in told or o not in family for o in names)):
                listeners.append(listen(what, op['prio'], c, x, None if c.simple else y))
        elif t == 'copy':
            c = cs[op['c'] % len(cs)]
            if c.host is None or len(cs) > 4:
                continue
            n = {k: len(list(o.observers)) for k, o in pool.items() if hasattr(o, 'observers')}
            before = dict(st.calls)
            d = c.copied('c%d' % len(cs))
            check(st.calls == before, 'copying the host of a cached method computed')
            for k in n:
                check(len(list(pool[k].observers)) == n[k], 'copying the host of a cached method changed the observers of {}', k)
            cs.append(d)
            rec.label('copied the host of a %s method' % c.kind)
            if op['last'] and history:
                h = history[-1][1:]
                for e in ((d, c), (c, d))[op['last'] % 2]:
                    history.append((e,) + h)
                    call(e, *h, 0, None, False)
        elif t == 'switch':
            c = cs[op['c'] % len(cs)]
            how = op['how']
            if how.startswith('host_') and c.linked:
                if how == 'host_reset':
                    continue
                (pool['top'].disable_caching if how == 'host_disable' else pool['top'].enable_caching)()
                for d in cs:
                    if d.linked:
                        d.enabled = how == 'host_enable'
                        if not d.enabled:
                            d.forget()
                continue
            how = how.replace('host_', '')
            if c.kind == 'plain' or (c.kind in ('bound', 'attr') and op['how'] == how):
                target = c.cacher
                getattr(target, {'disable': 'disable_cacher', 'enable': 'enable_cacher', 'reset': 'reset'}[how])()
            elif c.kind in ('attr', 'self'):
                if how == 'reset':
                    c.host.cache.reset()
                else:
                    getattr(c.host, how + '_caching')()
            else:
                if not hasattr(c.host, 'cache'):
                    continue
                target = c.host.cache
                getattr(target, {'disable': 'disable_caching', 'enable': 'enable_caching', 'reset': 'reset'}[how])()
            if how == 'reset' or how == 'disable':
                c.forget()
                gc.collect(0)
                if economy:
                    check(alive(st, c.tag) == 0, '{} results are kept after {}', alive(st, c.tag), how)
            if how != 'reset':
                c.enabled = how == 'enable'
            rec.label('switch ' + how)
    # looking at a cacher changes nothing, saving it is refused (which must not make it lose anything)
    for c in cs:
        if c.kind in ('plain', 'bound', 'attr'):
            import pickle
            text = str(c.cacher)
            check('limit=%d' % c.limit in text and c.cacher.__name__ in text, 'a cacher is printed as {!r}', text)
            try:
                pickle.dumps(c.cacher)
                check(False, 'a cacher was pickled')
            except pickle.PickleError:
                pass
    answers()
    if economy:
        # a cacher which is reset is told of no changes any more
        for c in cs:
            if c.kind in ('plain', 'bound', 'attr'):
                c.cacher.reset()
                if hasattr(c.host, 'cacher2'):
                    c.host.cacher2.reset()
            elif hasattr(c.host, 'cache'):
                c.host.cache.reset()
        for k, n in watched.items():
            got = len(list(pool[k].observers))
            check(got == n, 'after all cachers were reset, {} has {} observers instead of {}', k, got, n)
