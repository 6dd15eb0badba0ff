"""Hierarchies of the code under test next to a reference model; generators, operations and observations shared by many checks."""
import numpy as np
from paramz import Param, Parameterized, Model
from paramz.core import HierarchyError
from paramz.core.observable_array import ObsAr
from paramz.caching import Cache_this
from . import ref
from .core import check, Violation, Discard, arr

LOG = []          # (object, values of the object at the time it was told) of every update
FAIL = [None]     # an exception factory for objectives, see RModel


class Node(Parameterized):
    """An inner object which notes each of its updates."""
    def parameters_changed(self):
        LOG.append((self, np.array(self.param_array, float).copy()))


class RModel(Model):
    """A model with a smooth objective over all of its parameters; computed state is refreshed in parameters_changed."""
    def __init__(self, name='model', children=(), kind='quad', target=0.25):
        super(RModel, self).__init__(name)
        self.kind, self.target = kind, target
        self.wrong = None          # additional (wrong) gradient per element
        self.offset = 0.
        self.mute = ()             # elements which do not matter
        self.scale = 1.
        self.value = None
        self.link_parameters(*children)

    def compute(self, v):
        v = np.array(v, float)
        v[list(self.mute)] = 0.
        f, g = objective(self.kind, self.target, v)
        g[list(self.mute)] = 0.
        return f, g

    def parameters_changed(self):
        v = np.array(self.param_array, float).ravel()
        LOG.append((self, v.copy()))
        f, g = self.compute(v)
        if self.scale != 1.:
            f, g = f * self.scale, g * self.scale
        if self.wrong is not None and len(self.wrong) == g.size:
            g = g + np.asarray(self.wrong, float)
        self.value = f + self.offset
        i = 0
        for p in leaves_of(self):
            p.gradient[...] = g[i:i + p.size].reshape(p.shape)
            i += p.size

    def log_likelihood(self):
        return -self.value

    @Cache_this(limit=2)
    def squares(self, p):
        return float(np.sum(np.asarray(p) ** 2))

    def objective_function(self):
        return self.value

    def objective_function_gradients(self):
        return self.gradient


def objective(kind, target, v):
    """Value and gradient of the smooth test objectives."""
    v = np.asarray(v, float)
    n = v.size
    w = 1. + (np.arange(n) % 3)
    t = target + 0.5 * (np.arange(n) % 2)
    if kind == 'quad':
        d = v - t
        return 0.5 * float(np.sum(w * d * d)), w * d
    if kind == 'coupled':
        d = v - t
        s = float(np.sum(d))
        return 0.5 * float(np.sum(w * d * d)) + 0.25 * s * s, w * d + 0.5 * s
    if kind == 'cosh':
        d = v - t
        return float(np.sum(np.logaddexp(d, -d))), np.tanh(d)
    if kind == 'waves':
        d = v - t
        return float(np.sum(0.1 * d * d + np.sin(w * v))), 0.2 * d + w * np.cos(w * v)
    if kind == 'kink':
        d = v - t
        return float(np.sum(w * np.abs(d) + 0.05 * d * d)), w * np.sign(d) + 0.1 * d
    if kind == 'trough':
        # flat close to the target
        d = v - t
        e = np.maximum(np.abs(d) - 0.5, 0.)
        return float(np.sum(w * e * e)), 2. * w * e * np.sign(d)
    if kind == 'hinge':
        # exactly zero beyond the targets
        e = np.maximum(target - v, 0.)
        return float(np.sum(w * e * e)), -2. * w * e
    if kind == 'valley':
        # badly scaled and curved
        d = v - t
        e = np.diff(d * d)
        return float(np.sum(0.5 * (d - 1.) ** 2) + 5. * np.sum(e * e)), (d - 1.) + 20. * d * (np.append(0., e) - np.append(e, 0.))
    raise ValueError(kind)


def leaves_of(real):
    """Leaves of a real object, found without the code under test's own traversal helpers."""
    if isinstance(real, Param):
        return [real]
    return [l for c in real.parameters for l in leaves_of(c)]


# ---------------------------------------------------------------------------- reference model
class L(object):
    """A leaf: flat values, per element a constraint (or None) and a fix."""
    kind = 'leaf'

    def __init__(self, name, shape, values):
        self.name, self.shape = name, tuple(shape)
        self.v = np.array(values, float)
        self.g = np.zeros(self.v.size)
        self.con = [None] * self.v.size
        self.fix = [False] * self.v.size
        self.tags = [frozenset()] * self.v.size    # of a user's own index operation, see tagged
        self.parent, self.real = None, None
        self.kids = ()

    @property
    def size(self):
        return self.v.size

    def leaves(self):
        return [self]

    def objects(self):
        return [self]


class N(object):
    kind = 'node'

    def __init__(self, name):
        self.name, self.kids, self.parent, self.real = name, [], None, None

    def leaves(self):
        return [l for k in self.kids for l in k.leaves()]

    @property
    def size(self):
        return sum(l.size for l in self.leaves())

    def objects(self):
        return [self] + [o for k in self.kids for o in k.objects()]

    v = property(lambda self: cat([l.v for l in self.leaves()]))
    g = property(lambda self: cat([l.g for l in self.leaves()]))
    con = property(lambda self: [c for l in self.leaves() for c in l.con])
    fix = property(lambda self: [c for l in self.leaves() for c in l.fix])
    tags = property(lambda self: [c for l in self.leaves() for c in l.tags])


def cat(l):
    return np.concatenate(l) if l else np.zeros(0)


def root(m):
    while m.parent is not None:
        m = m.parent
    return m


def ancestors(m):
    out = []
    while m.parent is not None:
        m = m.parent
        out.append(m)
    return out


def free_of(m):
    """Free numbers of a model object: unfixed elements mapped back by their constraints."""
    v, con, fix = m.v, m.con, m.fix
    out = [float(ref.finv(c, v[i])) for i, c in enumerate(con) if not fix[i]]
    return np.array(out, float)


def set_flat(m, flat):
    i = 0
    for l in m.leaves():
        l.v = np.array(flat[i:i + l.size], float)
        i += l.size


def locate(m, k):
    """(leaf, element) of the k-th element of m."""
    for l in m.leaves():
        if k < l.size:
            return l, k
        k -= l.size
    raise IndexError


# ---------------------------------------------------------------------------- generators
SHAPES = [[1], [2], [3], [4], [2, 2], [3, 1], [1, 3], [2, 3], [2, 2, 2], [1, 1], [5], [3, 2], [2, 1, 3], [2, 3, 2], [11]]


def values_of(seed, size):
    """Deterministic leaf values: never zero, never on a bound (bounds are multiples of one half)."""
    return [((seed * 31 + i * 17) % 41 - 20) / 4. + 0.125 for i in range(size)]


def keys(st):
    b = st.tuples(st.integers(-6, 5), st.integers(1, 6)).map(lambda t: ['logistic', t[0] / 2., (t[0] + t[1]) / 2.])
    return st.one_of(st.sampled_from(['logexp', 'exp', 'neglogexp', 'negexp', 'square', 'shift']), st.sampled_from(['logexp', 'neglogexp', ['logistic', -1., 1.], ['logistic', 0., 2.]]), b)


def leaf_spec(st, dc=False):
    dcs = st.one_of(st.none(), st.none(), keys(st)) if dc else st.none()
    return st.tuples(st.just('p'), st.sampled_from(SHAPES), st.integers(0, 40), dcs).map(list)


def tree_spec(st, dc=False, max_leaves=6):
    leaf = leaf_spec(st, dc)
    return st.recursive(leaf, lambda c: st.tuples(st.just('n'), st.lists(c, max_size=3), st.integers(0, 2)).map(list), max_leaves=max_leaves)


def node_spec(st, dc=False, max_leaves=6, min_kids=1):
    """A tree whose root is a node."""
    t = tree_spec(st, dc, max_leaves)
    return st.tuples(st.just('n'), st.lists(t, min_size=min_kids, max_size=4), st.integers(0, 2)).map(list)


def model_spec(st, dc=False, max_leaves=5):
    """A tree which has at least one leaf below its root."""
    return st.tuples(node_spec(st, dc, max_leaves, min_kids=0), leaf_spec(st, dc), st.booleans()).map(
        lambda t: ['n', t[0][1] + [t[1]] if t[2] else [t[1]] + t[0][1], t[0][2]])


def size_of_spec(s):
    return int(np.prod(s[1])) if s[0] == 'p' else sum(size_of_spec(c) for c in s[1])


def index_expr(st):
    """Index expressions, coded independently of the shape (numbers are taken modulo the dimension)."""
    i = st.tuples(st.just('i'), st.integers(-4, 3)).map(list)
    lim = st.one_of(st.none(), st.integers(-5, 5))
    s = st.tuples(st.just('s'), lim, lim, st.sampled_from([None, None, 1, 2, -1, 3])).map(list)
    l = st.tuples(st.just('l'), st.lists(st.integers(-4, 3), min_size=1, max_size=3)).map(list)
    d = st.tuples(st.just('d'), st.lists(st.integers(-4, 3), min_size=2, max_size=4)).map(list)   # may name an element twice
    m = st.tuples(st.just('m'), st.lists(st.booleans(), min_size=1, max_size=4)).map(list)
    e = st.just(['e'])
    dim = st.one_of(i, s, s, l, m, d)
    return st.one_of(st.lists(st.one_of(dim, dim, e), min_size=1, max_size=3).map(lambda x: ['t', x]),
                     st.lists(st.booleans(), min_size=1, max_size=8).map(lambda x: ['M', x]),
                     st.lists(s, min_size=1, max_size=2).map(lambda x: ['t', x]))


def decode(expr, shape, keep_array=False):
    """A numpy index for a shape; None stands for the whole. Never a scalar result if keep_array."""
    if expr is None:
        return None
    if expr[0] == 'M':
        n = int(np.prod(shape))
        bits = [expr[1][k % len(expr[1])] for k in range(n)]
        return np.array(bits, dtype=bool).reshape(shape)
    parts = [p for p in expr[1]]
    # at most one ellipsis, not more parts than dimensions
    out, used, seen_e, advanced = [], 0, False, 0
    for p in parts:
        if p[0] == 'e':
            if seen_e:
                continue
            seen_e = True
            out.append(['e'])
            continue
        if used < len(shape):
            out.append(p)
            used += 1
    if not out:
        return None
    # dimension each part addresses
    dims, d = [], 0
    tail = len([1 for p in out if p[0] != 'e'])
    for p in out:
        if p[0] == 'e':
            d = len(shape) - (tail - d)
            dims.append(None)
        else:
            dims.append(d)
            d += 1
    idx = []
    lens = None
    for p, d in zip(out, dims):
        if p[0] == 'e':
            idx.append(Ellipsis)
            continue
        n = shape[d]
        if p[0] == 'i':
            idx.append(p[1] % n if p[1] >= 0 else -((-p[1] - 1) % n) - 1)
        elif p[0] == 's':
            idx.append(slice(p[1], p[2], p[3]))
        else:
            # lists and masks; all of one expression have the same length
            if p[0] == 'd':
                l = [k % n if k >= 0 else -((-k - 1) % n) - 1 for k in p[1]]
            elif p[0] == 'l':
                l = []
                for k in p[1]:
                    k = k % n if k >= 0 else -((-k - 1) % n) - 1
                    if k % n not in [x % n for x in l]:
                        l.append(k)
            else:
                l = [k for k in range(n) if p[1][k % len(p[1])]]
            if lens is None:
                lens = len(l)
                as_mask = p[0] == 'm' and len(l) != 1
            elif len(l) != lens:
                idx.append(slice(None))
                continue
            if p[0] == 'm' and as_mask:
                idx.append(np.array([k in l for k in range(n)]))
            else:
                idx.append(np.array(l, dtype=int) if p[0] == 'm' or not l else l)
    ints = [i for i, x in enumerate(idx) if isinstance(x, int)]
    if keep_array and len(ints) == len(shape):
        k = idx[ints[-1]] % shape[-1]
        idx[ints[-1]] = slice(k, k + 1)
    return tuple(idx) if len(idx) > 1 else idx[0]


def plain(idx):
    """The same index without anything of the code under test (lists instead of index arrays are the same to numpy)."""
    return idx


def selected(idx, shape):
    """Flat element numbers selected by a decoded index, in the shape of the selection."""
    a = np.arange(int(np.prod(shape))).reshape(shape)
    return a if idx is None else a[idx]


def kind_of_index(idx):
    parts = idx if isinstance(idx, tuple) else (idx,)
    return sorted({'all' if p is None else 'ellipsis' if p is Ellipsis else 'int' if isinstance(p, (int, np.integer)) else 'slice' if isinstance(p, slice)
                   else 'mask' if isinstance(p, np.ndarray) and p.dtype == bool else 'list' for p in parts})


def fit(raw, key):
    """A value well inside of the domain of a constraint, made from any number."""
    key = ref.norm(key)
    if key is None or key == 'shift':
        return float(raw)
    a = min(abs(float(raw)), 20.) + 0.0625
    if key in ('logexp', 'exp', 'square'):
        return a
    if key in ('neglogexp', 'negexp'):
        return -a
    _, lo, up = key
    frac = 0.1 + 0.8 * ((abs(float(raw)) * 0.37) % 1.)
    return lo + (up - lo) * frac


# ---------------------------------------------------------------------------- the world
class World(object):
    """Roots of hierarchies: model objects which each hold the real object they stand for."""
    def __init__(self, unique_names=True):
        self.all = []       # every model object ever made, in order of creation
        self.count = 0
        self.unique = unique_names
        self.make_node = None   # how inner nodes are made, if not as Node
        self.make_leaf = Param
        self.make_model = RModel
        self.turn = 0           # decides which observation comes first, and at which object
        self.sparse = False     # look at one thing at a time, so that one observation cannot refresh what another one would find stale

    # ---- building
    def fresh(self, prefix):
        self.count += 1
        return '%s%d' % (prefix, self.count)

    def build(self, spec, name=None, gradients=True, top=None):
        """Make the real object and its model for a spec; top: class of the root node."""
        if spec[0] == 'p':
            name = name or self.fresh('p')
            shape = spec[1]
            vals = values_of(spec[2], int(np.prod(shape)))
            a = np.array(vals, float).reshape(shape)
            m = L(name, shape, vals)
            dc = spec[3] if len(spec) > 3 else None
            if dc is None:
                m.real = self.make_leaf(name, a)
            else:
                m.real = self.make_leaf(name, a, ref.make(dc))
            if gradients:
                m.g = np.array([k + 0.5 for k in vals])
                m.real.gradient[...] = m.g.reshape(m.shape)
            self.all.append(m)
            if dc is not None:
                self._constrained(m, range(m.size), dc)
            return m
        name = name or self.fresh('n')
        cls = top or self.make_node or Node
        m = N(name)
        mode = spec[2] if len(spec) > 2 else 0
        kids = [self.build(s, gradients=gradients) for s in spec[1]]
        if top is not None:
            m.real = top(name, [k.real for k in kids])
        elif mode == 1:
            m.real = cls(name, parameters=[k.real for k in kids])
        else:
            m.real = cls(name)
            if mode == 2:
                m.real.link_parameters(*[k.real for k in kids])
            else:
                for k in kids:
                    m.real.link_parameter(k.real)
        for k in kids:
            k.parent = m
        m.kids = kids
        self.all.append(m)
        return m

    # ---- choosing
    def roots(self):
        return [m for m in self.all if m.parent is None]

    def pick(self, k, kind=None, nonempty=False, cond=None):
        l = [m for m in self.all if (kind is None or m.kind == kind) and (not nonempty or m.size) and (cond is None or cond(m))]
        return l[k % len(l)] if l else None

    # ---- structure
    def link(self, parent, child, index=None):
        """Link in model and reality; returns a label. Linking below itself is outside of the domain."""
        if child is parent or child in ancestors(parent):
            return None
        if child.parent is parent and index is None:
            self.refused(lambda: parent.real.link_parameter(child.real), 'linking a child again')
            return 'refused: linked already'
        if child.parent is not None and child.parent is not parent and root(child) is root(parent):
            self.refused(lambda: parent.real.link_parameter(child.real) if index is None else parent.real.link_parameter(child.real, index), 'linking within the same hierarchy')
            return 'refused: same hierarchy'
        if self.unique and child.parent is not parent and child.name in [k.name for k in parent.kids]:
            child.name = self.fresh('other')     # names of siblings are distinct here; collisions are looked at elsewhere
            child.real.name = child.name
        label = 'link'
        if child.parent is parent:
            label = 'move'
        elif child.parent is not None:
            label = 'link from another hierarchy'
        if index is None:
            parent.real.link_parameter(child.real)
        else:
            label += ' at index'
            parent.real.link_parameter(child.real, index)
        if child.parent is not None:
            child.parent.kids = [k for k in child.parent.kids if k is not child]
        kids = list(parent.kids)
        if index is None:
            kids.append(child)
        else:
            kids.insert(index, child)
        parent.kids = kids
        child.parent = parent
        return label

    def unlink(self, parent, child):
        if child.parent is not parent:
            self.refused(lambda: parent.real.unlink_parameter(child.real), 'unlinking an object which is no child')
            return 'refused: no child'
        parent.real.unlink_parameter(child.real)
        parent.kids = [k for k in parent.kids if k is not child]
        child.parent = None
        return 'unlink'

    def refused(self, f, what):
        try:
            f()
        except HierarchyError:
            return
        raise Violation('%s was not refused' % what)

    # ---- constraints (on model elements, after the real operation)
    def _constrained(self, m, elements, key):
        """Model: the elements of leaf or node m have been put under key."""
        per = {}
        for k in elements:
            l, e = locate(m, int(k))
            per.setdefault(id(l), (l, []))[1].append(e)
        for l, es in per.values():
            real = arr(l.real, l.size, 'values of %s' % l.name)
            v = l.v.copy()
            for e in es:
                if ref.inside(key, l.v[e], strictly=True):
                    check(real[e] == l.v[e], 'constraining {} under {} changed a legitimate value from {} to {}', l.name, key, l.v[e], real[e])
                else:
                    check(bool(ref.inside(key, real[e])), 'constraining {} under {} left the value {} (was {})', l.name, key, real[e], l.v[e])
                    v[e] = real[e]
                l.con[e] = ref.norm(key)
                l.fix[e] = False
            l.v = v

    def target(self, m, expr, ints_ok=False):
        """(real handle, flat element numbers) for an operation on m or a selection of its elements."""
        if expr is None or m.kind != 'leaf':
            return m.real, list(range(m.size))
        idx = decode(expr, m.shape, keep_array=True)
        if idx is None:
            return m.real, list(range(m.size))
        return m.real[idx], [int(k) for k in np.asarray(selected(idx, m.shape)).ravel()]

    def constrain(self, m, expr, key, how='constrain'):
        h, els = self.target(m, expr)
        k = ref.norm(key)
        if how == 'named' and k == 'logexp':
            h.constrain_positive(warning=False)
        elif how == 'named' and k == 'neglogexp':
            h.constrain_negative(warning=False)
        elif how == 'named' and isinstance(k, tuple):
            h.constrain_bounded(k[1], k[2], warning=False)
        else:
            h.constrain(ref.make(key), warning=False)
        self._constrained(m, els, key)
        return els

    def unconstrain(self, m, expr, keys=None, how='unconstrain'):
        """keys None: everything (also fixes)."""
        h, els = self.target(m, expr)
        if keys is None:
            h.unconstrain()
        else:
            ks = [ref.norm(k) for k in keys]
            if how == 'named' and len(ks) == 1 and ks[0] == 'logexp':
                h.unconstrain_positive()
            elif how == 'named' and len(ks) == 1 and ks[0] == 'neglogexp':
                h.unconstrain_negative()
            elif how == 'named' and len(ks) == 1 and isinstance(ks[0], tuple):
                h.unconstrain_bounded(ks[0][1], ks[0][2])
            else:
                h.unconstrain(*[ref.make(k) for k in keys])
        for k in els:
            l, e = locate(m, k)
            if keys is None:
                l.con[e] = None
                l.fix[e] = False
            elif l.con[e] in [ref.norm(k) for k in keys]:
                l.con[e] = None
        return els

    def fix(self, m, expr, value=None, alias=False):
        h, els = self.target(m, expr)
        f = h.fix if alias else h.constrain_fixed
        if value is None:
            f(warning=False)
        else:
            f(value, warning=False)
        for k in els:
            l, e = locate(m, k)
            l.fix[e] = True
            if value is not None:
                l.v[e] = value
        return els

    def unfix(self, m, expr, alias=False):
        h, els = self.target(m, expr)
        (h.unfix if alias else h.unconstrain_fixed)()
        for k in els:
            l, e = locate(m, k)
            l.fix[e] = False
        return els

    # ---- values
    def assign(self, m, expr, raw):
        """Assign legitimate values to a selection of a leaf (or all of a node); returns the element numbers."""
        if m.kind == 'leaf':
            idx = decode(expr, m.shape)
            sel = np.asarray(selected(idx, m.shape))
        else:
            idx, sel = None, np.arange(m.size)
        con = m.con
        flat = [fit(raw[i % len(raw)], con[int(k)]) for i, k in enumerate(sel.ravel())]
        one = raw[0]
        if sel.size and len({con[int(k)] for k in sel.ravel()}) == 1 and len(raw) == 1:
            val = fit(one, con[int(sel.ravel()[0])])   # a scalar, broadcast
            flat = [val] * sel.size
        else:
            val = np.array(flat, float).reshape(sel.shape)
            if sel.ndim == 0:
                val = float(val)
        if idx is None:
            m.real[:] = val
        else:
            m.real[idx] = val
        for k, x in zip(sel.ravel(), flat):
            l, e = locate(m, int(k))
            l.v[e] = x
        return [int(k) for k in sel.ravel()]

    def set_free(self, m, raw, scale=1.):
        """Assign free parameters of a whole object; model adopts the forward images after comparing them."""
        n = sum(1 for f in m.fix if not f)
        x = np.array([((raw[i % len(raw)] + 0.375 * i) % 3. - 1.5) * scale for i in range(n)], float)
        m.real.optimizer_array = x.copy()
        self.adopt_free(m, x)
        return x

    def adopt_free(self, m, x):
        real = arr(m.real.param_array, m.size, 'values of %s' % m.name)
        v = m.v.copy()
        i = 0
        for k, (c, f) in enumerate(zip(m.con, m.fix)):
            if f:
                check(real[k] == v[k], 'a fixed element (number {} of {}) moved from {} to {} when free parameters were set', k, m.name, v[k], real[k])
                continue
            want = float(ref.f(c, x[i]))
            check(abs(real[k] - want) <= 1e-9 * max(1., abs(want)), 'free parameter {} of {} (constraint {}) was set to {}, which is {}, but the value is {}', i, m.name, c, x[i], want, real[k])
            v[k] = real[k]
            i += 1
        set_flat(m, v)

    # ---- observations
    def seen(self, only=None):
        l = list(only or self.all)
        if only is None and self.turn and l:
            k = (self.turn * 7) % len(l)
            l = l[k:] + l[:k]
            if self.turn % 2:
                l.reverse()
        return l

    def observe(self, observations, last=True):
        """Make observations in an order which differs each time; when sparse, only now and then one of them unless it is the last time."""
        self.turn += 1
        k = self.turn % len(observations)
        l = observations[k:] + observations[:k]
        if self.sparse and not last and self.turn % 5 not in (1, 4):
            l = []      # observing can itself refresh what is stale
        for f in (l[:1] if self.sparse and not last else l):
            f()

    def check_structure(self):
        for m in self.seen():
            r = m.real
            check(r.has_parent() == (m.parent is not None), '{}: has_parent() is {}', m.name, r.has_parent())
            check(r.size == m.size, '{}: size is {} instead of {}', m.name, r.size, m.size)
            if m.kind == 'node':
                ps = list(r.parameters)
                check(len(ps) == len(m.kids) and all(a is k.real for a, k in zip(ps, m.kids)), '{}: children are {} instead of {}', m.name,
                      [getattr(p, 'name', '?') for p in ps], [k.name for k in m.kids])
            else:
                check(tuple(r.shape) == m.shape, '{}: shape {} instead of {}', m.name, r.shape, m.shape)

    def check_values(self, gradients=False, only=None):
        for m in self.seen(only):
            got = arr(m.real.param_array, m.size, 'values of %s' % m.name)
            want = m.v
            check(np.array_equal(got, want, equal_nan=True), 'values of {}: {} instead of {}', m.name, got.tolist(), want.tolist())
            if m.kind == 'leaf':
                got = arr(m.real.values, m.size, 'values of %s' % m.name)
                check(np.array_equal(got, want, equal_nan=True), 'values of {}: {} instead of {}', m.name, got.tolist(), want.tolist())
            if gradients:
                got = arr(m.real.gradient, m.size, 'gradient of %s' % m.name)
                check(np.array_equal(got, m.g, equal_nan=True), 'gradient of {}: {} instead of {}', m.name, got.tolist(), m.g.tolist())

    def check_constraints(self, only=None):
        for m in self.seen(only):
            want = {}
            for k, (c, f) in enumerate(zip(m.con, m.fix)):
                if c is not None:
                    want.setdefault(c, []).append(k)
                if f:
                    want.setdefault('fixed', []).append(k)
            got = {}
            for c, ind in m.real.constraints.items():
                key = ref.key_of(c)
                check(key not in got, '{}: the constraint {} is listed twice', m.name, key)
                got[key] = sorted(int(i) for i in np.asarray(ind).ravel())
            check(got == want, 'constraints of {}: {} instead of {}', m.name, got, want)

    def check_fixed(self, only=None):
        for m in self.seen(only):
            n = sum(1 for f in m.fix if not f)
            x = np.asarray(m.real.optimizer_array)
            check(x.size == n, '{}: {} free parameters instead of {} ({} elements, {} fixed)', m.name, x.size, n, m.size, m.size - n)
            got = bool(m.real.is_fixed)
            check(got == all(m.fix), '{}: is_fixed is {}, {} of {} elements are fixed', m.name, got, m.size - n, m.size)

    def check_free(self, only=None):
        for m in self.seen(only):
            want = free_of(m)
            x = m.real.optimizer_array
            got = arr(x, want.size, 'the free parameters of %s' % m.name)
            bad = np.abs(got - want) > 1e-8 * np.maximum(1., np.abs(want))
            # next to a bound or to saturation the free numbers are ill-conditioned
            cond = conditioned(m)
            check(not (bad & cond).any(), 'free parameters of {}: {} instead of {}', m.name, got.tolist(), want.tolist())


def conditioned(m):
    out = []
    for v, c, f in zip(m.v, m.con, m.fix):
        if f:
            continue
        if isinstance(c, tuple):
            d = min(v - c[1], c[2] - v)
            out.append(d > 1e-6 * max(abs(c[1]), abs(c[2]), 1.))
        elif c is None:
            out.append(np.isfinite(v))
        else:
            out.append(bool(np.isfinite(v)) and abs(v) > 1e-12)
    return np.array(out, bool)


def edgy(m):
    """Some free element lies at the edge of its domain, where its free number is infinite (documented exclusion)."""
    return not conditioned(m).all()
