"""P24: printouts of nodes, models, parameters and selections, read back and compared with what is there."""
import re
import numpy as np
from ..core import check, arr

SIZES = {'quick': (8, 550), 'thorough': (8, 9000)}
RULE = ('a generated hierarchy (depth up to 4, leaves of every shape up to 3 dimensions; a plain one or a model) with names which need adjusting, values of any size, partial constraints and fixes, and a history of changes; then '
        'every object, parts of parameters by any index, and selections by regular expression are printed as text and HTML, also while updates are off; the printout is parsed and compared with the reference; '
        'non-trivial: a printout of an object which is partly constrained or fixed')
ASSUMPTIONS = ['values are printed with eight decimals or digits', 'parts of a parameter are selected in one go']
RAW = [0., 1., -1., 2.5, -3.25, 1e-12, 123456.789, -1e10, 1e16, 0.125, 1e-5, -7.75, float('inf'), float('nan')]
NAMES = ['a', 'kern var', 'b.a', 'ba', 'c-d', 'x', 'a_long_name_of_a_parameter', 'q+r']


def strategy(tier):
    from hypothesis import strategies as st
    from .. import world as w
    from .p06 import setup_ops, con_ops, struct_ops
    h = st.integers(0, 40)
    c, s = con_ops(st, w), struct_ops(st, w)
    ops = [st.tuples(st.just('raw'), h, st.lists(st.integers(0, len(RAW) - 1), min_size=1, max_size=5)).map(list),
           st.integers(0, len(c) - 1).flatmap(lambda i: c[i]).map(list),
           st.integers(0, len(c) - 1).flatmap(lambda i: c[i]).map(list),
           st.integers(0, len(s) - 1).flatmap(lambda i: s[i]).map(list)]
    op = st.integers(0, len(ops) - 1).flatmap(lambda i: ops[i])
    return st.fixed_dictionaries(dict(tree=st.one_of(w.node_spec(st, dc=True, max_leaves=6), w.node_spec(st, dc=True, max_leaves=6), w.leaf_spec(st, True)), model=st.booleans(), off=st.integers(0, 3).map(lambda k: k == 3),
                                      setup=st.one_of(setup_ops(st, w), setup_ops(st, w), st.just([])), ops=st.lists(op, max_size=6),
                                      part=st.lists(st.tuples(h, w.index_expr(st)).map(list), max_size=4), select=st.lists(st.lists(h, min_size=2, max_size=4), max_size=2),
                                      at=st.lists(st.lists(st.integers(0, 40), min_size=1, max_size=5), max_size=2)))


def plain(text):
    check(isinstance(text, str), 'a printout is a {}', type(text))
    return re.sub('\033\\[[0-9;]*m', '', text)


def tokens(keys, size, per_element):
    """Expected constraint tokens: {key: number of elements}."""
    out = []
    for k, n in keys.items():
        out.append((k, per_element or n == size))
    return out


TEXT = {'logexp': '+ve', 'exp': '+ve', 'neglogexp': '-ve', 'negexp': '-ve', 'square': '+sq', 'shift': 'shift', 'fixed': 'fixed'}


def check_cell(cell, want, what):
    """Tokens of a printed cell against (key, covers everything)."""
    got = []
    for t in cell.split():
        full = not (t.startswith('{') and t.endswith('}'))
        t = t if full else t[1:-1]
        if re.match(r'^[^,]+,[^,]+$', t):
            t = tuple(float(x) for x in t.split(','))
        got.append((t, full))
    exp = [((k[1], k[2]) if isinstance(k, tuple) else TEXT[k], full) for k, full in want]
    check(sorted(got, key=str) == sorted(exp, key=str), '{}: the constraints are printed as {!r}, they are {}', what, cell, exp)


def keys_of(m, els):
    out = {}
    for k in els:
        if m.con[k] is not None:
            out[m.con[k]] = out.get(m.con[k], 0) + 1
        if m.fix[k]:
            out['fixed'] = out.get('fixed', 0) + 1
    return out


def number(text, v, what):
    text = text.strip().strip('[]').strip()
    try:
        got = float(text)
    except ValueError:
        check(False, '{}: the value is printed as {!r}', what, text)
    ok = got == v or (np.isnan(got) and np.isnan(v)) or abs(got - v) <= 0.6e-8 + 1e-7 * abs(v)
    check(ok, '{}: the value {} is printed as {!r}', what, v, text)


def rows_of(text, html):
    if not html:
        return [[c.strip() for c in l.split('  |  ')] for l in plain(text).split('\n')]
    check(isinstance(text, str), 'a printout is a {}', type(text))
    check(text.count('<table') == 1 and text.count('</table>') <= 1, 'the HTML has {} tables', text.count('<table'))
    out = []
    for row in re.findall(r'<tr>(.*?)</tr>', text, re.S):
        out.append([re.sub(r'<[^>]*>', '', c).strip() for c in re.findall(r'<t[hd][^>]*>(.*?)</t[hd]>', row, re.S)])
    return out


def node_rows(m, rows, html, what):
    from .p20 import printable, chain
    f = (lambda x: x) if html else printable
    leaves = m.leaves()
    check(len(rows) == len(leaves) + 1, '{}: {} rows instead of {}', what, len(rows), len(leaves) + 1)
    head = rows[0]
    check(head[0] == printable(m.name) + '.' and head[1] == 'value' and head[2:] == ['constraints'], '{}: the header is {}', what, head)
    for l, r in zip(leaves, rows[1:]):
        name = '.'.join(f(x.name) for x in chain(l, m))
        check(len(r) == 3 and r[0] == name, '{}: the row of {} is {}', what, name, r)
        if l.size == 1:
            number(r[1], l.v[0], '%s: %s' % (what, name))
        else:
            check(tuple(int(x) for x in re.findall(r'\d+', r[1])) == l.shape, '{}: the shape of {} is printed as {}', what, name, r[1])
        check_cell(r[2], tokens(keys_of(l, range(l.size)), l.size, False), '%s: %s' % (what, name))


def leaf_rows(m, els, rows, what, first=True):
    from .p20 import printable, chain
    head = rows[0]
    name = '.'.join(printable(x.name) for x in chain(m))
    check(len(head) == 3 and head[1] == name and (not first or (head[0] == 'index' and head[2] == 'constraints')), '{}: the header is {}', what, head)
    check(len(rows) == len(els) + 1, '{}: {} rows instead of {}', what, len(rows) - 1, len(els))
    for k, r in zip(els, rows[1:]):
        check(len(r) == 3, '{}: a row is {}', what, r)
        ix = tuple(int(x) for x in re.findall(r'\d+', r[0]))
        check(ix == tuple(int(i) for i in np.unravel_index(k, m.shape)), '{}: the index of element {} of {} {} is printed as {}', what, k, name, m.shape, r[0])
        number(r[1], m.v[k], '%s: element %s' % (what, ix))
        check_cell(r[2], tokens(keys_of(m, [k]), 1, True), '%s: element %s' % (what, ix))


def run(case, rec):
    from ..world import World, RModel, LOG, decode, selected, set_flat, root
    from .p05 import structural
    from .p06 import constraining, partial
    from .p20 import printable
    from .p22 import path
    from .. import twins
    w = World()
    made = [0]

    def fresh(prefix):
        made[0] += 1
        k, c = divmod(made[0] - 1, len(NAMES))
        return NAMES[c] + ('' if k == 0 else 'q%d' % k)
    w.fresh = fresh
    if case['tree'][0] == 'p':
        w.build(case['tree'], gradients=False)
        w.build(['n', [], 0], gradients=False)
    elif case['model']:
        w.build(case['tree'], top=lambda name, kids: RModel(name, kids, 'quad'), gradients=False)
    else:
        w.build(case['tree'], gradients=False)
    for op in case['setup']:
        constraining(w, op)
    for op in sorted(case['ops'], key=lambda op: op[0] == 'raw'):     # values last
        if op[0] == 'raw':
            m = w.pick(op[1], 'leaf')
            if m is None:
                continue
            x = [RAW[op[2][i % len(op[2])]] + 0. for i in range(m.size)]
            x = np.array([v if c is None else o for v, c, o in zip(x, m.con, m.v)])
            m.real[...] = x.reshape(m.shape)
            set_flat(m, x)
        elif structural(w, op) is None:
            constraining(w, op)
    for r in w.roots():
        if isinstance(r.real, RModel):
            r.real.trigger_update()
    if case['off']:
        for r in w.roots():
            r.real.update_model(False)
    watch = []
    for m in w.all:
        t = twins.Told()
        m.real.add_observer(t, t.told)
        watch.append(t)
    old = [(m, np.array(m.real.gradient).copy()) for m in w.roots() if isinstance(m.real, RModel)]
    # element by element, a few things at once
    del LOG[:]
    for m in w.all:
        for html in (False, True):
            what = '%s of the %s %s' % ('HTML' if html else 'text', m.kind, m.name)
            text = m.real._repr_html_() if html else str(m.real)
            if isinstance(m.real, RModel):
                text = details(m, text, html, what, case['off'])
                rec.label('model')
            rows = rows_of(text, html)
            if m.kind == 'node':
                node_rows(m, rows, html, what)
            else:
                leaf_rows(m, list(range(m.size)), rows, what)
            mixed = any((c is not None or f) for c, f in zip(m.con, m.fix)) and len({(c, f) for c, f in zip(m.con, m.fix)}) > 1
            if mixed:
                rec.mark('partly constrained ' + m.kind)
        if m.kind == 'leaf':
            text = plain(repr(m.real))
            check('.'.join([printable(x.name) for x in __import__('pbt.checks.p20', fromlist=['chain']).chain(m)]) in text, 'the representation of {} is {!r}', m.name, text)
        else:
            check(isinstance(repr(m.real), str), 'the representation of {}', m.name)
            rows = rows_of(m.real.__str__(VT100=False), False) if not isinstance(m.real, RModel) else None
            if rows is not None:
                node_rows(m, rows, False, 'text without colours')
    for h, e in case['part']:
        m = w.pick(h, 'leaf')
        if m is None:
            continue
        ix = decode(e, m.shape, keep_array=True)
        if ix is None:
            continue
        els = [int(k) for k in np.ravel(selected(ix, m.shape))]
        part = m.real[ix]
        for html in (False, True):
            what = '%s of the part %s of %s' % ('HTML' if html else 'text', ix, m.name)
            leaf_rows(m, els, rows_of(part._repr_html_() if html else str(part), html), what)
        rec.label('part' if els else 'empty part')
        if 0 < len(els) and any(m.con[k] is not None or m.fix[k] for k in els):
            rec.mark('part with constraints')
    for picks in case['select']:
        r = w.pick(picks[0], 'node', cond=lambda m: m.parent is None)
        below = r.objects()[1:]
        if not below:
            continue
        chosen = {id(below[k % len(below)]) for k in picks}
        ms = [m for m in below if id(m) in chosen]
        leaves = []
        for m in ms:
            for l in m.leaves():
                if not any(l is x for x in leaves):
                    leaves.append(l)
        if len(ms) < 2 or not leaves:
            continue
        from .p20 import path_of
        sel = r.real['^(' + '|'.join(re.escape(path_of(m)) for m in ms) + ')$']
        rows = rows_of(str(sel), False)
        check(len(rows) == sum(l.size + 1 for l in leaves), 'text of a selection has {} rows instead of {}', len(rows), sum(l.size + 1 for l in leaves))
        i = 0
        for l in leaves:
            leaf_rows(l, list(range(l.size)), rows[i:i + l.size + 1], 'text of a selection, ' + l.name, first=i == 0)
            i += l.size + 1
        check(all(printable(l.name) in plain(repr(sel)) for l in leaves), 'the representation of a selection is {!r}', repr(sel))
        rec.label('selection')
        # some of its elements
        places = [(l, k) for l in leaves for k in range(l.size)]
        for at in case.get('at', []):
            at = [places[k % len(places)] for k in at]
            runs = []
            for l, k in at:
                if not runs or runs[-1][0] is not l:
                    runs.append((l, []))
                runs[-1][1].append(k)
            rows = rows_of(str(sel[[places.index(p) for p in at]]), False)
            check(len(rows) == sum(len(ks) + 1 for _, ks in runs), 'text of some elements of a selection has {} rows', len(rows))
            i = 0
            for l, ks in runs:
                leaf_rows(l, ks, rows[i:i + len(ks) + 1], 'text of some elements of a selection, ' + l.name, first=i == 0)
                i += len(ks) + 1
            rec.label('elements of a selection')
    for m in w.all:
        if m.kind == 'node':
            graph(m, {id(x): t for x, t in zip(w.all, watch)}, rec)
        listed = str(m.real.observers).split('\n')
        check(len(listed) == len(list(m.real.observers)) and isinstance(repr(m.real.observers), str), 'the observers of {} are printed as {}', m.name, listed)
        if m.parent is not None:
            check(any(m.parent.real.hierarchy_name() + ',' in l for l in listed), 'the observers of {} are printed without its parent: {}', m.name, listed)
        text = str(m.real.constraints)
        check(all(re.search(r'(?<!\d)%d(?!\d)' % k, text) for k in range(min(m.size, 30)) if m.con[k] is not None or m.fix[k]), 'the constraints of {} are printed as {!r}', m.name, text)
    check(not LOG and all(t.n == 0 for t in watch), 'printing updated {} and told {} observers', [o.name for o, _ in LOG], sum(1 for t in watch if t.n))
    for m, g in old:
        check(np.array_equal(m.real.gradient, g, equal_nan=True), 'printing changed the gradients of {}', m.name)
    w.check_structure()
    w.check_values()
    w.check_constraints()
    w.check_fixed()
    for r in w.roots():
        check(bool(r.real.update_model()) == (not case['off']), 'printing switched updates')


def graph(m, watch, rec):
    """The drawing of a hierarchy: its objects, who is below whom, who observes whom."""
    try:
        import pydot
    except ImportError:
        return
    g = m.real.build_pydot()
    objects = m.objects()
    ids = {str(id(o.real)): o for o in objects}
    nodes = {n.get_name(): n for n in g.get_nodes()}
    for i, o in ids.items():
        check(i in nodes, 'the drawing of {} lacks {}', m.name, o.name)
        n = nodes[i]
        check(str(n.get_label()).strip('"') == o.name and n.get_shape() == ('box' if o.kind == 'node' else 'trapezium'), 'in the drawing of {}, {} is {} ({})', m.name, o.name, n.get_label(), n.get_shape())
    drawn = [(str(e.get_source()), str(e.get_destination()), e.get('color')) for e in g.get_edges()]
    below = sorted((a, b) for a, b, c in drawn if not c)
    want = sorted((str(id(o.real)), str(id(k.real))) for o in objects if o.kind == 'node' for k in o.kids)
    check(below == want, 'in the drawing of {}, {} lines lead to children instead of {}, or they are others', m.name, len(below), len(want))
    see = [(a, b) for a, b, c in drawn if c]
    for o in objects:
        mine = sorted(b for a, b in see if a == str(id(o.real)))
        w = [str(id(watch[id(o)]))] + ([str(id(o.real))] if o.kind == 'node' else []) + ([str(id(o.parent.real))] if o.parent is not None else [])
        check(mine == sorted(w), 'in the drawing of {}, {} observers of {} are drawn instead of {}, or they are others', m.name, len(mine), o.name, len(w))
        check(all(b in nodes for b in mine), 'in the drawing of {}, an observer of {} is missing', m.name, o.name)
    check(len(see) == sum(1 for a, b in see if a in ids), 'in the drawing of {}, other objects are observed', m.name)
    rec.label('drawing')


def details(m, text, html, what, off):
    """The head of a model's printout; the rest of it."""
    n = m.size
    free = sum(1 for f in m.fix if not f)
    f = float(m.real.objective_function())
    if html:
        lines = re.findall(r'<b>([^<]*)</b>: (.*?)<br>', text)
        text = text[text.index('<table') - 20:] if '<table' in text else text
    else:
        lines = [tuple(x.strip() for x in l.split(' : ', 1)) for l in plain(text).split('\n') if ' : ' in l]
        text = plain(text)
        check('Parameters:\n' in text, '{}: no list of parameters', what)
        text = text.split('Parameters:\n', 1)[1]
    d = dict(lines)
    name = d.get('Model' if html else 'Name')
    check(name == m.name, '{}: the name is printed as {!r}', what, name)
    check('Objective' in d, '{}: no objective', what)
    number(d['Objective'], f, what + ': objective')
    check(d.get('Number of Parameters') == str(n), '{}: number of parameters is printed as {}', what, d.get('Number of Parameters'))
    check(d.get('Number of Optimization Parameters') == str(free), '{}: number of optimization parameters is printed as {} instead of {}', what, d.get('Number of Optimization Parameters'), free)
    check(d.get('Updates') == str(not off), '{}: updates are printed as {}', what, d.get('Updates'))
    return text
