"""C28: generated attributed graphs are written with every option and read back, and the files are parsed with the csv module, both compared with the graph itself."""
import collections
import csv
import os

import networkx as nx
from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import exc, mk
from mkv.gen import fixed, ints, one, weigh
from mkv.worlds import edges, nodes

suite = Suite('C28')
odd = st.text(st.one_of(st.sampled_from('ab,"\'; \t\n\r#\\|=é漢\u2028\u0085\ufeff0'), st.characters(exclude_categories=('Cs',), exclude_characters='\0')), max_size=5)
ident = weigh((4, one('Levy, Y', 'LI X, 1990, CELL', 'a', 'b', '', '"q"', 'x\ny', 'é', '1', 'ID', ' a ', '007')), (2, odd), (1, ints(0, 9)))
number = st.one_of(ints(-3, 9), st.integers(), st.floats(allow_nan=False), one(0.5, 1e22, 1e-7))
value = weigh((3, one('J', 'a, b', '', '"', 'two\nlines', '\r', 'x\r\ny', "'", '5', 'True')), (2, odd), (3, number))
attribute = weigh((6, one('weight', 'count', 'type', 'key', 'info')), (1, one('', 'a b', 'x,y', '"', 'é\n', 'id', 'source')), (1, odd.filter(lambda s: s not in ('ID', 'Source', 'Target', 'self') and not s.endswith('_edge') and not s.startswith('node_'))))
attrs = st.dictionaries(attribute, value, max_size=3)
few = st.dictionaries(one('weight', 'count', 'type'), value, max_size=2)


def graph(kinds):
    return fixed(kind=kinds, nodes=st.lists(st.tuples(ident, st.one_of(attrs, few, st.just({}))).map(list), max_size=7, unique_by=lambda p: str(p[0])),
                 edges=weigh((6, st.lists(st.tuples(ints(0, 6), ints(0, 6), st.one_of(attrs, few, st.just({}))).map(list), min_size=1, max_size=9)), (1, st.just([]))))


SIMPLE = one('Graph', 'DiGraph')
ANY = weigh((3, SIMPLE), (2, one('MultiGraph', 'MultiDiGraph')))


def make(c):
    g = getattr(nx, c['kind'])()
    ids = [i for i, a in c['nodes']]
    for i, a in c['nodes']:
        g.add_node(i)
        g.nodes[i].update(a)
    for u, v, a in c['edges']:
        if ids:
            u, v = ids[u % len(ids)], ids[v % len(ids)]
            if g.is_multigraph() or not g.has_edge(u, v):
                k = g.add_edge(u, v)
                (g.edges[u, v, k] if g.is_multigraph() else g.edges[u, v]).update(a)
    return g


def snapshot(g):
    return [(n, dict(d)) for n, d in g.nodes(data=True)], [(u, v, dict(d)) for u, v, d in g.edges(data=True)]


def table(path, ctx, what):
    with open(path, newline='', encoding='utf-8') as f:
        rows = list(csv.reader(f))
    ctx.check(rows, '%s is empty' % what)
    head = rows[0]
    ctx.eq(len(set(head)), len(head), 'number of distinct columns of %s' % what)
    ctx.check(all(len(r) == len(head) for r in rows[1:]), '%s has rows of the wrong length: %r' % (what, rows))
    return head, rows[1:]


def check_edges(path, g, info, ctx):
    head, rows = table(path, ctx, 'edge list')
    ctx.eq(head[:2], ['Source', 'Target'], 'first columns of the edge list')
    cols = {a for u, v, d in g.edges(data=True) for a in d} if info else set()
    ctx.eq(set(head[2:]), cols, 'further columns of the edge list')

    def line(u, v, d):
        pair = (str(u), str(v)) if g.is_directed() else tuple(sorted((str(u), str(v))))
        return pair + tuple(str(d.get(a, '')) for a in head[2:])
    want = collections.Counter(line(u, v, d) for u, v, d in g.edges(data=True))
    got = collections.Counter((tuple(r[:2]) if g.is_directed() else tuple(sorted(r[:2]))) + tuple(r[2:]) for r in rows)
    ctx.eq(got, want, 'rows of the edge list (columns %r)' % (head,))


def check_nodes(path, g, ctx):
    head, rows = table(path, ctx, 'node list')
    ctx.eq(head[:1], ['ID'], 'first column of the node list')
    ctx.eq(set(head[1:]), {a for n, d in g.nodes(data=True) for a in d}, 'further columns of the node list')
    ctx.eq(collections.Counter(map(tuple, rows)), collections.Counter((str(n),) + tuple(str(d.get(a, '')) for a in head[1:]) for n, d in g.nodes(data=True)), 'rows of the node list (columns %r)' % (head,))


def as_read(g, info=True):
    """The graph that reading should give: everything as strings, blanks for what is missing."""
    h = type(g)()
    na = {a for n, d in g.nodes(data=True) for a in d}
    ea = {a for u, v, d in g.edges(data=True) for a in d} if info else set()
    for n, d in g.nodes(data=True):
        h.add_node(str(n))
        h.nodes[str(n)].update({a: str(d.get(a, '')) for a in na})
    for u, v, d in g.edges(data=True):
        h.add_edge(str(u), str(v))
        h.edges[str(u), str(v)].update({a: str(d.get(a, '')) for a in ea})
    return h


stem = weigh((4, one('g', 'a graph', 'x.y', 'é', 'g_1')), (2, one('sub/g', 'sub/../g', './g', 'sub dir/x.csv')), (1, st.text(st.sampled_from('ab.-_ é~%$(){}*?'), min_size=1, max_size=6).filter(lambda s: s.strip('.') and not s.startswith('~'))))


@suite.test(fixed(graph=graph(SIMPLE), name=stem, suffix=one('csv', 'tsv', 'a.b', 'CSV', 'é'), typing=st.booleans(), info=weigh((4, st.just(True)), (1, st.just(False))), exists=one('none', 'none', 'edges', 'nodes', 'both'), overwrite=one(None, None, True, False), home=weigh((6, st.just(False)), (1, st.just(True)))), quick=5000, rule='an edge or node with an attribute that another lacks, and a string that needs quotes')
def write_and_read(case, ctx):
    g = make(case['graph'])
    before = snapshot(g)
    d = ctx.dir
    for s in ('sub', 'sub dir'):
        os.makedirs(os.path.join(d, s), exist_ok=True)
    base = os.path.normpath(os.path.join(d, case['name']))
    kind = ('_directed' if g.is_directed() else '_undirected') if case['typing'] else ''
    epath, npath = (base + k + kind + '.' + case['suffix'] for k in ('_edgeList', '_nodeAttributes'))
    old = {'none': [], 'edges': [epath], 'nodes': [npath], 'both': [epath, npath]}[case['exists']]
    for p in old:
        with open(p, 'w') as f:
            f.write('precious\n' * 50)
    kw = {}
    if case['typing']:
        kw['typing'] = True
    if not case['info']:
        kw['edgeInfo'] = False
    if case['suffix'] != 'csv':
        kw['suffix'] = case['suffix']
    if case['overwrite'] is not None:
        kw['overwrite'] = case['overwrite']
    name = os.path.join(d, case['name'])
    home = os.environ.get('HOME')
    try:
        if case['home']:
            os.environ['HOME'] = d
            name = '~/' + case['name']
        if case['overwrite'] is False and old:
            with ctx.raises(OSError, 'an existing file that may not be overwritten'):
                mk.writeGraph(g, name, **kw)
            for p in (epath, npath):
                if p in old:
                    with open(p) as f:
                        ctx.eq(f.read(), 'precious\n' * 50, 'file that may not be overwritten')
                else:
                    ctx.check(not os.path.exists(p), 'one of the files was written although the other exists')
            return
        mk.writeGraph(g, name, **kw)
    finally:
        if home is not None:
            os.environ['HOME'] = home
        else:
            os.environ.pop('HOME', None)
    files = sorted(os.path.join(r, f) for r, ds, fs in os.walk(d) for f in fs)
    ctx.eq(files, sorted([epath, npath]), 'files written')
    ctx.eq(snapshot(g), before, 'graph after writing')
    check_edges(epath, g, case['info'], ctx)
    check_nodes(npath, g, ctx)
    want = as_read(g, case['info'])
    back = mk.readGraph(epath, npath, directed=g.is_directed()) if g.is_directed() else mk.readGraph(epath, npath)
    ctx.eq((back.is_directed(), back.is_multigraph()), (g.is_directed(), False), 'kind of graph read back')
    ctx.eq(nodes(back), nodes(want), 'nodes read back')
    ctx.eq(edges(back), edges(want), 'edges read back')
    # the edge list alone, with the columns exchanged
    back = mk.readGraph(epath, directed=True, eSource='Target', eDest='Source')
    got = collections.Counter((v, u) for u, v in back.edges())
    if g.is_directed():
        ctx.eq(got, collections.Counter(list(want.edges())), 'edges read back with exchanged columns')
    touched = {n for e in want.edges() for n in e}
    ctx.eq(nodes(back), {n: {} for n in touched}, 'nodes of the edge list alone')
    for bad in (dict(eSource='no'), dict(eDest='no')):
        if len(want.edges()):
            with ctx.raises(KeyError, 'a column that is not in the edge list'):
                mk.readGraph(epath, npath, **bad)
    if len(want):
        with ctx.raises(KeyError, 'a column that is not in the node list'):
            mk.readGraph(epath, npath, idKey='no')
    texts = [str(x) for n, a in before[0] for x in [n, *a.values()]] + [str(x) for u, v, a in before[1] for x in a.values()]
    lack = any(set(a) != set(b) for l in ([a for n, a in before[0]], [a for u, v, a in before[1]]) for a in l for b in l)
    ctx.nontrivial(lack and any(c in x for x in texts for c in ',"\n\r'))
    ctx.label('edges', bool(before[1]))
    ctx.label('carriage return', any('\r' in x for x in texts))


@suite.test(fixed(graph=graph(ANY), info=st.booleans(), same=st.booleans(), share=st.booleans()), quick=4000, rule='two edges or nodes with different attributes, or two parallel edges')
def lists_of_lines(case, ctx):
    g = make(case['graph'])
    if case['share']:  # give everything the attributes of the first
        for l in ([a for n, a in g.nodes(data=True)], [a for u, v, a in g.edges(data=True)]):
            for a in l[1:]:
                new = {k: a.get(k, l[0][k]) for k in l[0]}
                a.clear()
                a.update(new)
    before = snapshot(g)
    kw = {} if not case['same'] else dict(allSameAttribute=True)
    e, n = ctx.path('e.csv'), ctx.path('n.csv')
    uneven = lambda l: any(set(a) != set(l[0]) for a in l)
    if case['same'] and case['info'] and uneven([a for u, v, a in before[1]]):
        with ctx.raises((KeyError, ValueError), 'edges with different attributes'):
            mk.writeEdgeList(g, e, **kw)
    else:
        mk.writeEdgeList(g, e, **(kw if case['info'] else dict(kw, extraInfo=False)))
        check_edges(e, g, case['info'], ctx)
    if case['same'] and uneven([a for u, a in before[0]]):
        with ctx.raises((KeyError, ValueError), 'nodes with different attributes'):
            mk.writeNodeAttributeFile(g, n, **kw)
    else:
        mk.writeNodeAttributeFile(g, n, **kw)
        check_nodes(n, g, ctx)
    both = not (case['same'] and (uneven([a for u, a in before[0]]) or uneven([a for u, v, a in before[1]])))
    if both:
        os.mkdir(ctx.path('both'))
        mk.writeGraph(g, ctx.path('both/g'), typing=case['info'], **kw)
        end = '' if not case['info'] else '_directed.csv' if g.is_directed() else '_undirected.csv'
        ctx.eq(sorted(os.listdir(ctx.path('both'))), ['g_edgeList' + (end or '.csv'), 'g_nodeAttributes' + (end or '.csv')], 'files written')
        check_edges(ctx.path('both/g_edgeList' + (end or '.csv')), g, True, ctx)
        check_nodes(ctx.path('both/g_nodeAttributes' + (end or '.csv')), g, ctx)
    ctx.eq(snapshot(g), before, 'graph after writing')
    pairs = [frozenset(map(str, (u, v))) for u, v, a in before[1]]
    ctx.nontrivial(uneven([a for u, v, a in before[1]]) or uneven([a for u, a in before[0]]) or len(set(pairs)) < len(pairs))
    ctx.label('no edges', not pairs)


@suite.test(fixed(kind=SIMPLE, n=st.one_of(ints(990, 1010), ints(95, 105)), m=weigh((1, ints(0, 2100)), (2, ints(990, 2100))), step=ints(1, 40), rare=st.lists(st.tuples(one('count', 'mode', 'rare', 'odd'), weigh((2, one(98, 99, 100, 199, 200, 499, 500, 998, 999, 1000, 1999, 2000)), (1, ints(0, 2100)))).map(list), max_size=6), plenty=st.booleans()), quick=200, rule='more than a thousand edges')
def big(case, ctx):
    n = case['n']
    g = getattr(nx, case['kind'])()
    for i in range(n):
        g.add_node('node %d' % i, **({} if not case['plenty'] else {'count': i} if i % 3 else {'mode': 'x'}))
    for i in range(case['m']):
        g.add_edge('node %d' % (i % n), 'node %d' % ((i * case['step'] + i // n + 1) % n), **({} if not case['plenty'] else {'weight': i} if i % 7 else {'late': 'y'} if i > 900 else {}))
    for place in (list(g.nodes(data=True)), list(g.edges(data=True))):
        for a, i in case['rare']:  # attributes that only a few have
            if place:
                place[i % len(place)][-1][a] = i
    mk.writeGraph(g, ctx.path('g'))
    e, a = ctx.path('g_edgeList.csv'), ctx.path('g_nodeAttributes.csv')
    check_edges(e, g, True, ctx)
    check_nodes(a, g, ctx)
    back, want = mk.readGraph(e, a, directed=g.is_directed()), as_read(g)
    ctx.eq(nodes(back) == nodes(want), True, 'whether the nodes read back are those written')
    ctx.eq(edges(back) == edges(want), True, 'whether the edges read back are those written')
    ctx.nontrivial(g.number_of_edges() > 1000)


TNODE = st.tuples(weigh((40, one('x', 'y')), (1, one('z', None))), st.booleans()).map(list)
TEDGE = st.tuples(ints(0, 6), ints(0, 6), ints(1, 5), ints(1990, 1993)).map(list)


@suite.test(fixed(kind=one('Graph', 'DiGraph', 'MultiGraph', 'MultiDiGraph'), nodes=weigh((9, st.lists(TNODE, min_size=3, max_size=7)), (1, st.lists(TNODE, min_size=1, max_size=7))), edges=weigh((6, st.lists(TEDGE, min_size=2, max_size=8)), (1, st.lists(TEDGE, max_size=1))), pure=weigh((9, st.just(True)), (1, st.just(False))), source=one(None, None, 'x', 'y'), weighted=st.booleans(), time=one(None, None, 'attribute', 'key'), names=st.booleans(), stale=st.lists(ints(1, 7), max_size=4)), quick=5000, rule='two edges, and a source mode or a time given')
def tnet(case, ctx):
    g = getattr(nx, case['kind'])()
    mode = {}
    mk_, ik, wk = ('mode', 'number', 'w') if case['names'] else ('type', 'tnet-ID', 'weight')
    for i, (m, other) in enumerate(case['nodes']):
        mode['n %d' % i] = m
        g.add_node('n %d' % i, **({mk_: m} if m else {}), **({'count': 3} if other else {}))
    ids = list(g)
    for u, v, w, t in case['edges']:
        xs, ys = ids, ids
        if case['pure']:
            xs, ys = [n for n in ids if mode[n] == 'x'], [n for n in ids if mode[n] == 'y']
            if not xs or not ys:
                break
            if w % 2:
                xs, ys = ys, xs
        u, v = xs[u % len(xs)], ys[v % len(ys)]
        a = {wk: w}
        if case['time'] == 'attribute':
            a['when'] = t
        if g.is_multigraph():
            g.add_edge(u, v, key=t if case['time'] == 'key' else None, **a)
        elif not g.has_edge(u, v):
            g.add_edge(u, v, **a)
    time = case['time'] if case['time'] != 'key' or g.is_multigraph() else None
    kw = {}
    if case['source']:
        kw['sourceMode'] = case['source']
    if case['weighted']:
        kw['weighted'] = True
    if time:
        kw['timeString'] = 'when' if time == 'attribute' else 'key'
    if case['names']:
        kw.update(nodeIndexString=ik, weightString=wk)
    for n, i in zip(list(g)[1:], case['stale']):  # ids left by an earlier file
        g.nodes[n][ik] = i
    es = [(u, v, dict(d)) for u, v, d in g.edges(data=True)]
    keys = [k for u, v, k in g.edges(keys=True)] if g.is_multigraph() else [None] * len(es)
    before = {n: {k: v for k, v in d.items() if k != ik} for n, d in nodes(g).items()}
    path = ctx.path('t.tnet')
    modes = set(mode.values())
    ok = None not in modes and len(modes) == 2 and all(mode[u] != mode[v] for u, v, d in es) and case['source'] in (None, *modes)
    if not ok:
        if len(modes) == 1 and not es:
            return  # nodes of one kind only, the other may be named as the source
        with ctx.raises(exc.RCValueError, 'a graph that is not two-mode'):
            mk.writeTnetFile(g, path, mk_, **kw)
        return
    mk.writeTnetFile(g, path, mk_, **kw)
    num = {n: d.get(ik) for n, d in g.nodes(data=True)}
    ctx.check(all(type(i) is int for i in num.values()) and len(set(num.values())) == len(num), 'ids of the nodes are not distinct numbers: %r' % (num,))
    ctx.eq({n: {k: v for k, v in d.items() if k != ik} for n, d in nodes(g).items()}, before, 'other attributes of the nodes')
    ctx.eq([(u, v, dict(d)) for u, v, d in g.edges(data=True)], es, 'edges after writing')
    with open(path, encoding='utf-8') as f:
        lines = f.read().split('\n')
    ctx.eq(lines.pop(), '', 'what follows the last line')
    results = []
    for first in ([case['source']] if case['source'] else sorted(modes)):
        want = collections.Counter()
        for (u, v, d), k in zip(es, keys):
            if mode[u] != first:
                u, v = v, u
            s = '%d %d' % (num[u], num[v])
            if time:
                s = '"%s" ' % (d['when'] if time == 'attribute' else k) + s
            if case['weighted']:
                s += ' %d' % d[wk]
            want[s] += 1
        results.append(want)
    got = collections.Counter(lines)
    ctx.check(got in results, 'lines of the tnet file are %r, expected %r' % (lines, results))
    ctx.nontrivial(len(es) > 1 and (time or case['source']))
    ctx.label('time', bool(time and es))


def crowd(seed, n, m):
    import random
    r = random.Random(seed)
    return [[['xy'[i % 2], False] for i in range(n)], [[r.randrange(n), r.randrange(n), r.randint(1, 5), r.randint(1990, 1993)] for i in range(m)]]


@suite.test(fixed(crowd=st.builds(crowd, ints(0, 10 ** 6), ints(100, 300), ints(900, 3200)), kind=one('Graph', 'DiGraph', 'MultiGraph'), source=one(None, 'x', 'y'), weighted=st.booleans(), time=one(None, 'attribute', 'key')), quick=60, rule='as tnet')
def tnet_large(case, ctx):
    ns, es = case['crowd']
    tnet(dict(case, nodes=ns, edges=es, pure=True, names=False, stale=[]), ctx)
