"""C29: the trimming, merging and statistics functions are applied to generated weighted, directed and parallel-edged graphs and compared with an independent filter, sum and count over their nodes and edges."""
import collections
import fractions
import itertools

import networkx as nx
from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import mk
from mkv.gen import fixed, ints, one, weigh
from mkv.worlds import edge_key

suite = Suite('C29')
NAMES = ['a', 'b', 'c', 'Levy, Y', 'e', 'f', 'g', 'h']
num = st.one_of(ints(-2, 6), ints(0, 3), one(0.5, 1.5, 2.0, -0.5))
INF = float('inf')


def graph(kind, lo=0, weighted=weigh((3, st.just(100)), (1, st.just(50)), (1, st.just(0))), values=num, size=9):
    return fixed(kind=kind, n=weigh((6, ints(3, 8)), (1, ints(lo, 2))), counts=st.lists(values, min_size=8, max_size=8), counted=weighted, weighted=weighted,
                 edges=weigh((6, st.lists(st.tuples(ints(0, 7), ints(0, 7), values, ints(0, 99)).map(list), min_size=2, max_size=size)), (1, st.just([]))), marks=st.lists(ints(0, 99), min_size=8, max_size=8))


SIMPLE = one('Graph', 'DiGraph')
ANY = weigh((3, SIMPLE), (2, one('MultiGraph', 'MultiDiGraph')))


def make(c, count='count', weight='weight', tag='x'):
    g = getattr(nx, c['kind'])()
    names = NAMES[:c['n']] if c['n'] <= 8 else ['n%d' % i for i in range(c['n'])]
    for i, n in enumerate(names):
        g.add_node(n, info='%s %d' % (tag, i))
        if c['marks'][i] < c['counted']:
            g.nodes[n][count] = c['counts'][i]
    for i, (u, v, w, mark) in enumerate(c['edges']):
        if names:
            u, v = names[u % len(names)], names[v % len(names)]
            if g.is_multigraph() or not g.has_edge(u, v):
                g.add_edge(u, v, label='%s %d' % (tag, i))
                d = list(g.get_edge_data(u, v).values())[-1] if g.is_multigraph() else g.edges[u, v]
                if mark < c['weighted']:
                    d[weight] = w
    return g


def snap(g):
    """(nodes, edges) with all attributes; parallel edges by key."""
    es = [(u, v, k, d) for u, v, k, d in g.edges(keys=True, data=True)] if g.is_multigraph() else [(u, v, 0, d) for u, v, d in g.edges(data=True)]
    return {n: dict(d) for n, d in g.nodes(data=True)}, {edge_key(g, u, v) + (k,): dict(d) for u, v, k, d in es}


bounds = fixed(lo=weigh((1, st.none()), (2, num), (1, ints(1, 4))), hi=weigh((1, st.none()), (2, num), (1, ints(1, 5))))


def limits(case, lo, hi):
    kw = {}
    if case['bounds']['lo'] is not None:
        kw[lo] = case['bounds']['lo']
    if case['bounds']['hi'] is not None:
        kw[hi] = case['bounds']['hi']
    return kw, kw.get(lo, -INF), kw.get(hi, INF)


@suite.test(fixed(graph=graph(ANY), bounds=bounds, name=one('weight', 'weight', 'n'), ignore=weigh((3, st.just(True)), (2, st.just(False))), loops=one(None, True, False)), quick=6000, rule='an edge dropped and another kept, by weight')
def drop_edges(case, ctx):
    g = make(case['graph'], weight=case['name'])
    ns, es = snap(g)
    kw, lo, hi = limits(case, 'minWeight', 'maxWeight')
    if case['name'] != 'weight':
        kw['parameterName'] = case['name']
    if case['ignore']:
        kw['ignoreUnweighted'] = True
    if case['loops'] is not None:
        kw['dropSelfLoops'] = case['loops']
    left = {e: d for e, d in es.items() if not (case['loops'] and e[0] == e[1])}
    if (lo, hi) != (-INF, INF) and not case['ignore'] and any(case['name'] not in d for d in left.values()):
        with ctx.raises(KeyError, 'an edge without weight'):
            mk.dropEdges(g, **kw)
        return
    ret = mk.dropEdges(g, **kw)
    want = {e: d for e, d in left.items() if lo <= d.get(case['name'], lo) <= hi or case['name'] not in d}
    if (lo, hi) == (-INF, INF):
        want = left
    ctx.eq(snap(g), (ns, want), 'graph after dropEdges(%r)' % kw)
    ctx.check(ret is None, 'returned %r' % (ret,))
    ctx.nontrivial(0 < len(want) < len(left))
    ctx.label('loop dropped', len(left) < len(es))
    ctx.label('one of parallel edges', g.is_multigraph() and {e[:2] for e in left if e not in want} & {e[:2] for e in want})


def degree(ns, es, directed, name):
    """Sum of the weights of the edges at a node (1 without one), each edge once."""
    deg = dict.fromkeys(ns, fractions.Fraction(0))
    for (u, v, k), d in es.items():
        for n in {u, v}:
            deg[n] += fractions.Fraction(d.get(name, 1)) if name else 1
    return deg


@suite.test(fixed(graph=graph(ANY), bounds=bounds, name=one('weight', 'weight', 'n'), use=one(None, None, True, False), include=one(None, True, False)), quick=6000, rule='a node dropped and another kept')
def drop_by_degree(case, ctx):
    g = make(case['graph'], weight=case['name'])
    ns, es = snap(g)
    kw, lo, hi = limits(case, 'minDegree', 'maxDegree')
    if case['name'] != 'weight':
        kw['parameterName'] = case['name']
    if case['use'] is not None:
        kw['useWeight'] = case['use']
    if case['include'] is not None:
        kw['includeUnweighted'] = case['include']
    use = case['use'] is not False
    if use and case['include'] is False and any(case['name'] not in d for d in es.values()):
        with ctx.raises(KeyError, 'an edge without weight'):
            mk.dropNodesByDegree(g, **kw)
        ctx.eq(snap(g), (ns, es), 'graph after an exception')
        return
    ret = mk.dropNodesByDegree(g, **kw)
    deg = degree(ns, es, g.is_directed(), case['name'] if use else None)
    keep = {n for n in ns if lo <= deg[n] <= hi}
    ctx.eq(snap(g), ({n: ns[n] for n in ns if n in keep}, {e: d for e, d in es.items() if e[0] in keep and e[1] in keep}), 'graph after dropNodesByDegree(%r), degrees %r' % (kw, {n: str(d) for n, d in deg.items()}))
    ctx.check(ret is None, 'returned %r' % (ret,))
    ctx.nontrivial(0 < len(keep) < len(ns))
    ctx.label('at the bound', any(d in (lo, hi) for d in deg.values()))


@suite.test(fixed(graph=graph(ANY), bounds=bounds, name=one('count', 'count', 'n'), ignore=weigh((3, st.just(True)), (2, st.just(False)))), quick=5000, rule='a node dropped and another kept')
def drop_by_count(case, ctx):
    g = make(case['graph'], count=case['name'])
    ns, es = snap(g)
    kw, lo, hi = limits(case, 'minCount', 'maxCount')
    if case['name'] != 'count':
        kw['parameterName'] = case['name']
    if case['ignore']:
        kw['ignoreMissing'] = True
    if not case['ignore'] and any(case['name'] not in d for d in ns.values()):
        if kw.keys() & {'minCount', 'maxCount'}:
            with ctx.raises(KeyError, 'a node without count'):
                mk.dropNodesByCount(g, **kw)
            ctx.eq(snap(g), (ns, es), 'graph after an exception')
        return
    ret = mk.dropNodesByCount(g, **kw)
    keep = {n for n, d in ns.items() if case['name'] not in d or lo <= d[case['name']] <= hi}
    ctx.eq(snap(g), ({n: ns[n] for n in ns if n in keep}, {e: d for e, d in es.items() if e[0] in keep and e[1] in keep}), 'graph after dropNodesByCount(%r)' % kw)
    ctx.check(ret is None, 'returned %r' % (ret,))
    ctx.nontrivial(0 < len(keep) < len(ns))
    ctx.label('at the bound', any(d.get(case['name']) in (lo, hi) for d in ns.values()))


PART = weigh((4, st.just(100)), (1, st.just(50)), (1, st.just(0)))


def ring(kind, n, m, mod):
    g = getattr(nx, kind)()
    g.add_nodes_from((i, {'count': i % mod}) for i in range(n))
    g.add_edges_from((i % n, (i * 2 + i // n + 1) % n, {'weight': i % mod}) for i in range(m))
    return g


@suite.test(fixed(kind=one('Graph', 'DiGraph', 'MultiGraph'), do=one('edges', 'edges', 'degree', 'count', 'merge'), n=one(1001, 10001, 20002), m=one(1000, 10001, 100001, 200010), mod=ints(3, 9), lo=ints(1, 2), hi=weigh((1, st.just(INF)), (1, ints(3, 8))), loops=st.booleans()), quick=32, rule='a graph of at least ten thousand nodes or edges, not all of which are kept')
def large(case, ctx):
    """Graphs of many nodes and edges."""
    do, lo, hi = case['do'], case['lo'], case['hi']
    n, m = case['n'], case['m']
    if do != 'edges':
        m = min(m, 10001)
    kind = 'Graph' if do == 'merge' and case['kind'] == 'MultiGraph' else case['kind']
    g = ring(kind, n, m, case['mod'])
    if do == 'merge':
        a, b = g, ring(kind, n + 5, m, case['mod'] + 1)
        ns, es = {i: d['count'] for i, d in a.nodes(data=True)}, {edge_key(a, u, v): w for u, v, w in a.edges(data='weight')}
        for i, d in b.nodes(data=True):
            ns[i] = ns.get(i, 0) + d['count']
        for u, v, w in b.edges(data='weight'):
            es[edge_key(a, u, v)] = es.get(edge_key(a, u, v), 0) + w
        mk.mergeGraphs(a, b)
        ctx.check({i: d['count'] for i, d in a.nodes(data=True)} == ns, 'counts of the merged nodes')
        ctx.check({edge_key(a, u, v): w for u, v, w in a.edges(data='weight')} == es, 'weights of the merged edges')
        ctx.nontrivial(max(n, m) > 10000)
        return
    ns, es = snap(g)
    kw = {} if hi == INF else {'max': hi}
    if do == 'edges':
        mk.dropEdges(g, dropSelfLoops=case['loops'], minWeight=lo, **{k + 'Weight': v for k, v in kw.items()})
        want = ns, {e: d for e, d in es.items() if lo <= d['weight'] <= hi and not (case['loops'] and e[0] == e[1])}
    else:
        if do == 'count':
            mk.dropNodesByCount(g, minCount=lo, **{k + 'Count': v for k, v in kw.items()})
            keep = {i for i, d in ns.items() if lo <= d['count'] <= hi}
        else:
            mk.dropNodesByDegree(g, minDegree=lo, useWeight=False, **{k + 'Degree': v for k, v in kw.items()})
            deg = degree(ns, es, g.is_directed(), None)
            keep = {i for i in ns if lo <= deg[i] <= hi}
        want = {i: d for i, d in ns.items() if i in keep}, {e: d for e, d in es.items() if e[0] in keep and e[1] in keep}
    got = snap(g)
    ctx.check(got[0] == want[0], lambda: 'nodes kept: %d, expected %d' % (len(got[0]), len(want[0])))
    ctx.check(got[1] == want[1], lambda: 'edges kept: %d, expected %d' % (len(got[1]), len(want[1])))
    ctx.nontrivial(max(len(ns), len(es)) > 10000 and want != (ns, es))
    ctx.label(do)


@suite.test(fixed(kind=SIMPLE, a=graph(st.just('x'), weighted=PART), b=graph(st.just('x'), weighted=PART), shift=weigh((3, st.just(0)), (2, ints(1, 4))), node=one('default', 'default', 'n', None, ''), edge=one('default', 'default', 'w', None, '')), quick=7000, rule='a shared node and a shared edge that both have a value to be summed')
def merge(case, ctx):
    count, weight = ({'default': d, None: d, '': d}.get(case[k], case[k]) for k, d in (('node', 'count'), ('edge', 'weight')))
    a, b = (make(dict(case[k], kind=case['kind']), count=count, weight=weight, tag=k) for k in 'ab')
    b = nx.relabel_nodes(b, {n: NAMES[(i + case['shift']) % 8] for i, n in enumerate(NAMES)})
    for n in b:  # attributes the target does not know
        b.nodes[n]['extra'] = n
    (an, ae), (bn, be) = snap(a), snap(b)
    kw = {}
    if case['node'] != 'default':
        kw['incrementedNodeVal'] = case['node']
    if case['edge'] != 'default':
        kw['incrementedEdgeVal'] = case['edge']
    mk.mergeGraphs(a, b, **kw)
    ctx.eq(snap(b), (bn, be), 'added graph')
    gn, ge = snap(a)
    shared = []
    for what, name, mine, theirs, got in (('node', count if case['node'] else None, an, bn, gn), ('edge', weight if case['edge'] else None, ae, be, ge)):
        ctx.eq(set(got), set(mine) | set(theirs), '%ss of the merged graph' % what)
        summed = False
        for k, d in got.items():
            if k not in mine:
                ctx.eq(d, theirs[k], 'attributes of the added %s %r' % (what, k))
                continue
            want = dict(mine[k])
            if k in theirs and name and name in theirs[k]:
                summed = summed or name in want
                want[name] = want.get(name, 0) + theirs[k][name]
            # attributes that only the added graph has may or may not be taken over
            ctx.eq({x: y for x, y in d.items() if x in want}, want, 'attributes of the %s %r' % (what, k))
            ctx.check(all(y == theirs[k][x] for x, y in d.items() if x not in want and k in theirs) and (k in theirs or set(d) == set(want)), 'attributes of the %s %r: %r' % (what, k, d))
        shared.append(summed)
    # the graphs stay independent
    for n in b:
        b.nodes[n]['late'] = 1
    ctx.eq(snap(a)[0], gn, 'merged graph after a change of the added one')
    ctx.nontrivial(all(shared))
    ctx.label('missing value', any(k in bn and ((count in an[k]) != (count in bn[k])) for k in an))


STATS = ['nodes', 'edges', 'isolates', 'loops', 'density', 'transitivity']


def truth(g):
    """The statistics from the lists of nodes and edges alone."""
    ns, es = list(g), [(u, v) for u, v, *_ in g.edges()]
    n, m = len(ns), len(es)
    touched = {x for e in es for x in e}
    density = 0 if n < 2 or m == 0 else m / (n * (n - 1)) * (1 if g.is_directed() else 2)
    s = {'nodes': n, 'edges': m, 'isolates': n - len(touched), 'loops': sum(u == v for u, v in es), 'density': density}
    if not g.is_directed() and not g.is_multigraph():
        pairs = {frozenset(e) for e in es if e[0] != e[1]}
        triads = closed = 0
        for x in ns:
            nb = [y for y in ns if frozenset((x, y)) in pairs]
            for y, z in itertools.combinations(nb, 2):
                triads += 1
                closed += frozenset((y, z)) in pairs
        s['transitivity'] = closed / triads if closed else 0
    return s


TEXT = {'nodes': ('Nodes: {}', '{} nodes'), 'edges': ('Edges: {}', '{} edges'), 'isolates': ('Isolates: {}', '{} isolates'), 'loops': ('Self loops: {}', '{} self loops'), 'density': ('Density: {:G}', 'a density of {:G}'), 'transitivity': ('Transitivity: {:G}', 'a transitivity of {:G}')}


@suite.test(fixed(graph=graph(weigh((3, st.just('Graph')), (1, ANY)), size=16), stats=weigh((2, st.none()), (3, st.lists(one(*STATS), max_size=8))), form=one('string', 'sentence', 'tuple'), kind=one('list', 'tuple')), quick=6000, rule='at least three different values, or a triangle')
def stats(case, ctx):
    g = make(case['graph'])
    before = snap(g)
    t = truth(g)
    asked = case['stats']
    if 'transitivity' not in t:  # not defined for directed graphs and parallel edges
        asked = [s for s in asked or STATS if s != 'transitivity']
    kw = {'string': {}, 'sentence': dict(sentenceString=True), 'tuple': dict(makeString=False)}[case['form']]
    if asked is not None:
        kw['stats'] = asked if case['kind'] == 'list' else tuple(asked)
    got = mk.graphStats(g, **kw)
    names = STATS if asked is None else asked
    if case['form'] == 'tuple':
        ctx.eq(type(got), tuple, 'type of the statistics')
        ctx.eq(len(got), len(names), 'number of statistics')
        for s, x in zip(names, got):
            ctx.check(abs(x - t[s]) < 1e-9, '%s is given as %r and is %r (asked for %r)' % (s, x, t[s], names))
    else:
        i = 1 if case['form'] == 'sentence' else 0
        parts = [TEXT[s][i].format(t[s]) for s in STATS if s in names]
        want = '\n'.join(parts) if i == 0 else 'The graph has ' + (parts[0] if len(parts) == 1 else ', '.join(parts[:-1]) + ' and ' + parts[-1] if parts else '')
        ctx.eq(got, want, 'statistics %r' % (names,))
    with ctx.raises(RuntimeError, 'an unknown statistic'):
        mk.graphStats(g, stats=['nodes', 'no'])
    ctx.eq(snap(g), before, 'graph after graphStats')
    ctx.nontrivial(len(set(t.values())) > 2)
    ctx.label('triangle', bool(t.get('transitivity')))


@suite.test(fixed(n=one(1000000, 1000001, 1234567), loops=ints(1, 3), form=one('string', 'sentence')), quick=2, rule='every case')
def million(case, ctx):
    """Counts too long for six digits."""
    n, l = case['n'], case['loops']
    g = nx.empty_graph(n)
    g.add_edges_from((i, i) for i in range(l))
    got = mk.graphStats(g, stats=['nodes', 'edges', 'isolates', 'loops'], **({'sentenceString': True} if case['form'] == 'sentence' else {}))
    ctx.eq(got, 'The graph has %d nodes, %d edges, %d isolates and %d self loops' % (n, l, n - l, l) if case['form'] == 'sentence' else 'Nodes: %d\nEdges: %d\nIsolates: %d\nSelf loops: %d' % (n, l, n - l, l), 'statistics')
    ctx.nontrivial()


TYPES = {'int': int, 'float': float, 'str of int': lambda x: int(x) * 2}


@suite.test(fixed(graph=graph(ANY), name=one('weight', 'weight', 'n', None), strict=st.booleans(), type=one(*TYPES), edge=one(None, 'bi', 'in', 'out', 'both')), quick=5000, rule='two nodes with different degrees over one')
def degrees(case, ctx):
    from metaknowledge import graphHelpers as gh
    g = make(case['graph'], weight=case['name'] or 'weight')
    ns, es = snap(g)
    kw = {}
    if case['name'] != 'weight':
        kw['weightString'] = case['name']
    if case['strict']:
        kw['strictMode'] = True
    to = TYPES[case['type']]
    if to is not int:
        kw['returnType'] = to
    if case['edge']:
        kw['edgeType'] = case['edge']
    pairs = [(u, v, d) for u, v, d in g.edges(data=True)]
    lacking = case['name'] and any(case['name'] not in d for u, v, d in pairs)
    if pairs and (case['strict'] and lacking or case['edge'] == 'both'):
        with ctx.raises((KeyError, ValueError), 'an unknown kind of edge or a missing weight'):
            gh.getNodeDegrees(g, **kw)
        return
    want = {n: to(0) for n in g}
    kind = case['edge'] or 'bi'
    if g.is_directed() or kind == 'bi':
        for u, v, d in pairs:
            w = to(d.get(case['name'], 1) if case['name'] else 1)
            if kind in ('bi', 'out'):
                want[u] += w
            if kind in ('bi', 'in'):
                want[v] += w
        ctx.eq(gh.getNodeDegrees(g, **kw), want, 'getNodeDegrees(%r)' % kw)
        if to is int and len(g) and all(x >= 0 for x in want.values()):
            c = collections.Counter(want.values())
            kw = {new: kw[old] for old, new in (('weightString', 'weightParameter'), ('strictMode', 'strictWeightNames'), ('edgeType', 'directionalType')) if old in kw}
            ctx.eq(gh.getDegreeDistribution(g, **kw), [c[i] for i in range(max(c) + 1)], 'getDegreeDistribution(%r)' % kw)
    if not g.is_multigraph():
        for u, v, d in pairs:
            ctx.eq(gh.getWeight(g, u, v, weightString=None), 1, 'weight when none is asked for')
            if case['name']:
                if case['name'] in d:
                    ctx.eq(gh.getWeight(g, u, v, weightString=case['name'], returnType=to), to(d[case['name']]), 'getWeight')
                    ctx.eq(gh.getWeight(g, u, v, case['name']), int(d[case['name']]), 'getWeight')
    ctx.eq(snap(g), (ns, es), 'graph afterwards')
    ctx.nontrivial(len({x for x in want.values() if x > 1}) > 1)


def many(kind, seed, n, m, share):
    import random
    r = random.Random(seed)
    val = lambda: r.choice([-1, 0, 1, 2, 3, 4, 6, 0.5, 1.5])  # noqa: E731
    return {'kind': kind, 'n': n, 'counts': [val() for _ in range(n)], 'counted': share, 'weighted': share, 'edges': [[r.randrange(n), r.randrange(n), val(), r.randrange(100)] for _ in range(m)], 'marks': [r.randrange(100) for _ in range(n)]}


def crowd(kind, share=weigh((3, st.just(100)), (1, st.just(50)))):
    return st.builds(many, kind, ints(0, 10 ** 6), ints(20, 120), ints(60, 400), share)


suite.larger(drop_edges, 60, graph=crowd(ANY))
suite.larger(drop_by_degree, 60, graph=crowd(ANY))
suite.larger(drop_by_count, 60, graph=crowd(ANY))
suite.larger(merge, 80, a=crowd(st.just('x'), st.just(100)), b=crowd(st.just('x'), st.just(100)))
suite.larger(stats, 60, graph=crowd(weigh((3, st.just('Graph')), (1, ANY))))
suite.larger(degrees, 80, graph=crowd(ANY))
