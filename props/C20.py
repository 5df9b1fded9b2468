"""C20: two-mode and multi-mode networks of generated collections are compared, node by node and edge by edge, with an independent count of the values of different tags that occur together."""
import collections
import random

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import exc
from mkv.gen import fixed, ints, one, weigh
from mkv.worlds import STEMMERS, crowd_world, edges, make, nodes, world
from props.C19 import attribute, missing, strings, tags

suite = Suite('C20')
stems = weigh((3, st.just('none')), (2, one(*STEMMERS)))


def skip(recs, modes, edge):
    return any(missing(r, t) for r in recs for t in modes) or (edge and any(missing(r, edge) or len(set(strings(r, edge))) < len(strings(r, edge)) for r in recs))


def compare(ctx, g, what, modes, vals_of, pairs, recs, edge, directed, nc, ew, types):
    """vals_of(r, i) gives the node names of mode i, pairs says which modes are joined."""
    count, weight, made_by = collections.Counter(), collections.Counter(), collections.defaultdict(set)
    for r in recs:
        vals = [vals_of(r, i) for i in range(len(modes))]
        for t, vs in zip(modes, vals):
            count.update(vs)
            for v in vs:
                made_by[v].add(t)
        for i, j in pairs:
            for a in vals[i]:
                for b in vals[j]:
                    e = (a, b) if directed else tuple(sorted((a, b), key=repr))
                    for k in (strings(r, edge) if edge else [None]):
                        weight[e + (k,) if edge else e] += 1
    ctx.eq((g.is_directed(), g.is_multigraph()), (directed, bool(edge)), what + ': kind of graph')
    n, e = nodes(g), edges(g)
    ctx.eq(set(n), set(count), what + ': nodes')
    ctx.eq(set(e), set(weight), what + ': edges')
    for v, d in n.items():
        ctx.eq(set(d), ({'count'} if nc else set()) | ({'type'} if types else set()), '%s: attributes of node %r' % (what, v))
        if nc:
            ctx.eq(d['count'], count[v], '%s: count of node %r' % (what, v))
        if types:
            ctx.check(d['type'] in made_by[v] or (len(made_by[v]) > 1 and isinstance(d['type'], str) and all(t in d['type'] for t in made_by[v])),
                      lambda: '%s: node %r has type %r but was produced by %r' % (what, v, d['type'], made_by[v]))
    for k, d in e.items():
        ctx.eq(d, {'weight': weight[k]} if ew else {}, '%s: attributes of edge %r' % (what, k))
    ctx.nontrivial(any(w > 1 for w in weight.values()) or (edge and len({k[:2] for k in weight}) < len(weight)))
    ctx.label('edge attribute', bool(edge and weight))
    ctx.label('isolated first', any(g.degree(v) == 0 for v in g))
    ctx.label('value of two tags', any(len(m) > 1 for m in made_by.values()))


def options(case):
    nc, ew, types = case['opts']
    kw = {}
    for k, v in (('nodeCount', nc), ('edgeWeight', ew), ('recordType', types)):
        if not v:
            kw[k] = False
    if case['edge']:
        kw['edgeAttribute'] = case['edge']
    return kw


def both_orders(col, recs, seed):
    again = list(recs)
    random.Random(seed).shuffle(again)
    return (('', col), (' of the reordered collection', type(col)(again)))


flags = st.tuples(*[weigh((2, st.just(True)), (1, st.just(False)))] * 3).map(list)


@suite.test(fixed(world=world, tag1=tags, tag2=tags, stem1=stems, stem2=stems, opts=flags, directed=st.booleans(), edge=attribute, seed=ints(0, 3)), quick=7000, rule='an edge of weight 2 or more, or two parallel edges')
def two_mode(case, ctx):
    col, recs = make(case['world'])
    modes = [case['tag1'], case['tag2']]
    edge = case['edge']
    if modes[0] == modes[1] or skip(recs, modes, edge):
        return
    stems_ = [STEMMERS[case['stem1']], STEMMERS[case['stem2']]]
    kw = options(case)
    if case['directed']:
        kw['directed'] = True
    for i in (0, 1):
        if stems_[i]:
            kw['stemmerTag%d' % (i + 1)] = stems_[i]
    for name, c in both_orders(col, recs, case['seed']):
        g = c.networkTwoMode(*modes, **kw)
        compare(ctx, g, 'networkTwoMode' + name, modes, lambda r, i: [stems_[i](v) if stems_[i] else v for v in strings(r, modes[i])], [(0, 1)], recs, edge, case['directed'], *case['opts'])
    for bad in (dict(stemmerTag1=5), dict(stemmerTag2='x')):
        with ctx.raises(exc.TagError, 'a stemmer that cannot be called'):
            col.networkTwoMode(*modes, **bad)
    for bad in ((5, 'AF'), ('AF', None)):
        with ctx.raises(exc.TagError, 'a tag that is not a string'):
            col.networkTwoMode(*bad)
    ctx.label('directed', case['directed'])


suite.larger(two_mode, 90, world=crowd_world)


@suite.test(fixed(world=world, modes=weigh((5, st.lists(tags, min_size=1, max_size=4, unique=True)), (1, st.lists(tags, min_size=5, max_size=7, unique=True))), how=one('args', 'args', 'list'), stem=stems, opts=flags, edge=attribute, seed=ints(0, 3)), quick=7000, rule='an edge of weight 2 or more, or two parallel edges')
def multi_mode(case, ctx):
    col, recs = make(case['world'])
    modes, edge, stem = case['modes'], case['edge'], STEMMERS[case['stem']]
    if skip(recs, modes, edge) or any(v == 0 or v == '' for r in recs for t in modes for v in [r.get(t)]):
        return
    kw = options(case)
    if stem:
        kw['stemmer'] = stem
    for name, c in both_orders(col, recs, case['seed']):
        g = c.networkMultiMode(*([list(modes)] if case['how'] == 'list' else modes), **kw)
        compare(ctx, g, 'networkMultiMode' + name, modes, lambda r, i: [stem(v) if stem else v for v in strings(r, modes[i])], [(i, j) for j in range(len(modes)) for i in range(j)], recs, edge, False, *case['opts'])
    with ctx.raises(exc.TagError, 'a stemmer that cannot be called'):
        col.networkMultiMode(*modes, stemmer=5)
    for bad in (([5],), ('AF', 5), (5,)):
        with ctx.raises(exc.TagError, 'a tag that is not a string'):
            col.networkMultiMode(*bad)
    ctx.label('three or more modes', len(modes) > 2)


suite.larger(multi_mode, 90, world=crowd_world)
