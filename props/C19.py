"""C19: one-mode and multi-level networks of generated collections are compared, node by node and edge by edge, with an independent count of the values that occur together."""
import collections
import random

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import exc
from mkv.gen import WOS_NAMES, fixed, ints, one, weigh
from mkv.worlds import COLS, STEMMERS, crowd_world, edges, make, nodes, values, world

suite = Suite('C19')
OTHER = ['J9', 'CR', 'PT', 'TI', 'AU', 'VL', 'LA', 'title', 'id', 'citations', 'authorsShort', 'citedRefs', 'EID', 'Source', 'FAU', 'MH', 'Subject', 'Authors with affiliations', 'AD', 'QQ']
tags = weigh((8, one('AF', 'DE', 'J9', 'ID', 'keywords')), (2, one('LA', 'PI', 'Co-PIs', 'University')), (2, one(*OTHER)), (1, one(*WOS_NAMES)), (1, one(*COLS)))
attribute = weigh((2, st.none()), (2, one('DE', 'J9', 'PY', 'ID', 'AF', 'year', 'keywords', 'University')), (1, tags))


def strings(r, tag):
    return [str(v) for v in values(r, tag) or []]


def model(recs, modes, stem, edge_attr, node_attr):
    count, weight, attrs = collections.Counter(), collections.Counter(), collections.defaultdict(set)
    for r in recs:
        vals = [stem(v) if stem else v for m in modes for v in strings(r, m)]
        keys = strings(r, edge_attr) if edge_attr else [None]
        count.update(vals)
        if node_attr:
            for v in vals:
                attrs[v].update(strings(r, node_attr))
        for i in range(len(vals)):
            for j in range(i):
                e = tuple(sorted((vals[i], vals[j]), key=repr))
                for k in keys:
                    weight[e if edge_attr is None else e + (k,)] += 1
    return count, weight, attrs


def missing(r, tag):
    """A special field that is there without a value: whether that is a value is nowhere said."""
    return r.get(tag, 0) is None


@suite.test(fixed(world=world, modes=weigh((3, st.lists(tags, min_size=1, max_size=1)), (3, st.lists(tags, min_size=2, max_size=3))), stem=weigh((3, st.just('none')), (2, one(*STEMMERS))), opts=st.tuples(st.booleans(), st.booleans()),
                  edge=attribute, node=attribute, seed=ints(0, 3)), quick=8000,
            rule='an edge of weight 2 or more, or two parallel edges')
def network(case, ctx):
    col, recs = make(case['world'])
    modes, stem, (nc, ew), edge, node = case['modes'], STEMMERS[case['stem']], case['opts'], case['edge'], case['node']
    if any(missing(r, t) for r in recs for t in modes + [edge, node] if t):
        return
    if edge and any(len(set(strings(r, edge))) < len(strings(r, edge)) for r in recs):
        return
    count, weight, attrs = model(recs, modes, stem, edge, node)
    unique = node and all(len(set(strings(r, node))) == len(strings(r, node)) for r in recs)
    kw = {}
    if not nc:
        kw['nodeCount'] = False
    if not ew:
        kw['edgeWeight'] = False
    if stem:
        kw['stemmer'] = stem
    if edge:
        kw['edgeAttribute'] = edge
    if node:
        kw['nodeAttribute'] = node
    makers = [col.networkMultiLevel] + ([col.networkOneMode] if len(modes) == 1 else [])
    again = list(recs)
    random.Random(case['seed']).shuffle(again)
    makers.append(type(col)(again).networkMultiLevel)
    for i, f in enumerate(makers):
        what = ['networkMultiLevel', 'networkOneMode'][i] if i < len(makers) - 1 else 'networkMultiLevel of the reordered collection'
        g = f(*modes, **kw)
        ctx.eq((g.is_directed(), g.is_multigraph()), (False, bool(edge)), what + ': kind of graph')
        n, e = nodes(g), edges(g)
        ctx.eq(set(n), set(count), what + ': nodes')
        ctx.eq(set(e), set(weight), what + ': edges')
        for v, d in n.items():
            want = {}
            if nc:
                want['count'] = count[v]
            if node:
                vals = d.get(node)
                ctx.check(isinstance(vals, list), lambda: '%s: node %r has no list of %s: %r' % (what, v, node, d))
                ctx.eq(set(vals), attrs[v], '%s: %s of node %r' % (what, node, v))
                if unique:
                    ctx.eq(len(vals), len(set(vals)), '%s: %s of node %r, values listed more than once in %r' % (what, node, v, vals))
                want[node] = vals
                for u, d2 in n.items():
                    ctx.check(u == v or d2[node] is not vals, lambda: '%s: nodes %r and %r share one list of %s' % (what, u, v, node))
            ctx.eq(d, want, '%s: attributes of node %r' % (what, v))
        for k, d in e.items():
            ctx.eq(d, {'weight': weight[k]} if ew else {}, '%s: attributes of edge %r' % (what, k))
    with ctx.raises(exc.TagError, 'a stemmer that cannot be called'):
        col.networkMultiLevel(*modes, stemmer='x')
    ctx.nontrivial(any(w > 1 for w in weight.values()) or (edge and len({k[:2] for k in weight}) < len(weight)))
    ctx.label('self loop', any(k[0] == k[1] for k in weight))
    ctx.label('edge attribute', bool(edge and weight))
    ctx.label('node attribute', bool(node and count))
    ctx.label('stemmed', bool(stem and count))
    ctx.label('grants', case['world'][0] == 'G')


suite.larger(network, 120, world=crowd_world)
