"""C23: citation networks of generated collections are compared with an independent list of the (citing record, cited work) pairs that remain after the filters."""
import collections

from mkv.core import Suite
from mkv.env import exc
from mkv.gen import fixed, weigh
from mkv.worlds import crowds, edges, make, nodes
from props.C22 import arguments, check_nodes, common, ident, keeper, mostly, orders, owners
from hypothesis import strategies as st

suite = Suite('C23')


@suite.test(fixed(directed=mostly, forward=weigh((1, st.just(True)), (1, st.just(False))), **common), quick=9000, rule='a work cited by two records, or a record that cites another record of the collection')
def citation(case, ctx):
    col, recs = make(['R', case['world']])
    typ = case['type']
    own = owners(recs)
    keep = keeper(case, own)
    count, weight, works, diff = collections.Counter(), collections.Counter(), collections.defaultdict(list), {}
    considered, filtered, cited_by = 0, 0, collections.defaultdict(set)
    for n, r in enumerate(recs):
        head = r.createCitation()
        if not r.get('citations'):
            continue
        if not keep(head):
            filtered += 1
            continue
        considered += 1
        hid = ident(head, typ)
        count[hid] += 1
        works[hid].append(head)
        for c in r['citations']:
            if not keep(c):
                filtered += 1
                continue
            i = ident(c, typ)
            count[i] += 1
            works[i].append(c)
            cited_by[i].add(n)
            e = (hid, i) if case['forward'] else (i, hid)
            if not case['directed']:
                e = tuple(sorted(e, key=repr))
            weight[e] += 1
            y = getattr(c, 'year', None)
            diff[e] = None if y is None or head.year is None else abs(y - head.year)
    kw = arguments(case, False)
    if not case['directed']:
        kw['directed'] = False
    if not case['forward']:
        kw['recordToCite'] = False
    for what, c in orders(col, recs, case['seed']):
        g = c.networkCitation(**kw)
        ctx.eq((g.is_directed(), g.is_multigraph()), (case['directed'], False), what + 'kind of graph')
        check_nodes(ctx, case, what, nodes(g), count, works, own)
        e = edges(g)
        ctx.eq(set(e), set(weight), what + 'edges')
        for k, d in e.items():
            d = dict(d)
            if case['weighted']:
                ctx.eq(d.pop('weight', None), weight[k], '%sweight of edge %r' % (what, k))
                if typ in ('full', 'original'):
                    ctx.eq(d.pop('yearDiff', None), diff[k], '%sdifference of the years of edge %r' % (what, k))
            ctx.eq(d, {}, '%sother attributes of edge %r' % (what, k))
    with ctx.raises(exc.RCValueError, 'an unknown node type'):
        col.networkCitation(nodeType='title')
    ctx.nontrivial(weight and any(len(v) > 1 for v in cited_by.values()) or any(i in cited_by for i in {ident(r.createCitation(), typ) for r in recs if r.get('citations')}))
    ctx.label('type ' + typ)
    ctx.label('filtered', filtered > 0 and considered > 0)
    ctx.label('core node', typ == 'full' and any(i in own for i in cited_by))
    ctx.label('reversed', not case['forward'] and case['directed'] and bool(weight))


suite.larger(citation, 240, world=crowds)
