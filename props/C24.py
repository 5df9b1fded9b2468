"""C24: bibliographic coupling networks of generated collections are compared with the pairwise intersections of the sets of works the records cite."""
import collections

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.gen import fixed, ints, one, weigh
from mkv.worlds import crowds, edges, make, nodes
from props.C22 import check_nodes, orders, owners, rarely, rec, worlds

suite = Suite('C24')


@st.composite
def citing(draw):
    """A record with an own citation few others have and citations from a small pool."""
    a, y, j = draw(one('Levy, Y', 'Smith, J', 'Li, X', 'Ng, T')), draw(ints(1970, 1979)), draw(one('NATURE', 'CELL'))
    f = [['PT', ['J']], ['UT', ['WOS:1']], ['AU', [a]], ['PY', [str(y)]], ['J9', [j]]]
    if draw(ints(0, 9)):
        refs = draw(st.lists(st.builds('{}, {}, {}{}'.format, one('LEVY Y', 'SMITH J'), ints(1970, 1973), one('NATURE', 'CELL'), one('', ', V1', ', V2, P5', ', V2, P5, DOI 10.1/x')), min_size=1, max_size=6))
        f.append(['CR', refs + draw(one([], [], ['%s, %d, %s' % (a.replace(',', '').upper(), y, j)], ['REPORT'], ['[Anonymous], 1970, NATURE']))])
    return ['W', f]


world = weigh((4, st.lists(citing(), min_size=2, max_size=7)), (2, st.lists(st.one_of(citing(), rec()), min_size=2, max_size=7)), (1, worlds))


@suite.test(fixed(world=world, weighted=st.booleans(), full=rarely, cr=rarely, seed=ints(0, 3)), quick=8000, rule='two records share at least two works')
def coupling(case, ctx):
    col, recs = make(['R', case['world']])
    own = owners(recs)
    cites, works = collections.defaultdict(set), collections.defaultdict(list)
    for r in recs:
        head = r.createCitation()
        for c in r.get('citations') or []:
            cites[head.ID()].add(c.ID())
            works[c.ID()].append(c)
        works[head.ID()].append(head)
    ids = sorted(cites)
    weight = {}
    for i, a in enumerate(ids):
        for b in ids[:i]:
            n = len(cites[a] & cites[b])
            if n:
                weight[tuple(sorted((a, b), key=repr))] = n
    kw = {}
    for k, v, default in (('weighted', case['weighted'], True), ('fullInfo', case['full'], False), ('addCR', case['cr'], False)):
        if v != default:
            kw[k] = v
    like = dict(type='full', core=True, count=False, full=case['full'], info=True, attrs=False, cr=case['cr'])
    for what, c in orders(col, recs, case['seed']):
        g = c.networkBibCoupling(**kw)
        ctx.eq((g.is_directed(), g.is_multigraph()), (False, False), what + 'kind of graph')
        n, e = nodes(g), edges(g)
        ctx.check(set(cites) <= set(n), lambda: '%srecords that cite but are no nodes: %r' % (what, set(cites) - set(n)))
        ctx.check(set(n) <= set(own), lambda: '%snodes that are no records: %r' % (what, set(n) - set(own)))
        check_nodes(ctx, like, what, n, n, works, own)
        ctx.eq(set(e), set(weight), what + 'edges')
        for k, d in e.items():
            ctx.eq(d, {'weight': weight[k]} if case['weighted'] else {}, '%sattributes of edge %r' % (what, k))
    ctx.nontrivial(any(n > 1 for n in weight.values()))
    ctx.label('a record cites another', any(w in own for s in cites.values() for w in s))
    ctx.label('two records with one citation', any(len(v) > 1 for v in own.values()))


suite.larger(coupling, 240, world=crowds)
