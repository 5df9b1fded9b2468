"""C31: co-investigator and co-institution networks of generated grant collections of all types are compared with an independent count of the names in their fields and of the pairs they form."""
import collections
import itertools

from hypothesis import strategies as st

from mkv.core import Suite
from mkv.env import mk
from mkv.gen import GC, fixed, ints, one, weigh
from mkv.worlds import edges, nodes

suite = Suite('C31')
NAMES = ['Levy', 'Smith', 'Li', 'de Groot', 'Müller', 'Levy, Y']
COLS = ['PI', 'Co-PIs', 'University', 'Name-Nom', 'CoAppName-NomCoApp', 'Institution-Établissement', 'CoAppInstitution-ÉtablissementCoApp', 'Investigator', 'Institution', 'Note']
TYPES = ['F', 'NSERC', 'NSF', 'CIHR']


@st.composite
def grant(draw, blanks):
    """[type, {column: [names] or {'list': [[name, rest], ...]}}]: the names a cell holds, or a list value."""
    kind = draw(weigh((2, st.just('F')), (1, one(*TYPES[1:]))))
    names = weigh((40, st.lists(one(*NAMES), min_size=1, max_size=3)), (1, st.lists(one(*NAMES, *('Person %d' % i for i in range(60))), min_size=20, max_size=70)))
    if blanks:
        names = weigh((4, names), (1, st.just([])), (1, st.lists(one('', 'Levy', 'Li'), min_size=1, max_size=3)), (1, st.none()))
    d = {}
    for c in draw(st.lists(one(*COLS, 'PI', 'PI', 'PI', 'Co-PIs', 'Co-PIs'), min_size=1, max_size=4, unique=True)):
        if kind == 'NSF' and draw(ints(0, 3)):
            c = draw(one('Investigator', 'Institution', 'PI'))
            d[c] = {'list': draw(st.lists(st.tuples(one(*NAMES), one('', '; a@b.c', '; x; y')).map(list), min_size=1, max_size=3))}
        else:
            d[c] = draw(names)
    return [kind, d]


world = lambda blanks: weigh((5, st.lists(grant(blanks), min_size=2, max_size=7)), (1, st.lists(grant(blanks), max_size=1)))
tags = weigh((1, st.none()), (1, one(*COLS)), (4, st.lists(one('PI', 'Co-PIs', 'University', 'Investigator', 'Name-Nom', 'no such tag'), max_size=3, unique=True)), (1, st.lists(one(*COLS), max_size=4, unique=True)))


def build(case):
    sep, glue = case['sep'], case['glue'].format(case['sep'])
    out = []
    for i, (kind, d) in enumerate(case['world']):
        v = {}
        for c, x in d.items():
            v[c] = None if x is None else [n + r.replace(';', sep) for n, r in x['list']] if isinstance(x, dict) else glue.join(x)
        if kind == 'F':
            g = mk.FallbackGrant('row %d' % i, v)
        elif kind == 'NSERC':
            g = mk.NSERCGrant('row %d' % i, dict(v, Cle=str(i)), 'f', i)
        elif kind == 'CIHR':
            g = mk.CIHRGrant('row %d' % i, dict(v, **{'PI Names': 'x'}), 'f', i)
        else:
            g = mk.NSFGrant(dict(v, AwardID=str(i)), 'f%d.xml' % i)
        out.append(g)
    return GC(out), out


def named(grant, tags, institution):
    """[(name, field)] as the cells were made."""
    kind, d = grant
    look = [] if tags is None else [tags] if isinstance(tags, str) else list(tags)
    if kind == 'NSERC':
        look += [c for c in d if ('institution' if institution else 'name-') in c.lower() and c not in look]
    if kind == 'NSF':
        own = 'Institution' if institution else 'Investigator'
        look += [own] * (own not in look)
    res = []
    for c in look:
        x = d.get(c)
        if isinstance(x, dict):
            res += [(n, c) for n, r in x['list']]
        elif x is not None:
            res += [(n, c) for n in x or ['']]
    return res


def network(case, ctx, whole):
    col, grants = build(case)
    kw = {}
    if case['tags'] is not None:
        kw['targetTags'] = case['tags']
    if case['sep'] != ';':
        kw['tagSeperator'] = case['sep']
    for k in ('count', 'weighted'):
        if not case[k]:
            kw[k] = False
    g = (col.networkCoInvestigatorInstitution if case['institution'] else col.networkCoInvestigator)(**kw)
    count, fields, weight = collections.Counter(), {}, collections.Counter()
    for gr in case['world']:
        l = [p for p in named(gr, case['tags'], case['institution']) if p[0]]
        for n, c in l:
            count[n] += 1
            fields.setdefault(n, set()).add(c)
        for (a, _), (b, _) in itertools.combinations(l, 2):
            weight[tuple(sorted((a, b), key=repr))] += 1
    ns, es = nodes(g), edges(g)
    if not whole:
        ns = {n: d for n, d in ns.items() if n}
        es = {e: d for e, d in es.items() if e[0] and e[1]}
    ctx.eq((g.is_directed(), g.is_multigraph()), (False, False), 'kind of graph')
    ctx.eq(set(ns), set(count), 'names')
    for n, d in ns.items():
        d = dict(d)
        ctx.check(d.pop('field', None) in fields[n], 'field of %r is %r, expected one of %r' % (n, ns[n].get('field'), fields[n]))
        ctx.eq(d, {'count': count[n]} if case['count'] else {}, 'attributes of %r' % n)
    ctx.eq(set(es), set(weight), 'pairs')
    for e, d in es.items():
        ctx.eq(d, {'weight': weight[e]} if case['weighted'] else {}, 'attributes of the edge %r' % (e,))
    ctx.nontrivial(any(w > 1 for w in weight.values()) and len(count) > 2)
    ctx.label('loop', any(a == b for a, b in weight))
    ctx.label('names of grants', bool(count))
    # the fields given are not changed, nor are the grants
    again = (col.networkCoInvestigatorInstitution if case['institution'] else col.networkCoInvestigator)(**kw)
    ctx.eq({n: {k: v for k, v in d.items() if k != 'field'} for n, d in nodes(again).items()}, {n: {k: v for k, v in d.items() if k != 'field'} for n, d in nodes(g).items()}, 'names the second time')
    ctx.eq(edges(again), edges(g), 'pairs the second time')


options = dict(tags=tags, sep=weigh((3, st.just(';')), (1, one('; ', '|', ' and ', '/'))), glue=one('{}', '{} ', ' {}'), count=weigh((4, st.just(True)), (1, st.just(False))), weighted=weigh((4, st.just(True)), (1, st.just(False))), institution=st.booleans())


@suite.test(fixed(world=world(False), **options), quick=7000, rule='three names and a pair of weight two or more')
def names(case, ctx):
    """Every field holds names; a blank name would be reported."""
    network(case, ctx, True)


@suite.test(fixed(world=world(True), **options), quick=4000, rule='three names and a pair of weight two or more')
def with_blanks(case, ctx):
    """Blank fields: the node of the blank name (a known finding) is left aside."""
    network(case, ctx, False)
