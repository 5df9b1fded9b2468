"""C34: generated sequences of analyses and exports of generated collections, some with progress bars, are compared step by step with the same analyses of collections made anew (also in other ways and orders), and everything they were given is compared with an untouched copy."""
import collections
import copy
import csv
import os
import pickle
import random
import re
import time
import types

from hypothesis import strategies as st

import metaknowledge.progressBar as progress
from mkv.core import Suite
from mkv.env import mk
from mkv.gen import GC, RC, SPECIAL, any_record, build, canon, fixed, ints, one, weigh
from mkv.worlds import STEMMERS, crowds, grant
from props import C29
from props.C10 import data, source

# progress bars are drawn ten times a second and waited for; hurry them, so that many can be run
progress.time = types.SimpleNamespace(**{k: getattr(time, k) for k in dir(time) if k[0] != '_'})
progress.time.sleep = lambda s: time.sleep(min(s, .002))

suite = Suite('C34')
NAMES = ['Levy, Y', 'Smith, J', 'Li, X']
FULL = ['Levy, Yvonne', 'Smith, John', 'Li, Mary', 'a']
letters = st.lists(one('a', 'b', 'c'), min_size=1, max_size=3, unique=True)
none = st.just(None)


@st.composite
def wos(draw):
    r = {'PT': draw(one('J', 'J', 'B')), 'AU': draw(st.lists(one(*NAMES), max_size=3, unique=True)), 'AF': draw(st.lists(one(*FULL), max_size=3, unique=True)), 'J9': draw(one('NATURE', 'CELL', 'ANN PHYS')),
         'DE': draw(one(None, ['a'], ['a', 'b'], ['c', 'b', 'a'])), 'ID': draw(one(None, ['A'], ['B', 'C'])), 'PY': draw(ints(0, 3)), 'TI': draw(one('t', 'On u', 'Z')), 'LA': draw(one(None, 'English')),
         'AB': draw(one(None, 'The 2 a of b. (C) 2003 Elsevier', 'On x, the y.'))}
    r['CR'] = draw(st.lists(st.one_of(ints(0, 7), ints(0, 7), one('Nobody A, 1900, CELL, V1', '[Anonymous], 1990, NATURE', 'LEVY Y, 1970, PAIN, P3', 'Report')), max_size=4))
    return r


world = weigh((6, st.lists(wos(), min_size=3, max_size=6)), (3, st.lists(st.one_of(wos(), any_record()), min_size=1, max_size=6)), (1, st.lists(wos(), max_size=1)))


def records(w):
    """Fresh records, no two with one ID."""
    out, ids = [], set()
    for i, d in enumerate(w):
        if isinstance(d, list):
            r = build(*d)
        else:
            f = [['PT', [d['PT']]], ['UT', ['WOS:%03d' % i]], ['J9', [d['J9']]], ['TI', [d['TI']]]]
            f += [[t, d[t]] for t in ('AU', 'AF') if d[t]] + [[t, ['; '.join(d[t])]] for t in ('DE', 'ID') if d[t]] + [[t, [d[t]]] for t in ('AB', 'LA') if d[t]]
            f += [['PY', [str(1989 + d['PY'])]]] * (d['PY'] > 0)
            cr = []
            for c in d['CR']:
                if isinstance(c, int):
                    o = w[c % len(w)]
                    if isinstance(o, list) or not o['AU'] or not o['PY']:
                        continue
                    c = '%s, %d, %s' % (o['AU'][0].replace(',', ''), 1989 + o['PY'], o['J9'])
                cr.append(c)
            r = build('W', f + [['CR', cr]] * bool(cr))
        if r.id not in ids:
            ids.add(r.id)
            out.append(r)
    return out


WAYS = ['list', 'reversed', 'add', 'add_reversed', 'union', 'union_reversed', 'copy', 'pickle', 'add_discard', 'ior', 'half', 'chunks', 'emptied']


def collection(w, way='list', seed=0):
    rs = records(w)
    if 'reversed' in way:
        rs.reverse()
    way = way.replace('_reversed', '').replace('reversed', 'list')
    half = len(rs) * (seed % 5) // 4
    if way == 'list':
        rc = RC(rs, name='the name')
    elif way == 'copy':
        rc = RC(rs, name='the name').copy()
    elif way == 'pickle':
        rc = pickle.loads(pickle.dumps(RC(rs)))
    elif way == 'union':
        rc = RC(rs[half:]) | RC(rs[:half + 1])
    elif way == 'half':
        rc = RC(rs[half:]) ^ RC(rs[:half])
    elif way == 'ior':
        rc = RC(rs[half:])
        rc |= RC(rs[:half + 1])
    elif way == 'chunks':
        rc = RC()
        for c in RC(rs).chunk(1 + seed % 3):
            rc |= c
    else:
        rc = RC()
        extra = [build('W', [['UT', ['WOS:x%d' % i]], ['CR', ['Nobody A, 1900, CELL, V1']]]) for i in range(7)]
        if way == 'emptied':
            rc = RC(extra)
            rc.clear()
        for i, r in enumerate(rs):
            if way == 'add_discard':
                rc.add(extra[i % len(extra)])
                rc.add(r)
                rc.add(copy.copy(r) if seed % 2 else r)
            else:
                rc.add(r)
        for x in extra:
            rc.discard(x)
    rc.name = 'the name'
    return rc


# ------------------------------------------------------- analyses: name -> f(rc, p, ctx) giving a result; p is a list of small ints
BOOL = [False, True]
SETS = [['AF', 'DE'], ['AU', 'ID', 'J9'], ['citations'], ['year', 'authorsFull'], ['TI', 'AB', 'PY'], ['DE']]
TAGS = ['AF', 'DE', 'ID', 'J9', 'authorsFull', 'citations', 'year', 'AU', 'title', 'PY']
VALS = [['NATURE'], ['CELL', 'ANN PHYS'], [], ['1990']]


class Args:
    """Remembers what was given, to see whether it is as it was afterwards."""

    def __init__(self):
        self.given = []

    def __call__(self, x):
        x = copy.deepcopy(x)
        self.given.append((x, copy.deepcopy(x)))
        return x


def other(p):
    return collection([{'PT': 'J', 'AU': ['Levy, Y'], 'AF': ['Levy, Yvonne'], 'J9': 'NATURE', 'DE': ['a'], 'ID': None, 'PY': k + 1, 'TI': 't', 'LA': None, 'AB': None, 'CR': [0, 1, 'LEVY Y, 1990, NATURE', 'Smith J, 1990, NATURE', 'Smith J, 1991, CELL']} for k in range(2 + p % 2)])


def f_rpys(rc, p, a):
    return rc.rpys(**dict([('minYear', 1950)] * (p[0] % 2) + [('maxYear', 1990)] * (p[1] % 2) + [('dropYears', a([1989, 1990]))] * (p[2] % 3 == 0) + [('rankEmptyYears', bool(p[2] % 2))]))


def f_series(rc, p, a):
    return rc.rankedSeries(TAGS[p[0]], giveCounts=BOOL[p[1] % 2], giveRanks=BOOL[p[2] % 2], greatestFirst=BOOL[p[3] % 2], pandasMode=BOOL[p[3] // 2 % 2], limitTo=a(['a', 'NATURE', 'Levy, Yvonne']) if p[1] % 3 == 0 else None)


def f_time(rc, p, a):
    return rc.timeSeries(TAGS[p[0]] if p[1] % 3 else None, giveYears=BOOL[p[1] % 2], greatestFirst=BOOL[p[2] % 2], pandasMode=BOOL[p[3] % 2], limitTo=a(['a', 'NATURE', 'Levy, Yvonne']) if p[2] % 3 == 0 else False)


def f_cocite(rc, p, a):
    return rc.networkCoCitation(dropAnon=BOOL[p[0] % 2], nodeType=['full', 'original', 'author', 'journal', 'year'][p[1] % 5], nodeInfo=BOOL[p[2] % 2], fullInfo=BOOL[p[3] % 2], weighted=BOOL[p[0] // 2 % 2], dropNonJournals=BOOL[p[1] // 5 % 2], count=BOOL[p[2] // 2 % 2],
                                keyWords=a([None, None, ['NATURE'], ['levy', 'CELL']][p[3] // 2 % 4]), detailedCore=[True, False, ['AF', 'TI']][p[0] % 3], coreOnly=BOOL[p[1] % 4 == 0], expandedCore=BOOL[p[2] % 5 == 0], addCR=BOOL[p[3] % 3 == 0])


def f_citation(rc, p, a):
    return rc.networkCitation(dropAnon=BOOL[p[0] % 2], nodeType=['full', 'original', 'author', 'journal', 'year'][p[1] % 5], nodeInfo=BOOL[p[2] % 2], fullInfo=BOOL[p[3] % 2], weighted=BOOL[p[0] // 2 % 2], dropNonJournals=BOOL[p[1] // 5 % 2], count=BOOL[p[2] // 2 % 2], directed=BOOL[p[2] // 4 % 2],
                              keyWords=a([None, None, ['NATURE'], ['levy', 'CELL']][p[3] // 2 % 4]), detailedCore=a([True, False, ['AF', 'TI']][p[0] % 3]), coreOnly=BOOL[p[1] % 4 == 0], recordToCite=BOOL[p[2] % 5 == 0], addCR=BOOL[p[3] % 3 == 0])


def f_coauth(rc, p, a):
    return rc.networkCoAuthor(detailedInfo=a([False, True, ['TI', 'year']][p[0] % 3]), weighted=BOOL[p[1] % 2], dropNonJournals=BOOL[p[2] % 2], count=BOOL[p[3] % 2], useShortNames=BOOL[p[1] // 2 % 2], citeProfile=BOOL[p[2] // 2 % 2])


def stem(p):
    return STEMMERS[['none', 'first', 'upper', 'last'][p % 4]]


def f_diffcount(rc, p, a):
    src, tgt = (rc, other(p[0])) if p[1] % 2 else (other(p[0]), rc)
    before = shot(other(p[0]))
    got = mk.diffusionCount(src, tgt, sourceType=['raw', 'UT', 'AF', 'citations', 'DE'][p[2] % 5], extraValue=[None, 'year', 'DE'][p[3] % 3], pandasFriendly=BOOL[p[0] % 2], compareCounts=BOOL[p[1] // 2 % 2], useAllAuthors=BOOL[p[3] // 3 % 2])
    if shot(src if p[1] % 2 == 0 else tgt) != before:
        raise AssertionError('the other collection of the diffusion was changed')
    return rows(got) if p[0] % 2 else got


def f_diffgraph(rc, p, a):
    src, tgt = (rc, other(p[0])) if p[1] % 2 else (other(p[0]), rc)
    before = shot(other(p[0]))
    got = mk.diffusionGraph(src, tgt, weighted=BOOL[p[0] % 2], sourceType=['raw', 'UT', 'AF', 'DE'][p[2] % 4], targetType=['raw', 'UT', 'AU', 'ID'][p[3] % 4], labelEdgesBy=[None, 'PY', 'DE'][p[1] // 2 % 3])
    if shot(src if p[1] % 2 == 0 else tgt) != before:
        raise AssertionError('the other collection of the diffusion was changed')
    return got


def f_adddiff(rc, p, a):
    g = rc.networkOneMode('citations')
    return [mk.diffusionAddCountsFromSource(g, other(p[0]), rc), g]


def f_graphs(rc, p, a):
    """A network through the functions that leave it alone."""
    g = [lambda: rc.networkCoAuthor(), lambda: rc.networkTwoMode('AF', 'DE'), lambda: rc.networkCitation(), lambda: rc.networkMultiLevel('DE', 'ID'), lambda: rc.networkOneMode('DE', edgeAttribute='PY')][p[0] % 5]()
    before = graph(g)
    what = p[1] % 6
    if what == 0:
        res = mk.graphStats(g, sentenceString=BOOL[p[2] % 2])
    elif what == 1:
        mk.writeGraph(g, os.path.join(a.dir, 'g'), typing=BOOL[p[2] % 2])
        res = {f: table(os.path.join(a.dir, f)) for f in sorted(os.listdir(a.dir))}
    elif what == 2:
        mk.writeEdgeList(g, os.path.join(a.dir, 'e.csv'), extraInfo=BOOL[p[2] % 2])
        res = table(os.path.join(a.dir, 'e.csv'))
    elif what == 3:
        mk.writeNodeAttributeFile(g, os.path.join(a.dir, 'n.csv'))
        res = table(os.path.join(a.dir, 'n.csv'))
    elif what == 4:
        h = g.__class__()
        mk.mergeGraphs(h, g)
        res = h
        res = canonical(h)
        for n in h.nodes():
            h.nodes[n].clear()
        for u, v, d in h.edges(data=True):
            d.clear()
    else:
        res = sorted(mk.getDegreeDistribution(g)) if hasattr(mk, 'getDegreeDistribution') and not g.is_multigraph() else None
    if what == 1:
        h = mk.readGraph(os.path.join(a.dir, [f for f in os.listdir(a.dir) if 'edgeList' in f][0]))
        res = [res, canonical(h)]
    if graph(g) != before:
        raise AssertionError('the network was changed')
    return res


def table(path):
    with open(path, newline='', encoding='utf-8') as f:
        return {'__rows__': [dict(r) for r in csv.DictReader(f)]}


def f_csv(rc, p, a):
    path = os.path.join(a.dir, 'o.csv')
    rc.writeCSV(path, onlyTheseTags=a(SETS[p[0] % 6]) if p[1] % 2 else None, numAuthors=BOOL[p[2] % 2], genderCounts=BOOL[p[3] % 2], longNames=BOOL[p[1] // 2 % 2], firstTags=a(['year']) if p[2] % 3 == 0 else None, splitByTag='PY' if p[3] % 5 == 0 else None)
    return {f: table(os.path.join(a.dir, f)) for f in sorted(os.listdir(a.dir))}


def lines(path):
    with open(path, encoding='utf-8', errors='backslashreplace') as f:
        return {'__rows__': f.read().splitlines()}


def f_file(rc, p, a):
    kinds = {type(r).__name__ for r in rc}
    if len(kinds) != 1 or kinds == {'ProQuestRecord'}:
        return None
    path = os.path.join(a.dir, 'o.txt')
    rc.writeFile(path)
    return lines(path)


def f_bib(rc, p, a):
    path = os.path.join(a.dir, 'o.bib')
    if p[1] % 2 == 0 and any(type(r).__name__ != 'WOSRecord' for r in rc):
        return None
    rc.writeBib(path, maxStringLength=[1000, 5][p[0] % 2], wosMode=BOOL[(p[1] + 1) % 2], reducedOutput=BOOL[p[2] % 2], niceIDs=BOOL[p[3] % 2])
    return lines(path)


def prep(p):
    return dict(lower=BOOL[p[1] % 2], removeNumbers=BOOL[p[2] % 2], removeNonWords=BOOL[p[2] // 2 % 2], removeWhitespace=BOOL[p[3] % 2], stemmer=stem(p[3] // 2))


def f_nlp(rc, p, a):
    to = os.path.join(a.dir, 'n.csv') if p[0] % 2 else None
    got = rc.forNLP(to, extraColumns=a(['DE', 'AF']) if p[0] % 3 else None, dropList=a(['the', 'on x']) if p[1] % 3 else None, removeCopyright=BOOL[p[0] // 2 % 2], **prep(p))
    return [rows(got), table(to) if to else None]


def f_burst(rc, p, a):
    to = os.path.join(a.dir, 'b.csv') if p[0] % 2 else None
    got = rc.forBurst(['TI', 'AB', 'DE', 'title'][p[0] % 4], to, dropList=a(['the', 'on x']) if p[1] % 3 else None, **prep(p))
    return [rows(got), lines(to) if to else None]


def f_dict(rc, p, a):
    return rows(rc.makeDict(onlyTheseTags=a(SETS[p[0] % 6]) if p[1] % 2 else None, longNames=BOOL[p[2] % 2], raw=BOOL[p[2] // 2 % 2], numAuthors=BOOL[p[3] % 2], genderCounts=BOOL[p[1] // 2 % 2]))


def f_cites(rc, p, a):
    got = rc.getCitations(**dict([('field', ['journal', 'year', 'author'][p[0] % 3]), ('values', a(VALS[p[1] % 4]))] * (p[2] % 2)), pandasFriendly=BOOL[p[3] % 2], counts=BOOL[p[3] // 2 % 2])
    return rows(got) if isinstance(got, dict) and got and all(isinstance(v, list) for v in got.values()) else got


def f_ends(rc, p, a):
    """Sub-collections, which are then emptied."""
    what = p[0] % 7
    if what == 0:
        got = [rc.yearSplit(1988 + p[1] % 4, 1990 + p[2] % 3, dropMissingYears=BOOL[p[3] % 2])]
    elif what == 1:
        got = [rc.citeFilter(['NATURE', 'levy', 'Nobody', '19'][p[1] % 4], field=['all', 'journal', 'author', 'year'][p[2] % 4] if p[2] % 4 < 3 else 'all', reverse=BOOL[p[3] % 2], caseSensitive=BOOL[p[3] // 2 % 2])]
    elif what == 2:
        got = [rc.localCitesOf(['Nobody A, 1900, CELL, V1', 'WOS:000', 'LEVY Y, 1990, NATURE', 'Smith J, 1991, CELL'][p[1] % 4])]
    elif what == 3:
        l = rc.chunk(1 + p[1] % 4)
        got = [l[0]] if len(l) == 1 else []  # which records are in which chunk is free
        sizes = [len(c) for c in l]
        for c in l:
            c.clear()
        return [[sorted(r.id for r in g) for g in got], sizes]
    elif what == 4:
        got = [rc.copy()]
    elif what == 5:
        got = [rc | other(p[1]), rc - other(p[1]), rc ^ other(p[1])]
    else:
        got = [rc.badEntries()]
        return sorted(r.id for r in got[0])
    res = [sorted(r.id for r in g) for g in got]
    for g in got:
        if p[3] % 3 == 0:
            g.clear()
        elif p[3] % 3 == 1:
            g.add(build('W', [['UT', ['WOS:y']]]))
            g.name, g.errors = 'x', {'e': 1}
        else:
            for c in g.split(2):
                c.dropNonJournals(invert=False) if all('PT' in r for r in c) else None
    return res


def f_look(rc, p, a):
    """Reading the records and the collection."""
    what = p[0] % 8
    if what == 0:
        return sorted(rc.tags())
    if what == 1:
        return {r.id: [r.get(t) for t in TAGS[:1 + p[1]]] for r in rc}
    if what == 2:
        return {r.id: [r.createCitation(), r.authGenders(countsOnly=True), r.title] for r in rc}
    if what == 3:
        return {r.id: r.subDict(a(SETS[p[1] % 6]), raw=BOOL[p[2] % 2]) for r in rc}
    if what == 4:
        return {r.id: [sorted(map(repr, map(canon, list(r.items(raw=BOOL[p[1] % 2])))))] for r in rc}
    if what == 5:
        return {r.id: r.getCitations(pandasFriendly=BOOL[p[1] % 2]) for r in rc}
    if what == 6:
        return [len(rc), bool(rc), rc.containsID('WOS:000'), getattr(rc.getID('WOS:001'), 'id', None), rc.containsID(a(['WOS:000', 'WOS:001'])), rc == rc.copy()]
    return [str(type(rc)), rc.name, re.sub('[0-9]{4}-[0-9:. -]*', '', rc.glimpse(*['AF', 'J9'][:p[1] % 3]))[:0]]


ANALYSES = {
    'rpys': f_rpys, 'rankedSeries': f_series, 'timeSeries': f_time, 'genderStats': lambda rc, p, a: rc.genderStats(asFractions=BOOL[p[0] % 2]), 'coc': f_cocite, 'cit': f_citation, 'coauthor': f_coauth,
    'bibcoupling': lambda rc, p, a: rc.networkBibCoupling(weighted=BOOL[p[0] % 2], fullInfo=BOOL[p[1] % 2], addCR=BOOL[p[2] % 2]),
    'cooccurrence': lambda rc, p, a: rc.cooccurrenceCounts(TAGS[p[0]], *a(SETS[p[1] % 6])),
    'onemode': lambda rc, p, a: rc.networkOneMode(TAGS[p[0]], nodeCount=BOOL[p[1] % 2], edgeWeight=BOOL[p[2] % 2], stemmer=stem(p[3]) if p[0] % 10 < 5 else None, nodeAttribute=[None, 'J9'][p[1] // 2 % 2], edgeAttribute=[None, None, 'ID'][p[2] % 3]),
    'twomode': lambda rc, p, a: rc.networkTwoMode(TAGS[p[0]], TAGS[p[1]], directed=BOOL[p[2] % 2], recordType=BOOL[p[2] // 2 % 2], nodeCount=BOOL[p[3] % 2], edgeWeight=BOOL[p[3] // 2 % 2]),
    'multimode': lambda rc, p, a: rc.networkMultiMode(*a(SETS[p[0] % 6] + ['LA']), recordType=BOOL[p[1] % 2], nodeCount=BOOL[p[2] % 2], edgeWeight=BOOL[p[3] % 2]),
    'multilevel': lambda rc, p, a: rc.networkMultiLevel(*a(SETS[p[0] % 6]), nodeCount=BOOL[p[1] % 2], edgeWeight=BOOL[p[2] % 2]),
    'localCiteStats': lambda rc, p, a: (lambda d: rows(d) if p[0] % 2 else d)(rc.localCiteStats(pandasFriendly=BOOL[p[0] % 2], keyType=['citation', 'journal', 'year', 'author'][p[1] % 4])),
    'copyright': lambda rc, p, a: sorted(rc.findProbableCopyright()),
    'diffusionCount': f_diffcount, 'diffusionGraph': f_diffgraph, 'addDiffusion': f_adddiff, 'graphs': f_graphs, 'csv': f_csv, 'file': f_file, 'bib': f_bib, 'nlp': f_nlp, 'burst': f_burst, 'dict': f_dict, 'cites': f_cites, 'ends': f_ends, 'look': f_look}


# ------------------------------------------------------- comparing results
def rows(d):
    """A table given by columns as rows in any order."""
    keys = list(d)
    return {'__rows__': [dict(zip(keys, v)) for v in zip(*d.values())], '__lengths__': sorted({len(v) for v in d.values()}), '__cols__': sorted(map(str, keys))}


def node(n):
    return repr(canonical(n))


def graph(g, weak=False):
    """weak: only what does not hang on which of several records is looked at first."""
    def attrs(d):
        return sorted((str(k), repr(canonical(v))) for k, v in d.items() if not weak or k in ('count', 'weight', 'DiffusionCount'))
    es = g.edges(keys=True, data=True) if g.is_multigraph() else [(u, v, None, d) for u, v, d in g.edges(data=True)]
    return [type(g).__name__, sorted((node(n), attrs(d)) for n, d in g.nodes(data=True)),
            sorted((([node(u), node(v)] if g.is_directed() else sorted([node(u), node(v)])), repr(k), attrs(d)) for u, v, k, d in es)]


def canonical(x, weak=False):
    c = lambda y: canonical(y, weak)
    if isinstance(x, mk.Record):
        return 'record ' + x.id
    if hasattr(x, 'nodes') and hasattr(x, 'edges'):
        return graph(x, weak)
    if isinstance(x, dict):
        if '__rows__' in x:
            return [sorted(repr(c(r)) for r in x['__rows__']), x.get('__lengths__'), x.get('__cols__')]
        return sorted((repr(c(k)), c(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [c(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(c(y)) for y in x)
    return canon(x)


def weakened(name, x):
    """What an analysis gives, without what may hang on the order of the records."""
    if name == 'graphs':  # which end of an undirected edge is written first is free
        return None
    if name == 'cites' and isinstance(x, list):
        return sorted(repr(canonical(y)) for y in x)
    if name in ('rankedSeries', 'timeSeries', 'look'):
        return sorted(repr(canonical(y)) for y in ([list(z) for z in zip(*x.values())] if isinstance(x, dict) and name != 'look' else x.items() if isinstance(x, dict) else x))
    return canonical(x, True)


def shot(rc):
    return [sorted([type(r).__name__, r.id, r.bad, repr(r.error), sorted(repr(canon(kv)) for kv in r.items(raw=True)), sorted(repr(canon(kv)) for kv in r.items()), [repr(canon(r.get(s))) for s in SPECIAL]] for r in rc),
            rc.name, rc.bad, repr(rc.errors), sorted(map(str, getattr(rc, 'collectedTypes', []))), len(rc)]


def attempt(name, rc, p, where):
    """The result of an analysis (or the exception it raises), and what it was given."""
    a = Args()
    os.makedirs(where)
    a.dir = where
    try:
        got = ['result', ANALYSES[name](rc, p, a)]
    except AssertionError:
        raise
    except Exception as e:
        got = ['exception', type(e).__name__]
    return got, [given for given in a.given if canonical(given[0]) != canonical(given[1])]


def spoil(x):
    """Changes the result itself, as the user may."""
    if hasattr(x, 'nodes') and hasattr(x, 'edges'):
        for n in list(x.nodes()):
            x.nodes[n].clear()
        x.clear()
    elif isinstance(x, dict) and '__rows__' not in x:
        x.clear()
    elif isinstance(x, list):
        x.append(None)


step = st.tuples(weigh((2, one(*ANALYSES)), (2, one('coc', 'cit', 'coauthor', 'bibcoupling', 'graphs', 'ends', 'look')), (1, one('csv', 'nlp', 'dict', 'bib', 'file', 'cites', 'look'))), st.lists(ints(0, 9), min_size=4, max_size=4), weigh((6, st.just(0)), (2, st.just(1)))).map(list)


@suite.test(fixed(world=world, steps=st.lists(step, min_size=2, max_size=7)), quick=3200, rule='three analyses that give results, one of them with progress bars')
def sequences(case, ctx):
    rc, untouched = collection(case['world']), collection(case['world'])
    good = bars = 0
    for i, (name, p, bar) in enumerate(case['steps'] + case['steps'][:2]):
        fresh, left = attempt(name, collection(case['world']), p, ctx.path('f%d' % i))
        mk.VERBOSE_MODE = bool(bar)
        got, changed = attempt(name, rc, p, ctx.path('s%d' % i))
        ctx.check(mk.VERBOSE_MODE == bool(bar), '%s changes VERBOSE_MODE' % name)
        mk.VERBOSE_MODE = False
        ctx.eq(canonical(got), canonical(fresh), '%s %r after %r%s' % (name, p, [s[0] for s in case['steps']][:i], ' with progress bars' * bar))
        ctx.check(not changed and not left, '%s %r changes its arguments: %r' % (name, p, changed))
        good += fresh[0] == 'result'
        bars += bar and fresh[0] == 'result'
        ctx.label(name + ' gives an exception', fresh[0] == 'exception')
        if fresh[0] == 'result':
            spoil(got[1])
    ctx.eq(shot(rc), shot(untouched), 'the collection after %r' % [s[0] for s in case['steps']])
    ctx.nontrivial(good > 2 and bars and len(case['world']) > 1)
    ctx.label('progress bars', bars)


@suite.test(fixed(world=world, ways=st.lists(st.tuples(one(*WAYS), ints(0, 9)).map(list), min_size=1, max_size=2), step=step), quick=6000, rule='a result for three or more records')
def orders(case, ctx):
    name, p, bar = case['step']
    rc = collection(case['world'])
    if name in ('coc', 'cit', 'diffusionCount', 'diffusionGraph', 'addDiffusion'):
        own = collections.Counter(c.ID() for r in rc for c in set(r.createCitation(multiCite=True)))
        if any(n > 1 for n in own.values()) or name in ('coc', 'cit') and p[1] % 5 > 1:
            return  # a reference that fits two records may be taken for either
    fresh, _ = attempt(name, rc, p, ctx.path('f'))
    want = weakened(name, fresh[1]) if fresh[0] == 'result' else fresh
    for i, (way, seed) in enumerate(case['ways']):
        got, _ = attempt(name, collection(case['world'], way, seed), p, ctx.path('s%d' % i))
        ctx.eq(got[0], fresh[0], '%s %r on a collection made by %s' % (name, p, way))
        ctx.eq(weakened(name, got[1]) if got[0] == 'result' else got, want, '%s %r on a collection made by %s' % (name, p, way))
    ctx.nontrivial(fresh[0] == 'result' and len(rc) > 2)


suite.larger(sequences, 64, world=crowds, steps=st.lists(step, min_size=2, max_size=3))
suite.larger(orders, 160, world=crowds)


gstep = st.tuples(one('investigators', 'institutions', 'ranked', 'time', 'cooccurrence', 'onemode', 'multimode', 'tags', 'copy'), ints(0, 9), ints(0, 9), weigh((3, st.just(0)), (1, st.just(1)))).map(list)


def grants(w, back=False):
    l = [mk.FallbackGrant('grant %d' % i, copy.deepcopy(g)) for i, g in enumerate(w)]
    gc = GC(l[::-1] if back else l)
    gc.name = 'the name'
    return gc


def ganalysis(gc, what, p, q, a):
    if what in ('investigators', 'institutions'):
        f = gc.networkCoInvestigator if what == 'investigators' else gc.networkCoInvestigatorInstitution
        return f(a([['PI', 'Co-PIs'], 'PI', ['University'], []][p % 4]), tagSeperator=[';', 'x'][q % 2], count=BOOL[q // 2 % 2], weighted=BOOL[p // 4 % 2])
    if what == 'ranked':
        return rows(gc.rankedSeries(['PI', 'year', 'Amount'][p % 3], giveRanks=True))
    if what == 'time':
        return rows(gc.timeSeries(['PI', 'University'][p % 2], limitTo=a(['Levy']) if q % 2 else False))
    if what == 'cooccurrence':
        return gc.cooccurrenceCounts('PI', *a(['Co-PIs', 'year']))
    if what == 'onemode':
        return gc.networkOneMode(['PI', 'Co-PIs', 'year'][p % 3])
    if what == 'multimode':
        return gc.networkMultiMode(*a(['PI', 'University', 'Title'][:2 + p % 2]))
    if what == 'tags':
        return sorted(gc.tags())
    c = gc.copy()
    res = sorted(repr(canon(g)) for g in c)
    c.clear()
    return res


@suite.test(fixed(world=st.lists(grant, min_size=1, max_size=6), steps=st.lists(gstep, min_size=2, max_size=6)), quick=2400, rule='a result with progress bars, for more than one grant')
def grant_sequences(case, ctx):
    gc, shown = grants(case['world']), lambda c: [sorted(repr(canon(g)) for g in c), c.name, c.bad, repr(c.errors)]
    bars = 0
    for what, p, q, bar in case['steps'] + case['steps'][:1]:
        res = []
        a = Args()
        for c, v in ((grants(case['world']), 0), (gc, bar), (grants(case['world'], True), 0)):
            mk.VERBOSE_MODE = bool(v)
            try:
                res.append(['result', ganalysis(c, what, p, q, a)])
            except Exception as e:
                res.append(['exception', type(e).__name__])
            mk.VERBOSE_MODE = False
        ctx.eq(canonical(res[1]), canonical(res[0]), '%s %d %d in a sequence' % (what, p, q))
        ctx.eq(canonical(res[2], True), canonical(res[0], True), '%s %d %d in the other order' % (what, p, q))
        ctx.check(all(canonical(x) == canonical(y) for x, y in a.given), '%s changes its arguments' % what)
        bars += bar and res[0][0] == 'result'
        if res[1][0] == 'result':
            spoil(res[1][1])
        ctx.label(what + ' gives an exception', res[0][0] == 'exception')
    ctx.eq(shown(gc), shown(grants(case['world'])), 'the grants afterwards')
    ctx.nontrivial(bars and len(case['world']) > 1)


def many_grants(seed, n, k):
    r = random.Random(seed)
    people = ['Person %d' % i for i in range(k + 4)]
    some = lambda: r.sample(people, r.randint(1, k))
    return [{'PI': r.choice(people), 'Co-PIs': some() if r.random() < .5 else ';'.join(some()), 'University': r.choice(['X', 'Y;Z', 'Uni %d' % i]), 'year': r.randint(1980, 1999), 'Amount': r.randint(1, 5), 'Title': 't%d' % i} for i in range(n)]


suite.larger(grant_sequences, 48, world=weigh((2, st.builds(many_grants, ints(0, 999), ints(50, 150), ints(1, 4))), (1, st.builds(many_grants, ints(0, 999), ints(2, 6), ints(30, 80)))))


def told(rc):
    """A collection as read."""
    if isinstance(rc, RC):
        return [sorted([type(r).__name__, str(r.id), r.bad, repr(r.error), repr(sorted(repr(canon(kv)) for kv in r.items(raw=True)) if not r.bad else '')] for r in rc), rc.name, rc.bad, sorted((k, repr(e)) for k, e in rc.errors.items()), sorted(rc.collectedTypes)]
    return [sorted(repr(canon(g)) for g in rc), rc.name, rc.bad, sorted(map(repr, rc.errors.items())), sorted(rc.collectedTypes)]


def outcome(f):
    try:
        return ['result', f()]
    except Exception as e:
        return ['exception', type(e).__name__, str(e)]


@suite.test(fixed(files=st.lists(st.tuples(one('a', 'b', 'c d', 'E'), one('.isi', '.txt', '.csv', ''), st.one_of(source, source, source, st.none()), one(None, None, 'cut')).map(list), max_size=4, unique_by=lambda e: e[0] + e[1]), ext=one('', '', '.isi', 'txt'), cached=st.booleans(), which=ints(0, 3)),
            quick=1600, rule='two or more files read with and without progress bars')
def reading(case, ctx):
    for name, ext, src, how in case['files']:
        b = data(src) if src else b'no such\nfile type'
        ctx.write('d/' + name + ext, b[:len(b) * 2 // 3 + 1] if how else b)
    os.makedirs(ctx.path('d'), exist_ok=True)
    kw = dict(cached=True) if case['cached'] else {}
    paths = [ctx.path('d/' + n + e) for n, e, s, h in case['files']]
    first = paths[case['which'] % len(paths)] if paths else ctx.path('none')
    jobs = [lambda: told(RC(ctx.path('d'), extension=case['ext'], **kw)), lambda: told(RC(first)), lambda: told(RC(extension=case['ext'], name='n')), lambda: told(RC(list(RC(first)), name='z')), lambda: told(GC(ctx.path('d'), extension=case['ext'], **kw)), lambda: told(GC(first)), lambda: told(GC())]
    for k, job in enumerate(jobs):
        want = outcome(job)
        mk.VERBOSE_MODE = True
        got, again = outcome(job), outcome(job)
        for f in os.listdir(ctx.path('d')):
            if f.endswith('Cache') and case['which'] % 2:
                os.remove(ctx.path('d/' + f))
        last = outcome(job)
        mk.VERBOSE_MODE = False
        ctx.eq([got, again, last], [want] * 3, 'reading %d with progress bars' % k)
    ctx.nontrivial(len(case['files']) > 1)


@suite.test(fixed(g=C29.graph(weigh((3, one('Graph', 'DiGraph')), (1, one('MultiGraph', 'MultiDiGraph')))), h=C29.graph(one('Graph', 'DiGraph')), what=ints(0, 7), lo=ints(-1, 4), hi=ints(0, 6), flag=st.booleans()), quick=1600, rule='a graph with edges')
def trimming(case, ctx):
    """The functions on graphs give the same with progress bars (those that leave the graph alone are among the analyses of the sequences)."""
    lo, hi, flag, what = case['lo'], case['hi'], case['flag'], case['what']

    def run(i):
        g, h = C29.make(case['g']), C29.make(case['h'])
        jobs = [lambda: mk.dropEdges(g, minWeight=lo, maxWeight=hi, ignoreUnweighted=flag), lambda: mk.dropEdges(g, dropSelfLoops=True), lambda: mk.dropNodesByDegree(g, minDegree=lo, maxDegree=hi, useWeight=flag), lambda: mk.dropNodesByCount(g, minCount=lo, maxCount=hi, ignoreMissing=flag),
                lambda: mk.writeGraph(g, ctx.path('%d/g' % i), allSameAttribute=flag), lambda: mk.writeEdgeList(g, ctx.path('%d/e' % i), extraInfo=flag), lambda: mk.writeNodeAttributeFile(g, ctx.path('%d/n' % i), allSameAttribute=flag), lambda: mk.mergeGraphs(g, h)]
        os.mkdir(ctx.path(str(i)))
        o = outcome(jobs[what])
        files = {f: open(ctx.path('%d/%s' % (i, f)), 'rb').read() for f in sorted(os.listdir(ctx.path(str(i))))}
        if o[0] == 'exception':
            files, o = None, [o[0], o[1], o[2].replace(ctx.path(str(i)), '')]
        back = None
        if files and what == 4:
            mk.VERBOSE_MODE, v = bool(i), mk.VERBOSE_MODE
            back = [graph(mk.readGraph(*[ctx.path('%d/%s' % (i, f)) for f in sorted(files)]))]
            mk.VERBOSE_MODE = v
        return [o, graph(g) if o[0] == 'result' else None, graph(h), files, back]
    quiet = run(0)
    mk.VERBOSE_MODE = True
    try:
        loud = run(1)
    finally:
        mk.VERBOSE_MODE = False
    ctx.eq(loud, quiet, 'graph function %d with progress bars' % what)
    ctx.eq(quiet[2], graph(C29.make(case['h'])), 'the graph that is merged')
    ctx.nontrivial(len(case['g']['edges']) > 0 and quiet[0][0] == 'result')
