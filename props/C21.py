"""C21: co-authorship networks of generated collections are compared with an independent count of the authors, author pairs and citations of the records considered."""
import collections
import random

from hypothesis import strategies as st

from mkv import env
from mkv.core import Suite
from mkv.gen import WOS_NAMES, any_record, author_short, cite_line, fixed, ints, one, tup, weigh
from mkv.worlds import crowds, edges, make, nodes

suite = Suite('C21')
NAMES = ['Levy, Yvonne', 'Levy, Y', 'Smith, John', 'Li, Xin', "O'Brien, Kate", 'Group']
REFS = ['LEVY Y, 1975, NATURE', 'Levy Y, 1975, NATURE', 'SMITH J, 1980, CELL, V1, P2', 'LI X, 1999, PAIN', 'LI X, 1999, PAIN, V2', 'Anonymous, 1980, NATURE, DOI 10.1/x']


@st.composite
def rec(draw):
    f = [['PT', ['J']], ['UT', ['WOS:1']]]
    n = draw(ints(0, 9))
    if n > 0:
        f.append(['AF', draw(st.lists(one(*NAMES[:4]), min_size=1, max_size=4, unique=n < 8))])
    if n != 1:
        f.append(['AU', draw(st.lists(st.one_of(one('Levy, Y', 'Smith, J', 'Levy,Y', 'Smith, J, Jr'), author_short), min_size=1, max_size=3, unique=n < 7))])
    if n != 2:
        f.append(['PY', [draw(one('1990', '1991'))]])
    if draw(ints(0, 4)):
        f.append(['J9', [draw(one('NATURE', 'CELL', 'PAIN', 'J THEOR BIOL', 'Nature', 'CELLS'))]])
    if draw(ints(0, 4)):
        f.append(['TI', [draw(one('On x, y', 'NATURE', 'z'))]])
    if draw(ints(0, 3)):
        f.append(['CR', draw(st.lists(st.one_of(one(*REFS), cite_line()), min_size=1, max_size=4))])
    for t, vals in (('VL', ['5', '12']), ('BP', ['1', 'e,7']), ('DE', ['a; b', 'c, d', 'a,b; c']), ('SO', ['NATURE, J'])):
        if draw(st.booleans()):
            f.append([t, [draw(one(*vals))]])
    return ['W', f]


worlds = weigh((5, st.lists(rec(), min_size=2, max_size=7)), (1, st.lists(rec(), max_size=2)), (1, st.lists(st.one_of(rec(), any_record()), max_size=6)))
DEFAULT_INFO = ['year', 'title', 'journal', 'volume', 'beginningPage']
infos = weigh((3, st.just(False)), (2, st.just(True)), (2, st.lists(one('AF', 'AU', 'PY', 'TI', 'DE', 'VL', 'year', 'keywords', 'journal', 'title', 'CR', 'BP'), min_size=1, max_size=3, unique=True)))
SHORT = {v: k for k, v in WOS_NAMES.items()}


def info(r, tags):
    d = {}
    for t in tags:
        v = r.get(t)
        d[t] = ', '.join(str(x).replace(',', '') for x in v) if isinstance(v, list) else str(v).replace(',', '')
    return d


def is_journal(r):
    """Whether the record's journal is in the journal table: worked out from its fields where these leave no doubt."""
    if r.get('AU') and r.get('PY') and (r.get('J9') or r.get('TI')) and ',' not in (r.get('J9') or r.get('TI')):
        return (r.get('J9') or r.get('TI')).upper() in env.J9
    return bool(r.createCitation().isJournal())


@suite.test(fixed(world=worlds, info=infos, weighted=st.booleans(), drop=weigh((2, st.just(False)), (1, st.just(True))), count=weigh((2, st.just(True)), (1, st.just(False))), short=st.booleans(), profile=st.booleans(), seed=ints(0, 3)),
            quick=8000, rule='an author in two records, at least one edge')
def coauthor(case, ctx):
    col, recs = make(['R', case['world']])
    names = 'authorsShort' if case['short'] else 'authorsFull'
    used = [r for r in recs if not case['drop'] or is_journal(r)]
    count, weight, of = collections.Counter(), collections.Counter(), collections.defaultdict(list)
    for r in used:
        auths = r.get(names) or []
        count.update(auths)
        for a in set(auths):
            of[a].append(r)
        for i in range(len(auths)):
            for j in range(i):
                weight[tuple(sorted((auths[i], auths[j]), key=repr))] += 1
    kw = {}
    for k, v, default in (('detailedInfo', case['info'], False), ('weighted', case['weighted'], True), ('dropNonJournals', case['drop'], False), ('count', case['count'], True), ('useShortNames', case['short'], False), ('citeProfile', case['profile'], False)):
        if v != default:
            kw[k] = v
    tags = [] if case['info'] is False else DEFAULT_INFO if case['info'] is True else list(dict.fromkeys(SHORT.get(t, t) for t in case['info']))
    again = list(recs)
    random.Random(case['seed']).shuffle(again)
    for what, c in (('', col), ('reordered collection: ', type(col)(again))):
        g = c.networkCoAuthor(**kw)
        ctx.eq((g.is_directed(), g.is_multigraph()), (False, False), what + 'kind of graph')
        n, e = nodes(g), edges(g)
        ctx.eq(set(n), set(count), what + 'nodes')
        ctx.eq(set(e), set(weight), what + 'edges')
        for a, d in n.items():
            want = set(tags) | ({'count'} if case['count'] else set()) | ({'citeProfileCites', 'citeProfileCounts'} if case['profile'] else set())
            ctx.eq(set(d), want, '%sattributes of %r' % (what, a))
            if case['count']:
                ctx.eq(d['count'], count[a], '%scount of %r' % (what, a))
            if tags:
                got = {t: d[t] for t in tags}
                ctx.check(got in [info(r, tags) for r in of[a]], lambda: '%sinfo of %r is %r, that of no record of this author: %r' % (what, a, got, [info(r, tags) for r in of[a]]))
            if case['profile']:
                cites = collections.Counter(c for r in of[a] for c in r.get('citations') or [])
                strs = d['citeProfileCites'].split('|') if cites or d['citeProfileCites'] else []
                nums = d['citeProfileCounts'].split('|') if cites or d['citeProfileCounts'] else []
                if any('|' in str(c) for r in of[a] for c in r.get('citations') or []):
                    continue
                ctx.eq((len(strs), len(nums)), (len(cites), len(cites)), '%snumber of cited works of %r' % (what, a))
                spelt = collections.defaultdict(set)
                for r in of[a]:
                    for c in r.get('citations') or []:
                        spelt[c].add(str(c))
                left = collections.Counter((frozenset(spelt[c]), m) for c, m in cites.items())
                for s, m in zip(strs, nums):
                    hit = [k for k in left if left[k] and s in k[0] and str(k[1]) == m]
                    ctx.check(hit, lambda: '%scitation profile of %r has %r %s times, but the records have %r' % (what, a, s, m, cites))
                    left[hit[0]] -= 1
        for k, d in e.items():
            ctx.eq(d, {'weight': weight[k]} if case['weighted'] else {}, '%sattributes of edge %r' % (what, k))
    ctx.nontrivial(weight and any(len(v) > 1 for v in of.values()))
    ctx.label('journals only', case['drop'] and 0 < len(used) < len(recs))
    ctx.label('author twice in a record', any(k[0] == k[1] for k in weight))
    ctx.label('profile', case['profile'] and any(r.get('citations') for r in used))


suite.larger(coauthor, 240, world=crowds)
