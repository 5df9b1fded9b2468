"""C22: co-citation networks of generated collections are compared with an independent count of the cited works (by node type) and citing pairs that remain after the filters."""
import collections
import random

from hypothesis import strategies as st

from mkv import env
from mkv.core import Suite
from mkv.env import exc
from mkv.gen import WOS_NAMES, any_record, cite_line, fixed, ints, one, scopus_ref, weigh
from mkv.worlds import crowds, edges, make, nodes

suite = Suite('C22')
AUTHORS = ['Levy, Y', 'Smith, J', 'Li, X', 'Anon']
REFS = ['LEVY Y, 1975, NATURE', 'Levy Y., 1975, Nature, V1, P2', 'LEVY Y, 1976, NATURE, V5', 'SMITH J, 1976, CELL, V1, DOI 10.1/x', 'Smith J, 1976, PAIN', 'SMITH J, 1975, PAIN, V12, P5, DOI 10.2/y', '[Anonymous], 1976, NATURE',
        '[ANONYMOUS], 1980, REPORT', 'Li X', '1975, CELL', 'SMITH J, 1976', 'LI X, 1976, SOC NETW, V3, ARTN 5', 'NATURE']
SREFS = ['Levy, Y., On x (1975) Nature, 5, pp. 1-9', 'Levy, Y., (1975) Nature', 'Smith, J., Li, X., Y z (1976) Cell, 7 (2), pp. 3-4', 'A book without a year', 'Li, X., On y (1976) Pain, 5']


@st.composite
def rec(draw):
    if draw(ints(0, 7)) == 0:
        d = {'EID': '2-s2.0-1', 'Authors': draw(one('Levy Y.', 'Smith J.')), 'Year': draw(one('1975', '1976')), 'Abbreviated Source Title': draw(one('NATURE', 'Pain')), 'Title': 'T'}
        if draw(ints(0, 4)):
            d['References'] = '; '.join(draw(st.lists(st.one_of(one(*SREFS), scopus_ref()), min_size=1, max_size=4)))
        return ['S', d]
    f = [['PT', ['J']], ['UT', ['WOS:1']]]
    if draw(ints(0, 5)):
        f.append(['AU', draw(st.lists(one('Levy, Y', 'Smith, J', 'Smith, J', 'Li, X'), min_size=1, max_size=2, unique=True)) if draw(ints(0, 7)) else ['[Anonymous]']])
    if draw(ints(0, 7)):
        f.append(['PY', [draw(one('1975', '1976'))]])
    if draw(ints(0, 7)):
        f.append(['J9', [draw(one('NATURE', 'NATURE', 'CELL', 'PAIN'))]])
    for t, vals in (('VL', ['5', '12']), ('BP', ['1']), ('TI', ['On x, y', 'NATURE']), ('DE', ['a; b', 'c, d']), ('SO', ['NATURE, J']), ('AF', ['Levy, Yvonne']), ('DI', ['10.5/z'])):
        if draw(ints(0, 2)) == 0:
            f.append([t, [draw(one(*vals))]])
    if draw(ints(0, 7)):
        f.append(['CR', draw(st.lists(weigh((9, one(*REFS)), (1, cite_line())), min_size=1, max_size=6))])
    return ['W', f]


worlds = weigh((6, st.lists(rec(), min_size=2, max_size=6)), (1, st.lists(rec(), max_size=2)), (1, st.lists(st.one_of(rec(), any_record()), max_size=5)))
TYPES = ['full', 'original', 'author', 'journal', 'year']
DEFAULT_CORE = ['id', 'authorsFull', 'year', 'title', 'journal', 'volume', 'beginningPage']
SHORT = {v: k for k, v in WOS_NAMES.items()}
rarely = weigh((3, st.just(False)), (1, st.just(True)))
mostly = weigh((3, st.just(True)), (1, st.just(False)))
words = weigh((4, st.none()), (1, one('nature', 'V', '1975', 'Levy Y', 'zzz', 'DOI')), (1, st.lists(one('cell', 'LI', 'zzz', 'p2', '1976', ', V'), min_size=1, max_size=3)))
core = weigh((3, st.just(True)), (2, st.just(False)), (2, st.lists(one('AF', 'TI', 'SO', 'authorsFull', 'UT', 'AU', 'DE', 'title', 'CR', 'PY'), min_size=1, max_size=3, unique_by=lambda t: SHORT.get(t, t))))
common = dict(world=worlds, type=weigh((5, one(*TYPES)), (3, st.just('full'))), info=mostly, full=rarely, weighted=mostly, journals=rarely, count=mostly, words=words, wordkind=one('list', 'tuple', 'set'), core=core, attrs=rarely, coreonly=rarely, cr=rarely, anon=st.booleans(),
              seed=ints(0, 3))


def ident(c, typ):
    return c.ID() if typ == 'full' else getattr(c, typ, None)


def keeper(case, own):
    """The filters, as the documentation gives them."""
    kws = case['words']
    kws = [] if kws is None else [kws] if isinstance(kws, str) else kws

    def keep(c):
        if case['type'] != 'full' and not ident(c, case['type']):
            return False
        if case['journals'] and getattr(c, 'journal', None) not in env.J9:
            return False
        if case['anon'] and getattr(c, 'author', '[Anonymous]') == '[Anonymous]':
            return False
        if case['coreonly'] and c.ID() not in own:
            return False
        return not any(k.upper() in str(c).upper() for k in kws)
    return keep


def arguments(case, anon_default):
    kw = {}
    w = case['words']
    if isinstance(w, list):
        w = {'list': list, 'tuple': tuple, 'set': set}[case['wordkind']](w)
    for k, v, default in (('nodeType', case['type'], 'full'), ('nodeInfo', case['info'], True), ('fullInfo', case['full'], False), ('weighted', case['weighted'], True), ('dropNonJournals', case['journals'], False), ('count', case['count'], True),
                          ('keyWords', w, None), ('detailedCore', case['core'], True), ('detailedCoreAttributes', case['attrs'], False), ('coreOnly', case['coreonly'], False), ('addCR', case['cr'], False), ('dropAnon', case['anon'], anon_default)):
        if v != default:
            kw[k] = v
    return kw


def core_info(r, tags, years):
    out = []
    for t in tags:
        v = r.get(t)
        if isinstance(v, list):
            v = str(v[0])
        if isinstance(v, int) and years:
            v = str(v)
        if isinstance(v, str):
            out.append(v.replace(',', ''))
    return ', '.join(out)


def check_nodes(ctx, case, what, n, count, works, own):
    """works: id -> citations that made the node; own: id -> records whose own citation has that id."""
    typ = case['type']
    tags = DEFAULT_CORE if case['core'] is True else list(dict.fromkeys(SHORT.get(t, t) for t in case['core'])) if case['core'] else []
    ctx.eq(set(n), set(count), what + 'nodes')
    for i, d in n.items():
        d = dict(d)
        if case['count']:
            ctx.eq(d.pop('count', None), count[i], '%scount of %r' % (what, i))
        if case['full']:
            s = d.pop('fullCite', None)
            ctx.check(s in {str(c) for c in works[i]}, lambda: '%sfullCite of %r is %r, which no citation of this work reads' % (what, i, s))
        if case['info']:
            if typ == 'full' and tags:
                incore = d.pop('inCore', None)
                mk_id = d.pop('MK-ID', None)
                ctx.eq(incore, i in own, '%sinCore of %r' % (what, i))
                if incore:
                    rs = [r for r in own[i] if r.id == mk_id]
                    ctx.check(rs, lambda: '%sMK-ID of %r is %r, not that of a record with this citation' % (what, i, mk_id))
                    r = rs[0]
                    if case['attrs']:
                        for t in tags:
                            v = r.get(t)
                            ctx.eq(d.pop(t, 'missing'), '|'.join(sorted(str(x) for x in v)) if isinstance(v, list) else v, '%s%s of core node %r' % (what, t, i))
                    else:
                        s = d.pop('info', None)
                        ctx.check(s in (core_info(r, tags, False), core_info(r, tags, True)), lambda: '%sinfo of core node %r is %r, expected %r' % (what, i, s, core_info(r, tags, False)))
                    if case['cr']:
                        ctx.eq(d.pop('citations', None), '|'.join(str(c) for c in r.get('citations') or []), '%scitations of %r' % (what, i))
                else:
                    ctx.eq(mk_id, 'None', '%sMK-ID of %r' % (what, i))
                    s = d.pop('info', None)
                    ctx.check(s in {c.allButDOI() for c in works[i]}, lambda: '%sinfo of %r is %r, expected that of one of %r' % (what, i, s, works[i]))
                    if case['cr']:
                        ctx.eq(d.pop('citations', None), '', '%scitations of %r' % (what, i))
            else:
                s = d.pop('info', None)
                want = {'full': lambda c: c.allButDOI(), 'original': str, 'author': lambda c: c.author, 'year': lambda c: c.year, 'journal': lambda c: env.J9.get(c.journal, ['None'])[0]}[typ]
                ctx.check(s in {want(c) for c in works[i]}, lambda: '%sinfo of %r is %r, expected one of %r' % (what, i, s, {want(c) for c in works[i]}))
        ctx.eq(d, {}, '%sother attributes of %r' % (what, i))


def owners(recs):
    own = collections.defaultdict(list)
    for r in recs:
        own[r.createCitation().ID()].append(r)
    return own


def orders(col, recs, seed):
    again = list(recs)
    random.Random(seed).shuffle(again)
    return (('', col), ('reordered collection: ', type(col)(again)))


@suite.test(fixed(**common), quick=9000, rule='two records share a cited work and an edge remains')
def cocitation(case, ctx):
    col, recs = make(['R', case['world']])
    typ = case['type']
    own = owners(recs)
    keep = keeper(case, own)
    count, weight, works, left = collections.Counter(), collections.Counter(), collections.defaultdict(list), 0
    per = []
    for r in recs:
        cites = [c for c in r.get('citations') or [] if keep(c)]
        left += len(r.get('citations') or []) - len(cites)
        ids = [ident(c, typ) for c in cites]
        per.append(set(ids))
        count.update(ids)
        for i, c in zip(ids, cites):
            works[i].append(c)
        for i in range(len(ids)):
            for j in range(i):
                weight[tuple(sorted((ids[i], ids[j]), key=repr))] += 1
    kw = arguments(case, True)
    for what, c in orders(col, recs, case['seed']):
        g = c.networkCoCitation(**kw)
        ctx.eq((g.is_directed(), g.is_multigraph()), (False, False), what + 'kind of graph')
        check_nodes(ctx, case, what, nodes(g), count, works, own)
        e = edges(g)
        ctx.eq(set(e), set(weight), what + 'edges')
        for k, d in e.items():
            ctx.eq(d, {'weight': weight[k]} if case['weighted'] else {}, '%sattributes of edge %r' % (what, k))
    with ctx.raises(exc.RCValueError, 'an unknown node type'):
        col.networkCoCitation(nodeType='title')
    ctx.nontrivial(weight and any(per[i] & per[j] for i in range(len(per)) for j in range(i)))
    ctx.label('type ' + typ)
    ctx.label('filtered', left > 0 and len(count) > 0)
    ctx.label('core node', any(i in own for i in count))


suite.larger(cocitation, 240, world=crowds)


@suite.test(fixed(world=worlds, type=one('full', 'full', 'original', 'author'), weighted=mostly, anon=st.booleans(), info=mostly, coreonly=rarely, seed=ints(0, 3)), quick=3000, rule='a record of two or more authors is cited in the collection')
def expanded(case, ctx):
    """The network with every cited record of the collection once for each of its authors."""
    col, recs = make(['R', case['world']])
    typ = case['type']
    kw = dict(nodeType=typ, weighted=case['weighted'], dropAnon=case['anon'], nodeInfo=case['info'], coreOnly=case['coreonly'])
    own = [[i for i in (ident(c, typ) for c in r.createCitation(multiCite=True)) if i] for r in recs]
    for what, c in orders(col, recs, case['seed']):
        g, h = c.networkCoCitation(**kw), c.networkCoCitation(expandedCore=True, **kw)
        n, m = nodes(g), nodes(h)
        for i, d in n.items():
            ctx.eq(m.get(i), d, '%snode %r' % (what, i))
        for u, v in g.edges():
            ctx.check(h.has_edge(u, v), lambda: '%sthe edge %r is lost' % (what, (u, v)))
        for u, v, d in h.edges(data=True):
            ctx.eq(sorted(d), ['weight'] if case['weighted'] else [], '%sattributes of edge %r' % (what, (u, v)))
            ctx.check(not case['weighted'] or d['weight'] >= 1, '%sweight of edge %r' % (what, (u, v)))
        cited = False
        for ids in own:
            i = next((i for i in ids if i in n), None)
            if i is None or len(ids) < 2:
                continue
            rest = ids[ids.index(i):]
            cited = cited or len(rest) > 1
            for a, j in enumerate(rest):
                ctx.check(j in m, lambda: '%s%r has no node beside %r' % (what, j, i))
                for k in rest[:a]:
                    ctx.check(h.has_edge(j, k), lambda: '%s%r and %r are not joined' % (what, j, k))
                if a:
                    for k in g[i]:
                        ctx.check(h.has_edge(j, k), lambda: '%s%r is not joined with %r, as %r is' % (what, j, k, i))
        for i, d in m.items():
            if i not in n:
                ctx.check(any(i in ids and any(j != i and m.get(j) == d for j in ids) for ids in own), lambda: '%snode %r with %r is of no cited record' % (what, i, d))
        if not any(i in n for ids in own for i in ids):
            ctx.eq((m, edges(h)), (n, edges(g)), what + 'network without cited records')
        ctx.nontrivial(cited)


suite.larger(expanded, 40, world=crowds)
