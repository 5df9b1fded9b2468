"""C17: generated collections are turned into makeDict and getCitations tables, which are compared row by row with the records and with an independent count of their citations."""
from hypothesis import strategies as st

from mkv.core import Suite
from mkv.worlds import crowds
from mkv.gen import RC, WOS_NAMES, WOSRecord, any_record, author_full, author_short, build, canon, cite_line, fixed, ints, maybe, one, scopus_ref, tup, wos_fields
from props.C15 import GEN, genders, names, records, short

suite = Suite('C17')
ALLTAGS = sorted(WOS_NAMES)


@st.composite
def small_wos(draw):
    f = [['UT', ['WOS:%03d' % draw(ints(0, 30))]]]
    for t in draw(st.lists(one('AF', 'PY', 'LA', 'J9', 'AU', 'DE', 'TI', 'CR', 'PT', 'VL'), min_size=2, max_size=8, unique=True)):
        f.append([t, draw({'AF': st.lists(author_full, min_size=1, max_size=4), 'PY': one(['1990'], ['1991']), 'LA': one(['English'], ['French']), 'J9': one(['NATURE'], ['CELL']),
                           'AU': st.lists(author_short, min_size=1, max_size=3), 'DE': one(['a; b'], ['a; a; c']), 'PT': one(['J'], ['B']), 'CR': st.lists(cite_line(), min_size=1, max_size=4),
                           'TI': one(['On x'], ['y', 'z']), 'VL': one(['12'])}[t])])
    return f


wos = tup(st.just('W'), small_wos())
collection = st.one_of(st.lists(wos, min_size=1, max_size=5), st.lists(st.one_of(wos, any_record()), max_size=4), st.lists(any_record(), max_size=3))
request = st.one_of(st.none(), st.lists(names, min_size=1, max_size=6), st.lists(one(*ALLTAGS), min_size=1, max_size=8), st.lists(one(*WOS_NAMES.values()), min_size=1, max_size=5),
                    st.lists(one('id', 'title', 'authorsFull', 'year', 'citations', 'keywords', 'journal', 'volume', 'AF', 'PY', 'CR', 'DE'), min_size=1, max_size=5), st.just([]))


@suite.test(fixed(recs=collection, only=request, kind=one('list', 'tuple'), long=one(False, False, True), raw=st.booleans(), num=st.booleans(), gen=st.booleans()), quick=3000,
            rule='at least two records and a column with both a value and a missing one')
def make_dict(case, ctx):
    recs = records(case['recs'])
    rc = RC(recs)
    only = case['only']
    if only:
        asked = {short(t): t for t in only}
        cols = list(asked)
    else:
        asked, cols = {}, sorted({t for r in recs for t in r})
    if case['long']:
        if not set(cols) <= set(WOS_NAMES) or not all(isinstance(r, WOSRecord) for r in recs):
            return
        cols, asked = [WOS_NAMES[t] for t in cols], {}
    arg = None if only is None else {'list': list, 'tuple': tuple}[case['kind']](only)
    defaults = not case['raw'] and not case['long'] and case['num'] and case['gen']
    for i in range(2):
        d = rc.makeDict(arg) if defaults and i else rc.makeDict(onlyTheseTags=arg, longNames=case['long'], raw=case['raw'], numAuthors=case['num'], genderCounts=case['gen'])
        if arg is not None:
            ctx.eq(list(arg), only, 'onlyTheseTags after the call')
        allcols = cols + ['num-Authors'] * case['num'] + GEN * case['gen']
        ctx.eq(sorted(d), sorted(allcols), 'columns')
        ctx.eq({k: len(v) for k, v in d.items()}, {k: len(recs) for k in allcols}, 'lengths of the columns')
        want = []
        for r in recs:
            w = [canon(r.get(asked.get(c, c), raw=case['raw'])) for c in cols]
            if case['num']:
                w.append(canon(len(r.get('authorsShort', []))))
            if case['gen']:
                w += [canon(x) for x in genders(r.get('authorsFull', []) or [])]
            want.append(repr(w))
        got = [repr([canon(d[c][j]) for c in allcols]) for j in range(len(recs) if allcols else 0)]
        if allcols:
            ctx.eq(sorted(got), sorted(want), 'rows')
    ctx.nontrivial(len(recs) > 1 and any(None in v and any(x is not None for x in v) for v in d.values()))
    ctx.label('requested', bool(only))
    ctx.label('other sources', any(not isinstance(r, WOSRecord) for r in recs))


suite.larger(make_dict, 240, recs=crowds)


REFS = ['LEVY Y, 1975, NATURE', 'LEVY Y., 1975, NATURE, V1, P2', 'levy y, 1975, Nature, DOI 10.1/x', 'SMITH J, 1975, NATURE', 'SMITH J, 1976, CELL, V1', 'SMITH J, NATURE', '1975, NATURE', '[Anonymous], 1980, PAIN', 'Smith J',
        'LEVY Y, 1976, NATURE, V1, ARTN 5, DOI 10.1/x', '*WHO, 1976, REP', 'LEVY YA, 1975, NAT, V12, P22', 'SMITH J, 1976, NATURE MED, V1']
SREFS = ['Levy, Y., On x (1975) Nature, 5, pp. 1-9', 'Levy, Y., On x (1975) Nature', 'Smith, J., Li, X., Y z (1976) Cell, 7 (2), pp. 3-4', 'A book without a year', 'Levy, Y., On y (1976) Nature, 5']


@st.composite
def citing(draw):
    if draw(ints(0, 3)):
        return ['W', [['UT', ['WOS:%03d' % draw(ints(0, 40))]]] + ([['CR', draw(st.lists(st.one_of(one(*REFS), one(*REFS), cite_line()), min_size=1, max_size=7))]] if draw(ints(0, 5)) else [])]
    d = {'EID': '2-s2.0-%d' % draw(ints(0, 40))}
    if draw(ints(0, 5)):
        d['References'] = '; '.join(draw(st.lists(st.one_of(one(*SREFS), scopus_ref()), min_size=1, max_size=4)))
    return ['S', d]


FIELDS = ['year', 'journal', 'author', 'V', 'P', 'DOI', 'name', 'issue', 'original', 'no such field']
VALUES = {'year': [1975, 1976, 1980, 1990, 5], 'journal': ['NATURE', 'CELL', 'PAIN', 'nature', 'NATURE MED', 'NAT'], 'author': ['Levy Y', 'Smith J', 'Levy Ya', '[Anonymous]', 'LEVY, Y.'], 'V': ['V1', '5', '7', 'V2', 'V12'], 'P': ['P2', '1-9', '1', 'P22'],
          'DOI': ['10.1/X', '10.1/x'], 'name': ['ON X ', 'Y Z '], 'issue': ['2'], 'original': REFS + SREFS, 'no such field': ['x']}
query = st.one_of(st.none(), one(*FIELDS).flatmap(lambda f: tup(st.just(f), st.one_of(st.none(), one(*VALUES[f]), st.lists(one(*VALUES[f]), max_size=3)))))


def attrs(c):
    return tuple(getattr(c, k, None) for k in ('year', 'journal', 'author'))


def check_table(ctx, d, cites, counts, what):
    cols = ['citeString', 'year', 'journal', 'author'] + (['num-cites', 'fraction-cites-overall', 'fraction-cites-year'] if counts else [])
    ctx.eq(sorted(d), sorted(cols), what + ': columns')
    groups = {}
    for c in cites:
        groups.setdefault(c.ID(), []).append(c)
    ctx.eq({k: len(v) for k, v in d.items()}, {k: len(groups) for k in cols}, what + ': lengths of the columns')
    left = dict(groups)
    for i in range(len(groups)):
        row = {k: d[k][i] for k in cols}
        hit = [k for k, cs in left.items() if any(str(c) == row['citeString'] and attrs(c) == (row['year'], row['journal'], row['author']) for c in cs)]
        ctx.check(hit, '%s: row %r is of no citation that is left: %s' % (what, row, sorted(left)))
        cs = left.pop(hit[0])
        if counts:
            ctx.eq(row['num-cites'], len(cs), '%s: count of %s' % (what, hit[0]))
            ctx.check(abs(row['fraction-cites-overall'] - len(cs) / len(cites)) < 1e-12, '%s: overall fraction of %s: %r' % (what, hit[0], row['fraction-cites-overall']))
            if row['year'] is not None:
                same = sum(1 for c in cites if getattr(c, 'year', None) == row['year'])
                ctx.check(abs(row['fraction-cites-year'] - len(cs) / same) < 1e-12, '%s: fraction of the year of %s: %r, expected %d/%d' % (what, hit[0], row['fraction-cites-year'], len(cs), same))


@suite.test(fixed(recs=st.lists(citing(), max_size=5), q=query, counts=st.booleans(), kind=one('list', 'tuple', 'set')), quick=4000, rule='a distinct citation of the result occurs twice')
def citations(case, ctx):
    recs = records(case['recs'])
    rc = RC(recs)
    field, values = case['q'] or (None, None)
    arg = {'list': list, 'tuple': tuple, 'set': set}[case['kind']](values) if isinstance(values, list) else values
    kw = {} if case['q'] is None else {'field': field, 'values': arg}
    allowed = None if values is None else values if isinstance(values, list) else [values]
    before = {r.id: canon(r.get('citations', [])) for r in recs}
    per = {}
    for r in recs:
        per[r.id] = [c for c in r.get('citations', []) if field is None or getattr(c, field, None) is not None and (allowed is None or getattr(c, field) in allowed)]
        check_table(ctx, r.getCitations(**kw), per[r.id], False, 'record %s' % r.id)
        ctx.eq([canon(c) for c in r.getCitations(pandasFriendly=False, **kw)], [canon(c) for c in per[r.id]], 'list of record %s' % r.id)
    cites = [c for r in recs for c in per[r.id]]
    check_table(ctx, rc.getCitations(counts=case['counts'], **kw), cites, case['counts'], 'collection')
    check_table(ctx, rc.getCitations(**kw), cites, True, 'collection, default')
    lst = rc.getCitations(pandasFriendly=False, **kw)
    ctx.eq(sorted(c.ID() for c in lst), sorted({c.ID() for c in cites}), 'list of the collection')
    if isinstance(values, list):
        ctx.eq(sorted(map(repr, arg)), sorted(map(repr, set(values) if case['kind'] == 'set' else values)), 'values after the call')
    ctx.eq({r.id: canon(r.get('citations', [])) for r in recs}, before, 'citations after the calls')
    ctx.nontrivial(len(cites) > len({c.ID() for c in cites}))
    ctx.label('filtered', field is not None and 0 < len(cites))


suite.larger(citations, 240, recs=crowds)
